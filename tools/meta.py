#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json (run by hand, output is committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, observe=observe))
S = 'src/server/'
AI = 'forward abstract interpretation (linear constraints + typestate) of the inlined LLVM IR of every request handler'
TB = ' Trusts clang, the LLVM canonicalisation passes and the analyser in /verif/lib; tag data, queue buffers and database entries are assumed not to overlap each other (typed-heap assumption).'

prop('S03', 'Read-only tags are changed only by their owner',
     'No request from any connection changes the value of a tag that is read-only, unless the tag is owned and the request comes from the connection that owns it. This holds for every kind of request that can write: plain, masked, group and atomic writes, overrides, and mappings set up by the request.',
     ['inputs', 'histories'], 'every request (any bytes, any length), every tag, every combination of owner and requester',
     'The tests write to one read-only tag with one request type from one module; the write paths for masks, groups, atomics and mappings and other owners are not sampled.',
     [S+'tagbase.c', S+'message.c', S+'groups.c', S+'atomic.c', S+'mapping.c', S+'virtualtag.c'],
     [('read-only test before each write', S+'message.c'), ('attribute handling', S+'tagbase.c')],
     'Skolemised-tag abstract interpretation: reachability of a store into a protected tag', 'Proof over all paths of all handlers.' + TB)
prop('S04', 'Every change of a tag value raises its events',
     'After a request, or a mapping it triggers, changes any byte of any tag, the events registered on that byte are evaluated before the request is finished. The evaluation covers every registered event of the tag, and an event that asks to be told of every write of those bytes is sent to the module that registered it.',
     ['inputs', 'histories'], 'every request, every tag, every changed byte, every list of registered events',
     'Tests register a few events and write a few ranges; they cannot cover each writer times each byte range times each event list.',
     [S+'tagbase.c', S+'atomic.c', S+'groups.c', S+'mapping.c', S+'events.c', S+'virtualtag.c', S+'message.c'],
     [('event_check after each store', S+'tagbase.c'), ('event list walk', S+'events.c')],
     'Skolemised-byte typestate analysis (store must be followed by a covering event check) and list-walk analysis', 'Proof over all paths; which values make a compare, deadband or bit event fire is not decided. Tags below 512 MiB.' + TB)
prop('S05', 'Every change of a retained tag is written to the retention store',
     'When a request changes the value of a tag that is retained, the complete new value of that tag has been handed to the retention store, for the record of that tag, before the request is answered. This includes changes made by masked, group and atomic writes and by mappings.',
     ['inputs', 'histories', 'crash_points'], 'every request, every retained tag, a crash at any time after the reply',
     'Tests restart the server after one or two writes; they do not cover every writer or the moment of the crash.',
     [S+'tagbase.c', S+'atomic.c', S+'retain.c', S+'message.c', S+'mapping.c', S+'groups.c'],
     [('ret_tag_write after each store', S+'tagbase.c'), ('update statement', S+'retain.c')],
     'Skolemised-tag typestate analysis (store must be followed by the retention write before any reply) and typestate of the retention primitive', 'Proof over all paths that the store primitive is called with the whole value; what SQLite does with it is trusted.' + TB)
prop('S06', 'Every change of a mapping source is copied to its destination',
     'When a write, masked write, group write or atomic operation of a module changes bytes of a tag, every mapping whose source range includes any of those bytes is applied before the request is finished. Applying a mapping writes its complete source range to its own destination tag at its own destination position. A change that a mapping itself makes need not trigger further mappings.',
     ['inputs', 'histories'], 'every request that changes a tag, every changed byte, every list of mappings',
     'Tests exercise a handful of mappings with plain writes.',
     [S+'message.c', S+'groups.c', S+'atomic.c', S+'mapping.c'],
     [('map_check after each accepted write', S+'message.c'), ('mapping list walk', S+'mapping.c')],
     'Skolemised-byte typestate analysis and list-walk analysis', 'Proof over all paths; the bit shifting of bit mappings is not decided, nor are mappings applied when memory runs out. Tags below 512 MiB.' + TB)
prop('S07', 'Every request gets exactly one well-formed reply',
     'For every request that reaches it, whatever its command number and contents, the server sends exactly one reply: to the connection the request came from, carrying the command number of the request, no larger than a message can be, and marked as either success or failure. A failure reply always carries a non-zero error code.',
     ['inputs', 'histories'], 'every command number, every payload and length, every state of the database, all error paths',
     'Tests check replies of well-formed requests and a few malformed ones; error paths (allocation failure, short messages) are not reached.',
     [S+'message.c', S+'groups.c'],
     [('command table and dispatcher', S+'message.c'), ('_message_send', S+'message.c')],
     'path-sensitive reply counting (typestate) over all handlers and the dispatcher', 'Proof over all paths of all handlers; the write to the socket itself is trusted.' + TB)
exec(open(os.path.join(V, 'tools', 'more.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'more.py')) else None

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in sorted(P, key=lambda p: p['id']):
        assert len(p['title']) <= 80, p['id']
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['qtext']},
             'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}
        if p['observe']: d['anchors']['observe_at'] = p['observe']
        f.write(json.dumps(d) + '\n')
M = {'version': 1, 'setup_cmd': 'python3 check.py --selftest',
     'checks': [], 'not_applicable': []}
for p in sorted(P, key=lambda p: p['id']):
    if p['na']: M['not_applicable'].append({'property': p['id'], 'reason': p['na']}); continue
    M['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
                        'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                        'technique': p['technique'], 'level': 'proof', 'level_note': p['note']})
json.dump(M, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
