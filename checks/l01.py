"""L01 / L02: the locks of the library and of the modules (see lib/locks.py)"""
import os, irbuild, locks, chk
S = 'dax_state.'
GUARDS = {S+'last_msg': S+'msg_lock', S+'emsg_queue_count': S+'event_lock', S+'emsg_queue': S+'event_lock',
          S+'cache_head': S+'lock', S+'cache_count': S+'lock', S+'events': S+'lock', S+'event_count': S+'lock', S+'event_size': S+'lock'}
DEEP = {S+'emsg_queue': S+'event_lock', S+'events': S+'lock'}
TYPES = {'tag_cnode': S+'lock'}
WAKE = {S+'last_msg': (S+'msg_cond', 'nonnull'), S+'emsg_queue_count': (S+'event_cond', 'inc')}
EXCH = (S+'lock', S+'sfd', S+'last_msg')
QUEUE = {'q_first': 'q_lock', 'q_last': 'q_lock', 'q_full': 'q_lock', 'q_empty': 'q_lock'}
L01 = ('relock', 'unlock', 'wait', 'lostwakeup', 'leak', 'signal', 'order', 'callback')
L02 = ('guard', 'exchange')
L05 = ('truth',)

def analyse(ctx, b, target, rules):
    m = b.raw(target)
    if target == 'dax':
        have = set('dax_state.' + n for n in m.di_struct_fields('dax_state').values())
        gone = [g for g in list(GUARDS) + list(GUARDS.values()) if g not in have]
        if gone: raise chk.Broken('dax_state has no field %s' % gone)
        L = locks.Locks(ctx, m, target, api=locks.api_names([os.path.join(irbuild.REPO, 'src/opendax.h')]), guards=GUARDS,
                        deep=DEEP, types=TYPES, wake=WAKE, exchange=EXCH, rules=rules,
                        failzero=('dax_string_to_type',))
    else:
        g = {k: v for k, v in QUEUE.items() if k in m.globals and v in m.globals}
        L = locks.Locks(ctx, m, target, guards=g, rules=rules)
    L.run()
    for f in m.funcs.values():
        if not f.decl: ctx.count('functions')

def run(ctx, rules=L01):
    b = irbuild.Builder()
    ts = [t for t in b.all_targets() if any('pthread_' in open(e['file'], errors='replace').read() for e in b.units(t))]
    if 'dax' not in ts: raise chk.Broken('the library is not built any more')
    if rules is L02: ts = [t for t in ts if t in ('dax', 'daxlua_module')]
    for t in ts:
        ctx.sample('target %s' % t); analyse(ctx, b, t, rules)
    ctx.rule = ('Every path of every API function, thread, callback and main of %s is followed through its calls (function summaries per lock state): '
                'a mutex is locked only when the thread does not hold it unless it is recursive, unlocked only when held, waited on with exactly that mutex held and after looking at the awaited state, '
                'never held when an entry point returns or jumps out, nor (unless recursive) when a callback of the user is called; locks are nested in one order; '
                'a new reply or event is always signalled.' % ', '.join(ts)) if rules is L01 else (
                'Shared state (%s, tag cache nodes, event table and queue entries; queue indices of daxlua) is read and written only with its mutex held, before the thread is published or after the lock is destroyed; '
                'a request is written to the socket with the lock held, one at a time, and the lock is not released before its reply was looked for, unless failure is returned.' % ', '.join(sorted(GUARDS)))
    ctx.assumptions += ['all objects of one structure type are treated as one object', 'locks are only used through the pthread functions']
    ctx.require('lock operations', 50); ctx.require('entry points', 40)
    if rules is L02: ctx.require('socket writes', 1); ctx.require('accesses to shared data', 20)
    else: ctx.require('waits', 2)
