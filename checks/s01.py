"""S01: no request reads or writes outside of the tag that it names."""
import chk, absint, server
from server import Server, SrvClient, where
from bounds import BoundsMixin, Recorder
from nodes import NodeMixin
from ghost import GhostTag, I, kbatom
from lin import Lin, ZERO, const, atom

REACT = ('event_check', 'map_check', 'ret_tag_write', 'ret_add_tag', 'ret_del_tag')
INTMAX = (1 << 31) - 1

class Mem(NodeMixin, BoundsMixin, SrvClient):
    """every access to tag values, override data and the tag database is inside of it; the allocations keep it so.
    typestate: list nodes seen"""
    def __init__(self, srv, root, cmd):
        SrvClient.__init__(self, srv, root); self.bounds_init(); self.cmd = cmd; self.idx = 0; self.allocs = 0; self.inserts = 0
    def joinkey(self, eng, st):
        B = self.c['T_BOOL']
        return (frozenset(q for q in st.neq if len(q.t) == 1 and abs(q.c) == B), frozenset(e for e in st.cons if len(e.t) == 1 and abs(e.c) == B))
    def init(self, eng, st):
        st.ts = frozenset(); self.counters_init(eng, st)
        if self.cmd is not None:
            p = st.vals[eng.fn.params[0][0]]
            st.mem[(p.plus(self.c['m_size']), self.c['mw_size'])] = (eng.mk('msgsize', lo=0, hi=self.c['msgdata']), None)
        else:
            # a reaction is called with the index of an existing tag: an obligation at every call of it
            a = [atom('p:' + n) for n, _ in eng.fn.params]
            eng.assume(st, a[0].scale(-1)); eng.assume(st, a[0].plus(1).sub(atom('tags0')))
            if eng.fn.name == 'event_check' and len(a) >= 3:
                eng.assume(st, a[1].scale(-1)); eng.assume(st, a[2].scale(-1)); eng.assume(st, a[1].add(a[2]).sub(const(INTMAX)))
    def after_load(self, eng, st, inst, addr, width, val):
        self.counter_load(eng, st, addr, width, val); self.node_load(eng, st, inst, addr, width, val)
    # tags are smaller than 256 MiB (assumption): eight times a size does not wrap
    def result_range(self, n): return (0, 1 << 28) if n == 'tag_get_size' else None
    def edge(self, eng, st, blk, succ): self.node_edge(eng, st, blk, succ)
    def extent(self, eng, st, i, b, off, n):
        if b.startswith('M:') and st.mem.get((atom('@_db'), 8), (None,))[0] == atom(b):
            return eng.ainfo[b].get('size'), 'tag database'
        r = self.db_field(eng, atom(b).add(off), st)
        if r is not None: self.index(eng, st, i, r[0]); return 'skip'
        r = self.ptr_field(eng, b)
        if r and r[1] in ('data', 'omask', 'odata'):
            t = self.m.tbaa(i.tbaa)
            if t and t[1] == 'virt_functions': return 'skip'
            return self.tag_size(st, eng, r[0]), 'tag ' + r[1]
        return 'skip'
    def index(self, eng, st, i, idx):
        """idx is one of the tags that exist (or the one being created)"""
        good = eng.entails(st, idx.scale(-1)) and (eng.entails(st, idx.sub(const(self.c['I_OVRD_SET']))) or
               any(eng.entails(st, idx.plus(1).sub(a)) for a in self.dbsizes(eng, st)))
        self.idx += 1
        self.rec.put(i, 'database index', good, where(self.m, i), 'index %s is not proved to be that of an existing tag' % idx)
    def dbsizes(self, eng, st):
        for g in ('@_tagnextindex', '@_dbsize'):
            c = st.mem.get((atom(g), 4))
            if c is not None: yield c[0]
        for a, inf in list(eng.ainfo.items()):
            o = inf.get('origin')
            if o and isinstance(o[0], Lin) and o[0] in (atom('@_tagnextindex'), atom('@_dbsize')): yield atom(a)
    # ---- what is stored into the database
    def after_store(self, eng, st, inst, addr, width, val):
        if val is None: return None
        w = where(self.m, inst); c = self.c
        put = lambda t, g, m: self.rec.put(inst, t, g, w, m)
        r = self.db_field(eng, addr, st)
        if r is None:
            self.link_store(eng, st, inst, addr, width, val, put); return None
        idx, fo = r
        if fo in (c['off_omask'], c['off_odata']):
            b, off = eng.base(val); S = eng.ainfo.get(b, {}).get('size') if b and b.startswith('M:') else None
            T = self.tag_size(st, eng, idx)
            good = val == ZERO or (S is not None and T is not None and off == ZERO and eng.entails(st, T.sub(S))) or self.samefield(eng, st, val, idx, fo)
            put('override allocation', good, 'the override data becomes %s of %s bytes, the tag has %s' % (val, S, T)); self.allocs += 1
        else: self.link_store(eng, st, inst, addr, width, val, put, (idx, fo))
        return None
    def samefield(self, eng, st, val, idx, fo):
        o = eng.origin(val.t[0][0]) if len(val.t) == 1 and val.c == 0 else None
        if not (o and isinstance(o[0], Lin)): return False
        r = self.db_field(eng, o[0], st)
        return bool(r and r[1] == fo and eng.eq(st, r[0], idx))
    # ---- list nodes: what node_fact assumes is established when a node enters a list
    def link_store(self, eng, st, inst, addr, width, val, put, entry=None):
        if width != 8: return
        kind = idx = None
        if entry is not None:
            for k, (head, nx) in self.KINDS.items():
                if entry[1] == self.c['off_' + head]: kind, idx = k, entry[0]
        else:
            b, off = eng.base(addr)
            if b is not None and off.isconst():
                n = self.node_of(eng, st, atom(b))
                if n and off.c == self.c[self.KINDS[n[0]][1]]: kind, idx = n
        if kind is None or val == ZERO: return
        n = self.node_of(eng, st, val)
        if n is not None:
            put('list link', n[0] == kind and eng.eq(st, n[1], idx), 'a %s of tag %s is linked to the list of tag %s' % (kind, n[1], idx)); return
        b, off = eng.base(val)
        if b is None or not b.startswith('M:') or off != ZERO:
            put('list link', False, '%s is linked to the %s list of tag %s' % (val, kind, idx)); return
        self.inserts += 1
        for ok, what in self.node_ok(eng, st, val, kind, idx):
            put('new ' + kind, ok, 'a new %s of tag %s is not proved to %s' % (kind, idx, what))
    def node_ok(self, eng, st, P, kind, idx):
        c = self.c
        def cell(o, w=4):
            x = st.mem.get((P.plus(o), w)); return x[0] if x else None
        s0 = st.copy(); S = self.cursize(eng, s0, idx); eng.assume(s0, S.sub(const(1 << 28)))
        def rng(byte, size): 
            return byte is not None and size is not None and eng.entails(s0, byte.scale(-1)) and eng.entails(s0, size.scale(-1)) and eng.entails(s0, byte.add(size).sub(S))
        if kind == 'event':
            byte, size, bit, cnt, ty, et = [cell(c['e_' + f], c['we_' + f]) for f in ('byte', 'size', 'bit', 'count', 'datatype', 'eventtype')]
            yield rng(byte, size), 'watch bytes inside of the tag'
        if kind == 'map':
            d = {}
            for side in ('source', 'dest'):
                for f in ('index', 'byte', 'size', 'bit', 'count'):
                    d[side, f] = cell(c['d_' + side] + c['h_' + f], c['wh_' + f])
            yield d['source', 'index'] is not None and eng.eq(s0, d['source', 'index'], idx), 'belong to its source tag'
            yield rng(d['source', 'byte'], d['source', 'size']), 'read bytes inside of its source'
    def call(self, eng, st, i, name, args):
        self.blockcall(eng, st, i, name, args)
        if name in REACT:
            self.index(eng, st, i, args[0])
            if name == 'event_check':
                good = eng.entails(st, args[1].scale(-1)) and eng.entails(st, args[2].scale(-1)) and eng.entails(st, args[1].add(args[2]).sub(const(INTMAX)))
                self.rec.put(i, 'changed range', good, where(self.m, i), 'events are checked for the bytes %s +%s, which may be negative or overflow' % (args[1], args[2]))
        return SrvClient.call(self, eng, st, i, name, args)

class Alloc(SrvClient):
    """allocations, counts and the growth of the database keep the sizes true that Mem relies on.
    typestate: database entries changed so far that still have to be judged"""
    def __init__(self, srv, root, m):
        super().__init__(srv, root); self.m = m; self.rec = Recorder(); self.allocs = 0
    def round(self, eng, blocks): self.rec.drop(blocks)
    def init(self, eng, st): st.ts = frozenset(); self.counters_init(eng, st)
    def load(self, eng, st, inst, addr, width, val): self.counter_load(eng, st, addr, width, val)
    joinkey = Mem.joinkey
    def stable(self, eng, key):
        # the counters and the database pointer change only where a store to them is inlined here
        return key[0] in (atom('@_db'), atom('@_dbsize'), atom('@_tagnextindex')) or SrvClient.stable(self, eng, key)
    def store(self, eng, st, inst, addr, width, val):
        if val is None: return None
        w = where(self.m, inst); c = self.c
        put = lambda t, g, m: self.rec.put(inst, t, g, w, m)
        if addr == atom('@_tagnextindex') and width == 4:
            D = st.mem.get((atom('@_dbsize'), 4)); N = st.mem.get((atom('@_tagnextindex'), 4))
            put('number of tags', D is not None and N is not None and eng.entails(st, val.sub(D[0])) and eng.entails(st, N[0].sub(val)) ,
                'the number of tags becomes %s, which is not proved to be at least what it was and to fit the database' % val)
            return None
        if addr == atom('@_dbsize') and width == 4:
            b, off = eng.base(st.mem.get((atom('@_db'), 8), (ZERO,))[0])
            S = eng.ainfo.get(b, {}).get('size') if b and b.startswith('M:') else None
            put('size of the database', S is not None and off == ZERO and eng.entails(st, val.scale(c['dbsz']).sub(S)), 'size %s is not proved to fit the allocation of %s bytes' % (val, S))
            return None
        if addr == atom('@_db') and width == 8:
            b, off = eng.base(val)
            put('database pointer', bool(b and b.startswith('M:') and off == ZERO), 'the database pointer becomes %s' % val)
            return None
        r = self.db_field(eng, addr, st)
        if r is not None and r[1] in (c['off_data'], c['off_count'], c['off_type']): self.pend(eng, st, inst, r[0])
        return None
    def pend(self, eng, st, inst, idx):
        st.ts = frozenset(x for x in st.ts if x[0] != idx) | {(idx, where(self.m, inst))}
    def settle(self, eng, st, inst):
        """every changed entry again has a value of the size that its type and count ask for"""
        P = st.ts
        if not P: return
        st.ts = frozenset()
        c = self.c
        db = st.mem.get((atom('@_db'), 8))
        for idx, w in P:
            def cell(f, wd):
                if db is None: return None
                v = st.mem.get((db[0].add(idx.scale(c['dbsz'])).plus(c['off_' + f]), wd))
                return v[0] if v else None
            N = st.mem.get((atom('@_tagnextindex'), 4))
            if N is not None and eng.entails(st, N[0].sub(idx)): continue           # not a tag yet
            d = cell('data', 8); self.allocs += 1
            if d == ZERO: continue
            put = lambda g, m: self.rec.put(inst, 'size of the value', g, w, m)
            b, off = eng.base(d) if d is not None else (None, ZERO)
            S = eng.ainfo.get(b, {}).get('size') if b and b.startswith('M:') and off == ZERO else None
            ty = cell('type', c['w_type']); n = cell('count', c['w_count']); at = cell('attr', c['w_attr'])
            if S is None: put(False, 'the entry of tag %s changes but its value is not a new allocation' % idx); continue
            if n is None: put(False, 'the count of tag %s is not known when its value becomes %s bytes' % (idx, S)); continue
            if S == const(self.srv.c['vfsz']):
                k = eng._kbof(at) if at is not None else None
                put(bool(k and k[0] & c['A_VIRTUAL']), 'tag %s gets the record of a virtual tag without being marked as one' % idx); continue
            bad = []
            s1 = st.copy()
            if ty is None or eng.assume_eq(s1, ty, const(c['T_BOOL'])):
                zn = self.unsigned(eng, s1, n)
                if not eng.entails(s1, zn.plus(1).sub(S.scale(8))): bad.append('bits')
            s2 = st.copy()
            if ty is None or eng.assume_ne(s2, ty, const(c['T_BOOL'])):
                if not self.product(eng, s2, S, ty, n): bad.append('elements')
            put(not bad, 'tag %s has type %s and count %s but its value is %s bytes: not proved to hold all %s' % (idx, ty, n, S, ' and '.join(bad)))
            # a value that grows while an override is installed outgrows the override data
            om = cell('omask', 8); k = eng._kbof(at) if at is not None else None
            self.rec.put(inst, 'override keeps the size of the tag', om == ZERO or bool(k and k[1] & c['A_OVERRIDE']) or self.bitclear(eng, st, at, c['A_OVERRIDE']), w,
                         'the size of tag %s changes while an override may be installed' % idx)
    def bitclear(self, eng, st, at, bit):
        """some tested mask of the attribute covers bit and was zero"""
        if at is None: return False
        for a, inf in list(eng.ainfo.items()):
            ev = inf.get('ev')
            if ev and ev[0].startswith('and') and at in ev[1] and eng.eq(st, atom(a), ZERO):
                m = [p for p in ev[1] if p.isconst()]
                if m and m[0].c & bit: return True
        return False
    def unsigned(self, eng, st, n):
        if eng.entails(st, n.scale(-1)): return n
        return eng.opaque(st, 'zx32', None, [n], 0, (1 << 32) - 1)
    def product(self, eng, st, S, ty, n):
        """S >= type_size(ty) * n without overflow"""
        zn = self.unsigned(eng, st, n)
        return any(self.product1(eng, st, S, t, n, zn) for k, (t, _) in list(st.mem.items())
                   if k[0] == 'pure' and k[1] == 'type_size' and (ty is not None and eng.eq(st, k[2][0], ty)))
    def product1(self, eng, st, S, t, n, zn):
        # the product as a number
        for a, inf in list(eng.ainfo.items()):
            ev = inf.get('ev')
            if ev and ev[0] == 'mul64' and len(ev[1]) == 2 and self.factors(eng, st, ev[1], t, zn):
                R = atom(a)
                if t.isconst(): return eng.entails(st, zn.scale(t.c).sub(S))
                if eng.entails(st, R.sub(S)): return True
                # S is the 32 bit product and the 64 bit product fits
                if eng.entails(st, R.sub(const(INTMAX))) and eng.entails(st, R.scale(-1)) and self.is32(eng, S, t, n): return True
        if t.isconst(): return eng.entails(st, zn.scale(t.c).sub(S))
        if n.isconst() and n.c >= 0: return eng.entails(st, t.scale(n.c).sub(S))
        return False
    def factors(self, eng, st, a, t, n):
        return any(eng.eq(st, x, t) and eng.eq(st, y, n) for x, y in (a, a[::-1]))
    def is32(self, eng, S, t, n):
        if len(S.t) != 1 or S.c or S.t[0][1] != 1: return False
        ev = eng.ainfo[S.t[0][0]].get('ev')
        if ev and ev[0] == 'zx32' and len(ev[1]) == 1 and len(ev[1][0].t) == 1: ev = eng.ainfo[ev[1][0].t[0][0]].get('ev')
        return bool(ev and ev[0] == 'mul32' and set(map(repr, ev[1])) == {repr(t), repr(n)})
    def call(self, eng, st, i, name, args):
        if name in REACT or name == '_message_send' or (name in self.m.funcs and not self.m.funcs[name].decl and name not in QUIET and not name.startswith('x')): self.settle(eng, st, i)
        return SrvClient.call(self, eng, st, i, name, args)
    def ret(self, eng, st, inst, val): self.settle(eng, st, inst)
QUIET = ('type_size', 'dax_log')

class Kind(GhostTag):
    """an arbitrary tag I that is (or is not) virtual: its data is used as what it is"""
    fields = ('attr', 'omask', 'odata')
    def __init__(self, srv, root, cmd, virt):
        super().__init__(srv, root); self.cmd = cmd; self.virt = virt; self.rec = Recorder(); self.n = 0
    keybits = property(lambda s: {'attr': s.c['A_VIRTUAL']})
    def idx_range(self): return (self.c['I_OVRD_SET'] + 1, (1 << 31) - 2)
    def entry_fields(self, eng, st):
        v = self.c['A_VIRTUAL']
        r = {'attr': kbatom(eng, 'I.attr', 8 * self.c['w_attr'], v if self.virt else 0, 0 if self.virt else v)}
        # virtual tags have no overrides: obligation at every store of them
        if self.virt: r.update(omask=ZERO, odata=ZERO)
        return r
    def on_field_store(self, eng, st, inst, idx, off, val):
        if not self.virt or off == self.c['off_attr'] or val == ZERO: return
        g = st.mem.get((atom('&I').plus(self.c['off_attr']), self.c['w_attr'])); k = eng._kbof(g[0]) if g is not None else None
        a = st.copy(); bad = not (k and k[1] & self.c['A_VIRTUAL']) and eng.assume_eq(a, idx, I)
        self.rec.put(inst, 'no override on virtual tags', not bad, where(self.m, inst), 'a virtual tag gets an override')
    def round(self, eng, blocks): self.rec.drop(blocks)
    def raw(self, eng, st, inst, addr, n):
        b, off = eng.base(addr)
        pf = self.ptr_field(eng, b) if b else None
        if not pf or pf[1] != 'data': return
        t = self.m.tbaa(inst.tbaa)
        isvf = bool(t and t[1] == 'virt_functions')
        a = st.copy(); self.n += 1
        g = a.mem.get((atom('&I').plus(self.c['off_attr']), self.c['w_attr']))
        k = eng._kbof(g[0]) if g is not None else None
        V = self.c['A_VIRTUAL']
        if isvf: bad = not self.virt and not (k and k[0] & V) and eng.assume_eq(a, pf[0], I)
        else: bad = self.virt and not (k and k[1] & V) and eng.assume_eq(a, pf[0], I) and (isinstance(n, int) or eng.assume(a, const(1).sub(n)))
        self.rec.put(inst, 'virtual functions' if isvf else 'value bytes', not bad, where(self.m, inst),
                     'the value bytes of a tag are used as its virtual functions' if isvf else 'the record of a virtual tag is accessed as if it were the value of the tag')
    def after_load(self, eng, st, inst, addr, width, val): self.raw(eng, st, inst, addr, width)
    def blockload(self, eng, st, inst, addr, n): self.raw(eng, st, inst, addr, n)
    def data_store(self, eng, st, inst, idx, off, n, val):
        self.raw(eng, st, inst, eng.val(st, inst.args[1] if inst.op == 'store' else inst.args[0]), n)

def run(ctx):
    global srv
    ctx.rule = ('every index into the tag database is that of an existing tag; every load, store and block operation on tag values and override data '
                'lies inside of tag_get_size() of that tag; allocations, counts, database growth and list nodes keep these sizes true; the record '
                'of a virtual tag is never accessed as value bytes nor value bytes called as functions')
    srv = Server()
    srv.need('vfsz')
    hs = sorted(srv.handlers.items())
    items = [('m', c, h) for c, h in hs] + [('m', None, f) for f in REACT[2:] if f in srv.m.funcs]
    items += [('v', c, h, v) for c, h in hs for v in (True, False)] + [('v', None, f, True) for f in ('ret_tag_write',)]
    global am, amr
    rel = relevant(srv.raw)
    am = srv.b.module('tagserver', keep=lambda n: n in srv.handlers.values() or n not in rel)
    amr = absint.ModRef(am)
    items += [('a', c, h) for c, h in hs if h in rel]
    chk.parallel(ctx, one, items)
    ctx.require('roots', 30); ctx.require('tag accesses', 100); ctx.require('index uses', 300); ctx.require('allocations judged', 6); ctx.require('list insertions', 2)
    ctx.require('kind of tag accesses', 60)
def relevant(m):
    """functions that store (themselves or through calls) to the size fields of the database"""
    rel = set()
    for n, f in m.funcs.items():
        if f.decl: continue
        for i in f.insts():
            if i.op != 'store': continue
            t = m.tbaa(i.tbaa)
            if (t and t[1] and t[1].strip('_').endswith('dax_tag_db') and t[2] in [srv.c['off_' + x] for x in ('data', 'count', 'type')]) or \
               absint._rootop(f, i.args[1]) in ('_db', '_dbsize', '_tagnextindex'): rel.add(n)
    import irbuild
    while True:
        more = set(n for n, f in m.funcs.items() if not f.decl and n not in rel and any(c in rel for c, _ in irbuild.callees(f)))
        if not more: return rel
        rel |= more
def one(ctx, item):
    if item[0] == 'a':
        _, cmd, h = item
        cl = Alloc(srv, h, am)
        absint.Engine(am, am.funcs[h], cl, amr, K=8).run()
        ctx.count('allocations judged', cl.allocs)
        cl.rec.flush(ctx, h); return
    if item[0] == 'm':
        _, cmd, h = item
        cl = Mem(srv, h, cmd)
        absint.Engine(srv.m, srv.fn(h), cl, srv.mr, K=6).run()
        ctx.count('roots'); ctx.count('tag accesses', cl.checked); ctx.count('index uses', cl.idx); ctx.count('allocations judged', cl.allocs); ctx.count('list insertions', cl.inserts)
        cl.rec.flush(ctx, h)
    else:
        _, cmd, h, v = item
        cl = Kind(srv, h, cmd, v)
        absint.Engine(srv.m, srv.fn(h), cl, srv.mr, K=6).run()
        ctx.count('kind of tag accesses', cl.n)
        cl.rec.flush(ctx, (h, 'virtual' if v else 'plain'))
