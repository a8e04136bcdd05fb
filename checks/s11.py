"""S11: adding or removing one event, mapping or module leaves every other one as it was.

typestate: (facts, stores, freed, names) -- facts: {(link address, node)} read from the list before anything was changed; links of
the database entry are named ('h', index); names: {(loop variable, link it is the address of)}."""
import chk, absint
from server import Server, SrvClient, where, ALLOC
from bounds import Recorder
from walk import Walk
from checks.s10 import EvDel
from lin import Lin, ZERO, const, atom

class Links(SrvClient):
    head = None; pre = 'e_'
    def __init__(self, srv, root):
        super().__init__(srv, root); self.rec = Recorder(); self.n = {}; self.nx = self.c[self.pre + 'next']
    def put(self, i, tag, good, msg): self.rec.put(i, tag, good, where(self.m, i), msg)
    def count(self, k): self.n[k] = self.n.get(k, 0) + 1
    def round(self, eng, blocks): self.rec.drop(blocks)
    def joinkey(self, eng, st): return st.ts
    def loopkey(self, eng, st): return st.ts
    def init(self, eng, st):
        st.ts = (frozenset(), (), frozenset(), frozenset()); self.P = [st.vals[p] for p, _ in eng.fn.params]
        if self.root in ('event_add', 'map_add'): self.counters_init(eng, st)
    def link(self, eng, st, addr):
        """('h', index) | address Lin of the link | None"""
        r = self.db_field(eng, addr, st)
        if r is not None: return ('h', r[0]) if r[1] == self.c['off_' + self.head] else None
        b, off = eng.base(addr)
        if b is None or not off.isconst(): return None
        if off.c == self.nx and b[0] in 'vMfLp': return addr
        if off.c == 0 and self.linkphi(eng, st, b):
            for x, t in st.ts[3]:
                if x == addr: return t
            return addr
        return None
    linkphi = Walk.linkphi
    @property
    def next(self): return self.nx
    @property
    def idx(self): return self.P[0]
    def same(self, eng, st, a, b):
        if type(a) is tuple or type(b) is tuple: return type(a) is tuple and type(b) is tuple and eng.eq(st, a[1], b[1])
        return eng.eq(st, a, b)
    def load(self, eng, st, inst, addr, width, val):
        if width != 8 or val is None: return
        a = self.link(eng, st, addr)
        if a is None: return
        F, S, fr, o = st.ts
        if any(self.same(eng, st, a, x) for x, _ in F) and not any(self.same(eng, st, a, x) and v == val for x, v in F):
            F = frozenset((x, v) for x, v in F if not self.same(eng, st, a, x))
        if not S: st.ts = (F | {(a, val)}, S, fr, o); self.count('links')
    def store(self, eng, st, inst, addr, width, val):
        if width != 8 or val is None: return
        a = self.link(eng, st, addr)
        if a is None: return
        b, off = eng.base(addr)
        if b is not None and b.startswith('M:'): return          # the node that is built
        F, S, fr, o = st.ts
        self.count('changes')
        self.change(eng, st, inst, a, val, F, S)
        st.ts = (F, S + ((a, val),), fr, o)
    def edge(self, eng, st, blk, succ):
        if succ not in eng.loopblocks: return
        F, S, fr, o = st.ts
        inside = eng.loopblocks[succ]
        phis = [(i, eng._phival(st, i, blk)) for i in succ.insts if i.op == 'phi']
        local = set(i.dst for b in inside for i in b.insts if i.dst)
        def map(x):
            r = [atom('v:' + i.dst) for i, v in phis if v == x]
            if not (eng.deps(x) & local): r.append(x)
            return r
        out = set()
        for a, v in F:
            if type(a) is tuple: A = [a] if not eng.deps(a[1]) & local else []
            else:
                A = map(a); b, off = eng.base(a)
                if b is not None: A += [x.plus(off.c) for x in map(atom(b))]
            for x in A:
                for y in map(v): out.add((x, y))
        def addr(a):
            if type(a) is tuple: return [a] if not eng.deps(a[1]) & local else []
            b, off = eng.base(a)
            return [x.plus(off.c) for x in map(atom(b))] if b is not None else []
        names = set()
        for i, v in phis:
            if i.ty.k != 'ptr': continue
            a = self.link(eng, st, v)
            if a is None: continue
            for x in addr(a):
                if x != atom('v:' + i.dst): names.add((atom('v:' + i.dst), x))
        for x, t in o:
            if not eng.deps(x) & local:
                for y in addr(t): names.add((x, y))
        st.ts = (frozenset(out), S, fr, frozenset(names))

class Unlink(Links):
    """the entry before the removed one is linked to the one behind it"""
    def change(self, eng, st, inst, a, val, F, S):
        cand = [v for x, v in F if self.same(eng, st, x, a)]
        good = any(any(type(x) is not tuple and eng.eq(st, x, v.plus(self.nx)) and eng.eq(st, w, val) for x, w in F) for v in cand)
        self.put(inst, 'the entry before the removed one is linked to the one behind it', good and not S, 'a link of the list is set to something else than what the entry it pointed to is linked to')
    def gone(self, eng, st):
        F, S, fr, o = st.ts
        return [v for a, _ in S for x, v in F if self.same(eng, st, x, a)]
    def call(self, eng, st, i, name, args):
        if name in ('_free_event', '_free_map', 'free', 'xfree'):
            F, S, fr, o = st.ts
            if any(eng.eq(st, v, args[0]) for _, v in F) or any(type(x) is not tuple and eng.eq(st, x, args[0].plus(self.nx)) for x, _ in F) or name[0] == '_':
                st.ts = (F, S, fr | {args[0]}, o); self.count('freed')
            return [st]
        return super().call(eng, st, i, name, args)
    def ret(self, eng, st, inst, val):
        F, S, fr, o = st.ts
        G = self.gone(eng, st)
        self.put(inst, 'an entry that is freed is not in the list', all(any(eng.eq(st, f, g) for g in G) for f in fr), 'an entry is freed but remains in the list')
        self.put(inst, 'an entry taken from the list is freed', not S or any(eng.eq(st, f, g) for f in fr for g in G), 'an entry is taken from the list and lost')

class EUnlink(Unlink): head = 'events'; pre = 'e_'
class MUnlink(Unlink): head = 'mappings'; pre = 'd_'

class MapDel(EvDel):
    head = 'mappings'
    def __init__(self, srv, root):
        super().__init__(srv, root); self.next = self.c['d_next']
        self.c = dict(self.c); self.c['e_id'] = self.c['d_id']; self.c['e_next'] = self.c['d_next']
    def init(self, eng, st):
        st.ts = (False, frozenset()); self.P = [st.vals[p] for p, _ in eng.fn.params]; self.idx = self.P[0]; self.links = {}
        self.T = eng.mk('tags', lo=0, hi=self.DBMAX); self.loopof = {}
        for h, bs in eng.loopblocks.items():
            for b in bs:
                if b not in self.loopof or len(bs) < len(eng.loopblocks[self.loopof[b]]): self.loopof[b] = h
    def call(self, eng, st, i, name, args):
        if name in ('_free_map', 'free', 'xfree'):
            for P, s in st.ts[1]:
                if eng.eq(st, P, args[0]):
                    i4 = self.cell(eng, st, P, self.c['d_id'])
                    self.rec.put(i, 'only the mapping with the number is removed', i4 is not None and eng.eq(st, i4, self.P[1]), where(self.m, i), 'a mapping with another number is removed')
                    self.serve(eng, st, P)
            return [st]
        return super().call(eng, st, i, name, args)
    def ret(self, eng, st, inst, val):
        oom, N = st.ts
        if val is not None and eng.eq(st, val, ZERO): self.rec.put(inst, 'success means that the mapping is removed', any(s for P, s in N), where(self.m, inst), 'success although no mapping has been removed')
        elif not any(s for P, s in N):
            ok = not N
            for P, s in N: ok = ok or eng.eq(st, P, ZERO)
            self.rec.put(inst, 'the whole list is searched', ok, where(self.m, inst), 'gives up before the end of the list')

class Find(MapDel):
    """what is handed out is the entry with the number, and nothing is only said after the whole list was searched"""
    args = (2, 3)
    def init(self, eng, st):
        super().init(eng, st)
        self.idx, self.id = self.P[self.args[0]], self.P[self.args[1]]; self.n['lookups'] = 0
    def stable(self, eng, key):                                  # what is handed out goes to the caller, not into the list
        return super().stable(eng, key) or (key[0] != 'pure' and (eng.base(key[0])[0] or 'p')[0] in 'Lv')
    def concerns(self, eng, a, P):
        c = a.mem.get((P.plus(self.c['e_id']), 4))
        return c is None or eng.assume_eq(a, c[0], self.id)
    def call(self, eng, st, i, name, args): return SrvClient.call(self, eng, st, i, name, args)
    def out(self, eng, st, P):
        for k, h in ((0, 'source'), (1, 'dest')):
            for g in ('index', 'byte', 'bit', 'count', 'size', 'type'):
                w = self.c.get('wh_' + g, 4); a = self.P[k].plus(self.c['h_' + g]); b = P.plus(self.c['d_' + h] + self.c['h_' + g])
                if self.copies.get((k, g)) == b: continue
                x, y = st.mem.get((a, w)), st.mem.get((b, w))
                if x is None or y is None or not eng.eq(st, x[0], y[0]): return False
        return True
    copies = {}
    def store(self, eng, st, inst, addr, width, val):
        if type(width) is int:
            for k in (0, 1):
                for g in ('index', 'byte', 'bit', 'count', 'size', 'type'):
                    if addr == self.P[k].plus(self.c['h_' + g]):
                        o = eng.origin(val.t[0][0]) if val is not None and len(val.t) == 1 and val.c == 0 and val.t[0][1] == 1 else None
                        self.copies = dict(self.copies); self.copies[(k, g)] = o[0] if o and isinstance(o[0], Lin) else None
        if inst.op == 'call' and val is None and type(width) is not int and width.isconst() and len(inst.args) > 1:
            src = eng.val(st, inst.args[1])
            for k in (0, 1):
                for g in ('index', 'byte', 'bit', 'count', 'size', 'type'):
                    d = self.P[k].plus(self.c['h_' + g]).sub(addr)
                    if d.isconst() and 0 <= d.c < width.c: self.copies = dict(self.copies); self.copies[(k, g)] = src.plus(d.c)
    def ret(self, eng, st, inst, val):
        oom, N = st.ts
        if val is not None and eng.eq(st, val, ZERO):
            good = False
            for P, s in N:
                i4 = self.cell(eng, st, P, self.c['e_id'])
                good = good or (i4 is not None and eng.eq(st, i4, self.id) and self.out(eng, st, P))
            self.n['lookups'] += 1
            self.put_(inst, 'what is found is the entry with the number', good, 'success with something else than the entry with the number')
        else: self.put_(inst, 'the whole list is searched', not N or any(eng.eq(st, P, ZERO) for P, s in N), 'gives up before the end of the list')
    def put_(self, i, tag, good, msg): self.rec.put(i, tag, good, where(self.m, i), msg)
class EvFind(Find):
    head = 'events'; args = (1, 2)
    def __init__(self, srv, root):
        super().__init__(srv, root); self.c = srv.c; self.next = self.c['e_next']
    def out(self, eng, st, P):
        c = st.mem.get((self.P[0], 8)); return c is not None and eng.eq(st, c[0], P)
    def store(self, eng, st, inst, addr, width, val): pass

class Insert(Links):
    """the new entry is put before the whole old list, under a number of its own, with what was asked for"""
    cnt = None; want = ()
    def load(self, eng, st, inst, addr, width, val):
        if width == 4 and val is not None:
            self.counter_load(eng, st, addr, width, val)
            r = self.db_field(eng, addr, st)
            if r is not None and r[1] == self.c['off_' + self.cnt]: eng.assume(st, val.scale(-1)); eng.assume(st, val.sub(const(self.DBMAX)))
        return super().load(eng, st, inst, addr, width, val)
    def change(self, eng, st, inst, a, val, F, S):
        b, off = eng.base(val)
        self.put(inst, 'only the head of the list is changed', type(a) is tuple and not S, 'another link of the list is changed')
        self.put(inst, 'the new entry becomes the first one', b is not None and b.startswith('M:'), 'the head of the list becomes %s' % val)
    def idxof(self, st, eng): return self.P[0]
    def ret(self, eng, st, inst, val):
        F, S, fr, o = st.ts
        if not S:
            new = any(k[0] != 'pure' and eng.base(k[0])[0] is not None and eng.base(k[0])[0].startswith('M:') for k in st.mem)
            self.put(inst, 'success means that the entry is in the list', not new or (val is not None and eng.entails(st, val.plus(1))), 'the result may be a number although the entry is not in the list')
            return
        (a, n) = S[-1]
        old = [v for x, v in F if self.same(eng, st, x, a)]
        nx = st.mem.get((n.plus(self.nx), 8))
        self.put(inst, 'the old list is behind the new entry', nx is not None and any(eng.eq(st, nx[0], v) for v in old), 'the link of the new entry is %s, the list was %s' % (nx and nx[0], [str(v) for v in old]))
        i = st.mem.get((n.plus(self.c[self.pre + 'id']), 4))
        self.put(inst, 'the result is the number of the new entry', i is not None and val is not None and eng.eq(st, i[0], val), 'the result is %s, the number %s' % (val, i and i[0]))
        self.count('added')
        I = a[1]
        ct = [(k, c[0]) for k, c in st.mem.items() if k[0] != 'pure' and k[1] == 4 and (lambda r: r is not None and r[1] == self.c['off_' + self.cnt] and eng.eq(st, r[0], I))(self.db_field(eng, k[0], st))]
        self.put(inst, 'every entry gets a number of its own', bool(ct) and i is not None and all(eng.eq(st, c, i[0].plus(1)) for _, c in ct), 'the next number is %s after the number %s' % ([str(c) for _, c in ct], i and i[0]))
        self.fields(eng, st, inst, n, I)
class EInsert(Insert):
    head = 'events'; pre = 'e_'; cnt = 'nextevent'
    def fields(self, eng, st, inst, n, I):
        h, et, data, mod = self.P[:4]
        def hf(f):
            c = st.mem.get((h.plus(self.c['h_' + f]), self.c.get('wh_' + f, 4))); return c and c[0]
        x = hf('index')
        self.put(inst, 'the event is put on the tag asked for', x is not None and eng.eq(st, x, I), 'the event is put on tag %s' % I)
        for f, g in (('byte', 'byte'), ('bit', 'bit'), ('size', 'size'), ('count', 'count'), ('datatype', 'type')):
            e = st.mem.get((n.plus(self.c['e_' + f]), self.c.get('we_' + f, 4))); v = hf(g)
            self.put(inst, 'the event gets the %s asked for' % g, e is not None and v is not None and eng.eq(st, e[0], v), '%s of the event is %s instead of %s' % (g, e and e[0], v))
        for f, v, w in (('eventtype', et, 4), ('notify', mod, 8)):
            e = st.mem.get((n.plus(self.c['e_' + f]), w))
            self.put(inst, 'the event gets the %s asked for' % f, e is not None and eng.eq(st, e[0], v), '%s of the event is %s instead of %s' % (f, e and e[0], v))

class MInsert(Insert):
    head = 'mappings'; pre = 'd_'; cnt = 'nextmap'
    def came(self, eng, o, addr, w):
        """address that the bytes at addr were copied from"""
        for x, t in o:
            if t[0] != 'c': continue
            d = addr.sub(x)
            if d.isconst() and 0 <= d.c and d.c + w <= t[2]: return t[1].plus(d.c)
    def store(self, eng, st, inst, addr, width, val):
        if inst.op == 'call' and type(width) is not int:
            F, S, fr, o = st.ts
            keep = frozenset((x, t) for x, t in o if t[0] != 'c' or eng.base(x)[0] != eng.base(addr)[0] or not (lambda d: not d.isconst() or (d.c < t[2] and -d.c < (width.c if width.isconst() else 1 << 40)))(addr.sub(x)))
            if width.isconst() and len(inst.args) > 1 and val is None:
                src = eng.val(st, inst.args[1])
                keep |= {(addr, ('c', self.came(eng, o, src, width.c) or src, width.c))}
            st.ts = (F, S, fr, keep)
            return
        F, S, fr, o = st.ts; out = set()
        for x, t in o:
            d = addr.sub(x) if t[0] == 'c' else None
            if d is None or not d.isconst() or d.c >= t[2] or d.c + width <= 0: out.add((x, t)); continue
            if d.c > 0: out.add((x, ('c', t[1], d.c)))
            if d.c + width < t[2]: out.add((x.plus(d.c + width), ('c', t[1].plus(d.c + width), t[2] - d.c - width)))
        st.ts = (F, S, fr, frozenset(out))
        return super().store(eng, st, inst, addr, width, val)
    def fields(self, eng, st, inst, n, I):
        o = st.ts[3]
        c = st.mem.get((self.P[0].plus(self.c['h_index']), 4))
        self.put(inst, 'the mapping is put on the source tag', c is not None and eng.eq(st, c[0], I), 'the mapping is put on tag %s' % I)
        for f, h in (('source', self.P[0]), ('dest', self.P[1])):
            for g in ('index', 'byte', 'bit', 'count', 'size', 'type'):
                a = n.plus(self.c['d_' + f] + self.c['h_' + g]); w = self.c.get('wh_' + g, 4); p = h.plus(self.c['h_' + g])
                e = st.mem.get((a, w)); v = st.mem.get((p, w)); fr = self.came(eng, o, a, w)
                good = (fr is not None and fr == p) or (e is not None and v is not None and eng.eq(st, e[0], v[0]))
                self.put(inst, 'the mapping gets the %s of the %s asked for' % (g, f), good, '%s of the %s of the mapping is not what was asked for' % (g, f))

class RingOp(SrvClient):
    """typestate: (facts {(link, node)}, stores ((link, node)...), freed)"""
    def __init__(self, srv, root):
        super().__init__(srv, root); self.rec = Recorder(); self.n = {}
        self.offs = (self.c['mod_next'], self.c['mod_prev']); self.G = atom(srv.head[0] if srv.head[0] == '@' else '@' + srv.head)
    def put(self, i, tag, good, msg): self.rec.put(i, tag, good, where(self.m, i), msg)
    def round(self, eng, blocks): self.rec.drop(blocks)
    def joinkey(self, eng, st): return st.ts
    def init(self, eng, st): st.ts = (frozenset(), (), frozenset()); self.P = [st.vals[p] for p, _ in eng.fn.params]
    def link(self, eng, addr):
        if addr == self.G: return True
        b, off = eng.base(addr)
        return b is not None and off.isconst() and off.c in self.offs and b[0] in 'vLpM'
    def load(self, eng, st, inst, addr, width, val):
        if width != 8 or val is None or not self.link(eng, addr): return
        F, S, fr = st.ts
        for a, v in reversed(S):
            if eng.eq(st, a, addr):
                eng.assume_eq(st, val, v); return
        for a, _ in S:
            if a == self.G or addr == self.G: continue
            x = st.copy()
            if eng.base(a)[1] == eng.base(addr)[1] and eng.assume_eq(x, a, addr): return
        for a, v in F:
            if eng.eq(st, a, addr): eng.assume_eq(st, v, val)
        b, off = eng.base(addr)
        if off.isconst() and off.c in self.offs:                 # X.next is X exactly if X.prev is X
            X = addr.plus(-off.c); other = X.plus(self.offs[0] + self.offs[1] - off.c)
            for v in self.fact(eng, st, other):
                if not eng.assume_eq(st.copy(), v, X): eng.assume_ne(st, val, X)
                elif eng.eq(st, v, X): eng.assume_eq(st, val, X)
        st.ts = (F | {(addr, val)}, S, fr)
    def store(self, eng, st, inst, addr, width, val):
        if width != 8 or val is None or not self.link(eng, addr): return
        F, S, fr = st.ts
        self.n['changes'] = self.n.get('changes', 0) + 1
        st.ts = (F, S + ((addr, val),), fr)
    def call(self, eng, st, i, name, args):
        if name in ('free', 'xfree'):
            F, S, fr = st.ts; st.ts = (F, S, fr | {args[0]}); return [st]
        return super().call(eng, st, i, name, args)
    def fact(self, eng, st, a):
        for x, v in st.ts[0]:
            if eng.eq(st, x, a): yield v
    def last(self, eng, st):
        """{link: node} after all stores"""
        r = []
        for a, v in st.ts[1]:
            r = [(x, w) for x, w in r if not eng.eq(st, x, a)] + [(a, v)]
        return r
    def has(self, eng, st, L, a, v): return any(eng.eq(st, x, a) and eng.eq(st, w, v) for x, w in L)
class RingAdd(RingOp):
    def ret(self, eng, st, inst, val):
        F, S, fr = st.ts; nx, pv = self.offs
        b = eng.base(val)[0] if val is not None else None
        if b is None or not b.startswith('M:'):
            self.put(inst, 'success means that the module is in the ring', not S and val is not None and eng.eq(st, val, ZERO), 'the result is %s although the ring is changed' % val); return
        L = self.last(eng, st); new = val; self.n['added'] = 1
        cur = list(self.fact(eng, st, self.G))
        if any(eng.eq(st, c, ZERO) for c in cur):
            good = self.has(eng, st, L, new.plus(nx), new) and self.has(eng, st, L, new.plus(pv), new) and self.has(eng, st, L, self.G, new) and len(L) == 3
        else:
            good = False
            pairs = [(x.plus(-nx), v) for x, v in F if x != self.G and eng.base(x)[1].c == nx] + [(v, x.plus(-pv)) for x, v in F if x != self.G and eng.base(x)[1].c == pv]
            for X, Y in pairs:
                want = [(new.plus(nx), Y), (new.plus(pv), X), (X.plus(nx), new), (Y.plus(pv), new)]
                rest = [(a, v) for a, v in L if not any(eng.eq(st, a, w) for w, _ in want)]
                if all(self.has(eng, st, L, a, v) for a, v in want) and all(a == self.G and any(eng.eq(st, v, k) for k in (new, X, Y)) for a, v in rest): good = True
        self.put(inst, 'the new module is put between two neighbours of the ring', good, 'the links of the ring become %s' % ', '.join('%s: %s' % l for l in L))
class RingDel(RingOp):
    def ret(self, eng, st, inst, val):
        F, S, fr = st.ts; nx, pv = self.offs; M = self.P[0]
        if val is None or not eng.eq(st, val, ZERO):
            self.put(inst, 'an error changes nothing', not S and not fr, 'the module may be taken from the ring although an error is returned'); return
        self.n['removed'] = 1
        L = self.last(eng, st); cur = list(self.fact(eng, st, self.G))
        one = any(eng.eq(st, v, M) for a in (M.plus(nx), M.plus(pv)) for v in self.fact(eng, st, a))
        if one: good = len(L) == 1 and self.has(eng, st, L, self.G, ZERO)
        else:
            good = False
            for Nn in self.fact(eng, st, M.plus(nx)):
                for Pp in self.fact(eng, st, M.plus(pv)):
                    rest = [(a, v) for a, v in L if not eng.eq(st, a, Nn.plus(pv)) and not eng.eq(st, a, Pp.plus(nx))]
                    g = [v for a, v in rest if a == self.G]
                    x = st.copy()
                    isnt = any(not eng.assume_eq(st.copy(), c, M) for c in cur)
                    if self.has(eng, st, L, Nn.plus(pv), Pp) and self.has(eng, st, L, Pp.plus(nx), Nn) and len(g) == len(rest) and \
                       (any(eng.eq(st, v, k) for v in g for k in (Nn, Pp)) or (not g and isnt)): good = True
        self.put(inst, 'the neighbours of the removed module are linked to each other', good, 'the links of the ring become %s' % ', '.join('%s: %s' % l for l in L))
        self.put(inst, 'the removed module is freed', any(eng.eq(st, f, M) for f in fr), 'the module is not freed')

SPEC = {'event_del': EUnlink, 'map_del': MUnlink, 'event_add': EInsert}
UKEEP = {'module_add', 'module_del', '_find_event', 'map_get', '_free_event', '_free_map', 'event_del', 'map_del', 'event_add', 'map_add'}
def run(ctx):
    global srv
    ctx.rule = 'of a list of events, mappings or modules, exactly one link changes: the removed entry is skipped, the new one put before the old list under a fresh number'
    srv = Server(extra_keep=UKEEP)
    # head of the ring of modules
    hs = [i.args[1][1] for i in srv.m.funcs['module_add'].insts() if i.op == 'store' and i.args[1][0] == 'g' and i.args[0][0] == 'r' and i.args[0][2].k == 'ptr']
    if not hs: raise chk.Broken('the ring of modules was not found')
    srv.head = hs[-1]
    items = [('event_del', EUnlink), ('map_del', MUnlink), ('map_del', MapDel), ('event_add', EInsert), ('map_add', MInsert), ('map_get', Find), ('_find_event', EvFind), ('event_del', EvDel), ('module_add', RingAdd), ('module_del', RingDel)]
    chk.parallel(ctx, one, [i for i in items])
def one(ctx, item):
    n, C = item
    f = srv.m.funcs.get(n)
    if f is None or f.decl: raise chk.Broken('function %s not found' % n)
    cl = C(srv, n)
    absint.Engine(srv.m, f, cl, srv.mr, K=16).run()
    ctx.count('functions'); ctx.sample('%s: %s' % (n, cl.n))
    for a, v in (cl.n if isinstance(cl.n, dict) else {}).items(): ctx.count(a, 1)
    cl.rec.flush(ctx, n)
