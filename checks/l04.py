"""L04: the library asks for exactly what its caller asked for and hands back exactly what the server answered.

For every function of the library that sends a request: each field of the message is the parameter (or the field of the handle, or the
bytes of the caller's buffer) that stands for it in the protocol, at its place; an error of sending or receiving is an error of the
call; the results are the fields of the reply.  Byte ranges are followed with an arbitrary byte N of the range."""
import chk, absint
from prog import Program, ProgClient, where
from bounds import Recorder
from lin import Lin, ZERO, const, atom

H = {'index': 4, 'byte': 4, 'bit': 1, 'count': 4, 'size': 4, 'type': 4}
def h(k, **at): return [(o, H[f], ('f', k, 'h_' + f)) for f, o in at.items()]
def P(o, k, w=4): return (o, w, ('p', k))
def F(o, k, f, w=4): return (o, w, ('f', k, f))
def ID(k): return [(0, 4, ('id', k, 'id_index')), (4, 4, ('id', k, 'id_id'))]
SRC = dict(index=0, byte=4, bit=8, count=9, size=13, type=17)
DST = {f: o + 21 for f, o in SRC.items()}
def out(k, **at): return [(k, 'h_' + f, o, H[f]) for f, o in at.items()]
# function: request -> fields, blocks (offset, size, source), strings (offset, parameter); results (parameter, field, offset of the reply, width)
API = {
 'dax_tag_add': dict(MSG_TAG_ADD=dict(f=[P(0, 3), P(4, 4), P(8, 5)], s=[(12, 2)], out=[(1, 'h_index', 0, 4)], same=[(1, 'h_byte', ('n', 0), 4), (1, 'h_bit', ('n', 0), 1), (1, 'h_type', ('p', 3), 4), (1, 'h_count', ('p', 4), 4)], gone=('r', 0))),
 'dax_tag_del': dict(MSG_TAG_DEL=dict(f=[P(0, 1)], size=4, gone=('p', 1))),
 'dax_tag_byname': dict(MSG_TAG_GET=dict(f=[(0, 1, ('c', 'TAG_GET_NAME'))], s=[(1, 2)], out=[(1, 't_idx', 0, 4), (1, 't_type', 4, 4), (1, 't_count', 8, 4), (1, 't_attr', 12, 2)], sout=[(1, 't_name', 14)])),
 'dax_tag_byindex': dict(MSG_TAG_GET=dict(f=[(0, 1, ('c', 'TAG_GET_INDEX')), P(1, 2)], size=5, out=[(1, 't_idx', 0, 4), (1, 't_type', 4, 4), (1, 't_count', 8, 4), (1, 't_attr', 12, 2)], sout=[(1, 't_name', 14)])),
 'dax_read': dict(MSG_TAG_READ=dict(f=[P(0, 1), P(4, 2), P(8, 4)], size=12, into=(3, ('p', 4)), deleted=('p', 1))),
 'dax_write': dict(MSG_TAG_WRITE=dict(f=[P(0, 1), P(4, 2)], b=[(8, None, ('p', 4), 3)], deleted=('p', 1))),
 'dax_mask': dict(MSG_TAG_MWRITE=dict(f=[P(0, 1), P(4, 2)], b=[(8, None, ('p', 5), 3), (8, ('p', 5), ('p', 5), 4)], deleted=('p', 1))),
 'dax_tag_add_override': dict(MSG_ADD_OVRD=dict(f=h(1, index=0, byte=4))),
 'dax_tag_del_override': dict(MSG_DEL_OVRD=dict(f=h(1, index=0, byte=4))),
 'dax_tag_get_override': dict(MSG_GET_OVRD=dict(f=h(1, index=0, byte=4, size=8), size=12, bout=[(2, None, ('f', 1, 'h_size')), (3, ('f', 1, 'h_size'), ('f', 1, 'h_size'))])),
 'dax_tag_set_override': dict(MSG_SET_OVRD=dict(f=h(1, index=0) + [(4, 1, ('nz',))], size=5)),
 'dax_tag_clr_override': dict(MSG_SET_OVRD=dict(f=h(1, index=0) + [(4, 1, ('z',))], size=5)),
 'dax_atomic_op': dict(MSG_ATOMIC_OP=dict(f=h(1, index=0, byte=4, count=8, type=12, bit=16) + [P(17, 3, 2)], b=[(21, None, ('f', 1, 'h_size'), 2)], deleted=('f', 1, 'h_index'))),
 'dax_event_add': dict(MSG_EVNT_ADD=dict(f=h(1, index=0, byte=4, count=8, type=12, size=20, bit=24) + [P(16, 2)], size=25, out=[(4, 'id_id', 0, 4)], same=[(4, 'id_index', ('f', 1, 'h_index'), 4)], calls={'add_event': [(2, 6), (3, 5), (4, 7)]})),
 'dax_event_del': dict(MSG_EVNT_DEL=dict(f=ID(1), size=8)),
 'dax_event_options': dict(MSG_EVNT_OPT=dict(f=ID(1) + [P(8, 2)], size=12)),
 'dax_map_add': dict(MSG_MAP_ADD=dict(f=h(1, **SRC) + h(2, **DST), size=42, out=[(3, 'id_id', 0, 4)], same=[(3, 'id_index', ('f', 1, 'h_index'), 4)])),
 'dax_map_get': dict(MSG_MAP_GET=dict(f=ID(3), size=8, out=out(1, **SRC) + out(2, **DST))),
 'dax_map_del': dict(MSG_MAP_DEL=dict(f=ID(1), size=8)),
 'dax_group_add': dict(MSG_GRP_ADD=dict(f=[P(0, 3, 1), P(1, 4, 1)], each=(2, 21, 3, 2, SRC), heap=[('gi_index', 0, 4), ('gi_count', ('p', 3), 1)])),
 'dax_group_read': dict(MSG_GRP_READ=dict(f=[F(0, 1, 'gi_index')], size=4, into=(2, None))),
 'dax_group_write': dict(MSG_GRP_WRITE=dict(f=[F(0, 1, 'gi_index')], b=[(4, None, ('f', 1, 'gi_size'), 2)])),
 'dax_group_del': dict(MSG_GRP_DEL=dict(f=[F(0, 1, 'gi_index')], size=4)),
}
CONSTS = {}
for f in H: CONSTS['h_' + f] = 'offsetof(tag_handle,%s)' % f
for f in ('index', 'id'): CONSTS['id_' + f] = 'offsetof(dax_id,%s)' % f
for f in ('idx', 'type', 'count', 'attr', 'name'): CONSTS['t_' + f] = 'offsetof(dax_tag,%s)' % f
for f in ('index', 'size', 'count', 'options', 'handles'): CONSTS['gi_' + f] = 'offsetof(tag_group_id,%s)' % f
for f in ('idx', 'type', 'count', 'attr'): CONSTS['tw_' + f] = 'sizeof(((dax_tag*)0)->%s)' % f
CONSTS['hsz'] = 'sizeof(tag_handle)'
for f in API.values():
    for k in f: CONSTS[k] = k
for k in ('TAG_GET_NAME', 'TAG_GET_INDEX', 'MSG_DATA_SIZE', 'ERR_DELETED'): CONSTS[k] = k
COPY = ('memcpy', 'memmove', 'llvm.memcpy', 'llvm.memmove')
STR = {'strcpy', 'strncpy', 'stpcpy', 'memcpy', 'strlcpy', 'memmove'}

class Wire(ProgClient):
    """ts = (phase, frozenset of what is right); phase: 'before' | 'sent' | 'ok' | 'err'"""
    def __init__(self, prog, root, base=None):
        super().__init__(prog, root); self.spec = API[root]; self.base0 = base; self.found = set()
        self.rec = Recorder(); self.n = {}; self.rbuf = None
        self.tw = {'t_' + f: self.c['tw_' + f] for f in ('idx', 'type', 'count', 'attr')}
    def put(self, i, tag, good, msg): self.rec.put(i, tag, good, where(self.m, i), msg)
    def round(self, eng, blocks): self.rec.drop(blocks)
    def count(self, k): self.n[k] = self.n.get(k, 0) + 1
    def joinkey(self, eng, st): return st.ts
    def loopkey(self, eng, st): return st.ts
    def stable(self, eng, key):
        if super().stable(eng, key): return True
        if key[0] == 'pure': return False
        b = eng.base(key[0])[0]
        return b in self.inputs
    tw = {}; splits = True
    def init(self, eng, st):
        self.A = [st.vals[p] for p, _ in eng.fn.params]
        self.one = next(iter(self.spec.values())); self.cmd = self.c[next(iter(self.spec))]
        s = self.one; ins = {x[2][1] for x in s['f'] if x[2][0] in ('f', 'p')} | {b[3] for b in s.get('b', ())}
        self.inputs = {'p:' + eng.fn.params[k][0] for k in ins if k < len(eng.fn.params)}
        for e in [b[2] for b in s.get('b', ())] + [b[2] for b in s.get('bout', ())]:      # no object is larger
            if e[0] == 'p': eng.assume(st, self.A[e[1]].scale(-1)); eng.assume(st, self.A[e[1]].plus(-(1 << 40)))
            elif e[2] == 'gi_size': st.mem[(self.A[e[1]].plus(self.c[e[2]]), 4)] = (eng.mk('gsize', lo=0, hi=self.c['MSG_DATA_SIZE']), None)
        self.N = []
        for j, b in enumerate(s.get('b', ())):
            self.N.append(eng.mk('N%d' % j, lo=0, hi=1 << 20))
        for j, b in enumerate(s.get('bout', ())): self.N.append(eng.mk('N%d' % j, lo=0, hi=1 << 20))
        if 'each' in s: self.N.append(eng.mk('N', lo=0, hi=255))
        st.ts = ('before', frozenset())
    # ---- values
    def came(self, eng, v, w=None):
        """the address that v was loaded from (all w bytes of it)"""
        if v is None: return None
        v = self.strip(eng, v, w or 8)
        o = eng.origin(v.t[0][0]) if len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1 else None
        if o and w and w < 8:
            hi = eng.rng(v.t[0][0])[1]
            if hi is not None and hi < (1 << (8 * w - 1)) - 1: return None
        return o[0] if o and isinstance(o[0], Lin) else None
    def strip(self, eng, v, w=8):
        while v is not None and len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1:
            a = v.t[0][0]; q = None
            for p in ('zx', 'sx', 'wrap'):
                if a.startswith(p) and a.endswith(')') and '(' in a:
                    d = a[len(p):a.index('(')]; inner = a[a.index('(') + 1:-1]
                    if d.isdigit() and int(d) >= 8 * w or d.isdigit() and w == 8: q = inner
            if q is None or not all(ch.isalnum() or ch in ':._~@' for ch in q): break
            v = atom(q)
        return v
    def matches(self, eng, st, v, e, w):
        """is the value v (w bytes of it) the one that e stands for?"""
        if v is None: return False
        k = e[0]
        if k == 'c': return eng.eq(st, v, const(self.c[e[1]]))
        if k == 'n': return eng.eq(st, v, const(e[1]))
        if k == 'z': return v.isconst() and v.c & 0xff == 0 or eng.eq(st, v, ZERO)
        if k == 'nz': return v.isconst() and v.c & 0xff != 0
        if k == 'p':
            return eng.eq(st, v, self.A[e[1]]) or self.strip(eng, v, w) == self.A[e[1]] or eng.eq(st, self.strip(eng, v, w), self.A[e[1]])
        if k == 'f':
            a = self.A[e[1]].plus(self.c[e[2]])
            if self.came(eng, v, w) == a: return True
            return any(kk[0] == a and (eng.eq(st, c[0], v) or self.strip(eng, v, w) == self.strip(eng, c[0], w)) for kk, c in st.mem.items() if kk[0] != 'pure')
        if k == 'id':                                            # a small struct passed by value: a 64 bit integer
            sh = 8 * self.c[e[2]]; p = self.A[e[1]]
            x = str(v)
            for q in ('wrap32(', 'zx32('):
                while x.startswith(q) and x.endswith(')'): x = x[len(q):-1]
            return x == (str(p) if sh == 0 else 'lshr64(%s,%d)' % (p, sh)) or self.came(eng, v) == p.plus(self.c[e[2]])
    def lin(self, eng, st, e):
        """the size that e stands for"""
        if e is None: return ZERO
        if e[0] == 'p': return self.A[e[1]]
        a = self.A[e[1]].plus(self.c[e[2]])
        for kk, c in st.mem.items():
            if kk[0] == a: return c[0]
        return None
    # ---- the message
    def store(self, eng, st, inst, addr, width, val):
        b, off = eng.base(addr); s = self.one
        ph, good = st.ts
        src = None
        if inst.op == 'call' and val is None and len(inst.args) > 1:
            src = eng.val(st, inst.args[1])
        if ph in ('before',) and b is not None and b == self.base0:
            w = width if type(width) is int else width.c if width.isconst() else None
            for j, (o, fw, e) in enumerate(s['f']):
                d = const(o).sub(off)
                if not d.isconst():
                    continue
                if w is not None and (d.c + fw <= 0 or d.c >= w) or w is None and d.c < 0: continue
                if src is not None: ok = e[0] == 'f' and src.plus(d.c) == self.A[e[1]].plus(self.c[e[2]]) or e[0] == 'p' and False
                else:
                    x = self.came(eng, val)
                    ok = (d.c == 0 and (w or 0) >= fw and self.matches(eng, st, val, e, fw) or w is not None and 0 <= d.c <= w - fw and
                          (e[0] == 'f' and x is not None and x.plus(d.c) == self.A[e[1]].plus(self.c[e[2]]) or e[0] == 'id' and w == 8 and val == self.A[e[1]] and d.c == self.c[e[2]]))
                good = good | {('f', j)} if ok else good - {('f', j)}
            st.ts = (ph, good)
            return self.blocks(eng, st, inst, off, width, val, src)
        if ph == 'ok': return self.results(eng, st, inst, addr, width, val, src)
    def cover(self, eng, st, off, width, T):
        """states in which byte T of the message is written, and the others"""
        w = const(width) if type(width) is int else width
        a = st.copy(); r = []
        if eng.assume(a, off.sub(T)) and eng.assume(a, T.plus(1).sub(off).sub(w)): r.append((a, True))
        for e in (T.plus(1).sub(off), off.add(w).sub(T)):
            z = st.copy()
            if eng.assume(z, e): r.append((z, False))
        return r
    def blocks(self, eng, st, inst, off, width, val, src):
        S = [st]
        for j, (o, more, size, k) in enumerate(self.one.get('b', ())):
            nxt = []
            for s in S:
                m = self.lin(eng, s, more)
                if m is None: nxt.append(s); continue
                T = m.plus(o).add(self.N[j]); n = self.lin(eng, s, size)
                if n is not None: eng.assume(s, self.N[j].plus(1).sub(n))
                for z, inn in self.cover(eng, s, off, width, T):
                    if inn:
                        x = src if src is not None else self.came(eng, val)
                        ok = x is not None and eng.eq(z, x.add(T).sub(off), self.A[k].add(self.N[j]))
                        z.ts = (z.ts[0], z.ts[1] | {('b', j)} if ok else z.ts[1] - {('b', j)})
                    nxt.append(z)
            S = nxt
        if 'each' in self.one:
            o, step, cnt, k, fl = self.one['each']; nxt = []
            for s in S:
                eng.assume(s, self.N[-1].plus(1).sub(self.A[cnt]))
                off = self.resolve(s, off, step)
                d = off.plus(-o); w = width if type(width) is int else width.c if width.isconst() else None
                hit = [f for f, x in fl.items() if (d.c - x) % step == 0]
                if any(q % step for _, q in d.t) or not hit or w is None: nxt.append(s); continue
                f = hit[0]; m = Lin((d.c - fl[f]) // step, tuple((a, q // step) for a, q in d.t))
                a = s.copy()
                if eng.assume_eq(a, m, self.N[-1]):
                    x = src if src is not None else self.came(eng, val)
                    want = self.A[k].add(self.N[-1].scale(self.c['hsz'])).plus(self.c['h_' + f])
                    ok = x is not None and eng.eq(a, x, want) and w == H[f]
                    a.ts = (a.ts[0], a.ts[1] | {('e', f)} if ok else a.ts[1] - {('e', f)}); nxt.append(a)
                if eng.assume_ne(s, m, self.N[-1]): nxt.append(s)
            S = nxt
        return S
    def resolve(self, s, off, step):
        """the same number, written with multiples of step (by the equalities that are known)"""
        R = []
        for a, q in off.t:
            if q % step == 0: continue
            for e in s.cons:
                if abs(e.coef(a)) == 1 and e.scale(-1) in s.cons:
                    r = off.add(e, -q * e.coef(a))
                    if all(k % step == 0 for _, k in r.t): R.append(r)
        return min(R, key=lambda r: (not r.t, len(r.t), abs(r.c), repr(r))) if R else off
    def results(self, eng, st, inst, addr, width, val, src):
        ph, good = st.ts; s = self.one
        for j, (k, f, o, w) in enumerate(s.get('out', ())):
            if addr == self.A[k].plus(self.c[f]):
                x = src if src is not None else self.came(eng, val, w)
                ok = x is not None and self.rbuf is not None and eng.eq(st, x, self.rbuf.plus(o)) and (type(width) is not int or width >= w)
                st.ts = (ph, st.ts[1] | {('o', j)}) if ok else (ph, st.ts[1] - {('o', j)})
        for j, (k, f, e, w) in enumerate(s.get('same', ())):
            if addr == self.A[k].plus(self.c[f]):
                ok = self.matches(eng, st, val, e, w)
                st.ts = (ph, st.ts[1] | {('s', j)}) if ok else (ph, st.ts[1] - {('s', j)})
        b, off = eng.base(addr)
        if b is not None and b.startswith('M:') and b != self.base0 and src is None:
            for j, (f, e, w) in enumerate(s.get('heap', ())):
                if off == const(self.c[f]):
                    ok = self.reply(eng, st, val, e) if type(e) is int else self.matches(eng, st, val, e, w)
                    st.ts = (ph, st.ts[1] | {('h', j, b)}) if ok else (ph, st.ts[1] - {('h', j, b)})
        S = [st]
        for j, (k, more, size) in enumerate(s.get('bout', ())):
            nxt = []
            for q in S:
                d = addr.sub(self.A[k]); n = self.lin(eng, q, size); m = self.lin(eng, q, more)
                if eng.base(addr)[0] != 'p:' + eng.fn.params[k][0] or n is None or m is None: nxt.append(q); continue
                eng.assume(q, self.N[j].plus(1).sub(n))
                for z, inn in self.cover(eng, q, d, width, self.N[j]):
                    if inn:
                        x = src if src is not None else self.came(eng, val)
                        ok = x is not None and self.rbuf is not None and eng.eq(z, x.add(self.N[j]).sub(d), self.rbuf.add(m).add(self.N[j]))
                        z.ts = (z.ts[0], z.ts[1] | {('q', j)} if ok else z.ts[1] - {('q', j)})
                    nxt.append(z)
            S = nxt
        return S
    def reply(self, eng, st, val, o):
        x = self.came(eng, val)
        return x is not None and self.rbuf is not None and eng.eq(st, x, self.rbuf.plus(o))
    def call(self, eng, st, i, name, args):
        s = self.one; ph, good = st.ts
        if name in ('check_cache_name', 'check_cache_index') and i.dst:
            mine = eng.eq(st, args[1], self.A[2]) and eng.eq(st, args[2], self.A[1])
            z = st.copy()
            for q in (st, z): eng.clobber(q, i, None, args)
            st.vals[i.dst] = ZERO
            if mine: st.ts = ('cached', good)
            v = eng.fresh_result(z, i)
            return [st, z] if eng.assume_ne(z, v, ZERO) else [st]
        if name == 'cache_tag_del':                              # changes only the cache
            e = s.get('gone') or s.get('deleted')
            if e and self.base0 is not None and ph in ('ok', 'err') and (self.reply(eng, st, args[1], e[1]) if e[0] == 'r' else self.matches(eng, st, args[1], e, 4)): st.ts = (ph, good | {'forgotten'})
            if i.dst: eng.fresh_result(st, i)
            return [st]
        if name == 'cache_tag_add' and self.base0 is not None:
            said = {f: o for k, f, o, w in s.get('out', ()) if f.startswith('t_')}
            for f in self.tw:
                c = st.mem.get((args[1].plus(self.c[f]), self.tw[f]))
                ok = ph == 'ok' and f in said and (c is not None and self.reply(eng, st, c[0], said[f]) or any(('o', j) in good and args[1] == self.A[x[0]] for j, x in enumerate(s['out']) if x[1] == f))
                self.put(i, 'what is remembered of a tag is what the server said (%s)' % f[2:], ok, '%s of the tag that is remembered is not from a reply of the server' % f[2:])
            st.ts = (ph, good | {'cached'}); good = st.ts[1]
        if self.base0 is not None:
            for a, k in s.get('calls', {}).get(name, ()):
                self.put(i, 'the callback is that of the caller', eng.eq(st, args[a], self.A[k]), 'argument %d of %s() is %s' % (a, name, args[a]))
        if name == 'strlen' and i.dst:
            r = super().call(eng, st, i, name, args)
            self.lens = getattr(self, 'lens', {}); self.lens[i.dst] = args[0]
            return r
        if name == '_message_send':
            b, off = eng.base(args[2])
            self.found.add(b)
            if self.base0 is None: return self.both(eng, st, i, 'sent')
            self.count('requests')
            self.put(i, 'the request is the right one', eng.eq(st, args[1], const(self.cmd)), 'request %s' % args[1])
            for j, (o, w, e) in enumerate(s['f']):
                ok = ('f', j) in good or any(kk[0] == args[2].plus(o) and kk[1] >= w and self.matches(eng, st, c[0], e, w) for kk, c in st.mem.items() if kk[0] != 'pure')
                self.put(i, 'a field of the request is what was asked for (%d)' % o, ok, 'byte %d of the request is not %s' % (o, self.show(e)))
                self.count('fields')
            for j, (o, more, size, k) in enumerate(s.get('b', ())):
                z = st.copy(); n = self.lin(eng, z, size)
                null = eng.eq(z, self.A[k], ZERO) or not eng.assume_ne(z, self.A[k], ZERO)
                ok = null or n is not None and (('b', j) in good or not eng.assume(z, self.N[j].plus(1).sub(n)))
                self.put(i, 'the bytes of the caller are in the request (%d)' % j, ok, 'byte N of the data is not at its place in the request')
                m = self.lin(eng, st, more)
                z = st.copy(); eng.assume(z, n.scale(-1)) if n is not None else None
                self.put(i, 'the request holds all of its data (%d)' % j, null or n is not None and m is not None and self.ge(eng, z, args[3], m.add(n).plus(o)), 'the size of the request is %s' % args[3])
            for o, k in s.get('s', ()):
                self.put(i, 'the name is in the request', ('t', o) in good, 'the name is not at byte %d of the request' % o)
                ln = [atom('C:' + d) for d, x in getattr(self, 'lens', {}).items() if eng.eq(st, x, self.A[k])]
                self.put(i, 'the request holds the whole name', any(eng.entails(st, l.plus(o + 1).sub(args[3])) for l in ln) if ln else True, 'the size of the request is %s' % args[3])
            if 'each' in s:
                z = st.copy()
                if eng.assume(z, self.N[-1].plus(1).sub(self.A[s['each'][2]])):
                    miss = [f for f in s['each'][4] if ('e', f) not in good]
                    self.put(i, 'every member is in the request', not miss, 'of member N %s is not in the request' % ', '.join(miss))
            if 'size' in s: self.put(i, 'the request is complete', eng.entails(st, const(s['size']).sub(args[3])), 'the size of the request is %s, %d are needed' % (args[3], s['size']))
            return self.both(eng, st, i, 'sent')
        if name == '_message_recv':
            if self.base0 is None: return self.both(eng, st, i, 'ok', args)
            self.put(i, 'the reply to the request is waited for', eng.eq(st, args[1], const(self.cmd)), 'the reply to %s' % args[1])
            if s.get('into'):
                k, n = s['into']; cell = [c[0] for kk, c in st.mem.items() if kk[0] == args[3]]
                self.put(i, 'the reply goes to the caller', eng.eq(st, args[2], self.A[k]), 'the reply goes to %s' % args[2])
                if n: self.put(i, 'the reply has the size asked for', any(eng.eq(st, x, self.lin(eng, st, n)) for x in cell), 'room for %s' % [str(x) for x in cell])
            return self.both(eng, st, i, 'ok', args)
        if ph == 'before' and self.base0 is not None and any(name.startswith(x) for x in STR) or ph == 'before' and name.startswith(COPY):
            b, off = eng.base(args[0])
            if b == self.base0:
                for o, k in s.get('s', ()):
                    if off.isconst() and off.c == o: st.ts = (ph, good | {('t', o)} if eng.eq(st, args[1], self.A[k]) else good - {('t', o)})
        if ph == 'ok' and any(name.startswith(x) for x in STR) or ph == 'ok' and name.startswith(COPY):
            for k, f, o in s.get('sout', ()):
                if args[0] == self.A[k].plus(self.c[f]):
                    ok = self.rbuf is not None and eng.eq(st, args[1], self.rbuf.plus(o))
                    self.put(i, 'the name is that of the reply', ok and 'cached' not in good, 'the name comes from %s' % args[1] if not ok else 'the tag was remembered before')
        return super().call(eng, st, i, name, args)
    def ge(self, eng, st, a, b):
        """a >= b, also when the sum could only wrap for sizes that were refused"""
        if eng.entails(st, b.sub(a)): return True
        x = str(a)
        return x.startswith('wrap64(') and self.unwrap(x) is not None and self.unwrap(x) == str(b)
    def unwrap(self, x): return x[len('wrap64('):-1]
    def both(self, eng, st, i, ph, args=None):
        z = st.copy(); good = st.ts[1]
        if args is not None:
            self.rbuf = args[2]
            for q in (st, z): eng.clobber(q, i, None, args)
        if i.dst: st.vals[i.dst] = ZERO
        st.ts = (ph, frozenset() if args is not None else good)
        if i.dst:
            v = eng.fresh_result(z, i)
            if not eng.assume_ne(z, v, ZERO): return [st]
        z.ts = ('err', frozenset({'unsent'} if args is None else ())); return [st, z]
    def show(self, e): return {'p': 'parameter %s', 'f': '%s', 'id': '%s'}.get(e[0], '%s') % (e[2] if len(e) > 2 else e[-1])
    def ret(self, eng, st, inst, val):
        if self.base0 is None or val is None: return
        ph, good = st.ts; s = self.one
        ptr = self.root == 'dax_group_add'
        res = val
        if ptr:
            c = st.mem.get((self.A[1], 4)); res = c[0] if c else None
        if ph == 'before':
            self.put(inst, 'success means that the server was asked', res is not None and not eng.assume_eq(st.copy(), res, ZERO), 'success although nothing was sent')
        if ph in ('err', 'sent'):
            self.count('results')
            self.put(inst, 'an error is an error of the call', res is not None and not eng.assume_eq(st.copy(), res, ZERO), 'success although %s' % ('sending or receiving failed' if ph == 'err' else 'there was no reply'))
        if ph == 'err' and 'deleted' in s and res is not None:
            z = st.copy()
            if eng.assume_eq(z, res, const(self.c['ERR_DELETED'])): self.put(inst, 'a deleted tag is forgotten', 'forgotten' in good or 'unsent' in good, 'the tag is deleted and still remembered')
        if ph == 'ok':
            z = st.copy(); self.count('results')
            if res is None or not eng.assume_eq(z, res, ZERO):
                if not ptr and not s.get('fail'): pass
                return
            for j, (k, f, o, w) in enumerate(s.get('out', ())):
                q = z.copy()
                if not eng.assume_ne(q, self.A[k], ZERO): continue
                if ('o', j) not in good and any(kk[0] == self.A[k].plus(self.c[f]) and self.reply(eng, z, c[0], o) for kk, c in z.mem.items() if kk[0] != 'pure'): continue
                self.put(inst, 'every result is that of the reply (%s)' % f, ('o', j) in good, '%s is not byte %d of the reply' % (f, o))
            if 'gone' in s: self.put(inst, 'what was known of the tag is forgotten', 'forgotten' in good, 'the tag was changed and is still remembered as it was')
            for j, (k, f, e, w) in enumerate(s.get('same', ())):
                q = z.copy()
                if not eng.assume_ne(q, self.A[k], ZERO): continue
                self.put(inst, 'every result is that of the request (%s)' % f, ('s', j) in good, '%s is not that of the request' % f)
            if ptr:
                q = z.copy()
                if eng.assume_ne(q, val, ZERO):
                    for j, (f, e, w) in enumerate(s['heap']): self.put(inst, 'every result is handed out', ('h', j, eng.base(val)[0]) in good, '%s is not that of the reply or request' % f)
            for j, b in enumerate(s.get('bout', ())):
                q = z.copy(); n = self.lin(eng, q, b[2])
                if n is not None and eng.assume(q, self.N[j].plus(1).sub(n)): self.put(inst, 'the data of the reply is handed out', ('q', j) in good, 'byte N of the reply does not get to its place')

prog = None
def prepare():
    global prog
    prog = Program('dax', keep={'_message_send', '_message_recv', 'cache_tag_add', 'cache_tag_del', 'check_cache_name', 'check_cache_index', 'group_read_format', 'group_write_format', 'add_event', 'del_event', 'dax_get_typesize', 'get_typesize'}, consts=CONSTS, includes=['libdax.h', 'libcommon.h', 'opendax.h'])
    miss = [k for k in CONSTS if k not in prog.c]
    return [f for f in API if not (set(API[f]) & set(miss))]
def one(ctx, f):
    fn = prog.m.funcs.get(f)
    if fn is None or fn.decl: ctx.count('missing'); return
    a = Wire(prog, f); absint.Engine(prog.m, fn, a, prog.mr, K=8).run()
    if len(a.found) != 1: ctx.unresolved[f] = 'no single message buffer'; return
    cl = Wire(prog, f, next(iter(a.found)))
    absint.Engine(prog.m, fn, cl, prog.mr, K=12).run()
    ctx.count('functions'); ctx.sample('%s: %s' % (f, cl.n))
    for a, v in cl.n.items(): ctx.count(a, 1)
    cl.rec.flush(ctx, f)
def run(ctx):
    ctx.rule = 'every field of a request is the parameter that stands for it in the protocol, an error of sending or receiving is one of the call, results are the fields of the reply'
    chk.parallel(ctx, one, prepare())
    ctx.require('requests', 5)
