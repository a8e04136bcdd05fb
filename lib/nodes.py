"""List nodes (events, mappings): which tag they belong to, and what is known about a node that is in a list.

typestate: frozenset of (pointer to a node, kind, tag index).  A node is recognised when it is loaded from the head field of
a database entry or from the link field of a recognised node."""
from lin import Lin, ZERO, const, atom

class NodeMixin:
    """mix into a SrvClient; ts is the node set"""
    KINDS = {'event': ('events', 'e_next'), 'map': ('mappings', 'd_next')}
    def nodes_init(self, eng, st):
        st.ts = frozenset()
    def nodeset(self, st): return st.ts
    def set_nodes(self, st, n): st.ts = n
    def node_of(self, eng, st, P):
        """(kind, index) of node pointer P"""
        for Q, k, i in self.nodeset(st):
            if Q == P: return k, i
        for Q, k, i in self.nodeset(st):
            if eng.eq(st, Q, P): return k, i
        return None
    def node_load(self, eng, st, inst, addr, width, val):
        """call from load()"""
        if val is None or width != 8: pass
        else:
            r = self.db_field(eng, addr, st)
            if r is not None:
                for k, (head, nx) in self.KINDS.items():
                    if r[1] == self.c['off_' + head]: self.add(st, val, k, r[0])
            else:
                b, off = eng.base(addr)
                if b is not None and off.isconst():
                    for k, (head, nx) in self.KINDS.items():
                        if off.c == self.c[nx]:
                            n = self.node_of(eng, st, atom(b))
                            if n and n[0] == k: self.add(st, val, k, n[1])
                    if off.c == 0:
                        x = self.linkphi(eng, st, b)
                        if x: self.add(st, val, x[0], x[1])
        if val is not None:
            b, off = eng.base(addr)
            if b is not None and off.isconst():
                n = self.node_of(eng, st, atom(b))
                if n: self.node_fact(eng, st, inst, atom(b), n[0], n[1], off.c, width, val)
    def add(self, st, P, k, i):
        if P == ZERO: return
        self.set_nodes(st, frozenset(x for x in self.nodeset(st) if x[0] != P) | {(P, k, i)})
    def linkphi(self, eng, st, b):
        d = eng.defs.get(b[2:]) if b.startswith('v:') else None
        if d is None or d.op != 'phi' or d.ty.k != 'ptr': return None
        res = None; pending = None
        for v in d.args:
            x = eng.defs.get(v[1]) if v[0] == 'r' else None
            if x is None or x.op != 'getelementptr': return None
            s = st.copy()
            a = eng.gep(s, x.extra, x.args); bb, off = eng.base(a)
            r = self.db_field(eng, a, s)
            if r is not None:
                ks = [k for k, (head, nx) in self.KINDS.items() if r[1] == self.c['off_' + head]]
                if not ks or (res and res != (ks[0], r[0])): return None
                res = (ks[0], r[0])
            elif off.isconst(): pending = off.c
            else: return None
        if res and pending is not None and pending != self.c[self.KINDS[res[0]][1]]: return None
        return res
    def node_edge(self, eng, st, blk, succ):
        """call from edge()"""
        N = self.nodeset(st)
        if not N or succ not in eng.loopblocks: return
        inside = eng.loopblocks[succ]
        phis = [(i, eng._phival(st, i, blk)) for i in succ.insts if i.op == 'phi']
        local = set(i.dst for b in inside for i in b.insts if i.dst)
        out = set()
        for P, k, x in N:
            if eng.deps(x) & local: continue
            to = [i for i, v in phis if v == P]
            for i in to: out.add((atom('v:' + i.dst), k, x))
            if not to and not (eng.deps(P) & local): out.add((P, k, x))
        self.set_nodes(st, frozenset(out))
    def cursize(self, eng, st, idx):
        """Lin of tag_get_size(idx), created when it has not been computed yet"""
        v = self.tag_size(st, eng, idx)
        if v is None:
            v = eng.opaque(st, 'tagsize', None, [idx], *(self.result_range('tag_get_size') or (0, (1 << 31) - 1)))
            st.mem[('pure', 'tag_get_size', (idx,))] = (v, None)
        return v
    def node_fact(self, eng, st, inst, P, kind, idx, off, width, val):
        c = self.c
        def cell(o, w=4):
            x = st.mem.get((P.plus(o), w)); return x[0] if x else None
        def rng(byte, size, tag):
            S = self.cursize(eng, st, tag)
            if byte is not None: eng.assume(st, byte.scale(-1)); eng.assume(st, byte.sub(S))
            if size is not None: eng.assume(st, const(1).sub(size)); eng.assume(st, size.sub(S))
            if byte is not None and size is not None: eng.assume(st, byte.add(size).sub(S))
        def bits(bit, cnt, size):
            if bit is not None: eng.assume(st, bit.scale(-1)); eng.assume(st, bit.plus(-7))
            if None not in (bit, cnt, size): eng.assume(st, bit.add(cnt).sub(size.scale(8)))
            elif None not in (bit, cnt): eng.assume(st, bit.add(cnt).sub(self.cursize(eng, st, idx).scale(8)))
        if kind == 'event':
            rng(cell(c['e_byte']), cell(c['e_size']), idx)
            ty, et = cell(c['e_datatype'], c['we_datatype']), cell(c['e_eventtype'], c['we_eventtype'])
            if (ty is not None and eng.eq(st, ty, const(c['T_BOOL']))) or (et is not None and (eng.eq(st, et, const(c['EV_SET'])) or eng.eq(st, et, const(c['EV_RESET'])))):
                bits(cell(c['e_bit'], c['we_bit']), cell(c['e_count']), cell(c['e_size']))
        if kind == 'map':
            s = c['d_source']
            if off == s + c['h_index']: eng.assume_eq(st, val, idx)
            m = st.mem.get((P.plus(c['d_mask']), 8))
            if m is not None and eng._nz(st, m[0]): bits(cell(s + c['h_bit'], c['wh_bit']), cell(s + c['h_count']), cell(s + c['h_size']))
            if off in (s + c['h_byte'], s + c['h_size']): rng(cell(s + c['h_byte']), cell(s + c['h_size']), idx)
