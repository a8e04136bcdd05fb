"""Skolemised tag: the analysis follows one arbitrary tag I (any index) and, when wanted, one arbitrary byte
g of it.  A property about 'every tag' is decided by asking whether a bad construct is reachable for I."""
from lin import Lin, ZERO, const, atom
from server import SrvClient, where, site
from ir import int_ty
import absint

I = atom('I'); G = atom('g')
GO = '&I'

class GhostTag(SrvClient):
    fields = ()              # ghost fields of this analysis
    def __init__(self, srv, root):
        super().__init__(srv, root)
        self.offs = {self.c['off_' + f]: f for f in self.fields}
    def entry_fields(self, eng, st):
        """{field: Lin value}"""
        return {}
    def init(self, eng, st):
        eng.mk('I', lo=self.idx_range()[0], hi=self.idx_range()[1])
        eng.mk('g', lo=0, hi=(1 << 31) - 1)
        eng.mk(GO, kind='obj', lo=4096, hi=absint.BIGP)
        for f, v in self.entry_fields(eng, st).items():
            st.mem[(atom(GO).plus(self.c['off_' + f]), self.c['w_' + f])] = (v, None)
        self.setup(eng, st)
    def idx_range(self): return (0, (1 << 31) - 2)
    def setup(self, eng, st): pass
    keybits = {}             # field -> mask: states that differ in these known bits are merged last
    def loopkey(self, eng, st):
        kb = []
        for f, m in self.keybits.items():
            c = st.mem.get((atom(GO).plus(self.c['off_' + f]), self.c['w_' + f]))
            k = eng._kbof(c[0]) if c is not None else None
            kb.append((k[0] & m, k[1] & m) if k else None)
        return tuple(kb)
    def joinkey(self, eng, st):
        return (frozenset(q for q in st.neq if q.coef('I')),
                frozenset(e for e in st.cons if len(e.t) == 2 and e.coef('I') == 1))
    def split(self, eng, st, idx):
        """(states with idx == I, states with idx != I)"""
        a = st.copy(); b = st
        ra = [a] if eng.assume_eq(a, idx, I) else []
        rb = [b] if eng.assume_ne(b, idx, I) else []
        return ra, rb
    def dbidx(self, eng, st, addr): return self.db_field(eng, addr, st)
    def load(self, eng, st, inst, addr, width, val):
        if val is None: return self.blockload(eng, st, inst, addr, width)
        r = self.db_field(eng, addr, st)
        if r is not None:
            x = self.on_entry(eng, st, inst, r[0], r[1])
            if r[1] in self.offs:
                eqs, nes = self.split(eng, st, r[0])
                for s in eqs:
                    c = s.mem.get((atom(GO).plus(r[1]), width))
                    if c is not None:
                        s.vals[inst.dst] = c[0]
                        # keep the address of the cell as origin of pointers
                        s.mem[(addr, width)] = (c[0], s.mem.get((addr, width), (None, None))[1])
                return eqs + nes
        return self.after_load(eng, st, inst, addr, width, val)
    def on_entry(self, eng, st, inst, idx, off): pass
    def after_load(self, eng, st, inst, addr, width, val): return None
    def blockload(self, eng, st, inst, addr, n): return None
    def store(self, eng, st, inst, addr, width, val):
        r = self.db_field(eng, addr, st)
        if r is not None:
            self.on_entry(eng, st, inst, r[0], r[1])
            if r[1] in self.offs and val is not None:
                x = self.on_field_store(eng, st, inst, r[0], r[1], val)
                eqs, nes = self.split(eng, st, r[0])
                for s in eqs: s.mem[(atom(GO).plus(r[1]), width)] = (val, None)
                for s in eqs + nes:
                    tag = eng.m.tbaa(inst.tbaa); eng.kill(s, addr, width, tag)
                    s.mem[(addr, width)] = (val, tag)
                return eqs + nes
            return None
        b, off = eng.base(addr)
        if b is not None:
            pf = self.ptr_field(eng, b)
            if pf is not None and pf[1] == 'data':
                return self.data_store(eng, st, inst, pf[0], off, width, val)
        return None
    def on_field_store(self, eng, st, inst, idx, off, val): pass
    def finish_store(self, eng, st, inst, addr, width, val):
        """the engine's own store effect, for clients that return states"""
        if val is None:
            b, _ = eng.base(addr)
            if b is not None: eng.kill_base(st, b)
        else:
            tag = eng.m.tbaa(inst.tbaa); eng.kill(st, addr, width, tag)
            if inst.ty.k in ('int', 'ptr'): st.mem[(addr, width)] = (val, tag)
    def data_store(self, eng, st, inst, idx, off, n, val): return None
    # message access
    def msg(self, eng, st, field): return None

def kbatom(eng, name, bits, ones, zeros):
    v = eng.mk(name, int_ty(bits)); eng.ainfo[name]['kb'] = (ones, zeros)
    return v
