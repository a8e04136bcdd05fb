"""What must follow a change of a tag value: shared by S04 (events), S05 (retention), S06 (mappings)."""
from ghost import GhostTag, I, G, kbatom, GO
from server import where
from lin import Lin, const, atom, ZERO
from bounds import Recorder

class After(GhostTag):
    """typestate: is byte g of tag I changed without the reaction having been called for it"""
    reaction = None; byte = True; system = True
    def __init__(self, srv, root, cmd=None):
        super().__init__(srv, root); self.cmd = cmd; self.rec = Recorder(); self.stores = 0; self.reacts = 0
    def idx_range(self): return (0 if self.system else self.c['I_OVRD_SET'] + 1, (1 << 31) - 2)
    def setup(self, eng, st):
        st.ts = None
        if self.cmd is not None:
            p = st.vals[eng.fn.params[0][0]]
            st.mem[(p.plus(self.c['m_fd']), self.c['mw_fd'])] = (eng.mk('msgfd', lo=0, hi=(1 << 31) - 1), None)
            st.mem[(p.plus(self.c['m_size']), self.c['mw_size'])] = (eng.mk('msgsize', lo=0, hi=self.c['msgdata']), None)
    def round(self, eng, blocks): self.rec.drop(blocks)
    def relevant(self, eng, st): return True
    def exempt(self, eng, st, idx): return False
    def data_store(self, eng, st, inst, idx, off, n, val):
        self.stores += 1
        n = const(n) if isinstance(n, int) else n
        if st.ts is not None or self.exempt(eng, st, idx): return None
        eqs, out = self.split(eng, st, idx)
        for s in eqs:
            if not self.relevant(eng, s): out.append(s); continue
            if self.byte:
                a = s.copy()
                if eng.assume(a, off.sub(G)) and eng.assume(a, G.plus(1).sub(off).sub(n)):
                    a.ts = where(self.m, inst); self.lookahead(eng, a); out.append(a)
                b = s.copy()
                if eng.assume(b, G.plus(1).sub(off)): out.append(b)
                if eng.assume(s, off.add(n).sub(G)): out.append(s)
            else:
                if eng.assume(s, const(1).sub(n)): s.ts = where(self.m, inst)
                out.append(s)
        for s in out: self.finish(eng, s, inst, val)
        return out
    def lookahead(self, eng, st):
        """relations between g and the ranges of reactions further on, made explicit so that they survive the loop"""
        rs = self.__dict__.get('_rs')
        if rs is None:
            rs = self._rs = [i for i in eng.fn.insts() if i.op == 'call' and eng.callee(i) == self.reaction]
        for i in rs:
            ops = self.react_args(self.reaction, i.args)[1:]
            if not all(o[0] == 'i' or (o[0] == 'r' and o[1] in st.vals) for o in ops): continue
            o, n = [eng.val(st, x) for x in ops]
            for e in (o.sub(G), G.plus(1).sub(o).sub(n)):
                if e.t and eng.entails(st, e): st.cons = st.cons | {e}
    def finish(self, eng, st, inst, val):
        if inst.op == 'store':
            addr = eng.val(st, inst.args[1]); self.finish_store(eng, st, inst, addr, eng.width(inst.ty), val)
        else:
            self.finish_store(eng, st, inst, eng.val(st, inst.args[0]), None, None)
            if inst.dst: st.vals[inst.dst] = eng.val(st, inst.args[0])
    def react_args(self, name, args): return args[0], args[1], args[2]
    def call(self, eng, st, i, name, args):
        if name == self.reaction:
            self.reacts += 1
            idx, off, n = self.react_args(name, args)
            out = []
            if st.ts is None: out = [st]
            else:
                eqs, out = self.split(eng, st, idx)
                for s in eqs:
                    if not self.byte: s.ts = None; out.append(s); continue
                    a = s.copy()
                    if eng.assume(a, off.sub(G)) and eng.assume(a, G.plus(1).sub(off).sub(n)): a.ts = None; out.append(a)
                    b = s.copy()
                    if eng.assume(b, G.plus(1).sub(off)): out.append(b)
                    if eng.assume(s, off.add(n).sub(G)): out.append(s)
            for s in out: eng.default_call(s, i, name, args)
            return out
        if name == '_message_send' and self.before_reply: self.judge(eng, st, i)
        return super().call(eng, st, i, name, args)
    before_reply = False
    what = ''
    def judge(self, eng, st, inst):
        self.rec.put(inst, self.what, st.ts is None, where(self.m, inst), '%s: changed at %s' % (self.what, st.ts))
    def ret(self, eng, st, inst, val): self.judge(eng, st, inst)
