"""Walks of the event and mapping lists: every node that concerns the changed bytes is served.

typestate: (allocation failed, {(pointer of a node reached through the list, served?)})."""
from server import SrvClient, where, ALLOC
from bounds import Recorder
from lin import Lin, ZERO, const, atom
import absint

LIM = 1 << 29      # tags are smaller than 512 MiB (assumption of the walk checks)

class Walk(SrvClient):
    head = None      # field of the database entry that heads the list
    next = None      # offset of the link
    what = ''
    positive = ()    # offsets of fields with values >= 1; natural: >= 0
    natural = ()
    def __init__(self, srv, root):
        super().__init__(srv, root); self.rec = Recorder(); self.nodes = 0; self.served = 0; self.judged = 0
    def init(self, eng, st):
        st.ts = (False, frozenset())
        p = [atom('p:' + n) for n, _ in eng.fn.params]
        self.idx, self.off, self.n = p[0], p[1], p[2]
        for x, lo in ((self.idx, 0), (self.off, 0), (self.n, 1)):
            eng.assume(st, const(lo).sub(x)); eng.assume(st, x.sub(const(LIM)))
        self.loopof = {}
        for h, bs in eng.loopblocks.items():
            for b in bs:
                if b not in self.loopof or len(bs) < len(eng.loopblocks[self.loopof[b]]): self.loopof[b] = h
    def round(self, eng, blocks): self.rec.drop(blocks)
    def load(self, eng, st, inst, addr, width, val):
        if val is None: return None
        oom, N = st.ts
        b, off = eng.base(addr)
        r = self.db_field(eng, addr, st)
        if r is not None and r[1] == self.c['off_' + self.head] and eng.eq(st, r[0], self.idx):
            st.ts = (oom, N | {(val, False)}); self.nodes += 1
        elif width == 8 and off.isconst() and off.c == self.next and any(eng.eq(st, P, atom(b)) for P, _ in N if b is not None):
            st.ts = (oom, N | {(val, False)}); self.nodes += 1
        elif width == 8 and b is not None and off.isconst() and off.c == 0 and self.linkphi(eng, st, b):
            st.ts = (oom, N | {(val, False)}); self.nodes += 1
        if b is not None and off.isconst():
            if off.c in self.positive and any(P == atom(b) for P, _ in N):
                eng.assume(st, const(1).sub(val)); eng.assume(st, val.sub(const(LIM)))
            if off.c in self.natural and any(P == atom(b) for P, _ in N):
                eng.assume(st, val.scale(-1)); eng.assume(st, val.sub(const(LIM)))
        return None
    def linkphi(self, eng, st, b):
        """is b a phi over addresses of links (head field or next field)?"""
        d = eng.defs.get(b[2:]) if b.startswith('v:') else None
        if d is None or d.op != 'phi' or d.ty.k != 'ptr': return False
        ok = True
        for v in d.args:
            x = eng.defs.get(v[1]) if v[0] == 'r' else None
            if x is None or x.op != 'getelementptr': return False
            s = st.copy()
            a = eng.gep(s, x.extra, x.args); bb, off = eng.base(a)
            if off.isconst() and off.c == self.next: continue
            r = self.db_field(eng, a, s)
            if r is None or r[1] != self.c['off_' + self.head] or not eng.eq(s, r[0], self.idx): return False
        return True
    def edge(self, eng, st, blk, succ):
        if succ not in eng.loopblocks: return
        inside = eng.loopblocks[succ]
        oom, N = st.ts
        if not N: return
        phis = [(i, eng._phival(st, i, blk)) for i in succ.insts if i.op == 'phi']
        local = set(i.dst for b in inside for i in b.insts if i.dst)
        out = set()
        for P, s in N:
            to = [i for i, v in phis if v == P]
            if to and blk in inside and self.passed(eng, P, N, phis): self.judge(eng, st, P, s, oom, blk.insts[-1])
            elif to: out.add((atom('v:' + to[0].dst), s))
            elif blk in inside and eng.deps(P) & local and not (self.loopof_atom(eng, P) not in (None, succ)):
                self.judge(eng, st, P, s, oom, blk.insts[-1])
            elif blk in inside and eng.deps(P) & local: pass
            else: out.add((P, s))
        st.ts = (oom, frozenset(out))
    def passed(self, eng, P, N, phis):
        """has the walk gone on to the node behind P?"""
        link = P.plus(self.next)
        if any(v == link for _, v in phis): return True
        for Q, _ in N:
            o = eng.origin(Q.t[0][0]) if len(Q.t) == 1 and Q.c == 0 else None
            if o and isinstance(o[0], Lin) and o[0] == link and any(v == Q for _, v in phis): return True
        return False
    def loopof_atom(self, eng, P):
        for a, _ in P.t:
            for d in eng.ainfo[a]['deps']:
                i = eng.defs.get(d)
                if i is not None: return self.loopof.get(i.block)
        return None
    def judge(self, eng, st, P, served, oom, inst):
        good = oom or served or eng.eq(st, P, ZERO)
        if not good:
            a = st.copy()
            good = not (eng.assume_ne(a, P, ZERO) and self.concerns(eng, a, P))
        self.judged += 1
        self.rec.put(inst, self.what, good, where(self.m, inst), '%s: an iteration ends without it' % self.what)
    def ret(self, eng, st, inst, val):
        oom, N = st.ts
        done = oom or any(eng.eq(st, P, ZERO) for P, _ in N)
        self.rec.put(inst, 'the whole list is walked', done, where(self.m, inst), 'the walk may end before the last entry')
    def serve(self, eng, st, P0):
        oom, N = st.ts
        self.served += 1
        st.ts = (oom, frozenset((P, s or eng.eq(st, P, P0)) for P, s in N))
    def call(self, eng, st, i, name, args):
        if name in ALLOC and i.dst:
            r = super().call(eng, st, i, name, args)
            for s in r:
                if s.vals.get(i.dst) == ZERO: s.ts = (True, s.ts[1])
            return r
        return super().call(eng, st, i, name, args)
    def cell(self, eng, st, P, off, w=4):
        c = st.mem.get((P.plus(off), w))
        return c[0] if c else None
    def overlap(self, eng, a, byte, size):
        """can [byte, byte+size) meet the changed range in state a?"""
        if byte is None or size is None: return True
        return eng.assume(a, byte.scale(-1)) and eng.assume(a, const(1).sub(size)) and \
            eng.assume(a, byte.plus(1).sub(self.off).sub(self.n)) and eng.assume(a, self.off.plus(1).sub(byte).sub(size))
