"""P02: the master notices the exit of every process and signals only processes of its own that run."""
import chk, absint, irbuild
from prog import Program, ProgClient
from server import where
from bounds import Recorder
from lin import Lin, ZERO, const, atom

KILL = {'kill': 0, 'killpg': 0, 'tgkill': 0, 'sigqueue': 0}
DONE = frozenset(('pid', 'state', 'exit_status'))
NOTHING = ('', None, frozenset(), None)

class Reap(ProgClient):
    """typestate: (whole group signalled?, (pid that waitpid gave, address of its status) or None,
                   {(node reached through the list, fields set)}, result of fork in the parent)"""
    def __init__(self, prog, root):
        super().__init__(prog, root); self.rec = Recorder(); self.waits = self.kills = self.nodes = self.stores = 0
    def init(self, eng, st):
        st.ts = NOTHING
        self.loopof = {}
        for h, bs in eng.loopblocks.items():
            for b in bs:
                if b not in self.loopof or len(bs) < len(eng.loopblocks[self.loopof[b]]): self.loopof[b] = h
    def loopkey(self, eng, st): return st.ts[1] is not None
    def round(self, eng, blocks): self.rec.drop(blocks)
    def cell(self, st, P, f):
        c = st.mem.get((P.plus(self.c[f]), 4))
        return c[0] if c else None
    def load(self, eng, st, inst, addr, width, val):
        if val is None or width != 8: return None
        g, pend, N, fk = st.ts
        if pend is None: return None
        b, off = eng.base(addr)
        if not off.isconst(): return None
        if (b is not None and b[0] == '@' and b[1:] in self.p.heads and off.c == 0) or (off.c == self.c['next'] and b is not None and any(eng.eq(st, P, atom(b)) for P, _ in N)) or \
                (b is not None and off.c == 0 and self.linkphi(eng, st, b)):
            self.nodes += 1
            st.ts = (g, pend, N | {(val, frozenset())}, fk)
        return None
    def linkphi(self, eng, st, b):
        """is b a phi over addresses of links (the head or a next field)?"""
        d = eng.defs.get(b[2:]) if b.startswith('v:') else None
        if d is None or d.op != 'phi' or d.ty.k != 'ptr': return False
        for v in d.args:
            if v[0] == 'g' and v[1] in self.p.heads: continue
            x = eng.defs.get(v[1]) if v[0] == 'r' else None
            if x is None or x.op != 'getelementptr': return False
            off = eng.base(eng.gep(st.copy(), x.extra, x.args))[1]
            if not (off.isconst() and off.c == self.c['next']): return False
        return True
    def field(self, eng, addr, width):
        b, off = eng.base(addr)
        if b is None or not off.isconst(): return None, None
        for f in ('pid', 'state', 'exit_status'):
            if off.c == self.c[f] and width == 4: return atom(b), f
        return None, None
    def isproc(self, eng, inst, P):
        """does the address of this store come from a process record?"""
        ty = inst_struct(eng, inst)
        return ty is None or 'dax_process' in ty
    def store(self, eng, st, inst, addr, width, val):
        if val is None: return None
        P, f = self.field(eng, addr, width)
        if P is None or not self.isproc(eng, inst, P): return None
        g, pend, N, fk = st.ts
        w = where(self.m, inst)
        if pend is not None:
            out = set()
            for Q, s in N:
                if eng.eq(st, Q, P):
                    have = self.cell(st, P, 'pid')
                    if f == 'pid' and eng.eq(st, val, ZERO) and have is not None and eng.eq(st, have, pend[0]): s = s | {f}
                    if f == 'state' and eng.eq(st, val, const(self.c['DEAD'])): s = s | {f}
                    if f == 'exit_status' and self.isstatus(eng, st, val, pend): s = s | {f}
                out.add((Q, s))
            done = any(x >= DONE for _, x in out)
            st.ts = (g, None if done else pend, frozenset() if done else frozenset(out), fk)
        if f == 'pid':
            self.stores += 1
            if fk is not None and eng.eq(st, val, fk): st.ts = st.ts[:3] + (None,); return None
            fresh = eng._fresh(P.t[0][0]) if hasattr(eng, '_fresh') else False
            have = self.cell(st, P, 'pid')
            gone = pend is not None and have is not None and eng.eq(st, have, pend[0])
            self.rec.put(inst, 'a process is forgotten only when it has exited', eng.eq(st, val, ZERO) and (fresh or gone), w,
                         'the process id in the list is overwritten although the process may still run')
        elif f == 'state' and eng.feasible_eq(st, val, self.c['DEAD']) if hasattr(eng, 'feasible_eq') else f == 'state' and val == const(self.c['DEAD']):
            have = self.cell(st, P, 'pid')
            gone = have is not None and (eng.eq(st, have, ZERO) or (pend is not None and eng.eq(st, have, pend[0])))
            self.rec.put(inst, 'only a process that has exited is taken for dead', gone, w, 'a process is taken for dead although it may still run')
        return None
    def isstatus(self, eng, st, v, pend):
        c = st.mem.get((pend[1], 4))
        if c is not None and eng.eq(st, c[0], v): return True
        return len(v.t) == 1 and (eng.origin(v.t[0][0]) or (None,))[0] == pend[1]
    def edge(self, eng, st, blk, succ):
        if succ not in eng.loopblocks: return
        inside = eng.loopblocks[succ]
        g, pend, N, fk = st.ts
        if not N: return
        if any(eng.eq(st, P, ZERO) for P, _ in N): st.ts = (g, None, frozenset(), fk); return     # the whole list was searched
        phis = [(i, eng._phival(st, i, blk)) for i in succ.insts if i.op == 'phi']
        local = set(i.dst for b in inside for i in b.insts if i.dst)
        out = set()
        for P, s in N:
            to = [i for i, v in phis if v == P]
            if to: out.add((atom('v:' + to[0].dst), s))
            elif blk in inside and eng.deps(P) & local: self.judge(eng, st, P, s, blk.insts[-1])
            else: out.add((P, s))
        st.ts = (g, pend, frozenset(out), fk)
    def judge(self, eng, st, P, s, inst):
        if s >= DONE or eng.eq(st, P, ZERO): good = True
        else:
            c = self.cell(st, P, 'pid')
            good = False
            if c is not None:
                a = st.copy()
                good = not (eng.assume_ne(a, P, ZERO) and eng.assume_eq(a, c, st.ts[1][0]))
        self.rec.put(inst, 'no entry is passed over', good, where(self.m, inst), 'the search for the process that has exited passes over an entry that may be it')
    def resolve(self, eng, st, inst, what):
        g, pend, N, fk = st.ts
        if pend is not None:
            ok = any(s >= DONE for _, s in N) or any(eng.eq(st, P, ZERO) for P, _ in N)
            part = sorted(DONE - max((s for _, s in N), key=len, default=frozenset()))
            self.rec.put(inst, 'exit is recorded %s' % what, ok, where(self.m, inst),
                         'the exit of a process that waitpid() reported may be lost: not recorded in the list (%s)' % ', '.join(part))
        if fk is not None:
            self.rec.put(inst, 'started process is recorded %s' % what, False, where(self.m, inst), 'the id of a process that was started is not kept in the list')
        st.ts = (g, None, frozenset(), None)
    def call(self, eng, st, i, name, args):
        w = where(self.m, i)
        if name in ('waitpid', 'wait', 'wait3', 'wait4'):
            self.resolve(eng, st, i, 'before the next')
            self.waits += 1
            nohang = len(args) > 2 and args[2].isconst() and args[2].c & self.c['WNOHANG']
            self.rec.put(i, 'does not block', bool(nohang), w, 'the master waits here until some process ends')
            sa = args[1] if len(args) > 1 else args[0]
            eng.default_call(st, i, name, args)
            v = st.vals[i.dst] if i.dst else None
            if v is None:
                self.rec.put(i, 'result is looked at', False, w, 'the process that has exited is ignored'); return [st]
            a, b = st, st.copy()
            out = []
            if eng.assume(a, v): out.append(a)
            if eng.assume(b, const(1).sub(v)):
                b.ts = (b.ts[0], (v, sa), frozenset(), None); out.append(b)
            return out
        if name in ('fork', 'vfork'):
            v = eng.fresh_result(st, i); out = []
            s = st.copy()
            if eng.assume(s, v): out.append(s)
            s = st.copy()
            if eng.assume(s, const(1).sub(v)): s.ts = s.ts[:3] + (v,); out.append(s)
            return out
        if name in KILL:
            self.kills += 1
            t = args[0]
            if t == ZERO: st.ts = ('kill(0)',) + st.ts[1:]
            else:
                ok = eng.entails(st, const(1).sub(t))
                self.rec.put(i, 'signals one process', ok, w, 'the id given to %s() may be zero or negative: every process of the group gets the signal' % name)
                if True:
                    own = False
                    for a, k in t.t:
                        o = eng.origin(a)
                        if o and isinstance(o[0], Lin) and eng.base(o[0])[1] == const(self.c['pid']): own = True
                    own = own or any(x[0] != 'pure' and x[0].t and eng.base(x[0])[1] == const(self.c['pid']) and eng.eq(st, y[0], t) for x, y in st.mem.items())
                    self.rec.put(i, 'signals a process of its own', own, w, 'the id given to %s() is not that of a process in the list' % name)
        if name in self.p.starters and self.scan and args and args[0].t:
            a, b = self.cell(st, args[0], 'state'), self.cell(st, args[0], 'pid')
            ok = (a is not None and eng.eq(st, a, const(self.c['DEAD']))) or (b is not None and eng.eq(st, b, ZERO))
            self.rec.put(i, 'only a dead process is started again', ok, w, 'a process is started again although it may still run')
        if name in ('exit', '_exit', 'abort', '__assert_fail', '_Exit', 'execv', 'execvp', 'execve'):
            return [] if 'exec' not in name else None
        return super().call(eng, st, i, name, args)
    def ret(self, eng, st, inst, val):
        self.resolve(eng, st, inst, 'at the end')
        if st.ts[0]: self.rec.put(inst, 'ends after signalling everything', False, where(self.m, inst), 'every process of the group is signalled but the master goes on')

def inst_struct(eng, inst):
    a = inst.args[1] if inst.op == 'store' else None
    d = eng.defs.get(a[1]) if a and a[0] == 'r' else None
    return str(d.extra) if d is not None and d.op == 'getelementptr' else None

def run(ctx):
    ctx.rule = ('typestate over all paths: a pid that waitpid() returned is looked up in the whole process list and its entry is marked dead before the next one; '
                'a pid leaves the list only then; the pid of a forked process is stored; kill() gets only ids >= 1 of processes in the list')
    b = irbuild.Builder()
    t = 'master'
    ex = {k: 'offsetof(dax_process,%s)' % k for k in ('pid', 'state', 'exit_status', 'next')}
    ex['DEAD'] = 'PSTATE_DEAD'; ex['WNOHANG'] = 'WNOHANG'
    P = Program(t, keep=entries(b.raw(t)), b=b, consts=ex, includes=['process.h', 'sys/wait.h'])
    P.heads = heads(P); P.starters = entries(b.raw(t), {'fork', 'vfork'})
    for f in P.roots():
        cs = {c for c, _ in irbuild.callees(f)}
        if not any(self_store(P, i) for i in f.insts()) and not cs & (set(KILL) | {'waitpid', 'wait', 'wait3', 'wait4', 'fork'}): continue
        cl = Reap(P, f.name); cl.scan = bool(cs & {'waitpid', 'wait', 'wait3', 'wait4'})
        absint.Engine(P.m, f, cl, P.mr, K=8).run()
        cl.rec.flush(ctx, '%s:%s' % (t, f.name))
        ctx.count('functions'); ctx.count('waits', cl.waits); ctx.count('signals sent', cl.kills)
        ctx.count('list entries reached', cl.nodes); ctx.count('stores to process ids', cl.stores)
        ctx.sample('%s: %s' % (t, f.name))
    ctx.require('waits', 1); ctx.require('signals sent', 1)

def entries(raw, hit=None):
    """functions with external linkage that reach a call of interest: analysed on their own"""
    g = {n: {c for c, _ in irbuild.callees(f)} for n, f in raw.funcs.items() if not f.decl}
    hit = set(hit) if hit else set(KILL) | {'waitpid', 'wait', 'wait3', 'wait4', 'fork'}
    while True:
        new = {n for n, c in g.items() if c & hit} - hit
        if not new: break
        hit |= new
    return {n for n in hit if n in g and not raw.funcs[n].internal}

def self_store(P, i):
    if i.op != 'store' or i.args[1][0] != 'r': return False
    d = i.fn.defmap().get(i.args[1][1])
    return d is not None and d.op == 'getelementptr' and 'dax_process' in str(d.extra)

def heads(P):
    """pointer variables from which the list of processes can be reached"""
    return {n for n, g in P.m.globals.items() if g.ty.k == 'ptr' and not g.const}
