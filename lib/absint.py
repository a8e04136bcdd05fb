"""Forward dataflow over one (inlined) LLVM function.

Abstract domain: a bounded set of disjuncts; every disjunct is
  - a client typestate (any hashable),
  - a conjunction of linear inequalities over value atoms,
  - linear values of SSA names,
  - known memory cells (address expression, width) -> linear value.
Machine arithmetic is honoured: a sum is only linear when it provably does not
wrap.  Loops are solved with a shrinking (Houdini style) invariant over a
weak topological order.  Nothing is executed and no solver is called.
"""
from lin import Lin, ZERO, const, atom, norm, infeasible
from ir import int_ty

BIGP = 1 << 47
# external functions that write a fixed number of bytes through an argument and nothing else
WRITES_EXT = {'gettimeofday': {0: 16, 1: 8}, 'clock_gettime': {1: 16}, 'time': {0: 8}, 'waitpid': {1: 4}, 'nanosleep': {1: 16},
              'sigaction': {2: 152}, 'fstat': {1: 144}, 'stat': {1: 144}, 'pipe': {0: 8}}
PURE_EXT = {'strlen', 'strcmp', 'strncmp', 'strcasecmp', 'memcmp', 'abs', 'isalpha', 'isdigit', 'isalnum', 'toupper',
            'tolower', 'htonl', 'htons', 'ntohl', 'ntohs', '__errno_location', '__ctype_b_loc', 'strerror', 'atoi', 'fabs'}
NOWRITE_EXT = PURE_EXT | {'write', 'send', 'printf', 'fprintf', 'puts', 'putchar', 'fputs', 'fputc', 'close', 'perror',
            'strdup', 'strndup', 'strchr', 'strrchr', 'strstr', 'exit', 'abort', 'pthread_mutex_lock', 'pthread_mutex_unlock',
            'pthread_mutex_trylock', 'usleep', 'sleep', 'strtol', 'strtoul', 'kill', 'time', 'getpid', 'pthread_self', 'dax_log',
            'unlink', 'fflush', 'fwrite', 'syslog', 'malloc', 'calloc', 'sqlite3_bind_blob', 'sqlite3_bind_int', 'sqlite3_bind_text',
            'sqlite3_step', 'sqlite3_finalize', 'sqlite3_reset', 'sqlite3_errmsg', 'access', 'setuid', 'setgid', 'dlsym'}

class State:
    __slots__ = ('ts', 'cons', 'vals', 'mem', 'neq', 'path')
    def __init__(self, ts=None):
        self.ts = ts; self.cons = frozenset(); self.vals = {}; self.mem = {}; self.neq = frozenset(); self.path = ()
    def copy(self):
        s = State(self.ts); s.cons = self.cons; s.vals = dict(self.vals); s.mem = dict(self.mem); s.neq = self.neq; s.path = self.path
        return s

class Client:
    """override what is needed"""
    splits = False                                           # store() only splits the state; the engine does the store
    limits = ()                                              # constants that may bound a counter from above
    def init(self, eng, st): pass
    def call(self, eng, st, inst, name, args): return None     # None = default handling; else list of states
    def load(self, eng, st, inst, addr, width, val): pass
    def store(self, eng, st, inst, addr, width, val): pass
    def ret(self, eng, st, inst, val): pass
    def pure(self, name): return False                       # internal functions treated as pure
    def result_range(self, name): return None
    def edge(self, eng, st, blk, succ): pass
    ghosts = ()                                             # memory cells that loop invariants are sought for, as for loop variables
    def stable(self, eng, key): return False                 # memory cell that calls and symbolic stores leave alone
    def joinkey(self, eng, st): return None                  # states with different keys are merged last
    def loopkey(self, eng, st): return None                  # loop invariants are kept apart for these
    def round(self, eng, blocks): pass                       # a loop body is about to be (re)analysed

class Blowup(Exception): pass

class GhostPhi:
    """a memory cell (Client.ghosts) that is handled like a phi at a loop header"""
    op = 'ghost'
    def __init__(self, h, n, key): self.dst = '@gh%d!%s' % (n, h.name); self.key = key; self.ty = int_ty(64)

class Engine:
    def __init__(self, mod, fn, client, modref=None, K=4):
        self.m = mod; self.fn = fn; self.cl = client; self.K = K
        self.defs = {i.dst: i for i in fn.insts() if i.dst}
        self.ainfo = {}       # atom -> dict(lo,hi,kind,deps,origin)
        self.modref = modref
        self.steps = 0; self.maxsteps = 400000
        self._loops()
        self._entcache = {}
        self.evusers = {}
        self.visited = set()

    # ------------------------------------------------------------ atoms
    def mk(self, name, ty=None, kind=None, lo=None, hi=None, deps=(), origin=None):
        a = self.ainfo.get(name)
        if a is None:
            if ty is not None:
                if ty.k == 'int':
                    if ty.n == 1: l, h = 0, 1
                    else: l, h = -(1 << (ty.n - 1)), (1 << (ty.n - 1)) - 1
                    lo = l if lo is None else lo; hi = h if hi is None else hi
                elif ty.k == 'ptr':
                    lo = 0 if lo is None else lo; hi = BIGP if hi is None else hi; kind = kind or 'ptr'
            self.ainfo[name] = {'lo': lo, 'hi': hi, 'kind': kind or 'int', 'deps': frozenset(deps), 'origin': origin}
        elif origin is not None: a['origin'] = origin
        return atom(name)
    def rng(self, a):
        i = self.ainfo.get(a)
        return (i['lo'], i['hi']) if i else (None, None)
    def deps(self, lin):
        d = set()
        for a, _ in lin.t:
            i = self.ainfo.get(a)
            if i: d |= i['deps']
        return d
    def origin(self, a):
        i = self.ainfo.get(a); return i['origin'] if i else None

    # ------------------------------------------------------------ entailment
    def entails(self, st, e):
        """cons |= e <= 0 ?"""
        e = norm(e)
        if not e.t: return e.c <= 0
        lo, hi = self.ibounds(e)
        if hi is not None and hi <= 0: return True
        for c in st.cons:
            if c.t == e.t and c.c >= e.c: return True
        key = (st.cons, e)
        r = self._entcache.get(key)
        if r is None:
            ne = Lin(-e.c + 1, tuple((a, -k) for a, k in e.t))   # e >= 1
            r = infeasible(list(st.cons) + [ne], self.rng, [a for a, _ in e.t])
            if not r and st.neq:
                # tighten with disequalities: e>=1 part touching x!=k
                r = self._neq_infeasible(st, ne)
            self._entcache[key] = r
        return r
    def _neq_infeasible(self, st, extra):
        at = set(a for a, _ in extra.t)
        for q in st.neq:
            if any(a in at for a, _ in q.t):
                base = list(st.cons) + [extra]
                # q != 0  => q<=-1 or q>=1 ; both infeasible => infeasible
                if infeasible(base + [q.plus(1)], self.rng, at) and infeasible(base + [q.scale(-1).plus(1)], self.rng, at):
                    return True
        return False
    def ibounds(self, e):
        lo = hi = e.c
        for a, k in e.t:
            l, h = self.rng(a)
            if k < 0: l, h = h, l
            if lo is not None: lo = None if l is None else lo + k * l
            if hi is not None: hi = None if h is None else hi + k * h
        return lo, hi
    def bounds(self, st, e):
        """integer bounds of e using unary/explicit constraints (cheap, then binary search free)"""
        u = {a: self.rng(a) for a, _ in e.t}
        for c in st.cons:
            if len(c.t) == 1 and c.t[0][0] in u:
                a, k = c.t[0]; l, h = u[a]             # k*a + c <= 0
                if k > 0: x = (-c.c) // k; h = x if h is None or x < h else h
                else: x = -((-c.c) // -k); l = x if l is None or x > l else l
                u[a] = (l, h)
        lo = hi = e.c
        for a, k in e.t:
            l, h = u[a]
            if k < 0: l, h = h, l
            if lo is not None: lo = None if l is None else lo + k * l
            if hi is not None: hi = None if h is None else hi + k * h
        for c in st.cons:
            if c.t == e.t:
                h = e.c - c.c                     # t <= -c.c
                if hi is None or h < hi: hi = h
            elif len(c.t) == len(e.t) and all(a == b and k == -j for (a, k), (b, j) in zip(c.t, e.t)):
                l = e.c + c.c
                if lo is None or l > lo: lo = l
        return lo, hi
    def eq(self, st, a, b):
        if a == b: return True
        d = a.sub(b)
        return self.entails(st, d) and self.entails(st, d.scale(-1))
    def assume(self, st, e):
        """add e <= 0; returns False when the state becomes infeasible"""
        e = norm(e)
        if not e.t: return e.c <= 0
        lo, hi = self.ibounds(e)
        if hi is not None and hi <= 0: return True
        if lo is not None and lo > 0: return False
        # infeasible?
        for c in st.cons:
            if c.t == e.t and c.c >= e.c: return True
        if infeasible(list(st.cons) + [e], self.rng, [a for a, _ in e.t]): return False
        if st.neq and self._neq_infeasible(st, e): return False
        # drop weaker ones of same shape
        st.cons = frozenset([c for c in st.cons if not (c.t == e.t)] + [e])
        return True
    def assume_eq(self, st, a, b):
        d = a.sub(b)
        return self.assume(st, d) and self.assume(st, d.scale(-1)) and self._neq_ok(st, d)
    def _neq_ok(self, st, d):
        for q in st.neq:
            if self.entails(st, q) and self.entails(st, q.scale(-1)): return False
        return True
    def assume_ne(self, st, a, b):
        d = a.sub(b)
        if d.isconst(): return d.c != 0
        if self.entails(st, d):             # a<=b  -> a<b
            return self.assume(st, d.plus(1))
        if self.entails(st, d.scale(-1)):
            return self.assume(st, d.scale(-1).plus(1))
        if len(st.neq) < 24: st.neq = st.neq | {d}
        return True

    # ------------------------------------------------------------ values
    def val(self, st, o):
        k = o[0]
        if k == 'r':
            v = st.vals.get(o[1])
            if v is None:
                v = self.mk('v:' + o[1], o[2], deps=[o[1]])
                st.vals[o[1]] = v
            return v
        if k == 'i': return const(o[1])
        if k == 'n' : return ZERO
        if k == 'z': return ZERO
        if k == 'g': return self.mk('@' + o[1], kind='obj', lo=4096, hi=BIGP)
        if k == 'ce':
            if o[1] == 'getelementptr':
                return self.gep(st, o[4], o[3])
            if o[1] in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast'): return self.val(st, o[3][0])
        if k == 'f': return self.mk('f:' + o[1])
        return self.mk('u:%s' % (repr(o)[:80],), None)
    def gep(self, st, ty, ops):
        v = self.val(st, ops[0])
        m = self.m
        i0 = self.val(st, ops[1]); v = v.add(i0.scale(m.size(ty)))
        t = ty
        for o in ops[2:]:
            if t.k == 'struct':
                i = o[1]; v = v.plus(m.field_off(t, i)); t = t.sub[i]
            else:
                x = self.val(st, o); v = v.add(x.scale(m.size(t.sub))); t = t.sub
        return v
    def base(self, addr):
        """(base atom, offset Lin) of an address"""
        b = None
        for a, k in addr.t:
            i = self.ainfo.get(a)
            if k == 1 and i and i['kind'] in ('ptr', 'obj'):
                if b is not None: return None, addr
                b = a
        if b is None: return None, addr
        return b, addr.sub(atom(b))
    def isobj(self, a):
        i = self.ainfo.get(a); return bool(i) and i['kind'] == 'obj'

    def inrange(self, st, e, ty):
        if ty.k != 'int': return True
        lo, hi = -(1 << (ty.n - 1)), (1 << (ty.n - 1)) - 1
        l, h = self.bounds(st, e)
        if l is not None and h is not None and l >= lo and h <= hi: return True
        if (l is None or l < lo) and not self.entails(st, const(lo).sub(e)): return False
        if (h is None or h > hi) and not self.entails(st, e.sub(const(hi))): return False
        return True
    def opaque(self, st, tag, ty, parts, lo=None, hi=None):
        nm = '%s(%s)' % (tag, ','.join(repr(p) for p in parts))
        d = set()
        for p in parts: d |= self.deps(p)
        if len(nm) > 200:
            import hashlib
            nm = tag + '#' + hashlib.md5(nm.encode()).hexdigest()
        v = self.mk(nm, ty, lo=lo, hi=hi, deps=d)
        if 'ev' not in self.ainfo[nm]:
            self.ainfo[nm]['ev'] = (tag, tuple(parts), ty)
            for p in parts:
                for a, _ in p.t: self.evusers.setdefault(a, set()).add(nm)
        return v
    def fold(self, s, v):
        """v became a constant: evaluate what was computed from it"""
        todo = [a for a, _ in v.t]; seen = set()
        while todo:
            a = todo.pop()
            for u in self.evusers.get(a, ()):
                if u in seen: continue
                tag, parts, ty = self.ainfo[u]['ev']
                cs = []
                for p in parts:
                    if p.isconst(): cs.append(p.c); continue
                    lo, hi = self.bounds(s, p)
                    if lo is None or lo != hi: break
                    cs.append(lo)
                else:
                    r = _evop(tag, cs, ty)
                    if r is not None:
                        seen.add(u)
                        if not self.assume_eq(s, atom(u), const(r)): return False
                        todo.append(u)
        return True

    # ------------------------------------------------------------ loops / wto
    def _loops(self):
        f = self.fn
        n = len(f.blocks); entry = f.blocks[0]
        # rpo
        seen = set(); order = []
        stack = [(entry, iter(entry.succs))]; seen.add(entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(s.succs))); break
            else:
                order.append(b); stack.pop()
        order.reverse()
        self.rpo = order; self.rnum = {b: i for i, b in enumerate(order)}
        self.reach = seen
        # recursive SCC decomposition -> WTO
        self.loopblocks = {}
        self.wto = self._wto(order)
    def _wto(self, blocks):
        bs = set(blocks)
        sccs = _scc(blocks, lambda b: [s for s in b.succs if s in bs])
        res = []
        for comp in sccs:
            if len(comp) == 1 and comp[0] not in comp[0].succs:
                res.append(comp[0])
            else:
                comp.sort(key=lambda b: self.rnum[b])
                cs = set(comp)
                heads = [b for b in comp if any(p not in cs for p in b.preds)] or [comp[0]]
                h = min(heads, key=lambda b: self.rnum[b])
                self.loopblocks[h] = cs
                rest = [b for b in comp if b is not h]
                res.append((h, self._wto(rest)))
        return res

    # ------------------------------------------------------------ run
    def run(self):
        st = State()
        for (nm, ty) in self.fn.params:
            st.vals[nm] = self.mk('p:' + nm, ty, deps=())
        self.cl.init(self, st)
        self.inedge = {}       # (pred,succ) -> [states]
        self.inedge[(None, self.fn.blocks[0])] = [st]
        for c in self.wto: self._comp(c)
    def _incoming(self, b, excl=None):
        out = []
        for (p, s), sts in self.inedge.items():
            if s is b and not (excl and p in excl):
                for x in sts: out.append((p, x))
        return out
    def _comp(self, c):
        if isinstance(c, tuple): self._loop(c)
        else:
            inc = self._incoming(c)
            sts = self._join(c, inc)
            self._block(c, sts)
    def _loop(self, c):
        h, body = c
        inside = self.loopblocks[h]
        ent = self._incoming(h, inside)
        if not ent:
            self._clear(inside); return
        # names defined in the loop
        local = set(i.dst for b in inside for i in b.insts if i.dst)
        local |= {'@gh%d!%s' % (n, b.name) for b in inside if b in self.loopblocks for n in range(len(self.cl.ghosts))}
        invs = {}
        phis = [i for i in h.insts if i.op == 'phi']
        gphis = [GhostPhi(h, n, k) for n, k in enumerate(self.cl.ghosts)]
        dec = self._ptrphis(h, phis, inside, ent)
        uns = self._unsphis(h, phis, inside, ent)
        pn = self.phiname
        def islocal(lin): return bool(self.deps(lin) & local)
        def proj(st):
            # drop everything about loop-local names except header phis (which were rebound)
            phin = set(p.dst for p in phis + gphis)
            st.cons = frozenset(e for e in st.cons if not ((self.deps(e) & local) - phin))
            st.neq = frozenset(e for e in st.neq if not ((self.deps(e) & local) - phin))
            st.vals = {k: v for k, v in st.vals.items() if k in phin or (k not in local and not islocal(v))}
            st.mem = {k: v for k, v in st.mem.items() if not self._keylocal(k, local, phin) and not ((self.deps(v[0]) & local) - phin)}
            return st
        def enter(st, pred):
            """bind header phis to fresh atoms; returns state over phi atoms"""
            ins = []; bases = {}
            for p in phis:
                v = self._phival(st, p, pred)
                if p.dst in dec:
                    bb, oo = self.base(v)
                    if bb is not None and bb != 'v:' + p.dst: bases[p.dst] = bb; v = oo
                    else: bases[p.dst] = None
                elif p.dst in uns:
                    u = self.ulift(st, v, p.ty.n)
                    if u is None:
                        st = st.copy(); u = self.zx(st, v, p.ty.n)
                    v = u
                ins.append((p, v))
            ins = [(p, v) for p, v in ins if bases.get(p.dst, 1) is not None]
            ins += [(p, st.mem[p.key][0]) for p in gphis if p.key in st.mem]
            gtag = {k: st.mem[k][1] for k in self.cl.ghosts if k in st.mem}
            st = st.copy()
            # stale phi atoms in st (old iteration): substitute when invertible
            old = {}
            newcons = list(st.cons); newneq = list(st.neq)
            pending = {}
            for p, v in ins:
                a = pn(p)
                pending[p.dst] = (a, v)
            # rename old occurrences phi -> phi'
            ren = {}
            for p, v in ins: ren[pn(p)] = 'old:' + p.dst
            def rn(e):
                return Lin(e.c, tuple(sorted((ren.get(a, a), k) for a, k in e.t))) if any(a in ren for a, _ in e.t) else e
            for a, o in ren.items():
                if a in self.ainfo and o not in self.ainfo:
                    self.ainfo[o] = dict(self.ainfo[a]); self.ainfo[o]['deps'] = frozenset(self.ainfo[a]['deps'] | {'!old'})
            cons = [rn(e) for e in newcons]
            neqs = [rn(e) for e in newneq]
            vals2 = {}
            eqs = []
            for p, v in ins:
                na = self.mk(pn(p), lo=-BIGP, hi=BIGP, deps=[p.dst]) if p.op == 'ghost' else self.mk(pn(p), p.ty, deps=[p.dst]) if p.dst not in dec and p.dst not in uns else self.mk(pn(p), lo=-BIGP if p.dst in dec else 0, hi=BIGP if p.dst in dec else (1 << p.ty.n) - 1, deps=[p.dst])
                eqs.append((na, rn(v)))
            # drop VN atoms depending on old phi (non linear)
            oldn = set(p.dst for p in phis + gphis) | {'jl!' + h.name}
            def bad(e):
                for a, _ in e.t:
                    if a.startswith('old:'): continue
                    if a in ren: continue
                    i = self.ainfo.get(a)
                    if i and (i['deps'] & oldn): return True
                return False
            cons = [e for e in cons if not bad(e)]
            neqs = [e for e in neqs if not bad(e)]
            # eliminate old atoms using eqs of form new = old + k...
            for na, v in eqs:
                for a, k in v.t:
                    if a.startswith('old:') and abs(k) == 1:
                        # old = (new - (v - k*old)) / k
                        expr = na.sub(v.sub(atom(a).scale(k))).scale(k)
                        cons = [e.subst(a, expr) for e in cons]; neqs = [e.subst(a, expr) for e in neqs]
                        eqs = [(x, y.subst(a, expr)) for x, y in eqs]
                        break
            cs = set()
            for na, v in eqs:
                if bad(v): continue
                d = na.sub(v)
                if d.t: cs.add(norm(d)); cs.add(norm(d.scale(-1)))
            for e in cons: cs.add(norm(e))
            phs = set(p.dst for p in phis + gphis)
            def isold(a):
                if a.startswith('old:'): return True
                i = self.ainfo.get(a)
                return bool(i and ((i['deps'] & local) - phs))
            def hasold(e): return any(isold(a) for a, _ in e.t)
            # old atoms that remain: project by FM one step (bounded) else drop
            rem = [e for e in cs if hasold(e)]
            keep = [e for e in cs if not hasold(e)]
            olds = set(a for e in rem for a, _ in e.t if isold(a))
            rs = set(rem)
            for o in olds:
                if not o.startswith('old:'):
                    lo, hi = self.rng(o)
                    if lo is not None: rs.add(Lin(lo, ((o, -1),)))
                    if hi is not None: rs.add(Lin(-hi, ((o, 1),)))
            rem = list(rs)
            for o in sorted(olds):
                pos = [e for e in rem if e.coef(o) > 0]; neg = [e for e in rem if e.coef(o) < 0]
                oth = [e for e in rem if e.coef(o) == 0]
                ps = set(pos)
                eqn = next((e for e in sorted(pos, key=lambda e: (len(e.t), repr(e))) if e.coef(o) == 1 and any(q.t == tuple((x, -k) for x, k in e.t) and q.c == -e.c for q in neg)), None)
                if eqn is not None:
                    ex = atom(o).sub(eqn)
                    rem = oth + [q for q in (norm(e.subst(o, ex)) for e in pos + neg) if q.t]
                    rem = list(set(rem)); continue
                if pos and neg:
                    if len(pos) * len(neg) > 60:      # the short ones
                        pos.sort(key=lambda e: (len(e.t), repr(e))); neg.sort(key=lambda e: (len(e.t), repr(e)))
                        w = max(2, 60 // max(2, min(len(pos), len(neg), 7))); pos, neg = pos[:max(2, 60 // min(len(neg), w))], neg[:w]
                    for p_ in pos:
                        for q_ in neg:
                            oth.append(norm(p_.scale(-q_.coef(o)).add(q_, p_.coef(o))))
                rem = oth
            keep += [e for e in rem if not hasold(e) and e.t]
            st.cons = frozenset(e for e in keep if e.t)
            st.neq = frozenset(e for e in neqs if not hasold(e) and e.t)
            st.vals = {k: v for k, v in st.vals.items() if not (self.deps(v) & oldn)}
            mm = {}
            for k, v in st.mem.items():
                if self._keylocal(k, oldn, ()): continue
                if self.isjl(v[0], h) or not (self.deps(v[0]) & (oldn | local)): mm[k] = v
                else:
                    kb = self._kbof(v[0])
                    if kb and k[0] != 'pure': mm[k] = (self._tojl(h, k, v[0], kb, phis), v[1])
                    elif not (self.deps(v[0]) & oldn): mm[k] = v
            st.mem = mm
            for p, v in ins:
                if p.op == 'ghost': st.mem[p.key] = (atom(pn(p)), gtag[p.key])
            for p, v in ins:
                if p.op != 'ghost': st.vals[p.dst] = self.wrapped(st, atom(pn(p)), p.ty) if p.dst in uns else atom(pn(p)) if p.dst not in dec else atom(bases[p.dst]).add(atom(pn(p)))
            for d in dec:
                if bases.get(d, 1) is None: st.vals[d] = self.mk('v:' + d, kind='ptr', lo=0, hi=BIGP, deps=[d])
            return proj(st)
        def key(e): return self.tskey(e) + tuple(self.base(e.vals[d])[0] for d in dec if d in e.vals)
        entst = {}
        for p, s in ent:
            e = enter(s, p)
            entst.setdefault(key(e), []).append(e)
        iphis = sorted([p for p in phis if (p.ty.k == 'int' and p.ty.n > 1) or p.dst in dec], key=lambda p: not self._steps(p))[:6]
        iphis = gphis + iphis
        # a counter that starts again at a constant: the constant is the scale of the counter of its turns
        wraps = {a[1] for x in inside for i in x.insts if i.op == 'icmp' for a in i.args if a[0] == 'i' and isinstance(a[1], int) and 2 <= a[1] <= 64} if len(iphis) - len(gphis) >= 3 else ()
        for k, l in entst.items():
            m = self._mergeall(l, h, True)
            invs[k] = self._templates(m, [(pn(p)) for p in iphis], wraps, self._limits(inside, iphis[len(gphis):]), {pn(p): q for p in iphis for d_, q in self._ratios(inside, iphis[len(gphis):]).items() if d_ == p.dst})
            entst[k] = [invs[k]]
        cand_done = set(); rounds = 0
        while True:
            rounds += 1
            if rounds > 40: raise Blowup('loop does not stabilise in %s' % self.fn.name)
            self._clear(inside)
            self.cl.round(self, inside)
            self._block(h, [s.copy() for s in invs.values()], header=True)
            for x in body: self._comp(x)
            back = {}
            for p, s in self._incoming(h):
                if p in inside:
                    e = enter(s, p); back.setdefault(key(e), []).append(e)
            changed = False
            for k, l in back.items():
                b = self._mergeall(l, h)
                if k not in invs:
                    nb = self._saturate(b, [pn(p) for p in phis]); add = set()
                    for p in iphis:
                        lo, _ = self.bounds(b, atom(pn(p)))
                        if lo is not None and lo >= 0: add |= {Lin(lo, ((pn(p), -1),)), Lin(0, ((pn(p), -1),))}
                    if add: nb = nb.copy() if nb is b else nb; nb.cons = nb.cons | frozenset(e for e in add if not self._trivial(e))
                    invs[k] = nb; changed = True; continue
                inv = invs[k]
                new = self._shrink(inv, b, h, phis)
                if new is not None: invs[k] = new; changed = True
                if k not in cand_done and k in entst:
                    cand_done.add(k)
                    e0 = self._mergeall(entst[k], h, True)
                    add = sorted((e for e in b.cons if e not in invs[k].cons and self.entails(e0, e) and not self.entails(invs[k], e)), key=self._plain)
                    if len(l) > 1:
                        # what only some of the ways around the loop establish
                        pa = {pn(p) for p in iphis}
                        some = {e for s in l for e in s.cons if len(e.t) == 1 and e.t[0][0] in pa}
                        add += sorted((e for e in some if e not in add and e not in invs[k].cons and self.entails(e0, e) and not self.entails(invs[k], e)), key=repr)
                    if add:
                        s2 = invs[k].copy()
                        s2.cons = s2.cons | frozenset(add[:40]); invs[k] = s2; changed = True
            if not changed: break
        self.loopinv = getattr(self, 'loopinv', {}); self.loopinv[h] = invs
    def phiname(self, p): return ('o:' if p.dst in self.ptrdec else 'u:' if p.dst in self.unsdec else 'v:') + p.dst
    def _steps(self, p):
        """is the phi counted (changed by additions only)?"""
        for v in p.args:
            n = 0
            while v[0] == 'r' and v[1] != p.dst and n < 4:
                d = self.defs.get(v[1])
                if d is None or d.op not in ('add', 'sub', 'getelementptr', 'zext', 'sext', 'trunc'): break
                v = d.args[0]; n += 1
            if v[0] == 'r' and v[1] == p.dst: return True
        return False
    unsdec = frozenset()
    def _unsphis(self, h, phis, inside, ent):
        """counters that are unsigned and may start beyond the largest signed number"""
        r = []
        for p in phis:
            if p.ty.k != 'int' or not 8 <= p.ty.n <= 32: continue
            c = self.__dict__.setdefault('_unsc', {})
            if p.dst not in c:
                c[p.dst] = self._unsuse(p) and any(self._maybeneg(s, self._phival(s, p, q), p.ty.n) for q, s in ent)
            if c[p.dst]: r.append(p.dst)
        self.unsdec = self.unsdec | frozenset(r)
        return r
    def _maybeneg(self, s, v, n):
        lo, _ = self.bounds(s, v)
        return not (lo is not None and lo >= 0) and not self.entails(s, v.scale(-1)) and (self._congof(v) is not None or (v.t and v.t[0][0][:2] in ('p:', 'L:')))
    def _unsuse(self, p):
        """every use takes the value as unsigned, and a loop counts it with constants"""
        seen = set(); todo = [p.dst]; step = False
        us = self.__dict__.get('_usersc')
        if us is None:
            us = self._usersc = {}
            for i in self.fn.insts():
                for a in i.args:
                    if isinstance(a, tuple) and a[0] == 'r': us.setdefault(a[1], []).append(i)
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.add(x)
            for i in us.get(x, ()):
                if i.op == 'phi' and i.dst == p.dst: continue
                if i.op == 'add' and i.args[1][0] == 'i': step = True; todo.append(i.dst)
                elif i.op == 'zext': pass
                elif i.op == 'icmp' and i.extra[0] in 'eun': pass
                else: return False
        return step
    ptrdec = frozenset()
    def _ptrphis(self, h, phis, inside, ent):
        """pointers that a loop moves through one object: only their offset changes"""
        r = []
        for p in phis:
            if p.ty.k != 'ptr': continue
            dep = []; ok = True
            for v, bn in zip(p.args, p.extra):
                if self.fn.bmap.get(bn) not in inside: continue
                n = 0
                while ok and not (v[0] == 'r' and v[1] == p.dst):
                    d = self.defs.get(v[1]) if v[0] == 'r' else None
                    if d is None or d.op != 'getelementptr' or d.block not in inside or n > 8: ok = False
                    else: v = d.args[0]; n += 1
                if n: dep.append(n)
            if ok and dep: r.append(p.dst)
        self.ptrdec = self.ptrdec | frozenset(r)
        return r
    def _ratios(self, inside, phis):
        """constants by which a loop moves its variables"""
        r = {}
        for p in phis:
            k = set()
            for v, bn in zip(p.args, p.extra):
                if self.fn.bmap.get(bn) not in inside: continue
                d = self.defs.get(v[1]) if v[0] == 'r' else None
                c = None
                if d is not None and d.op == 'add' and d.args[0][:2] == ('r', p.dst) and d.args[1][0] == 'i': c = d.args[1][1]
                elif d is not None and d.op == 'getelementptr' and d.args[0][:2] == ('r', p.dst):
                    try:
                        g = self.gep(State(), d.extra, [d.args[0]] + list(d.args[1:]))
                        b, off = self.base(g); c = off.c if off.isconst() else None
                    except Exception: c = None
                k.add(c)
            if len(k) == 1 and None not in k and 0 not in k: r[p.dst] = k.pop()
        return r
    def _limits(self, inside, phis):
        """constants that a loop compares a counter with or subtracts it from"""
        r = {}
        for p in phis:
            der = {p.dst}
            for _ in range(3):
                for x in inside:
                    for i in x.insts:
                        if i.op in ('add', 'sub', 'zext', 'sext', 'trunc') and i.dst not in der and any(a[0] == 'r' and a[1] in der for a in i.args): der.add(i.dst)
            cs = {a[1] for x in inside for i in x.insts if i.op in ('icmp', 'sub') and any(a[0] == 'r' and a[1] in der for a in i.args)
                  for a in i.args if a[0] == 'i' and isinstance(a[1], int) and a[1] > 1}
            for c in sorted(cs)[:4]: r.setdefault('v:' + p.dst, set()).update((c, c + 1))
            if p.ty.k == 'int': r.setdefault('v:' + p.dst, set()).update(self.cl.limits)
        return r
    def _templates(self, st, ph, scales=(), limits={}, steps={}):
        """candidate loop invariants that hold on entry"""
        add = set()
        ent = {}
        for a in ph:
            # entry value: an equality  a == e
            for e in st.cons:
                k = e.coef(a)
                if k == 1 and norm(e.scale(-1)) in st.cons and not any(b in ph and b != a for b, _ in e.t):
                    ent[a] = atom(a).sub(e); break
            if a not in ent:
                lo, hi = self.bounds(st, atom(a))
                if lo is not None and lo == hi: ent[a] = const(lo)
            if a in ent:
                v = ent[a]
                if len(v.t) == 1 and v.t[0][1] == 1:
                    x = v.t[0][0]
                    for e in st.cons:
                        if e.coef(x) and len(e.t) <= 2 and not e.coef(a): add.add(norm(e.subst(x, atom(a).plus(-v.c))))
                    lo, hi = self.rng(x)
                    if lo is not None: add.add(Lin(lo + v.c, ((a, -1),)))
                    if hi is not None: add.add(Lin(-hi - v.c, ((a, 1),)))
                lo, hi = self.bounds(st, v)
                if lo is not None: add.add(Lin(lo, ((a, -1),)))
                if lo is not None and lo > 0: add.add(Lin(0, ((a, -1),)))
                if hi is not None: add.add(Lin(-hi, ((a, 1),)))
        for a, cs in limits.items():
            for c in cs:
                if a in ent and self.entails(st, ent[a].plus(-c)): add.add(Lin(-c, ((a, 1),)))
        scales = {8} | set(scales)
        def eq(lhs, rhs):
            d = lhs.sub(rhs); add.add(norm(d)); add.add(norm(d.scale(-1)))
        P = [a for a in ph if a in ent]
        for a in P:
            d = atom(a).sub(ent[a]); add.add(norm(d)); add.add(norm(d.scale(-1)))
            for b in P:
                if b > a:
                    for k in (1, -1): eq(atom(a).add(atom(b), k), ent[a].add(ent[b], k))
                    for x, y in ((a, b), (b, a)):
                        q = steps[x] // steps[y] if x in steps and y in steps and steps[x] % steps[y] == 0 else 0
                        if abs(q) > 1: eq(atom(x).sub(atom(y).scale(q)), ent[x].sub(ent[y].scale(q)))
                for c in P if '@gh' not in a + b else ():
                    if len({a, b, c}) == 3 and '@gh' not in c: [eq(atom(a).scale(q).add(atom(b)).sub(atom(c)), ent[a].scale(q).add(ent[b]).sub(ent[c])) for q in scales]
        s = st.copy()
        s.cons = st.cons | frozenset(e for e in add if e.t and not self._trivial(e))
        return s
    def _trivial(self, e):
        lo, hi = self.ibounds(e)
        return hi is not None and hi <= 0
    @staticmethod
    def _plain(e): return len(e.t), max((abs(k) for _, k in e.t), default=0), abs(e.c), repr(e)
    def _saturate(self, st, atoms):
        """make consequences that do not mention the loop variables explicit"""
        extra = set()
        for a in atoms:
            cs = [e for e in st.cons if e.coef(a)]
            lo, hi = self.rng(a)
            if lo is not None: cs.append(Lin(lo, ((a, -1),)))
            if hi is not None: cs.append(Lin(-hi, ((a, 1),)))
            pos = [e for e in cs if e.coef(a) > 0]; neg = [e for e in cs if e.coef(a) < 0]
            if len(pos) * len(neg) > 400: continue
            for p in pos:
                for q in neg:
                    e = norm(p.scale(-q.coef(a)).add(q, p.coef(a)))
                    if e.t and len(e.t) <= 4: extra.add(e)
        extra = sorted((e for e in extra if e not in st.cons), key=self._plain)
        if not extra: return st
        s = st.copy(); s.cons = st.cons | frozenset(extra[:80])
        return s
    def _keylocal(self, k, names, phin):
        if k[0] == 'pure':
            return any((self.deps(a) & set(names)) - set(phin) for a in k[2])
        return bool((self.deps(k[0]) & set(names)) - set(phin))
    def _clear(self, blocks):
        for k in [k for k in self.inedge if k[0] in blocks]: del self.inedge[k]
    def tskey(self, st): return (st.ts, self.cl.loopkey(self, st))
    def _phival(self, st, p, pred):
        for v, bn in zip(p.args, p.extra):
            if self.fn.bmap.get(bn) is pred: return self.val(st, v)
        return self.mk('v:' + p.dst, p.ty, deps=[p.dst])
    def _phiop(self, p, pred):
        for v, bn in zip(p.args, p.extra):
            if self.fn.bmap.get(bn) is pred: return v
        return None
    def _shrink(self, inv, b, h=None, phis=()):
        """largest weakening of inv implied by b; None when unchanged"""
        cons = frozenset(e for e in inv.cons if self.entails(b, e))
        neq = frozenset(e for e in inv.neq if e in b.neq or self.entails(b, e.plus(1)) or self.entails(b, e.scale(-1).plus(1)))
        mem = {}; changed = False
        for k, v in inv.mem.items():
            w = b.mem.get(k)
            if w is None: continue
            if w[0] == v[0] or self.eq(b, w[0], v[0]): mem[k] = v; continue
            # changed in the loop: only the known bits survive
            kv, kw = self._kbof(v[0]), self._kbof(w[0])
            if kv and kw and k[0] != 'pure' and h is not None:
                o, z = kv[0] & kw[0], kv[1] & kw[1]
                if self.isjl(v[0], h) and (o, z) == kv: mem[k] = v; continue
                if o | z: mem[k] = (self._tojl(h, k, v[0] if v[0].t else w[0], (o, z), phis), v[1]); changed = True
        vals = {}
        for k, v in inv.vals.items():
            w = b.vals.get(k)
            if w is None or w == v or self.eq(b, w, v): vals[k] = v
        if not changed and cons == inv.cons and neq == inv.neq and len(mem) == len(inv.mem) and len(vals) == len(inv.vals): return None
        s = inv.copy(); s.cons = cons; s.neq = neq; s.mem = mem; s.vals = vals
        return s
    def isjl(self, v, h): return len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1 and self.ainfo.get(v.t[0][0], {}).get('jl') == h.name
    def _tojl(self, h, k, v, kb, phis):
        """a memory cell that changes in the loop at h, of which only the known bits are kept"""
        nm = 'jl:%s:%r|%x.%x' % (h.name, k, kb[0], kb[1])
        ref = self.ainfo.get(v.t[0][0]) if v.t else None
        w = 8 * k[1]; lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        self.mk(nm, lo=lo, hi=hi, deps=[p.dst for p in phis] + ['jl!' + h.name])
        self.ainfo[nm]['kb'] = kb; self.ainfo[nm]['jl'] = h.name
        return atom(nm)
    def _kbof(self, x):
        if not x.t: return (x.c & ((1 << 64) - 1), ~x.c & ((1 << 64) - 1))
        if x.c == 0 and len(x.t) == 1 and x.t[0][1] == 1: return self.ainfo.get(x.t[0][0], {}).get('kb')
        return None
    def _mergeall(self, l, blk, entry=False):
        r = l[0]
        for x in l[1:]: r = self._merge(r, x, blk, entry)
        return r
    def _outer(self, h):
        """a name that is local to each loop around the loop at h"""
        c = self.__dict__.setdefault('_outerc', {})
        if h not in c:
            ins = self.loopblocks.get(h, set()); r = set()
            for H, bs in self.loopblocks.items():
                if H is h or h not in bs: continue
                d = [i.dst for b in bs if b not in ins for i in b.insts if i.dst]
                r.add(min(d) if d else '!jm')
            c[h] = r
        return c[h]
    def _merge(self, a, b, blk, entry=False):
        if a is b: return a
        s = State(a.ts); s.path = a.path if len(a.path) <= len(b.path) else b.path
        extra = []
        vals = {}
        pairs = {}
        used = set()
        for x in (a, b):
            for l in (x.vals.values(), x.cons, (c[0] for c in x.mem.values())):
                for e in l:
                    for q, _ in e.t: used |= self._jnames(q)
        def joinval(k, v, w, ty):
            bv, ov = self.base(v); bw, ow = self.base(w)
            if bv is not None and bv == bw: return atom(bv).add(joinval(k + '.o', ov, ow, None))
            r = pairs.get((v, w))
            if r is not None:
                x = r.t[0][0]
                if self.ainfo[x].get('cong'): return r
                self.ainfo[x]['deps'] = self.ainfo[x]['deps'] | {k.split('.o')[0] if k.endswith('.o') else k}
                return r
            cv, cw = self._congof(v), self._congof(w)
            if (cv or cw) and (not cv or not cw or cv[1] == cw[1]) and not k.endswith('.o'):
                # wrapped values: join what was wrapped
                n = (cv or cw)[1]; rv, rw = cv[0] if cv else v, cw[0] if cw else w
                def fits(st, e):
                    l, h = self.bounds(st, e)
                    return ((l is not None and l >= 0) or self.entails(st, e.scale(-1))) and ((h is not None and h < 1 << n) or self.entails(st, e.plus(1 - (1 << n))))
                if fits(a, rv) and fits(b, rw):
                    x = joinval(k + '.o', rv, rw, None) if rv != rw else rv
                    r = self.wrapped(s, x, int_ty(n)); pairs[(v, w)] = r
                    return r
            nm = 'j:%s:%s' % (k, blk.name)
            o1, o2 = self._vorigin(v), self._vorigin(w)
            oo = o1 if o1 is not None and o1 == o2 else None
            if oo is not None: nm = self.variant(nm + '~', oo)
            while nm in used and v != atom(nm): nm += "'"
            na = self.mk(nm, ty, deps=[k[:-2] if k.endswith('.o') else k], origin=oo)
            nm = self._joinkb(na, v, w); na = atom(nm)
            pairs[(v, w)] = na; extra.append((na, v, w))
            return na
        for k, v in a.vals.items():
            w = b.vals.get(k)
            if w is None: continue
            if w == v: vals[k] = v
            else:
                d = self.defs.get(k)
                vals[k] = joinval(k, v, w, d.ty if d is not None else None)
        mem = {}
        for k, v in a.mem.items():
            w = b.mem.get(k)
            if w is None: continue
            if w[0] == v[0]: mem[k] = v
            elif self.eq(a, v[0], w[0]): mem[k] = w
            elif self.eq(b, v[0], w[0]): mem[k] = v
            elif (v[0], w[0]) in pairs: mem[k] = (pairs[(v[0], w[0])], v[1])
            else:
                nm = 'jm:%s%s:%r' % (blk.name, '!e' if entry else '', k)
                if len(nm) > 160:
                    import hashlib
                    nm = 'jm#' + hashlib.md5(nm.encode()).hexdigest()
                i = None
                isp = any(self.base(x[0])[0] for x in (v, w))
                na = self.mk(nm, None, kind='ptr' if isp else None, lo=0 if isp else None, hi=BIGP if isp else None,
                             deps=set(['!jm']) | self.deps(v[0]) | self.deps(w[0]) | (self._outer(blk) if entry else set(i.dst for i in blk.insts[:1] if i.dst)))
                if k[0] != 'pure': self.ainfo[nm]['origin'] = (k[0], v[1])
                na = atom(self._joinkb(na, v[0], w[0]))
                mem[k] = (na, v[1]); extra.append((na, v[0], w[0])); pairs[(v[0], w[0])] = na
        ea = list(a.cons); eb = list(b.cons)
        if extra:
            ta, tb = a.copy(), b.copy()
            for na, v, w in extra:
                da = na.sub(v); ta.cons = ta.cons | {norm(da), norm(da.scale(-1))}
                db = na.sub(w); tb.cons = tb.cons | {norm(db), norm(db.scale(-1))}
        else: ta, tb = a, b
        cons = set()
        for e in ea:
            if e in b.cons or self.entails(tb, e): cons.add(e)
        for e in eb:
            if e not in cons and self.entails(ta, e): cons.add(e)
        for na, v, w in extra:
            # hull
            la, ha = self.bounds(ta, v); lb, hb = self.bounds(tb, w)
            for q in (0, 1):
                # the bound that is easy to see on one side may hold on the other as well
                if not q and None not in (ha, hb) and ha != hb:
                    if ha < hb and len(w.t) and self.entails(tb, w.plus(-ha)): hb = ha
                    elif hb < ha and len(v.t) and self.entails(ta, v.plus(-hb)): ha = hb
                if q and None not in (la, lb) and la != lb:
                    if la > lb and len(w.t) and self.entails(tb, const(la).sub(w)): lb = la
                    elif lb > la and len(v.t) and self.entails(ta, const(lb).sub(v)): la = lb
                    if lb < 0 <= la and len(w.t) and self.entails(tb, w.scale(-1)): lb = 0
                    elif la < 0 <= lb and len(v.t) and self.entails(ta, v.scale(-1)): la = 0
            if la is not None and lb is not None:
                l = min(la, lb)
                lo, hi = self.rng(na.t[0][0])
                if lo is None or l > lo: cons.add(Lin(l, ((na.t[0][0], -1),)))
            if ha is not None and hb is not None:
                h = max(ha, hb)
                lo, hi = self.rng(na.t[0][0])
                if hi is None or h < hi: cons.add(Lin(-h, ((na.t[0][0], 1),)))
            # relate to either side
            for x, st2, o in ((v, tb, w), (w, ta, v)):
                if x.t or True:
                    d = na.sub(x)
                    for e in (norm(d), norm(d.scale(-1))):
                        if e.t and self.entails(st2, e) and self.entails(ta if st2 is tb else tb, e): cons.add(e)
            # constraints of a side with value replaced by new atom
            for side, vv, other in ((a, v, tb), (b, w, ta)):
                if len(vv.t) == 1 and vv.t[0][1] == 1:
                    x = vv.t[0][0]
                    for e in side.cons:
                        if e.coef(x) and len(e.t) <= 3:
                            e2 = norm(e.subst(x, na.plus(-vv.c)))
                            if e2.t and self.entails(other, e2): cons.add(e2)
        s.cons = frozenset(cons)
        nz = [na for na, v, w in extra if self._nz(ta, v) and self._nz(tb, w)]
        s.neq = frozenset(nz) | frozenset(q for q in a.neq | b.neq if (q in a.neq or self._ent_ne(ta, q)) and (q in b.neq or self._ent_ne(tb, q)))
        s.vals = vals; s.mem = mem
        return s
    def _jnames(self, q):
        """names of joined values that an atom is or was computed from"""
        c = self.__dict__.setdefault('_jn', {})
        r = c.get(q)
        if r is None:
            r = c[q] = frozenset([q]) if q[:2] == 'j:' else frozenset()
            i = self.ainfo.get(q, {})
            parts = list(i['ev'][1]) if i.get('ev') else []
            if i.get('cong'): parts.append(i['cong'][0])
            for p in parts:
                for x, _ in p.t: r = r | self._jnames(x)
            c[q] = r
        return r
    def _unwrapped(self, s, v, n):
        c = self._congof(v)
        if not c or c[1] != n: return None
        l, h = self.bounds(s, c[0]); r = c[0]
        if not (l is not None and l >= 0) and not self.entails(s, r.scale(-1)): return None
        return r if h is not None and h < 1 << n or self.entails(s, r.plus(1 - (1 << n))) else None
    def zx(self, s, v, n):
        r = self.opaque(s, 'zx%d' % n, None, [v], 0, (1 << n) - 1)
        c = self._congof(v)
        if c and c[1] == n:
            l, _ = self.bounds(s, c[0])
            if (l is not None and l >= 0) or self.entails(s, c[0].scale(-1)): self.assume(s, r.sub(c[0]))
        return r
    def ulift(self, s, v, n):
        """v read as an unsigned number of n bits, or None"""
        if not v.t: return const(v.c & ((1 << n) - 1))
        lo, hi = self.bounds(s, v)
        if (lo is not None and lo >= 0) or self.entails(s, v.scale(-1)): return v
        if hi is not None and hi < 0: return v.plus(1 << n)
        return self._unwrapped(s, v, n)
    def _congof(self, v): return self.ainfo.get(v.t[0][0], {}).get('cong') if len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1 else None
    def _joinkb(self, na, v, w):
        """known bits both sides agree on: part of the name of the joined value"""
        nm = na.t[0][0]
        a, b = self._kbof(v), self._kbof(w)
        if not a or not b or not (v.t or w.t): return nm
        o, z = a[0] & b[0], a[1] & b[1]
        if not (o | z): return nm
        n2 = '%s|%x.%x' % (nm, o, z)
        if n2 not in self.ainfo:
            self.ainfo[n2] = dict(self.ainfo[nm]); self.ainfo[n2]['kb'] = (o, z)
        return n2
    def _vorigin(self, v):
        return self.origin(v.t[0][0]) if len(v.t) == 1 and v.t[0][1] == 1 and v.c == 0 else None
    def _nz(self, st, v):
        if not v.t: return v.c != 0
        return v in st.neq or v.scale(-1) in st.neq or self._ent_ne(st, v)
    def _ent_ne(self, st, q): return self.entails(st, q.plus(1)) or self.entails(st, q.scale(-1).plus(1))
    def _join(self, b, inc):
        phis = [i for i in b.insts if i.op == 'phi']
        sts = []
        for p, s in inc:
            s2 = s.copy()
            if phis and p is not None:
                vs = [(i, self._phival(s, i, p)) for i in phis]
                for i, v in vs: s2.vals[i.dst] = v
                bools = [(i, o) for i, v in vs if i.ty.k == 'int' and i.ty.n == 1 and v.t for o in [self._phiop(i, p)] if o is not None and o[0] == 'r']
                if bools:
                    ex = [s2]
                    for i, o in bools[:3]:
                        nx = []
                        for x in ex:
                            for tv in (True, False):
                                for y in self.cond(x.copy(), o, tv): y.vals[i.dst] = const(int(tv)); nx.append(y)
                        ex = nx
                    sts += ex; continue
            sts.append(s2)
        groups = {}
        for s in sts:
            key = tuple((s.vals[i.dst].c if s.vals[i.dst].isconst() else None) for i in phis)
            groups.setdefault((self.tskey(s), self.cl.joinkey(self, s)), []).append((key, s))
        out = []
        for ts, l in groups.items():
            # dedupe subsumed identical
            if len(l) <= self.K: out += [s for _, s in l]; continue
            bk = {}
            for key, s in l: bk.setdefault(key, []).append(s)
            ms = [self._mergeall(x, b) for x in bk.values()]
            while len(ms) > self.K:
                x = ms.pop(); y = ms.pop(); ms.append(self._merge(x, y, b))
                # rotate to balance
                ms.insert(0, ms.pop())
            out += ms
        # drop exact duplicates
        res = []
        for s in out:
            if any(s.ts == r.ts and s.cons == r.cons and s.vals == r.vals and s.mem == r.mem and s.neq == r.neq for r in res): continue
            res.append(s)
        return res

    # ------------------------------------------------------------ block transfer
    def _block(self, b, sts, header=False):
        self.visited.add(b)
        for s in b.succs: self.inedge[(b, s)] = []
        for st in sts:
            work = [(st, 0)]
            while work:
                s, k = work.pop()
                while k < len(b.insts):
                    i = b.insts[k]
                    self.steps += 1
                    if self.steps > self.maxsteps: raise Blowup('step budget exhausted in %s' % self.fn.name)
                    if i.op == 'phi': k += 1; continue
                    if i.op in ('br', 'switch', 'ret', 'unreachable'):
                        self._term(b, i, s); break
                    r = self._inst(s, i)
                    k += 1
                    if r is not None:
                        if not r: break
                        s = r[0]
                        for x in r[1:]: work.append((x, k))
                else: pass
        # cap
        for su in b.succs:
            l = self.inedge[(b, su)]
            if len(l) > 1:
                g = {}
                for x in l: g.setdefault((self.tskey(x), self.cl.joinkey(self, x)), []).append(x)
                out = []
                for ts, y in g.items():
                    while len(y) > 2 * self.K:
                        p = y.pop(); q = y.pop(); y.insert(0, self._merge(p, q, su))
                    out += y
                self.inedge[(b, su)] = out
    def _term(self, b, i, s):
        if i.op == 'ret':
            self.cl.ret(self, s, i, self.val(s, i.args[0]) if i.args else None); return
        if i.op == 'unreachable': return
        if i.op == 'br':
            if not i.args:
                self._flow(b, i.extra[0], s); return
            for tv, lab in ((True, i.extra[0]), (False, i.extra[1])):
                for s2 in self.cond(s.copy(), i.args[0], tv): self._flow(b, lab, s2)
            return
        v = self.val(s, i.args[0]); dflt, cases = i.extra
        ty = self._ty(i.args[0])
        bylab = {}
        for c, lab in cases:
            s2 = s.copy()
            if self.assume_eq(s2, v, const(c)) and self.fold(s2, v): self._flow(b, lab, s2)
        s2 = s.copy()
        for c, lab in cases:
            if not self.assume_ne(s2, v, const(c)): return
        self._flow(b, dflt, s2)
    def _flow(self, b, lab, s):
        su = self.fn.bmap[lab]
        self.cl.edge(self, s, b, su)
        self.inedge[(b, su)].append(s)
    def _ty(self, o):
        return o[2] if o[0] in ('r', 'i') else None

    def cond(self, st, o, tv):
        """states in which i1 operand o has truth value tv"""
        if o[0] == 'i': return [st] if bool(o[1]) == tv else []
        if o[0] == 'u': return [st]
        d = self.defs.get(o[1]) if o[0] == 'r' else None
        if d is not None and d.op != 'phi':
            if d.op == 'icmp': return self._icmp(st, d, tv)
            if d.op == 'xor' and d.args[1][0] == 'i': return self.cond(st, d.args[0], not tv if d.args[1][1] & 1 else tv)
            if d.op == 'and' or (d.op == 'select' and d.args[2][0] == 'i' and d.args[2][1] == 0 and d.ty.k == 'int' and d.ty.n == 1):
                a, c = d.args[0], d.args[1]
                if tv: return [y for x in self.cond(st, a, True) for y in self.cond(x, c, True)]
                r = self.cond(st.copy(), a, False)
                for x in self.cond(st.copy(), a, True): r += self.cond(x, c, False)
                return r
            if d.op == 'or' or (d.op == 'select' and d.args[1][0] == 'i' and d.args[1][1] == 1 and d.ty.k == 'int' and d.ty.n == 1):
                a = d.args[0]; c = d.args[1] if d.op == 'or' else d.args[2]
                if not tv: return [y for x in self.cond(st, a, False) for y in self.cond(x, c, False)]
                r = self.cond(st.copy(), a, True)
                for x in self.cond(st.copy(), a, False): r += self.cond(x, c, True)
                return r
            if d.op == 'freeze': return self.cond(st, d.args[0], tv)
            if d.op == 'trunc':
                pass
        v = self.val(st, o)
        if v.isconst(): return [st] if bool(v.c & 1) == tv else []
        ok = self.assume_eq(st, v, const(1 if tv else 0)) if self.rng(v.t[0][0]) == (0, 1) else True
        return [st] if ok else []

    NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
    def _icmp(self, st, d, tv):
        r = self._icmp0(st, d, tv)
        out = []
        pr = d.extra if tv else self.NEG[d.extra]
        for x in r:
            ok = True
            if pr in ('eq', 'ne'):
                a, b = self.val(x, d.args[0]), self.val(x, d.args[1])
                if pr == 'eq' and b.isconst() and a.t and not self.fold(x, a): continue
                tw = self.ainfo.get('#bswap', {}).get(a)
                if tw is not None and b.isconst():
                    n = tw[1]; c = int.from_bytes((b.c & ((1 << n) - 1)).to_bytes(n // 8, 'little'), 'big', signed=True)
                    ok = self.assume_eq(x, tw[0], const(c)) if pr == 'eq' else self.assume_ne(x, tw[0], const(c))
            for o in d.args[:2]:
                if o[0] == 'r' and ok: ok = self.relink(x, self.val(x, o))
            if ok: out.append(x)
        return out
    def _icmp0(self, st, d, tv):
        p = d.extra if tv else self.NEG[d.extra]
        a = self.val(st, d.args[0]); b = self.val(st, d.args[1])
        if p in ('ugt', 'uge'): a, b, p = b, a, {'ugt': 'ult', 'uge': 'ule'}[p]
        if p in ('sgt', 'sge'): a, b, p = b, a, {'sgt': 'slt', 'sge': 'sle'}[p]
        if p in ('eq', 'ne', 'ult', 'ule') and (self._congof(a) or self._congof(b)):
            t = self._ty(d.args[0]); n = t.n if t is not None and t.k == 'int' else 0
            ua, ub = (self.ulift(st, a, n), self.ulift(st, b, n)) if n else (None, None)
            if ua is not None and ub is not None:
                if p == 'eq': return [st] if self.assume_eq(st, ua, ub) else []
                if p == 'ne': return [st] if self.assume_ne(st, ua, ub) else []
                return [st] if self.assume(st, ua.sub(ub).plus(1 if p == 'ult' else 0)) else []
        if p == 'eq': return [st] if self.assume_eq(st, a, b) else []
        if p == 'ne': return [st] if self.assume_ne(st, a, b) else []
        if p == 'slt': return [st] if self.assume(st, a.sub(b).plus(1)) else []
        if p == 'sle': return [st] if self.assume(st, a.sub(b)) else []
        k = 1 if p == 'ult' else 0
        # unsigned: work by sign cases (values are kept in signed interpretation)
        la, ha = self.bounds(st, a); lb, hb = self.bounds(st, b)
        an = la is not None and la >= 0 or self.entails(st, a.scale(-1))
        bn = lb is not None and lb >= 0 or self.entails(st, b.scale(-1))
        if bn:                                  # b >= 0:  a <u b  => 0 <= a < b
            if self.assume(st, a.scale(-1)) and self.assume(st, a.sub(b).plus(k)): return [st]
            return []
        if an:
            # a>=0, b any: either b<0 (huge) or a<b
            if hb is not None and hb < 0: return [st]
            r = []
            s1 = st.copy()
            if self.assume(s1, b.plus(1)): r.append(s1)
            s2 = st
            if self.assume(s2, b.scale(-1)) and self.assume(s2, a.sub(b).plus(k)): r.append(s2)
            return r
        aneg = (ha is not None and ha < 0) or self.entails(st, a.plus(1))
        bneg = (hb is not None and hb < 0) or self.entails(st, b.plus(1))
        if aneg and bneg: return [st] if self.assume(st, a.sub(b).plus(k)) else []
        if aneg:    # a huge: b must be huge
            return [st] if self.assume(st, b.plus(1)) and self.assume(st, a.sub(b).plus(k)) else []
        # split on sign of b then a
        r = []
        s1 = st.copy()
        if self.assume(s1, b.scale(-1)) and self.assume(s1, a.scale(-1)) and self.assume(s1, a.sub(b).plus(k)): r.append(s1)
        s2 = st.copy()
        if self.assume(s2, b.plus(1)):
            r.append(s2)
        return r

    # ------------------------------------------------------------ modular values
    def wrapped(self, s, r, ty):
        """value congruent to r modulo 2**n : an atom that remembers r"""
        for a, k in r.t:                       # flatten nested wraps
            e = self.ainfo.get(a, {}).get('cong')
            if e is not None and e[1] == ty.n: r = r.subst(a, e[0])
        # reuse a linked sibling wrap(r + c)
        base = Lin(0, r.t)
        for c2 in self.ainfo.setdefault('#wraps', {}).get((base, ty.n), ()):
            at = atom('wrap%d(%r)' % (ty.n, base.plus(c2))) if c2 != r.c else None
            if at is None or at.t[0][0] not in self.ainfo: continue
            cand = at.plus(r.c - c2)
            l, h = self.bounds(s, at)
            if self.ainfo[at.t[0][0]]['lo'] < (l if l is not None else -1 << 99) or self.ainfo[at.t[0][0]]['hi'] > (h if h is not None else 1 << 99):
                if self.inrange(s, cand, ty): return cand
        nm = 'wrap%d(%r)' % (ty.n, r)
        d = self.deps(r)
        v = self.mk(nm, ty, deps=d)
        self.ainfo[nm]['cong'] = (r, ty.n)
        self.ainfo['#wraps'].setdefault((base, ty.n), set()).add(r.c)
        return v
    def relink(self, s, v):
        """a constraint on a wrapped value may show that it did not wrap"""
        for a, k in v.t:
            for u in [a] + sorted(self.evusers.get(a, ())):
                ev = self.ainfo.get(u, {}).get('ev')
                if ev is None or ev[0][:2] != 'zx' or atom(u) == ev[1][0]: continue
                n = int(ev[0][2:]); p = ev[1][0]
                lo, hi = self.bounds(s, p); lu, hu = self.bounds(s, atom(u))
                if (lo is not None and lo >= 0) or (hu is not None and hu < 1 << (n - 1)):
                    if not self.assume_eq(s, p, atom(u)): return False
            e = self.ainfo.get(a, {}).get('cong')
            if e is None or len(e[0].t) != 1 or abs(e[0].t[0][1]) != 1: continue
            x, kx = e[0].t[0]
            # a == kx*x + c (mod 2^n)  =>  x == kx*(a - c) when that lies in the range of x
            y = atom(a).plus(-e[0].c).scale(kx)
            lo, hi = self.rng(x)
            if lo is None or hi is None or hi - lo >= (1 << e[1]): continue
            l, h = self.bounds(s, y)
            if l is not None and h is not None and l >= lo and h <= hi:
                if not self.assume_eq(s, atom(x), y): return False
        return True
    def unshift(self, v, k, n):
        """e with v == e * 2**k modulo 2**n, or None"""
        r = const(0)
        todo = [(v, 1)]
        out = Lin(0)
        for _ in range(20):
            if not todo: break
            w, f = todo.pop()
            if w.c * f % (1 << k): return None
            out = out.plus(w.c * f >> k)
            for a, c in w.t:
                e = self.ainfo.get(a, {})
                if e.get('cong') and e['cong'][1] == n: todo.append((e['cong'][0], c * f))
                elif e.get('shl') and e['shl'][2] == n and e['shl'][1] >= k: out = out.add(e['shl'][0].scale(c * f << (e['shl'][1] - k)))
                elif (c * f) % (1 << k) == 0: out = out.add(atom(a).scale((c * f) >> k))
                else: return None
        if todo: return None
        return out

    # ------------------------------------------------------------ known bits
    def kb(self, v, n):
        """(ones, zeros) masks of value v seen as n bit word"""
        M = (1 << n) - 1
        if not v.t: return v.c & M, ~v.c & M
        if v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1:
            i = self.ainfo.get(v.t[0][0]); k = i.get('kb') if i else None
            if k: return k[0] & M, k[1] & M
        return 0, 0
    def _kbop(self, s, i):
        """fold bitwise operations through known bits; returns True when the value was set"""
        op = i.op
        t = self._ty(i.args[0])
        if t is None or t.k != 'int' or t.n == 1 or i.ty is None or i.ty.k != 'int': return False
        n = t.n; m = i.ty.n; M = (1 << n) - 1; R = (1 << m) - 1
        a = self.val(s, i.args[0]); o1, z1 = self.kb(a, n)
        b = self.val(s, i.args[1]) if len(i.args) > 1 else None
        if b is not None: o2, z2 = self.kb(b, n)
        if not (o1 | z1) and not (b is not None and b.t and (o2 | z2)): return False
        if not a.t and (b is None or not b.t): return False
        if op == 'and': o, z = o1 & o2, z1 | z2
        elif op == 'or': o, z = o1 | o2, z1 & z2
        elif op == 'xor': o, z = (o1 & z2) | (z1 & o2), (o1 & o2) | (z1 & z2)
        elif op == 'trunc': o, z = o1 & R, z1 & R
        elif op == 'zext': o, z = o1, z1 | (R & ~M)
        elif op == 'shl' and not b.t and 0 <= b.c < n: o, z = (o1 << b.c) & M, ((z1 << b.c) | ((1 << b.c) - 1)) & M
        elif op == 'lshr' and not b.t and 0 <= b.c < n: o, z = o1 >> b.c, (z1 >> b.c) | (M & ~(M >> b.c))
        else: return False
        if not (o | z): return False
        if (o | z) == R:
            c = o if not (o >> (m - 1)) & 1 or m == 1 else o - (1 << m)
            s.vals[i.dst] = const(c); return True
        parts = [a] if b is None else [a, b]
        sg = 1 << (m - 1)
        nm = 'kb:%s:%x:%x' % (op, o, z)
        v = self.opaque(s, nm, i.ty, parts)
        inf = self.ainfo[v.t[0][0]]; inf['kb'] = (o, z); inf['expr'] = (op, parts)
        lo = -sg if not (z & sg) else o
        hi = (R & ~z) & (sg - 1) if not (o & sg) else None
        if m > 1:
            if z & sg: inf['lo'] = max(inf['lo'], o); inf['hi'] = min(inf['hi'], R & ~z)
        s.vals[i.dst] = v
        # a value that keeps at least one known one is never zero
        if o and not self.entails(s, v.scale(-1).plus(1)): s.neq = s.neq | {v}
        return True

    # ------------------------------------------------------------ instructions
    def _inst(self, s, i):
        op = i.op
        if op in ('and', 'or', 'xor', 'trunc', 'zext', 'shl', 'lshr') and self._kbop(s, i): return
        if op == 'getelementptr': s.vals[i.dst] = self.gep(s, i.extra, i.args); return
        if op == 'load': return self._load(s, i)
        if op == 'store': return self._store(s, i)
        if op == 'call': return self._call(s, i)
        if op in ('icmp', 'fcmp'):
            # lazily evaluated at the branch; drop stale value
            s.vals.pop(i.dst, None); return
        if op == 'alloca':
            nm = '&' + i.dst
            self.mk(nm, kind='obj', lo=4096, hi=BIGP, deps=[i.dst])
            n = const(1) if not i.args else self.val(s, i.args[0])
            self.ainfo[nm]['size'] = n.scale(self.m.size(i.extra))
            s.vals[i.dst] = atom(nm); return
        if op in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast', 'freeze'):
            s.vals[i.dst] = self.val(s, i.args[0]); return
        if op == 'sext':
            if self._ty(i.args[0]) is not None and self._ty(i.args[0]).n == 1: return self._booleanize(s, i, -1)
            s.vals[i.dst] = self.val(s, i.args[0]); return
        if op == 'zext':
            t = self._ty(i.args[0])
            if t is not None and t.k == 'int' and t.n == 1: return self._booleanize(s, i, 1)
            v = self.val(s, i.args[0]); n = t.n if t is not None and t.k == 'int' else 32
            lo, hi = self.bounds(s, v)
            if (lo is not None and lo >= 0) or self.entails(s, v.scale(-1)): s.vals[i.dst] = v
            elif (hi is not None and hi < 0): s.vals[i.dst] = v.plus(1 << n)
            elif self._unwrapped(s, v, n) is not None: s.vals[i.dst] = self._unwrapped(s, v, n)
            else: s.vals[i.dst] = self.zx(s, v, n)
            return
        if op == 'trunc':
            v = self.val(s, i.args[0])
            if self.inrange(s, v, i.ty): s.vals[i.dst] = v
            else: s.vals[i.dst] = self.wrapped(s, v, i.ty)
            return
        if op in ('add', 'sub'):
            a = self.val(s, i.args[0]); b = self.val(s, i.args[1])
            r = a.add(b) if op == 'add' else a.sub(b)
            if self.inrange(s, r, i.ty): s.vals[i.dst] = r; return
            # wrapped sum: canonical atom wrap_n(r) congruent to r
            s.vals[i.dst] = self.wrapped(s, r, i.ty)
            return
        if op == 'mul':
            a = self.val(s, i.args[0]); b = self.val(s, i.args[1])
            if a.isconst(): a, b = b, a
            if b.isconst():
                r = a.scale(b.c)
                if self.inrange(s, r, i.ty): s.vals[i.dst] = r; return
            if repr(a) > repr(b): a, b = b, a
            r = self.opaque(s, 'mul' + str(i.ty.n), i.ty, [a, b])
            s.vals[i.dst] = r
            for q, y in ((a, b), (b, a)):          # (x / y) * y rounds x down
                ev = self.ainfo.get(q.t[0][0], {}).get('ev') if len(q.t) == 1 and q.t[0][1] == 1 and q.c == 0 else None
                if ev and ev[0][:4] in ('sdiv', 'udiv') and ev[1][1] == y and self.entails(s, ev[1][0].scale(-1)) and self.entails(s, y.scale(-1)):
                    self.assume(s, r.scale(-1)); self.assume(s, r.sub(ev[1][0])); return
            # product of non-negatives that cannot wrap
            la, ha = self.bounds(s, a); lb, hb = self.bounds(s, b)
            if None not in (la, ha, lb, hb):
                ps = [la * lb, la * hb, ha * lb, ha * hb]
                if min(ps) >= -(1 << (i.ty.n - 1)) and max(ps) < (1 << (i.ty.n - 1)):
                    self.assume(s, const(min(ps)).sub(r)); self.assume(s, r.sub(const(max(ps))))
                    if la >= 0 and lb >= 1: self.assume(s, a.sub(r))
                    if lb >= 0 and la >= 1: self.assume(s, b.sub(r))
            return
        if op == 'shl':
            a = self.val(s, i.args[0]); b = self.val(s, i.args[1])
            if b.isconst() and 0 <= b.c < 63:
                r = a.scale(1 << b.c)
                if self.inrange(s, r, i.ty): s.vals[i.dst] = r; return
                v = self.opaque(s, 'shl' + str(i.ty.n), i.ty, [a, b]); s.vals[i.dst] = v
                self.ainfo[v.t[0][0]]['shl'] = (a, b.c, i.ty.n); return
            s.vals[i.dst] = self.opaque(s, 'shl' + str(i.ty.n), i.ty, [a, b]); return
        if op in ('lshr', 'ashr', 'udiv', 'sdiv'):
            a = self.val(s, i.args[0]); b = self.val(s, i.args[1])
            if op == 'ashr' and b.isconst() and 0 < b.c < i.ty.n:
                e = self.unshift(a, b.c, i.ty.n)
                if e is not None:
                    from ir import int_ty
                    t = int_ty(i.ty.n - b.c)
                    if self.inrange(s, e, t): s.vals[i.dst] = e
                    else: s.vals[i.dst] = self.wrapped(s, e, t)
                    return
            r = self.opaque(s, op + str(i.ty.n), i.ty, [a, b]); s.vals[i.dst] = r
            if not b.isconst() and self.entails(s, a.scale(-1)) and self.entails(s, b.scale(-1)):
                self.assume(s, r.scale(-1)); self.assume(s, r.sub(a))     # a division by zero does not continue
            if b.isconst() and b.c >= 0:
                c = (1 << b.c) if op in ('lshr', 'ashr') else b.c
                if c > 0:
                    nn = self.entails(s, a.scale(-1))
                    if nn or op == 'ashr':
                        self.assume(s, r.scale(c).sub(a)); self.assume(s, a.sub(r.scale(c)).plus(-(c - 1)))
                        if nn: self.assume(s, r.scale(-1))
                    elif op == 'lshr' and b.c > 0:
                        z = self.opaque(s, 'zx%d' % i.ty.n, None, [a], 0, (1 << i.ty.n) - 1)
                        self.assume(s, r.scale(c).sub(z)); self.assume(s, z.sub(r.scale(c)).plus(-(c - 1)))
                        self.assume(s, r.scale(-1)); self.assume(s, r.sub(const((1 << (i.ty.n - b.c)) - 1)))
                    elif op == 'sdiv':
                        # truncation: |r*c| <= |a| ; a > -c*... keep a<=c*r+c-1 and a>=c*r-c+1
                        self.assume(s, a.sub(r.scale(c)).plus(-(c - 1))); self.assume(s, r.scale(c).sub(a).plus(-(c - 1)))
                        lo, hi = self.bounds(s, a)
                        if lo is not None: self.assume(s, const(-(-lo // c) if lo < 0 else lo // c).sub(r))
                        if hi is not None: self.assume(s, r.sub(const(-(-hi // c) if hi < 0 else hi // c)))
                    elif op == 'udiv' and c > 1:
                        self.assume(s, r.scale(-1))
            return
        if op in ('urem', 'srem'):
            a = self.val(s, i.args[0]); b = self.val(s, i.args[1])
            r = self.opaque(s, op + str(i.ty.n), i.ty, [a, b]); s.vals[i.dst] = r
            if b.isconst() and b.c > 0:
                nn = self.entails(s, a.scale(-1))
                self.assume(s, r.sub(const(b.c - 1)))
                if nn or op == 'urem': self.assume(s, r.scale(-1))
                else: self.assume(s, const(-(b.c - 1)).sub(r))
                if nn: self.assume(s, r.sub(a))
            return
        if op == 'and':
            a = self.val(s, i.args[0]); b = self.val(s, i.args[1])
            if i.ty.k == 'int' and i.ty.n == 1: s.vals.pop(i.dst, None); return
            if a.isconst(): a, b = b, a
            if a.isconst() and b.isconst(): s.vals[i.dst] = const(a.c & b.c); return
            if b.isconst():
                lo, hi = self.bounds(s, a)
                # mask covers the whole range of a
                if b.c > 0 and (b.c & (b.c + 1)) == 0 and lo is not None and hi is not None and lo >= 0 and hi <= b.c:
                    s.vals[i.dst] = a; return
                if a.t and i.ty.k == 'int':
                    C = b.c & ((1 << i.ty.n) - 1); low = C & -C
                    if low > 1 and (lo is not None and lo >= 0 or self.entails(s, a.scale(-1))) and self.entails(s, a.plus(1 - low)): s.vals[i.dst] = ZERO; return
                    if C & (C + 1) == 0 and 0 < C < 1 << (i.ty.n - 1) and (lo is not None and lo >= 0 or self.entails(s, a.scale(-1))) and self.entails(s, a.plus(-C)): s.vals[i.dst] = a; return
                r = self.opaque(s, 'and' + str(i.ty.n), i.ty, [a, b]); s.vals[i.dst] = r
                if b.c >= 0:
                    self.assume(s, r.scale(-1)); self.assume(s, r.sub(const(b.c)))
                if lo is not None and lo >= 0: self.assume(s, r.sub(a)); self.assume(s, r.scale(-1))
                return
            if repr(a) > repr(b): a, b = b, a
            r = self.opaque(s, 'and' + str(i.ty.n), i.ty, [a, b]); s.vals[i.dst] = r
            for x in (a, b):
                lo, hi = self.bounds(s, x)
                if lo is not None and lo >= 0: self.assume(s, r.sub(x)); self.assume(s, r.scale(-1))
            return
        if op in ('or', 'xor'):
            if i.ty.k == 'int' and i.ty.n == 1: s.vals.pop(i.dst, None); return
            a = self.val(s, i.args[0]); b = self.val(s, i.args[1])
            if a.isconst() and b.isconst(): s.vals[i.dst] = const((a.c | b.c) if op == 'or' else (a.c ^ b.c)); return
            if op == 'or' and i.extra and 'disjoint' in i.extra:
                r = a.add(b)
                if self.inrange(s, r, i.ty): s.vals[i.dst] = r; return
            if op == 'xor' and b.isconst() and b.c == -1:
                s.vals[i.dst] = a.scale(-1).plus(-1); return
            if repr(a) > repr(b): a, b = b, a
            r = self.opaque(s, op + str(i.ty.n), i.ty, [a, b]); s.vals[i.dst] = r
            la, ha = self.bounds(s, a); lb, hb = self.bounds(s, b)
            if None not in (la, ha, lb, hb) and la >= 0 and lb >= 0:
                top = (1 << max(ha.bit_length(), hb.bit_length())) - 1
                self.assume(s, r.scale(-1)); self.assume(s, r.sub(const(top)))
                if op == 'or': self.assume(s, a.sub(r)); self.assume(s, b.sub(r))
            return
        if op == 'select':
            if i.ty.k == 'int' and i.ty.n == 1: s.vals.pop(i.dst, None); return
            r = []
            for tv, a in ((True, i.args[1]), (False, i.args[2])):
                for x in self.cond(s.copy(), i.args[0], tv):
                    x.vals[i.dst] = self.val(x, a); r.append(x)
            return r
        # anything else: unknown value
        if i.dst is not None:
            s.vals[i.dst] = self.mk('v:' + i.dst, i.ty, deps=[i.dst])
    def _booleanize(self, s, i, one):
        r = []
        for tv in (True, False):
            for x in self.cond(s.copy(), i.args[0], tv):
                x.vals[i.dst] = const(one if tv else 0); r.append(x)
        return r

    # ------------------------------------------------------------ memory
    def width(self, ty): return self.m.size(ty)
    def _load(self, s, i):
        addr = self.val(s, i.args[0]); w = self.width(i.ty)
        k = (addr, w); c = s.mem.get(k)
        tag = self.m.tbaa(i.tbaa)
        if c is None:
            for kk, cv in s.mem.items():
                if kk[0] != 'pure' and kk[1] == w and kk[0].t == addr.t and kk[0].c == addr.c: c = cv
        if c is not None: v = c[0]
        else:
            iv = self._global_init(addr, w)
            if iv is not None: v = iv
            else:
                nm = self.variant('L:%s' % i.dst, (addr, tag))
                self._killatom(s, nm)
                v = self.mk(nm, i.ty, deps=[i.dst], origin=(addr, tag))
            s.mem[k] = (v, tag)
        s.vals[i.dst] = v
        return self.cl.load(self, s, i, addr, w, v)
    def variant(self, nm, origin):
        """atom names carry their origin: one name per (instruction, origin)"""
        v = self.__dict__.setdefault('_variants', {}).setdefault(nm, {})
        k = v.get(origin)
        if k is None: k = v[origin] = len(v)
        return nm if k == 0 else '%s~%d' % (nm, k)
    def _killatom(self, s, nm):
        """instruction re-executed without leaving a loop cannot happen inside one pass, but a
        second visit of the same block in another disjunct keeps names separate per state"""
        a = nm
        if any(e.coef(a) for e in s.cons):
            s.cons = frozenset(e for e in s.cons if not e.coef(a))
        if s.neq: s.neq = frozenset(e for e in s.neq if not e.coef(a))
    def _global_init(self, addr, w):
        return None
    def mayalias(self, s, A, wa, ta, B, wb, tb):
        d = A.sub(B)
        if d.isconst():
            return not (d.c >= wb or -d.c >= wa)
        ba, oa = self.base(A); bb, ob = self.base(B)
        if ba is not None and ba == bb:
            # same object: provably disjoint ranges
            if self.entails(s, d.plus(wa) if isinstance(wa, int) else d.add(wa)): return False
            if self.entails(s, d.scale(-1).plus(wb)): return False
        if ba is not None and bb is not None and ba != bb:
            oa_, ob_ = self.isobj(ba), self.isobj(bb)
            if oa_ and ob_: return False
            if (oa_ and ba.startswith('&')) or (ob_ and bb.startswith('&')): return False
            if self.modref and ((ba[0] == '@' and ba[1:] in self.modref.private) or (bb[0] == '@' and bb[1:] in self.modref.private)): return False
            if ta is None or tb is None: return False     # typed-heap assumption: raw byte buffers are not structs
            if self._fresh(ba) or self._fresh(bb): return False
        if self.modref and (ba is None) != (bb is None):
            g = ba or bb; X = A if ba is None else B
            if g[0] == '@' and g[1:] in self.modref.private and not any(a == g for a, _ in X.t): return False
        if ta is not None and tb is not None:
            ca, cb = 'omnipotent char' in ta[3], 'omnipotent char' in tb[3]
            if ca or cb:
                if ca and cb: return True
                return ba is not None and ba == bb
            if ta[3] != tb[3]: return False
            if ta[4] or tb[4]: return self.modref.scalar_vs_field(ta, tb) if self.modref else True
            if ta[0] == tb[0]: return ta[2] == tb[2]
            return self.m.tbaa_within(ta[0], tb[0]) or self.m.tbaa_within(tb[0], ta[0])
        return True
    def _fresh(self, a):
        return a.startswith('M:')
    def kill(self, s, addr, w, tag):
        dead = []
        for k, v in s.mem.items():
            if k[0] == 'pure':
                if self.modref and self.modref.tag_hits(k[1], tag, addr, self): dead.append(k)
                continue
            if self.mayalias(s, addr, w, tag, k[0], k[1], v[1]):
                if self.cl.stable(self, k) and not addr.sub(k[0]).isconst(): continue
                dead.append(k)
        for k in dead: del s.mem[k]
    def kill_base(self, s, b, keep=None):
        """contents reachable from base pointer b are unknown"""
        dead = [k for k in s.mem if k[0] != 'pure' and self.base(k[0])[0] == b and not self.cl.stable(self, k)]
        for k in dead: del s.mem[k]
    def _store(self, s, i):
        v = self.val(s, i.args[0]); addr = self.val(s, i.args[1]); w = self.width(i.ty)
        tag = self.m.tbaa(i.tbaa)
        r = self.cl.store(self, s, i, addr, w, v)
        if r is not None and not self.cl.splits: return r
        for z in [s] if r is None else r:
            self.kill(z, addr, w, tag)
            if i.ty.k in ('int', 'ptr'): z.mem[(addr, w)] = (v, tag)
        return r

    # ------------------------------------------------------------ calls
    def callee(self, i):
        c = i.extra
        if isinstance(c, tuple) and c and c[0] == 'g': return c[1]
        return None
    def _call(self, s, i):
        name = self.callee(i)
        args = [self.val(s, a) if a[0] not in ('m', 'asm') else ZERO for a in i.args]
        r = self.cl.call(self, s, i, name, args)
        if r is not None: return r
        return self.default_call(s, i, name, args)
    def fresh_result(self, s, i, prefix='C', **kw):
        if i.dst is None: return None
        nm = '%s:%s' % (prefix, i.dst)
        if kw.get('origin') is not None: nm = self.variant(nm, kw['origin'])
        self._killatom(s, nm)
        v = self.mk(nm, i.ty, deps=[i.dst], **kw)
        s.vals[i.dst] = v
        return v
    def default_call(self, s, i, name, args):
        if name is None:
            self.clobber(s, i, name, args); self.fresh_result(s, i); return
        if name.startswith('llvm.'):
            return self._intrinsic(s, i, name, args)
        if name in ('memcpy', 'memmove'):
            return self._memcpy(s, i, args)
        if name in ('memset', 'bzero'):
            if name == 'bzero': self._memset(s, args[0], ZERO, args[1])
            else: self._memset(s, args[0], args[1], args[2])
            if i.dst: s.vals[i.dst] = args[0]
            return
        f = self.m.funcs.get(name)
        if (f is not None and not f.decl and self.cl.pure(name)) or name in PURE_EXT:
            k = ('pure', name, tuple(args))
            c = s.mem.get(k)
            if c is None:
                v = self.fresh_result(s, i, origin=('call', name, tuple(args)))
                rr = self.cl.result_range(name)
                if v is not None and rr:
                    if rr[0] is not None: self.assume(s, const(rr[0]).sub(v))
                    if rr[1] is not None: self.assume(s, v.sub(const(rr[1])))
                if v is not None and name == 'strlen':
                    self.assume(s, v.scale(-1)); self.assume(s, v.sub(const(1 << 40)))
                    b, off = self.base(args[0])
                    if b is not None and b.startswith('&') and self.ainfo[b].get('size') is not None:
                        # strings in locals end inside them (their own property)
                        self.assume(s, v.add(off).plus(1).sub(self.ainfo[b]['size']))
                if v is not None: s.mem[k] = (v, None)
            else: s.vals[i.dst] = c[0]
            return
        self.clobber(s, i, name, args)
        v = self.fresh_result(s, i, origin=('call', name, tuple(args)))
        if v is not None:
            rr = self.cl.result_range(name)
            if rr:
                if rr[0] is not None: self.assume(s, const(rr[0]).sub(v))
                if rr[1] is not None: self.assume(s, v.sub(const(rr[1])))
    def clobber(self, s, i, name, args):
        if name in NOWRITE_EXT: return
        if i.byval: args = [ZERO if k in i.byval else a for k, a in enumerate(args)]     # the callee has its own copy
        f = self.m.funcs.get(name) if name else None
        if f is not None and not f.decl and self.modref is not None:
            self.modref.apply(self, s, name, args)
        elif name is None and self.modref is not None:
            for t in self.modref.indirect_targets(i): self.modref.apply(self, s, t, args)
        if name in WRITES_EXT and (f is None or f.decl):
            for k, n in WRITES_EXT[name].items():
                if k < len(args) and args[k].t: self._memset(s, args[k], ZERO, const(n))
            return
        # anything directly handed over
        if f is None or f.decl or self.modref is None or self.modref.writes_params(name):
            for a in args:
                b, _ = self.base(a)
                if b is not None: self.kill_base(s, b)
    def _intrinsic(self, s, i, name, args):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'): return self._memcpy(s, i, args)
        if name.startswith('llvm.memset'):
            self._memset(s, args[0], args[1], args[2]); return
        if i.dst is None: return
        m = name.split('.')[1]
        if m in ('smin', 'smax', 'umin', 'umax'):
            a, b = args; r = self.opaque(s, m, i.ty, [a, b]); s.vals[i.dst] = r
            la, ha = self.bounds(s, a); lb, hb = self.bounds(s, b)
            nn = lambda l: l is not None and l >= 0
            if m == 'smin' or (m == 'umin' and nn(la) and nn(lb)):
                self.assume(s, r.sub(a)); self.assume(s, r.sub(b))
                if nn(la) and nn(lb): self.assume(s, r.scale(-1))
            elif m == 'umin':
                for l, x in ((la, a), (lb, b)):
                    if nn(l): self.assume(s, r.sub(x)); self.assume(s, r.scale(-1))
            elif m == 'smax' or (nn(la) and nn(lb)):
                self.assume(s, a.sub(r)); self.assume(s, b.sub(r))
            return
        if m == 'bswap':
            r = self.opaque(s, 'bswap', i.ty, [args[0]]); s.vals[i.dst] = r
            self.ainfo.setdefault('#bswap', {})[args[0]] = (r, i.ty.n)
            self.ainfo['#bswap'][r] = (args[0], i.ty.n)
            return
        if m == 'abs':
            r = self.opaque(s, 'abs', i.ty, [args[0]]); s.vals[i.dst] = r; return
        if name.startswith('llvm.stacksave'):
            self.fresh_result(s, i); return
        self.fresh_result(s, i)
    def _memset(self, s, dst, val, n):
        b, off = self.base(dst)
        if n.isconst():
            dead = [k for k, v in s.mem.items() if k[0] != 'pure' and self.mayalias(s, dst, n.c, None, k[0], k[1], v[1])]
        else: dead = self._rangedead(s, b, dst, n)
        for k in dead: del s.mem[k]
    def _rangedead(self, s, b, dst, n):
        r = []
        for k in s.mem:
            if k[0] == 'pure' or self.base(k[0])[0] != b or self.cl.stable(self, k): continue
            d = dst.sub(k[0])
            if self.entails(s, d.add(n)) or self.entails(s, d.scale(-1).plus(k[1])): continue
            r.append(k)
        return r
    def _memcpy(self, s, i, args):
        d, sr, n = args[0], args[1], args[2]
        r = self.cl.store(self, s, i, d, n, None)
        if r is not None and not self.cl.splits: return r
        for z in [s] if r is None else r: self._copied(z, i, d, sr, n)
        return r
    def _copied(self, s, i, d, sr, n):
        self.cl.load(self, s, i, sr, n, None)
        copies = []
        if n.isconst() and n.c <= 256:
            for (k, v) in list(s.mem.items()):
                if k[0] == 'pure': continue
                df = k[0].sub(sr)
                if df.isconst() and 0 <= df.c and df.c + k[1] <= n.c:
                    copies.append(((d.plus(df.c), k[1]), v))
            if n.c in (1, 2, 4, 8) and not any(k == (d, n.c) for k, _ in copies):
                # materialise the source cell so both sides agree
                nm = self.variant('mc:%s:%d' % (i.block.name, i.idx), (sr, None))
                from ir import int_ty
                self._killatom(s, nm)
                v = self.mk(nm, int_ty(8 * n.c), deps=[x.dst for x in i.block.insts[:i.idx] if x.dst][-1:] or ['!mc'], origin=(sr, None))
                s.mem[(sr, n.c)] = (v, None); copies.append(((d, n.c), (v, None)))
            self._memset(s, d, None, n)
        else:
            b, _ = self.base(d)
            if b is not None:
                for k in self._rangedead(s, b, d, n): del s.mem[k]
        for k, v in copies: s.mem[k] = v
        if i.dst: s.vals[i.dst] = d

class ModRef:
    """class based mod/ref summaries over the (inlined) module"""
    def __init__(self, mod):
        self.m = mod
        self.addr_taken = {}
        self._direct = {}
        self._mod = {}
        for n, f in mod.funcs.items():
            if f.decl: continue
            st = set(); ld = set(); gl = set(); ca = set(); ind = []
            wp = False
            for i in f.insts():
                if i.op in ('store', 'load'):
                    t = mod.tbaa(i.tbaa)
                    b = _rootop(f, i.args[1] if i.op == 'store' else i.args[0])
                    if b == '&': continue                     # the function's own locals
                    x = ('@', b) if b else (t if t else ('?',))
                    (st if i.op == 'store' else ld).add(x)
                elif i.op == 'call':
                    if isinstance(i.extra, tuple) and i.extra and i.extra[0] == 'g': ca.add(i.extra[1])
                    elif i.extra and i.extra[0] != 'asm': ind.append(i)
            self._direct[n] = (st, ld, ca, ind)
        for n, f in mod.funcs.items():
            if f.decl: continue
            for i in f.insts():
                ops = list(i.args)
                for o in ops:
                    for g in _gnames(o):
                        if g in mod.funcs and not mod.funcs[g].decl: self.addr_taken.setdefault(g, []).append(i)
        for g in mod.globals.values():
            if g.init is not None:
                for x in _gnames(g.init):
                    if x in mod.funcs and not mod.funcs[x].decl: self.addr_taken.setdefault(x, []).append(g)
        self._tclos = {}
        self._rclos = {}
        # struct fields whose address is used for anything but a direct access
        self.escf = set(); self.known_structs = set()
        def fieldlist(ty, ops):
            # [(struct name, byte offset)] addressed by constant field indices at the end of a gep
            res = []; t = ty; acc = []
            for o in ops[2:]:
                if t.k == 'struct':
                    if t.name: self.known_structs.add(_sn(t.name))
                    fo = mod.field_off(t, o[1])
                    acc = [(nm, of + fo) for nm, of in acc] + ([(_sn(t.name), fo)] if t.name else [])
                    t = t.sub[o[1]]
                else:
                    sz = mod.size(t.sub)
                    acc = [(nm, of + o[1] * sz) for nm, of in acc] if o[0] == 'i' else []
                    t = t.sub
            return acc
        for f in mod.funcs.values():
            if f.decl: continue
            direct = {}
            uses = {}
            for i in f.insts():
                for k, o in enumerate(i.args):
                    if o[0] == 'r':
                        ok = i.op == 'load' or (i.op == 'store' and k == 1) or (i.op == 'icmp') or \
                            (i.op == 'call' and isinstance(i.extra, tuple) and i.extra[0] == 'g' and (str(i.extra[1]).startswith('llvm.') or str(i.extra[1]) in NOWRITE_EXT))
                        if i.op == 'getelementptr' and k == 0: ok = True    # judged at its own uses
                        if not ok: uses[o[1]] = True
            for i in f.insts():
                if i.op == 'getelementptr':
                    fl = fieldlist(i.extra, i.args)
                    if uses.get(i.dst): self.escf.update(fl)
        # globals whose address is only ever used as the address of a scalar load or store
        self.private = set(g for g in mod.globals)
        for f in mod.funcs.values():
            if f.decl: continue
            for i in f.insts():
                for k, o in enumerate(i.args):
                    if i.op == 'load' or (i.op == 'store' and k == 1):
                        if o[0] == 'g': continue
                    for g in _gnames(o): self.private.discard(g)
        for g in mod.globals.values():
            if g.init is not None:
                for x in _gnames(g.init): self.private.discard(x)
    def escaped_field(self, tag):
        n = _sn(tag[1])
        return n not in self.known_structs or (n, tag[2]) in self.escf
    def scalar_vs_field(self, a, b):
        """one of the two tags is a plain scalar access, the other a struct field of the same scalar type"""
        if a[4] and b[4]: return True
        return self.escaped_field(b if a[4] else a)
    def indirect_targets(self, inst):
        n = len(inst.args)
        return [f for f in self.addr_taken if len(self.m.funcs[f].params) == n]
    def closure(self, name, which):
        cache = self._tclos if which == 0 else self._rclos
        if name in cache: return cache[name]
        seen = set(); work = [name]; out = set()
        while work:
            x = work.pop()
            if x in seen: continue
            seen.add(x)
            d = self._direct.get(x)
            if d is None: continue
            out |= d[which]
            work += list(d[2])
            for i in d[3]: work += self.indirect_targets(i)
        cache[name] = out
        return out
    def writes_params(self, name): return True
    def apply(self, eng, s, name, args):
        mods = self.closure(name, 0)
        dead = []
        passed = set()
        for a in args:
            b, _ = eng.base(a)
            if b: passed.add(b)
        for k, v in s.mem.items():
            if k[0] == 'pure':
                if mods & self.closure(k[1], 1): dead.append(k)
                continue
            b, _ = eng.base(k[0])
            if b is not None and b.startswith('&') and b not in passed: continue
            if eng.cl.stable(eng, k): continue
            if b is not None and b[0] == '@' and ('@', b[1:]) in mods: dead.append(k); continue
            if v[1] is None: 
                if b in passed: dead.append(k)
                continue
            if v[1] in mods or any(len(t) == 5 and t[4] and t[3] == v[1][3] and 'char' not in t[3] and self.scalar_vs_field(t, v[1]) for t in mods): dead.append(k)
        for k in dead: del s.mem[k]
    def tag_hits(self, fname, tag, addr, eng):
        b, _ = eng.base(addr)
        if b is not None and b.startswith('&'): return False
        refs = self.closure(fname, 1)
        if b is not None and b[0] == '@': return ('@', b[1:]) in refs
        if tag is None: return False
        return tag in refs or (tag[4] and 'char' not in tag[3] and any(len(r) == 5 and r[3] == tag[3] and self.scalar_vs_field(tag, r) for r in refs))

def _evop(tag, cs, ty):
    import re
    m = re.match(r'(and|or|xor|shl|lshr|ashr|udiv|sdiv|urem|srem|mul|zx|bswap|umin|umax|smin|smax)(\d*)$', tag)
    if not m: return None
    op = m.group(1); n = int(m.group(2) or (ty.n if ty is not None and ty.k == 'int' else 64)); M = (1 << n) - 1
    u = [c & M for c in cs]
    sg = lambda x: x - (1 << n) if x >> (n - 1) & 1 else x
    try:
        if op == 'zx': return u[0]
        if op == 'and': return sg(u[0] & u[1])
        if op == 'or': return sg(u[0] | u[1])
        if op == 'xor': return sg(u[0] ^ u[1])
        if op == 'shl': return sg((u[0] << u[1]) & M) if u[1] < n else None
        if op == 'lshr': return sg(u[0] >> u[1]) if u[1] < n else None
        if op == 'ashr': return sg(u[0]) >> u[1] if u[1] < n else None
        if op == 'udiv': return sg(u[0] // u[1])
        if op == 'urem': return sg(u[0] % u[1])
        if op == 'mul': return sg((u[0] * u[1]) & M)
        if op == 'sdiv':
            a, b = sg(u[0]), sg(u[1]); q = abs(a) // abs(b); return q if (a < 0) == (b < 0) else -q
        if op == 'srem':
            a, b = sg(u[0]), sg(u[1]); r = abs(a) % abs(b); return -r if a < 0 else r
    except ZeroDivisionError: return None
    return None
def _sn(n):
    import re
    return re.sub(r'^(struct|union)\.', '', n.strip('%"')) if n else n
def _rootop(f, o, d=0):
    """'&' for a local, the name for a global, None otherwise"""
    if o[0] == 'g': return o[1]
    if o[0] == 'ce' and o[1] in ('getelementptr', 'bitcast'): return _rootop(f, o[3][0], d)
    if o[0] == 'r' and d < 20:
        x = f.defmap().get(o[1])
        if x is None: return None
        if x.op == 'alloca': return '&'
        if x.op in ('getelementptr', 'bitcast'): return _rootop(f, x.args[0], d + 1)
    return None
def _gnames(o):
    if not isinstance(o, tuple): return
    if o[0] == 'g': yield o[1]
    elif o[0] == 'ce':
        for x in o[3]: yield from _gnames(x)
    elif o[0] == 'agg':
        for x in o[2]: yield from _gnames(x)

def _scc(blocks, succ):
    """Tarjan, returns components in topological order"""
    idx = {}; low = {}; on = set(); st = []; out = []; cnt = 0
    for root in blocks:
        if root in idx: continue
        work = [(root, iter(succ(root)))]
        idx[root] = low[root] = cnt; cnt += 1; st.append(root); on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = cnt; cnt += 1; st.append(w); on.add(w)
                    work.append((w, iter(succ(w)))); break
                elif w in on: low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop(); on.discard(w); c.append(w)
                        if w is v: break
                    out.append(c)
    out.reverse()
    return out
