"""Linear integer expressions and a small relational domain (conjunctions of
linear inequalities) with Fourier-Motzkin entailment.  Used as the abstract
domain of the dataflow engine."""
from math import gcd

class Lin:
    __slots__ = ('c', 't', '_h')
    def __init__(self, c, t=()):
        self.c = c; self.t = t; self._h = hash((c, t))
    def __hash__(self): return self._h
    def __eq__(self, o): return isinstance(o, Lin) and self.c == o.c and self.t == o.t
    def __ne__(self, o): return not self == o
    def isconst(self): return not self.t
    def atoms(self): return [a for a, _ in self.t]
    def coef(self, a):
        for x, k in self.t:
            if x == a: return k
        return 0
    def add(self, o, k=1):
        if not o.t: return Lin(self.c + k * o.c, self.t)
        d = dict(self.t)
        for a, v in o.t:
            n = d.get(a, 0) + k * v
            if n: d[a] = n
            else: d.pop(a, None)
        return Lin(self.c + k * o.c, tuple(sorted(d.items())))
    def sub(self, o): return self.add(o, -1)
    def scale(self, k):
        if k == 0: return ZERO
        return Lin(self.c * k, tuple((a, v * k) for a, v in self.t))
    def plus(self, k): return Lin(self.c + k, self.t)
    def subst(self, a, e):
        k = self.coef(a)
        if not k: return self
        return Lin(self.c, tuple(x for x in self.t if x[0] != a)).add(e, k)
    def __repr__(self):
        s = ' + '.join(('%s' % a) if k == 1 else '%d*%s' % (k, a) for a, k in self.t)
        if self.c or not s: s = (s + ' + ' if s else '') + str(self.c)
        return s

ZERO = Lin(0)
def const(c): return Lin(c)
def atom(a): return Lin(0, ((a, 1),))

def norm(e):
    """normalise e <= 0 : divide by gcd of coefficients, round const up"""
    if not e.t: return e
    g = 0
    for _, k in e.t: g = gcd(g, k)
    if g > 1:
        # sum <= -c/g  -> c' = ceil(c/g)
        return Lin(-((-e.c) // g), tuple((a, k // g) for a, k in e.t))
    return e

MAXC = 600
def infeasible(cons, rng, seed_atoms=None):
    """cons: iterable of Lin (<=0). rng(atom)->(lo,hi) intrinsic. True when the
    conjunction has no rational solution (sound: True means really empty)."""
    work = set()
    for e in cons:
        e = norm(e)
        if not e.t:
            if e.c > 0: return True
            continue
        work.add(e)
    if not work: return False
    # restrict to component connected to seed
    if seed_atoms is not None:
        comp = set(seed_atoms); changed = True; sel = set(); rest = list(work)
        while changed:
            changed = False; nr = []
            for e in rest:
                if any(a in comp for a, _ in e.t):
                    sel.add(e); comp.update(a for a, _ in e.t); changed = True
                else: nr.append(e)
            rest = nr
        work = sel
    atoms = set(a for e in work for a, _ in e.t)
    for a in atoms:
        lo, hi = rng(a)
        if lo is not None: work.add(Lin(lo, ((a, -1),)))
        if hi is not None: work.add(Lin(-hi, ((a, 1),)))
    work = _reduce(work)
    if work is None: return True
    work = _gauss(work)
    if work is None: return True
    # quick interval pass
    while True:
        cnt = {}
        for e in work:
            for a, k in e.t:
                p, n = cnt.get(a, (0, 0))
                if k > 0: cnt[a] = (p + 1, n)
                else: cnt[a] = (p, n + 1)
        if not cnt: return False
        a = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1], x))
        pos = []; neg = []; oth = []
        for e in work:
            k = e.coef(a)
            if k > 0: pos.append((k, e))
            elif k < 0: neg.append((-k, e))
            else: oth.append(e)
        new = set(oth)
        if len(pos) * len(neg) + len(oth) > MAXC * 4: return False
        for kp, p in pos:
            for kn, n in neg:
                e = norm(p.scale(kn).add(n, kp))
                if not e.t:
                    if e.c > 0: return True
                    continue
                new.add(e)
        work = _reduce(new)
        if work is None: return True
        if len(work) > MAXC: return False

def _reduce(work):
    best = {}
    for e in work:
        if not e.t:
            if e.c > 0: return None
            continue
        o = best.get(e.t)
        if o is None or e.c > o: best[e.t] = e.c
    # opposite pairs quick contradiction
    for t, c in best.items():
        nt = tuple((a, -k) for a, k in t)
        if nt in best and best[nt] + c > 0: return None
    return set(Lin(c, t) for t, c in best.items())

def _gauss(work):
    """eliminate the unknowns that equalities (pairs of opposite inequalities) define"""
    for _ in range(40):
        d = {e.t: e.c for e in work}; eq = None
        for e in work:
            if len(e.t) < 2: continue
            if e.t[0][1] > 0 and d.get(tuple((a, -k) for a, k in e.t)) == -e.c:
                for a, k in e.t:
                    if k == 1 or k == -1:
                        key = (len(e.t), repr(e), a)
                        if eq is None or key < eq[0]: eq = (key, e, a, k)
                        break
        if eq is None: return work
        _, e, a, k = eq
        x = atom(a).sub(e.scale(k))
        new = set()
        for q in work:
            if q.coef(a):
                q = norm(q.subst(a, x))
                if not q.t:
                    if q.c > 0: return None
                    continue
            new.add(q)
        work = _reduce(new)
        if work is None: return None
    return work
