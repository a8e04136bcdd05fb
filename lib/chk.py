"""Common driver of all checks: obligations, violations, known findings, evidence."""
import json, os, sys, time, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Broken(Exception):
    """the analysis cannot give an answer (anchor vanished, construct not understood)"""

class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier
        self.obl = 0; self.ok = 0
        self.viol = {}              # key -> (where, message)
        self.counts = {}
        self.samples = []
        self.assumptions = []
        self.trusted = []
        self.rule = ''
        self.minimum = {}
        self.unresolved = {}
        self._seen = {}
    def oblige(self, key, good, where, msg):
        """one proof obligation, key identifies the construct; the same construct may be evaluated
        several times (disjuncts) : it is discharged when all evaluations are."""
        o = self._seen.get(key)
        if o is None: self._seen[key] = o = [True, where, msg]
        if not good and o[0]:
            o[0] = False; o[1] = where; o[2] = msg
    def reset(self, keys):
        for k in keys: self._seen.pop(k, None)
    def count(self, what, n=1): self.counts[what] = self.counts.get(what, 0) + n
    def require(self, what, n):
        """at least n instances must have been analysed"""
        self.minimum[what] = n
    def sample(self, s):
        if len(self.samples) < 12 and s not in self.samples: self.samples.append(s)

def _work(a):
    fn, pid, tier, item = a
    c = Ctx(pid, tier)
    try: fn(c, item)
    except Exception as e:
        return ('ERR', item, '%s\n%s' % (e, traceback.format_exc()), c._seen)
    return ('OK', c._seen, c.counts, c.samples, c.assumptions, c.unresolved)

def parallel(ctx, fn, items):
    """run fn(subctx, item) for every item in forked workers and merge"""
    import multiprocessing as mp
    from concurrent.futures import ProcessPoolExecutor
    items = list(items); errs = []
    n = min(8, os.cpu_count() or 1, max(1, len(items)))
    with ProcessPoolExecutor(n, mp_context=mp.get_context('fork')) as ex:
        for r in ex.map(_work, [(fn, ctx.pid, ctx.tier, it) for it in items]):
            seen = r[3] if r[0] == 'ERR' else r[1]
            for k, o in seen.items(): ctx.oblige(k, o[0], o[1], o[2])
            if r[0] == 'ERR': errs.append(r); continue
            for k, v in r[2].items(): ctx.count(k, v)
            for x in r[3]: ctx.sample(x)
            for x in r[4]:
                if x not in ctx.assumptions: ctx.assumptions.append(x)
            ctx.unresolved.update(r[5])
    if errs: raise Broken('analysis of %s failed: %s' % (errs[0][1], errs[0][2]))

def known(pid):
    r = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                rest = l.split(' ', 2)[2]
                key, _, txt = rest.partition(' :: ')
                r.append((key.strip(), txt.strip()))
    return r

def main(pid, run, tier):
    t0 = time.time()
    ctx = Ctx(pid, tier)
    try:
        run(ctx)
        for k, n in ctx.minimum.items():
            if ctx.counts.get(k, 0) < n:
                raise Broken('only %d of at least %d %s found: the rule no longer sees the code it decides about'
                             % (ctx.counts.get(k, 0), n, k))
    except Exception as e:
        bad0 = [(k, o) for k, o in ctx._seen.items() if not o[0]]
        if not bad0:
            traceback.print_exc()
            print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
            sys.exit(3)
        traceback.print_exc()
    total = len(ctx._seen); bad = [(k, o) for k, o in ctx._seen.items() if not o[0]]
    kn = known(pid); unl = []; used = set()
    for k, o in bad:
        ks = '/'.join(str(x) for x in k) if isinstance(k, tuple) else str(k)
        hit = [x for x in kn if x[0] == ks]
        if hit:
            used.add(hit[0]); print('KNOWN-FINDING: property=%s %s' % (pid, hit[0][1] or ks))
        else: unl.append((ks, o))
    cov = {'obligations': total, 'discharged': total - len(bad), 'rule': ctx.rule, 'counts': ctx.counts,
           'samples': ctx.samples or [str(k) for k in list(ctx._seen)[:8]],
           'checker_cmd': 'python3 /verif/check.py %s --tier %s' % (pid, tier),
           'trusted_base': ['clang-18 front end and the LLVM passes sroa, early-cse, instcombine, jump-threading, always-inline',
                            '/verif/lib (IR parser, abstract interpreter, linear entailment)'] + ctx.trusted,
           'explanation': ctx.rule}
    if ctx.unresolved: cov['not_decided'] = {str(k): v for k, v in ctx.unresolved.items()}
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'proof',
          'coverage': cov, 'assumptions': ctx.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(unl)}
    d = os.path.join(HERE, 'evidence'); os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, pid + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %s, %.1fs' % (pid, total, total - len(bad), ctx.counts, time.time() - t0))
    if unl:
        rp = os.path.join(d, pid + '.violations.txt')
        with open(rp, 'w') as f:
            for ks, o in unl: f.write('%s\n  at %s\n  %s\n' % (ks, o[1], o[2]))
        for ks, o in unl[:20]: print('  violated: %s\n    at %s\n    %s' % (ks, o[1], o[2]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        sys.exit(1)
    sys.exit(0)
