"""Interprocedural lock and exchange typestate analysis (property simulation).

State of one path   : locks held (with counts), progress of the request/reply exchange, what has
                      been looked at since the lock was taken, wake-ups that are still owed,
                      exclusive phase (thread not published yet).
Path sensitivity    : facts "SSA value is zero / is not zero"; paths with equal states are merged and
                      keep the facts they agree on.
Calls               : functions of the module are analysed per entry state (summaries, fixpoint over
                      recursion); anything else does not touch the locks.
"""
import chk, server
from irbuild import callees

LOCK = {'pthread_mutex_lock'}; UNLOCK = {'pthread_mutex_unlock'}
WAIT = {'pthread_cond_wait', 'pthread_cond_timedwait'}
SIG = {'pthread_cond_signal', 'pthread_cond_broadcast'}
JUMP = {'lua_error', 'luaL_error', 'longjmp', '_longjmp', 'siglongjmp', 'pthread_exit'}

class St:
    __slots__ = ('held', 'pend', 'seen', 'owe', 'pre', 'fail', 'match')
    def __init__(self, held=(), pend='', seen=frozenset(), owe=frozenset(), pre=False, fail='', match=False):
        self.held, self.pend, self.seen, self.owe, self.pre, self.fail, self.match = held, pend, seen, owe, pre, fail, match
    def key(self): return (self.held, self.pend, self.seen, self.owe, self.pre, self.fail, self.match)
    def __eq__(self, o): return self.key() == o.key()
    def __hash__(self): return hash(self.key())
    def w(self, **k):
        n = St(*self.key())
        for a, b in k.items(): setattr(n, a, b)
        return n
    def has(self, m): return any(a == m for a, _ in self.held)
    def take(self, m):
        d = dict(self.held); d[m] = d.get(m, 0) + 1
        return self.w(held=tuple(sorted(d.items())))
    def drop(self, m):
        d = dict(self.held); d[m] -= 1
        if d[m] == 0: del d[m]
        return self.w(held=tuple(sorted(d.items())))

def fname(m, sty, idx):
    """name of field idx of an IR struct type, by its offset in the debug info"""
    n = (sty.name or '').replace('struct.', '').split('.')[0]
    c = m.__dict__.setdefault('_fn', {})
    if n not in c: c[n] = m.di_struct_fields(n)
    return '%s.%s' % (n, c[n].get(m.field_off(sty, idx), '#%d' % idx))

class Locks:
    def __init__(self, ctx, m, name, api=(), guards=None, deep=None, types=None, waits=None, wake=None, exchange=None, rules=(), failzero=()):
        """guards {object: mutex}; deep: pointer objects whose pointees are guarded too; types {struct: mutex};
        waits {cond: objects}; wake {object: (cond, kind)}; exchange (send mutex, fd object, reply object)"""
        self.ctx, self.m, self.name = ctx, m, name
        self.api = set(api); self.guards = guards or {}; self.deep = deep or {}; self.types = types or {}
        self.waits = waits or {}; self.wake = wake or {}; self.exchange = exchange; self.rules = set(rules); self.failzero = set(failzero)
        self.sums = {}; self.changed = False; self.order = {}; self.active = set(); self.deps = {}
        self.reach = {}
        self.find_roots()
        self.rec = self.recursive()
        self.receivers = set()
        if exchange:
            conn = set(); w = list(self.threads)
            while w:
                n = w.pop(); f = m.funcs.get(n)
                if n in conn or f is None or f.decl: continue
                conn.add(n); w += [c for c, _ in callees(f)]
            for f in m.funcs.values():
                if not f.decl and f.ret is not None and f.ret.k == 'int' and f.name not in conn and \
                   any(i.op == 'load' and self.obj(f, i.args[0]) == exchange[2] for i in f.insts()): self.receivers.add(f.name)

    # ---------------------------------------------------------------- module facts
    def find_roots(self):
        m = self.m; taken = set(); self.threads = set()
        def scan(o):
            if not isinstance(o, tuple) or not o: return
            if o[0] == 'g' and o[1] in m.funcs and not m.funcs[o[1]].decl: taken.add(o[1])
            for x in o[1:]:
                if isinstance(x, tuple): scan(x)
                elif isinstance(x, list):
                    for y in x: scan(y) if isinstance(y, tuple) else None
        for f in m.funcs.values():
            if f.decl: continue
            for i in f.insts():
                for k, a in enumerate(i.args):
                    scan(a)
                    if i.op == 'call' and i.extra == ('g', 'pthread_create') and k == 2 and a[0] == 'g': self.threads.add(a[1])
        for g in m.globals.values():
            for o in (getattr(g, 'initops', None) or ()):
                if isinstance(o, str):
                    if o in m.funcs and not m.funcs[o].decl: taken.add(o)
                else: scan(o)
        self.taken = taken
        self.roots = sorted((taken | (self.api & set(n for n, f in m.funcs.items() if not f.decl)) |
                             ({'main'} if 'main' in m.funcs else set())))
    def obj(self, f, o, env=None, depth=0):
        """identity of the object an address operand names: (kind, ...)"""
        if depth > 12: return None
        if o[0] == 'g': return o[1]
        if o[0] == 'ce' and o[1] in ('getelementptr', 'bitcast') and o[3]:
            return self.obj(f, o[3][0], env, depth + 1)
        if o[0] != 'r': return None
        for k, (pn, _) in enumerate(f.params):
            if pn == o[1]: return (env or {}).get(k)
        i = f.defmap().get(o[1])
        if i is None: return None
        if i.op == 'getelementptr':
            st = i.extra
            if st.k == 'struct' and len(i.args) >= 3 and i.args[2][0] == 'i':
                sub = st.sub[i.args[2][1]] if i.args[2][1] < len(st.sub) else None
                return fname(self.m, st, i.args[2][1])
            return self.obj(f, i.args[0], env, depth + 1) if len(i.args) >= 3 or st.k == 'struct' else None
        if i.op in ('bitcast', 'freeze'): return self.obj(f, i.args[0], env, depth + 1)
        if i.op == 'select':
            a, b = self.obj(f, i.args[1], env, depth + 1), self.obj(f, i.args[2], env, depth + 1)
            return a if a == b else None
        return None
    def root(self, f, o, depth=0):
        """(kind, inst|name) the address is computed from, and struct types met on the way"""
        ty = set(); n = 0
        while n < 40:
            n += 1
            if o[0] == 'g': return ('global', o[1]), ty
            if o[0] != 'r': return ('other', None), ty
            i = f.defmap().get(o[1])
            if i is None: return ('param', o[1]), ty
            if i.op == 'getelementptr':
                if i.extra.k == 'struct' and i.extra.name: ty.add(i.extra.name.replace('struct.', '').split('.')[0])
                o = i.args[0]; continue
            if i.op in ('bitcast', 'freeze'): o = i.args[0]; continue
            if i.op == 'call' and i.extra in (('g', 'malloc'), ('g', 'calloc')): return ('fresh', i), ty
            if i.op == 'alloca': return ('alloca', i), ty
            if i.op == 'load': return ('load', i), ty
            return (i.op, i), ty
        return ('other', None), ty
    def recursive(self):
        res = {}; kinds = set()
        for f in self.m.funcs.values():
            if f.decl: continue
            for c, i in callees(f):
                if c == 'pthread_mutexattr_settype': kinds.add(i.args[1][1] if i.args[1][0] == 'i' else None)
        for f in self.m.funcs.values():
            if f.decl: continue
            for c, i in callees(f):
                if c == 'pthread_mutex_init':
                    o = self.obj(f, i.args[0])
                    r = i.args[1][0] != 'n' and kinds == {1}
                    res[o] = res.get(o, True) and r
        self.mutexes = set(res)
        return set(o for o, r in res.items() if r and o)

    # ---------------------------------------------------------------- obligations
    def ob(self, rule, f, i, good, msg, st=None):
        if self.rules and rule not in self.rules: return
        if i is None: w = f.name; loc = f.name
        else: w = server.where(self.m, i); loc = '%s:%s' % (f.name, self.ordinal(f, i))
        self.ctx.oblige((self.name, rule, loc), good, w, msg)
    def ordinal(self, f, i):
        """stable within one function: n-th call/access of its kind"""
        c = f.__dict__.get('_ord')
        if c is None:
            c = f.__dict__['_ord'] = {}; cnt = {}
            for x in f.insts():
                k = x.extra[1] if x.op == 'call' and isinstance(x.extra, tuple) and x.extra[0] == 'g' else x.op
                cnt[k] = cnt.get(k, 0) + 1; c[id(x)] = '%s#%d' % (k, cnt[k])
        return c[id(i)]

    # ---------------------------------------------------------------- facts
    def val(self, f, o, facts):
        if o[0] == 'i': return 'Z' if o[1] == 0 else 'N'
        if o[0] in ('n', 'z'): return 'Z'
        if o[0] == 'r': return self.look(facts, o[1])
        if o[0] == 'g': return 'N'
        return None
    def look(self, facts, k):
        v = facts.get(k); n = 0
        while isinstance(v, tuple) and n < 20: k = v[1]; v = facts.get(k); n += 1
        return None if isinstance(v, tuple) else v
    def forget(self, facts, k):
        """k gets a new value: what was known about copies of the old one stays"""
        old = facts.pop(k, None)
        for a in [a for a, v in facts.items() if v == ('=', k)]:
            if old is None: del facts[a]
            else: facts[a] = old
    def slot(self, f, o):
        i = f.defmap().get(o[1]) if o[0] == 'r' else None
        return '@' + o[1] if i is not None and i.op == 'alloca' else None
    def escapes(self, f):
        """local variables whose address is stored or computed with"""
        e = f.__dict__.get('_esc')
        if e is None:
            al = set(i.dst for i in f.insts() if i.op == 'alloca'); e = set()
            for i in f.insts():
                for k, a in enumerate(i.args):
                    if a[0] == 'r' and a[1] in al and not (i.op == 'load' or i.op == 'store' and k == 1 or i.op == 'call'): e.add('@' + a[1])
            f.__dict__['_esc'] = e
        return e
    def learn(self, f, o, truth, facts, depth=0):
        """assume operand o (i1 or any) is non-zero (truth) / zero; False when impossible"""
        v = self.val(f, o, facts)
        if v is not None and (v == 'N') != truth: return False
        if o[0] != 'r' or depth > 20: return True
        i = f.defmap().get(o[1])
        if isinstance(facts.get(o[1]), tuple):
            if not self.learn(f, ('r', facts[o[1]][1], None), truth, facts, depth + 1): return False
        else: facts[o[1]] = 'N' if truth else 'Z'
        if i is None: return True
        if i.op == 'icmp':
            a, b = i.args; p = i.extra
            if a[0] != 'r' and b[0] == 'r': a, b = b, a; p = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(p, p)
            bz = self.val(f, b, facts)
            if p in ('eq', 'ne'):
                eq = (p == 'eq') == truth
                if bz == 'Z': return self.learn(f, a, not eq, facts, depth + 1)
                if eq and bz == 'N': return self.learn(f, a, True, facts, depth + 1)
                az = self.val(f, a, facts)
                if eq and az == 'Z': return self.learn(f, b, False, facts, depth + 1)
                if not eq and az == 'Z': return self.learn(f, b, True, facts, depth + 1)
            elif b[0] == 'i' and b[0:1] == ('i',):
                c = b[1]
                q = {'slt': lambda x: x < c, 'sgt': lambda x: x > c, 'sle': lambda x: x <= c, 'sge': lambda x: x >= c,
                     'ult': None, 'ugt': None, 'ule': None, 'uge': None}.get(p)
                if q is not None and q(0) != truth: return self.learn(f, a, True, facts, depth + 1)
                if p == 'ugt' and c == 0: return self.learn(f, a, truth, facts, depth + 1)
                if p == 'ult' and c == 1: return self.learn(f, a, not truth, facts, depth + 1)
        elif i.op == 'and' and truth or i.op == 'or' and not truth:
            if i.ty.k == 'int' and i.ty.n == 1 or i.op == 'or':
                return all(self.learn(f, x, truth, facts, depth + 1) for x in i.args)
            return True
        elif i.op == 'select' and i.ty.k == 'int' and i.ty.n == 1:
            c, a, b = i.args
            if truth and self.val(f, b, facts) == 'Z': return self.learn(f, c, True, facts, depth + 1) and self.learn(f, a, True, facts, depth + 1)
            if not truth and self.val(f, a, facts) == 'N': return self.learn(f, c, False, facts, depth + 1) and self.learn(f, b, False, facts, depth + 1)
        elif i.op == 'xor' and i.ty.n == 1 and i.args[1][0] == 'i': return self.learn(f, i.args[0], not truth if i.args[1][1] else truth, facts, depth + 1)
        elif i.op in ('zext', 'sext', 'freeze'): return self.learn(f, i.args[0], truth, facts, depth + 1)
        return True
    def derive(self, f, i, facts):
        """fact about the result of an instruction"""
        self.forget(facts, i.dst)
        if i.op in ('zext', 'sext', 'freeze', 'bitcast'):
            v = self.val(f, i.args[0], facts)
        elif i.op == 'icmp' and i.extra in ('eq', 'ne'):
            a, b = (self.val(f, x, facts) for x in i.args); v = None
            if a and b and ('Z' in (a, b)) and not (a == b == 'N'):
                v = 'N' if (a == b) == (i.extra == 'eq') else 'Z'
        elif i.op == 'xor' and i.ty.k == 'int' and i.ty.n == 1 and i.args[1][0] == 'i' and i.args[1][1]:
            v = {'N': 'Z', 'Z': 'N'}.get(self.val(f, i.args[0], facts))
        elif i.op == 'or':
            vs = [self.val(f, x, facts) for x in i.args]
            v = 'N' if 'N' in vs else 'Z' if vs == ['Z', 'Z'] else None
        elif i.op == 'and':
            v = 'Z' if 'Z' in [self.val(f, x, facts) for x in i.args] else None
        elif i.op == 'select':
            c = self.val(f, i.args[0], facts)
            a, b = self.val(f, i.args[1], facts), self.val(f, i.args[2], facts)
            if c == 'N': v = a
            elif c == 'Z': v = b
            else:
                v = a if a == b else None
        else: v = None
        if v: facts[i.dst] = v

    # ---------------------------------------------------------------- accesses
    def access(self, f, i, o, env, st, write):
        if o[0] == 'n': return st
        ob = self.obj(f, o, env)
        (rk, ri), tys = self.root(f, o)
        if rk in ('fresh', 'alloca'): return st
        need = None; what = ob
        if ob in self.guards: need = self.guards[ob]
        elif rk == 'load':
            base = self.obj(f, ri.args[0], env)
            if base in self.deep and ob not in self.guards: need = self.deep[base]; what = '*' + base
        if need is None:
            for t in tys:
                if t in self.types: need = self.types[t]; what = t
        if ob == 'dax_state.last_msg' or (self.exchange and ob == self.exchange[2]):
            st = self.reply_seen(f, i, st, write)
        if need is None: return st
        self.ctx.count('accesses to shared data')
        ok = st.pre or st.has(need)
        self.ob('guard', f, i, ok, '%s is %s without holding %s%s' % (what, 'written' if write else 'read', need, self.path(f)), st)
        if not write and ok and st.has(need): st = st.w(seen=st.seen | {need})
        return st
    def reply_seen(self, f, i, st, write):
        if not self.exchange or write: return st
        if st.pend == 'lost':
            self.ob('exchange', f, i, False, 'the lock was released between sending the request and waiting for its reply%s' % self.path(f), st)
            return st.w(pend='')
        if st.pend in ('sent', 'sending'):
            self.ob('exchange', f, i, True, '', st)
            return st.w(pend='')
        return st
    def path(self, f): return ' (reached from %s)' % self.cur if self.cur != f.name else ''

    # ---------------------------------------------------------------- calls
    def call(self, f, i, env, st, facts):
        """-> list of (state, retfact)"""
        if i.extra and i.extra[0] == 'asm': return [(st, None)]
        if not (isinstance(i.extra, tuple) and i.extra[0] == 'g'):
            nr = [m for m, _ in st.held if m not in self.rec]
            tg = self.internal_target(f, i)
            if not tg and not self.api:      # a program: the callee is one of its own functions
                tg = set(n for n in self.taken if len(self.m.funcs[n].params) == len(i.args)) - self.threads
                if not tg: return [(st, None)]
            if tg:
                out = []
                for c in sorted(tg):
                    if not self.m.funcs[c].decl: out += self.summary(c, st, (), ())
                    else: out.append((st, None))
                return out
            if True:
                self.ctx.count('calls of callbacks')
                self.ob('callback', f, i, not nr, 'a callback is called while %s is held: it deadlocks when it uses the library' % ', '.join(map(str, nr)), st)
            return [(st, None)]
        c = i.extra[1]
        if c in LOCK:
            m = self.obj(f, i.args[0], env); self.ctx.count('lock operations')
            if m is None: raise chk.Broken('%s: cannot tell which mutex is locked' % server.where(self.m, i))
            if st.has(m):
                self.ob('relock', f, i, m in self.rec, '%s is locked again by the thread that holds it%s' % (m, self.path(f)), st)
                if m not in self.rec: return []
                if dict(st.held)[m] > 6:
                    self.ob('leak', f, i, False, '%s is locked again and again without being released' % m, st); return []
            else: self.ob('relock', f, i, True, '', st)
            for h, _ in st.held:
                if h != m: self.order.setdefault((h, m), (f, i))
            return [(st.take(m), 'Z')]
        if c in UNLOCK:
            m = self.obj(f, i.args[0], env); self.ctx.count('lock operations')
            if m is None: raise chk.Broken('%s: cannot tell which mutex is unlocked' % server.where(self.m, i))
            self.ob('unlock', f, i, st.has(m), '%s is unlocked but not held here%s' % (m, self.path(f)), st)
            if not st.has(m): return [(st, 'Z')]
            n = st.drop(m)
            if not n.has(m):
                n = n.w(seen=n.seen - {m})
                if self.exchange and m == self.exchange[0] and n.pend: n = n.w(pend='lost')
            return [(n, 'Z')]
        if c in WAIT:
            m = self.obj(f, i.args[1], env); cv = self.obj(f, i.args[0], env); self.ctx.count('waits')
            self.ob('wait', f, i, st.has(m) and dict(st.held)[m] == 1, 'waits for %s without holding %s exactly once%s' % (cv, m, self.path(f)), st)
            others = [h for h, _ in st.held if h != m and not (self.exchange and h == self.exchange[0])]
            self.ob('wait', f, i, not others, 'waits for %s while it holds %s' % (cv, others), st)
            if m in set(self.guards.values()):
                self.ob('lostwakeup', f, i, m in st.seen, 'waits for %s without having looked at what it waits for since it took %s: a wake-up that came before is lost' % (cv, m), st)
            return [(st.w(seen=st.seen - {m}), None)]
        if c in SIG:
            return [(st.w(owe=st.owe - {self.obj(f, i.args[0], env)}), None)]
        if c in ('pthread_barrier_wait',):
            return [(st.w(pre=False), None)]
        if c == 'pthread_mutex_destroy':
            return [(st.w(pre=True), None)]
        if c in JUMP:
            self.ob('leak', f, i, not st.held, '%s leaves the function while %s is held' % (c, [str(h) for h, _ in st.held]), st)
            return []
        g = self.m.funcs.get(c)
        if g is not None and not g.decl:
            e2 = {k: self.obj(f, a, env) for k, a in enumerate(i.args) if a[0] in ('r', 'g', 'ce') and self.obj(f, a, env)}
            e2 = {k: v for k, v in e2.items() if v in self.mutexes or v in self.guards}
            ef = {k: self.val(f, a, facts) for k, a in enumerate(i.args) if self.val(f, a, facts)}
            # a lock that the thread may take again: the callee only sees that it is held
            extra = {h: n - 1 for h, n in st.held if h in self.rec and n > 1}
            s1 = st.w(held=tuple((h, 1 if h in extra else n) for h, n in st.held)) if extra else st
            res = self.summary(c, s1, tuple(sorted(e2.items())), tuple(sorted(ef.items())))
            if not extra: return res
            out = []
            for s2, r in res:
                d = dict(s2.held)
                for h, n in extra.items(): d[h] = d.get(h, 0) + n
                out.append((s2.w(held=tuple(sorted(d.items()))), r))
            return out
        if c in ('write', 'send', 'writev', 'sendmsg') and self.exchange:
            self.ctx.count('socket writes')
            ok = st.pre or st.has(self.exchange[0])
            self.ob('exchange', f, i, ok, 'a request is written to the socket without holding %s%s' % (self.exchange[0], self.path(f)), st)
            if st.pre: return [(st, None)]
            self.ob('exchange', f, i, st.pend != 'sent', 'a second request is sent before the reply to the first was awaited%s' % self.path(f), st)
            return [(st.w(pend='sending'), None)]
        for a in i.args:
            if c.startswith('llvm.mem') or c in ('memcpy', 'memmove', 'memset', 'strcpy', 'strncpy', 'strlen', 'strcmp', 'strdup'):
                if a[0] == 'r': st = self.access(f, i, a, env, st, False)
        return [(st, None)]
    def internal_target(self, f, i):
        """indirect call through a value that is one of our own functions (select/phi of functions)"""
        o = i.extra; work = [o]; seen = set(); res = set()
        while work:
            o = work.pop()
            if not isinstance(o, tuple): return None
            if o[0] == 'g':
                if o[1] not in self.m.funcs: return None
                res.add(o[1]); continue
            if o[0] in ('n', 'u'): continue
            if o[0] != 'r': return None
            if o[1] in seen: continue
            seen.add(o[1]); d = f.defmap().get(o[1])
            if d is None or d.op not in ('phi', 'select'): return None
            work += d.args if d.op == 'phi' else d.args[1:]
        return res

    # ---------------------------------------------------------------- function
    def summary(self, name, st, env, ef):
        key = (name, st.key(), env, ef)
        if key in self.sums and (key in self.done or key in self.active):
            return [(St(*k), r) for k, r in self.sums[key]]
        self.active.add(key)
        old = self.sums.get(key, frozenset())
        self.sums[key] = old
        res = self.function(name, st, dict(env), dict(ef))
        new = frozenset((s.key(), r) for s, r in res) | old
        if new != self.sums[key]: self.changed = True
        self.sums[key] = new
        self.active.discard(key); self.done.add(key)
        return [(St(*k), r) for k, r in new]
    def function(self, name, st0, env, ef):
        f = self.m.funcs[name]; self.ctx.count('function contexts')
        facts0 = {f.params[k][0]: v for k, v in ef.items() if k < len(f.params)}
        writes = any(c in ('write', 'send', 'writev', 'sendmsg') for c, _ in callees(f))
        inn = {}            # (block, state key) -> facts
        work = [(f.blocks[0], st0, facts0)]
        inn[(f.blocks[0].name, st0.key())] = facts0
        exits = {}
        todo = [(f.blocks[0].name, st0.key())]
        n = 0
        while todo:
            n += 1
            if n > 60000: raise chk.Broken('%s: too many lock states' % name)
            bk = todo.pop()
            b = f.bmap[bk[0]]; cur = [(St(*bk[1]), dict(inn[bk]))]
            for i in b.insts:
                nxt = []
                for st, fa in cur:
                    if i.op == 'phi': nxt.append((st, fa)); continue
                    if i.op == 'call':
                        if isinstance(i.extra, tuple) and i.extra[0] == 'g' and (i.extra[1].startswith('llvm.dbg') or i.extra[1].startswith('llvm.lifetime')):
                            nxt.append((st, fa)); continue
                        for s2, r in self.call(f, i, env, st, fa):
                            f2 = dict(fa)
                            for a in i.args:
                                if self.slot(f, a): self.forget(f2, self.slot(f, a))
                            for a in self.escapes(f): self.forget(f2, a)
                            if i.dst:
                                self.forget(f2, i.dst)
                                if r: f2[i.dst] = r
                            nxt.append((s2, f2))
                        continue
                    if i.op == 'load':
                        st = self.access(f, i, i.args[0], env, st, False); self.forget(fa, i.dst)
                        sl = self.slot(f, i.args[0])
                        if sl and sl not in self.escapes(f):
                            if sl in fa: fa[i.dst] = fa[sl]
                            else: fa[sl] = ('=', i.dst)
                    elif i.op == 'store':
                        st = self.access(f, i, i.args[1], env, st, True)
                        st = self.stored(f, i, env, st, fa)
                        sl = self.slot(f, i.args[1])
                        if sl and sl not in self.escapes(f):
                            self.forget(fa, sl); v = i.args[0]
                            if v[0] == 'r': fa[sl] = ('=', v[1]) if not isinstance(fa.get(v[1]), tuple) else fa[v[1]]
                            elif self.val(f, v, fa): fa[sl] = self.val(f, v, fa)
                    elif i.op == 'ret':
                        r = self.val(f, i.args[0], fa) if i.args else None
                        for s2, r2 in self.leave(f, i, st, r, writes): exits.setdefault(s2.key(), set()).add(r2)
                    elif i.dst: self.derive(f, i, fa)
                    nxt.append((st, fa))
                cur = nxt
                if not cur: break
                if len(cur) > 1:
                    d = {}
                    for st, fa in cur:
                        k = (st.key(), self.look(fa, i.dst) if i.dst else None)
                        d[k] = (st, self.meet(d[k][1], fa)) if k in d else (st, fa)
                    cur = list(d.values())
            t = b.insts[-1]
            for st, fa in cur:
                for succ, f2 in self.edges(f, b, t, fa):
                    if self.exchange and f.name in self.receivers and not st.match and self.matched(f, f2): st2 = st.w(match=True)
                    else: st2 = st
                    f3 = self.phis(f, b, succ, f2)
                    k = (succ.name, st2.key())
                    if k in inn:
                        mm = self.meet(inn[k], f3)
                        if mm == inn[k]: continue
                        inn[k] = mm
                    else: inn[k] = f3
                    if k not in todo: todo.append(k)
        return [(St(*k), r) for k, rs in exits.items() for r in (rs if None not in rs else {None})]
    def stored(self, f, i, env, st, fa):
        o = self.obj(f, i.args[1], env)
        if o not in self.wake: return st
        cv, kind = self.wake[o]; v = i.args[0]
        owe = False
        if kind == 'nonnull': owe = v[0] == 'r' and self.val(f, v, fa) != 'Z'
        elif kind == 'inc' and v[0] == 'r':
            d = f.defmap().get(v[1])
            owe = bool(d is not None and d.op == 'add' and d.args[1][0] == 'i' and d.args[1][1] > 0)
        return st.w(owe=st.owe | {cv}) if owe else st
    def leave(self, f, i, st, r, writes):
        if writes and st.pend == 'sending': st = st.w(pend='sent')
        if not self.exchange: return [(st, r)]
        isp = f.ret is not None and f.ret.k == 'ptr'
        if not st.pre and not isp and f.ret is not None and f.ret.k == 'int' and (writes or f.name in self.receivers):
            # the request could not be sent, no reply came or the reply is an error
            if f.name in self.receivers and r != 'N':
                self.ob('truth', f, i, st.match, 'a message is taken as the reply although its type was not compared with the request', st)
            st = st.w(match=False)
            out = []
            if r != 'Z': out.append((st.w(fail=f.name, pend=''), 'N'))
            if r != 'N': out.append((st, 'Z'))
            return out
        if r == ('Z' if isp else 'N'): st = st.w(pend='')        # the failure is reported to the caller
        zero = isp or f.name in self.failzero
        if isp and r == 'Z': st = st.w(fail='')                  # told by the missing result
        if f.name in self.api:
            self.ob('exchange', f, i, not st.pend, 'returns without having waited for the reply to its request although it does not report an error', st)
            if f.ret is not None and f.ret.k in ('int', 'ptr'):
                good = not st.fail or r == ('Z' if zero else 'N')
                self.ob('truth', f, i, good, 'does not report an error although %s() failed' % st.fail, st)
                if st.fail: self.ctx.count('failing paths')
            st = st.w(pend='', fail='')
        return [(st, r)]
    def edges(self, f, b, t, fa):
        if t.op == 'br':
            if not t.args: yield f.bmap[t.extra[0]], fa; return
            for tgt, truth in ((t.extra[0], True), (t.extra[1], False)):
                f2 = dict(fa)
                if self.learn(f, t.args[0], truth, f2): yield f.bmap[tgt], f2
        elif t.op == 'switch':
            dflt, cases = t.extra; v = self.val(f, t.args[0], fa)
            for c, tgt in cases:
                if v == 'Z' and c != 0 or v == 'N' and c == 0: continue
                f2 = dict(fa)
                if t.args[0][0] == 'r': self.learn(f, t.args[0], c != 0, f2)
                yield f.bmap[tgt], f2
            f2 = dict(fa)
            if any(c == 0 for c, _ in cases):
                if v == 'Z': return
                if t.args[0][0] == 'r': self.learn(f, t.args[0], True, f2)
            yield f.bmap[dflt], f2
    def matched(self, f, fa):
        """a comparison of the type of the message with something derived from the request is known to be true"""
        for k, v in fa.items():
            if v != 'N' and v != 'Z': continue
            d = f.defmap().get(k)
            if d is None or d.op != 'icmp' or (d.extra, v) not in (('eq', 'N'), ('ne', 'Z')): continue
            for a, b in (d.args, d.args[::-1]):
                if self.slice_has(f, a, 'type') and self.slice_has(f, b, 'param'): return True
        return False
    def slice_has(self, f, o, what, depth=0):
        if o[0] != 'r' or depth > 8: return False
        d = f.defmap().get(o[1])
        if d is None: return what == 'param'
        if d.op == 'load': return what == 'type' and self.obj(f, d.args[0]) == 'dax_message.msg_type'
        if d.op in ('or', 'and', 'xor', 'add', 'select', 'zext', 'sext', 'trunc', 'phi', 'freeze'):
            return any(self.slice_has(f, x, what, depth + 1) for x in d.args)
        return False
    def phis(self, f, b, succ, fa):
        new = {}
        for i in succ.insts:
            if i.op != 'phi': break
            for v, bn in zip(i.args, i.extra):
                if bn == b.name: new[i.dst] = self.val(f, v, fa)
        if not new: return fa
        f2 = dict(fa)
        for k in new: self.forget(f2, k)
        for k, v in new.items():
            if v: f2[k] = v
        return f2
    def meet(self, a, b):
        r = {}
        for k, v in a.items():
            if b.get(k) == v: r[k] = v
            else:
                x, y = self.look(a, k), self.look(b, k)
                if x and x == y: r[k] = x
        return r

    # ---------------------------------------------------------------- driver
    def run(self):
        ctx = self.ctx
        for it in range(12):
            self.changed = False; self.done = set(); self.active = set(); self.order = {}
            for r in self.roots:
                self.cur = r; f = self.m.funcs[r]
                pre = r in self.threads and self.has_barrier(r)
                res = self.summary(r, St(pre=pre), (), ())
                for st, ret in res:
                    self.ob('leak', f, None, not st.held, '%s returns while it holds %s' % (r, ', '.join('%s' % (h,) for h, _ in st.held)))
                    self.ob('signal', f, None, not st.owe, '%s returns without having signalled %s' % (r, ', '.join(map(str, st.owe))))
            if not self.changed: break
        else: raise chk.Broken('no fixpoint over the recursive functions')
        ctx.count('entry points', len(self.roots))
        # lock order
        g = {}
        for (a, b) in self.order: g.setdefault(a, set()).add(b)
        def reaches(a, b, seen):
            for x in g.get(a, ()):
                if x == b: return True
                if x not in seen:
                    seen.add(x)
                    if reaches(x, b, seen): return True
            return False
        for (a, b), (f, i) in self.order.items():
            ctx.count('lock order edges')
            self.ob('order', f, i, not reaches(b, a, set()), '%s is taken while %s is held, and the other way around elsewhere: two threads can deadlock' % (b, a))
    def has_barrier(self, r):
        seen = set(); w = [r]
        while w:
            n = w.pop()
            if n in seen: continue
            seen.add(n); f = self.m.funcs.get(n)
            if f is None or f.decl: continue
            for c, _ in callees(f):
                if c == 'pthread_barrier_wait': return True
                w.append(c)
        return False

def api_names(headers):
    import re
    s = set()
    for h in headers:
        t = open(h).read()
        t = re.sub(r'/\*.*?\*/', '', t, flags=re.S)
        s |= set(re.findall(r'\b(\w+)\s*\(', t))
    return s
