"""P03: a signal does no harm whenever it arrives, and a request to stop is never lost."""
import chk, absint, irbuild
from prog import Program, ProgClient
from server import where
from lin import ZERO, const, atom
from ir import int_ty

TARGETS = ('tagserver', 'master', 'modbus_module', 'daxlua_module', 'mqtt_module', 'histlog_module', 'daxc', 'daxjoystick', 'skel')
SIGNAL = {'signal', 'bsd_signal', 'sigset', '__sysv_signal', 'sysv_signal', 'ssignal'}
STOP = {2: 'SIGINT', 3: 'SIGQUIT', 15: 'SIGTERM'}
SIGPIPE = 13
PEERS = ('tagserver', 'modbus_module')
# async-signal-safe functions (POSIX.1-2017, 2.4.3), without those that need not be called from a handler
SAFE = set('''_Exit _exit abort accept access aexecle alarm bind cfgetispeed chdir chmod chown clock_gettime close connect creat dup dup2 execle execv execve
 faccessat fchmod fchown fcntl fdatasync fork fstat fsync ftruncate getegid geteuid getgid getgroups getpeername getpgrp getpid getppid getsockname getsockopt
 getuid kill link listen lseek lstat mkdir mkfifo open openat pause pipe poll posix_trace_event pselect pthread_kill pthread_self pthread_sigmask raise read readlink
 recv recvfrom recvmsg rename rmdir select sem_post send sendmsg sendto setgid setpgid setsid setsockopt setuid shutdown sigaction sigaddset sigdelset sigemptyset
 sigfillset sigismember signal sigpause sigpending sigprocmask sigqueue sigset sigsuspend sleep sockatmark socket socketpair stat symlink sysconf tcflush
 time timer_getoverrun timer_gettime timer_settime times umask uname unlink utime wait waitpid write memcpy memmove memset memcmp memchr strlen strcpy strncpy
 strcat strncat strcmp strncmp strchr strrchr strstr stpcpy ffs htonl htons ntohl ntohs __errno_location'''.split())
BLOCK = set('''sleep usleep nanosleep clock_nanosleep select pselect poll ppoll epoll_wait pause sigsuspend sigwait pthread_cond_wait pthread_cond_timedwait
 dax_event_wait accept recv sem_wait sem_timedwait'''.split())

def callee(i): return i.extra[1] if i.op == 'call' and isinstance(i.extra, tuple) and i.extra and i.extra[0] == 'g' else None
def root(f, op, d=0):
    """what an address is derived from: ('a', alloca) ('g', global) or None"""
    while d < 20:
        d += 1
        if op[0] == 'g': return ('g', op[1])
        if op[0] == 'ce': op = op[3][0]; continue
        x = f.defs.get(op[1]) if op[0] == 'r' else None
        if x is None: return None
        if x.op == 'alloca': return ('a', x.dst)
        if x.op in ('getelementptr', 'bitcast'): op = x.args[0]; continue
        return None
def prep(f):
    f.defs = {i.dst: i for i in f.insts() if i.dst}; return f

def installs(f):
    """(instruction, signal, handlers) of every signal disposition that is set in f"""
    prep(f); res = {}
    IN = {f.blocks[0].name: {}}; work = [f.blocks[0]]
    while work:
        b = work.pop(); st = {k: set(v) for k, v in IN[b.name].items()}
        for i in b.insts:
            if i.op == 'store' and i.args[0][0] in ('g', 'n', 'i', 'ce', 'r'):
                r = root(f, i.args[1])
                x = f.defs.get(i.args[1][1]) if i.args[1][0] == 'r' else None
                if r and r[0] == 'a' and x is not None and (x.op == 'alloca' or all(a[0] == 'i' and a[1] == 0 for a in x.args[1:])): st[r[1]] = {val(i.args[0])}
            c = callee(i)
            if c and c.startswith('llvm.memset'):
                r = root(f, i.args[0])
                if r and r[0] == 'a': st[r[1]] = {None}
            if c == 'sigaction' and len(i.args) > 1 and i.args[1][0] != 'n':
                r = root(f, i.args[1])
                hs = st.get(r[1], {'?'}) if r else {'?'}
                res[i] = (i.args[0][1] if i.args[0][0] == 'i' else None, res.get(i, (0, set()))[1] | hs)
            if c in SIGNAL and len(i.args) > 1:
                res[i] = (i.args[0][1] if i.args[0][0] == 'i' else None, {val(i.args[1])})
        for s in b.succs:
            n = IN.get(s.name); new = {k: (n.get(k, set()) if n else set()) | st.get(k, set()) for k in set(st) | set(n or ())}
            if n is None or new != n: IN[s.name] = new; work.append(s)
    return [(i, s, h) for i, (s, h) in res.items()]
def val(o):
    if o[0] == 'g': return o[1]
    if o[0] == 'n': return None
    if o[0] == 'i': return o[1]
    if o[0] == 'ce': return next((x[1] for x in (o[3] or ()) if x[0] == 'i'), '?')
    return '?'

class Handler(ProgClient):
    """what a handler does for one signal: the simple globals it certainly leaves set"""
    def __init__(self, prog, root, sig): super().__init__(prog, root); self.sig = sig; self.rets = []; self.may = {}
    def init(self, eng, st):
        st.ts = frozenset()
        if eng.fn.params: eng.assume_eq(st, atom('p:' + eng.fn.params[0][0]), const(self.sig))
    def joinkey(self, eng, st): return st.ts
    def loopkey(self, eng, st): return st.ts
    def round(self, eng, blocks): pass
    def load(self, eng, st, inst, addr, width, val): pass
    def store(self, eng, st, inst, addr, width, val):
        if inst.op == 'store' and inst.args[1][0] == 'g':
            g = inst.args[1][1]; self.may.setdefault(g, set()).add(val.c if val is not None and val.isconst() else self.sig if val is not None and eng.entails(st, val.plus(-self.sig)) and eng.entails(st, const(self.sig).sub(val)) else None)
            st.ts = (st.ts | {g}) if val is not None and eng.entails(st, const(1).sub(val)) else (st.ts - {g})
    def call(self, eng, st, i, name, args):
        if name in ('_exit', '_Exit', 'abort', 'exit', 'longjmp', 'siglongjmp'): return []
        return ProgClient.call(self, eng, st, i, name, args)
    def ret(self, eng, st, inst, val):
        r = set(st.ts)
        for k, c in st.mem.items():
            if k[0] != 'pure' and len(k[0].t) == 1 and k[0].c == 0 and k[0].t[0][0].startswith('@') and k[1] <= 8:
                s2 = st.copy()
                if not eng.assume_eq(s2, c[0], ZERO): r.add(k[0].t[0][0][1:])
        self.rets.append(frozenset(r))

def closure(raw, name):
    seen = set(); work = [name]; ext = []
    while work:
        n = work.pop()
        if n in seen: continue
        seen.add(n); f = raw.funcs.get(n)
        if f is None or f.decl: continue
        for i in f.insts():
            if i.op != 'call': continue
            c = callee(i)
            if c is None: ext.append((n, None, i)); continue
            g = raw.funcs.get(c)
            if g is not None and not g.decl: work.append(c)
            else: ext.append((n, c, i))
    return [n for n in seen if n in raw.funcs and not raw.funcs[n].decl], ext

def evaluate(f, op, G, v, inside, d=0):
    """value of an operand when the flag G holds v (loads inside the given blocks only), or None"""
    if op[0] == 'i': return op[1]
    if op[0] == 'n': return 0
    x = f.defs.get(op[1]) if op[0] == 'r' else None
    if x is None or d > 12: return None
    e = lambda k: evaluate(f, x.args[k], G, v, inside, d + 1)
    if x.op == 'load': return v if x.args[0][0] == 'g' and x.args[0][1] in G and x.block in inside else None
    if x.op in ('zext', 'sext', 'freeze', 'trunc'): return e(0)
    if x.op == 'phi' and len(x.args) <= 6:
        vs = [evaluate(f, a, G, v, inside, d + 4) for a in x.args]
        return vs[0] if all(w is not None and w == vs[0] for w in vs) else None
    if x.op == 'select':
        c = e(0)
        if c is None: a, b = e(1), e(2); return a if a == b else None
        return e(1) if c else e(2)
    if x.op in ('and', 'or', 'xor', 'add', 'sub'):
        a, b = e(0), e(1)
        if x.op == 'and' and (a == 0 or b == 0): return 0
        if x.op == 'or' and x.ty.k == 'int' and x.ty.n == 1 and ((a or 0) & 1 or (b or 0) & 1): return 1
        if a is None or b is None: return None
        return {'and': a & b, 'or': a | b, 'xor': a ^ b, 'add': a + b, 'sub': a - b}[x.op]
    if x.op == 'icmp':
        a, b = e(0), e(1)
        if a is None or b is None: return None
        M = (1 << 32) - 1; p = x.extra if isinstance(x.extra, str) else x.extra[0]
        if p in ('eq', 'ne'): return int((a & M == b & M) == (p == 'eq'))
        if p[0] == 'u': a, b = a & M, b & M
        return int({'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p[1:]])
    return None

def sccs(nodes, edges):
    idx = {}; low = {}; st = []; on = set(); out = []
    def go(v):
        idx[v] = low[v] = len(idx); st.append(v); on.add(v)
        for w in edges(v):
            if w not in nodes: continue
            if w not in idx: go(w); low[v] = min(low[v], low[w])
            elif w in on: low[v] = min(low[v], idx[w])
        if low[v] == idx[v]:
            c = set()
            while True:
                w = st.pop(); on.discard(w); c.add(w)
                if w is v: break
            out.append(c)
    for v in nodes:
        if v not in idx: go(v)
    return [c for c in out if len(c) > 1 or any(x in edges(x) for x in c)]

def run(ctx):
    import sys; sys.setrecursionlimit(20000)
    ctx.rule = ('for every program: handlers of signals (and all they call) use only async-signal-safe functions and store only to single integers; the handler of each stop signal '
                'leaves a flag set on all paths, no other handler or store can clear it, and with the flag set no loop of the program can wait again; connections that break do not end the server')
    ctx.assumptions += ['one waiting call at a time ends (by the signal or its timeout)', 'threads other than the main one are not considered for the end of the program']
    b = irbuild.Builder(); have = b.all_targets()
    for t in TARGETS:
        if t not in have: continue
        P = Program(t, b=b); raw = P.raw; m = P.m
        ins = []; owners = {}
        for f in m.funcs.values():
            if f.decl: continue
            if any(callee(i) in SIGNAL | {'sigaction'} for i in f.insts()):
                called = {c for n, g in raw.funcs.items() if not g.decl for c, _ in irbuild.callees(g)}
                if f.name in called and f.name != 'main': continue              # inlined into its callers
                for x in installs(f): ins.append((f,) + x)
        if not ins: continue
        ctx.count('programs'); hs = {}
        for f, i, sig, handlers in ins:
            for h in handlers:
                ctx.oblige((t, 'disposition', sig, str(h)), h != '?' and sig is not None, where(m, i), 'the handler that is set for signal %s is not known' % sig)
                if h in m.funcs: hs.setdefault(sig, {})[h] = i
        # 1. handlers are safe
        for h in sorted({h for d in hs.values() for h in d}):
            fs, ext = closure(raw, h)
            ctx.count('handlers'); ctx.sample('%s: handler %s of signals %s' % (t, h, sorted(s for s, d in hs.items() if h in d)))
            for n, c, i in ext:
                good = c is not None and (c in SAFE or (c.startswith('llvm.') and 'mem' not in c) or c.startswith('llvm.mem'))
                ctx.oblige((t, 'call in a handler', h, c, n), good, where(raw, i), 'the signal handler %s calls %s, which is not safe in a signal handler' % (h, c or 'through a pointer'))
            for n in fs:
                f = prep(raw.funcs[n])
                for i in f.insts():
                    if i.op not in ('store', 'atomicrmw', 'cmpxchg'): continue
                    a = i.args[1] if i.op == 'store' else i.args[0]
                    r = root(f, a); g = raw.globals.get(a[1]) if a[0] == 'g' else None
                    good = (r is not None and r[0] == 'a') or (g is not None and g.ty.k in ('int', 'ptr'))
                    ctx.oblige((t, 'store in a handler', h, n, where(raw, i)), good, where(raw, i), 'the signal handler %s changes more than a single integer, the program may be in the middle of it' % h)
        # 2. stop flags
        flags = None; sets = {}; may = {}
        for sig, d in hs.items():
            for h in d:
                cl = Handler(P, h, sig); absint.Engine(m, m.funcs[h], cl, P.mr, K=8).run()
                for g, vs in cl.may.items(): may.setdefault(g, set()).update(vs)
                if sig in STOP:
                    must = frozenset.intersection(*cl.rets) if cl.rets else None
                    if must is None: continue                                   # the handler itself ends the program
                    ctx.oblige((t, 'stop is recorded', sig, h), bool(must), where(m, d[h]), 'the handler %s of %s does not set a flag on all of its paths' % (h, STOP[sig]))
                    sets[sig] = sets.get(sig, must) & must
        for sig, G in sets.items():
            ctx.count('stop signals')
            hset = {h for d in hs.values() for h in d}
            # stores elsewhere
            for f in raw.funcs.values():
                if f.decl or f.name in hset: continue
                prep(f)
                for i in f.insts():
                    if i.op == 'store' and i.args[1][0] == 'g' and i.args[1][1] in G:
                        good = i.args[0][0] == 'i' and i.args[0][1] != 0
                        ctx.oblige((t, 'flag is kept', i.args[1][1], where(raw, i)), good, where(raw, i), '%s may be cleared here: a %s that came in the meantime is lost' % (i.args[1][1], STOP[sig]))
            # 3. with the flag set nothing waits again and again
            mf = m.funcs.get('main')
            if mf is None: continue
            prep(mf)
            waits = lambda blk: [i for i in blk.insts if i.op == 'call' and blocking(m, raw, callee(i))]
            values = {v for g in G for v in may.get(g, ())} | {sig}
            reach = set(); work = [i.block for f, i, s2, h in ins if f is mf and s2 == sig]
            while work:
                x = work.pop()
                if x not in reach: reach.add(x); work += x.succs
            def edges(blk, inside, sig):
                tt = blk.insts[-1]
                if tt.op == 'br' and len(blk.succs) == 2 and tt.args:
                    c = evaluate(mf, tt.args[0], G, sig, inside)
                    if c is not None: return [target(mf, tt, 0 if c & 1 else 1)]
                if tt.op == 'switch':
                    c = evaluate(mf, tt.args[0], G, sig, inside)
                    if c is not None: return [case(mf, tt, c)]
                return blk.succs
            for C in sccs(set(mf.blocks), lambda x: x.succs):
                if not any(waits(x) for x in C) or not C & reach: continue
                for v in sorted(values, key=str):
                    todo = [C]
                    while todo:
                        C1 = todo.pop()
                        sub = [s for s in sccs(C1, lambda x: edges(x, C1, v)) if any(waits(x) for x in s)]
                        if sub == [C1]:
                            if counted(mf, C1): continue
                            w = next(i for x in C1 for i in waits(x))
                            why = '' if v == sig else ' (when signal %s comes after it)' % v
                            ctx.oblige((t, 'loop looks at the flag', sig, where(m, w)), False, where(m, w), 'the program can wait here again and again after %s%s without being stopped by %s' % (STOP[sig], why, ', '.join(sorted(G)) or 'a flag'))
                        else: todo += sub
                ctx.count('waiting loops'); ctx.oblige((t, 'waiting loop', sig, min(x.name for x in C)), True, '', '')
        # 4. peers that go away
        if t in PEERS:
            mf = m.funcs['main']; prep(mf)
            got = [i for f, i, s, h in ins if s == SIGPIPE and f is mf and h - {None, 0, '?'}]
            start = [i for i in mf.insts() if callee(i) == 'pthread_create']
            for k, s in enumerate(start):
                good = any(precedes(mf, i, s) for i in got)
                ctx.oblige((t, 'SIGPIPE', k), good, where(m, s), 'the threads that talk to peers are started without a disposition for SIGPIPE: a peer that closes its connection ends the program')
    ctx.require('handlers', 3)

def blocking(m, raw, c, seen=None):
    if c is None: return False
    if c in BLOCK: return True
    f = m.funcs.get(c)
    if f is None or f.decl: return False
    seen = seen or set()
    if c in seen: return False
    seen.add(c)
    return any(blocking(m, raw, callee(i), seen) for i in f.insts() if i.op == 'call')
def target(f, t, k): return f.bmap[t.extra[k]]
def case(f, t, c):
    d = t.extra
    for v, l in d[1]:
        if (v[1] if isinstance(v, tuple) else v) == c: return f.bmap[l]
    return f.bmap[d[0]]
def counted(f, C):
    """the loop ends by itself: a counter that only grows (or shrinks) is compared with something the loop does not change"""
    for b in C:
        t = b.insts[-1]
        if t.op != 'br' or len(b.succs) != 2 or all(s in C for s in b.succs): continue
        x = f.defs.get(t.args[0][1]) if t.args[0][0] == 'r' else None
        if x is None or x.op != 'icmp': continue
        for k in (0, 1):
            a, o = x.args[k], x.args[1 - k]
            y = f.defs.get(a[1]) if a[0] == 'r' else None
            while y is not None and y.op in ('zext', 'sext', 'add', 'freeze'): y = f.defs.get(y.args[0][1]) if y.args[0][0] == 'r' else None
            if y is None or y.op != 'phi' or y.block not in C: continue
            nx = [f.defs.get(v[1]) for v, bl in zip(y.args, y.extra) if v[0] == 'r' and f.bmap[bl] in C]
            if y.ty.k == 'ptr' and o[0] == 'n' and nx and all(n is not None and n.op == 'load' and root(f, n.args[0]) is None and base(f, n.args[0]) == y.dst for n in nx): return True    # along a list
            z = f.defs.get(o[1]) if o[0] == 'r' else None
            if z is not None and z.block in C: continue
            step = [f.defs.get(v[1]) for v, bl in zip(y.args, y.extra) if v[0] == 'r' and f.bmap[bl] in C]
            if step and all(s is not None and s.op == 'add' and s.args[1][0] == 'i' and s.args[1][1] != 0 for s in step): return True
    return False
def base(f, op):
    x = f.defs.get(op[1]) if op[0] == 'r' else None
    while x is not None and x.op in ('getelementptr', 'bitcast'):
        op = x.args[0]; x = f.defs.get(op[1]) if op[0] == 'r' else None
    return op[1] if op[0] == 'r' else None
def precedes(f, i, s):
    if i.block is s.block: return i.idx < s.idx
    seen = {f.blocks[0]}; work = [f.blocks[0]]
    if f.blocks[0] is i.block: return True
    while work:
        b = work.pop()
        for n in b.succs:
            if n is i.block or n in seen: continue
            if n is s.block: return False
            seen.add(n); work.append(n)
    return True
