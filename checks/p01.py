"""P01: processes run only with the user and group they are configured for."""
import chk, absint
from prog import Program, ProgClient
from server import where
from bounds import Recorder
from lin import Lin, ZERO, const, atom

EXEC = {'execv', 'execve', 'execvp', 'execvpe', 'execl', 'execlp', 'execle', 'fexecve', 'posix_spawn', 'posix_spawnp', 'system', 'popen'}
GID = {'setgid': 0, 'setegid': 0, 'setregid': 1, 'setresgid': 1, 'setgroups': None, 'initgroups': None}
UID = {'setuid': 0, 'seteuid': 0, 'setreuid': 1, 'setresuid': 1}
LOOK = {'getpwnam', 'getgrnam', 'getpwuid', 'getgrgid'}
GO = {'dax_set_running', 'dax_set_status'}

class Priv(ProgClient):
    """typestate: (role after fork, group set, user set, a change failed, lookups made)"""
    def __init__(self, prog, root): super().__init__(prog, root); self.rec = Recorder(); self.n = 0; self.rets = {}; self.forks = 0; self.lookups = False
    def init(self, eng, st): st.ts = ('', None, None, '', ())
    def joinkey(self, eng, st): return st.ts
    def loopkey(self, eng, st): return st.ts
    def round(self, eng, blocks): self.rec.drop(blocks)
    def split(self, eng, st, i, cases):
        """cases: (constant or None for not zero, new typestate)"""
        out = []
        v = eng.fresh_result(st, i) if i.dst else None
        for c, ts in cases:
            s = st.copy(); s.ts = ts
            if v is not None:
                if c is None:
                    if not eng.assume_ne(s, v, ZERO): continue
                elif c == '>':
                    if not eng.assume(s, const(1).sub(v)): continue
                elif c == '<':
                    if not eng.assume(s, v.plus(1)): continue
                elif not eng.assume_eq(s, v, const(c)): continue
            out.append(s)
        return out
    def call(self, eng, st, i, name, args):
        role, g, u, bad, look = st.ts; w = where(self.m, i)
        if name in ('fork', 'vfork'):
            self.forks += 1
            return self.split(eng, st, i, [('<', st.ts), (0, ('child', g, u, bad, look)), ('>', ('parent', g, u, bad, look))])
        if name in GID or name in UID:
            self.n += 1
            if name in GID:
                self.rec.put(i, 'group is given up before user', u is None, w, 'the group is changed after the user id: without privileges it fails or is kept')
                k = GID[name]
                ok = (role, args[k] if k is not None else g, u, bad, look)
            else: ok = (role, g, args[UID[name]], bad, look)
            return self.split(eng, st, i, [(0, ok), (None, (role, g, u, bad or '%s() failed' % name, look))])
        if name in LOOK:
            self.lookups = True
            kind = 'uid' if 'pw' in name else 'gid'
            look = tuple(x for x in look if x[0] != kind)
            r = self.split(eng, st, i, [(None, st.ts), (0, (role, g, u, bad or '%s() found nothing' % name, look + ((kind, None),)))])
            for s2 in r:
                if not s2.ts[4] or s2.ts[4][-1] != (kind, None): s2.ts = (role, g, u, bad, look + ((kind, s2.vals.get(i.dst)),))
            return r
        if name in ('geteuid', 'getegid', 'getuid', 'getgid'):
            k = ('pure', name, ())
            c = st.mem.get(k)
            if c is None:
                v = eng.fresh_result(st, i); st.mem[k] = (v, None)
            else: st.vals[i.dst] = c[0]
            return [st]
        if name in GO:
            self.n += 1
            self.rec.put(i, 'runs only with the privileges it should have', not bad, w, 'the program goes on although %s' % bad)
        if name in EXEC:
            self.n += 1
            self.rec.put(i, 'not executed after a failure', not bad, w, 'a program is executed although %s' % bad)
            if self.c.get('uid') is not None: self.identity(eng, st, i, args, w)
            if 'exec' in name:        # comes back only when it has failed
                if i.dst: st.vals[i.dst] = const(-1)
                return [st]
        if name in ('exit', '_exit', 'abort', '__assert_fail', '_Exit'): return []
        return super().call(eng, st, i, name, args)
    def identity(self, eng, st, i, args, w):
        base = None
        a = args[0]
        o = eng.origin(a.t[0][0]) if len(a.t) == 1 else None
        if o and isinstance(o[0], Lin): base = o[0].plus(-self.c['path'])
        for what, off, cur, got in (('group', 'gid', 'getegid', st.ts[1]), ('user', 'uid', 'geteuid', st.ts[2])):
            cells = [(k[0].plus(-self.c[off]), v[0]) for k, v in st.mem.items() if k[0] != 'pure' and k[1] == 4 and k[0].t and
                     (k[0].plus(-self.c[off]) == base if base is not None else eng.base(k[0])[1].c == self.c[off])]
            want = cells[0][1] if cells else None
            e = st.mem.get(('pure', cur, ()))
            good = want is not None and ((got is not None and eng.eq(st, got, want)) or (got is None and e is not None and self.same(eng, st, e[0], want)))
            self.rec.put(i, 'runs as the configured %s' % what, good, w, 'the program is executed but its %s is not proved to be the configured one' % what)
            self.rec.put(i, 'configured %s is known' % what, want is not None and eng.entails(st, want.scale(-1)), w,
                         'the program is executed although its %s may be unknown (negative)' % what)
    def same(self, eng, st, a, b): return eng.eq(st, a, b)
    def ret(self, eng, st, inst, val):
        for kind, r in st.ts[4]:
            if self.c.get(kind) is None: continue
            cells = [v[0] for k, v in st.mem.items() if k[0] != 'pure' and k[1] == 4 and k[0].t and eng.base(k[0])[0] is not None and
                     eng.base(k[0])[1] == const(self.c[kind]) and eng.base(k[0])[0] not in (a for a, _ in (r.t if r is not None else ()))]
            if r is None: good = any(eng.entails(st, v.plus(1)) for v in cells)
            else:
                f = r.plus(self.c['pw' if kind == 'uid' else 'gr'])
                good = any(len(v.t) == 1 and (eng.origin(v.t[0][0]) or (None,))[0] == f for v in cells) or \
                       any(k[0] != 'pure' and k[0] == f and any(eng.eq(st, v, x[0]) for v in cells) for k, x in st.mem.items())
            self.rec.put(inst, 'configured %s is taken from the accounts' % kind, good, where(self.m, inst),
                         'the %s of a process is not %s' % (kind, 'left unknown (negative) when the name does not exist' if r is None else 'that of the account with the configured name'))
        self.rets.setdefault(st.ts[0], inst)

def run(ctx):
    ctx.rule = ('typestate over all paths of every function that changes ids, forks or executes programs: setgid before setuid; after a failed change or '
                'lookup no program is executed and no module reports that it runs; a program is executed only with the configured, known group and user; '
                'after fork() only one of the two processes returns from the function')
    import irbuild
    b = irbuild.Builder()
    for t in b.all_targets():
        raw = b.raw(t)
        names = {c for f in raw.funcs.values() if not f.decl for c, _ in irbuild.callees(f)}
        if not names & (EXEC | set(GID) | set(UID) | {'fork', 'vfork'}): continue
        ex = {k: 'offsetof(dax_process,%s)' % k for k in ('uid', 'gid', 'path')} if t == 'master' else {}
        if ex: ex['pw'] = 'offsetof(struct passwd,pw_uid)'; ex['gr'] = 'offsetof(struct group,gr_gid)'
        P = Program(t, b=b, consts=ex, includes=['process.h'])
        for f in P.roots():
            cs = {c for c, _ in irbuild.callees(f)}
            if not cs & (EXEC | set(GID) | set(UID) | LOOK | {'fork', 'vfork'}): continue
            cl = Priv(P, f.name)
            absint.Engine(P.m, f, cl, P.mr, K=8).run()
            cl.rec.flush(ctx, '%s:%s' % (t, f.name))
            ctx.count('functions'); ctx.count('id changes, executions', cl.n)
            ctx.sample('%s: %s' % (t, f.name))
            if cl.forks:
                both = 'child' in cl.rets and 'parent' in cl.rets
                ctx.oblige((t, f.name, 'only one of the processes returns'), not both, where(P.m, cl.rets['child']) if both else '',
                           'after fork() both the parent and the child return from %s()' % f.name)
                ctx.count('forks', cl.forks)
    ctx.require('id changes, executions', 3); ctx.require('forks', 1)
