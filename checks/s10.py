"""S10: a connection is served until it ends, and then everything that belonged to it is gone.

G is an arbitrary descriptor.  Membership of G in each descriptor set is part of the typestate; the macros of <sys/select.h> are
compiled as calls.  Invariant between the functions: G in the set of connections => 0 <= G <= largest < FD_SETSIZE."""
import os
import chk, absint, irbuild
from prog import Program, ProgClient
from server import Server, SrvClient, where
from bounds import Recorder
from walk import Walk
from lin import Lin, ZERO, const, atom

HDR = '''#include <sys/types.h>
#include <sys/select.h>
#undef FD_SET
#undef FD_CLR
#undef FD_ISSET
#undef FD_ZERO
void vp_fd_set(int, void *); void vp_fd_clr(int, void *); int vp_fd_isset(int, const void *); void vp_fd_zero(void *);
#define FD_SET(n, p) vp_fd_set((n), (p))
#define FD_CLR(n, p) vp_fd_clr((n), (p))
#define FD_ISSET(n, p) vp_fd_isset((n), (p))
#define FD_ZERO(p) vp_fd_zero(p)
'''
EX = {'max': 'FD_SETSIZE', 'nosock': 'ERR_NO_SOCKET', 'setsz': 'sizeof(fd_set)', 'eintr': 'EINTR'}
KEEP = {'msg_add_fd', 'msg_del_fd', 'buff_read', 'buff_free', 'buff_freeall', 'module_unregister', 'buff_initialize'}

class Base(ProgClient):
    def __init__(self, prog, root):
        super().__init__(prog, root); self.rec = Recorder(); self.n = {}
    def count(self, k): self.n[k] = self.n.get(k, 0) + 1
    def round(self, eng, blocks): self.rec.drop(blocks)
    def put(self, i, tag, good, msg): self.rec.put(i, tag, good, where(self.m, i), msg)
    def split(self, eng, st, a, b):
        """[(state, equal?)]"""
        out = []
        x = st.copy()
        if eng.assume_eq(x, a, b): out.append((x, True))
        if eng.assume_ne(st, a, b): out.append((st, False))
        return out

class Conn(Base):
    """typestate: (sets G is in / not in, what became of G)"""
    def init(self, eng, st):
        self.P = [st.vals[p] for p, _ in eng.fn.params]
        self.G = eng.mk('G', lo=0, hi=self.c['max'] - 1)
        self.mx = (atom('@' + self.p.maxfd), 4); self.S = '@' + self.p.fdset; self.L = '@' + self.p.listen
        self.ghosts = [self.mx]
        self.limits = (self.c['max'] - 1,)
        st.ts = (frozenset({(self.S, self.was)} | ({('dirty', True)} if self.root != 'msg_receive' else set())), 'idle')
        if self.root != 'msg_setup': self.newmax(eng, st)
    def load(self, eng, st, inst, addr, width, val):
        if (addr, width) == self.mx and val is not None:
            eng.assume(st, val.scale(-1)); eng.assume(st, val.plus(1 - self.c['max']))
            if not self.inset(st, 'dirty') and self.inset(st, self.S): eng.assume(st, self.G.sub(val))
    def newmax(self, eng, st, n=None):
        nm = eng.variant('max:%s' % (n or 0), ('m', None)); eng._killatom(st, nm)
        v = eng.mk(nm, lo=0, hi=self.c['max'] - 1); st.mem[self.mx] = (v, None)
        if self.inset(st, self.S): eng.assume(st, self.G.sub(v))
    def nth(self, i):
        d = self.__dict__.setdefault('_nth', {}); return d.setdefault(id(i), len(d) + 1)
    def inset(self, st, b):
        for k, v in st.ts[0]:
            if k == b: return v
    def setin(self, st, b, v):
        st.ts = (frozenset(x for x in st.ts[0] if x[0] != b) | ({(b, v)} if v is not None else frozenset()), st.ts[1])
    def stable(self, eng, key): return key == self.mx
    def joinkey(self, eng, st): return st.ts
    def loopkey(self, eng, st): return st.ts
    def know(self, eng, st, b):
        """states in which membership of G in b is known"""
        if self.inset(st, b) is not None: return [st]
        o = st.copy(); self.setin(o, b, False)
        self.setin(st, b, True)
        ok = True
        if b == self.S:
            c = st.mem.get(self.mx)
            if c is not None: ok = eng.assume(st, self.G.sub(c[0]))
        return [st, o] if ok else [o]
    def isset(self, v):
        return v is not None and (v in (self.S, self.L) or v.startswith('&'))
    def call(self, eng, st, i, name, args):
        c = self.c
        if name in ('vp_fd_set', 'vp_fd_clr', 'vp_fd_isset'):
            self.count('set operations')
            x = args[0]; b, off = eng.base(args[1])
            self.put(i, 'only descriptors that fit are put into a set', eng.entails(st, x.scale(-1)) and eng.entails(st, x.plus(1 - c['max'])), 'descriptor %s may not fit into the set' % x)
            if not self.isset(b) or off != ZERO: raise chk.Broken('unknown descriptor set %s' % args[1])
            out = []
            for s, same in self.split(eng, st, x, self.G):
                if name == 'vp_fd_isset':
                    if not same: eng.fresh_result(s, i); out.append(s); continue
                    for t in self.know(eng, s, b):
                        t.vals[i.dst] = const(1) if self.inset(t, b) else ZERO; out.append(t)
                        if self.inset(t, b) and t.ts[1] == 'idle' and self.root != 'msg_receive': t.ts = (t.ts[0], 'seen')
                else:
                    if same: self.setin(s, b, name == 'vp_fd_set'); self.setin(s, 'dirty', True)
                    out.append(s)
            return out
        if name == 'vp_fd_zero':
            b, off = eng.base(args[0]); self.setin(st, b, False); return [st]
        if name == 'select':
            self.count('waits')
            b, off = eng.base(args[1])
            out = []
            for s in self.know(eng, st, self.S):
                watched = self.inset(s, self.S)
                if watched:
                    self.put(i, 'every connection is watched', self.inset(s, b) is True and eng.entails(s, self.G.plus(1).sub(args[0])), 'a connection may not be among the %s descriptors that are waited for' % args[0])
                else: self.put(i, 'only connections are watched', self.inset(s, b) is False, 'a descriptor that is not open may be waited for')
                t, e, z = s.copy(), s.copy(), s
                for q, cond in ((t, 1), (z, 0), (e, -1)):
                    r = eng.fresh_result(q, i)
                    if cond == 1:
                        eng.assume(q, const(1).sub(r))
                        if watched:
                            y = q.copy(); self.setin(y, b, True); y.ts = (y.ts[0], 'ready'); out.append(y)
                        self.setin(q, b, False); q.ts = (q.ts[0], 'idle')
                    else:
                        q.vals[i.dst] = const(cond); self.setin(q, b, False if cond == 0 else None); q.ts = (q.ts[0], 'idle')
                    out.append(q)
            return out
        if name == 'accept' or name == 'accept4':
            self.count('accepts')
            out = []
            for s, same in self.split(eng, st, args[0], self.G):
                r = eng.fresh_result(s, i)
                if same and not all(self.inset(t, self.L) for t in self.know(eng, s.copy(), self.L)):
                    self.put(i, 'connections are read', False, 'a connection that does not listen is not read')
                a = s.copy()
                if eng.assume_eq(a, r, const(-1)): a.ts = (a.ts[0], 'served' if same else a.ts[1]); a.vals[i.dst] = const(-1); out.append(a)
                eng.assume(s, r.scale(-1))
                if same: s.ts = (s.ts[0], ('new', r))
                out.append(s)
            return out
        if name == 'buff_read':
            self.count('reads')
            out = []
            for s, same in self.split(eng, st, args[0], self.G):
                if same:
                    r = eng.fresh_result(s, i); self.newmax(eng, s, self.nth(i))
                    for t in self.know(eng, s, self.L):
                        self.put(i, 'a listening socket is not read', not self.inset(t, self.L), 'a listening socket is read: its connections are never accepted')
                        a = t.copy()
                        if eng.assume_eq(a, r, const(c['nosock'])): a.ts = (a.ts[0], ('eof', False, False)); a.vals[i.dst] = const(c['nosock']); out.append(a)
                        if eng.assume_ne(t, r, const(c['nosock'])): t.ts = (t.ts[0], 'served'); out.append(t)
                else: eng.fresh_result(s, i); self.newmax(eng, s, self.nth(i)); out.append(s)
            return out
        if name in ('msg_del_fd', 'module_unregister'):
            self.count('ends')
            out = []
            for s, same in self.split(eng, st, args[0], self.G):
                if same:
                    p = s.ts[1]
                    self.put(i, 'only a connection that ended is given up', p[0] == 'eof', 'a connection that has not ended is given up')
                    if p[0] == 'eof':
                        p = ('eof', p[1] or name == 'module_unregister', p[2] or name == 'msg_del_fd')
                        s.ts = (s.ts[0], 'served' if p[1] and p[2] else p)
                    if name == 'msg_del_fd': self.setin(s, self.S, False)
                if name == 'msg_del_fd': self.newmax(eng, s, self.nth(i))
                if i.dst: eng.fresh_result(s, i)
                out.append(s)
            return out
        if name == 'msg_add_fd':
            self.count('adds')
            x = args[0]
            self.put(i, 'only descriptors that fit are put into a set', eng.entails(st, x.scale(-1)) and eng.entails(st, x.plus(1 - c['max'])), 'descriptor %s may not fit into the set' % x)
            p = st.ts[1]
            if p[0] == 'new' and eng.eq(st, x, p[1]): st.ts = (st.ts[0], 'served')
            out = []
            for s, same in self.split(eng, st, x, self.G):
                if same: self.setin(s, self.S, True)
                self.newmax(eng, s, self.nth(i))
                out.append(s)
            return out
        if name == 'socket':
            r = eng.fresh_result(st, i); eng.assume(st, const(-1).sub(r)); eng.assume(st, r.plus(1 - c['max'])); return [st]
        if name == 'close':
            p = st.ts[1]
            if p[0] == 'new' and eng.eq(st, args[0], p[1]):
                self.put(i, 'a new connection is watched', eng.entails(st, const(c['max']).sub(args[0])), 'a new connection is closed although there is room for it')
                st.ts = (st.ts[0], 'served')
            if i.dst: eng.fresh_result(st, i)
            return self.closed(eng, st, i, args)
        return super().call(eng, st, i, name, args)
    def closed(self, eng, st, i, args): return [st]
    def store(self, eng, st, inst, addr, width, val):
        b, off = eng.base(addr)
        if (addr, width) == self.mx:
            self.setin(st, 'dirty', True)
            self.put(inst, 'the largest descriptor is in range', eng.entails(st, val.scale(-1)) and eng.entails(st, val.plus(1 - self.c['max'])), 'the largest descriptor may be %s' % val)
        if val is None and inst.op == 'call' and self.isset(b):
            sb, so = eng.base(eng.val(st, inst.args[1]))
            if inst.extra[1].startswith('llvm.memset') or not self.isset(sb):
                z = eng.val(st, inst.args[1]) if inst.extra[1].startswith('llvm.memset') else None
                self.setin(st, b, False if z == ZERO else None); return None
            n = const(width) if isinstance(width, int) else width
            out = []
            for s in self.know(eng, st, sb):
                self.setin(s, b, self.inset(s, sb) if off == ZERO and so == ZERO and n == const(self.c['setsz']) else None)
                if inst.dst: s.vals[inst.dst] = addr
                out.append(s)
            return out
        return None
    def ret(self, eng, st, inst, val):
        p = st.ts[1]
        for s in self.know(eng, st.copy(), self.S):
            if self.inset(s, self.S):
                v = s.mem.get(self.mx)
                self.put(inst, 'the largest descriptor is known', not self.inset(s, 'dirty') or v is not None and eng.entails(s, self.G.sub(v[0])), 'a connection has a descriptor above the largest one known (%s): it is not looked at any more' % (v and v[0]))
        if self.root == 'msg_receive':
            self.put(inst, 'every connection with something to read is served', p != 'ready', 'returns although a connection has something to read that nobody looked at')
            self.put(inst, 'a new connection is watched', p[0] != 'new', 'a new connection is accepted and forgotten')
            self.put(inst, 'a connection that ended is given up', p[0] != 'eof', 'the connection has ended, but %s' % ('its module stays' if p[0] == 'eof' and not p[1] else 'its descriptor stays'))
    def edge(self, eng, st, blk, succ):
        # the same descriptor is not looked at twice: an accept or the end of a connection is dealt with in the same pass
        if succ in eng.loopblocks and blk in eng.loopblocks[succ]:
            p = st.ts[1]
            if self.root == 'msg_receive' and p[0] in ('new', 'eof') and isinstance(p, tuple):
                self.put(blk.insts[-1], 'a new connection is watched' if p[0] == 'new' else 'a connection that ended is given up', False, 'the pass ends before')
                st.ts = (st.ts[0], 'served')

class Add(Conn):
    def init(self, eng, st):
        super().init(eng, st)
        eng.assume(st, self.P[0].scale(-1)); eng.assume(st, self.P[0].plus(1 - self.c['max']))
    def ret(self, eng, st, inst, val):
        super().ret(eng, st, inst, val)
        for s, same in self.split(eng, st.copy(), self.P[0], self.G):
            if same: self.put(inst, 'the connection is added', self.inset(s, self.S) is True, 'the descriptor is not put into the set')
            elif self.was: self.put(inst, 'other connections stay', self.inset(s, self.S) is True, 'another descriptor is removed')
            else: self.put(inst, 'only the connection is added', self.inset(s, self.S) is False, 'another descriptor is added')
class Del(Conn):
    def init(self, eng, st):
        super().init(eng, st)
        eng.assume(st, self.P[0].scale(-1)); eng.assume(st, self.P[0].plus(1 - self.c['max']))
    def closed(self, eng, st, i, args):
        self.put(i, 'only the connection is closed', eng.eq(st, args[0], self.P[0]), 'descriptor %s is closed' % args[0])
        st.ts = (st.ts[0], 'closed'); return [st]
    def ret(self, eng, st, inst, val):
        super().ret(eng, st, inst, val)
        self.put(inst, 'the connection is closed', st.ts[1] == 'closed', 'the descriptor is not closed')
        for s, same in self.split(eng, st.copy(), self.P[0], self.G):
            if same: self.put(inst, 'the connection is removed', self.inset(s, self.S) is False, 'the descriptor stays in the set')
            elif self.was: self.put(inst, 'other connections stay', self.inset(s, self.S) is True, 'another descriptor is removed')

def setup(ctx):
    global P, srv
    b = irbuild.Builder()
    h = os.path.join(b.dir, 'vp_select.h'); open(h, 'w').write(HDR)
    b.pre = ['-include', h]
    P = Program('tagserver', KEEP, b, EX, ['message.h', 'module.h', 'libcommon.h', '<sys/select.h>', '<errno.h>'])
    miss = [x for x in EX if x not in P.c]
    if miss: raise chk.Broken('header constants not available: %s' % ', '.join(miss))
    # the set of connections and the largest descriptor: what msg_add_fd changes
    f = P.m.funcs.get('msg_add_fd')
    if f is None or f.decl: raise chk.Broken('function msg_add_fd not found')
    P.fdset = P.listen = P.maxfd = None
    for i in f.insts():
        if i.op == 'call' and i.extra[:2] == ('g', 'vp_fd_set') and i.args[1][0] == 'g': P.fdset = i.args[1][1]
        if i.op == 'store' and i.args[1][0] == 'g' and i.ty.k == 'int': P.maxfd = i.args[1][1]
    for g in P.m.funcs.values():
        for i in g.insts() if not g.decl else ():
            if i.op == 'call' and i.extra[:2] in (('g', 'vp_fd_set'), ('g', 'vp_fd_isset')) and i.args[1][0] == 'g' and i.args[1][1] != P.fdset: P.listen = i.args[1][1]
    if not (P.fdset and P.maxfd): raise chk.Broken('the set of connections was not found')
    P.listen = P.listen or '?'


# ------------------------------------------------------------ the module of a connection
UKEEP = ('events_cleanup', 'groups_cleanup', 'module_del', 'tag_del', 'is_tag_owned', 'get_tagindex', '_get_module_fd', 'module_find_fd', 'module_add', 'module_unregister',
         'event_del', '_free_event', 'tag_add', 'tag_write', 'tag_get_name', 'cdt_get_type', 'tag_set_attribute')
FIND = ('_get_module_fd', 'module_find_fd')
class SBase(SrvClient):
    def __init__(self, srv, root):
        super().__init__(srv, root); self.rec = Recorder(); self.n = {}
    count = Base.count; round = Base.round; put = Base.put; split = Base.split
    def joinkey(self, eng, st): return st.ts
    def loopkey(self, eng, st): return st.ts
    def tags(self, eng, st, i):
        v = eng.mk('tags', lo=0, hi=self.DBMAX); st.vals[i.dst] = v; return [st]

class Unreg(SBase):
    """I: an arbitrary tag, owned by the connection or not.  typestate: (the module: None not looked for, 'no', or 'yes'; what has been cleaned up; is I deleted?)"""
    def init(self, eng, st):
        self.P = [st.vals[p] for p, _ in eng.fn.params]
        self.I = eng.mk('I', lo=0, hi=self.DBMAX); self.T = eng.mk('tags', lo=0, hi=self.DBMAX)
        eng.assume(st, self.I.plus(1).sub(self.T))
        self.M = None
        st.ts = (None, frozenset(), False)
    def stable(self, eng, key):
        if super().stable(eng, key): return True
        return self.M is not None and key[0] != 'pure' and eng.base(key[0])[0] == 'M'
    def mod(self, eng, st): return eng.mk('M', kind='obj', lo=4096, hi=absint.BIGP)
    def done(self, st, x): st.ts = (st.ts[0], st.ts[1] | {x}, st.ts[2])
    def call(self, eng, st, i, name, args):
        c = self.c
        if name in FIND:
            self.count('lookups')
            self.put(i, 'the module of the connection is looked for', eng.eq(st, args[0], self.P[0]), 'the module of descriptor %s is looked for' % args[0])
            self.M = self.mod(eng, st)
            z = st.copy(); z.vals[i.dst] = ZERO; z.ts = ('no',) + z.ts[1:]
            st.vals[i.dst] = self.M; st.ts = ('yes',) + st.ts[1:]
            return [st, z]
        if name == 'get_tagindex': return self.tags(eng, st, i)
        if name in ('events_cleanup', 'groups_cleanup', 'module_del'):
            self.put(i, 'the module of the connection is cleaned up', self.M is not None and eng.eq(st, args[0], self.M), '%s() for %s' % (name, args[0]))
            self.put(i, 'the module is used only while it exists', 'module_del' not in st.ts[1], '%s() after the module is gone' % name)
            self.done(st, name)
            if i.dst: eng.fresh_result(st, i)
            return [st]
        if name == 'is_tag_owned':
            self.count('owner tests')
            out = []
            mine = eng.eq(st, args[0], self.P[0])
            self.put(i, 'the tags of the connection are looked for', mine, 'the tags of descriptor %s are looked for' % args[0])
            for s, same in self.split(eng, st, args[1], self.I):
                r = eng.fresh_result(s, i)
                if same and mine and not s.ts[2]:
                    if self.was: eng.assume_ne(s, r, ZERO)
                    else: s.vals[i.dst] = ZERO
                out.append(s)
            return out
        if name == 'tag_del':
            self.count('deletions')
            out = []
            for s, same in self.split(eng, st, args[0], self.I):
                own = self.M is not None and s.ts[0] == 'yes' and self.cell(eng, s, self.M.plus(c['mod_tagindex']))
                isown = own is not None and own is not False and eng.eq(s, own, args[0])
                if isown: s.ts = (s.ts[0], s.ts[1] | {'tag'}, s.ts[2])
                if same:
                    self.put(i, 'only tags of the connection are deleted', self.was or isown, 'a tag that belongs to another connection, or to none, is deleted')
                    s.ts = (s.ts[0], s.ts[1], True)
                if isown: self.put(i, 'only tags of the connection are deleted', eng.entails(s, const(1).sub(args[0])), 'index 0 is deleted for a module without a tag')
                if i.dst: eng.fresh_result(s, i)
                out.append(s)
            return out
        return super().call(eng, st, i, name, args)
    def cell(self, eng, st, addr):
        c = st.mem.get((addr, 4))
        return c and c[0]
    def load(self, eng, st, inst, addr, width, val):
        if self.M is not None and eng.base(addr)[0] == 'M':
            self.put(inst, 'the module is used only while it exists', 'module_del' not in st.ts[1], 'the module is used after it is gone')
        return None
    def ret(self, eng, st, inst, val):
        m, d, I = st.ts
        if self.was: self.put(inst, 'the tags of the connection are deleted', I, 'a tag that the connection owns stays: the next connection with the same descriptor would own it')
        self.put(inst, 'the module of the connection is looked for', m is not None, 'the module of the connection is not looked for')
        if m == 'yes':
            for f, t in (('events_cleanup', 'the events of the module are removed'), ('groups_cleanup', 'the groups of the module are removed'), ('module_del', 'the module is removed')):
                self.put(inst, t, f in d, '%s() is not called' % f)
            own = self.cell(eng, st, self.M.plus(self.c['mod_tagindex']))
            self.put(inst, 'the tag of the module is deleted', 'tag' in d or (own is not None and eng.entails(st, own)), 'the tag of the module stays')

class Owned(SBase):
    """is_tag_owned(): the owner of a tag is the connection that added it"""
    def init(self, eng, st):
        self.P = [st.vals[p] for p, _ in eng.fn.params]; st.ts = None
        self.counters_init(eng, st)
    def load(self, eng, st, inst, addr, width, val):
        self.counter_load(eng, st, addr, width, val)
        r = self.db_field(eng, addr, st); A = self.c['A_OWNED']
        if r is not None and r[1] == self.c['off_attr'] and eng.eq(st, r[0], self.P[1]) and len(val.t) == 1:
            eng.ainfo[val.t[0][0]]['kb'] = (A, 0) if self.was else (0, A)
    def field(self, eng, st, off):
        for k, v in st.mem.items():
            if k[0] == 'pure': continue
            r = self.db_field(eng, k[0], st)
            if r is not None and r[1] == off and eng.eq(st, r[0], self.P[1]): return v[0]
    def ret(self, eng, st, inst, val):
        c = self.c; self.count('results')
        a = st.copy()
        if eng.assume_ne(a, val, ZERO):
            fd = self.field(eng, a, c['off_fd'])
            self.put(inst, 'only the connection that added a tag owns it', fd is not None and eng.eq(a, fd, self.P[0]), 'a tag counts as owned without a look at who added it')
            self.put(inst, 'only tags with the attribute are owned', self.was, 'a tag counts as owned without the attribute')
        b = st.copy()
        if self.was and eng.assume_eq(b, val, ZERO):
            T = b.mem.get((atom('@_tagnextindex'), 4)); fd = self.field(eng, b, c['off_fd'])
            x = b.copy()
            out = not (eng.assume(x, self.P[1].scale(-1)) and (T is None or eng.assume(x, self.P[1].plus(1).sub(T[0]))))
            y = b.copy()
            no = fd is not None and not eng.assume_eq(y, fd, self.P[0])
            self.put(inst, 'the owner of a tag is recognised', out or no, 'a tag with the attribute that the connection added does not count as owned')

class Adder(SBase):
    """the handler that adds a tag: the owner is the connection that asked"""
    def init(self, eng, st):
        self.P = [st.vals[p] for p, _ in eng.fn.params]; st.ts = None; self.counters_init(eng, st)
    def load(self, eng, st, inst, addr, width, val): self.counter_load(eng, st, addr, width, val)
    def store(self, eng, st, inst, addr, width, val):
        r = self.db_field(eng, addr, st)
        if r is not None and r[1] == self.c['off_fd'] and width == 4:
            self.count('owners'); f = st.mem.get((self.P[0].plus(self.c['m_fd']), 4))
            self.put(inst, 'the connection that adds a tag owns it', f is not None and eng.eq(st, val, f[0]), 'the owner of the tag is %s' % val)
        return None

class Ring(SBase):
    """the module with a descriptor is found in the ring of modules; typestate: nodes whose successor has been taken"""
    def init(self, eng, st):
        self.P = [st.vals[p] for p, _ in eng.fn.params]; st.ts = (frozenset(), False)
        self.cur = (atom('@' + self.head), 8)
        self.H = eng.mk('head', lo=0, hi=absint.BIGP); st.mem[self.cur] = (self.H, None)
        self.ghosts = [self.cur]
    def load(self, eng, st, inst, addr, width, val):
        P = addr.plus(-self.c['mod_next'])
        if width == 8 and val is not None and len(P.t) == 1 and P.t[0][1] == 1 and P.c == 0:
            st.ts = (st.ts[0] | {(P, val)}, st.ts[1]); self.count('nodes')
    def judge(self, eng, st, inst, P):
        c = st.mem.get((P.plus(self.c['mod_fd']), 4))
        x = st.copy()
        self.put(inst, 'every module is looked at', c is not None and not eng.assume_eq(x, c[0], self.P[0]), 'a module is passed over although it may be the one of the connection')
    def edge(self, eng, st, blk, succ):
        if succ not in eng.loopblocks: return
        inside = eng.loopblocks[succ]
        if blk in inside:
            nx, _ = st.ts
            phis = {v for v in [eng._phival(st, i, blk) for i in succ.insts if i.op == 'phi'] if len(v.t) == 1}
            c = st.mem.get(self.cur)
            if c is not None: phis.add(c[0])
            for P, V in nx: self.judge(eng, st, blk.insts[-1], P)
            self.put(blk.insts[-1], 'every module is looked at', any(V in phis for P, V in nx), 'the search does not go on with the next module')
            st.ts = (frozenset(), True)
    def ret(self, eng, st, inst, val):
        self.count('results')
        nx, adv = st.ts
        if val is not None and not eng.eq(st, val, ZERO):
            c = st.mem.get((val.plus(self.c['mod_fd']), 4))
            self.put(inst, 'the module found is the one of the connection', c is not None and eng.eq(st, c[0], self.P[0]), 'a module of another connection is returned')
            return
        if eng.eq(st, self.H, ZERO): return
        for P, V in nx: self.judge(eng, st, inst, P)
        at = any(eng.eq(st, V, self.H) for P, V in nx)
        c = st.mem.get(self.cur)
        if not nx and adv and c is not None: at = eng.eq(st, c[0], self.H)
        self.put(inst, 'every module is looked at', at, 'the search may end before it has come round')

class EvClean(Walk):
    """events_cleanup(): for an arbitrary tag, the events of the module are removed"""
    head = 'events'; what = 'an event of the module is removed'
    def __init__(self, srv, root):
        super().__init__(srv, root); self.next = self.c['e_next']; self.n = {}
    def init(self, eng, st):
        st.ts = (False, frozenset())
        self.P = [st.vals[p] for p, _ in eng.fn.params]
        self.I = self.idx = eng.mk('I', lo=0, hi=self.DBMAX); self.T = eng.mk('tags', lo=0, hi=self.DBMAX)
        eng.assume(st, self.I.plus(1).sub(self.T))
        self.seen = False
        self.loopof = {}
        for h, bs in eng.loopblocks.items():
            for b in bs:
                if b not in self.loopof or len(bs) < len(eng.loopblocks[self.loopof[b]]): self.loopof[b] = h
    def joinkey(self, eng, st): return st.ts
    def loopkey(self, eng, st): return st.ts
    def load(self, eng, st, inst, addr, width, val):
        r = self.db_field(eng, addr, st)
        if r is not None and r[1] == self.c['off_events'] and not eng.eq(st, r[0], self.I):
            o = st.copy(); out = []
            if eng.assume_ne(o, r[0], self.I): out.append(o)
            if eng.assume_eq(st, r[0], self.I):
                super().load(eng, st, inst, addr, width, val); st.ts = (True, st.ts[1]); out.append(st)
            return out
        super().load(eng, st, inst, addr, width, val)
        if r is not None and r[1] == self.c['off_events']: st.ts = (True, st.ts[1])
        return None
    def concerns(self, eng, a, P):
        c = a.mem.get((P.plus(self.c['e_notify']), 8))
        return c is None or eng.assume_eq(a, c[0], self.P[0])
    def judge(self, eng, st, P, served, oom, inst): super().judge(eng, st, P, served, False, inst)
    def ret(self, eng, st, inst, val):
        vis, N = st.ts
        self.rec.put(inst, 'the events of every tag are looked at', vis, where(self.m, inst), 'the events of a tag are not looked at')
        self.rec.put(inst, 'the whole list is walked', all(eng.eq(st, P, ZERO) or s for P, s in N) or not vis, where(self.m, inst), 'the walk may end before the last event')
    def call(self, eng, st, i, name, args):
        if name == 'get_tagindex': st.vals[i.dst] = self.T; return [st]
        if name == 'event_del':
            for P, s in st.ts[1]:
                c = st.mem.get((P.plus(self.c['e_id']), 4))
                if c is not None and c[0] == args[1]:
                    self.rec.put(i, 'the events of the module are removed', eng.eq(st, args[0], self.I) and eng.eq(st, args[2], self.P[0]), where(self.m, i), 'event_del(%s, %s, %s)' % tuple(args[:3]))
                    self.serve(eng, st, P)
            # the node is gone, the others stay
            for k in [k for k in st.mem if k[0] != 'pure' and any(s and eng.base(k[0])[0] is not None and P == atom(eng.base(k[0])[0]) for P, s in st.ts[1])]: del st.mem[k]
            if i.dst: eng.fresh_result(st, i)
            return [st]
        return SrvClient.call(self, eng, st, i, name, args)

class EvDel(Walk):
    """event_del(): exactly the event with this number, if it belongs to the module"""
    head = 'events'; what = 'the event with the number is found'
    def __init__(self, srv, root):
        super().__init__(srv, root); self.next = self.c['e_next']; self.n = {}
    def init(self, eng, st):
        super().init(eng, st)
        self.P = [st.vals[p] for p, _ in eng.fn.params]
        s = st; st.cons = frozenset()
        self.idx = self.P[0]; self.links = {}
        self.T = eng.mk('tags', lo=0, hi=self.DBMAX)
    def concerns(self, eng, a, P):
        c = a.mem.get((P.plus(self.c['e_id']), 4))
        return c is None or eng.assume_eq(a, c[0], self.P[1])
    def ret(self, eng, st, inst, val):
        oom, N = st.ts
        ok = val is not None and eng.eq(st, val, ZERO)
        if ok: self.rec.put(inst, 'success means that the event is removed', any(s for P, s in N), where(self.m, inst), 'success although no event has been removed')
        elif not any(s for P, s in N):
            ok = not N
            for P, s in N:
                n = self.cell(eng, st, P, self.c['e_notify'], 8); d = self.cell(eng, st, P, self.c['e_id']); x = st.copy()
                ok = ok or eng.eq(st, P, ZERO) or (d is not None and eng.eq(st, d, self.P[1]) and n is not None and not eng.assume_eq(x, n, self.P[2]))
            self.rec.put(inst, 'the event with the number is found', ok, where(self.m, inst), 'gives up although the event may be the one asked for')
    def call(self, eng, st, i, name, args):
        if name == 'get_tagindex': st.vals[i.dst] = self.T; return [st]
        if name in ('_free_event', 'free', 'xfree'):
            b = eng.base(args[0])[0]
            for P, s in st.ts[1]:
                if eng.eq(st, P, args[0]):
                    i4, n8 = self.cell(eng, st, P, self.c['e_id']), self.cell(eng, st, P, self.c['e_notify'], 8)
                    self.rec.put(i, 'only the event with the number is removed', i4 is not None and eng.eq(st, i4, self.P[1]), where(self.m, i), 'an event with another number is removed')
                    self.rec.put(i, 'only events of the module are removed', n8 is not None and eng.eq(st, n8, self.P[2]), where(self.m, i), 'an event of another module is removed')
                    self.serve(eng, st, P)
            if i.dst: eng.fresh_result(st, i)
            return [st]
        return SrvClient.call(self, eng, st, i, name, args)

class Register(SBase):
    """module_register(): what an earlier connection with the descriptor left behind is removed first"""
    def init(self, eng, st):
        self.P = [st.vals[p] for p, _ in eng.fn.params]; st.ts = (None, None)
    def stable(self, eng, key):
        if super().stable(eng, key): return True
        return key[0] != 'pure' and eng.base(key[0])[0] in ('new', 'old')
    def call(self, eng, st, i, name, args):
        if name in FIND:
            self.put(i, 'the module of the connection is looked for', eng.eq(st, args[0], self.P[2]), 'the module of descriptor %s is looked for' % args[0])
            z = st.copy(); z.vals[i.dst] = ZERO; z.ts = ('none', z.ts[1])
            st.vals[i.dst] = o = eng.mk('old', kind='obj', lo=4096, hi=absint.BIGP); st.ts = ('left', st.ts[1])
            st.mem[(o.plus(self.c['mod_fd']), 4)] = (self.P[2], None)
            return [st, z]
        if name == 'module_unregister':
            self.put(i, 'the module of the connection is removed', eng.eq(st, args[0], self.P[2]), 'the module of descriptor %s is removed' % args[0])
            st.ts = ('none', st.ts[1])
            return [st]
        if name == 'module_add':
            self.count('modules')
            self.put(i, 'what an earlier connection left behind is removed', st.ts[0] == 'none', 'a second module for the descriptor')
            z = st.copy(); z.vals[i.dst] = ZERO
            st.vals[i.dst] = eng.mk('new', kind='obj', lo=4096, hi=absint.BIGP); st.ts = (st.ts[0], 'new')
            return [st, z]
        return super().call(eng, st, i, name, args)
    def ret(self, eng, st, inst, val):
        if st.ts[1] != 'new': return
        n = atom('new'); c = st.mem.get((n.plus(self.c['mod_fd']), 4))
        self.put(inst, 'the module gets the descriptor of its connection', c is not None and eng.eq(st, c[0], self.P[2]), 'the descriptor of the module is %s' % (c and c[0]))

def server(ctx):
    global srv
    global srv2
    srv = Server(extra_keep=UKEEP, inline=()); srv2 = Server()
    SPARTS[srv2.handlers[srv2.c['MSG_TAG_ADD']]] = Adder
    # head of the ring of modules
    srv.head = None
    for n in FIND:
        f = srv.m.funcs.get(n)
        if f is None or f.decl: continue
        for i in f.insts():
            if i.op == 'load' and i.ty.k == 'ptr' and i.args[0][0] == 'g': srv.head = i.args[0][1]
    if not srv.head: raise chk.Broken('the ring of modules was not found')

SPARTS = {'module_unregister': Unreg, 'is_tag_owned': Owned, '_get_module_fd': Ring, 'module_find_fd': Ring, 'events_cleanup': EvClean, 'event_del': EvDel, 'module_register': Register}
PARTS = {'msg_add_fd': Add, 'msg_del_fd': Del, 'msg_receive': Conn, 'msg_setup': Conn}
def run(ctx):
    ctx.rule = ('G is an arbitrary descriptor: while it is open it is among the descriptors waited for, is served whenever it has something to read, whatever happens to the '
                'others, and is given up exactly when its end was read; then its module, events and groups and the tags it owns are removed, and nothing of other connections is')
    setup(ctx); server(ctx)
    chk.parallel(ctx, one, [(n, w) for n in SPARTS for w in (True, False) if w or n in ('module_unregister', 'is_tag_owned')] + [(n, w) for n in sorted(PARTS) for w in (True, False) if not (w and n == 'msg_setup')])
    for k, n in (('waits', 1), ('accepts', 1), ('reads', 1), ('ends', 1), ('lookups', 1), ('deletions', 1), ('results', 2), ('owners', 1)): ctx.require(k, n)
def one(ctx, item):
    n, was = item
    if n in SPARTS:
        sv = srv2 if SPARTS[n] is Adder else srv
        f = sv.m.funcs.get(n)
        if f is None or f.decl:
            if n in FIND: return
            raise chk.Broken('function %s not found' % n)
        cl = SPARTS[n](sv, n); cl.was = was; cl.head = srv.head if n in FIND else getattr(cl, 'head', None)
        absint.Engine(sv.m, f, cl, sv.mr, K=16 if sv is srv else 6).run()
        for a, v in (cl.n if isinstance(cl.n, dict) else {}).items(): ctx.count(a, 1)
        ctx.count('functions'); cl.rec.flush(ctx, n); return
    if n not in P.m.funcs or P.m.funcs[n].decl: raise chk.Broken('function %s not found' % n)
    cl = PARTS[n](P, n); cl.was = was
    absint.Engine(P.m, P.m.funcs[n], cl, P.mr, K=16).run()
    for a, v in cl.n.items(): ctx.count(a, 1)
    ctx.count('functions'); ctx.sample('%s: %s' % (n, cl.n))
    cl.rec.flush(ctx, n)
