"""S08: groups.  A group is the list of members that was asked for; reading or writing it handles every member once, in order,
with the running sum of the sizes as the position in the data.

N is an arbitrary member.  add: typestate = fields of member N that hold what the request says.  read/write: typestate =
'before' | ('at', expected next position) | 'done'."""
import chk, absint
from server import Server, SrvClient, where
from bounds import Recorder
from lin import Lin, ZERO, const, atom

FLD = (('index', 0), ('byte', 4), ('bit', 8), ('count', 9), ('size', 13), ('type', 17))
WIRE = 21
class GBase(SrvClient):
    splits = True
    def __init__(self, srv, root):
        super().__init__(srv, root); self.rec = Recorder(); self.n = {}
    def put(self, i, tag, good, msg): self.rec.put(i, tag, good, where(self.m, i), msg)
    def count(self, k): self.n[k] = self.n.get(k, 0) + 1
    def round(self, eng, blocks): self.rec.drop(blocks)
    def joinkey(self, eng, st): return st.ts
    def loopkey(self, eng, st): return st.ts
    def member(self, eng, st, addr):
        """(member Lin, field offset) of an address in an array of members"""
        b, off = eng.base(addr)
        if b is None: return None
        hs = self.c['hsz']
        isarr = b.startswith('M:')
        o = eng.origin(b)
        if o and isinstance(o[0], Lin):
            bb, oo = eng.base(o[0])
            if oo.c % self.c['gsz'] == self.c['g_members'] and all(k % self.c['gsz'] == 0 for _, k in oo.t): isarr = True
        if not isarr or any(k % hs for _, k in off.t): return None
        fo = off.c % hs
        return Lin((off.c - fo) // hs, tuple((a, k // hs) for a, k in off.t)), fo
    def elem(self, eng, addr):
        """(number Lin, field offset) of an address in the table of groups of the module"""
        b, off = eng.base(addr)
        if b is None: return None
        o = eng.origin(b)
        tab = self.P[0].plus(self.c['mod_tag_groups'])
        if not (o and isinstance(o[0], Lin) and o[0] == tab or b in self.tables): return None
        gs = self.c['gsz']
        if any(k % gs for _, k in off.t): return None
        fo = off.c % gs
        return Lin((off.c - fo) // gs, tuple((a, k // gs) for a, k in off.t)), fo
    tables = frozenset()
    def fields(self, fo, width):
        """names of the fields of a group in a range"""
        w = width if type(width) is int else width.c if width.isconst() else self.c['gsz']
        return [f for f in ('size', 'flags', 'count', 'members') if fo <= self.c['g_' + f] < fo + w]
    def split(self, eng, st, a, b):
        out = []; x = st.copy()
        if eng.assume_eq(x, a, b): out.append((x, True))
        if eng.assume_ne(st, a, b): out.append((st, False))
        return out
    def came(self, eng, v):
        o = eng.origin(v.t[0][0]) if v is not None and len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1 else None
        return o[0] if o and isinstance(o[0], Lin) else None

class Add(GBase):
    def init(self, eng, st):
        self.P = [st.vals[p] for p, _ in eng.fn.params]; st.ts = frozenset()
        self.N = eng.mk('N', lo=0, hi=255); eng.assume(st, self.N.plus(1).sub(self.P[2])); eng.assume(st, self.P[2].sub(const(255)))
    def stable(self, eng, key): return super().stable(eng, key) or (key[0] != 'pure' and eng.base(key[0])[0] == 'p:' + eng.fn.params[1][0])
    slot = None
    def store(self, eng, st, inst, addr, width, val):
        g = self.elem(eng, addr)
        if g is not None:
            self.put(inst, 'only the new group changes', self.slot is not None and eng.eq(st, g[0], self.slot), 'group %s changes' % g[0])
            if 'flags' in self.fields(g[1], width): st.ts = st.ts | {'+set'} if val is None or not eng.eq(st, val, ZERO) else st.ts - {'+set'}
            return
        r = self.member(eng, st, addr)
        if r is None: return
        m, fo = r
        names = [(f, o) for f, o in FLD if self.c['h_' + f] == fo]
        w = width if type(width) is int else width.c if width.isconst() else None
        if w is None: return
        def src(s):
            if type(width) is int: return self.came(eng, val)
            return eng.val(s, inst.args[1]) if len(inst.args) > 1 and val is None and inst.op == 'call' else None
        out = []
        for s, same in self.split(eng, st, m, self.N):
            if same:
                self.count('fields')
                for f, o in FLD:
                    d = self.c['h_' + f] - fo
                    if d < 0 or d >= w: continue
                    fw = self.c.get('wh_' + f, 4)
                    a = src(s)
                    good = a is not None and eng.eq(s, a.plus(d), self.P[1].add(self.N.scale(WIRE)).plus(o)) and (f == 'bit' or d + fw <= w)
                    s.ts = s.ts - {f}
                    if good: s.ts = s.ts | {f}
                    self.put(inst, 'a member gets the %s that was sent for it' % f, good, '%s of a member does not come from byte 21 n + %d of the list (but from %s)' % (f, o, a))
            out.append(s)
        return out
    def ret(self, eng, st, inst, val):
        z = st.copy()
        if val is None or not eng.assume(z, val.scale(-1)):              # an error
            self.put(inst, 'a group that was not added is not marked', '+set' not in st.ts, 'an error although the group is marked as used'); return
        self.count('results')
        self.put(inst, 'the result is the number of the group', self.slot is not None and eng.eq(z, val, self.slot), 'the result is %s' % val)
        self.put(inst, 'the new group is marked as used', '+set' in st.ts, 'success although the group is not marked as used')
        self.put(inst, 'every member is stored', st.ts - {'+set'} == frozenset(f for f, _ in FLD), 'success although of a member only (%s) was stored' % ', '.join(sorted(st.ts)))
        g = [c[0] for k, c in z.mem.items() if k[0] != 'pure' and eng.base(k[0])[1].c % self.c['gsz'] == self.c['g_count'] and eng.base(k[0])[0] is not None and eng.origin(eng.base(k[0])[0])]
        if g: self.put(inst, 'the group has as many members as were sent', any(eng.eq(st, x, self.P[2]) for x in g), 'the number of members becomes %s' % [str(x) for x in g])
    def call(self, eng, st, i, name, args):
        if name in ('_group_add',):
            eng.clobber(st, i, None, args); self.slot = eng.fresh_result(st, i)
            self.put(i, 'the table is that of the module', eng.eq(st, args[0], self.P[0]), 'a group of %s is used' % args[0])
            return [st]
        return super().call(eng, st, i, name, args)

class Slot(GBase):
    """_group_add, group_del: the table of groups.  S is an arbitrary group of the table before (role 'old') or an arbitrary
    number behind it (role 'new'); facts: ('free'|'used', number), 'init' (group S was marked free)"""
    role = 'old'
    def init(self, eng, st):
        c = self.c
        self.P = [st.vals[p] for p, _ in eng.fn.params]; st.ts = frozenset(); self.blocksz = {}
        self.S0 = ZERO if self.role == 'first' else eng.mk('S0', lo=1 if self.role == 'new' else 0, hi=4096); self.S = eng.mk('S', lo=0, hi=1 << 20)
        st.mem[(self.P[0].plus(c['mod_groups_size']), c['w_groups_size'])] = (self.S0, None)
        eng.assume(st, self.S.sub(self.S0).plus(1) if self.role == 'old' else self.S0.sub(self.S))
    def stable(self, eng, key):
        if super().stable(eng, key): return True
        return key[0] != 'pure' and eng.base(key[0])[0] == 'p:' + eng.fn.params[0][0]
    def load(self, eng, st, inst, addr, width, val):
        r = self.elem(eng, addr)
        if r is None or r[1] != self.c['g_flags'] or val is None or type(width) is not int: return
        out = []
        for v, f in ((0, 'free'), (1, 'used')):
            z = st.copy()
            if not eng.assume_eq(z, val, const(v)): continue
            z.vals[inst.dst] = const(v); z.mem[(addr, width)] = (const(v), None)
            z.ts = z.ts | {(f, r[0])}; out.append(z)
        return out
    def edge(self, eng, st, blk, succ):
        if succ not in eng.loopblocks: return
        local = set(i.dst for b in eng.loopblocks[succ] for i in b.insts if i.dst)
        st.ts = frozenset(f for f in st.ts if type(f) is str or not eng.deps(f[1]) & local)
    def store(self, eng, st, inst, addr, width, val):
        r = self.elem(eng, addr)
        if r is None:
            b, off = eng.base(addr)
            if addr == self.P[0].plus(self.c['mod_tag_groups']) and val is not None: return self.newtable(eng, st, inst, val)
            return
        if inst.op == 'call' and len(inst.args) > 1 and width != self.c['gsz']:  # the table is copied into a new block
            t, v = st.mem.get((self.P[0].plus(self.c['mod_tag_groups']), 8)), eng.val(st, inst.args[1])
            if t is not None and v is not None and eng.eq(st, t[0], v): return
        n, fo = r; out = []
        for s, same in self.split(eng, st, n, self.S):
            if same and self.role == 'old': self.changed(eng, s, inst, n, self.fields(fo, width), val)
            if same and self.role in ('new', 'first') and 'flags' in self.fields(fo, width):
                good = val is not None and eng.eq(s, val, ZERO) or val is None and self.zero(eng, s, inst)
                s.ts = s.ts | {'init'} if good else s.ts - {'init'}
            out.append(s)
        return out
    def zero(self, eng, s, inst):
        return inst.op == 'call' and ('bzero' in str(inst.extra) or 'memset' in str(inst.extra) and len(inst.args) > 1 and eng.eq(s, eng.val(s, inst.args[1]), ZERO))
    def changed(self, eng, s, inst, n, f, val):
        self.put(inst, 'the groups that exist stay as they are', False, 'group %s, which exists, is changed' % n)
    def newtable(self, eng, st, inst, val):
        if len(val.t) == 1 and val.c == 0: self.tables = self.tables | {val.t[0][0]}
        if self.role != 'old':                                   # is S in the block?
            z = self.blocksz.get(eng.base(val)[0])
            if z is None: return
            gs = self.c['gsz']; a, b = st.copy(), st.copy(); out = []
            if eng.assume(a, self.S.scale(gs).plus(gs).sub(z)): a.ts = a.ts - {'out'}; out.append(a)
            if eng.assume(b, z.sub(self.S.scale(gs)).plus(1 - gs)): b.ts = b.ts | {'out'}; out.append(b)
            return out
        kept = 'kept' in st.ts or self.came(eng, val) == self.P[0].plus(self.c['mod_tag_groups'])
        self.put(inst, 'the groups that exist stay in the table', kept, 'the table is replaced by another block')
    def call(self, eng, st, i, name, args):
        tab = st.mem.get((self.P[0].plus(self.c['mod_tag_groups']), 8))
        if name.startswith(('memset', 'llvm.memset', 'bzero')):
            n, r = args[1 if name == 'bzero' else 2], self.elem(eng, args[0])
            if r is not None and n.isconst() and n.c <= self.c['gsz']:
                out = self.store(eng, st, i, args[0], n.c, None)
                for z in out: eng._memset(z, args[0], ZERO, n)
                return out
        if name in ('realloc', 'xrealloc', 'malloc', 'xmalloc'): self.blocksz['M:' + i.dst] = args[-1]
        if name in ('realloc', 'xrealloc') and self.role == 'old' and tab is not None and eng.eq(st, args[0], tab[0]):
            st.ts = st.ts | {'kept'}
        if name.startswith(('memcpy', 'memmove', 'llvm.memcpy', 'llvm.memmove')) and self.role == 'old' and tab is not None and eng.eq(st, args[1], tab[0]) and eng.entails(st, self.S0.scale(self.c['gsz']).sub(args[2])): st.ts = st.ts | {'kept'}
        return super().call(eng, st, i, name, args)
    def ret(self, eng, st, inst, val):
        z = st.copy()
        if val is None or not eng.assume(z, val.scale(-1)): return
        self.count('results')
        if self.role == 'old':
            free = any(type(f) is tuple and f[0] == 'free' and eng.eq(z, f[1], val) for f in z.ts)
            self.put(inst, 'the number of a new group is free', free or eng.entails(z, self.S0.sub(val)), 'group %s may be in use' % val)
        sz = z.mem.get((self.P[0].plus(self.c['mod_groups_size']), self.c['w_groups_size']))
        self.put(inst, 'a new group is in the table', sz is not None and eng.entails(z, val.plus(1).sub(sz[0])), 'group %s may be behind the table' % val)
        if self.role in ('new', 'first') and sz is not None:
            if eng.assume(z, self.S.plus(1).sub(sz[0])): self.put(inst, 'new groups are free', 'init' in z.ts, 'a group behind the old ones is not marked as free')
class SlotNew(Slot): role = 'new'
class SlotFirst(Slot): role = 'first'                          # there is no table yet

class Del(Slot):
    """group_del: exactly the group asked for is marked free, its members are freed"""
    def init(self, eng, st):
        super().init(eng, st)
        self.IX = self.P[1]
    def changed(self, eng, s, inst, n, f, val):
        self.put(inst, 'only the group asked for is removed', eng.eq(s, n, self.IX), 'group %s is changed' % n)
        if 'flags' in f: s.ts = s.ts | {'cleared'} if val is not None and eng.eq(s, val, ZERO) or val is None and self.zero(eng, s, inst) else s.ts - {'cleared'}
    def call(self, eng, st, i, name, args):
        if name in ('free', 'xfree'):
            a = self.came(eng, args[0]); r = self.elem(eng, a) if a is not None else None
            self.count('freed')
            out = []
            for s, same in self.split(eng, st, r[0] if r else self.IX, self.S):
                if same:
                    self.put(i, 'the members of the group asked for are freed', r is not None and r[1] == self.c['g_members'] and eng.eq(s, r[0], self.IX) and 'freed' not in s.ts, '%s is freed' % args[0])
                    s.ts = s.ts | {'freed'}
                eng.clobber(s, i, None, args); out.append(s)
            return out
        return super().call(eng, st, i, name, args)
    def ret(self, eng, st, inst, val):
        z = st.copy()
        if val is None or not eng.assume_eq(z, self.S, self.IX): return
        used = any(type(f) is tuple and f[0] == 'used' and eng.eq(z, f[1], self.IX) for f in z.ts)
        if eng.assume_eq(z, val, ZERO):
            self.count('results')
            self.put(inst, 'a group that does not exist is not found', used, 'success although the group is not known to exist')
            self.put(inst, 'the group is removed', {'cleared', 'freed'} <= z.ts, 'success although the group is not %s' % ('freed' if 'cleared' in z.ts else 'marked as free'))
        else: self.put(inst, 'an error removes nothing', not {'cleared', 'freed'} & z.ts, 'an error although the group was removed')

class Go(GBase):
    """group_read, group_write"""
    op = None; buf = 2
    def init(self, eng, st):
        self.P = [st.vals[p] for p, _ in eng.fn.params]
        self.N = eng.mk('N', lo=0, hi=255); st.ts = ('free?', None, False)
        if len(self.P) > 3: eng.assume(st, self.P[3].scale(-1)); eng.assume(st, self.P[3].sub(const(self.c['GRPDATA'])))
        st.mem[(self.P[0].plus(self.c['mod_groups_size']), self.c['w_groups_size'])] = (eng.mk('S0', lo=0, hi=4096), None)
        self.count_ = None
    def stable(self, eng, key):                              # the values of tags are not groups
        if super().stable(eng, key): return True
        if key[0] == 'pure': return False
        b, off = eng.base(key[0])
        if self.member(eng, None, key[0]) is not None: return True
        if b == 'p:' + eng.fn.params[0][0]: return True
        o = eng.origin(b) if b else None
        return bool(o and isinstance(o[0], Lin) and eng.base(o[0])[0] == 'p:' + eng.fn.params[0][0])
    def load(self, eng, st, inst, addr, width, val):
        b, off = eng.base(addr)
        o = eng.origin(b) if b else None
        g = self.elem(eng, addr) if self.member(eng, st, addr) is None else None
        if g is not None and g[1] == self.c['g_flags'] and val is not None and type(width) is int:
            out = []
            for v in (0, 1):
                z = st.copy()
                if not eng.assume_eq(z, val, const(v)): continue
                z.vals[inst.dst] = const(v); z.mem[(addr, width)] = (const(v), None)
                if v and eng.eq(z, g[0], self.P[1]): z.ts = ('start' if z.ts[0] == 'free?' else z.ts[0],) + z.ts[1:]
                out.append(z)
            return out
        if val is not None and o and isinstance(o[0], Lin) and o[0] == self.P[0].plus(self.c['mod_tag_groups']) and off.c % self.c['gsz'] == self.c['g_count'] and width < 8 and self.member(eng, st, addr) is None:
            eng.assume(st, self.N.plus(1).sub(val)); self.C = val      # N is one of the members
        r = self.member(eng, st, addr)
        if r is not None and r[1] == self.c['h_size'] and val is not None:
            eng.assume(st, val.scale(-1))
    def edge(self, eng, st, blk, succ):
        p, x, bad = st.ts
        if p != 'at' or succ not in eng.loopblocks: return
        inside = eng.loopblocks[succ]
        local = set(i.dst for b in inside for i in b.insts if i.dst)
        if not eng.deps(x) & local: return
        for i in succ.insts:
            if i.op == 'phi' and i.ty.k == 'int':
                v = eng._phival(st, i, blk)
                if v is not None and (v == x or eng.eq(st, v, x)):
                    st.ts = (p, atom('v:' + i.dst), bad); return
        st.ts = (p, None, bad)
    def call(self, eng, st, i, name, args):
        if name == self.op:
            self.count('members')
            self.put(i, 'a group that does not exist is not found', st.ts[0] != 'free?', '%s() for a group that is not known to exist' % name)
            a = {f: self.came(eng, args[k]) for f, k in (('index', 1), ('byte', 2), ('size', 4))}
            r = self.member(eng, st, a['index']) if a['index'] is not None else None
            if r is None or r[1] != self.c['h_index']:
                self.put(i, 'the tag of a member is handled', False, '%s() for %s, which is not the tag of a member' % (name, args[1])); return None
            m = r[0]; base = a['index'].plus(-self.c['h_index'])
            for f in ('byte', 'size'):
                self.put(i, 'the %s of the member is used' % f, a[f] is not None and a[f] == base.plus(self.c['h_' + f]), '%s of the member is not used (%s)' % (f, args[2 if f == 'byte' else 4]))
            self.put(i, 'the connection of the module is used', self.isfd(eng, st, args[0]), '%s() for descriptor %s' % (name, args[0]))
            pos = args[3].sub(self.P[self.buf])
            out = []
            for s, same in self.split(eng, st, m, self.N):
                p, x, bad = s.ts
                if p == 'at':
                    nxt = eng.eq(s, m, self.N.plus(1))
                    self.put(i, 'the members are handled in order, each once', nxt, 'after member N comes member %s' % m)
                    self.put(i, 'the data of a member follows that of the one before', x is not None and eng.eq(s, pos, x), 'the data of the next member is at %s instead of %s' % (pos, x))
                    s.ts = ('done', None, bad)
                elif same:
                    self.put(i, 'the members are handled in order, each once', p in ('free?', 'start', 'before'), 'member N is handled twice')
                    z = s.copy()
                    if eng.assume_eq(z, self.N, ZERO): self.put(i, 'the data of the first member comes first', eng.eq(z, pos, ZERO), 'the data of the first member is at %s' % pos)
                    s.ts = ('at', pos.add(args[4]), bad)
                elif p in ('start', 'free?'): s.ts = ('before', None, bad)
                t, e = s.copy(), s
                if i.dst:
                    t.vals[i.dst] = ZERO; eng.fresh_result(e, i)
                    if not eng.assume_ne(e, e.vals[i.dst], ZERO): out.append(t); continue
                    e.ts = (e.ts[0], e.ts[1], True); out += [t, e]
                else: out.append(t)
            return out
        return super().call(eng, st, i, name, args)
    def isfd(self, eng, st, v): return self.came(eng, v) == self.P[0].plus(self.c['mod_fd'])
    def ret(self, eng, st, inst, val):
        p, x, bad = st.ts
        self.put(inst, 'an error of a member is an error of the request', not bad or (val is not None and eng.nonzero(st, val) if hasattr(eng, 'nonzero') else not bad or not eng.assume_eq(st.copy(), val, ZERO)), 'success although a member failed')
        z = st.copy()
        if val is None or bad or not eng.assume(z, val.scale(-1)): return
        self.count('results')
        if p == 'at':
            self.put(inst, 'every member is handled', self.C is not None and eng.entails(z, self.C.sub(self.N).plus(-1)), 'success although the members behind N were not handled')
            self.put(inst, 'the result is the size of all members', x is not None and eng.eq(z, val, x), 'the result is %s, the last member ends at %s' % (val, x))
        else: self.put(inst, 'every member is handled', p == 'done', 'success although member N was not handled')
    C = None
class Read(Go): op = 'tag_read'
class Write(Go): op = 'tag_write'

class Handler(GBase):
    """the request's bytes get to the group function, its result to the connection"""
    fn = None; extra = {}
    def init(self, eng, st):
        self.P = [st.vals[p] for p, _ in eng.fn.params]; st.ts = None
    def at(self, k): return self.P[0].plus(self.c['m_data'] + k)
    def call(self, eng, st, i, name, args):
        c = self.c
        if name in ('module_find_fd', '_get_module_fd'):
            f = st.mem.get((self.P[0].plus(c['m_fd']), c['mw_fd']))
            self.put(i, 'the module of the connection is used', f is not None and eng.eq(st, f[0], args[0]), 'the module of descriptor %s' % args[0])
            z = st.copy(); z.vals[i.dst] = ZERO; z.ts = None
            st.vals[i.dst] = eng.mk('mod', kind='obj', lo=4096, hi=absint.BIGP); return [st, z]
        if name == self.fn:
            self.count('requests')
            self.put(i, 'the module of the connection is used', args[0] == atom('mod'), '%s() for %s' % (name, args[0]))
            if name == 'group_add':
                self.put(i, 'the list of members is that of the request', eng.eq(st, args[1], self.at(2)), 'the list is at %s' % args[1])
                self.put(i, 'the number of members is that of the request', self.byte(eng, st, args[2], 0, 1), 'the number of members is %s' % args[2])
            else: self.put(i, 'the group is the one of the request', self.byte(eng, st, args[1], 0, 4), 'the group is %s' % args[1])
            if name == 'group_read': self.put(i, 'the data fits', eng.entails(st, args[3].scale(-1)) and eng.entails(st, args[3].sub(const(c['GRPDATA']))), '%s bytes' % args[3])
            if name == 'group_write': self.put(i, 'the data is that of the request', eng.eq(st, args[2], self.at(4)), 'the data is at %s' % args[2])
            z = st.copy(); r = eng.fresh_result(st, i); eng.assume(st, r.scale(-1)); st.ts = ('ok', r, args[2] if name == 'group_read' else None)
            q = eng.fresh_result(z, i); eng.assume(z, q.plus(1)); z.ts = ('err', q, None)
            eng.assume(st, r.sub(const(c['GRPDATA'])))
            return [st, z]
        if name == '_message_send' and st.ts is not None and st.ts[0] == 'ok':
            self.count('replies')
            k = {'group_add': 'id', 'group_read': 'data'}.get(self.fn)
            if k == 'data':
                self.put(i, 'the reply is the data of the group', eng.eq(st, args[2], st.ts[2]) and eng.eq(st, args[3], st.ts[1]), 'the reply is %s, %s bytes' % (args[2], args[3]))
            if k == 'id':
                v = st.mem.get((args[2], 4)); self.put(i, 'the reply is the number of the group', v is not None and eng.eq(st, v[0], st.ts[1]), 'the reply is %s' % (v and v[0]))
        return super().call(eng, st, i, name, args)
    def byte(self, eng, st, v, k, w):
        a = self.came(eng, v)
        if a is not None: return a == self.at(k)
        c = st.mem.get((self.at(k), w)); return c is not None and eng.eq(st, c[0], v)

UKEEP = {'_group_add', 'group_add', 'group_del', 'group_read', 'group_write', 'tag_read', 'tag_write', 'is_tag_readonly', 'is_tag_owned', 'module_find_fd', '_get_module_fd'}
def parts(srv):
    c = srv.c; r = [('_group_add', 'Slot', None), ('_group_add', 'SlotNew', None), ('_group_add', 'SlotFirst', None), ('group_del', 'Del', None), ('group_add', 'Add', None), ('group_read', 'Read', None), ('group_write', 'Write', None)]
    for m, f in (('MSG_GRP_ADD', 'group_add'), ('MSG_GRP_DEL', 'group_del'), ('MSG_GRP_READ', 'group_read'), ('MSG_GRP_WRITE', 'group_write')):
        if c.get(m) in srv.handlers: r.append((srv.handlers[c[m]], 'Handler', f))
    return r
gsrv = None
def prepare():
    global gsrv
    gsrv = Server(extra_keep=UKEEP)
    return [('grp',) + p for p in parts(gsrv)]
def group(ctx, item):
    _, n, C, f = item
    fn = gsrv.m.funcs.get(n)
    if fn is None or fn.decl: raise chk.Broken('function %s not found' % n)
    cl = globals()[C](gsrv, n)
    if f: cl.fn = f
    absint.Engine(gsrv.m, fn, cl, gsrv.mr, K=12).run()
    ctx.count('functions'); ctx.sample('%s: %s' % (n, cl.n))
    for a, v in cl.n.items(): ctx.count(a, 1)
    cl.rec.flush(ctx, n)
def run(ctx):
    ctx.rule = ('N is an arbitrary member: all its fields are those at byte 21 N of the list; it is read or written exactly once, at the position where the data of '
                'member N-1 ends (0 for the first), and the last one is followed by the end of the data')
    chk.parallel(ctx, group, prepare())
    ctx.require('results', 1)
