"""Bounds of every access to buffers whose size is known: locals, globals, allocated objects, array fields of records,
pointers with a companion size field and parameters with a contract."""
import re, signal
import irbuild, absint
from chk import parallel
from bounds import BoundsMixin, Recorder
from prog import Program, ProgClient
from server import where, FREE
from ir import int_ty
from lin import Lin, ZERO, const, atom

# external functions: argument -> how many bytes are (r)ead / (w)ritten
CALLS = {'swab': [(0, 2, 'r'), (1, 2, 'w')], 'read': [(1, 2, 'w')], 'recv': [(1, 2, 'w')], 'write': [(1, 2, 'r')], 'send': [(1, 2, 'r')],
         'memset': [(0, 2, 'w')], 'bzero': [(0, 1, 'w')], 'strncpy': [(0, 2, 'w')], 'snprintf': [(0, 1, 'w')], 'vsnprintf': [(0, 1, 'w')],
         'fgets': [(0, 1, 'w')], 'memcmp': [(0, 2, 'r'), (1, 2, 'r')], 'fread': None, 'strftime': [(0, 1, 'w')], 'readlink': [(1, 2, 'w')],
         'gethostname': [(0, 1, 'w')], 'getcwd': [(0, 1, 'w')], 'inet_ntop': [(2, 3, 'w')]}

NORETURN = {'exit', '_exit', 'abort', '__assert_fail', '_Exit', 'luaL_error', 'lua_error', 'luaL_argerror', 'luaL_typeerror'}
# functions of the library that a module hands a handle and a buffer of its size: function -> (handle, buffers)
HANDLES = {'dax_read_tag': (1, [(2, 'write')]), 'dax_write_tag': (1, [(2, 'read')]), 'dax_mask_tag': (1, [(2, 'read'), (3, 'read')]),
           'dax_tag_write': (1, [(2, 'read')]), 'dax_tag_read': (1, [(2, 'write')])}

ARITH = {'add', 'sub', 'mul', 'zext', 'sext', 'trunc', 'phi', 'icmp', 'freeze', 'sdiv', 'udiv', 'select'}

class Bufs(BoundsMixin, ProgClient):
    sized = ()            # (struct, offset of the pointer, offset of the size, width of the size, unit)
    fixed = {}            # (struct, offset of the pointer) -> size in bytes
    rels = ()             # (struct, offset a, offset b, width): field a never exceeds field b
    ranges = {}           # (struct, offset) -> (lowest, highest value)
    contracts = {}        # function -> {parameter number: size in bytes or ('p', parameter number)}
    assumed = {}          # the same, but not checked where the field is stored
    published = {}        # the same, checked where the record is published: stored somewhere or returned
    hsize = 16            # offset of the size in a tag handle
    api = False           # other programs can call every function that is not static
    hlen = 24             # size of a tag handle
    def __init__(self, prog, root): ProgClient.__init__(self, prog, root); self.bounds_init(); self.touched = {}
    def init(self, eng, st):
        st.ts = ()
        for n, t in eng.fn.params:
            if t.k == 'int' and t.n == 64: eng.assume(st, atom('p:' + n).scale(-1)); eng.assume(st, atom('p:' + n).plus(-(1 << 60)))    # sizes of real objects
        for k, v in self.contracts.get(eng.fn.name, {}).items():
            if k >= len(eng.fn.params): continue
            p = 'p:' + eng.fn.params[k][0]
            eng.ainfo.setdefault(p, {})['psize'] = const(v) if isinstance(v, int) else atom('p:' + eng.fn.params[v[1]][0])
            if not isinstance(v, int): eng.assume(st, eng.ainfo[p]['psize'].scale(-1))
    # ---- invariants of records
    def ftag(self, inst):
        t = self.m.tbaa(inst.tbaa) if inst.tbaa is not None else None
        return (t[1], t[2]) if t and not t[4] else None
    def own(self, eng, st, addr, w):
        """the value of this field is the one it had when it was first read"""
        c = st.mem.get((addr, w))
        if c is None: return True
        o = eng.origin(c[0].t[0][0]) if len(c[0].t) == 1 and c[0].c == 0 else None
        return bool(o) and o[0] == addr
    def after_load(self, eng, st, inst, addr, width, val):
        if val is None:
            # a handle is copied: its size goes along
            if inst.op == 'call' and len(inst.args) > 2 and width == const(self.hlen) and (addr.plus(self.hsize), 4) not in st.mem:
                nm = eng.variant('H:%s:%d' % (inst.block.name, inst.idx), (addr, None)); eng._killatom(st, nm)
                v = eng.mk(nm, int_ty(32), deps=[x.dst for x in inst.block.insts[:inst.idx] if x.dst][-1:] or ['!h'], origin=(addr.plus(self.hsize), None))
                st.mem[(addr.plus(self.hsize), 4)] = (v, None)
                g = eng.defs.get(inst.args[1][1]) if inst.args[1][0] == 'r' else None
                t = g.extra if g is not None and g.op == 'getelementptr' else None
                if t is not None and t.k == 'struct' and len(g.args) == 3 and g.args[2][0] == 'i':
                    nm = str(t.name).replace('struct.', '')
                    self.invariants(eng, st, (nm, self.m.field_off(t, g.args[2][1]) + self.hsize), addr.plus(self.hsize), v, inst.block.name, None)
            return
        if inst.op == 'load' and inst.args[0][0] == 'g' and val.t:
            lo, hi = self.p.gbounds(inst.args[0][1])
            if lo is not None: eng.assume(st, const(lo).sub(val))
            if hi is not None: eng.assume(st, val.sub(const(hi)))
        t = self.ftag(inst)
        if t is None or not self.own(eng, st, addr, width): return
        self.invariants(eng, st, t, addr, val, inst.dst, self.m.tbaa(inst.tbaa))
    def invariants(self, eng, st, t, addr, val, dep, tag):
        r = self.ranges.get(t) or self.assumed.get(t)
        if r is None and t in self.published:
            b, _ = eng.base(addr)
            if b is not None and b[0] != '&' and not b.startswith('M:'): r = self.published[t]
        if r: eng.assume(st, const(r[0]).sub(val)); eng.assume(st, val.sub(const(r[1])))
        for s, a, b, w in self.rels:
            if t[0] != s or t[1] not in (a, b): continue
            oa = addr.plus((b if t[1] == a else a) - t[1])
            if not self.own(eng, st, oa, w): continue
            c = st.mem.get((oa, w))
            if c is None:
                nm = eng.variant('R:%s' % dep, (oa, None))
                eng._killatom(st, nm)
                o = eng.mk(nm, int_ty(8 * w), deps=[dep], origin=(oa, None)); st.mem[(oa, w)] = (o, tag)
            else: o = c[0]
            x, y = (val, o) if t[1] == a else (o, val)
            eng.assume(st, x.sub(y))
            r = self.ranges.get((s, b if t[1] == a else a)) or self.assumed.get((s, b if t[1] == a else a))
            if r: eng.assume(st, const(r[0]).sub(o)); eng.assume(st, o.sub(const(r[1])))
    def after_store(self, eng, st, inst, addr, width, val):
        if val is not None and self.published:
            b, o = eng.base(val); ab, _ = eng.base(addr)
            if b is not None and b.startswith('M:') and o == ZERO and ab is not None and ab[0] != '&': self.publish(eng, st, inst, b)
        if val is not None and inst.op == 'store' and inst.args[1][0] == 'g' and inst.args[1][1] in self.p.gtry:
            r = self.p.gtry[inst.args[1][1]]
            self.gok &= eng.entails(st, const(r[0]).sub(val)) and eng.entails(st, val.sub(const(r[1])))
        t = self.ftag(inst)
        if t is None or val is None: return None
        if t in self.published:
            b, _ = eng.base(addr)
            if b is None or b[0] != '&':
                self.touched[('p', addr.plus(-t[1]), (t[0], t[1], width))] = inst
                if b is None or not b.startswith('M:'): self.inrange(eng, st, inst, inst, t, val, self.published[t])
        r = self.ranges.get(t)
        if r: self.inrange(eng, st, inst, inst, t, val, r)
        for x in self.sized:
            if t[0] == x[0] and t[1] in (x[1], x[2]): self.touched[('s', addr.plus(-t[1]), x)] = inst
        for x in self.rels:
            if t[0] == x[0] and t[1] in (x[1], x[2]): self.touched[('r', addr.plus(-t[1]), x)] = inst
        return None
    def inrange(self, eng, st, inst, at, t, val, r):
        good = eng.entails(st, const(r[0]).sub(val)) and eng.entails(st, val.sub(const(r[1])))
        self.rec.put(inst, ('range of a field', t[1]), good, where(self.m, at), 'field at offset %d of %s becomes %s, not proved to be in %d..%d' % (t[1], t[0], val, *r)); self.checked += 1
    def publish(self, eng, st, inst, b):
        for (k, base, x), i in self.touched.items():
            if k != 'p' or base != atom(b): continue
            c = st.mem.get((base.plus(x[1]), x[2]))
            if c is not None: self.inrange(eng, st, inst, i, x[:2], c[0], self.published[x[:2]])
    def ret(self, eng, st, inst, val):
        if val is not None and self.published:
            b, o = eng.base(val)
            if b is not None and b.startswith('M:') and o == ZERO: self.publish(eng, st, inst, b)
        for (k, base, x), i in self.touched.items():
            if k == 'p': continue
            s, a, b, w = x[:4]
            if k == 'r':
                ca, cb = st.mem.get((base.plus(a), w)), st.mem.get((base.plus(b), w))
                if ca is None or cb is None or (self.own(eng, st, base.plus(a), w) and self.own(eng, st, base.plus(b), w)): continue
                self.rec.put(inst, ('relation', a, base), eng.entails(st, ca[0].sub(cb[0])), where(self.m, i),
                             'the fields of %s become %s and %s: the first is not proved to stay below the second' % (s, ca[0], cb[0])); self.checked += 1
            else:
                ca, cb = st.mem.get((base.plus(a), 8)), st.mem.get((base.plus(b), w))
                if ca is None or cb is None or ca[0] == ZERO or cb[0] == ZERO: continue
                if self.own(eng, st, base.plus(a), 8) and self.own(eng, st, base.plus(b), w): continue
                pb, po = eng.base(ca[0])
                if pb is None: continue
                e = self.extent(eng, st, i, pb, po, ZERO)
                if e is None or e == 'skip': continue
                if e[1].endswith(' buffer') and not self.own(eng, st, base.plus(b), w) and self.own(eng, st, base.plus(a), 8): continue
                self.rec.put(inst, ('size', a, base), eng.entails(st, po.add(cb[0].scale(x[4])).sub(e[0])), where(self.m, i),
                             'the size recorded in %s becomes %s, the buffer has %s bytes' % (s, cb[0], e[0])); self.checked += 1
    # ---- extents
    def region(self, eng, st, op, d=0):
        """(start address, size) of the array field of a record that this address lies in"""
        x = eng.defs.get(op[1]) if op and op[0] == 'r' else None
        if x is None or x.op != 'getelementptr' or d > 8: return None
        t = x.extra; ops = x.args; m = self.m
        if t.k not in ('struct', 'arr'):
            return self.region(eng, st, ops[0], d + 1)
        cur = t; instruct = False
        for k, o in enumerate(ops[2:], 2):
            cur = self.real(cur)
            if cur.k == 'struct':
                instruct = True; cur = cur.sub[o[1]]
            elif cur.k == 'arr':
                if instruct: return eng.gep(st, t, ops[:k]), m.size(cur), self.real(t)
                cur = cur.sub
            else: return None
        if self.real(cur).k == 'arr' and instruct: return eng.gep(st, t, ops), m.size(cur), self.real(t)
        return None
    def real(self, t): return t
    def extent(self, eng, st, i, b, off, n):
        if b.startswith('&') or b.startswith('M:'):
            if self.isset(eng, b): return 'skip'
            s = eng.ainfo[b].get('size')
            if s is None: return 'skip'
            if b.startswith('M:') and self.oftag(eng, b): self.lax = True
            return (const(s) if isinstance(s, int) else s), 'a local' if b[0] == '&' else 'an allocated block'
        if b.startswith('@'):
            g = self.m.globals.get(b[1:])
            if g is None or g.external: return 'skip'
            return const(self.m.size(g.ty)), 'a global'
        if eng.ainfo[b].get('psize') is not None: return eng.ainfo[b]['psize'], 'a buffer that was passed'
        o = eng.origin(b)
        if o and isinstance(o[0], Lin):
            pb, po = eng.base(o[0])
            if pb is not None and po.isconst():
                tag = o[1][0] if o[1] and len(o[1]) else None
                for s, pd, ps, w, unit in self.sized:
                    if po.c == pd and self.tagged(o[1], s):
                        c = st.mem.get((o[0].plus(ps - pd), w))
                        if c is None:
                            v = eng.mk('size(%s)' % b, lo=0, hi=(1 << 31) - 1, origin=(o[0].plus(ps - pd), None)); st.mem[(o[0].plus(ps - pd), w)] = (v, None)
                            self.invariants(eng, st, (s, ps), o[0].plus(ps - pd), v, b, None)
                        else: v = c[0]
                        return v.scale(unit), '%s buffer' % s
                for (s, pd), size in self.fixed.items():
                    if po.c == pd and self.tagged(o[1], s): return const(size), '%s buffer' % s
        return 'skip'
    def oftag(self, eng, b):
        """a block that was allocated for the data of a handle, with exactly the size in the handle"""
        x = eng.defs.get(b[2:].split('~')[0])
        return x is not None and x.dbg is not None and self.loc(x) in self.p.htags
    def loc(self, x): return where(self.m, x).split(' <- ')[0]
    def isset(self, eng, b):
        a = eng.defs.get(b[1:]) if b[0] == '&' else None
        t = getattr(a, 'ty', None) if a is not None else None
        return any(k in str(x) for k in ('fd_set', '__sigset_t') for x in (getattr(a, 'extra', ''), t))    # (linking makes them one type)
    lax = False; gok = True
    def terminated(self, eng, off):
        if self.lax: self.lax = False; return True
        return self.counted(eng, off)
    def counted(self, eng, off):
        """the offset counts along a list or a string: nothing in the loop compares the counter"""
        ds = set().union(*[eng.ainfo[a]['deps'] for a, _ in off.t if a in eng.ainfo]) if off.t else set()
        for h, blocks in eng.loopblocks.items():
            ph = {p.dst for p in h.insts if p.op == 'phi' and p.ty.k == 'int'} & ds
            if ph and not any(self.compared(eng, blocks, p) for p in ph): return True
        return False
    def compared(self, eng, blocks, p):
        c = self.__dict__.setdefault('_cmp', {}); k = (p, id(blocks))
        if k in c: return c[k]
        der = {p}; grew = True
        while grew:
            grew = False
            for b in blocks:
                for i in b.insts:
                    if i.dst and i.dst not in der and i.op in ARITH and any(a[0] == 'r' and a[1] in der for a in i.args): der.add(i.dst); grew = True
        c[k] = any(b.insts[-1].op in ('br', 'switch') and len(b.insts[-1].args) and b.insts[-1].args[0][0] == 'r' and b.insts[-1].args[0][1] in der for b in blocks)
        return c[k]
    def tagged(self, tag, s): return tag is None or s in str(tag)
    def access2(self, eng, st, i, op, addr, n, kind):
        self.lax = False
        if isinstance(n, int): n = const(n)
        r = self.region(eng, st, op)
        if r is not None:
            start, size, t = r
            if 'fd_set' in str(getattr(t, 'name', '')): return
            off = addr.sub(start)
            if not off.isconst() or not n.isconst() or True:
                good = eng.entails(st, off.scale(-1)) and eng.entails(st, off.add(n).plus(-size))
                if not good and eng.entails(st, n): good = True
                if not good and self.terminated(eng, off): return
                self.checked += 1
                self.rec.put(i, 'field of %s' % getattr(t, 'name', '?'), good, where(self.m, i),
                             '%s of %s bytes at offset %s of an array field is not proved to stay inside its %d bytes' % (kind, n, off, size))
                return
        self.access(eng, st, i, addr, n, kind)
    def load(self, eng, st, inst, addr, width, val):
        op = inst.args[0] if inst.op == 'load' else (inst.args[1] if len(inst.args) > 1 else None)
        self.access2(eng, st, inst, op, addr, width, 'read')
        return self.after_load(eng, st, inst, addr, width, val)
    def store(self, eng, st, inst, addr, width, val):
        op = inst.args[1] if inst.op == 'store' else inst.args[0]
        self.access2(eng, st, inst, op, addr, width, 'write')
        return self.after_store(eng, st, inst, addr, width, val)
    def call(self, eng, st, i, name, args):
        self.callbounds(eng, st, i, name, args)
        if name in NORETURN: return []
        if name in ('read', 'recv', 'write', 'send'):
            eng.default_call(st, i, name, args)
            if i.dst:
                v = st.vals[i.dst]
                eng.assume(st, v.scale(-1).plus(-1))
                if eng.entails(st, args[2].scale(-1)): eng.assume(st, v.sub(args[2]))
            return [st]
        if name in ('dax_tag_handle', 'dax_tag_add') and len(args) > 1:
            eng.default_call(st, i, name, args)
            nm = 'HS:%s' % i.dst; eng._killatom(st, nm)
            st.mem[(args[1].plus(self.hsize), 4)] = (eng.mk(nm, int_ty(32), deps=[i.dst] if i.dst else ['!hs']), None)
            return [st]
        if name == 'strlen' and i.dst: st.vals[i.dst] = self.slen(eng, st, i, args[0], i.args[0]); return [st]
        if name in ('getopt_long', 'getopt_long_only') and len(args) > 4:
            eng.default_call(st, i, name, args)
            b, off = eng.base(args[3]); e = self.extent(eng, st, i, b, off, ZERO) if b is not None else None
            nm = 'GO:%s' % i.dst; eng._killatom(st, nm)
            v = eng.mk(nm, lo=0, hi=(1 << 31) - 1, deps=[i.dst] if i.dst else ['!go']); st.mem[(args[4], 4)] = (v, None)
            if e not in (None, 'skip'): eng.assume(st, off.add(v.scale(32)).plus(32).sub(e[0]))      # an entry of its table
            return [st]
        if name == 'lua_tointegerx':
            eng.default_call(st, i, name, args)
            k = i.block.insts.index(i)
            if i.dst and any(x.op == 'call' and x.extra and 'lua_len' in str(x.extra) for x in i.block.insts[:k]):
                v = st.vals[i.dst]; eng.assume(st, v.scale(-1)); eng.assume(st, v.plus(-(1 << 28)))
            return [st]
        if name == 'swab': eng._memset(st, args[1], ZERO, args[2]); return [st]
        return ProgClient.call(self, eng, st, i, name, args)
    def callbounds(self, eng, st, i, name, args):
        if name is None:
            for t in self.p.mr.indirect_targets(i):
                for k, v in self.contracts.get(t, {}).items():
                    if k < len(args): self.access2(eng, st, i, i.args[k], args[k], const(v) if isinstance(v, int) else args[v[1]], 'call of %s with a buffer' % t)
            return
        h = HANDLES.get(name)
        if h and h[0] < len(args):
            c = st.mem.get((args[h[0]].plus(self.hsize), 4))
            n = c[0] if c is not None else eng.mk('hs:%s' % i.block.name, lo=0, hi=(1 << 32) - 1)
            if not eng.entails(st, n.scale(-1)): n = eng.opaque(st, 'zx32', None, [n], 0, (1 << 32) - 1)
            for k, kind in h[1]:
                if k < len(args): self.access2(eng, st, i, i.args[k], args[k], n, kind)
        if name in ('strcpy', 'strcat', 'stpcpy') and len(args) > 1:
            n = self.slen(eng, st, i, args[1], i.args[1])
            if name == 'strcat': n = n.add(self.slen(eng, st, i, args[0], i.args[0]))
            self.access2(eng, st, i, i.args[0], args[0], n.plus(1), 'string copy'); return
        if name == 'sprintf' and len(args) > 1:
            n = self.printed(eng, st, i, args)
            self.access2(eng, st, i, i.args[0], args[0], const(1 << 40) if n is None else n.plus(1), 'formatted write'); return
        nm = 'memset' if name.startswith('llvm.memset') else name
        for a, n, k in CALLS.get(nm) or ():
            if a >= len(args) or (isinstance(n, int) and nm != 'swab' and n >= len(args)): continue
            sz = const(n) if nm == 'swab' else args[n]
            self.access2(eng, st, i, i.args[a], args[a], sz, 'write' if k == 'w' else 'read')

    # ---- strings
    def slen(self, eng, st, i, p, op=None):
        """the length of the string at p"""
        b, off = eng.base(p)
        if b is not None and b.startswith('@'):
            g = self.m.globals.get(b[1:])
            if g is not None and g.const and off.isconst(): return const(max(0, self.m.size(g.ty) - 1 - off.c))
        k = ('pure', 'strlen', (p,))
        c = st.mem.get(k)
        if c is None:
            nm = 'slen(%r)' % (p,); eng._killatom(st, nm)
            v = eng.mk(nm, lo=0, hi=1 << 28, deps=eng.deps(p)); st.mem[k] = c = (v, None)
            r = self.region(eng, st, op) if op is not None else None
            if r is not None: eng.assume(st, v.add(p).sub(r[0]).plus(1 - r[1]))
            if b is not None:
                e = self.extent(eng, st, i, b, off, ZERO)
                if e not in (None, 'skip'): eng.assume(st, v.add(off).plus(1).sub(e[0]))      # strings end inside of their buffers
        v = c[0]
        if b is not None:
            for kk, x in list(st.mem.items()):
                if kk[0] != 'pure' and kk[1] == 1 and isinstance(kk[0], Lin) and x[0] == ZERO:
                    d = kk[0].sub(p)
                    if eng.base(kk[0])[0] == b and eng.entails(st, d.scale(-1)): eng.assume(st, v.sub(d))
        return v
    def printed(self, eng, st, i, args):
        a = i.args[1]
        g = self.m.globals.get(a[1]) if a[0] == 'g' else None
        f = g.init[1] if g is not None and g.init and g.init[0] == 's' else None
        if f is None: return None
        f = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), f).split('\0')[0]
        n = ZERO; k = 2; pos = 0
        for m in re.finditer(r'%([-+ #0]*)(\d*)(?:\.(\d+))?(hh|h|ll|l|z|j|t)?([a-zA-Z%])', f):
            n = n.plus(m.start() - pos); pos = m.end()
            if m.group(5) == '%': n = n.plus(1); continue
            w = int(m.group(2) or 0)
            if k >= len(args): return None
            if m.group(5) == 's':
                if m.group(3): x = const(max(w, int(m.group(3))))
                else: x = self.slen(eng, st, i, args[k], i.args[k]).plus(w)
            elif m.group(5) in 'diuxXoc': x = const(max(w, 22 if m.group(4) in ('l', 'll', 'z', 'j', 't') else 11))
            elif m.group(5) in 'gGeE': x = const(max(w, 32))
            elif m.group(5) in 'fF': x = const(max(w, 330))
            elif m.group(5) == 'p': x = const(20)
            else: return None
            n = n.add(x); k += 1
        return n.plus(len(f) - pos)

def ofhandle(raw, defs, op, hsize, d):
    x = defs.get(op[1]) if op[0] == 'r' else None
    if x is None or d > 8: return False
    if x.op in ('zext', 'sext', 'trunc', 'freeze'): return ofhandle(raw, defs, x.args[0], hsize, d + 1)
    if x.op == 'phi': return all(ofhandle(raw, defs, a, hsize, d + 1) for a in x.args)
    if x.op != 'load': return False
    t = raw.tbaa(x.tbaa) if x.tbaa is not None else None
    if t and not t[4] and 'tag_handle' in str(t[1]) and t[2] == hsize: return True
    g = defs.get(x.args[0][1]) if x.args[0][0] == 'r' else None
    return g is not None and g.op == 'getelementptr' and g.extra.k == 'struct' and 'tag_handle' in str(g.extra.name) and len(g.args) == 3 \
        and raw.field_off(g.extra, g.args[2][1]) == hsize

def handleblocks(prog, raw, hsize):
    """where blocks are allocated whose size is exactly the size in a tag handle"""
    r = set()
    for f in raw.funcs.values():
        if f.decl: continue
        defs = {i.dst: i for i in f.insts() if i.dst}
        for n, i in irbuild.callees(f):
            if n not in ('malloc', 'calloc') or not i.args: continue
            if ofhandle(raw, defs, i.args[-1], hsize, 0): r.add(where(raw, i).split(' <- ')[0])
    return r

def counters(P, cls):
    """ranges of counters in globals: zero to the length of an array, when every store keeps them there"""
    m = P.m
    dims = sorted({g.ty.n for g in m.globals.values() if g.ty.k == 'arr' and not g.const and not g.external and 1 < g.ty.n < 1 << 20})
    st = {}
    for f in m.funcs.values():
        if f.decl: continue
        for i in f.insts():
            if i.op == 'store' and i.args[1][0] == 'g' and i.args[1][1] in P.hidden(): st.setdefault(i.args[1][1], set()).add(f.name)
    for g, fs in sorted(st.items()):
        G = m.globals[g]
        if G.ty.k != 'int' or G.ty.n > 64 or not G.init or G.init[0] not in ('i', 'z') or P.gbounds(g)[1] is not None: continue
        v = G.init[1] if G.init[0] == 'i' else 0
        for h in dims:
            if not 0 <= v <= h: continue
            P.gtry = {g: (0, h)}; P._gb[g] = (0, h); ok = True
            for n in sorted(fs):
                cl = cls(P, n)
                try: absint.Engine(m, m.funcs[n], cl, P.mr, K=4).run()
                except absint.Blowup: ok = False
                ok = ok and cl.gok
                if not ok: break
            if ok: break
            del P._gb[g]
        P.gtry = {}

def tops(m, raw, keep=(), api=False):
    """functions that no other function calls: entry points, threads, callbacks"""
    called = {c for n, f in raw.funcs.items() if not f.decl for c, _ in irbuild.callees(f) if c != n}
    return [f for n, f in sorted(m.funcs.items()) if not f.decl and (n not in called or (api and n in raw.funcs and not raw.funcs[n].internal) or n.split('.')[0] in keep or n in irbuild.recursive_functions(raw))]

def analyse(prog, cls, fn, K=4):
    cl = cls(prog, fn.name)
    absint.Engine(prog.m, fn, cl, prog.mr, K=K).run()
    return cl

class Slow(Exception): pass
JOB = [None]
def one(c, k):
    t, cls, P, T = JOB[0]
    f = T[k]; cl = None
    for K, limit in ((12, 240), (4, 240), (2, 240)):
        cl = cls(P, f.name)
        def late(*a): raise Slow()
        signal.signal(signal.SIGALRM, late); signal.alarm(limit)
        try: absint.Engine(P.m, f, cl, P.mr, K=K).run(); signal.alarm(0); break
        except (Slow, absint.Blowup) as e: cl = None
        finally: signal.alarm(0)
    if cl is None: c.unresolved['%s:%s' % (t, f.name)] = 'not analysed within its limits'; return
    cl.rec.flush(c, '%s:%s' % (t, f.name))
    c.count('functions'); c.count('accesses', cl.checked)
    for w, k in list(cl.unresolved.items())[:20]: c.unresolved[str(w)] = k
    if cl.checked > 10: c.sample('%s: %s, %d accesses' % (t, f.name, cl.checked))
def check(ctx, targets, rule=None, need=20):
    ctx.rule = rule or ('abstract interpretation (linear relations) of every function and thread: each read, write, block operation and library call on a buffer of known size '
                        '(locals, globals, allocated blocks, array fields, buffers with a size field or a contract) stays inside of it on all paths')
    ctx.assumptions += ['strings end inside of the buffers they are in', 'descriptors fit into a descriptor set', 'buffers handed over by Lua and by the system have the size they report']
    b = irbuild.Builder()
    for t, (cls, inc, ex, keep) in targets.items():
        if t not in b.all_targets(): continue
        P = Program(t, b=b, keep=keep, includes=inc, consts=ex)
        cls.setup(P.c); P.htags = handleblocks(P, b.raw(t), cls.hsize); counters(P, cls)
        T = tops(P.m, b.raw(t), keep, cls.api)
        JOB[0] = (t, cls, P, T)
        order = sorted(range(len(T)), key=lambda k: -sum(len(x.insts) for x in T[k].blocks))
        parallel(ctx, one, order)
    ctx.require('accesses', need)
