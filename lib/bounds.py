"""Bounds obligations for every load, store and block operation of one function."""
import absint
from lin import Lin, ZERO, const, atom

class Recorder:
    """keeps, per instruction, the verdicts of the last analysis round only"""
    def __init__(self): self.res = {}
    def put(self, inst, tag, good, where, msg):
        self.res.setdefault(inst, []).append((tag, good, where, msg))
    def drop(self, blocks):
        for i in [i for i in self.res if i.block in blocks]: del self.res[i]
    def flush(self, ctx, root):
        n = 0
        for i, l in self.res.items():
            for tag, good, where, msg in l:
                ctx.oblige((root, tag, where), good, where, msg); n += 1
        return n

WRITE_N = {'memset': (0, 2), 'bzero': (0, 1), 'strncpy': (0, 2), 'snprintf': (0, 1), 'read': (1, 2), 'recv': (1, 2), 'fgets': (0, 1),
           'vsnprintf': (0, 1)}
READ_N = {'write': (1, 2), 'send': (1, 2), 'xwrite': (1, 2), 'memcmp': (1, 2), 'fwrite': None}

class BoundsMixin:
    """mix into a Client; provides self.rec (Recorder); needs extent(eng, st, base) -> (size Lin, label) | None"""
    def bounds_init(self): self.rec = Recorder(); self.unresolved = {}; self.checked = 0
    def round(self, eng, blocks): self.rec.drop(blocks)
    def want(self, label): return True
    def terminated(self, eng, off): return False
    def access(self, eng, st, i, addr, n, kind):
        from server import where
        b, off = eng.base(addr)
        if isinstance(n, int): n = const(n)
        w = where(self.m, i)
        if b is None:
            if addr.isconst(): return
            self.unresolved[(w, kind)] = repr(addr)[:60]; return
        e = self.extent(eng, st, i, b, off, n)
        if e is None:
            self.unresolved[(w, kind)] = repr(addr)[:60]; return
        if e == 'skip': return
        size, label = e
        if not self.want(label): return
        good = size is not None and eng.entails(st, off.scale(-1)) and eng.entails(st, off.add(n).sub(size))
        if not good and eng.entails(st, n) : good = True     # nothing is accessed
        if not good and self.terminated(eng, off): return
        self.checked += 1
        self.rec.put(i, label, good, w, '%s of %s bytes at offset %s of %s is not proved to stay inside its %s bytes'
                     % (kind, n, off, label, size))
    def load(self, eng, st, inst, addr, width, val):
        self.access(eng, st, inst, addr, width, 'read')
        self.after_load(eng, st, inst, addr, width, val)
    def after_load(self, eng, st, inst, addr, width, val): pass
    def store(self, eng, st, inst, addr, width, val):
        self.access(eng, st, inst, addr, width, 'write')
        return self.after_store(eng, st, inst, addr, width, val)
    def after_store(self, eng, st, inst, addr, width, val): return None
    def strlen_bound(self, eng, st, p):
        """upper bound Lin of strlen(p) or None"""
        b, off = eng.base(p)
        if b is None: return None
        if b.startswith('@'):
            g = self.m.globals.get(b[1:])
            if g is not None and g.const and off.isconst(): return const(max(0, self.m.size(g.ty) - 1 - off.c))
        r = self.str_bound(eng, st, p, b, off)
        return r
    def str_bound(self, eng, st, p, b, off): return None
    def blockcall(self, eng, st, i, name, args):
        """bounds obligations of library calls"""
        if name is None: return
        base = name
        if name.startswith('llvm.memset'): base = 'memset'
        if base in WRITE_N:
            d, n = WRITE_N[base]; self.access(eng, st, i, args[d], args[n], 'write')
        elif base in READ_N and READ_N[base]:
            d, n = READ_N[base]; self.access(eng, st, i, args[d], args[n], 'read')
        elif base in ('strcpy', 'strcat', 'strncat', 'stpcpy'):
            sb = self.strlen_bound(eng, st, args[1])
            if base == 'strncat':
                # bounded by n
                sb2 = args[2]
                if sb is None or not eng.entails(st, sb.sub(sb2)): sb = sb2
            if base in ('strcat', 'strncat'):
                db = self.strlen_bound(eng, st, args[0])
                k = st.mem.get(('cstr', args[0]))
                if db is None: 
                    self.unresolved[(base, i.dst)] = 'strcat'; return
                # existing content bound: literal copied before is tracked by clients when needed
                sb = None if sb is None else sb.add(self.cur_len(eng, st, args[0], db))
            if sb is None: self.access(eng, st, i, args[0], const(1 << 40), 'unbounded string copy')
            else: self.access(eng, st, i, args[0], sb.plus(1), 'string copy')
    def cur_len(self, eng, st, p, db): return db
