"""Width, kind and sign of accesses selected by a data type.

A function that compares some value with several data type codes is specialised for each of the sixteen
base types: everything that depends on the type value alone is folded (sparse conditional constant
propagation) and the blocks that stay reachable are the code of that type.  Memory that is accessed in
different widths for different types is data; every access to it in the code of a type must fit the type.
"""
import re, server

CODES = {'BOOL': 0x10, 'BYTE': 0x03, 'SINT': 0x13, 'CHAR': 0x23, 'WORD': 0x04, 'INT': 0x14, 'UINT': 0x24, 'DWORD': 0x05,
         'DINT': 0x15, 'UDINT': 0x25, 'REAL': 0x35, 'LWORD': 0x06, 'LINT': 0x16, 'ULINT': 0x26, 'TIME': 0x36, 'LREAL': 0x46}
NAME = {v: k for k, v in CODES.items()}
WIDTH = {n: max(8, 1 << (c & 0xF)) for n, c in CODES.items()}
SIGNED = {'SINT', 'INT', 'DINT', 'LINT'}
UNSIGNED = {'BYTE', 'WORD', 'UINT', 'DWORD', 'UDINT', 'LWORD', 'ULINT'}
FLOATS = {'REAL', 'LREAL'}
UNK = object()

def bits(m, t):
    if t.k == 'int': return t.n
    if t.k == 'float': return 32
    if t.k == 'double': return 64
    return None

class Fn:
    def __init__(self, m, f):
        self.m, self.f = m, f
        self.dm = f.defmap(); self.pidx = {p[0]: k for k, p in enumerate(f.params)}
        self._path = {}; self.uses = None
    # ---- canonical access path of a value
    def path(self, v, depth=0):
        if v[0] == 'g': return ('g', v[1])
        if v[0] == 'ce' and v[1] == 'getelementptr': return self.path(v[3][0], depth + 1)
        if v[0] != 'r': return None
        n = v[1]
        if n in self._path: return self._path[n]
        self._path[n] = ('v', n)
        i = self.dm.get(n)
        if i is None: r = ('p', self.pidx.get(n))
        elif i.op == 'load' and depth < 8:
            b, o = self.addr(i.args[0], depth + 1)
            r = ('m', b, o) if b is not None and o is not None else ('v', n)
        elif i.op in ('bitcast', 'freeze'): r = self.path(i.args[0], depth + 1)
        elif i.op == 'getelementptr': r = self.path(i.args[0], depth + 1)
        elif i.op == 'phi' or i.op == 'select':
            ps = {self.path(a, depth + 1) for a in (i.args if i.op == 'phi' else i.args[1:])} - {('v', n), None}
            r = ps.pop() if len(ps) == 1 else ('v', n)
        else: r = ('v', n)
        self._path[n] = r
        return r
    def addr(self, v, depth=0):
        """(base path, constant offset or None)"""
        off = 0
        while v[0] == 'r':
            i = self.dm.get(v[1])
            if i is None or i.op != 'getelementptr': break
            o = self.gepoff(i)
            off = None if (o is None or off is None) else off + o
            v = i.args[0]
        if v[0] == 'ce' and v[1] == 'getelementptr':
            off = None; v = v[3][0]
        return self.path(v, depth + 1), off
    def gepoff(self, i):
        t = i.extra; off = 0
        for k, a in enumerate(i.args[1:]):
            if a[0] != 'i': return None
            if k == 0: off += a[1] * self.m.size(t)
            elif t.k in ('arr', 'vec'): t = t.sub; off += a[1] * self.m.size(t)
            elif t.k == 'struct': off += self.m.field_off(t, a[1]); t = t.sub[a[1]]
            else: return None
        return off
    def local(self, p):
        return p[0] == 'v' and p[1] in self.dm and self.dm[p[1]].op == 'alloca'
    def usemap(self):
        if self.uses is None:
            self.uses = {}
            for i in self.f.insts():
                for a in i.args:
                    if a is not None and a[0] == 'r': self.uses.setdefault(a[1], []).append(i)
        return self.uses
    # ---- type variables
    def typevars(self):
        got = {}
        for i in self.f.insts():
            if i.op == 'switch': cs = [c for c, _ in i.extra[1]]; v = i.args[0]
            elif i.op == 'icmp' and i.extra in ('eq', 'ne') and i.args[1][0] == 'i': cs = [i.args[1][1]]; v = i.args[0]
            else: continue
            if v[0] != 'r' or v[2].k != 'int' or v[2].n != 32: continue
            p = self.path(v)
            if p is None: continue
            got.setdefault(p, set()).update(c for c in cs if c in NAME)
            # a list of numbers that are no types is not a switch over types
            bad = [c for c in cs if c not in NAME and 0 <= c < 0x50]
            if i.op == 'switch' and len(bad) > len(cs) // 2: got.setdefault(('no', p), set()).add(1)
        return {p: c for p, c in got.items() if p[0] != 'no' and ('no', p) not in got and
                (len(c) >= 3) and any(x > 0xF for x in c)}
    # ---- specialisation
    def special(self, tv, code):
        """blocks reachable when every value with path tv equals code"""
        val = {}
        def ev(v):
            if v[0] == 'i': return v[1] & ((1 << v[2].n) - 1)
            if v[0] == 'r':
                if v[2].k == 'int' and v[2].n == 32 and self.path(v) == tv: return code
                if v[2].k != 'int' or v[1] not in self.dm: return UNK
                return val.get(v[1])
            return UNK
        reach = {self.f.blocks[0].name}; edges = set(); change = True
        def setv(i, x):
            nonlocal change
            o = val.get(i.dst)
            if x is None or o is UNK: return
            if o is None or o != x:
                val[i.dst] = x if o is None else UNK; change = True
        while change:
            change = False
            for b in self.f.blocks:
                if b.name not in reach: continue
                for i in b.insts:
                    if i.dst and i.ty is not None and i.ty.k == 'int':
                        if i.op == 'phi':
                            vs = [ev(a) for a, p in zip(i.args, i.extra) if (p, b.name) in edges]
                            vs = [x for x in vs if x is not None]
                            setv(i, None if not vs else vs[0] if all(x == vs[0] and x is not UNK for x in vs) else UNK)
                        elif i.op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'icmp', 'zext', 'sext', 'trunc', 'select', 'freeze'):
                            setv(i, self.fold(i, [ev(a) for a in i.args]))
                        else: setv(i, UNK)
                    t = i
                succ = []
                if t.op == 'br':
                    if len(t.extra) == 1: succ = t.extra
                    else:
                        c = ev(t.args[0])
                        succ = t.extra if c is UNK else [] if c is None else [t.extra[0 if c else 1]]
                elif t.op == 'switch':
                    c = ev(t.args[0]); w = t.args[0][2].n
                    if c is UNK: succ = [t.extra[0]] + [x for _, x in t.extra[1]]
                    elif c is not None:
                        succ = [x for k, x in t.extra[1] if k & ((1 << w) - 1) == c][:1] or [t.extra[0]]
                for s in succ:
                    if (b.name, s) not in edges: edges.add((b.name, s)); change = True
                    if s not in reach: reach.add(s); change = True
        self.val = val
        return reach
    def fold(self, i, a):
        if i.op == 'select':
            if a[0] is None: return None
            if a[0] is UNK: return a[1] if a[1] == a[2] else UNK
            return a[1] if a[0] else a[2]
        if i.op == 'and' and any(x == 0 for x in a if x is not None and x is not UNK): return 0
        if any(x is None for x in a): return None
        if any(x is UNK for x in a): return UNK
        n = i.ty.n; mk = (1 << n) - 1
        src = i.args[0][2].n if len(i.args[0]) > 2 and i.args[0][2].k == 'int' else n
        sg = lambda x, w: x - (1 << w) if x >> (w - 1) else x
        try:
            if i.op == 'add': return (a[0] + a[1]) & mk
            if i.op == 'sub': return (a[0] - a[1]) & mk
            if i.op == 'mul': return (a[0] * a[1]) & mk
            if i.op == 'and': return a[0] & a[1]
            if i.op == 'or': return a[0] | a[1]
            if i.op == 'xor': return a[0] ^ a[1]
            if i.op == 'shl': return (a[0] << a[1]) & mk if a[1] < n else UNK
            if i.op == 'lshr': return a[0] >> a[1]
            if i.op == 'ashr': return (sg(a[0], n) >> a[1]) & mk
            if i.op == 'zext' or i.op == 'freeze': return a[0]
            if i.op == 'trunc': return a[0] & mk
            if i.op == 'sext': return sg(a[0], src) & mk
            if i.op == 'icmp':
                p = i.extra; x, y = a
                if p[0] == 's': x, y = sg(x, src), sg(y, src)
                return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'gt': x > y, 'le': x <= y, 'ge': x >= y}[p if p in ('eq', 'ne') else p[1:]])
        except (KeyError, ValueError): pass
        return UNK

def conv_of(fmt):
    """conversion characters (with length modifier) of a printf format, or None when there is a * """
    r = []
    for x in re.finditer(r'%([-+ #0]*)(\*|\d+)?(\.(\*|\d+)?)?(hh|h|ll|l|q|j|z|t|L)?([a-zA-Z%])', fmt):
        if x.group(2) == '*' or x.group(4) == '*': return None
        if x.group(6) == '%': continue
        r.append((x.group(5) or '', x.group(6)))
    return r

def cstr(m, v):
    if v[0] == 'ce' and v[1] == 'getelementptr': v = v[3][0]
    if v[0] != 'g': return None
    g = m.globals.get(v[1])
    if g is None or not g.const or g.init is None: return None
    i = g.init
    if i[0] != 's': return None
    return re.sub(r'\\([0-9A-Fa-f]{2})', lambda x: chr(int(x.group(1), 16)), i[1]).rstrip('\0')

PRINTF = {'printf': 0, 'fprintf': 1, 'sprintf': 1, 'snprintf': 2, 'dprintf': 1, 'dax_log': 1, 'asprintf': 1}

def passes(fns, cache, name, k, depth=0):
    """widths of the accesses function name makes through its parameter k, None: not known"""
    key = (name, k)
    if key in cache: return cache[key]
    cache[key] = None
    F = fns.get(name)
    if F is None: return None
    if k >= len(F.f.params): return None
    r = set(); pth = ('p', k)
    for i in F.f.insts():
        if i.op in ('load', 'store'):
            p, _ = F.addr(i.args[-1])
            if p == pth:
                b = bits(F.m, i.ty)
                if b is None: return None
                r.add((b, i.ty.k))
            if i.op == 'store' and i.args[0][0] == 'r' and F.path(i.args[0]) == pth: return None
        elif i.op == 'call':
            for j, a in enumerate(i.args):
                if a is not None and a[0] == 'r' and F.path(a) == pth and i.argtys[j].k == 'ptr':
                    s = passes(fns, cache, i.extra[1], j, depth + 1) if i.extra[0] == 'g' and depth < 4 else None
                    if s is None: return None
                    r |= s
    cache[key] = r
    return r

def analyse(m, put, count):
    """put(function, type, what, good, where, message); count(what)"""
    fns = {n: Fn(m, f) for n, f in m.funcs.items() if not f.decl}
    cache = {}
    for n, F in sorted(fns.items()):
        for tv, codes in F.typevars().items():
            regions = {t: F.special(tv, c) for t, c in CODES.items()}
            other = F.special(tv, 0x7777)
            common = set.intersection(*regions.values())
            if all(r == common for r in regions.values()): continue
            # memory accessed in several widths: data
            acc = {}
            def each(blk):
                for i in F.f.bmap[blk].insts:
                    if i.op in ('load', 'store') and bits(m, i.ty):
                        p, o = F.addr(i.args[-1])
                        if p is not None: yield p, i, {(bits(m, i.ty), i.ty.k)}
                    elif i.op == 'call' and not (i.extra[0] == 'g' and i.extra[1].startswith('llvm.')):
                        for j, a in enumerate(i.args):
                            if a is not None and a[0] == 'r' and i.argtys[j].k == 'ptr':
                                p, o = F.addr(a)
                                s = passes(fns, cache, i.extra[1], j) if i.extra[0] == 'g' else None
                                if p is not None: yield p, i, s
            blocks = set().union(*regions.values()) - common
            for b in blocks:
                for p, i, s in each(b):
                    for w in s or (): acc.setdefault(p, set()).add(w)
            roots = {p for p, s in acc.items() if not F.local(p) and (len({w for w, _ in s}) >= 3 or len(s) >= 4)}
            if not roots: continue
            count('functions that select by data type')
            uses = F.usemap()
            for t, reg in regions.items():
                if reg == other or reg <= common: 
                    continue
                W = WIDTH[t]; right = False; seen = 0; flo = []; whole = False
                for b in sorted(reg - common):
                    for p, i, s in each(b):
                        if p not in roots: continue
                        wh = server.where(m, i)
                        if s is None: right = True; continue
                        for w, k in s:
                            seen += 1
                            okw = w == W or (t == 'BOOL' and w == 8)
                            put(n, t, 'access has the width of the type', okw, wh, 'a %s is accessed as %d bits in the code for %s' % (t, w, t))
                            okk = k == 'int' or (t == 'REAL' and k == 'float') or (t == 'LREAL' and k == 'double')
                            put(n, t, 'access has the kind of the type', okk, wh, 'a %s is accessed as %s' % (t, k))
                            if okw and okk: right = True
                        if i.op == 'load':
                            for bad in misuse(F, m, i, t, W, reg, uses):
                                put(n, t, 'value is used with the sign and width of its type', False, server.where(m, bad[0]), bad[1])
                            put(n, t, 'value is used with the sign and width of its type', True, wh, '')
                        elif i.op == 'store' and i.args[0][0] == 'r':
                            d = F.dm.get(i.args[0][1])
                            if d is not None and d.op in ('fptosi', 'fptoui') and F.dm.get(d.args[0][1] if d.args[0][0] == 'r' else '') is not None: flo.append(i)
                            else: whole = True
                            if d is not None and d.op in ('fptosi', 'fptoui') and bits(m, d.ty) == W:
                                good = not (t in SIGNED and d.op == 'fptoui') and not (t in UNSIGNED and d.op == 'fptosi' )
                                put(n, t, 'value is converted with the sign of its type', good, wh, 'a floating value is converted with %s for %s' % (d.op, t))
                            if d is not None and d.op in ('sext', 'zext') and W > 8 and t != 'BOOL':
                                e = F.dm.get(d.args[0][1]) if d.args[0][0] == 'r' else None
                                narrow = e is not None and (e.op == 'trunc' or e.op == 'call') and e.ty.n < W and e.ty.n > 1
                                put(n, t, 'value keeps its width', not narrow, wh, 'a %s passes through only %d bits before it is stored' % (t, e.ty.n if narrow else 0))
                if seen: count('types analysed')
                if W == 64 and t not in FLOATS and (flo or whole):
                    put(n, t, 'no bits are lost in a floating point number', whole or not flo, server.where(m, flo[0]) if flo else '',
                        'every value of a %s passes through a floating point number of 53 bits' % t)
                if seen or W > 8: put(n, t, 'the type is handled', right, server.where(m, F.f.blocks[0].insts[0]),
                    'no access of the data in the width of a %s' % t)
            # completeness: a selection over nearly all of the types leaves none out
            miss = [t for t in CODES if regions[t] == other]
            if len(codes) >= 8:
                for t in CODES:
                    if t != 'BOOL': put(n, t, 'no type is left out', t not in miss, server.where(m, F.f.blocks[0].insts[0]), 'there is no code for %s' % t)
            yield n, tv, len(codes), miss

def misuse(F, m, i, t, W, reg, uses):
    """uses of a loaded value that do not fit its type"""
    if t in FLOATS and i.ty.k in ('float', 'double'):
        for u in uses.get(i.dst, ()):
            if u.op in ('fptosi', 'fptoui'): yield u, 'a %s loses its fraction' % t
    if i.ty.k != 'int' or t == 'BOOL': return
    if bits(m, i.ty) != W: return
    for u in uses.get(i.dst, ()):
        if u.block is not None and getattr(u.block, 'name', u.block) not in reg: continue
        sign = None
        if u.op == 'sext' or u.op == 'sitofp' or u.op in ('sdiv', 'srem', 'ashr'): sign = 's'
        elif u.op in ('zext', 'uitofp', 'udiv', 'urem', 'lshr'): sign = 'u'
        elif u.op == 'icmp' and u.extra not in ('eq', 'ne'): sign = u.extra[0]
        elif u.op == 'trunc' and u.ty.n > 1 and u.ty.n < W:
            # only a value that leaves the function or is widened again has lost bits
            for w in uses.get(u.dst, ()):
                if w.op in ('call', 'sext', 'zext', 'ret', 'sitofp', 'uitofp'):
                    yield u, 'a %s is cut to %d bits' % (t, u.ty.n)
        elif u.op == 'call' and u.extra[0] == 'g' and u.extra[1] in PRINTF and W >= 32:
            k = PRINTF[u.extra[1]]
            fmt = cstr(m, u.args[k]); cv = conv_of(fmt) if fmt is not None else None
            if cv is not None:
                for j, a in enumerate(u.args[k+1:]):
                    if a is not None and a[0] == 'r' and a[1] == i.dst and j < len(cv):
                        l, c = cv[j]
                        if c in 'di' and l == '': sign = 's' if W == 32 else None
                        if c in 'di': sign = 's'
                        elif c == 'u': sign = 'u'
                        lw = {'hh': 8, 'h': 16, '': 32}.get(l, 64)
                        if lw != W: yield u, 'a %s is formatted as %d bits' % (t, lw)
        if sign == 's' and t in UNSIGNED: yield u, 'a %s is used as a signed value (%s)' % (t, u.op)
        if sign == 'u' and t in SIGNED: yield u, 'a %s is used as an unsigned value (%s)' % (t, u.op)
        if sign and t in FLOATS: yield u, 'a %s is used as an integer (%s)' % (t, u.op)
