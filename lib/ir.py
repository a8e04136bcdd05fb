"""Reader for textual LLVM-18 IR: types, globals, functions, CFG, debug locations.

Nothing here executes the program: it only turns `opt -S` output into Python
objects the analyses walk over.
"""
import re

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'n', 'sub', 'packed', 'name')
    def __init__(self, k, n=0, sub=None, packed=False, name=None):
        self.k, self.n, self.sub, self.packed, self.name = k, n, sub, packed, name
    def __repr__(self):
        return self.name or (('i%d' % self.n) if self.k == 'int' else
            ('[%d x %r]' % (self.n, self.sub)) if self.k == 'arr' else self.k)

INTS = {}
def int_ty(n):
    if n not in INTS:
        INTS[n] = Ty('int', n)
    return INTS[n]
PTR = Ty('ptr'); VOID = Ty('void'); FLOAT = Ty('float'); DOUBLE = Ty('double')
X86FP = Ty('x86_fp80'); LABEL = Ty('label'); META = Ty('metadata'); OPAQUE = Ty('opaque')
HALF = Ty('half')

class Module:
    def __init__(self):
        self.types = {}      # name -> Ty
        self.globals = {}    # name -> Global
        self.funcs = {}      # name -> Function
        self.meta = {}       # id -> raw text
        self._loc = {}

    # ---- layout
    def align(self, t):
        if t.k == 'int':
            b = (t.n + 7) // 8
            return min(16, 1 << (b - 1).bit_length()) if b else 1
        if t.k == 'ptr' or t.k == 'double': return 8
        if t.k == 'float': return 4
        if t.k == 'half': return 2
        if t.k == 'x86_fp80': return 16
        if t.k == 'arr' or t.k == 'vec': return self.align(t.sub)
        if t.k == 'struct':
            if t.packed or not t.sub: return 1
            return max(self.align(s) for s in t.sub)
        return 1
    def size(self, t):
        if t.k == 'int':
            b = (t.n + 7) // 8
            a = self.align(t)
            return (b + a - 1) // a * a
        if t.k == 'ptr' or t.k == 'double': return 8
        if t.k == 'float': return 4
        if t.k == 'half': return 2
        if t.k == 'x86_fp80': return 16
        if t.k == 'arr' or t.k == 'vec': return t.n * self.size(t.sub)
        if t.k == 'struct':
            off = 0
            for s in t.sub:
                if not t.packed:
                    a = self.align(s); off = (off + a - 1) // a * a
                off += self.size(s)
            a = self.align(t)
            return (off + a - 1) // a * a
        return 0
    def field_off(self, t, i):
        off = 0
        for j, s in enumerate(t.sub):
            if not t.packed:
                a = self.align(s); off = (off + a - 1) // a * a
            if j == i: return off
            off += self.size(s)
        return off

    # ---- debug locations
    def loc(self, mid):
        """returns list of (file, line, function) innermost first"""
        if mid is None: return []
        if mid in self._loc: return self._loc[mid]
        txt = self.meta.get(mid, '')
        m = re.search(r'line: (\d+)', txt)
        line = int(m.group(1)) if m else 0
        sc = re.search(r'scope: !(\d+)', txt)
        fn, f = self._scope(int(sc.group(1))) if sc else ('?', '?')
        res = [(f, line, fn)]
        ia = re.search(r'inlinedAt: !(\d+)', txt)
        if ia: res = res + self.loc(int(ia.group(1)))
        self._loc[mid] = res
        return res
    def _scope(self, sid):
        fil = None
        while True:
            t = self.meta.get(sid, '')
            if 'DISubprogram' in t:
                n = re.search(r'name: "([^"]+)"', t)
                fm = re.search(r'file: !(\d+)', t)
                return (n.group(1) if n else '?', self._file(int(fm.group(1))) if fm else '?')
            m = re.search(r'scope: !(\d+)', t)
            if not m: return ('?', '?')
            sid = int(m.group(1))
    def _file(self, fid):
        t = self.meta.get(fid, '')
        m = re.search(r'filename: "([^"]*)"', t)
        f = m.group(1) if m else '?'
        return f.replace('/repo/', '')
    def di_struct_fields(self, sname):
        """{byte offset: field name} of a C struct via debug info (first matching definition)"""
        out = {}
        for mid, t in self.meta.items():
            if ('DICompositeType' in t or 'DIDerivedType(tag: DW_TAG_typedef' in t) and 'name: "%s"' % sname in t:
                if 'DW_TAG_typedef' in t:
                    m = re.search(r'baseType: !(\d+)', t)
                    t = self.meta.get(int(m.group(1)), '') if m else ''
                m = re.search(r'elements: !(\d+)', t)
                if not m: continue
                for e in re.findall(r'!(\d+)', self.meta.get(int(m.group(1)), '')):
                    et = self.meta.get(int(e), '')
                    n = re.search(r'name: "([^"]+)"', et); o = re.search(r'offset: (\d+)', et)
                    if n: out[(int(o.group(1)) if o else 0) // 8] = n.group(1)
                if out: return out
        return out

    # ---- tbaa access tags: (base id, base name, offset, scalar name)
    def tbaa(self, mid):
        if mid is None: return None
        c = self.__dict__.setdefault('_tb', {})
        if mid in c: return c[mid]
        t = self.meta.get(mid, '')
        m = re.match(r'!\{!(\d+), !(\d+), i64 (\d+)', t)
        r = None
        if m:
            b, a, o = int(m.group(1)), int(m.group(2)), int(m.group(3))
            nm = lambda x: (re.match(r'!\{!"([^"]*)"', self.meta.get(x, '')) or [None, '?'])[1]
            r = (b, nm(b), o, nm(a), b == a)
        c[mid] = r
        return r

    def tbaa_within(self, a, b):
        """the record type a contains b (as type metadata)"""
        c = self.__dict__.setdefault('_tbw', {})
        k = (a, b)
        if k not in c:
            c[k] = False
            for x in re.findall(r'!(\d+)', self.meta.get(a, '')):
                x = int(x)
                if x == b or self.tbaa_within(x, b): c[k] = True; break
        return c[k]

class Global:
    __slots__ = ('name', 'ty', 'const', 'init', 'external', 'initops')
    def __init__(self, name, ty, const, init, external):
        self.name, self.ty, self.const, self.init, self.external = name, ty, const, init, external

class Function:
    def __init__(self, name):
        self.name = name; self.params = []; self.blocks = []; self.bmap = {}
        self.ret = None; self.decl = False; self.vararg = False; self.dbg = None
        self.internal = False; self.attrs = ''
    def insts(self):
        for b in self.blocks:
            for i in b.insts: yield i
    def defmap(self):
        d = self.__dict__.get('_dm')
        if d is None: d = self.__dict__['_dm'] = {i.dst: i for i in self.insts() if i.dst}
        return d

class Block:
    __slots__ = ('name', 'insts', 'preds', 'succs', 'fn', 'idx')
    def __init__(self, name, fn):
        self.name = name; self.insts = []; self.preds = []; self.succs = []; self.fn = fn; self.idx = 0

class Inst:
    __slots__ = ('op', 'dst', 'ty', 'args', 'extra', 'dbg', 'block', 'fn', 'idx', 'tbaa', 'argtys', 'byval')
    def __init__(self, op, dst=None, ty=None, args=(), extra=None):
        self.op, self.dst, self.ty, self.args, self.extra = op, dst, ty, list(args), extra
        self.dbg = None; self.block = None; self.fn = None; self.tbaa = None; self.argtys = None; self.byval = ()
    def __repr__(self):
        return '%s = %s %r %r %r' % (self.dst, self.op, self.ty, self.args, self.extra)

# operands: ('r', name, ty) local; ('g', name) global; ('i', int, ty); ('n',) null;
#           ('u', ty) undef/poison; ('z', ty) zeroinitializer; ('f', text, ty); ('ce', op, ty, args, extra); ('agg', ty, elems); ('s', text)

class P:
    """cursor over one line"""
    def __init__(self, mod, s, i=0):
        self.m, self.s, self.i = mod, s, i
    def ws(self):
        s = self.s; i = self.i
        while i < len(s) and s[i] in ' \t': i += 1
        self.i = i
    def peek(self, t):
        self.ws(); return self.s.startswith(t, self.i)
    def eat(self, t):
        self.ws()
        if self.s.startswith(t, self.i):
            self.i += len(t); return True
        return False
    def expect(self, t):
        if not self.eat(t): raise SyntaxError('expected %r at %r' % (t, self.s[self.i:self.i+80]))
    WORD = re.compile(r'[A-Za-z_][\w.\-]*')
    def word(self):
        self.ws(); m = self.WORD.match(self.s, self.i)
        if not m: return None
        self.i = m.end(); return m.group(0)
    def peekword(self):
        self.ws(); m = self.WORD.match(self.s, self.i)
        return m.group(0) if m else None
    NAME = re.compile(r'[-\w.$]+|"(?:[^"\\]|\\.)*"')
    def name(self):
        m = self.NAME.match(self.s, self.i); self.i = m.end(); return m.group(0).strip('"')
    NUM = re.compile(r'-?\d+')
    def num(self):
        self.ws(); m = self.NUM.match(self.s, self.i)
        if not m: return None
        self.i = m.end(); return int(m.group(0))

    def type(self):
        self.ws(); s = self.s; c = s[self.i]
        if c == '%':
            self.i += 1; n = self.name()
            t = self.m.types.get(n)
            if t is None:
                t = Ty('struct', 0, [], False, n); self.m.types[n] = t
        elif c == '[' or (c == '<' and s[self.i+1] != '{'):
            self.i += 1; n = self.num(); self.expect('x'); sub = self.type()
            self.ws(); self.i += 1
            t = Ty('arr' if c == '[' else 'vec', n, sub)
        elif c == '{' or c == '<':
            packed = c == '<'; self.i += 2 if packed else 1
            sub = []
            if not self.eat('}'):
                while True:
                    sub.append(self.type())
                    if self.eat(','): continue
                    self.expect('}'); break
            if packed: self.expect('>')
            t = Ty('struct', 0, sub, packed)
        else:
            w = self.word()
            if w is None: raise SyntaxError('type? ' + s[self.i:self.i+60])
            if w[0] == 'i' and w[1:].isdigit(): t = int_ty(int(w[1:]))
            else:
                t = {'ptr': PTR, 'void': VOID, 'float': FLOAT, 'double': DOUBLE, 'x86_fp80': X86FP, 'half': HALF,
                     'label': LABEL, 'metadata': META, 'opaque': OPAQUE, 'fp128': X86FP, 'token': META}.get(w)
                if t is None: raise SyntaxError('type word ' + w)
        # function type suffix "(...)" after return type
        while True:
            self.ws()
            if self.i < len(s) and s[self.i] == '(' and (t is not PTR or re.match(r'\((?:[^()]|\([^()]*\))*\) +[@%]', s[self.i:])):
                # could be function type in call
                d = 0; j = self.i
                while True:
                    if s[j] == '(': d += 1
                    elif s[j] == ')':
                        d -= 1
                        if d == 0: break
                    j += 1
                self._fnty = s[self.i:j+1]; self.i = j + 1
                continue
            break
        return t
    ATTR = re.compile(r'(noundef|nonnull|zeroext|signext|noalias|nocapture|readonly|writeonly|readnone|returned|immarg|inreg|nest|swiftself|noreturn|nofree|writable|dead_on_unwind|dereferenceable(_or_null)?\(\d+\)|align \d+|align\(\d+\)|range\([^)]*\)|allocptr|allocalign|byval\([^)]*\)|sret\([^)]*\)|byref\([^)]*\)|elementtype\([^)]*\)|captures\([^)]*\)|nofpclass\([^)]*\))(?![\w.])')
    def skipattrs(self):
        while True:
            self.ws(); m = self.ATTR.match(self.s, self.i)
            if not m: return
            self.i = m.end()
    def value(self, ty):
        self.ws(); s = self.s; c = s[self.i]
        if c == '%':
            self.i += 1; return ('r', self.name(), ty)
        if c == '@':
            self.i += 1; return ('g', self.name())
        if c == 'c' and s[self.i+1] == '"':
            m = re.compile(r'c"((?:[^"\\]|\\.)*)"').match(s, self.i); self.i = m.end()
            return ('s', m.group(1))
        if c == '{' or c == '[' or c == '<':
            close = {'{': '}', '[': ']', '<': '>'}[c]
            if s.startswith('<{', self.i): self.i += 2; close = '}>'
            else: self.i += 1
            el = []
            if not self.eat(close):
                while True:
                    el.append(self.tv())
                    if self.eat(','): continue
                    self.expect(close); break
            return ('agg', ty, el)
        if c == '!':
            # metadata operand
            m = re.compile(r'![\w().:, ]*').match(s, self.i); self.i = m.end()
            return ('m',)
        m = re.compile(r'0x[0-9A-FKLMHR]+|-?\d+\.\d+(e[+-]?\d+)?|-?\d+').match(s, self.i)
        if m:
            self.i = m.end(); t = m.group(0)
            if ty.k == 'int': return ('i', int(t), ty)
            return ('f', t, ty)
        w = self.word()
        if w == 'null': return ('n',)
        if w in ('undef', 'poison'): return ('u', ty)
        if w == 'zeroinitializer': return ('z', ty)
        if w == 'true': return ('i', 1, int_ty(1))
        if w == 'false': return ('i', 0, int_ty(1))
        if w == 'none': return ('n',)
        if w == 'getelementptr':
            for kw in ('inbounds', 'nuw', 'nusw', 'inrange'): self.eat(kw)
            if self.eat('inrange'): pass
            self.expect('(')
            st = self.type(); self.expect(',')
            ops = []
            while True:
                if self.eat('inrange'): pass
                ops.append(self.tv())
                if self.eat(','): continue
                self.expect(')'); break
            return ('ce', 'getelementptr', PTR, ops, st)
        if w in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('('); v = self.tv(); self.expect('to'); t = self.type(); self.expect(')')
            return ('ce', w, t, [v], None)
        if w in ('add', 'sub', 'mul', 'xor', 'shl', 'icmp', 'and', 'or', 'select'):
            pred = None
            while self.peekword() in ('nuw', 'nsw', 'eq', 'ne', 'ult', 'ugt', 'slt', 'sgt', 'ule', 'uge', 'sle', 'sge'):
                pred = self.word()
            self.expect('('); ops = [self.tv()]
            while self.eat(','): ops.append(self.tv())
            self.expect(')')
            return ('ce', w, ty, ops, pred)
        if w == 'asm':
            return ('asm',)
        if w == 'blockaddress':
            self.i = len(s); return ('u', PTR)
        raise SyntaxError('value %r in %r' % (w, s[:200]))
    def tv(self):
        t = self.type(); self.skipattrs()
        if t is META:
            # skip metadata operand to , or )
            d = 0
            while self.i < len(self.s):
                ch = self.s[self.i]
                if ch == '(': d += 1
                elif ch == ')':
                    if d == 0: break
                    d -= 1
                elif ch == ',' and d == 0: break
                self.i += 1
            return ('m',)
        return self.value(t)

BIN = {'add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor','fadd','fsub','fmul','fdiv','frem'}
CAST = {'trunc','zext','sext','fptrunc','fpext','fptoui','fptosi','uitofp','sitofp','ptrtoint','inttoptr','bitcast','addrspacecast'}
FLAGS = {'nsw','nuw','exact','inbounds','fast','nnan','ninf','nsz','arcp','contract','afn','reassoc','disjoint','nneg','volatile','tail','musttail','notail','atomic','samesign','nusw'}

SKIP = ('@llvm.dbg.', '@llvm.lifetime.', '@llvm.experimental.noalias', '@llvm.assume')

def parse(text):
    m = Module(); lines = text.split('\n')
    # pass 1: types
    for l in lines:
        if l.startswith('%') and ' = type ' in l:
            n = l[1:l.index(' = type')].strip('"')
            if n not in m.types: m.types[n] = Ty('struct', 0, [], False, n)
    for l in lines:
        if l.startswith('%') and ' = type ' in l:
            n = l[1:l.index(' = type')].strip('"')
            body = l[l.index(' = type ') + 8:]
            if body.strip() == 'opaque': continue
            p = P(m, body); t = p.type(); x = m.types[n]
            x.k, x.n, x.sub, x.packed = t.k, t.n, t.sub, t.packed
    i = 0; N = len(lines); fn = None; blk = None
    while i < N:
        l = lines[i]; i += 1
        if fn is None:
            if not l: continue
            c = l[0]
            if c == '!':
                mm = re.match(r'!(\d+) = (.*)', l)
                if mm: m.meta[int(mm.group(1))] = mm.group(2)
            elif c == '@': _global(m, l)
            elif l.startswith('define '):
                fn, pend = _fnhead(m, l); blk = pend
            elif l.startswith('declare '):
                f, _ = _fnhead(m, l, True)
        else:
            if l == '}':
                _finish(fn); fn = None; continue
            if not l.strip() or l.lstrip().startswith(';'): continue
            if l[0] not in ' \t':
                nm = re.match(r'("(?:[^"\\]|\\.)*"|[-\w.$]+):', l).group(1).strip('"')
                blk = Block(nm, fn); fn.blocks.append(blk); fn.bmap[nm] = blk
                continue
            if any(s in l for s in SKIP): continue
            s = l
            while True:
                st = s.rstrip()
                if st.startswith('  switch') and not st.split('!dbg')[0].rstrip().endswith(']') and '[' in st and ']' not in st[st.index('['):]:
                    s = st + ' ' + lines[i].strip(); i += 1; continue
                break
            if blk is None:
                # implicit entry label: number of params
                blk = Block('$entry', fn); fn.blocks.append(blk); fn.bmap['$entry'] = blk
                fn.entryname = None
            ins = _inst(m, s.strip())
            ins.block = blk; ins.fn = fn; ins.idx = len(blk.insts); blk.insts.append(ins)
    return m

def _global(m, l):
    mm = re.match(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+) = (.*)', l)
    name = mm.group(1).strip('"'); rest = mm.group(2)
    if ' alias ' in rest.split('=')[0][:60]: return
    k = re.search(r'(?:^|\s)(global|constant)\s', rest)
    if not k: return
    ext = 'external' in rest[:k.start()+1].split()
    p = P(m, rest, k.end()); t = p.type(); init = None
    if not ext:
        try: init = p.value(t)
        except Exception: init = None
    m.globals[name] = Global(name, t, k.group(1) == 'constant', init, ext)

def _fnhead(m, l, decl=False):
    at = l.index('@', 0)
    # the function name is the first @ that precedes '('
    p = P(m, l, at + 1); name = p.name()
    f = Function(name); f.decl = decl
    f.internal = ' internal ' in l[:at]
    pre = l[:at].rstrip()
    # return type = last type in prefix
    toks = pre.split(' ')
    for k in range(1, len(toks)):
        try:
            q = P(m, ' '.join(toks[k:])); q.skipattrs(); t = q.type(); q.ws()
            if q.i >= len(q.s): f.ret = t; break
        except Exception: continue
    p.expect('(')
    n = 0
    if not p.eat(')'):
        while True:
            if p.eat('...'):
                f.vararg = True; p.expect(')'); break
            t = p.type(); p.skipattrs()
            nm = None
            p.ws()
            if p.s[p.i] == '%': p.i += 1; nm = p.name()
            elif not decl: nm = str(n)
            f.params.append((nm, t)); n += 1
            if p.eat(','): continue
            p.expect(')'); break
    d = re.search(r'!dbg !(\d+)', l)
    f.dbg = int(d.group(1)) if d else None
    a = re.search(r'\)\s[^{]*?(#\d+)', l)
    f.attrs = l[p.i:]
    m.funcs[name] = f
    if decl: return f, None
    return f, None

def _inst(m, s):
    dbg = None
    k = s.find(', !')
    d = re.search(r', !dbg !(\d+)', s)
    if d: dbg = int(d.group(1))
    tb = re.search(r', !tbaa !(\d+)', s)
    tb = int(tb.group(1)) if tb else None
    if k >= 0: s = s[:k]
    dst = None
    mm = re.match(r'%("(?:[^"\\]|\\.)*"|[-\w.$]+) = ', s)
    if mm: dst = mm.group(1).strip('"'); s = s[mm.end():]
    p = P(m, s); op = p.word()
    while op in FLAGS or op in ('fastcc', 'ccc'): op = p.word()
    ins = None
    def flags():
        fl = set()
        while p.peekword() in FLAGS: fl.add(p.word())
        return fl
    if op in BIN:
        fl = flags(); t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        ins = Inst(op, dst, t, [a, b], fl)
    elif op in ('icmp', 'fcmp'):
        flags(); pr = p.word(); t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        ins = Inst(op, dst, int_ty(1), [a, b], pr)
    elif op in CAST:
        fl = flags(); a = p.tv(); st = None
        p.expect('to'); t = p.type(); ins = Inst(op, dst, t, [a], fl)
    elif op == 'load':
        flags(); t = p.type(); p.expect(','); a = p.tv(); ins = Inst('load', dst, t, [a]); ins.tbaa = tb
    elif op == 'store':
        flags(); v = p.tv(); p.expect(','); a = p.tv()
        ins = Inst('store', None, _opty(v, s), [v, a])
        q = P(m, s); q.word()
        while q.peekword() in FLAGS: q.word()
        ins.ty = q.type(); ins.tbaa = tb
    elif op == 'getelementptr':
        flags(); st = p.type(); ops = []
        while p.eat(','): ops.append(p.tv())
        ins = Inst('getelementptr', dst, PTR, ops, st)
    elif op == 'alloca':
        flags(); t = p.type(); n = None
        if p.eat(','):
            if not p.peek('align') and not p.peek('addrspace'): n = p.tv()
        ins = Inst('alloca', dst, PTR, [n] if n else [], t)
    elif op == 'br':
        if p.eat('label'):
            p.ws(); p.i += 1; ins = Inst('br', args=[], extra=[p.name()])
        else:
            c = p.tv(); p.expect(','); p.expect('label'); p.ws(); p.i += 1; a = p.name()
            p.expect(','); p.expect('label'); p.ws(); p.i += 1; b = p.name()
            ins = Inst('br', args=[c], extra=[a, b])
    elif op == 'switch':
        c = p.tv(); p.expect(','); p.expect('label'); p.ws(); p.i += 1; dflt = p.name()
        p.expect('['); cases = []
        while not p.eat(']'):
            v = p.tv(); p.expect(','); p.expect('label'); p.ws(); p.i += 1; cases.append((v[1], p.name()))
        ins = Inst('switch', args=[c], extra=(dflt, cases))
    elif op == 'ret':
        if p.eat('void'): ins = Inst('ret')
        else: ins = Inst('ret', args=[p.tv()])
    elif op == 'unreachable': ins = Inst('unreachable')
    elif op == 'phi':
        flags(); t = p.type(); inc = []
        while True:
            p.expect('['); v = p.value(t); p.expect(','); p.ws(); p.i += 1; b = p.name(); p.expect(']')
            inc.append((v, b))
            if not p.eat(','): break
        ins = Inst('phi', dst, t, [v for v, _ in inc], [b for _, b in inc])
    elif op == 'select':
        flags(); a = p.tv(); p.expect(','); b = p.tv(); p.expect(','); c = p.tv()
        q = P(m, s); q.word(); 
        while q.peekword() in FLAGS: q.word()
        q.tv(); q.expect(','); t = q.type()
        ins = Inst('select', dst, t, [a, b, c])
    elif op == 'call' or op == 'invoke':
        flags()
        # calling conv / ret attrs
        while p.peekword() in ('fastcc', 'ccc', 'coldcc'): p.word()
        p.skipattrs(); t = p.type(); p.ws()
        if p.peekword() == 'asm':
            ins = Inst('call', dst, t, [], ('asm', s)); ins.dbg = dbg; return ins
        cal = p.value(PTR); p.expect('(')
        args = []; tys = []; byval = []
        if not p.eat(')'):
            while True:
                j = p.i; q = P(m, s, j); tt = q.type()
                tys.append(tt); args.append(p.tv())
                if 'byval(' in s[j:p.i]: byval.append(len(args) - 1)
                if p.eat(','): continue
                p.expect(')'); break
        ins = Inst('call', dst, t, args, cal)
        ins.extra = cal; ins.argtys = tys; ins.byval = tuple(byval)
    elif op == 'freeze':
        ins = Inst('freeze', dst, None, [p.tv()])
        ins.ty = P(m, s, s.index('freeze') + 6).type()
    elif op == 'extractvalue':
        a = p.tv(); idx = []
        while p.eat(','): idx.append(p.num())
        ins = Inst('extractvalue', dst, None, [a], idx)
    elif op == 'insertvalue':
        a = p.tv(); p.expect(','); b = p.tv(); idx = []
        while p.eat(','): idx.append(p.num())
        ins = Inst('insertvalue', dst, None, [a, b], idx)
    elif op == 'fneg':
        flags(); t = p.type(); ins = Inst('fneg', dst, t, [p.value(t)])
    elif op in ('fence', 'va_arg', 'atomicrmw', 'cmpxchg', 'extractelement', 'insertelement', 'shufflevector'):
        ins = Inst(op, dst, int_ty(32) if dst else None, [])
    else:
        raise SyntaxError('op %r: %s' % (op, s))
    ins.dbg = dbg
    return ins

def _opty(v, s): return None

def _finish(f):
    # implicit entry label gets the name of the next unnamed value = number of unnamed params
    if f.blocks and f.blocks[0].name == '$entry':
        f.bmap[str(len(f.params))] = f.blocks[0]
        f.blocks[0].name = str(len(f.params))
    for k, b in enumerate(f.blocks):
        b.idx = k
        t = b.insts[-1]
        if t.op == 'br': s = t.extra
        elif t.op == 'switch': s = [t.extra[0]] + [x for _, x in t.extra[1]]
        else: s = []
        seen = []
        for x in s:
            if x not in seen: seen.append(x)
        b.succs = [f.bmap[x] for x in seen]
    for b in f.blocks:
        for s in b.succs: s.preds.append(b)

def load_file(path):
    with open(path) as fh: return parse(fh.read())
