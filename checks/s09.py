"""S09: messages cross the sockets whole and in order, in whatever pieces they travel.

Ghost cells follow the stream through each function that moves bytes between a descriptor and a message:
F, E: where the bytes that are not handled yet begin and end in the buffer; T: bytes of the stream taken or given so far."""
import chk, absint
from prog import Program, ProgClient
from server import where, find_handlers
from bounds import Recorder
from lin import Lin, ZERO, const, atom

INTMAX = (1 << 31) - 1
GH = '#stream'

class Stream(ProgClient):
    NG = 0
    """common part; typestate given by the subclasses"""
    sizes = {}
    def __init__(self, prog, root, ctx=None):
        super().__init__(prog, root); self.rec = Recorder(); self.n = {}
    def count(self, k): self.n[k] = self.n.get(k, 0) + 1
    def round(self, eng, blocks): self.rec.drop(blocks)
    def init(self, eng, st):
        eng.mk(GH, kind='obj', lo=4096, hi=absint.BIGP)
        self.P = [st.vals[p] for p, _ in eng.fn.params]
        self.ghosts = [(atom(GH).plus(8 * k), 8) for k in range(self.NG)]
        self.setup(eng, st)
    def put(self, i, tag, good, msg): self.rec.put(i, tag, good, where(self.m, i), msg)
    def g(self, st, k):
        c = st.mem.get((atom(GH).plus(8 * k), 8)); return c[0] if c else None
    def s(self, st, k, v): st.mem[(atom(GH).plus(8 * k), 8)] = (v, None)
    def stable(self, eng, key): return key[0] != 'pure' and eng.base(key[0])[0] == GH
    def swapped(self, eng, st, v, i=None):
        """network order of a 32 bit value"""
        if v.isconst():
            return const(absint._evop('bswap32', [v.c], None))
        from ir import int_ty
        return eng.opaque(st, 'bswap', int_ty(32), [v])
    def word(self, eng, st, addr, nm):
        """the 32 bit value stored at addr"""
        c = st.mem.get((addr, 4))
        if c is None:
            for k, v in st.mem.items():
                if k[0] != 'pure' and k[1] == 4 and eng.eq(st, k[0], addr): c = v
        if c is None:
            from ir import int_ty
            nm = eng.variant('w:' + nm, (addr, None)); eng._killatom(st, nm)
            c = (eng.mk(nm, int_ty(32), deps=eng.deps(addr), origin=(addr, None)), None); st.mem[(addr, 4)] = c
        return c[0]
    def isvar(self, name): return name in ('htonl', 'ntohl')
    def call(self, eng, st, i, name, args):
        if name in ('htonl', 'ntohl'):
            st.vals[i.dst] = self.swapped(eng, st, args[0])
            return [st]
        if name and name.startswith('llvm.bswap.i32'):
            st.vals[i.dst] = self.swapped(eng, st, args[0]); return [st]
        if name == '__errno_location':
            st.vals[i.dst] = eng.mk('errno*', kind='obj', lo=4096, hi=absint.BIGP); return [st]
        return super().call(eng, st, i, name, args)
    def newerrno(self, eng, st, i):
        from ir import int_ty
        a = eng.mk('errno*', kind='obj', lo=4096, hi=absint.BIGP)
        nm = eng.variant('errno:%s' % i.dst, ('e', None)); eng._killatom(st, nm)
        e = eng.mk(nm, int_ty(32), deps=[i.dst]); st.mem[(a, 4)] = (e, None)
        return e
    def errno(self, st):
        c = st.mem.get((atom('errno*'), 4)); return c[0] if c else None
    def iscall(self, eng, st, code):
        """may errno be this code?"""
        e = self.errno(st)
        if e is None: return True
        s = st.copy(); return eng.assume_eq(s, e, const(code))
    def written(self, eng, st, addr, n):
        for k in eng._rangedead(st, eng.base(addr)[0], addr, n): del st.mem[k]
    def io(self, eng, st, i, n):
        """results of read() and write(): [(state, result)]"""
        r = eng.fresh_result(st, i)
        e = self.newerrno(eng, st, i)
        a, b, c = st.copy(), st.copy(), st
        out = []
        if eng.assume(a, const(1).sub(r)) and eng.assume(a, r.sub(n)): out.append((a, 1))
        if eng.assume_eq(b, r, ZERO): b.vals[i.dst] = ZERO; out.append((b, 0))
        if eng.assume_eq(c, r, const(-1)): c.vals[i.dst] = const(-1); out.append((c, -1))
        return out

# ------------------------------------------------------------ the server's reader
class Reader(Stream):
    """typestate: what became of the connection: ('ok'|'eof'|'err'|'none', buffer released?)"""
    NG = 3; F, E, Q = 0, 1, 2       # Q: bytes behind the count that the buffer holds: E - index
    def setup(self, eng, st):
        c = self.c
        self.N = eng.mk('N', kind='obj', lo=4096, hi=absint.BIGP)
        self.ghosts.append((self.N.plus(c['b_index']), 4))
        idx = eng.mk('index0', lo=0, hi=c['max'] - 1)
        self.s(st, self.F, ZERO); self.s(st, self.Q, ZERO)
        st.mem[(self.N.plus(c['b_index']), 4)] = (idx, None); st.mem[(self.N.plus(c['b_fd']), 4)] = (self.P[0], None)
        st.ts = ('none', False)
    def idx(self, eng, st):
        k = st.mem.get((self.N.plus(self.c['b_index']), 4)); return k[0] if k else None
    def end(self, eng, st):
        i, q = self.idx(eng, st), self.g(st, self.Q)
        return None if i is None or q is None else i.add(q)
    def nbuf(self): return self.N.plus(self.c['b_buffer'])
    def stable(self, eng, key):
        if super().stable(eng, key): return True
        b, off = eng.base(key[0]) if key[0] != 'pure' else (None, None)
        return b == 'N' and off.isconst() and off.c in (self.c['b_index'], self.c['b_fd'])
    def joinkey(self, eng, st): return st.ts
    def loopkey(self, eng, st): return st.ts
    def store(self, eng, st, inst, addr, width, val):
        b, off = eng.base(addr)
        if b != 'N': return None
        c = self.c
        if off.isconst() and off.c == c['b_index'] and width == 4:
            old, q = self.idx(eng, st), self.g(st, self.Q)
            if old is not None and q is not None and val is not None: self.s(st, self.Q, q.add(old).sub(val))
            return None
        if off.isconst() and off.c == c['b_fd'] and width == 4:
            self.put(inst, 'the buffer stays with its connection', val is not None and (eng.eq(st, val, self.P[0]) or self.empty(eng, st)), 'a buffer that holds bytes is taken from its connection')
            return None
        # inside of the buffer
        f, e = self.g(st, self.F), self.end(eng, st)
        o = off.plus(-c['b_buffer']); n = const(width) if isinstance(width, int) else width
        if val is None and inst.op == 'call' and self.mover(inst):
            sb, so = eng.base(eng.val(st, inst.args[1])); so = so.plus(-c['b_buffer'])
            good = f is not None and e is not None and sb == 'N' and eng.eq(st, so, f) and (eng.entails(st, e.sub(f).sub(n)) or eng.entails(st, e.sub(f)))
            self.put(inst, 'the bytes that are left over are kept', good, 'bytes from %s on (%s of them) are moved, those not handled yet are %s to %s' % (so, n, f, e))
            if good:
                self.s(st, self.F, o); self.s(st, self.Q, o.sub(f).add(self.g(st, self.Q)))
            h = self.hcell(eng, st, f) if good else None
            eng.kill_base(st, 'N')
            if h is not None and eng.entails(st, f.plus(self.c['hdr']).sub(e)): st.mem[(self.nbuf().add(o), 4)] = (h, None)
            if inst.dst: st.vals[inst.dst] = addr
            self.count('moves')
            return [st]
        good = f is not None and e is not None and (eng.entails(st, o.add(n).sub(f)) or eng.entails(st, e.sub(o)) or eng.entails(st, e.sub(f)))
        self.put(inst, 'bytes that are not handled yet stay as they are', good, 'bytes at %s of the buffer are overwritten' % o)
        return None
    def hcell(self, eng, st, f):
        a = self.nbuf().add(f)
        for k, v in st.mem.items():
            if k[0] != 'pure' and k[1] == 4 and eng.base(k[0])[0] == 'N' and eng.eq(st, k[0], a): return v[0]
    def mover(self, i): return i.extra and i.extra[0] == 'g' and (i.extra[1] in ('memmove', 'memcpy') or i.extra[1].startswith(('llvm.memmove', 'llvm.memcpy')))
    def empty(self, eng, st):
        f, e = self.g(st, self.F), self.end(eng, st)
        return f is not None and e is not None and eng.entails(st, e.sub(f))
    def call(self, eng, st, i, name, args):
        c = self.c
        if name == 'find_buff_slot':
            self.put(i, 'the buffer of the connection is used', eng.eq(st, args[0], self.P[0]), 'the buffer of descriptor %s is looked up' % args[0])
            z = st.copy(); z.vals[i.dst] = ZERO; st.vals[i.dst] = self.N
            return [st, z]
        if name == 'read':
            self.count('reads')
            e = self.end(eng, st); b, off = eng.base(args[1])
            o = off.plus(-c['b_buffer'])
            self.put(i, 'the connection is read', eng.eq(st, args[0], self.P[0]), 'descriptor %s is read' % args[0])
            ok = b == 'N' and e is not None and eng.eq(st, o, e)
            self.put(i, 'bytes are added behind those that are there', ok, 'bytes are read to %s, those that are there end at %s' % (o, e))
            self.put(i, 'there is always room to read', eng.entails(st, const(1).sub(args[2])) and (e is None or eng.entails(st, args[2].add(e).plus(-c['max']))),
                     'up to %s bytes are read: none looks like the end of the connection, more than there is room for are lost' % args[2])
            out = []
            for s, k in self.io(eng, st, i, args[2]):
                if k == 1:
                    if ok: self.s(s, self.Q, self.g(s, self.Q).add(s.vals[i.dst]))
                    for kk in [x for x in s.mem if x[0] != 'pure' and eng.base(x[0])[0] == 'N' and not self.stable(eng, x)]: del s.mem[kk]
                    s.ts = ('ok', s.ts[1])
                else: s.ts = ('eof' if k == 0 else 'err', s.ts[1])
                out.append(s)
            return out
        if name == 'msg_dispatcher':
            self.count('dispatches')
            f, e = self.g(st, self.F), self.end(eng, st)
            b, off = eng.base(args[1]); o = off.plus(-c['b_buffer'])
            ok = b == 'N' and f is not None and eng.eq(st, o, f)
            self.put(i, 'messages are handled in order, each once', ok, 'the message at %s of the buffer is handled, the next one begins at %s' % (o, f))
            self.put(i, 'messages belong to their connection', eng.eq(st, args[0], self.P[0]), 'the message is handled for descriptor %s' % args[0])
            z = None
            if ok:
                z = self.swapped(eng, st, self.word(eng, st, self.nbuf().add(f), 'hdr'))
                self.put(i, 'only complete messages are handled', e is not None and eng.entails(st, z.sub(e).add(f)) and eng.entails(st, const(c['hdr']).sub(z)),
                         'a message is handled although not all of its %s bytes have been read' % z)
                self.put(i, 'a message fits', eng.entails(st, z.plus(-c['max'])), 'a message of more than %d bytes is handled' % c['max'])
                self.s(st, self.F, f.add(z))
            else: st.mem.pop((atom(GH), 8), None)
            eng.fresh_result(st, i)
            return [st]
        if name == 'buff_free':
            self.put(i, 'the buffer of the connection is used', eng.eq(st, args[0], self.P[0]), 'the buffer of descriptor %s is released' % args[0])
            self.put(i, 'no bytes are thrown away', self.empty(eng, st) or self.lost(eng, st), 'the buffer is released with bytes in it that are not handled yet')
            st.mem[(self.N.plus(c['b_index']), 4)] = (ZERO, None); st.mem[(self.N.plus(c['b_fd']), 4)] = (ZERO, None)
            self.s(st, self.F, ZERO); self.s(st, self.Q, ZERO)
            st.ts = (st.ts[0], True)
            eng.fresh_result(st, i); return [st]
        return super().call(eng, st, i, name, args)
    def lost(self, eng, st):
        """is the header of the next message known to be bad, or the connection over?"""
        if st.ts[0] in ('eof', 'err'): return True
        f = self.g(st, self.F)
        if f is None: return False
        z = self.swapped(eng, st, self.word(eng, st, self.nbuf().add(f), 'hdr'))
        s = st.copy()
        return not (eng.assume(s, const(self.c['hdr']).sub(z)) and eng.assume(s, z.plus(-self.c['max'])))
    def ret(self, eng, st, inst, val):
        c = self.c
        f, e = self.g(st, self.F), self.end(eng, st)
        if st.ts[0] == 'eof':
            self.put(inst, 'the end of the connection is reported', val is not None and eng.eq(st, val, const(c['nosock'])), 'returns %s at the end of the connection' % val)
        if st.ts[1] or st.ts[0] == 'none': return
        keep = f is not None and e is not None
        i = self.idx(eng, st); q = self.g(st, self.Q)
        self.put(inst, 'the bytes that are left over are kept', keep and (self.empty(eng, st) and eng.eq(st, i, ZERO) or eng.eq(st, f, ZERO) and eng.eq(st, q, ZERO)),
                 'bytes from %s to %s of the buffer are left, the buffer says 0 to %s' % (f, e, i))
        if not keep or st.ts[0] != 'ok': return
        w = self.word(eng, st, self.nbuf().add(f), 'hdr'); z = self.swapped(eng, st, w)
        s = st.copy()
        pend = eng.assume(s, f.plus(c['hdr']).sub(e)) and eng.assume(s, const(c['hdr']).sub(z)) and eng.assume(s, z.plus(-c['max'])) and eng.assume(s, z.add(f).sub(e))
        self.put(inst, 'a complete message is handled at once', not pend, 'returns although a complete message is in the buffer')
        self.put(inst, 'the buffer never stays full', eng.entails(st, e.sub(f).plus(1 - c['max'])) or not self.notbad(eng, st, z), 'the buffer may be full: nothing could be read any more')
    def notbad(self, eng, st, z):
        s = st.copy()
        return eng.assume(s, const(self.c['hdr']).sub(z)) and eng.assume(s, z.plus(-self.c['max']))

class Slots(Stream):
    """the functions that manage the buffers: only an empty buffer, or that of the named connection, changes hands.
    typestate: (nodes reached through the list and not left yet, has the search seen the last one?, pointers that are NULL or to nodes without owner, addresses of links)"""
    fdarg = False; finder = False
    def setup(self, eng, st): st.ts = (frozenset(), False, frozenset(), frozenset())
    def load(self, eng, st, inst, addr, width, val):
        if val is None or width != 8: return None
        ns, end, fr, ln = st.ts
        if addr in ln or self.islink(eng, st, addr): st.ts = (ns | {val}, end, fr, ln); self.count('nodes')
    def islink(self, eng, st, addr):
        b, off = eng.base(addr)
        return off.isconst() and b is not None and ((b == '@' + self.p.head and off.c == 0) or (off.c == self.c['b_next'] and any(eng.eq(st, Q, atom(b)) for Q in st.ts[0])))
    def noowner(self, eng, st, v):
        """is v NULL, or a node without owner?"""
        if eng.eq(st, v, ZERO) or v in st.ts[2]: return True
        c = self.cell(eng, st, v.plus(self.c['b_fd']))
        return c is not None and eng.eq(st, c, ZERO)
    def cell(self, eng, st, addr):
        c = st.mem.get((addr, 4))
        if c is None:
            for k, v in st.mem.items():
                if k[0] != 'pure' and k[1] == 4 and eng.eq(st, k[0], addr): c = v
        return c and c[0]
    def edge(self, eng, st, blk, succ):
        ns, end, fr, ln = st.ts
        if any(eng.eq(st, P, ZERO) for P in ns): end = True; ns = frozenset(P for P in ns if not eng.eq(st, P, ZERO))
        st.ts = (ns, end, fr, ln)
        if succ not in eng.loopblocks: return
        inside = eng.loopblocks[succ]
        phis = [(i, eng._phival(st, i, blk)) for i in succ.insts if i.op == 'phi']
        local = set(i.dst for b in inside for i in b.insts if i.dst)
        out = set()
        for P in ns:
            to = [i for i, v in phis if v == P]
            for i in to: out.add(atom('v:' + i.dst))
            if to: continue
            if blk in inside and eng.deps(P) & local:
                if self.finder and not end:
                    a = st.copy(); c = self.cell(eng, a, P.plus(self.c['b_fd']))
                    miss = eng.assume_ne(a, P, ZERO) and (c is None or eng.assume_eq(a, c, self.P[0]))
                    self.put(blk.insts[-1], 'the buffer of a connection is found', not miss, 'a buffer is passed over without looking whether it belongs to the connection')
            else: out.add(P)
        nf = {atom('v:' + i.dst) for i, v in phis if i.ty.k == 'ptr' and self.noowner(eng, st, v)}
        nf |= {P for P in fr if not (eng.deps(P) & local)}
        nl = {atom('v:' + i.dst) for i, v in phis if i.ty.k == 'ptr' and (v in ln or self.islink(eng, st, v))}
        st.ts = (frozenset(out), end, frozenset(nf), frozenset(nl | {a for a in ln if not (eng.deps(a) & local)}))
    def free(self, eng, st, P, i, what):
        """may node P be changed?"""
        c = self.cell(eng, st, P.plus(self.c['b_fd'])); x = self.cell(eng, st, P.plus(self.c['b_index']))
        b = eng.base(P)[0]
        ok = (b or '').startswith('M:') or (c is not None and eng.eq(st, c, ZERO)) or P in st.ts[2] or (x is not None and eng.entails(st, x) and not self.finder) or \
            (self.fdarg and c is not None and eng.eq(st, c, self.P[0]))
        self.put(i, 'only empty buffers change hands', ok, '%s of a buffer that may hold the beginning of a message for its connection' % what)
    def store(self, eng, st, inst, addr, width, val):
        b, off = eng.base(addr)
        if b is None or not off.isconst() or width != 4: return None
        ty = self.structof(inst)
        if ty is not None and 'BuffNode' not in ty and 'buffnode' not in ty: return None
        if b.startswith('M:'): return None                       # not in the list yet
        if off.c == self.c['b_fd']:
            self.free(eng, st, atom(b), inst, 'the owner is changed')
            if self.finder: self.put(inst, 'a buffer is given to the connection that asked', eng.eq(st, val, self.P[0]), 'the buffer is given to descriptor %s' % val)
            st.ts = st.ts[:2] + (frozenset(), st.ts[3])
        elif off.c == self.c['b_index']: self.free(eng, st, atom(b), inst, 'the contents are dropped')
        return None
    def structof(self, inst):
        d = inst.block.fn.defmap().get(inst.args[1][1]) if inst.args[1][0] == 'r' and hasattr(inst.block, 'fn') else None
        return d.extra.name if d is not None and d.op == 'getelementptr' and d.extra.k == 'struct' else None
    def call(self, eng, st, i, name, args):
        if name in ('free', 'xfree'):
            self.free(eng, st, args[0], i, 'the memory'); return [st]
        return super().call(eng, st, i, name, args)
    def ret(self, eng, st, inst, val):
        if not self.finder or val is None or eng.eq(st, val, ZERO): return
        c = self.cell(eng, st, val.plus(self.c['b_fd']))
        self.put(inst, 'the buffer belongs to the connection', c is not None and eng.eq(st, c, self.P[0]), 'the buffer that is returned is not given to the connection')
        ns, end = st.ts[:2]
        self.put(inst, 'the buffer of a connection is found', end or any(eng.eq(st, P, ZERO) or eng.eq(st, P, val) for P in ns), 'the search may end before the last buffer and give the connection a second one')

class Closer(Stream):
    """a function that closes a connection releases its buffer; typestate: (closed, released)"""
    def setup(self, eng, st): st.ts = (False, False)
    def call(self, eng, st, i, name, args):
        if name == 'close':
            self.put(i, 'the connection is closed', eng.eq(st, args[0], self.P[0]), 'descriptor %s is closed' % args[0])
            st.ts = (True, st.ts[1]); eng.fresh_result(st, i); self.count('closes'); return [st]
        if name == 'buff_free':
            self.put(i, 'the buffer of the connection is released', eng.eq(st, args[0], self.P[0]), 'the buffer of descriptor %s is released' % args[0])
            st.ts = (st.ts[0], True); eng.fresh_result(st, i); return [st]
        return super().call(eng, st, i, name, args)
    def ret(self, eng, st, inst, val):
        self.put(inst, 'a closed connection leaves no bytes behind', not st.ts[0] or st.ts[1], 'the descriptor is closed but the bytes in its buffer stay: they would precede those of the next connection')
        self.put(inst, 'bytes are dropped only when the connection is closed', st.ts[0] or not st.ts[1], 'the buffer is released but the connection goes on')

# ------------------------------------------------------------ the server's dispatcher
class Dispatch(Stream):
    """contents of the data byte g of the message that a handler sees; typestate: 'old' | 'msg' | 'zero' | '?'"""
    def setup(self, eng, st):
        self.G = eng.mk('g', lo=0, hi=self.c['mdata'] - 1)
        z = self.swapped(eng, st, self.word(eng, st, self.P[1], 'hdr'))
        eng.assume(st, const(self.c['hdr']).sub(z)); eng.assume(st, z.plus(-self.c['max']))
        self.Z = z; self.cmd = self.swapped(eng, st, self.word(eng, st, self.P[1].plus(4), 'cmd'))
        st.ts = 'old'
    def store(self, eng, st, inst, addr, width, val):
        b, off = eng.base(addr)
        if b is None or not b.startswith('&') or b not in self.msgs(eng): return None
        pos = self.G.plus(self.c['m_data']); n = const(width) if isinstance(width, int) else width
        out = []
        a = st.copy()
        if eng.assume(a, off.sub(pos)) and eng.assume(a, pos.plus(1).sub(off).sub(n)):
            ts = '?'
            if val is None and inst.op == 'call':
                nm = inst.extra[1]
                if nm in ('memset', 'bzero') or nm.startswith('llvm.memset'):
                    v = ZERO if nm == 'bzero' else eng.val(a, inst.args[1])
                    ts = 'zero' if v == ZERO else '?'
                else:
                    src = eng.val(a, inst.args[1])
                    ts = 'msg' if eng.eq(a, src.add(pos).sub(off), self.P[1].plus(self.c['hdr']).add(self.G)) else '?'
            elif val == ZERO: ts = 'zero'
            elif width == 1 and inst.op == 'store':
                d = eng.defs.get(inst.args[0][1]) if inst.args[0][0] == 'r' else None
                if d is not None and d.op == 'load':
                    ts = 'msg' if eng.eq(a, eng.val(a, d.args[0]), self.P[1].plus(self.c['hdr']).add(self.G)) else '?'
            a.ts = ts; out.append(a)
        x = st.copy()
        if eng.assume(x, pos.plus(1).sub(off)): out.append(x)
        if eng.assume(st, off.add(n).sub(pos)): out.append(st)
        for s in out:
            if inst.op == 'store':
                tag = eng.m.tbaa(inst.tbaa); eng.kill(s, addr, width, tag)
                if inst.ty.k in ('int', 'ptr'): s.mem[(addr, width)] = (val, tag)
            else:
                for k in eng._rangedead(s, b, addr, n): del s.mem[k]
                if inst.dst: s.vals[inst.dst] = addr
        return out
    def msgs(self, eng):
        if not hasattr(self, '_m'):
            self._m = {'&' + i.dst for f in [eng.fn] for i in f.insts() if i.op == 'alloca' and i.extra is not None and getattr(i.extra, 'k', None) == 'struct'}
        return self._m
    def call(self, eng, st, i, name, args):
        if name is None and len(args) == 1:
            self.count('calls')
            b, off = eng.base(args[0]); c = self.c
            def f(k):
                x = st.mem.get((args[0].plus(c['m_' + k]), c['mw_' + k])); return x[0] if x else None
            self.put(i, 'the handler gets the connection', f('fd') is not None and eng.eq(st, f('fd'), self.P[0]), 'the handler sees connection %s' % f('fd'))
            self.put(i, 'the handler gets the size of the message', f('size') is not None and eng.eq(st, f('size'), self.Z.plus(-c['hdr'])), 'the handler sees size %s, the message has %s' % (f('size'), self.Z.plus(-c['hdr'])))
            self.put(i, 'the handler gets the command', f('msg_type') is not None and eng.eq(st, f('msg_type'), self.cmd), 'the handler sees command %s' % f('msg_type'))
            a = st.copy(); ins = eng.assume(a, self.G.plus(1 + c['hdr']).sub(self.Z))
            x = st.copy(); outs = eng.assume(x, self.Z.plus(-c['hdr']).sub(self.G))
            self.put(i, 'the handler gets the bytes of the message', not ins or st.ts == 'msg', 'a byte of the message reaches the handler as %s' % {'old': 'what was there before', 'zero': 'zero'}.get(st.ts, 'something else'))
            self.put(i, 'the handler gets nothing but the message', not outs or st.ts == 'zero', 'the handler sees bytes behind the message that were not sent')
            eng.fresh_result(st, i); return [st]
        if name == '_message_send': eng.fresh_result(st, i); return [st]
        if name in ('memset', 'bzero') or (name or '').startswith('llvm.memset'):
            r = self.store(eng, st, i, args[0], args[1] if name == 'bzero' else args[2], None)
            if r is not None: return r
        return super().call(eng, st, i, name, args)

# ------------------------------------------------------------ writers
class Writer(Stream):
    """a function that writes a message: every byte of it, in order, whatever the kernel takes at a time.
    typestate: (base of the message, result of the last write: None, 1, 0, -1)"""
    NG = 1; T = 0
    def total(self, eng, st): raise NotImplementedError
    def start(self, eng, st): return None
    def setup(self, eng, st): st.ts = (None, None); self.s(st, self.T, ZERO); self.setup2(eng, st)
    def setup2(self, eng, st): pass
    def joinkey(self, eng, st): return st.ts
    def loopkey(self, eng, st): return st.ts[0]
    def fdof(self, eng, st): return self.P[0]
    def begin(self, eng, st, i, p): pass
    def call(self, eng, st, i, name, args):
        if name in ('write', 'send'):
            self.count('writes')
            t = self.g(st, self.T)
            B = st.ts[0]
            if B is None: B = self.start(eng, st) or self.origin(eng, st, args[1], t)
            if st.ts[0] is None: self.begin(eng, st, i, B)
            N = self.total(eng, st)
            self.put(i, 'the message goes to its connection', self.fdof(eng, st) is not None and eng.eq(st, args[0], self.fdof(eng, st)), 'bytes are written to %s' % args[0])
            ok = t is not None and eng.eq(st, args[1], B.add(t))
            self.put(i, 'bytes are written in order, each once', ok, 'writes from byte %s of the message on, %s have been written' % (args[1].sub(B), t))
            self.put(i, 'only the message is written', t is not None and N is not None and eng.entails(st, args[2].add(t).sub(N)), 'writes %s bytes, %s of %s have been written' % (args[2], t, N))
            out = []
            for s, k in self.io(eng, st, i, args[2]):
                if k == 1 and t is not None: self.s(s, self.T, t.add(s.vals[i.dst]))
                s.ts = (B, k); out.append(s)
            return out
        return super().call(eng, st, i, name, args)
    def edge(self, eng, st, blk, succ):
        if succ in eng.loopblocks: st.ts = (st.ts[0], None) + st.ts[2:]
    def origin(self, eng, st, p, t):
        """where the message is when byte t of it is at p"""
        b, off = eng.base(p)
        if t is None: return p
        return atom(b) if b is not None and eng.eq(st, off, t) else p.sub(t)
    def success(self, eng, st, val):
        s = st.copy(); return eng.assume(s, val.scale(-1))
    def ret(self, eng, st, inst, val):
        t = self.g(st, self.T); N = self.total(eng, st)
        if self.success(eng, st, val):
            s = st.copy(); eng.assume(s, val.scale(-1))
            self.put(inst, 'success means that all was written', t is not None and N is not None and eng.eq(s, t, N), 'returns success after %s of %s bytes' % (t, N))
        s = st.copy()
        if eng.assume(s, val.plus(1)) and st.ts[1] is not None:
            self.put(inst, 'what can go on is not given up', st.ts[1] != 1 and not (st.ts[1] == -1 and self.iscall(eng, s, self.c['eintr'])),
                     'gives up in the middle of a message although ' + ('the write was only interrupted by a signal' if st.ts[1] == -1 else 'the last write succeeded'))

class XWrite(Writer):
    def total(self, eng, st): return self.P[2]
    def start(self, eng, st): return self.P[1]
    def setup2(self, eng, st): eng.assume(st, self.P[2].scale(-1)); eng.assume(st, self.P[2].plus(-(1 << 30)))

class Sender(Stream):
    """server _message_send: what is handed to xwrite.  ghost payload byte g; typestate: contents of byte g behind the header"""
    api = False
    def setup(self, eng, st):
        self.G = eng.mk('g', lo=0, hi=self.c['mdata'] - 1)
        st.ts = ('old', None)
    def joinkey(self, eng, st): return st.ts
    def payload(self, eng): return self.P[2]
    def size(self, eng): return self.P[3]
    def store(self, eng, st, inst, addr, width, val):
        b, off = eng.base(addr)
        if b is None or not b.startswith('&'): return None
        pos = self.G.plus(self.c['hdr']); n = const(width) if isinstance(width, int) else width
        if not isinstance(width, int) or width > 8:
            pass
        elif eng.ainfo[b].get('size') is not None and not (isinstance(eng.ainfo[b]['size'], Lin) and eng.ainfo[b]['size'].isconst() and eng.ainfo[b]['size'].c > 64): return None
        out = []
        a = st.copy()
        if eng.assume(a, off.sub(pos)) and eng.assume(a, pos.plus(1).sub(off).sub(n)):
            ts = '?'
            if val is None and inst.op == 'call' and not (inst.extra[1] in ('memset', 'bzero') or inst.extra[1].startswith('llvm.memset')):
                src = eng.val(a, inst.args[1])
                if eng.eq(a, src.add(pos).sub(off), self.payload(eng).add(self.G)): ts = 'msg'
            elif width == 1 and inst.op == 'store':
                d = eng.defs.get(inst.args[0][1]) if inst.args[0][0] == 'r' else None
                if d is not None and d.op == 'load' and eng.eq(a, eng.val(a, d.args[0]), self.payload(eng).add(self.G)): ts = 'msg'
            a.ts = (ts, b); out.append(a)
        x = st.copy()
        if eng.assume(x, pos.plus(1).sub(off)): out.append(x)
        if eng.assume(st, off.add(n).sub(pos)): out.append(st)
        for s in out:
            if inst.op == 'store':
                tag = eng.m.tbaa(inst.tbaa); eng.kill(s, addr, width, tag)
                if inst.ty.k in ('int', 'ptr'): s.mem[(addr, width)] = (val, tag)
            else:
                for k in eng._rangedead(s, b, addr, n): del s.mem[k]
                if inst.dst: s.vals[inst.dst] = addr
        return out
    def header(self, eng, st, i, B, n):
        c = self.c
        put = lambda t, g, m: self.put(i, t, g, m)
        S = self.size(eng)
        put('the whole message is sent', eng.eq(st, n, S.plus(c['hdr'])), '%s bytes are sent for a payload of %s' % (n, S))
        h = st.mem.get((B, 4)); k = st.mem.get((B.plus(4), 4))
        want = self.swapped(eng, st, S.plus(c['shdr']))
        put('the header holds the size', h is not None and self.same(eng, st, h[0], S.plus(c['shdr'])), 'the size in the header is %s' % (h and h[0]))
        put('the header holds the command', k is not None and self.command(eng, st, k[0]), 'the command in the header is %s' % (k and k[0]))
        a = st.copy()
        if eng.assume(a, self.G.plus(1).sub(S)):
            put('the payload follows the header', st.ts[0] == 'msg' and eng.eq(st, atom(st.ts[1]), B), 'a byte of the payload is sent as %s' % {'old': 'what was there before'}.get(st.ts[0], 'something else'))
    def same(self, eng, st, v, want):
        """is v the network order of want?"""
        for a, (tag, parts, ty) in [(a, eng.ainfo[a].get('ev', (None, (), None))) for a, _ in v.t]:
            if v == atom(a) and tag == 'bswap' and (eng.eq(st, parts[0], want) or self.low(eng, st, parts[0], want)): return True
        return v.isconst() and want.isconst() and absint._evop('bswap32', [want.c], None) == v.c
    def low(self, eng, st, x, want):
        """is x the low 32 bits of want?"""
        c = eng._congof(x)
        return c is not None and c[1] == 32 and eng.eq(st, c[0], want)

class SrvSender(Sender):
    def command(self, eng, st, v):
        c = self.c; cmd, resp = self.P[1], self.P[4]
        for a, _ in v.t:
            ev = eng.ainfo[a].get('ev')
            if v == atom(a) and ev and ev[0] == 'bswap':
                x = ev[1][0]
                if eng.eq(st, x, cmd): return not any(self.may(eng, st, resp, k) for k in (1, 2))
                for k, flag in ((1, c['resp']), (2, c['err'])):
                    if self.isor(eng, st, x, cmd, flag): return eng.eq(st, resp, const(k))
        return False
    def may(self, eng, st, v, k):
        s = st.copy(); return eng.assume_eq(s, v, const(k))
    def isor(self, eng, st, x, cmd, flag):
        for a, _ in x.t:
            ev = eng.ainfo[a].get('ev')
            if x == atom(a) and ev and ev[0].startswith('or'):
                p = ev[1]
                if const(flag) in p and any(eng.eq(st, q, cmd) for q in p): return True
        return eng.eq(st, x, cmd.plus(flag))
    def call(self, eng, st, i, name, args):
        if name in ('xwrite', 'write', 'send'):
            self.count('sends')
            self.put(i, 'the message goes to its connection', eng.eq(st, args[0], self.P[0]), 'sent to %s' % args[0])
            self.header(eng, st, i, args[1], args[2])
            eng.fresh_result(st, i); return [st]
        return super().call(eng, st, i, name, args)

def run(ctx):
    global srv, lib
    ctx.rule = ('every function that moves bytes between a socket and a message keeps the stream: bytes are taken and given in order and once, '
                'incomplete messages are kept until the rest arrives, complete ones are handled at once with exactly their bytes, and success '
                'means that all of a message has been written')
    parts = server_parts()
    chk.parallel(ctx, one, parts)
    for k, n in (('reads', 2), ('dispatches', 1), ('writes', 2), ('sends', 1)): ctx.require(k, n)

EX = {'b_fd': 'offsetof(dax_buffnode,fd)', 'b_index': 'offsetof(dax_buffnode,index)', 'b_buffer': 'offsetof(dax_buffnode,buffer)', 'b_next': 'offsetof(dax_buffnode,next)',
      'max': 'sizeof(((dax_buffnode*)0)->buffer)', 'hdr': 'MSG_HDR_SIZE', 'nosock': 'ERR_NO_SOCKET', 'eintr': 'EINTR', 'resp': 'MSG_RESPONSE', 'err': 'MSG_ERROR', 'mdata': 'MSG_DATA_SIZE', 'shdr': '0'}
for _f in ('size', 'msg_type', 'data', 'fd'): EX['m_' + _f] = 'offsetof(dax_message,%s)' % _f
for _f in ('size', 'msg_type', 'fd'): EX['mw_' + _f] = 'sizeof(((dax_message*)0)->%s)' % _f
KEEP = {'find_buff_slot', 'buff_free', 'buff_freeall', 'buff_read', 'msg_dispatcher', 'msg_del_fd', 'xwrite', '_message_send'}

# ------------------------------------------------------------ the library
class LibSender(Writer, Sender):
    def setup(self, eng, st):
        self.G = eng.mk('g', lo=0, hi=self.c['mdata'] - 1)
        self.s(st, self.T, ZERO); st.ts = (None, None, ('old', None))
    def joinkey(self, eng, st): return st.ts
    def loopkey(self, eng, st): return st.ts[:1] + st.ts[2:]
    def payload(self, eng): return self.P[2]
    def size(self, eng): return self.P[3]
    def total(self, eng, st): return self.P[3].plus(self.c['hdr'])
    def fdof(self, eng, st):
        c = st.mem.get((self.P[0].plus(self.c['sfd']), 4)); return c[0] if c else None
    def command(self, eng, st, v): return self.same(eng, st, v, self.P[1])
    def store(self, eng, st, inst, addr, width, val):
        w = st.ts[:2]; st.ts = st.ts[2]
        r = Sender.store(self, eng, st, inst, addr, width, val)
        for s in ([st] if r is None else r): s.ts = w + (s.ts,)
        return r
    def begin(self, eng, st, i, B):
        x = st.copy(); x.ts = st.ts[2]
        self.header(eng, x, i, B, self.total(eng, st))
    def call(self, eng, st, i, name, args):
        d = st.ts[2]; st.ts = st.ts[:2]
        keep = st.ts
        if name in ('write', 'send'):
            st.ts = keep + (d,); a = st
            t = st.ts
            # Writer.call works on the first two components
            st2 = st; st2.ts = keep
            old = self.begin
            self.begin = lambda e, s, ii, B: old(e, self._with(s, keep + (d,)), ii, B)
            try: r = Writer.call(self, eng, st2, i, name, args)
            finally: self.begin = old
            for s in r: s.ts = s.ts + (d,)
            return r
        st.ts = keep + (d,)
        return Stream.call(self, eng, st, i, name, args)
    def _with(self, s, ts):
        x = s.copy(); x.ts = ts; return x
    def ret(self, eng, st, inst, val):
        x = st.copy(); x.ts = st.ts[:2]
        Writer.ret(self, eng, x, inst, val)

class Getter(Stream):
    """one message from the stream; typestate: (base of the header, base of the body, data complete?, last result)"""
    NG = 1; T, Z, C = 0, 1, 2
    def setup(self, eng, st):
        st.ts = (None, None, False, None); self.s(st, self.T, ZERO)
    def joinkey(self, eng, st): return st.ts
    def loopkey(self, eng, st): return st.ts[:3]
    def edge(self, eng, st, blk, succ):
        if succ in eng.loopblocks: st.ts = st.ts[:3] + (None,)
    def have(self, eng, st):
        """the header is complete: remember size and command"""
        if self.g(st, self.Z) is None and st.ts[0] is not None:
            self.s(st, self.Z, self.swapped(eng, st, self.word(eng, st, st.ts[0], 'hdr')))
            self.s(st, self.C, self.swapped(eng, st, self.word(eng, st, st.ts[0].plus(4), 'cmd')))
        return self.g(st, self.Z)
    def call(self, eng, st, i, name, args):
        c = self.c
        if name in ('read', 'recv'):
            self.count('reads'); H = c['hdr']
            self.put(i, 'the connection is read', eng.eq(st, args[0], self.P[0]), 'descriptor %s is read' % args[0])
            out = []
            a = st.copy(); t = self.g(st, self.T)
            if t is None: self.put(i, 'bytes are read in order', False, 'it is not known how much has been read'); eng.fresh_result(st, i); return [st]
            if eng.assume(a, t.plus(1 - H)):          # in the header
                B = a.ts[0] or Writer.origin(self, eng, a, args[1], t)
                self.put(i, 'bytes are read in order', eng.eq(a, args[1], B.add(t)), 'byte %s of the header is read to %s' % (t, args[1].sub(B)))
                self.put(i, 'only this message is read', eng.entails(a, args[2].add(t).plus(-H)) and eng.entails(a, const(1).sub(args[2])), 'reads %s bytes, %s of the header are there' % (args[2], t))
                for s, k in self.io(eng, a, i, args[2]):
                    s.ts = (B, None, False, k)
                    if k == 1:
                        self.s(s, self.T, t.add(s.vals[i.dst])); self.written(eng, s, args[1], args[2])
                    out.append(s)
            b = st
            if eng.assume(b, const(H).sub(t)):        # in the data
                z = self.have(eng, b)
                if z is None: self.put(i, 'the header is read first', False, 'the data is read before the header'); eng.fresh_result(b, i); return out + [b]
                B = b.ts[1] or Writer.origin(self, eng, b, args[1], t.plus(-H))
                self.put(i, 'bytes are read in order', eng.eq(b, args[1], B.add(t).plus(-H)), 'byte %s of the data is read to %s' % (t.plus(-H), args[1].sub(B)))
                self.put(i, 'only this message is read', eng.entails(b, args[2].add(t).plus(-H).sub(z)) and eng.entails(b, const(1).sub(args[2])), 'reads %s bytes, %s of %s are there' % (args[2], t.plus(-H), z))
                for s, k in self.io(eng, b, i, args[2]):
                    s.ts = (s.ts[0], B, False, k)
                    if k == 1:
                        self.s(s, self.T, t.add(s.vals[i.dst])); self.written(eng, s, args[1], args[2])
                    out.append(s)
            return out
        return super().call(eng, st, i, name, args)
    def load(self, eng, st, inst, addr, width, val):
        t = self.g(st, self.T)
        if val is not None and st.ts[0] is not None and width == 4 and t is not None and eng.entails(st, const(self.c['hdr']).sub(t)): self.have(eng, st)
        return None
    def store(self, eng, st, inst, addr, width, val):
        b, off = eng.base(addr); D = self.P[1].plus(self.c['m_data'])
        if val is None and inst.op == 'call' and st.ts[1] is not None and eng.eq(st, addr, D):
            z, t = self.g(st, self.Z), self.g(st, self.T); n = const(width) if isinstance(width, int) else width
            if eng.eq(st, eng.val(st, inst.args[1]), st.ts[1]) and z is not None and eng.entails(st, z.sub(n)) and eng.eq(st, t, z.plus(self.c['hdr'])):
                st.ts = (st.ts[0], st.ts[1], True, st.ts[3])
        return None
    def ret(self, eng, st, inst, val):
        c = self.c; H = c['hdr']; t = self.g(st, self.T)
        s = st.copy()
        if eng.assume_eq(s, val, ZERO):
            self.count('replies')
            z = self.have(eng, s)
            self.put(inst, 'a message is complete', z is not None and t is not None and eng.eq(s, t, z.plus(H)), 'success after %s of %s bytes' % (t, z and z.plus(H)))
            if z is not None:
                f = lambda k: (s.mem.get((self.P[1].plus(c['m_' + k]), c['mw_' + k])) or (None,))[0]
                self.put(inst, 'the message has its size', f('size') is not None and eng.eq(s, f('size'), z), 'the size of the message is %s' % f('size'))
                self.put(inst, 'the message has its command', f('msg_type') is not None and eng.eq(s, f('msg_type'), self.g(s, self.C)), 'the command of the message is %s' % f('msg_type'))
                direct = s.ts[1] is not None and eng.eq(s, s.ts[1], self.P[1].plus(c['m_data']))
                self.put(inst, 'the message has its data', s.ts[2] or direct or eng.entails(s, z), 'the data of the message is not what was read')
        e = st.copy()
        if eng.assume(e, val.plus(1)):
            if st.ts[3] == 1:
                z = self.have(eng, e) if t is not None and eng.entails(e, const(H).sub(t)) else None
                x = e.copy()
                fine = z is not None and not (eng.assume(x, z.scale(-1)) and eng.assume(x, z.plus(-c['mdata'])))
                self.put(inst, 'a good message is not given up', fine, 'gives up a message that may be good')
            if st.ts[3] == -1:
                x = e.copy()
                part = t is None or eng.assume(x, const(1).sub(t))
                self.put(inst, 'a pause in the middle of a message does not end it', not (part and any(self.iscall(eng, x, k) for k in (c['eintr'], c['eagain']))),
                         'gives up in the middle of a message because nothing came for a while: the next read would begin in the middle')

LEX = {'hdr': 'MSG_HDR_SIZE', 'mdata': 'MSG_DATA_SIZE', 'eintr': 'EINTR', 'eagain': 'EAGAIN', 'sfd': 'offsetof(dax_state,sfd)', 'shdr': 'MSG_HDR_SIZE'}
for _f in ('size', 'msg_type', 'data', 'fd'): LEX['m_' + _f] = 'offsetof(dax_message,%s)' % _f
for _f in ('size', 'msg_type', 'fd'): LEX['mw_' + _f] = 'sizeof(((dax_message*)0)->%s)' % _f

PARTS = [('buff_read', Reader, {}), ('find_buff_slot', Slots, {'finder': True}), ('buff_free', Slots, {'fdarg': True}), ('buff_freeall', Slots, {}), ('msg_del_fd', Closer, {}),
         ('msg_dispatcher', Dispatch, {}), ('xwrite', XWrite, {}), ('_message_send', SrvSender, {}),
         ('lib:_message_send', LibSender, {}), ('lib:_message_get', Getter, {})]
def server_parts():
    global srv, lib
    import irbuild
    b = irbuild.Builder()
    f = [e['file'] for e in b.units('tagserver') if e['file'].endswith('/buffer.c')]
    srv = Program('tagserver', KEEP, b, EX, ['message.h', f[0] if f else 'buffer.c', '<errno.h>'])
    lib = Program('dax', {'_message_send', '_message_get'}, b, LEX, ['libdax.h', 'libcommon.h', 'opendax.h', '<errno.h>'])
    for k, p in ((EX, srv), (LEX, lib)):
        miss = [x for x in k if x not in p.c]
        if miss: raise chk.Broken('header constants not available: %s' % ', '.join(miss))
    srv.head = '_buffer'
    return [(n, ) for n, _, _ in PARTS]
def one(ctx, item):
    name, k, attrs = [x for x in PARTS if x[0] == item[0]][0]
    p = lib if name.startswith('lib:') else srv
    n = name.split(':')[-1]
    if n not in p.m.funcs or p.m.funcs[n].decl: raise chk.Broken('function %s not found' % n)
    cl = k(p, n)
    for a, v in attrs.items(): setattr(cl, a, v)
    absint.Engine(p.m, p.m.funcs[n], cl, p.mr, K=8).run()
    for a, v in cl.n.items(): ctx.count(a, len({i for i in cl.rec.res}) and v and 1 or 0)
    ctx.count('functions'); ctx.sample('%s: %s' % (name, cl.n))
    cl.rec.flush(ctx, name)
