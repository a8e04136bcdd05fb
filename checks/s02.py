"""S02: requests store and return exactly the bytes they name.

One arbitrary byte g of one arbitrary tag I is followed through a handler.  Every place where the byte can live (the value,
the override data, the override mask, the buffer of the reply) has a content: a boolean function, the same for each of the
eight bits, of the old value D, the old override data O and mask M and the two bytes X, Y of the request that belong to g.
Stores compose these functions; at the reply the function of the place is compared with what the request means."""
import chk, absint
from server import Server, where
from ghost import GhostTag, I, G, GO, kbatom
from lin import Lin, const, atom, ZERO
from bounds import Recorder

N = 32; ALL = (1 << N) - 1
def var(k): return sum(1 << p for p in range(N) if p >> k & 1)
D, O, M, X, Y = map(var, range(5))
def neg(f): return ALL & ~f
MASKED = (X & Y) | (D & neg(Y))
OVR = (O & M) | (D & neg(M))
FUNCNAMES = {D: 'the old value', O: 'the old override data', M: 'the old override mask', X: 'the byte of the request', Y: 'the mask of the request', 0: 'zero',
             MASKED: 'the masked byte', OVR: 'the overridden value', None: 'something else'}
def fname(f): return FUNCNAMES.get(f, 'another combination')

class Xfer(GhostTag):
    """ts: tuple of (place, content); places: 'data', 'odata', 'omask', (object, copy number)"""
    fields = ('attr', 'data', 'odata', 'omask')
    def __init__(self, srv, root, cmd, spec, mode, tracked=()):
        super().__init__(srv, root)
        self.cmd = cmd; self.spec = spec; self.mode = mode; self.tracked = set(tracked); self.replies = set()
        self.rec = Recorder(); self.stores = 0; self.nreply = 0
    def round(self, eng, blocks): self.rec.drop(blocks)
    def idx_range(self): return (self.c['I_OVRD_SET'] + 1, (1 << 31) - 2)
    def entry_fields(self, eng, st):
        c = self.c; one = 0; zero = c['A_VIRTUAL'] | c['A_SPECIAL']
        if 'set' in self.mode: one |= c['A_OVR_SET'] | c['A_OVERRIDE']
        else: zero |= c['A_OVR_SET']
        if 'none' in self.mode: zero |= c['A_OVERRIDE']
        f = {'attr': kbatom(eng, 'I.attr', 8 * c['w_attr'], one, zero)}
        for x in ('data', 'odata', 'omask'):
            if x != 'data' and 'none' in self.mode: f[x] = ZERO
            else: f[x] = eng.mk('I.' + x, kind='obj', lo=4096, hi=absint.BIGP)
        return f
    def setup(self, eng, st):
        c = self.c; self.keybits = {'attr': c['A_OVR_SET']}
        p = st.vals[eng.fn.params[0][0]]; self.p = p
        st.mem[(p.plus(c['m_fd']), c['mw_fd'])] = (eng.mk('msgfd', lo=0, hi=(1 << 31) - 1), None)
        ms = eng.mk('msgsize', lo=0, hi=c['msgdata']); st.mem[(p.plus(c['m_size']), c['mw_size'])] = (ms, None)
        md = p.plus(c['m_data'])
        R = 1 << 31
        idx = eng.mk('msgidx', lo=-R, hi=R - 1); off = eng.mk('msgoff', lo=-R, hi=R - 1)
        st.mem[(md, 4)] = (idx, None); st.mem[(md.plus(4), 4)] = (off, None)
        self.idx = idx; self.off = off
        sp = self.spec
        if sp['size'] == 'field':
            sz = eng.mk('msgsz', lo=-R, hi=R - 1); st.mem[(md.plus(8), 4)] = (sz, None)
        elif sp['half']:
            # size = (bytes of the request behind its header) / 2
            sz = eng.mk('msgsz', lo=0, hi=c['msgdata'])
            eng.assume(st, sz.scale(2).sub(ms).plus(sp['hdr'])); eng.assume(st, ms.plus(-sp['hdr'] - 1).sub(sz.scale(2)))
        else: sz = ms.plus(-sp['hdr'])
        self.size = sz
        ok = True
        m = self.mode[0]
        if m == 'other': ok = eng.assume_ne(st, I, idx)
        else: ok = eng.assume_eq(st, I, idx)
        if m == 'in': ok = ok and eng.assume(st, off.sub(G)) and eng.assume(st, G.plus(1).sub(off).sub(sz)) and eng.assume(st, off.scale(-1))
        if m == 'below': ok = ok and eng.assume(st, G.plus(1).sub(off))
        if m == 'above': ok = ok and eng.assume(st, off.add(sz).sub(G)) and eng.assume(st, sz.scale(-1))
        none = 'none' in self.mode
        st.ts = (('data', D), ('odata', 0 if none else O), ('omask', 0 if none else M))
        if not ok: st.ts = ()
    # ---- contents
    def get(self, st, place): return dict(st.ts).get(place, None)
    def put(self, st, place, f):
        d = dict(st.ts); d[place] = f; st.ts = tuple(sorted(d.items(), key=repr))
    def pos(self, k):
        """position of the byte that belongs to g in a buffer"""
        return G.sub(self.off).add(self.size.scale(k))
    def placeof(self, eng, st, addr):
        """[(place, displacement of the ghost byte from the base)] of the object an address points into"""
        b, off = eng.base(addr)
        if b is None: return None, None
        for f in ('data', 'odata', 'omask'):
            c = st.mem.get((atom(GO).plus(self.c['off_' + f]), 8))
            if c is not None and c[0] == atom(b): return [(f, G)], off
        if b in self.tracked: return [((b, k), self.pos(k)) for k in range(self.spec.get('copies', 1))], off
        if atom(b) == self.p:
            h = self.c['m_data'] + self.spec['hdr']
            return [(('msg', k), self.pos(k).plus(h)) for k in (0, 1)], off
        return None, None
    def content(self, eng, st, addr, delta=ZERO):
        """content of the byte at addr + delta, when it is the ghost byte of some place"""
        ps, off = self.placeof(eng, st, addr)
        if ps is None: return None
        for place, pos in ps:
            if eng.eq(st, off.add(delta), pos):
                if isinstance(place, tuple) and place[0] == 'msg': return (X, Y)[place[1]] if self.mode[0] == 'in' else None
                return self.get(st, place)
        return None
    def expr(self, eng, st, o, depth=0):
        """content of an 8 bit value, from the expression that computes it"""
        if o[0] == 'i': return {0: 0, 255: ALL, -1: ALL}.get(o[1])
        if o[0] != 'r' or depth > 12: return None
        i = eng.defs.get(o[1])
        if i is None: return None
        if i.op == 'load' and eng.width(i.ty) == 1: return self.loaded(eng, st, i)
        if i.op in ('zext', 'sext', 'trunc', 'freeze'): return self.expr(eng, st, i.args[0], depth + 1)
        if i.op in ('and', 'or', 'xor'):
            a = self.expr(eng, st, i.args[0], depth + 1); b = self.expr(eng, st, i.args[1], depth + 1)
            if a is None or b is None: return None
            return a & b if i.op == 'and' else a | b if i.op == 'or' else a ^ b
        return None
    def loaded(self, eng, st, i): return self.content(eng, st, eng.val(st, i.args[0]))
    # ---- effects
    def store(self, eng, st, inst, addr, width, val):
        ps, off = self.placeof(eng, st, addr)
        if ps is None or any(isinstance(p, tuple) and p[0] == 'msg' for p, _ in ps) or not st.ts: return super().store(eng, st, inst, addr, width, val)
        self.stores += 1
        n = const(width) if isinstance(width, int) else width
        todo = [st]; out = []
        for place, pos in ps:
            nxt = []
            for s in todo:
                a = s.copy()
                if eng.assume(a, off.sub(pos)) and eng.assume(a, pos.plus(1).sub(off).sub(n)):
                    if val is None:
                        if inst.op == 'call' and inst.extra and self.isset(inst):
                            v = eng.val(a, inst.args[1]) if not self.isbzero(inst) else ZERO
                            f = {0: 0, 255: ALL, -1: ALL}.get(v.c) if v.isconst() else None
                        else:
                            f = self.content(eng, a, eng.val(a, inst.args[1]), pos.sub(off))
                    elif width == 1: f = self.expr(eng, a, inst.args[0])
                    elif val == ZERO: f = 0
                    else: f = None
                    self.put(a, place, f); nxt.append(a)
                b = s.copy()
                if eng.assume(b, pos.plus(1).sub(off)): nxt.append(b)
                if eng.assume(s, off.add(n).sub(pos)): nxt.append(s)
            todo = nxt
        for s in todo:
            if inst.op == 'store': self.finish_store(eng, s, inst, addr, width, val)
            else:
                b, _ = eng.base(addr); eng.kill_base(s, b)
                if inst.dst: s.vals[inst.dst] = eng.val(s, inst.args[0])
        return todo
    def isbzero(self, i): return i.extra[0] == 'g' and i.extra[1] == 'bzero'
    def isset(self, i): return i.extra[0] == 'g' and (i.extra[1] in ('memset', 'bzero') or i.extra[1].startswith('llvm.memset'))
    def call(self, eng, st, i, name, args):
        if name == '_message_send':
            self.reply(eng, st, i, args); eng.fresh_result(st, i); return [st]
        if name is not None and (name in ('memset', 'bzero') or name.startswith('llvm.memset')):
            r = self.store(eng, st, i, args[0], args[1] if name == 'bzero' else args[2], None)
            if r is not None: return r
        elif name not in absint.NOWRITE_EXT and not (name or '').startswith('llvm.') and name not in ('memcpy', 'memmove', 'free', 'xfree'):
            for a in args:
                b, _ = eng.base(a)
                for place in [p for p, _ in st.ts if isinstance(p, tuple) and p[0] == b]: self.put(st, place, None)
        return super().call(eng, st, i, name, args)
    # ---- judgement
    def reply(self, eng, st, i, args):
        fd, cmd, pay, size, resp = args
        if not st.ts: return
        self.nreply += 1
        w = where(self.m, i); put = lambda t, g, m: self.rec.put(i, t, g, w, m)
        sp = self.spec; ok = resp == const(1)
        cell = lambda f: st.mem.get((atom(GO).plus(self.c['off_' + f]), 8))
        gone = cell('omask') is not None and cell('omask')[0] == ZERO
        if 'none' in self.mode: bind = lambda f: None if f is None else sub0(sub0(f, 1), 2)
        else: bind = lambda f: f
        exp = dict(sp['then']) if ok and self.mode[0] == 'in' else {}
        for place, f0 in (('data', D), ('odata', None), ('omask', M)):
            f = self.get(st, place)
            if place == 'odata':
                if gone: continue
                m = self.get(st, 'omask'); e = exp.get('odata', O & M)
                good = f is not None and m is not None and bind(f & m) == bind(e)
            else:
                if place == 'omask' and gone: continue
                e = exp.get(place, f0); good = f is not None and bind(f) == bind(e)
            what = {'data': 'value', 'odata': 'override data', 'omask': 'override mask'}[place]
            if ok and self.mode[0] == 'in':
                put('each byte of the range gets its %s' % what, good, 'a byte of the named range ends up as %s in the %s of the tag when the request succeeds' % (fname(f), what))
            else:
                put('nothing but the range is changed in the %s' % what if ok else 'a refused request changes no %s' % what, good,
                    'a byte %s ends up as %s in the %s of the tag' % ('outside of the named range' if ok else 'of a refused request', fname(f), what))
        if ok:
            b, off = eng.base(pay)
            if b: self.replies.add(b)
            if sp.get('reply'):
                put('the reply has the size asked for', eng.eq(st, size, self.size.scale(len(sp['reply']))), 'the reply has %s bytes, the request asked for %s' % (size, self.size))
                if self.mode[0] == 'in':
                    for k, e in enumerate(sp['reply']):
                        if e == 'value': e = OVR if 'set' in self.mode else D
                        f = self.content(eng, st, pay, self.pos(k))
                        put('the reply holds the bytes asked for', f is not None and f == e, 'a byte of the reply is %s' % fname(f))

def sub0(f, k):
    """f with variable k zero"""
    r = 0
    for p in range(N):
        if f >> (p & ~(1 << k)) & 1: r |= 1 << p
    return r

def specs(c):
    NX = neg(X); NY = neg(Y)
    return {
     c['MSG_TAG_READ']: dict(hdr=12, size='field', half=False, then={}, reply=['value'], modes=[('in',), ('in', 'set')]),
     c['MSG_TAG_WRITE']: dict(hdr=8, size='rest', half=False, then={'data': X}, modes=[('in',), ('below',), ('above',), ('other',)]),
     c['MSG_TAG_MWRITE']: dict(hdr=8, size='rest', half=True, then={'data': MASKED}, modes=[('in',), ('below',), ('above',), ('other',)]),
     c['MSG_ADD_OVRD']: dict(hdr=12, size='rest', half=True, then={'odata': (X & Y) | (O & M & NY), 'omask': M | Y},
                             modes=[('in',), ('in', 'none'), ('below',), ('above',), ('other',)]),
     c['MSG_DEL_OVRD']: dict(hdr=8, size='rest', half=False, then={'odata': O & M & NX, 'omask': M & NX}, modes=[('in',), ('in', 'set'), ('below',), ('above',), ('other',)]),
     c['MSG_GET_OVRD']: dict(hdr=12, size='field', half=False, then={}, reply=[D, M], copies=2, modes=[('in',), ('in', 'set')]),
    }

def run(ctx):
    global srv, SP
    ctx.rule = ('for an arbitrary byte g of an arbitrary tag: the contents that the paths of a read, write, masked write or override request leave in '
                'the value, the override data, the override mask and the reply at g equal what the request means for g, and equal the old contents when g is '
                'not named or the request is refused')
    srv = Server(); SP = specs(srv.c)
    chk.parallel(ctx, one, [(cmd, srv.handlers[cmd], m) for cmd, s in sorted(SP.items()) if cmd in srv.handlers for m in s['modes']])
    ctx.require('handlers x cases', 10); ctx.require('replies', 20)

def one(ctx, item):
    cmd, h, mode = item
    c0 = Xfer(srv, h, cmd, SP[cmd], mode)
    absint.Engine(srv.m, srv.fn(h), c0, srv.mr, K=6).run()
    cl = c0
    tr = {b for b in c0.replies if b.startswith('&') or b.startswith('M:')} if SP[cmd].get('reply') else set()
    if tr:
        cl = Xfer(srv, h, cmd, SP[cmd], mode, tr)
        absint.Engine(srv.m, srv.fn(h), cl, srv.mr, K=6).run()
    ctx.count('handlers x cases'); ctx.count('replies', cl.nreply); ctx.count('stores followed', cl.stores)
    ctx.sample('%s %s: %d replies' % (h, '/'.join(mode), cl.nreply))
    cl.rec.flush(ctx, h + ' ' + '/'.join(mode))
