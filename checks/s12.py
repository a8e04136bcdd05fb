"""S12: the server carries out a request with the parameters that the request names, and answers with the result.

For every request that is handed to a working function (tags, events, mappings, atomic operations): each parameter of that function is
the field of the message that stands for it, the module is that of the connection, the reply is a success exactly when the function
succeeded and holds its results at their places."""
import chk, absint
from server import Server, SrvClient, where
from bounds import Recorder
from lin import Lin, ZERO, const, atom
import l04

W = {'index': 4, 'byte': 4, 'bit': 1, 'count': 4, 'size': 4, 'type': 4}
SRC = dict(index=0, byte=4, bit=8, count=9, size=13, type=17)
DST = {f: o + 21 for f, o in SRC.items()}
TAG = [(0, 't_idx', 4), (4, 't_type', 4), (8, 't_count', 4), (12, 't_attr', 2)]
def v(o, w=4): return ('v', o, w)
def h(**at): return ('h', at)
def at(o): return ('at', o)
MOD, FD = ('mod',), ('fd',)
# request -> function: (parameters, reply)
SPEC = {
 'MSG_TAG_ADD': {'tag_add': ({0: FD, 1: at(12), 2: v(0), 3: v(4), 4: v(8)}, [(0, 'result', 4)])},
 'MSG_TAG_DEL': {'tag_del': ({0: v(0)}, [])},
 'MSG_TAG_GET': {'tag_get_index': ({0: v(1)}, [(o, 1, f, w) for o, f, w in TAG]), 'tag_get_name': ({0: at(1)}, [(o, 1, f, w) for o, f, w in TAG])},
 'MSG_EVNT_ADD': {'event_add': ({0: h(index=0, byte=4, count=8, type=12, size=20, bit=24), 1: v(16), 2: at(25), 3: MOD}, [(0, 'result', 4)])},
 'MSG_EVNT_DEL': {'event_del': ({0: v(0), 1: v(4), 2: MOD}, [])},
 'MSG_EVNT_OPT': {'event_opt': ({0: v(0), 1: v(4), 2: v(8), 3: MOD}, [])},
 'MSG_MAP_ADD': {'map_add': ({0: h(**SRC), 1: h(**DST)}, [(0, 'result', 4)])},
 'MSG_MAP_DEL': {'map_del': ({0: v(0), 1: v(4)}, [])},
 'MSG_MAP_GET': {'map_get': ({2: v(0), 3: v(4)}, [(o, 0, 'h_' + f, W[f]) for f, o in SRC.items()] + [(o, 1, 'h_' + f, W[f]) for f, o in DST.items()])},
 'MSG_ATOMIC_OP': {'atomic_op': ({0: h(index=0, byte=4, count=8, type=12, bit=16, size=('rest', 21)), 1: at(21), 2: v(17, 2)}, [])},
}
WORK = {f for s in SPEC.values() for f in s}
KEEP = WORK | {'module_find_fd', '_get_module_fd', 'is_tag_readonly', 'is_tag_owned'}
COPY = l04.COPY

class Handler(SrvClient):
    """ts: None | ('mod', module) | ('ok' | 'err', function, result, arguments, names copied)"""
    splits = True
    def __init__(self, srv, root, cmd):
        super().__init__(srv, root); self.rec = Recorder(); self.n = {}; self.cmd = cmd; self.spec = SPEC[cmd]
    def put(self, i, tag, good, msg): self.rec.put(i, tag, good, where(self.m, i), msg)
    def count(self, k): self.n[k] = self.n.get(k, 0) + 1
    def round(self, eng, blocks): self.rec.drop(blocks)
    def joinkey(self, eng, st): return st.ts
    def loopkey(self, eng, st): return st.ts
    strip = l04.Wire.strip; came = l04.Wire.came
    def stable(self, eng, key):
        if super().stable(eng, key): return True
        return key[0] != 'pure' and eng.base(key[0])[0] == 'p:' + eng.fn.params[0][0] and eng.base(key[0])[1].isconst()
    def init(self, eng, st):
        c = self.c; self.P = st.vals[eng.fn.params[0][0]]
        self.fd = eng.mk('msgfd', lo=0, hi=(1 << 31) - 1); st.mem[(self.P.plus(c['m_fd']), c['mw_fd'])] = (self.fd, None)
        self.ms = eng.mk('msgsize', lo=0, hi=c['msgdata']); st.mem[(self.P.plus(c['m_size']), c['mw_size'])] = (self.ms, None)
        st.ts = None
    def at(self, k): return self.P.plus(self.c['m_data'] + k)
    def cell(self, eng, st, a, w):
        for k, c in st.mem.items():
            if k[0] == a and k[1] == w: return c[0]
        for k, c in st.mem.items():
            if k[0] == a and k[0] != 'pure' and k[1] > w: return c[0]
    def req(self, eng, st, val, o, w):
        """val is the field of the request at o"""
        if val is None: return False
        if self.came(eng, val, w) == self.at(o): return True
        c = self.cell(eng, st, self.at(o), w)
        return c is not None and (eng.eq(st, c, val) or self.strip(eng, c, w) == self.strip(eng, val, w))
    def block(self, eng, st, a, w, o):
        """the w bytes at a were copied from the request together with others"""
        for k, c in st.mem.items():
            if k[0] == 'pure': continue
            d = a.sub(k[0])
            if d.isconst() and 0 <= d.c and d.c + w <= k[1] and self.came(eng, c[0], k[1]) == self.at(o - d.c): return True
        return False
    def good(self, eng, st, val, e):
        if e[0] == 'fd': return eng.eq(st, val, self.fd)
        if e[0] == 'at': return eng.eq(st, val, self.at(e[1]))
        if e[0] == 'v': return self.req(eng, st, val, e[1], e[2])
        if e[0] == 'mod': return val == atom('mod')
    def store(self, eng, st, inst, addr, width, val):
        ts = st.ts
        if ts is None or ts[0] != 'ok': return
        w = width if type(width) is int else width.c if width.isconst() else None
        keep = tuple(r for r in ts[4] if r[0] != 'cell' or not self.over(r, addr, w))
        x = self.came(eng, val, w)
        if x is None and val is None and inst.op == 'call' and len(inst.args) > 1: x = eng.val(st, inst.args[1])
        if x is not None and w is not None:
            for e in self.spec[ts[1]][1]:
                if e[1] != 'result' and x == ts[3][e[1]].plus(self.c[e[2]]) and w >= e[3]: keep += (('cell', addr, e[3], e[0]),)
        st.ts = ts[:4] + (keep,)
    def over(self, r, addr, w):
        d = r[1].sub(addr)
        return d.isconst() and d.c + r[2] > 0 and (w is None or d.c < w)
    def call(self, eng, st, i, name, args):
        c = self.c
        if name in ('module_find_fd', '_get_module_fd') and i.dst:
            self.put(i, 'the module of the connection is used', eng.eq(st, args[0], self.fd), 'the module of descriptor %s' % args[0])
            z = st.copy(); z.vals[i.dst] = ZERO
            st.vals[i.dst] = eng.mk('mod', kind='obj', lo=4096, hi=absint.BIGP); return [st, z]
        if name == 'tag_get_index' and self.cmd == 'MSG_TAG_DEL':  # only to look at the name
            z = st.copy(); st.ts = ('looked', args[0], args[1])
            for q in (st, z): eng.clobber(q, i, None, args)
            if i.dst:
                st.vals[i.dst] = ZERO; x = eng.fresh_result(z, i); eng.assume(z, x.plus(1))
            return [st, z]
        if name in self.spec:
            par, rep = self.spec[name]; self.count('requests')
            if name == 'tag_add': self.reserved(eng, st, i, self.at(12))
            if name == 'tag_del':
                ok = st.ts is not None and st.ts[0] == 'looked' and eng.eq(st, st.ts[1], args[0])
                self.put(i, 'it is known which tag is removed', ok, 'the name that was looked at is not that of the tag')
                if ok: self.reserved(eng, st, i, st.ts[2].plus(c['t_name']))
            if self.cmd == 'MSG_TAG_GET':
                k = self.cell(eng, st, self.at(0), 1); z = st.copy(); want = name == 'tag_get_index'
                ok = k is not None and not (eng.assume_ne(z, k, const(c['TAG_GET_INDEX'])) if want else eng.assume_eq(z, k, const(c['TAG_GET_INDEX'])))
                self.put(i, 'the tag is looked up as it was asked for', ok, '%s() for another kind of request' % name)
            for k, e in par.items():
                if e[0] != 'h':
                    self.count('parameters')
                    self.put(i, 'parameter %d of %s() is that of the request' % (k, name), self.good(eng, st, args[k], e), 'parameter %d of %s() is %s' % (k, name, args[k]))
                    continue
                for f, o in e[1].items():
                    x = self.cell(eng, st, args[k].plus(c['h_' + f]), W[f]); self.count('parameters')
                    ok = x is not None and self.rest(eng, st, x, o[1]) if type(o) is tuple else self.req(eng, st, x, o, W[f]) or self.block(eng, st, args[k].plus(c['h_' + f]), W[f], o)
                    self.put(i, '%s of parameter %d of %s() is that of the request' % (f, k, name), ok, '%s is %s' % (f, x))
            z = st.copy()
            for q in (st, z): eng.clobber(q, i, None, args)
            if i.dst:
                r = eng.fresh_result(st, i); eng.assume(st, r.scale(-1))
                if self.cmd in ('MSG_TAG_GET', 'MSG_TAG_DEL'): eng.assume_eq(st, r, ZERO)
                q = eng.fresh_result(z, i); eng.assume(z, q.plus(1))
                st.ts = ('ok', name, r, tuple(args), ()); z.ts = ('err', name, q, (), ())
                return [st, z]
            return [st]
        if st.ts is not None and st.ts[0] == 'ok' and (any(name.startswith(x) for x in l04.STR) or name.startswith(COPY)) and self.cmd == 'MSG_TAG_GET':
            if args[1] == st.ts[3][1].plus(c['t_name']): st.ts = st.ts[:4] + (st.ts[4] + (('name', args[0]),),)
        if name in ('strlen', 'strnlen') and i.dst and st.ts is not None and st.ts[0] == 'ok' and self.cmd == 'MSG_TAG_GET' and args[0] == st.ts[3][1].plus(c['t_name']):
            st.ts = st.ts[:4] + (st.ts[4] + (('len', atom('C:' + i.dst)),),)
        if name == '_message_send': self.send(eng, st, i, args)
        return super().call(eng, st, i, name, args)
    def reserved(self, eng, st, i, a):
        k = self.cell(eng, st, a, 1); z = st.copy()
        self.put(i, 'reserved tags are not touched', k is not None and not eng.assume_eq(z, k, const(95)), 'a tag whose name begins with _ gets here')
    def rest(self, eng, st, x, o):
        want = self.ms.plus(-o)
        if eng.eq(st, x, want): return True
        s = str(x)
        while '(' in s and s.endswith(')') and s[:s.index('(')] in ('wrap32', 'wrap64', 'zx32', 'zx64', 'sx64', 'trunc32'): s = s[s.index('(') + 1:-1]
        return s == str(want)
    def send(self, eng, st, i, args):
        c = self.c; self.count('replies'); ts = st.ts
        ok = ts is not None and ts[0] == 'ok'
        success = eng.eq(st, args[4], const(1)); fail = eng.eq(st, args[4], const(2))
        self.put(i, 'the reply says whether it was done', success if ok else fail, 'success is reported as an error' if ok else 'an error is reported as success')
        if not ok: return
        par, rep = self.spec[ts[1]]
        for e in rep:
            o, w = e[0], e[-1]; x = self.cell(eng, st, args[2].plus(o), w)
            if e[1] == 'result': good = x is not None and eng.eq(st, x, ts[2])
            else: good = x is not None and self.came(eng, x, w) == ts[3][e[1]].plus(c[e[2]]) or x is not None and self.same(eng, st, x, ts[3][e[1]].plus(c[e[2]]), w) or ('cell', args[2].plus(o), w, o) in ts[4]
            self.count('results'); self.put(i, 'byte %d of the reply is the result' % o, good, 'byte %d of the reply is %s' % (o, x))
        n = max([e[0] + e[-1] for e in rep], default=0)
        self.put(i, 'the reply is complete', eng.entails(st, const(n).sub(args[3])), 'the reply has %s bytes' % args[3])
        names = [r[1] for r in ts[4] if r[0] == 'name']
        ln = [r[1] for r in ts[4] if r[0] == 'len']
        if any(e[1] == 1 and e[2] == 't_idx' for e in rep):
            full = const(15 + c['NAMESZ']); z = args[3]
            self.put(i, 'the reply holds the whole name', any(eng.entails(st, l.plus(15).sub(z)) for l in ln) or eng.entails(st, full.sub(z)) or not ln and not z.isconst(), 'the reply has %s bytes' % z)
        if names: self.put(i, 'the name is in the reply', args[2].plus(14) in names, 'the name is at %s' % [str(d) for d in names])
    def same(self, eng, st, x, a, w):
        y = self.cell(eng, st, a, w)
        return y is not None and (eng.eq(st, x, y) or self.strip(eng, x, w) == self.strip(eng, y, w))

srv = None
def prepare():
    global srv
    srv = Server(extra_keep=KEEP)
    return [(srv.handlers[srv.c[m]], m) for m in SPEC if srv.c.get(m) in srv.handlers]
def one(ctx, item):
    n, m = item; fn = srv.m.funcs.get(n)
    if fn is None or fn.decl: raise chk.Broken('function %s not found' % n)
    cl = Handler(srv, n, m)
    absint.Engine(srv.m, fn, cl, srv.mr, K=12).run()
    if not cl.n.get('requests'): ctx.unresolved[n] = 'the working function is not called'
    ctx.count('handlers'); ctx.sample('%s: %s' % (n, cl.n))
    for a, k in cl.n.items(): ctx.count(a, k)
    cl.rec.flush(ctx, n)
def run(ctx):
    ctx.rule = 'each parameter of the working function is the field of the request that stands for it; the reply is a success exactly when it succeeded, and holds its results'
    chk.parallel(ctx, one, prepare())
    ctx.require('requests', 5)
