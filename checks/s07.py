"""S07: every request gets exactly one well-formed reply."""
import chk, absint
from server import Server, SrvClient, where
from lin import Lin, const, atom
from bounds import Recorder

class Reply(SrvClient):
    """typestate: number of replies sent so far (0, 1, 2 = more)"""
    def __init__(self, srv, root, cmd):
        super().__init__(srv, root); self.cmd = cmd; self.rec = Recorder(); self.sends = 0
    def init(self, eng, st):
        st.ts = 0
        p = st.vals[eng.fn.params[0][0]]
        st.mem[(p.plus(self.c['m_fd']), self.c['mw_fd'])] = (eng.mk('msgfd', lo=0, hi=(1 << 31) - 1), None)
        st.mem[(p.plus(self.c['m_size']), self.c['mw_size'])] = (eng.mk('msgsize', lo=0, hi=self.c['msgdata']), None)
    def round(self, eng, blocks): self.rec.drop(blocks)
    def call(self, eng, st, i, name, args):
        if name == '_message_send':
            fd, cmd, pay, size, resp = args
            w = where(self.m, i); put = lambda t, g, m: self.rec.put(i, t, g, w, m)
            mx = self.c['DAX_MSGMAX'] - self.c['MSG_HDR_SIZE']
            put('at most one reply', st.ts == 0, 'a second reply is sent for the same request')
            put('reply goes to the requester', eng.eq(st, fd, atom('msgfd')), 'the reply is sent to %s, not to the connection of the request' % fd)
            put('reply echoes the command', eng.eq(st, cmd, const(self.cmd)), 'the reply carries command %s, the request was %d' % (cmd, self.cmd))
            put('reply fits a message', eng.entails(st, size.scale(-1)) and eng.entails(st, size.sub(const(mx))),
                'a payload of %s bytes may exceed the %d bytes of a message: no reply would be sent' % (size, mx))
            put('reply is response or error', resp.isconst() and resp.c in (1, 2), 'neither a response nor an error')
            if resp.isconst() and resp.c == 2:
                c = st.mem.get((pay, 4))
                good = c is not None and (eng._ent_ne(st, c[0]) or any(q == c[0] or q == c[0].scale(-1) for q in st.neq))
                put('error carries a code', good and size == const(4), 'the error reply may carry code 0, which a module takes for success')
            st.ts = min(2, st.ts + 1); self.sends += 1
            eng.fresh_result(st, i)
            return [st]
        return super().call(eng, st, i, name, args)
    def ret(self, eng, st, inst, val):
        self.rec.put(inst, 'a reply on every path', st.ts >= 1, where(self.m, inst), 'a path through the handler returns without sending a reply')

class Dispatch(SrvClient):
    """in the dispatcher: typestate = (replies, handler called)"""
    def __init__(self, srv, root, ncmd, table):
        super().__init__(srv, root); self.rec = Recorder(); self.ncmd = ncmd; self.table = table; self.calls = 0
    def init(self, eng, st): st.ts = (0, 0)
    def round(self, eng, blocks): self.rec.drop(blocks)
    def call(self, eng, st, i, name, args):
        r, h = st.ts
        w = where(self.m, i)
        if name == '_message_send':
            self.rec.put(i, 'dispatcher replies only for refused requests', h == 0 and r == 0 and args[4] == const(2), w, 'unexpected reply from the dispatcher')
            st.ts = (min(2, r + 1), h); eng.fresh_result(st, i); return [st]
        if name is None:
            self.calls += 1
            t = eng.val(st, i.extra)
            o = eng.origin(t.t[0][0]) if len(t.t) == 1 else None
            idx = None
            if o and isinstance(o[0], Lin):
                b, off = eng.base(o[0])
                if b == '@' + self.table and off.c % 8 == 0 and all(k % 8 == 0 for _, k in off.t):
                    idx = Lin(off.c // 8, tuple((a, k // 8) for a, k in off.t))
            self.rec.put(i, 'handler is looked up in the command table', idx is not None, w, 'call through %s' % t)
            if idx is not None:
                self.rec.put(i, 'command number is in the table', eng.entails(st, const(1).sub(idx)) and eng.entails(st, idx.sub(const(self.ncmd))),
                             w, 'command %s is not proved to lie in 1..%d' % (idx, self.ncmd))
                m = eng.val(st, i.args[0])
                c = st.mem.get((args[0].plus(self.c['m_msg_type']), self.c['mw_msg_type']))
                self.rec.put(i, 'the handler of the requested command is called', c is not None and eng.eq(st, c[0], idx), w, 'slot %s is called for another command' % idx)
            st.ts = (r, min(2, h + 1)); eng.fresh_result(st, i); return [st]
        return super().call(eng, st, i, name, args)
    def ret(self, eng, st, inst, val):
        # an oversized message is dropped without reply: the framing layer (S09) never passes one on
        if st.ts == (0, 0):
            c = [v for k, v in st.mem.items() if k[0] != 'pure' and k[0].c == self.c['m_size'] and k[1] == self.c['mw_size'] and eng.base(k[0])[0] and eng.base(k[0])[0].startswith('&')]
            big = any(eng.entails(st, const(self.c['msgdata'] + 1).sub(v[0])) or eng.entails(st, v[0].plus(1)) for v in c)
            self.rec.put(inst, 'every message is answered', big, where(self.m, inst), 'the dispatcher may return without calling a handler or replying')
        else:
            self.rec.put(inst, 'every message is answered once', sum(st.ts) == 1, where(self.m, inst), 'handler and reply counts are %s' % (st.ts,))

def run(ctx):
    global srv
    ctx.rule = ('on every path of every handler in the command table exactly one reply is sent, to the requesting connection, with the command of '
                'the request, a payload that fits a message, and a non-zero code when it is an error; the command table is complete and the '
                'dispatcher calls exactly the slot of the command or refuses it')
    srv = Server()
    n = srv.c['NUM_COMMANDS']
    for k in range(1, n + 1):
        ctx.oblige(('table', 'command %d' % k), k in srv.handlers, 'command table', 'command %d has no handler' % k)
    # the mapping of commands to handlers: two commands never share a handler unless both only refuse
    chk.parallel(ctx, one, sorted(srv.handlers.items()))
    # dispatcher : the function that calls through the table
    table = None
    ds = []
    import server as S
    for f in srv.raw.funcs.values():
        if f.decl: continue
        for i in f.insts():
            if i.op == 'store' and i.args[0][0] == 'g' and i.args[0][1] in srv.handlers.values():
                g, off = S._gaddr(srv.raw, i.args[1])
                if g: table = g
    if table is None:
        for g in srv.raw.globals.values():
            if g.init is not None and isinstance(g.init, tuple) and g.init[0] == 'agg' and any(isinstance(x, tuple) and x[0] == 'g' and x[1] in srv.handlers.values() for x in g.init[2]): table = g.name
    if table is None: raise chk.Broken('command table not found')
    for nm, f in srv.raw.funcs.items():
        if f.decl: continue
        uses = False
        for i in f.insts():
            if i.op == 'call' and i.extra and i.extra[0] == 'r' and len(i.args) == 1:
                d = f.defmap().get(i.extra[1])
                if d is not None and d.op == 'load':
                    from absint import _rootop
                    if _rootop(f, d.args[0]) == table: uses = True
        if uses: ds.append(nm)
    if not ds: raise chk.Broken('no dispatcher found')
    m2 = srv.b.module('tagserver', keep=lambda x: x in srv.keepset or x in ds or x in srv.handlers.values())
    for d in ds:
        cl = Dispatch(srv, d, n, table); cl.m = m2
        from absint import ModRef
        absint.Engine(m2, m2.funcs[d], cl, ModRef(m2), K=6).run()
        ctx.count('dispatchers'); ctx.count('table calls', cl.calls)
        cl.rec.flush(ctx, d)
    ctx.require('handlers', 20); ctx.require('reply sites', 40); ctx.require('dispatchers', 1); ctx.require('table calls', 1)

def one(ctx, item):
    cmd, h = item
    cl = Reply(srv, h, cmd)
    absint.Engine(srv.m, srv.fn(h), cl, srv.mr, K=6).run()
    ctx.count('handlers'); ctx.count('reply sites', len([i for i in cl.rec.res if i.op == 'call']))
    if not any(i.op == 'call' for i in cl.rec.res): ctx.oblige((h, 'replies'), False, h, 'handler never replies')
    cl.rec.flush(ctx, h)
    ctx.sample('%s: %d reply sites, all paths' % (h, len([i for i in cl.rec.res if i.op == 'call'])))
