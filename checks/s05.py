"""S05: every change of a retained tag reaches the retention store before the request is answered."""
import chk, absint
from server import Server, SrvClient, where
from change import After
from ghost import kbatom, GO
from lin import Lin, ZERO, const, atom
from bounds import Recorder

class Ret(After):
    reaction = 'ret_tag_write'; byte = False; system = False; before_reply = True
    fields = ('attr',)
    what = 'the new value of a retained tag is stored'
    def entry_fields(self, eng, st):
        return {'attr': kbatom(eng, 'I.attr', 8 * self.c['w_attr'], self.c['A_RETAIN'], self.c['A_VIRTUAL'])}
    def relevant(self, eng, st):
        """false when I is known not to be retained (any more)"""
        c = st.mem.get((atom(GO).plus(self.c['off_attr']), self.c['w_attr']))
        k = eng._kbof(c[0]) if c is not None else None
        return not (k and k[1] & self.c['A_RETAIN'])
    def setup(self, eng, st):
        self.keybits = {'attr': self.c['A_RETAIN']}; super().setup(eng, st)
    def react_args(self, name, args): return args[0], None, None

def run(ctx):
    global srv
    ctx.rule = ('for an arbitrary tag I with the retain attribute: no path from a store into its value to the reply of the request (or to '
                'the end of the mapping pass) avoids the call that writes I to the retention store; that call binds the whole value, the '
                'row of I, and executes the statement')
    srv = Server()
    chk.parallel(ctx, one, sorted((c, h) for c, h in srv.handlers.items() if c != srv.c['MSG_MOD_REG']) + [(None, 'map_check')])
    cl = Body(srv, 'ret_tag_write')
    absint.Engine(srv.m, srv.fn('ret_tag_write'), cl, srv.mr, K=6).run()
    ctx.count('store primitive steps', len(cl.rec.res)); cl.rec.flush(ctx, 'ret_tag_write')
    ctx.require('store primitive steps', 5)
    ctx.require('roots', 20)

def one(ctx, item):
    cmd, h = item
    cl = Ret(srv, h, cmd)
    absint.Engine(srv.m, srv.fn(h), cl, srv.mr, K=6).run()
    ctx.count('roots'); ctx.count('value stores', cl.stores); ctx.count('retention calls', cl.reacts)
    cl.rec.flush(ctx, h)

class Body(SrvClient):
    """the retention primitive: ts = the set of steps already done"""
    STMT = None
    def __init__(self, srv, root):
        super().__init__(srv, root); self.rec = Recorder()
    def init(self, eng, st): st.ts = frozenset()
    def round(self, eng, blocks): self.rec.drop(blocks)
    def stmt(self, eng, st, v):
        o = eng.origin(v.t[0][0]) if len(v.t) == 1 else None
        return o[0] if o and isinstance(o[0], Lin) else None
    def call(self, eng, st, i, name, args):
        idx = atom('p:' + eng.fn.params[0][0])
        put = lambda t, g, m: self.rec.put(i, t, g, where(self.m, i), m)
        if name in ('sqlite3_bind_blob', 'sqlite3_bind_blob64'):
            b, off = eng.base(args[2])
            pf = self.ptr_field(eng, b) if b else None
            sz = self.tag_size(st, eng, idx)
            good = pf is not None and pf[1] == 'data' and off == ZERO and eng.eq(st, pf[0], idx)
            full = sz is not None and eng.eq(st, args[3], sz)
            put('the value of the changed tag is bound', good, 'the blob bound is not the value of the tag')
            put('the whole value is bound', full, '%s bytes are bound instead of the size of the tag' % args[3])
            if args[1] == const(1): st.ts = st.ts | {'blob'}
        if name in ('sqlite3_bind_int', 'sqlite3_bind_int64'):
            o = eng.origin(args[2].t[0][0]) if len(args[2].t) == 1 else None
            r = self.db_field(eng, o[0]) if o and isinstance(o[0], Lin) else None
            put('the row of the changed tag is addressed', r is not None and r[1] == self.c['off_ret_file_pointer'] and eng.eq(st, r[0], idx),
                'the statement is bound to %s, not to the row of the tag' % args[2])
            if args[1] == const(2): st.ts = st.ts | {'row'}
        if name == 'sqlite3_step':
            put('step follows both bindings', {'blob', 'row'} <= st.ts, 'the statement is executed with %s bound' % sorted(st.ts))
            st.ts = st.ts | {'step'}
        if name == 'sqlite3_reset':
            put('reset follows step', 'step' in st.ts, 'the statement is reset before it is executed')
            st.ts = st.ts | {'reset'}
        return super().call(eng, st, i, name, args)
    def ret(self, eng, st, inst, val):
        done = {'step', 'reset'} <= st.ts
        if not done:
            # the store is not open: the prepared statement is NULL
            done = any(k[0] != 'pure' and k[0].c == 0 and len(k[0].t) == 1 and k[0].t[0][0].startswith('@') and k[1] == 8 and eng.eq(st, v[0], ZERO)
                       for k, v in st.mem.items())
        self.rec.put(inst, 'the new value reaches the store', done, where(self.m, inst), 'a path returns without executing and resetting the update statement')
