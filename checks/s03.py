"""S03: no request changes a read-only tag that the requester does not own."""
import chk, absint, server
from server import Server, where
from ghost import GhostTag, I, kbatom
from lin import Lin, const, atom
from bounds import Recorder

class RO(GhostTag):
    fields = ('attr', 'fd')
    def __init__(self, srv, root, cmd, owned):
        super().__init__(srv, root); self.cmd = cmd; self.owned = owned; self.rec = Recorder(); self.n = 0
    def idx_range(self): return (self.c['I_OVRD_SET'] + 1, (1 << 31) - 2)
    def entry_fields(self, eng, st):
        one = self.c['A_READONLY']; zero = 0
        if self.owned: one |= self.c['A_OWNED']
        else: zero |= self.c['A_OWNED']
        return {'attr': kbatom(eng, 'I.attr', 8 * self.c['w_attr'], one, zero),
                'fd': eng.mk('I.fd', lo=-(1 << 31), hi=(1 << 31) - 1)}
    def setup(self, eng, st):
        p = st.vals[eng.fn.params[0][0]]
        fd = eng.mk('msgfd', lo=0, hi=(1 << 31) - 1)
        st.mem[(p.plus(self.c['m_fd']), self.c['mw_fd'])] = (fd, None)
        if self.owned: eng.assume_ne(st, atom('I.fd'), fd)
    def round(self, eng, blocks): self.rec.drop(blocks)
    def hit(self, eng, st, inst, idx, what):
        a = st.copy()
        bad = eng.assume_eq(a, idx, I)
        if bad and self.internal(eng, st, idx): bad = False
        self.n += 1
        self.rec.put(inst, what, not bad, where(self.m, inst),
                     '%s of a tag that is read-only%s is reachable for this request' % (what, ' and owned by another module' if self.owned else ''))
    def internal(self, eng, st, idx):
        """indices the server itself picks: the tag being created and the requester's module tag"""
        for a, k in idx.t:
            o = eng.origin(a)
            if o and isinstance(o[0], Lin):
                b, off = eng.base(o[0])
                if b == '@_tagnextindex': return True
                if off.isconst() and off.c == self.c['mod_tagindex'] and o[1] and o[1][0] and 'module' in str(o[1][0]): return True
        return False
    def data_store(self, eng, st, inst, idx, off, n, val):
        self.hit(eng, st, inst, idx, 'change of the value'); return None
    def call(self, eng, st, i, name, args):
        if name is None and len(args) == 6:
            t = eng.val(st, i.extra) if i.extra and i.extra[0] == 'r' else None
            o = eng.origin(t.t[0][0]) if t is not None and len(t.t) == 1 else None
            if o and isinstance(o[0], Lin):
                b, off = eng.base(o[0])
                pf = self.ptr_field(eng, b) if b else None
                if pf and pf[1] == 'data' and off.isconst() and off.c == self.c['v_wf']:
                    self.hit(eng, st, i, args[1], 'virtual write')
        return super().call(eng, st, i, name, args)

def run(ctx):
    ctx.rule = ('for an arbitrary tag I that is read-only and not owned by the requesting connection, no store into the value of I '
                'and no call of its write function is reachable in any request handler')
    global srv
    srv = Server()
    items = [(cmd, h, o) for cmd, h in sorted(srv.handlers.items()) if cmd != srv.c['MSG_MOD_REG'] for o in (False, True)]
    # registration (MSG_MOD_REG) writes the server's own record of the module
    chk.parallel(ctx, one, items)
    ctx.require('handlers x ownership cases', 40)
    ctx.require('value stores examined', 30)

def one(ctx, item):
    cmd, h, owned = item
    cl = RO(srv, h, cmd, owned)
    absint.Engine(srv.m, srv.fn(h), cl, srv.mr, K=6).run()
    ctx.count('handlers x ownership cases')
    ctx.count('value stores examined', len(cl.rec.res))
    cl.rec.flush(ctx, h)
