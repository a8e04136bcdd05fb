"""S04: every change of a tag value is followed by the event check of exactly those bytes."""
import chk, absint
from server import Server, SrvClient, where
from change import After
from walk import Walk
from lin import Lin, ZERO, const, atom

class Ev(After):
    reaction = 'event_check'
    what = 'the events of every changed byte are checked'

def run(ctx):
    global srv
    ctx.rule = ('for an arbitrary byte g of an arbitrary tag I: no path from a store into g to the end of the request (or of the mapping '
                'pass) avoids an event check of a range that contains g; the event check walks the whole list of the tag and sends every '
                'write event whose range meets the changed one to the module that registered it')
    srv = Server()
    roots = sorted(srv.handlers.items()) + [(None, 'map_check')]
    chk.parallel(ctx, one, roots)
    cl = EvWalk(srv, 'event_check')
    absint.Engine(srv.m, srv.fn('event_check'), cl, srv.mr, K=8).run()
    ctx.count('list nodes followed', cl.nodes); ctx.count('events sent', cl.served); ctx.count('iterations judged', cl.judged)
    cl.rec.flush(ctx, 'event_check')
    ctx.require('roots', 25); ctx.require('value stores', 50); ctx.require('event checks', 20)
    ctx.require('list nodes followed', 1); ctx.require('iterations judged', 1)

def one(ctx, item):
    cmd, h = item
    cl = Ev(srv, h, cmd)
    absint.Engine(srv.m, srv.fn(h), cl, srv.mr, K=6).run()
    ctx.count('roots'); ctx.count('value stores', cl.stores); ctx.count('event checks', cl.reacts)
    cl.rec.flush(ctx, h)

class EvWalk(Walk):
    head = 'events'; what = 'a write event on changed bytes is sent'
    def __init__(self, srv, root):
        super().__init__(srv, root); c = self.c
        self.next = c['e_next']; self.positive = (c['e_size'],); self.natural = (c['e_byte'],)
    def concerns(self, eng, a, P):
        t = self.cell(eng, a, P, self.c['e_eventtype'])
        if t is not None and not eng.assume_eq(a, t, const(self.c['EV_WRITE'])): return False
        sz = self.cell(eng, a, P, self.c['e_size'])
        # an event that asks for more data than a message holds cannot be delivered
        if sz is not None and not eng.assume(a, sz.sub(const(self.c['DAX_MSGMAX'] - 16))): return False
        return self.overlap(eng, a, self.cell(eng, a, P, self.c['e_byte']), sz)
    def load(self, eng, st, inst, addr, width, val):
        r = super().load(eng, st, inst, addr, width, val)
        if val is None: return r
        b, off = eng.base(addr)
        # only write events are followed
        if b is not None and off.isconst() and off.c == self.c['e_eventtype'] and any(P == atom(b) for P, _ in st.ts[1]):
            if not eng.assume_eq(st, val, const(self.c['EV_WRITE'])): return []
            eng.fold(st, val)
        return r
    def call(self, eng, st, i, name, args):
        if name == 'xwrite':
            # the connection written to is that of the event
            for P, s in st.ts[1]:
                n = self.cell(eng, st, P, self.c['e_notify'], 8)
                if n is not None and len(args[0].t) == 1:
                    o = eng.origin(args[0].t[0][0])
                    if o and o[0] == n.plus(self.c['mod_fd']): self.serve(eng, st, P); break
            eng.default_call(st, i, name, args); return [st]
        return super().call(eng, st, i, name, args)
