"""S06: every change a request makes to a tag is offered to the mappings of that tag."""
import chk, absint
from server import Server, SrvClient, where
from change import After
from walk import Walk
from lin import Lin, ZERO, const, atom

class Map(After):
    reaction = 'map_check'; system = False
    what = 'the mappings of every changed byte are applied'

def run(ctx):
    global srv
    ctx.rule = ('for an arbitrary byte g of an arbitrary tag I: no path from a store into g to the end of the request avoids a mapping pass '
                'over a range that contains g; the mapping pass walks the whole list of the tag and writes, for every mapping whose source '
                'range meets the changed one, the source bytes to the destination tag and offset of that mapping')
    srv = Server()
    chk.parallel(ctx, one, sorted((c, h) for c, h in srv.handlers.items() if c != srv.c['MSG_MOD_REG']))
    s2 = Server(extra_keep=('tag_write', 'tag_mask_write'))
    cl = MapWalk(s2, 'map_check')
    absint.Engine(s2.m, s2.fn('map_check'), cl, s2.mr, K=8).run()
    ctx.count('list nodes followed', cl.nodes); ctx.count('mapped writes', cl.served); ctx.count('iterations judged', cl.judged)
    cl.rec.flush(ctx, 'map_check')
    ctx.require('roots', 20); ctx.require('value stores', 50); ctx.require('mapping passes', 8)
    ctx.require('list nodes followed', 1); ctx.require('mapped writes', 1); ctx.require('iterations judged', 1)

def one(ctx, item):
    cmd, h = item
    cl = Map(srv, h, cmd)
    absint.Engine(srv.m, srv.fn(h), cl, srv.mr, K=6).run()
    ctx.count('roots'); ctx.count('value stores', cl.stores); ctx.count('mapping passes', cl.reacts)
    cl.rec.flush(ctx, h)

class MapWalk(Walk):
    head = 'mappings'; what = 'a mapping of changed bytes is applied'
    def __init__(self, srv, root):
        super().__init__(srv, root); c = self.c
        self.next = c['d_next']; s = c['d_source']
        self.positive = (s + c['h_size'],); self.natural = (s + c['h_byte'],)
    def concerns(self, eng, a, P):
        s = self.c['d_source']
        return self.overlap(eng, a, self.cell(eng, a, P, s + self.c['h_byte']), self.cell(eng, a, P, s + self.c['h_size']))
    def fieldof(self, eng, v):
        """(node, offset) a value was loaded from"""
        if len(v.t) != 1 or v.c: return None
        o = eng.origin(v.t[0][0])
        if not o or not isinstance(o[0], Lin): return None
        b, off = eng.base(o[0])
        return (atom(b), off.c) if b is not None and off.isconst() else None
    def call(self, eng, st, i, name, args):
        if name in ('tag_write', 'tag_mask_write'):
            put = lambda t, g, m: self.rec.put(i, t, g, where(self.m, i), m)
            d, s = self.c['d_dest'], self.c['d_source']; h = self.c
            f = self.fieldof(eng, args[1])
            node = f[0] if f and any(P == f[0] for P, _ in st.ts[1]) else None
            put('the destination tag of the mapping is written', node is not None and f[1] == d + h['h_index'], 'index %s is not the destination of the mapping' % args[1])
            put('at the destination offset', node is not None and self.fieldof(eng, args[2]) == (node, d + h['h_byte']), 'offset %s is not the destination offset' % args[2])
            n = self.fieldof(eng, args[-1])
            if name == 'tag_write':
                put('all source bytes are copied', node is not None and n == (node, s + h['h_size']), '%s bytes are copied' % args[-1])
                b, off = eng.base(args[3])
                pf = self.ptr_field(eng, b) if b else None
                put('from the source of the mapping', node is not None and pf is not None and pf[1] == 'data' and self.fieldof(eng, pf[0]) == (node, s + h['h_index'])
                    and self.fieldof(eng, off) == (node, s + h['h_byte']), 'the data written does not start at the source of the mapping')
            else:
                put('the whole destination range is masked', node is not None and n == (node, d + h['h_size']), '%s bytes are written' % args[-1])
                put('with the mask of the mapping', node is not None and self.fieldof(eng, args[4]) == (node, h['d_mask']), 'the mask is not that of the mapping')
            if node is not None: self.serve(eng, st, node)
            eng.default_call(st, i, name, args); return [st]
        return super().call(eng, st, i, name, args)
