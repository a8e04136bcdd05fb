"""T01: data is treated with the width, kind and sign of its type."""
import dtypes, irbuild

def run(ctx):
    ctx.rule = ('every function that selects code by a data type is specialised for each of the 16 base types (constant propagation of the type code); '
                'in the code that remains for a type, every access to data memory must have the width and kind of the type, its value may be extended, '
                'compared, divided, converted or printed only with the sign of the type, may not be cut short, and no type may be left out')
    ctx.assumptions.append('data memory is memory that the same function accesses in at least three different widths, depending on the type')
    b = irbuild.Builder()
    for t in b.all_targets():
        m = b.plain(t)
        ctx.count('functions', sum(1 for f in m.funcs.values() if not f.decl))
        def put(fn, ty, what, good, wh, msg): ctx.oblige((fn, ty, what), good, wh, msg)
        for n, tv, nc, miss in dtypes.analyse(m, put, ctx.count):
            ctx.sample('%s: %s selects by %d type codes' % (t, n, nc))
    ctx.require('functions that select by data type', 3)
