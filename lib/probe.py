"""Numeric constants (offsets, sizes, macro values) of the project's headers, read from
compiled IR of a generated translation unit (never executed)."""
import os, re, shlex, irbuild

def probe(b, target, includes, exprs):
    """exprs: {name: C constant expression}; returns {name:int}; a name whose expression does not
    compile is absent."""
    e = b.units(target)[0]
    a = shlex.split(e['command'])[1:]
    i = a.index('-o'); del a[i:i+2]
    a = [x for x in a if x not in ('-c', e['file']) and not x.endswith('.c') and not re.fullmatch(r'-O\w*', x)]
    srcdir = os.path.dirname(e['file'])
    def go(names):
        src = os.path.join(b.dir, 'probe_%s.c' % target); out = src + '.ll'
        with open(src, 'w') as f:
            for x in includes:
                x = x if x[0] == '<' else '"%s"' % x
                f.write('#if __has_include(%s)\n#include %s\n#endif\n' % (x, x))
            f.write('#include <stddef.h>\n')
            for n in names: f.write('const long long V__%s = (long long)(%s);\n' % (n, exprs[n]))
        irbuild._run(['clang-18'] + a + ['-I' + srcdir, '-w', '-S', '-emit-llvm', '-o', out, src], cwd=e['directory'])
        r = {}
        for l in open(out):
            m = re.match(r'@V__(\w+) = .*constant i64 (-?\d+)', l)
            if m: r[m.group(1)] = int(m.group(2))
        return r
    try: return go(list(exprs))
    except irbuild.BuildError: pass
    r = {}
    for n in exprs:
        try: r.update(go([n]))
        except irbuild.BuildError: pass
    return r
