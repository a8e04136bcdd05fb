"""Generic model of one program of the project (not the tag server): objects of known size, allocation."""
import irbuild, absint, probe, chk
from absint import Client, Engine, ModRef
from lin import Lin, ZERO, const, atom
from server import ALLOC, FREE, SrvClient, where

class Program:
    htags = frozenset(); gtry = {}
    def __init__(self, target, keep=(), b=None, consts=None, includes=()):
        self.b = b or irbuild.Builder(); self.target = target
        self.raw = self.b.raw(target)
        ks = set(keep) | {'dax_log'}
        self.keepset = ks
        self.m = self.b.module(target, keep=lambda n: n.split('.')[0] in ks)
        self.mr = ModRef(self.m)
        self.c = probe.probe(self.b, target, list(includes), consts) if consts else {}
    def gbounds(self, name):
        """(lowest, highest) value of an integer global that only this program can see: never stored, or only set to constants and counted up"""
        c = self.__dict__.setdefault('_gb', {})
        if name not in c:
            c[name] = (None, None)
            g = self.m.globals.get(name)
            if g is not None and g.ty.k in ('int', 'ptr') and not g.external and g.init and g.init[0] in ('i', 'z', 'n') and name in self.hidden():
                v = g.init[1] if g.init[0] == 'i' else 0
                vals = {v}; up = down = False
                for f in self.m.funcs.values():
                    if f.decl: continue
                    defs = {i.dst: i for i in f.insts() if i.dst}
                    for i in f.insts():
                        if i.op != 'store' or i.args[1][:2] != ('g', name): continue
                        x = i.args[0]; d = defs.get(x[1]) if x[0] == 'r' else None
                        if x[0] == 'i': vals.add(x[1])
                        elif x[0] == 'n': vals.add(0)
                        elif d is not None and d.op == 'add' and d.args[1][0] == 'i': up |= d.args[1][1] > 0; down |= d.args[1][1] < 0
                        else: up = down = True
                c[name] = (None if down else min(vals), None if up else max(vals))
        return c[name]
    def hidden(self):
        """globals whose address goes nowhere: only read and written directly"""
        if not hasattr(self, '_hid'):
            esc = set()
            for f in self.m.funcs.values():
                if f.decl: continue
                for i in f.insts():
                    for k, o in enumerate(i.args):
                        if (i.op == 'load' and k == 0) or (i.op == 'store' and k == 1):
                            if o[0] == 'g': continue
                        esc |= set(absint._gnames(o))
            for g in self.m.globals.values():
                if g.init is not None: esc |= set(absint._gnames(g.init))
            self._hid = {n for n, g in self.m.globals.items() if n not in esc and getattr(g, 'internal', True)}
        return self._hid
    def roots(self):
        return [f for n, f in sorted(self.m.funcs.items()) if not f.decl]

class ProgClient(Client):
    def __init__(self, prog, root): self.p = prog; self.m = prog.m; self.c = prog.c; self.root = root
    alloc = SrvClient.alloc
    def realloc(self, eng, st, i, args): pass
    def call(self, eng, st, i, name, args):
        if name in ALLOC and i.dst: return self.alloc(eng, st, i, name, args)
        if name in FREE: return [st]
        return None
