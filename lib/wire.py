"""Abstract execution of code that wires PETSc objects together.

The ordered effect summary of a function (irx.Fn) is replayed for one scenario (values of the options):
memory cells hold symbolic values, every created object is one symbol, every other call is recorded as an
event with its arguments resolved to those symbols.  Nothing is executed."""
from canon import *


def obj(*k):
    return atom("obj", *[str(x) for x in k])


def of(a):
    return Ptr(a, ZERO)


class World:
    # calls that create something: name -> [(argument that receives it, label)]
    OUT = {"DMCreateGlobalVector": [(1, "vector")], "VecDuplicate": [(1, "duplicate")], "MatCreateNest": [(6, "nest")], "KSPCreate": [(1, "ksp")],
           "MatNullSpaceCreate": [(4, "nullspace")], "DMGetGlobalVector": [(1, "work")]}
    # calls that hand out something which depends only on their other arguments
    GET = {"KSPGetPC": 1, "KSPGetDM": 1, "PCFieldSplitGetSubKSP": 2, "PCMGGetSmoother": 2}
    QUIET = {"DMCompositeGetEntries", "DMDAGetLocalInfo", "DMDAGetInfo", "PetscObjectComm", "_Znwm", "PetscObjectTypeCompare", "DMCompositeGetNumberDM",
             "PCMGGetLevels", "PetscObjectGetComm"}

    def __init__(self, F, assume=None, outs=None, sub=None, name=None):
        self.F, self.assume = F, assume or (lambda a: None)
        self.outs = dict(self.OUT)
        self.outs.update(outs or {})
        self.loc = {}                       # (root, off) -> value
        self.names = dict(sub or {})        # atom -> Poly
        self.fname = name or (lambda e: e.name)
        self.ev = []
        self.problems = []
        self.n = {}
        self._renew()

    def _renew(self):
        self.canon = Canon(self.names, self._f)

    def _f(self, a):
        if a.kind == "ld":
            k = (a.args[0], a.args[1])
            if k in self.loc:
                v = self.read(k)
                return v.poly() if isinstance(v, Ptr) else v if isinstance(v, Poly) else None
        return self.assume(a)

    def read(self, k, ty="ptr", size=8):
        v = self.loc.get(k)
        if isinstance(v, tuple) and v[0] == "copy":
            w = self.F.load(v[1], v[2], size, ty)
            return self.canon.val(w)
        return v

    def word(self, root, off, ty="ptr", size=8, st=None):
        """content of a memory cell at the end (or in the given state)"""
        k = (root, off if isinstance(off, Poly) else num(off))
        if k in self.loc:
            return self.read(k, ty, size)
        return self.canon.val(self.F.load(st if st is not None else self.F.new_state(), Ptr(root, k[1]), size, ty))

    def at(self, e, p, off, ty="ptr", size=8):
        """content of cell p+off when e happens"""
        q = Ptr(p.root, p.off + num(off))
        c = self.canon.ptr(q)
        if (c.root, c.off) in self.loc:
            v = self.read((c.root, c.off), ty, size)
            if v is not None:
                return v
        return self.canon.val(self.F.load(e.pre, q, size, ty))

    def new(self, label):
        self.n[label] = self.n.get(label, 0) + 1
        return obj(label, self.n[label])

    def ptr(self, v):
        return self.canon.ptr(self.F.asptr(v))

    def num(self, v):
        return self.canon.poly(self.F.asint(v))

    def put(self, k, v):
        if self.loc.get(k) != v:
            self.loc[k] = v
            self._renew()

    def arg(self, v):
        if isinstance(v, Ptr):
            p = self.canon.ptr(v)
            if p.root.kind == "glob":
                t = self.F.cstring(p)
                if isinstance(t, str) and not p.off.t and not t.startswith("&["):
                    return t
            return p
        if isinstance(v, BDD):
            return self.canon.bdd(v)
        if isinstance(v, Poly):
            return self.canon.poly(v)
        return v

    def run(self, effects=None, on=None):
        for e in self.F.effects if effects is None else effects:
            g = self.canon.bdd(e.guard)
            if g is FALSE:
                continue
            if e.kind == "store":
                p = self.canon.ptr(Ptr(e.root, e.ofs))
                v = self.canon.val(e.val)
                if g is TRUE and not e.loops:
                    self.put((p.root, p.off), v)
                elif p.root.kind != "alloca":
                    self.problems.append("%s\nwrites %s only if %s" % (e.where(), p, g))
                continue
            nm = self.fname(e)
            if e.name.startswith("llvm.memcpy") or e.name.startswith("llvm.memmove"):
                d, s = self.ptr(e.args[0]), self.F.asptr(e.args[1])
                n = self.num(e.args[2]).as_int()
                for k in range(0, n, 8):
                    c = self.canon.ptr(Ptr(s.root, s.off + num(k)))
                    self.put((d.root, d.off + num(k)), self.loc[(c.root, c.off)] if (c.root, c.off) in self.loc else ("copy", e.pre, Ptr(s.root, s.off + num(k)), min(8, n - k)))
                continue
            if e.name.startswith("llvm.memset"):
                d = self.ptr(e.args[0])
                n = self.num(e.args[2]).as_int()
                if self.num(e.args[1]) == ZERO and n is not None:
                    for k in range(0, n, 8):
                        self.put((d.root, d.off + num(k)), of(atom("sym", "null")))
                continue
            if e.name.startswith("llvm."):
                continue
            if on and on(self, e, nm, g):
                continue
            if e.name in self.QUIET:
                continue
            if g is not TRUE:
                self.problems.append("%s\n%s happens only if %s" % (e.where(), nm, g))
                continue
            self.event(e, nm)
        return self

    def event(self, e, nm):
        args = [self.arg(a) for a in e.args]
        made = {}
        for k, lab in self.outs.get(nm, ()):
            p = self.ptr(e.args[k])
            o = self.new(lab)
            made[k] = o
            self.names[atom("out", e.name, self.F.name, e.ins["id"])] = Poly.of(o)
            self.loc[(p.root, p.off)] = of(o)
            args[k] = of(o)
        if nm in self.outs and not self.outs[nm]:
            o = self.new(nm)
            self.names[atom("ret", e.name, self.F.name, e.ins["id"])] = Poly.of(o)
            made["ret"] = o
        if nm in self.GET:
            k = self.GET[nm]
            o = obj(nm, *[a for i, a in enumerate(args) if i != k and a != of(atom("sym", "null"))])
            p = self.ptr(e.args[k])
            self.names[atom("out", e.name, self.F.name, e.ins["id"])] = Poly.of(o)
            self.loc[(p.root, p.off)] = of(o)
            args[k] = of(o)
            made[k] = o
        self._renew()
        self.ev.append((nm, args, made, e))

    # ---- queries
    def all(self, nm, first=None, arg=0):
        return [(i, x) for i, x in enumerate(self.ev) if x[0] == nm and (first is None or x[1][arg] == of(first))]
