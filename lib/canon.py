"""Canonical renaming of dataflow results: memory versions are dropped, loop
counters and parameters are replaced by the checker's own symbols."""
from irx import *


class Canon:
    def __init__(self, sub=None, f=None):
        self.sub = dict(sub or {})      # Atom -> Poly
        self.f = f                      # Atom -> Poly or None
        self.memo = {}

    def poly(self, p):
        return rewrite(p, self._atom, self.memo)

    def bdd(self, b):
        return rewrite_bdd(b, self._atom, self.memo)

    def ptr(self, p):
        r = self.poly(Poly.of(p.root)).as_atom()
        off = self.poly(p.off)
        if r is None:
            q = self.poly(Poly.of(p.root))
            return Ptr(atom("ptrof", q), off)
        return Ptr(r, off)

    def val(self, v):
        if isinstance(v, Ptr):
            return self.ptr(v)
        if isinstance(v, BDD):
            return self.bdd(v)
        if isinstance(v, Poly):
            return self.poly(v)
        return v

    def _arg(self, x):
        if isinstance(x, Poly):
            return self.poly(x)
        if isinstance(x, Atom):
            q = rewrite_atom(x, self._atom, self.memo)
            return q.as_atom() or x
        if isinstance(x, BDD):
            return self.bdd(x)
        if isinstance(x, Ptr):
            return self.ptr(x)
        return x

    def _atom(self, a):
        if a in self.sub:
            return self.sub[a]
        if self.f:
            q = self.f(a)
            if q is not None:
                return q
        r = self._atom1(a)
        b = r.as_atom() if r is not None else None
        if b is not None and b is not a:
            # the rebuilt atom may itself be one that is replaced
            if b in self.sub:
                return self.sub[b]
            if self.f:
                q = self.f(b)
                if q is not None:
                    return q
        return r

    def _atom1(self, a):
        if a.kind == "ld":
            root = self._arg(a.args[0])
            off = self._arg(a.args[1])
            return Poly.of(atom("ld", root, off))
        if a.kind in ("info", "arr", "shellctx", "pack", "p2i", "q"):
            return Poly.of(atom(a.kind, *[self._arg(x) for x in a.args]))
        if a.kind in ("sub", "entry", "ndm", "tycmp"):
            return Poly.of(atom(a.kind, *[self._arg(x) for x in a.args]))
        if a.kind == "pite":
            c, x, y = self.bdd(a.args[0]), self.ptr(a.args[1]), self.ptr(a.args[2])
            if c is TRUE or x == y:
                return x.poly()
            if c is FALSE:
                return y.poly()
            return Poly.of(atom("pite", c, x, y))
        if a.kind == "ptrof":
            q = self._arg(a.args[0])
            r = q.as_atom() if isinstance(q, Poly) else None
            if r is not None and r.kind in ("ld", "sym", "ret", "out"):
                return Poly.of(r)
            return Poly.of(atom("ptrof", q))
        return None


def cells(p):
    """Poly linear in its memory cells?  -> {ld atom: coefficient Poly} + rest"""
    out = {}
    rest = ZERO
    for m, c in p.t.items():
        lds = [(a, e) for a, e in m if aget(a).kind == "ld"]
        out_m = Poly({tuple(x for x in m if x not in lds): c})
        if len(lds) == 1 and lds[0][1] == 1:
            a = aget(lds[0][0])
            out[a] = out.get(a, ZERO) + out_m
        else:
            rest = rest + Poly({m: c})
    return out, rest


def aget(i):
    import algebra
    return algebra._atom_list[i]
