"""Exact differentiation and limits of the rational normal forms: the derivative
is taken term by term on the polynomial (chain rule through inverses, square
roots and the cut-off), so comparing a coded derivative with it is an identity
between polynomials."""
from algebra import *
import algebra as A
from fractions import Fraction


def cells(p, s=None):
    """{byte offset: atom} of the memory cells p reads"""
    s = {} if s is None else s
    seen = set()

    def go(p):
        for x in p.atoms():
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.kind == "ld":
                s[x.args[1].as_int()] = Poly.of(x)
            for y in x.args:
                for z in (y if isinstance(y, tuple) else (y,)):
                    if isinstance(z, Poly):
                        go(z)
    go(p)
    return s


def diff(p, v):
    """derivative with respect to the atom v; chi(k, s, ...) is the k-th derivative in s"""
    memo = {}

    def d(p):
        out = ZERO
        for at in p.atoms():
            x = da(at)
            if x.is_zero0():
                continue
            q = {}
            for m, c in p.t.items():
                e = dict(m).get(at.id, 0)
                if e:
                    n = tuple((a, (y - 1 if a == at.id else y)) for a, y in m if not (a == at.id and y == 1))
                    q[n] = q.get(n, 0) + c * e
            out = out + A._reduce(Poly(q)) * x
        return out

    def da(a):
        if a is v:
            return ONE
        r = memo.get(a.id)
        if r is None:
            if a.kind in ("ld", "sym"):
                r = ZERO
            elif a.kind == "inv":
                r = -(Poly.of(a) * Poly.of(a) * d(a.args[0]))
            elif a.kind == "sqrt":
                r = d(a.args[0]) * inv(Poly.of(a)).scale(Fraction(1, 2))
            elif a.kind == "fn" and a.args[0] == "chi":
                k, s = a.args[1][:2]
                r = d(s) * A.fn("chi", k + ONE, *a.args[1][1:])
            elif a.kind == "ite":
                r = ite(a.args[0], d(a.args[1]), d(a.args[2]))
            else:
                raise ValueError("cannot differentiate %s" % a)
            memo[a.id] = r
        return r
    return d(p)


def powers(p):
    """write the inverse of a k-th power as the k-th power of an inverse"""
    def f(a):
        if a.kind == "inv":
            q = rewrite(a.args[0], f, memo)
            for k in range(8, 1, -1):
                r = root(q, k)
                if r is not None:
                    return inv(r).pow(k)
            return inv(q)
        return None
    memo = {}
    return rewrite(p, f, memo)


_rc = {}


def root(q, k):
    if (q, k) not in _rc:
        _rc[q, k] = _root(q, k)
    return _rc[q, k]


def _root(q, k):
    ids = sorted({a for m in q.t for a, e in m})

    def key(m):
        d = dict(m)
        return tuple(d.get(i, 0) for i in ids)
    lm = max(q.t, key=key)
    if any(e % k for a, e in lm) or q.t[lm] < 0:
        return None
    c = q.t[lm]
    n = [_iroot(c.numerator, k), _iroot(c.denominator, k)]
    if None in n:
        return None
    r = Poly({tuple((a, e // k) for a, e in lm): Fraction(*n)})
    base = inv(r.pow(k - 1)).scale(Fraction(1, k))
    for _ in range(16):
        d = q - r.pow(k)
        if d.is_zero0():
            return r
        m = max(d.t, key=key)
        t = Poly({m: d.t[m]}) * base
        if any(e < 0 for m in t.t for a, e in m):
            return None
        r = r + t
    return None


def _iroot(n, k):
    x = round(n ** (1.0 / k))
    for y in (x - 1, x, x + 1):
        if y >= 0 and y ** k == n:
            return y


def zero(p):
    return clear_inv(p)[0].is_zero0()


def at(p, vals):
    """substitute memory cells (by byte offset)"""
    def f(x):
        if x.kind == "ld" and x.args[1].as_int() in vals:
            return vals[x.args[1].as_int()]
    return rewrite(p, f, {})


def limit(p, R, others):
    """(numerator, denominator) of the limit when R -> 0+, the cells of others being 0; None: no finite limit"""
    memo = {}

    def f(x):
        if x.kind == "ld" and x.args[1].as_int() in others:
            return ZERO
        if x.kind == "sqrt":
            q = rewrite(x.args[0], f, memo)
            if q == R * R:
                return R
            return sqrt(q)
    q, fac = clear_inv(rewrite(p, f, memo))
    n, d = _at0(q, R), _at0(ONE if fac is None else fac, R)
    return None if n is None or d is None or d.is_zero0() else (n, d)


def _at0(q, R):
    i = R.as_atom().id
    t = {}
    for m, c in q.t.items():
        e = dict(m).get(i, 0)
        if e < 0:
            return None
        if e == 0:
            t[m] = c
    return rewrite(Poly(t), lambda x: ZERO if x is R.as_atom() else None, {})


def decide(p, value, zero_off=()):
    """resolve the tests of p with value(poly) -> sign (-1, 0, 1) or None"""
    def f(a):
        if a.kind != "ite":
            return None
        c = a.args[0]
        for v in list(support(c)):
            k = varkey(v)
            s = value(k[1]) if k[0] in ("lt", "eq") else None
            if s is not None:
                c = cofactor(c, v, int(s < 0) if k[0] == "lt" else int(s == 0))
        x, y = (rewrite(z, f, memo) for z in a.args[1:3])
        return x if c is TRUE else y if c is FALSE else ite(c, x, y)
    memo = {}
    return rewrite(p, f, memo)
