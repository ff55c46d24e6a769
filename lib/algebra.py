"""Exact normal forms for the expressions the dataflow analysis builds.

Values are multivariate Laurent polynomials with rational coefficients over
hash-consed atoms (parameters, memory cells, induction variables, opaque
function applications, inv(P), sqrt(P), gated ite(c,a,b)).  Conditions are
reduced ordered binary decision diagrams over comparison atoms.  Everything is
decided by rewriting to normal form: no solver, no sampling, no execution.
"""
from fractions import Fraction
import sys
sys.setrecursionlimit(100000)

# --------------------------------------------------------------------------
# atoms
_atoms = {}
_atom_list = []


class Atom:
    __slots__ = ("kind", "args", "id", "info")

    def __repr__(self):
        return fmt_atom(self)


def atom(kind, *args):
    k = (kind,) + args
    a = _atoms.get(k)
    if a is None:
        a = Atom()
        a.kind = kind
        a.args = args
        a.id = len(_atom_list)
        a.info = None
        _atoms[k] = a
        _atom_list.append(a)
    return a


def fmt_atom(a, depth=0):
    if depth > 6:
        return "..."
    def f(x):
        if isinstance(x, Poly):
            return x.show(depth + 1)
        if isinstance(x, Atom):
            return fmt_atom(x, depth + 1)
        if isinstance(x, BDD):
            return x.show(depth + 1)
        if isinstance(x, tuple):
            return "(" + ",".join(f(y) for y in x) + ")"
        return str(x)
    if a.kind == "sym":
        return str(a.args[0])
    if a.kind == "fn":
        return "%s(%s)" % (a.args[0], ", ".join(f(x) for x in a.args[1]))
    if a.kind == "ite":
        return "(%s ? %s : %s)" % tuple(f(x) for x in a.args)
    if a.kind == "ld":
        return "*(%s%s)" % (f(a.args[0]), "" if a.args[1].is_zero0() else " + " + f(a.args[1]))
    return "%s(%s)" % (a.kind, ", ".join(f(x) for x in a.args))


# --------------------------------------------------------------------------
# constants: doubles folded by the compiler are read back as the simple
# rational they round (1./3, 2./9, ...) when one exists.
_ratcache = {}


def rational(x):
    """x: string printed with %.17g"""
    if x in _ratcache:
        return _ratcache[x]
    fx = float(x)
    fr = Fraction(fx)
    best = fr
    for lim in (1, 16, 256, 4096, 65536):
        c = fr.limit_denominator(lim)
        if abs(c - fr) <= abs(fr) * Fraction(1, 10 ** 14):
            best = c
            break
    _ratcache[x] = best
    return best


# --------------------------------------------------------------------------
class Poly:
    """Laurent polynomial: {monomial: Fraction}; monomial = tuple of (atom id, exp) sorted."""
    __slots__ = ("t", "_h", "_n")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._n = None

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c}) if c else ZERO

    @staticmethod
    def of(a, e=1):
        return Poly({((a.id, e),): Fraction(1)})

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def is_zero0(self):
        return not self.t

    def as_const(self):
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def as_int(self):
        c = self.as_const()
        if c is not None and c.denominator == 1:
            return int(c)
        return None

    def as_atom(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return _atom_list[m[0][0]]
        return None

    def __add__(self, o):
        if not o.t:
            return self
        if not self.t:
            return o
        if len(o.t) > len(self.t):
            self, o = o, self
        t = dict(self.t)
        for m, c in o.t.items():
            n = t.get(m)
            if n is None:
                t[m] = c
            else:
                n += c
                if n:
                    t[m] = n
                else:
                    del t[m]
        return Poly(t)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, k):
        k = Fraction(k)
        if not k:
            return ZERO
        return Poly({m: c * k for m, c in self.t.items()})

    def __mul__(self, o):
        if not self.t or not o.t:
            return ZERO
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if m == ():
                return o.scale(c)
        if len(o.t) == 1:
            (m, c), = o.t.items()
            if m == ():
                return self.scale(c)
        t = {}
        special = False
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mm(m1, m2)
                c = c1 * c2
                n = t.get(m)
                if n is None:
                    t[m] = c
                else:
                    n += c
                    if n:
                        t[m] = n
                    else:
                        del t[m]
        return _reduce(Poly(t))

    def pow(self, n):
        if n < 0:
            return div(ONE, self.pow(-n))
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r * b
            b = b * b if n > 1 else b
            n >>= 1
        return r

    def atoms(self):
        s = set()
        for m in self.t:
            for a, e in m:
                s.add(a)
        return [_atom_list[i] for i in sorted(s)]

    def show(self, depth=0):
        if not self.t:
            return "0"
        r = []
        for m, c in sorted(self.t.items(), key=lambda x: x[0])[:40]:
            f = []
            if c != 1 or not m:
                f.append(str(c))
            for a, e in m:
                s = fmt_atom(_atom_list[a], depth)
                f.append(s if e == 1 else "%s^%d" % (s, e))
            r.append("*".join(f))
        s = " + ".join(r)
        if len(self.t) > 40:
            s += " + ... (%d terms)" % len(self.t)
        return s if len(self.t) == 1 else "(" + s + ")"

    def __repr__(self):
        return self.show()


def _mm(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    r = []
    i = j = 0
    while i < len(m1) and j < len(m2):
        a, e = m1[i]
        b, f = m2[j]
        if a == b:
            if e + f:
                r.append((a, e + f))
            i += 1
            j += 1
        elif a < b:
            r.append(m1[i])
            i += 1
        else:
            r.append(m2[j])
            j += 1
    r.extend(m1[i:])
    r.extend(m2[j:])
    return tuple(r)


_special = {}   # atom id -> kind needing reduction ("sqrt", "inv")


def _reduce(p):
    """sqrt(P)^2 -> P, inv(P)^-1 -> P"""
    if not _special:
        return p
    bad = None
    for m in p.t:
        for a, e in m:
            k = _special.get(a)
            if k == "sqrt" and (e >= 2 or e <= -1):
                bad = True
            elif k == "inv" and e < 0:
                bad = True
    if not bad:
        return p
    out = ZERO
    for m, c in p.t.items():
        rest = []
        mul = None
        for a, e in m:
            k = _special.get(a)
            if k == "sqrt" and (e >= 2 or e <= -1):
                P = _atom_list[a].args[0]
                q, r = divmod(e, 2)
                if r:
                    rest.append((a, 1))
                f = P.pow(q)
                mul = f if mul is None else mul * f
            elif k == "inv" and e < 0:
                f = _atom_list[a].args[0].pow(-e)
                mul = f if mul is None else mul * f
            else:
                rest.append((a, e))
        b = Poly({tuple(rest): c})
        out = out + (b if mul is None else b * mul)
    return out


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})


def num(c):
    return Poly.const(c)


def sym(name):
    return Poly.of(atom("sym", name))


def _content(p):
    """p = c * monomial * q with q primitive-ish; returns (c, monomial, q)"""
    ms = list(p.t)
    mins = None
    for m in ms:
        d = dict(m)
        if mins is None:
            mins = d
        else:
            mins = {a: min(e, d.get(a, 0)) for a, e in mins.items()}
            for a, e in d.items():
                if a not in mins and e < 0:
                    mins[a] = e
            mins = {a: e for a, e in mins.items() if e}
    # atoms absent in some monomial count exponent 0 there
    g = {}
    for a, e in mins.items():
        lo = min((dict(m).get(a, 0)) for m in ms)
        if lo:
            g[a] = lo
    mono = tuple(sorted(g.items()))
    invm = tuple((a, -e) for a, e in mono)
    q = {_mm(m, invm): c for m, c in p.t.items()}
    lead = min(q)
    c = q[lead]
    q = {m: x / c for m, x in q.items()}
    return c, mono, Poly(q)


def inv(p):
    if not p.t:
        return Poly.of(atom("fn", "divzero", ()))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return _reduce(Poly({tuple((a, -e) for a, e in m): 1 / c}))
    # inv of a polynomial containing inv atoms: clear them first
    p2, f = clear_inv(p)
    if f is not None:
        return inv(p2) * f
    c, mono, q = _content(p)
    a = atom("inv", q)
    _special[a.id] = "inv"
    return _reduce(Poly({_mm(tuple((x, -e) for x, e in mono), ((a.id, 1),)): 1 / c})) if a.id not in [x for x, _ in mono] else Poly.of(a)


def div(a, b):
    return a * inv(b)


def sqrt(p):
    c = p.as_const()
    if c is not None and c >= 0:
        import math
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return num(Fraction(n, d))
    a = atom("sqrt", p)
    _special[a.id] = "sqrt"
    return Poly.of(a)


def fn(name, *args):
    return Poly.of(atom("fn", name, tuple(args)))


def clear_inv(p):
    """multiply p by a product of denominators so that no inv atom is left.
    returns (polynomial, factor) or (p, None)"""
    mx = {}
    for m in p.t:
        for a, e in m:
            if _special.get(a) == "inv" and e > 0:
                mx[a] = max(mx.get(a, 0), e)
    if not mx:
        return p, None
    out = ZERO
    for m, c in p.t.items():
        d = dict(m)
        r = Poly({tuple((a, e) for a, e in m if a not in mx): c})
        for a, k in mx.items():
            n = k - d.get(a, 0)
            if n:
                r = r * _pw(a, n)
        out = out + r
    f = ONE
    for a, k in mx.items():
        f = f * _pw(a, k)
    out2, f2 = clear_inv(out)
    if f2 is not None:
        return out2, f * f2
    return out2, f


_pwc = {}


def _pw(a, n):
    k = (a, n)
    if k not in _pwc:
        _pwc[k] = _atom_list[a].args[0].pow(n)
    return _pwc[k]


# --------------------------------------------------------------------------
# BDDs
class BDD:
    __slots__ = ("v", "hi", "lo", "id")

    def show(self, depth=0):
        if self is TRUE:
            return "true"
        if self is FALSE:
            return "false"
        if depth > 6:
            return "..."
        v = show_var(self.v, depth + 1)
        if self.hi is TRUE and self.lo is FALSE:
            return v
        if self.hi is FALSE and self.lo is TRUE:
            return "!" + v
        if self.lo is FALSE:
            return "(%s && %s)" % (v, self.hi.show(depth + 1))
        if self.hi is TRUE:
            return "(%s || %s)" % (v, self.lo.show(depth + 1))
        return "(%s ? %s : %s)" % (v, self.hi.show(depth + 1), self.lo.show(depth + 1))

    __repr__ = show


_nodes = {}
_vars = {}
_varl = []


def _mk(v, hi, lo):
    if hi is lo:
        return hi
    k = (v, id(hi), id(lo))
    n = _nodes.get(k)
    if n is None:
        n = BDD()
        n.v = v
        n.hi = hi
        n.lo = lo
        n.id = len(_nodes) + 2
        _nodes[k] = n
    return n


TRUE = BDD()
TRUE.v = None
TRUE.hi = TRUE.lo = None
TRUE.id = 1
FALSE = BDD()
FALSE.v = None
FALSE.hi = FALSE.lo = None
FALSE.id = 0


def bvar(key):
    """key: ('lt', Poly) means Poly < 0 ; ('eq', Poly) ; ('b', anything)"""
    i = _vars.get(key)
    if i is None:
        i = len(_varl)
        _vars[key] = i
        _varl.append(key)
    return _mk(i, TRUE, FALSE)


def varkey(i):
    return _varl[i]


def show_var(i, depth=0):
    k = _varl[i]
    if k[0] == "lt":
        return "%s < 0" % k[1].show(depth)
    if k[0] == "eq":
        return "%s == 0" % k[1].show(depth)
    x = k[1]
    return x.show(depth) if hasattr(x, "show") else str(x)


_itec = {}


def bite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    k = (id(c), id(a), id(b))
    r = _itec.get(k)
    if r is not None:
        return r
    v = min(x.v for x in (c, a, b) if x.v is not None)
    def cof(x, val):
        if x.v == v:
            return x.hi if val else x.lo
        return x
    r = _mk(v, bite(cof(c, 1), cof(a, 1), cof(b, 1)), bite(cof(c, 0), cof(a, 0), cof(b, 0)))
    _itec[k] = r
    return r


def band(a, b):
    return bite(a, b, FALSE)


def bor(a, b):
    return bite(a, TRUE, b)


def bnot(a):
    return bite(a, FALSE, TRUE)


def bxor(a, b):
    return bite(a, bnot(b), b)


def support(b, s=None, seen=None):
    if s is None:
        s, seen = set(), set()
    if b.v is None or id(b) in seen:
        return s
    seen.add(id(b))
    s.add(b.v)
    support(b.hi, s, seen)
    support(b.lo, s, seen)
    return s


def cofactor(b, v, val, memo=None):
    if b.v is None or b.v > v:
        return b
    if memo is None:
        memo = {}
    r = memo.get(id(b))
    if r is None:
        if b.v == v:
            r = b.hi if val else b.lo
        else:
            r = _mk(b.v, cofactor(b.hi, v, val, memo), cofactor(b.lo, v, val, memo))
        memo[id(b)] = r
    return r


def _cmpnorm(p, even):
    """scale p so that its leading coefficient is +-1 (or +1 when sign is free)"""
    lead = min(p.t)
    c = p.t[lead]
    if even:
        return p.scale(1 / c), False
    return p.scale(1 / abs(c)), False


def cmp_lt(a, b, isint=False):
    """a < b"""
    p = a - b
    c = p.as_const()
    if c is not None:
        return TRUE if c < 0 else FALSE
    if isint:
        # a<b over the integers; canonical: choose the form with leading coeff > 0
        lead = min(k for k in p.t if k != ()) if any(k != () for k in p.t) else ()
        if p.t[lead] < 0:
            # -q < 0  <=>  !(q < 1)  <=> !(q - 1 < 0) ... -q<0 <=> q>0 <=> !(q<=0) <=> !(q-1<0)
            q = -p
            return bnot(bvar(("lt", q - ONE)))
        return bvar(("lt", p))
    lead = min(k for k in p.t if k != ())
    k = p.t[lead]
    return bvar(("lt", p.scale(1 / abs(k))))


def cmp_eq(a, b):
    p = a - b
    c = p.as_const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    lead = min(p.t)
    return bvar(("eq", p.scale(1 / p.t[lead])))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a == b:
        return a
    # canonical polarity: condition's BDD as is
    return Poly.of(atom("ite", c, a, b))


def atom_of(m):
    """the atom of a degree-one monomial"""
    return _atom_list[m[0][0]] if len(m) == 1 and m[0][1] == 1 else None


# --------------------------------------------------------------------------
# substitution / rewriting over atoms
def rewrite(p, f, memo=None):
    """replace every atom by f(atom) -> Poly or None (None: rebuild recursively)"""
    if memo is None:
        memo = {}
    out = ZERO
    for m, c in p.t.items():
        r = Poly({(): c})
        for a, e in m:
            v = rewrite_atom(_atom_list[a], f, memo)
            if e > 0:
                r = r * (v if e == 1 else v.pow(e))
            else:
                r = r * inv(v if e == -1 else v.pow(-e))
        out = out + r
    return out


def rewrite_atom(a, f, memo):
    r = memo.get(a.id)
    if r is not None:
        return r
    r = f(a)
    if r is None:
        r = rebuild(a, lambda p: rewrite(p, f, memo), lambda b: rewrite_bdd(b, f, memo))
    memo[a.id] = r
    return r


def rebuild(a, fp, fb):
    if a.kind == "inv":
        return inv(fp(a.args[0]))
    if a.kind == "sqrt":
        return sqrt(fp(a.args[0]))
    if a.kind == "ite":
        return ite(fb(a.args[0]), fp(a.args[1]), fp(a.args[2]))
    if a.kind == "fn":
        return fnorm(a.args[0], [fp(x) if isinstance(x, Poly) else x for x in a.args[1]])
    if a.kind in ("ld", "pack", "info", "arr"):
        r0 = a.args[0]
        n = []
        ch = False
        for x in a.args:
            if isinstance(x, Poly):
                y = fp(x)
            elif isinstance(x, Atom):
                y = fp(Poly.of(x)).as_atom() or x
            else:
                y = x
            ch |= (y is not x)
            n.append(y)
        return Poly.of(atom(a.kind, *n)) if ch else Poly.of(a)
    return Poly.of(a)


def rewrite_bdd(b, f, memo):
    if b.v is None:
        return b
    k = ("b", id(b))
    r = memo.get(k)
    if r is None:
        key = _varl[b.v]
        if key[0] == "lt":
            p = rewrite(key[1], f, memo)
            v = cmp_lt(p, ZERO)
        elif key[0] == "eq":
            v = cmp_eq(rewrite(key[1], f, memo), ZERO)
        else:
            c = f(key[1]) if isinstance(key[1], Atom) else None
            c = c.as_int() if isinstance(c, Poly) else None
            v = bvar(key) if c is None else bnot(cmp_eq(num(c), ZERO))
        r = bite(v, rewrite_bdd(b.hi, f, memo), rewrite_bdd(b.lo, f, memo))
        memo[k] = r
    return r


def all_atoms(p, acc=None):
    if acc is None:
        acc = {}
    for a in p.atoms():
        if a.id in acc:
            continue
        acc[a.id] = a
        for x in a.args:
            _aa(x, acc)
    return acc


def _aa(x, acc):
    if isinstance(x, Poly):
        all_atoms(x, acc)
    elif isinstance(x, Atom):
        if x.id not in acc:
            acc[x.id] = x
            for y in x.args:
                _aa(y, acc)
    elif isinstance(x, BDD):
        for v in support(x):
            for y in _varl[v][1:]:
                _aa(y, acc)
    elif isinstance(x, tuple):
        for y in x:
            _aa(y, acc)


def fnorm(name, args):
    """smart constructor for opaque functions"""
    if name == "sqrt":
        return sqrt(args[0])
    if name == "pow":
        e = args[1].as_const()
        if e is not None and e.denominator == 1 and abs(e) <= 64:
            return args[0].pow(int(e))
        if e is not None and e == Fraction(1, 2):
            return sqrt(args[0])
    if name == "fabs":
        c = args[0].as_const()
        if c is not None:
            return num(abs(c))
        # |-x| = |x|
        p = args[0]
        if p.t and p.t[min(p.t)] < 0:
            p = -p
        return fn("fabs", p)
    if name == "copysign":
        # |a| with the sign of b, for a known to be nonnegative
        a = args[0].as_atom()
        if a is not None and a.kind == "fn" and (a.args[0] == "fabs" or a.args[0] == "pow" and (lambda x: x is not None and x.kind == "fn" and x.args[0] == "fabs")(a.args[1][0].as_atom())):
            return ite(cmp_lt(args[1], ZERO), -args[0], args[0])
    if name in ("sin", "tan", "asin", "sinh") and args[0].t:
        p = args[0]
        if p.t[min(p.t)] < 0:
            return -fn(name, -p)
    if name == "cos" and args[0].t:
        p = args[0]
        if p.t[min(p.t)] < 0:
            return fn(name, -p)
    if name == "cos" and not args[0].t:
        return ONE
    if name in ("floor", "ceil", "round", "trunc") and integral(args[0]):
        return args[0]
    if name in ("floor", "ceil"):
        # floor(n + x) = n + floor(x),  floor(-x) = -ceil(x)
        p = args[0]
        c = p.t.get((), 0)
        k = c.numerator // c.denominator if c else 0
        if k:
            return num(k) + fnorm(name, [p - num(k)])
        if p.t[min(p.t)] < 0 and () not in p.t:
            return -fn("ceil" if name == "floor" else "floor", -p)
    if name in ("sin", "tan", "asin") and not args[0].t:
        return ZERO
    return fn(name, *args)


def integral(p):
    """every monomial an integer multiple of integer-valued quantities"""
    for m, c in p.t.items():
        if c.denominator != 1:
            return False
        for x, e in m:
            a = _atom_list[x]
            if e < 0 or a.kind not in ("info", "it") and not (a.kind == "fn" and a.args[0] in ("floor", "ceil", "round", "trunc", "toint")):
                return False
    return True


# trigonometric reduction: sin^2 -> 1 - cos^2
def trig_reduce(p):
    def one(p):
        out = ZERO
        ch = False
        for m, c in p.t.items():
            for a, e in m:
                A = _atom_list[a]
                if A.kind == "fn" and A.args[0] == "sin" and e >= 2:
                    co = fn("cos", *A.args[1])
                    rest = tuple((x, y) if x != a else (x, y - 2) for x, y in m)
                    rest = tuple((x, y) for x, y in rest if y)
                    out = out + Poly({rest: c}) * (ONE - co * co)
                    ch = True
                    break
            else:
                out = out + Poly({m: c})
        return out, ch
    ch = True
    while ch:
        p, ch = one(p)
    return p


def conds_in(p):
    s = set()
    for a in all_atoms(p).values():
        if a.kind == "ite":
            s |= support(a.args[0])
    return s


def assume_var(p, v, val):
    """specialise every gate in p under BDD variable v = val"""
    def f(a):
        if a.kind == "ite":
            c = cofactor(a.args[0], v, val)
            x, y = assume_var(a.args[1], v, val), assume_var(a.args[2], v, val)
            return ite(c, x, y)
        return None
    return rewrite(p, f)


def is_zero(p, depth=0, facts=()):
    """is p identically zero (gates split case by case, denominators cleared)"""
    if not p.t:
        return True
    cs = conds_in(p)
    if cs:
        if depth > 14:
            return False
        v = min(cs)
        for val in (1, 0):
            q = assume_var(p, v, val)
            k = _varl[v]
            if val == 1 and k[0] == "eq":
                q = subst_eq(q, k[1])
            if not is_zero(q, depth + 1):
                return False
        return True
    q, _ = clear_inv(p)
    if not q.t:
        return True
    q = trig_reduce(q)
    if not q.t:
        return True
    q, _ = clear_inv(q)
    return not q.t


def subst_eq(p, e):
    """use e == 0 to eliminate an atom that occurs linearly on its own in e"""
    for m, c in e.t.items():
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if sum(1 for m2 in e.t for x, _ in m2 if x == a) == 1:
                val = (Poly({m: c}) - e).scale(1 / c)
                return rewrite(p, lambda at: val if at.id == a else None)
    return p


def equal(a, b):
    return is_zero(a - b)


# --------------------------------------------------------------------------
# differentiation
def diff(p, x, rules=None, memo=None):
    """d p / d x  (x an Atom); rules: {fname: f(args) -> [partial derivative Polys]}"""
    if memo is None:
        memo = {}
    out = ZERO
    for m, c in p.t.items():
        for i, (a, e) in enumerate(m):
            da = diff_atom(_atom_list[a], x, rules, memo)
            if not da.t:
                continue
            rest = list(m)
            if e == 1:
                del rest[i]
            else:
                rest[i] = (a, e - 1)
            out = out + Poly({tuple(rest): c * e}) * da
    return out


def diff_atom(a, x, rules, memo):
    if a is x:
        return ONE
    r = memo.get(a.id)
    if r is not None:
        return r
    if a.kind == "inv":
        d = diff(a.args[0], x, rules, memo)
        r = -(d * Poly.of(a) * Poly.of(a)) if d.t else ZERO
    elif a.kind == "sqrt":
        d = diff(a.args[0], x, rules, memo)
        r = (d * inv(Poly.of(a))).scale(Fraction(1, 2)) if d.t else ZERO
    elif a.kind == "ite":
        r = ite(a.args[0], diff(a.args[1], x, rules, memo), diff(a.args[2], x, rules, memo))
    elif a.kind == "fn":
        ds = [diff(q, x, rules, memo) if isinstance(q, Poly) else ZERO for q in a.args[1]]
        if not any(d.t for d in ds):
            r = ZERO
        else:
            name = a.args[0]
            if name == "sin":
                r = ds[0] * fn("cos", *a.args[1])
            elif name == "cos":
                r = -(ds[0] * fn("sin", *a.args[1]))
            elif name == "pow" and not ds[1].t:
                b, e = a.args[1]
                r = ds[0] * e * fnorm("pow", [b, e - ONE])
            elif rules and name in rules:
                r = ZERO
                for d, q in zip(ds, rules[name](*a.args[1])):
                    if d.t:
                        r = r + d * q
            else:
                raise ValueError("no derivative rule for " + name)
    else:
        r = ZERO
    memo[a.id] = r
    return r
