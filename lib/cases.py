"""Equality of piecewise functions: every comparison in the two sides is a
threshold on some quantity; the quantities are split into the finitely many
intervals the thresholds define and both sides compared on each."""
import itertools
import math
from algebra import *
import algebra
from irx import *


def _vars_of(*xs):
    s = set()
    for x in xs:
        if isinstance(x, BDD):
            s |= support(x)
        else:
            s |= conds_in(x)
    return s


def _key(p):
    """p = s*(u + c): quantity u (leading coefficient 1, no constant), s, c"""
    u = Poly({m: c for m, c in p.t.items() if m != ()})
    lead = min(u.t)
    s = u.t[lead]
    return u.scale(1 / s), s, p.t.get((), 0) / s


def _subst(x, tab):
    """decide the BDD variables of tab in a Poly or BDD"""
    if isinstance(x, BDD):
        for v, val in tab.items():
            x = cofactor(x, v, val)
        return x
    memo = {}

    def f(a):
        if a.kind == "ite":
            c = a.args[0]
            for v, val in tab.items():
                c = cofactor(c, v, val)
            if c is TRUE:
                return rewrite(a.args[1], f, memo)
            if c is FALSE:
                return rewrite(a.args[2], f, memo)
            return ite(c, rewrite(a.args[1], f, memo), rewrite(a.args[2], f, memo))
        return None
    return rewrite(x, f, memo)


def ordered(*boxes, isint=True):
    """facts: every lower corner is at most the upper one"""
    return tuple(bnot(cmp_lt(b[len(b) // 2 + i], b[i], isint)) for b in boxes for i in range(len(b) // 2))


def same(a, b, isint=False, limit=20000, facts=()):
    """None when a == b everywhere, else a description of a case where they differ.
    facts: BDDs that hold"""
    if a is b or (isinstance(a, Poly) and a == b):
        return None
    if isinstance(a, Poly) and isinstance(b, Poly):
        x, y = folded(a, isint), folded(b, isint)
        if x == y or is_ratio_zero(x - y):
            return None
    path = TRUE
    for f in facts:
        path = band(path, f)
    if isinstance(a, BDD) or isinstance(b, BDD):
        r = case_of(band(path, bor(band(a, bnot(b)), band(b, bnot(a)))), isint)
        return None if r is None else "case %s" % r
    seen = {}

    def go(d, path):
        if not d.t:
            return None
        if path not in seen:
            seen[path] = case_of(path, isint)
        if seen[path] is None:
            return None
        tab = {}
        for v in support(path):
            if cofactor(path, v, 1) is FALSE:
                tab[v] = 0
            elif cofactor(path, v, 0) is FALSE:
                tab[v] = 1
        x = _subst(d, tab) if tab else d
        if not x.t:
            return None
        t = _top_ite(x)
        if t is None:
            return None if vanishes(x, []) else _split(x, ZERO, isint, limit, (path,))
        c, p, q = t.args
        for br, g in ((p, c), (q, bnot(c))):
            r = go(rewrite_top(x, t, br), band(path, g))
            if r is not None:
                return r
        return None
    return go(a - b, path)


def rewrite_top(x, t, br):
    """x with the atom t, where it is a factor of a term, replaced"""
    r = ZERO
    for m, c in x.t.items():
        p = Poly({tuple(f for f in m if f[0] != t.id): c})
        for i, e in m:
            if i == t.id:
                if e > 0:
                    for _ in range(e):
                        p = p * br
                else:
                    for _ in range(-e):
                        p = div(p, br)
        r = r + p
    return r


def is_ratio_zero(d):
    return not conds_in(d) and vanishes(d, [])


def folded(p, isint):
    """p with every selection that is a minimum or maximum in one form"""
    memo = {}

    def f(a):
        if a.kind != "ite" or a.args[0].v is None:
            return None
        c, A, B = a.args
        k = varkey(c.v)
        if k[0] != "lt" or (c.hi, c.lo) not in ((TRUE, FALSE), (FALSE, TRUE)):
            return None
        A, B = rewrite(A, f, memo), rewrite(B, f, memo)
        u = rewrite(k[1], f, memo)
        if c.hi is FALSE:
            A, B = B, A
        d = A - B                       # B + (u < 0 ? d : 0)
        for w in (u, u + ONE) if isint else (u,):
            if not w.t:
                continue
            m = next(iter(w.t))
            r = d.t.get(m, 0) / w.t[m]
            if r and d == w.scale(r):   # u < 0 selects r w, and w = 0 at the border
                lead = w.t[min(w.t)]
                if lead < 0:
                    return B + (w + Poly.of(atom("min0", -w))).scale(r)     # min(w, 0) = w + min(-w, 0)
                return B + Poly.of(atom("min0", w)).scale(r)
        return ite(c, A, B) if c.hi is TRUE else ite(c, B, A)
    return rewrite(p, f, memo)


LEMMAS = {}


def case_of(b, isint):
    """description of a case in which b holds, None when there is none"""
    for sup, l in LEMMAS.get(isint, []):
        if b is FALSE:
            return None
        if sup <= support(b):
            b = band(b, l)
    while b is not FALSE:
        axis = {}
        for ax in axes_of(support(b), isint):
            for w in ([x[0] for x in ax[0][3]] if ax[0][0] is not None else [ax[0][3]]):
                axis[w] = ax
        none = set()

        def go(b, pick):
            if b is FALSE or b in none:
                return None
            if b is TRUE:
                return pick
            for u, val, ex, l in axis[b.v]:
                tab = {l: val} if u is None else {w: int(s * (val + k) < 0) if kind == "lt" else int(s * (val + k) == 0) for w, kind, s, k in l}
                r = go(_subst(b, tab), pick + [(u, val, ex, tab)])
                if r is not None:
                    return r
            none.add(b)
            return None
        m = go(b, [])
        if m is None:
            return None
        lin = [x for x in m if x[0] is not None]

        def ranges(u, tab):
            """where the quantity u gives its tests these outcomes"""
            w0 = next(iter(tab))
            out, run = [], []
            for _, val, ex, l in axis[w0] + [(u, None, None, None)]:
                if l is not None and {w: int(s * (val + k) < 0) if kind == "lt" else int(s * (val + k) == 0) for w, kind, s, k in l} == tab:
                    run.append((val, ex))
                elif run:
                    (a, ea), (z, ez) = run[0], run[-1]
                    c = [(u, a, ">=")] if ea else [(u, a.lo, ">")] if a.lo is not None else []
                    c += [(u, z, "<=")] if ez else [(u, z.hi, "<")] if z.hi is not None else []
                    out.append(c)
                    run = []
            return out

        def ok(l):
            return any(feasible([c for r in pick for c in r], isint) for pick in itertools.product(*[ranges(u, tab) for u, val, ex, tab in l]))
        if ok(lin):
            return "; ".join(("%s = %s" if ex else "%s ~ %s") % (u, val) if u is not None else "%s is %s" % (show_var(list(tab)[0]), bool(val)) for u, val, ex, tab in m) or "always"
        i = 0
        while i < len(lin):
            if ok(lin[:i] + lin[i + 1:]):
                i += 1
            else:
                del lin[i]
        # these outcomes exclude each other
        c = TRUE
        for u, val, ex, tab in lin:
            for w, x in tab.items():
                c = band(c, bvar(varkey(w)) if x else bnot(bvar(varkey(w))))
        l = bnot(c)
        LEMMAS.setdefault(isint, []).append((support(l), l))
        b = band(b, l)
    return None


def _split(a, b, isint, limit, facts):
    facts = [f for f in facts if f is not TRUE]
    axis = {}
    for ax in axes_of(_vars_of(a, b, *facts), isint):
        for v in ([x[0] for x in ax[0][3]] if ax[0][0] is not None else [ax[0][3]]):
            axis[v] = ax
    n = [0, 0]
    done = set()

    def go(x, y, fs, eqs, cons, txt):
        if any(f is FALSE for f in fs):
            return None
        fs = [f for f in fs if f is not TRUE]
        if x is y or isinstance(x, Poly) and isinstance(y, Poly) and x == y:
            return None
        key = (x, y, tuple(sorted(id(f) for f in fs)))
        if key in done:
            return None
        before = n[1]
        r = split(x, y, fs, eqs, cons, txt)
        if r is None and n[1] == before:
            done.add(key)           # settled without using what led here
        return r

    def split(x, y, fs, eqs, cons, txt):
        v = _top(x, y)
        if v is None and fs and not vanishes(x - y, []) if not isinstance(x, BDD) and not isinstance(y, BDD) else v is None and fs:
            v = min(f.v for f in fs)
        if v is not None and not any(_held(z, v) for z in (x, y, *fs)):
            v = None                # only inside something opaque
        if v is None:
            n[0] += 1
            if n[0] > limit:
                return "too many cases"
            if isinstance(x, BDD) or isinstance(y, BDD):
                ok = x is y
            else:
                ok = vanishes(x - y, [])
                if not ok and eqs:
                    n[1] += 1
                    ok = vanishes(x - y, eqs)
            if not ok:
                n[1] += 1
            if ok or not feasible(cons, isint):
                return None
            return "case %s: %s, required %s" % ("; ".join(txt), x, y)
        ax = axis.get(v)
        if ax is None:
            ax = axes_of([v], isint)[0]
        for u, val, ex, l in ax:
            e, c = eqs, cons
            if u is None:
                tab = {l: val}
                t = "%s is %s" % (show_var(l), bool(val))
            else:
                tab = {w: int(s * (val + k) < 0) if kind == "lt" else int(s * (val + k) == 0) for w, kind, s, k in l}
                c = cons + [(u, w, r) for w, r in ((val.lo, ">"), (val.hi, "<")) if w is not None] if isinstance(val, Pt) else cons
                if ex:
                    e = eqs + [u - num(val)]
                    c = cons + [(u, val, "=")]
                t = "%s = %s" % (u, val) if ex else "%s ~ %s" % (u, val)
            r = go(_subst(x, tab), _subst(y, tab), [_subst(f, tab) for f in fs], e, c, txt + [t])
            if r is not None:
                return r
        return None
    return go(a, b, facts, [], [], [])


class Pt(Fraction):
    """a sample point of an open interval"""
    lo = hi = None


def _top_ite(x):
    """the outermost gate that is a factor of a term"""
    best = None
    for m in x.t:
        for f in m:
            a = algebra._atom_list[f[0]]
            if a.kind == "ite" and (best is None or a.id > best.id):
                best = a
    return best


def _held(x, v):
    """does deciding the test change the value?"""
    r = _subst(x, {v: 0})
    return r is not x and (isinstance(x, BDD) or r != x) or _subst(x, {v: 1}) is not x and (isinstance(x, BDD) or _subst(x, {v: 1}) != x)


def _top(*xs):
    """a test some value depends on, outermost first"""
    for x in xs:
        if isinstance(x, BDD):
            if x.v is not None:
                return x.v
    best = [a for a in (_top_ite(x) for x in xs if isinstance(x, Poly)) if a is not None and a.args[0].v is not None]
    if best:
        return max(best, key=lambda a: a.id).args[0].v
    s = _vars_of(*xs)
    return min(s) if s else None


def feasible(cons, isint):
    """can the linear tests hold together (products and other terms taken as independent unknowns)?"""
    rows = []                       # coefficients, constant, strict:  sum + c  < or <= 0

    def row(t, c, strict):
        t = dict(t)
        if isint and t:
            # whole numbers: the sum is a multiple of its coefficients' common divisor
            k = math.lcm(*[Fraction(x).denominator for x in t.values()])
            t = {m: x * k for m, x in t.items()}
            c = Fraction(c) * k
            g = math.gcd(*[int(x) for x in t.values()])
            t = {m: x / g for m, x in t.items()}
            c = c / g
            top = math.ceil(-c) - 1 if strict else math.floor(-c)
            c, strict = Fraction(-top), False
        rows.append((t, c, strict))
    for u, w, r in cons:
        t = {m: c for m, c in u.t.items() if m != ()}
        c = u.t.get((), 0) - w
        if r in ("<", "=", "<="):
            row(t, c, r == "<")
        if r in (">", "=", ">="):
            row({m: -x for m, x in t.items()}, -c, r == ">")
    while True:
        for t, c, s in rows:
            if not t and (c > 0 or s and c == 0):
                return False
        rows = [x for x in rows if x[0]]
        if not rows:
            return True
        ms = set(m for t, _, _ in rows for m in t)
        m = min(ms, key=lambda m: sum(t.get(m, 0) > 0 for t, _, _ in rows) * sum(t.get(m, 0) < 0 for t, _, _ in rows))
        up = [x for x in rows if x[0].get(m, 0) > 0]
        dn = [x for x in rows if x[0].get(m, 0) < 0]
        rows = [x for x in rows if not x[0].get(m, 0)]
        if len(up) * len(dn) > 4000:
            return True
        for t, c, s in up:
            for t2, c2, s2 in dn:
                k, k2 = -t2[m], t[m]
                q = {}
                for z, y in ((t, k), (t2, k2)):
                    for mm, v in z.items():
                        q[mm] = q.get(mm, 0) + y * v
                rows.append(({mm: v for mm, v in q.items() if v}, c * k + c2 * k2, s or s2))


def vanishes(d, eqs):
    es = list(eqs)
    while es:
        e = es.pop(0)
        d2 = subst_eq(d, e)
        es = [subst_eq(q, e) for q in es]
        d = d2
    return is_zero(d)


def axes_of(vs, isint):
    """per quantity (or free test) the cases to distinguish: [(quantity, point, exactly?, its tests)]"""
    qs = {}
    free = []
    for v in vs:
        k = varkey(v)
        if k[0] in ("lt", "eq"):
            u, s, c = _key(k[1])
            qs.setdefault(u, []).append((v, k[0], s, c))
        else:
            free.append(v)
    axes = []
    for u, l in qs.items():
        ts = sorted({-c for _, _, _, c in l})
        pts = []

        def pt(x, lo, hi):
            p = Pt(x)
            p.lo, p.hi = lo, hi
            return p
        for i, t in enumerate(ts):
            if i == 0:
                pts.append((pt(t - 1, None, t), False))
            pts.append((t, True))
            if i + 1 < len(ts):
                if not isint or ts[i + 1] - t > 1:
                    pts.append((pt((t + ts[i + 1]) / 2, t, ts[i + 1]), False))
            else:
                pts.append((pt(t + 1, t, None), False))
        axes.append([(u, x, ex, l) for x, ex in pts])
    for v in free:
        axes.append([(None, 0, False, v), (None, 1, False, v)])
    return axes


def splits(xs, isint=False, limit=200000, facts=()):
    """every combination of outcomes of the tests in xs: ({variable: 0/1}, [p that are 0], text)"""
    axes = axes_of(_vars_of(*xs, *facts), isint)
    n = 1
    for x in axes:
        n *= len(x)
    if n > limit:
        raise OverflowError("too many cases (%d)" % n)
    for combo in itertools.product(*axes):
        tab, eqs, txt = {}, [], []
        for u, x, ex, l in combo:
            if u is None:
                tab[l] = x
                txt.append("%s is %s" % (show_var(l), bool(x)))
                continue
            for v, kind, s, c in l:
                z = s * (x + c)
                tab[v] = int(z < 0) if kind == "lt" else int(z == 0)
            if ex:
                eqs.append(u - num(x))
            txt.append("%s = %s" % (u, x) if ex else "%s ~ %s" % (u, x))
        if any(_subst(f, tab) is FALSE for f in facts):
            continue
        yield tab, eqs, "; ".join(txt)


# ------------------------------------------------------------ value types
def inval(F, k, off, size=8, ty="double", canon=None):
    """value read from argument k at byte offset off"""
    return Poly.of(atom("ld", F.argatoms[k], num(off)))


def outval(F, k, off, size=8, ty="double", canon=None):
    """value left at byte offset off of argument k when F returns"""
    v = F.load(F.final_state, Ptr(F.argatoms[k], num(off)), size, ty)
    return (canon or Canon0()).poly(F.asint(v))


class Canon0:
    def __new__(cls, *a):
        from canon import Canon
        return Canon(*a)


def mx(a, b):
    return ite(cmp_lt(a, b), b, a)


def mn(a, b):
    return ite(cmp_lt(b, a), b, a)


def quiet(cx, F, lab, allow=(0,)):
    """no store except into the arguments in allow, and no call"""
    bad = [e for e in F.effects if (e.kind == "store" and e.root.kind != "alloca" and e.root not in [F.argatoms[k] for k in allow])
           or (e.kind == "call" and not e.name.startswith("llvm."))]
    cx.check(not bad, "no side effect", lab, "\n".join(map(str, bad[:3])))
