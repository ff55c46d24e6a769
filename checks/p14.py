"""P14 contact fields: velocities, gradients, pressure, lubrication"""
import re
from irx import *
from cases import same
from calculus import *
TITLE = "Contact fields are divergence-free with exact gradients"
LEVEL = "proof"
TRUSTED = "clang 18 front end and -O2 IR; irdump; the rational normal form of /verif/lib/algebra.py"
EXPLAIN = "Each coded component and derivative is reduced to one rational function of position, curvatures, gap, speed and the symbols chi_k(r^2); the derivative of the component is formed term by term (chain rule) and must be the same polynomial after clearing denominators. The values coded for the axis are compared with the limits of the off-axis formulas."
MIN_OBLIGATIONS = 90
CELLS = {"2D": {"x": 0, "z": 8}, "3D": {"x": 0, "y": 8, "z": 16}}
H, M, A_, U, L, EPS = [sym("arg%d" % i) for i in range(1, 7)]
HALF = Fraction(1, 2)


def names():
    r = []
    for mv in ("normalMvt", "tangMvt"):
        for d, off in CELLS.items():
            r += [("u%s_sing_%s%s" % (c, mv, d), d) for c in off]
            r += [("d%su%s_sing_%s%s" % (e, c, mv, d), d) for c in off for e in off]
            r += [("DIVCART_%s%s" % (mv, d), d), ("p_sing_withT_%s%s" % (mv, d), d)]
    return r


def wit():
    s = "#include <cafes.hpp>\nusing namespace cafes; using namespace cafes::singularity;\n"
    for n, d in names():
        s += 'extern "C" double w_%s(position%s const& X, double H, double M, double a, double U, double l, double eps){ return %s(X,H,M,a,U,l,eps,nullptr);}\n' % (n, d.lower(), n)
    return s


def order(dem):
    s = re.search(r"\bd?(\d*)chiTrunc\(", dem)
    return 0 if "::chiTrunc(" in dem else int(s.group(1) or 1)


class Fields:
    def __init__(self, cx, m):
        self.cx, self.m, self.c = cx, m, {}

    def get(self, n):
        if n in self.c:
            return self.c[n]
        cx, m = self.cx, self.m
        F = Fn(m, "w_" + n)
        cx.saw(n)
        calls, odd = {}, []
        for e in F.effects:
            if e.kind == "call" and e.name in m.dem and len(e.args) == 3:
                calls[e.ret.as_atom()] = e
            else:
                odd.append(str(e))
        cx.check(not odd, "no-side-effect", n, odd[:2])
        cx.need(len(F.rets) == 1, "%s: no single result" % n)

        def f(a):
            if a.kind == "ret":
                e = calls.get(a)
                if e is None:
                    return None
                r = rewrite(e.args[0], f, memo)
                return A.fn("chi", num(order(m.dem[e.name])), r * r, *[rewrite(x, f, memo) for x in e.args[1:]])
            return None
        memo = {}
        v = F.rets[0][1]
        if not isinstance(v, Poly):
            v = F.asint(v)
        self.c[n] = v = powers(rewrite(v, f, memo))
        return v


def onaxis(v):
    def f(x):
        if x.kind == "ld" and x.args[1].as_int() in (0, 8):
            return ZERO
    def sign(q):
        c = rewrite(q, f, {}).as_const()
        return None if c is None else (c > 0) - (c < 0)
    return rewrite(decide(v, sign), f, {})


def offaxis(v):
    """away from the axis r2 = x^2+y^2 and its root are positive"""
    c = cells(v)
    if 0 not in c or 8 not in c:
        return v
    r2 = c[0] * c[0] + c[8] * c[8]
    r = sqrt(r2)

    def sign(q):
        for base in (r2, r):
            for s in (1, -1):
                k = q - base.scale(s)
                k2 = q.scale(s)
                n = min(base.t)
                if n in q.t and q == base.scale(q.t[n] / base.t[n]):
                    return 1 if q.t[n] / base.t[n] > 0 else -1
        return None
    return decide(v, sign)


def tests(v, yes):
    """the tests "r is 0" of v decided"""
    def f(a):
        if a.kind != "ite":
            return None
        c = a.args[0]
        for b in list(support(c)):
            k = varkey(b)
            if k[0] == "eq" and is_r(k[1]):
                c = cofactor(c, b, int(yes))
        x, y = (rewrite(z, f, memo) for z in a.args[1:3])
        return x if c is TRUE else y if c is FALSE else ite(c, x, y)

    def is_r(q):
        m = q.atoms()
        return len(q.t) == 1 and len(m) == 1 and all(x.kind == "ld" and x.args[1].as_int() == 8 for x in m) and not rewrite(q, lambda x: ZERO if x.kind == "ld" else None, {}).t
    memo = {}
    return rewrite(v, f, memo)


def nochi(p):
    """where the cut-off is 1"""
    def f(a):
        if a.kind == "fn" and a.args[0] == "chi":
            return ONE if a.args[1][0] == ZERO else ZERO
    return rewrite(p, f, {})


def chiargs(p):
    bad = []
    for a in p.atoms():
        if a.kind == "fn" and a.args[0] == "chi" and (a.args[1][2:] != (L, EPS)):
            bad.append(a)
    return bad


def run(cx):
    m = cx.ir(wit(), noinline=[r"::d?\d*chiTrunc\(double, double, double\)"])
    fs = Fields(cx, m)

    def ident(rule, inst, e, detail):
        cx.check(zero(e), rule, inst, detail)
    for mv, txt in (("normalMvt", "squeezing"), ("tangMvt", "sliding")):
        for d, off in CELLS.items():
            lab = txt + " " + d
            three = d == "3D"
            V, G, raw = {}, {}, {}
            for c in off:
                raw[c] = fs.get("u%s_sing_%s%s" % (c, mv, d))
                for e in off:
                    raw[e + c] = fs.get("d%su%s_sing_%s%s" % (e, c, mv, d))
            raw["div"] = fs.get("DIVCART_%s%s" % (mv, d))
            raw["p"] = fs.get("p_sing_withT_%s%s" % (mv, d))
            X = {}
            for k in raw:
                cells(raw[k], X)
                cx.check(not chiargs(raw[k]), "cut-off arguments", "%s, %s" % (lab, k), "cut-off evaluated with other parameters than the given ones: %s" % chiargs(raw[k])[:2])
            cx.need(all(o in X for o in off.values()), "%s: a coordinate is never read" % lab)
            off_ = {k: offaxis(v) if three else tests(v, False) for k, v in raw.items()}
            for k, v in off_.items():
                bad = [a for a in v.atoms() if a.kind not in ("sym", "ld", "inv", "sqrt") and not (a.kind == "fn" and a.args[0] == "chi")]
                cx.check(not bad, "closed form", "%s, %s" % (lab, k), "not one formula away from the axis: %s" % bad[:2])
                if bad:
                    return
            for c in off:
                for e in off:
                    ident("gradient", "%s, d%su%s" % (lab, e, c), off_[e + c] - diff(off_[c], X[off[e]].as_atom()),
                          "the coded d%su%s is not the derivative of the coded u%s" % (e, c, c))
            s = ZERO
            for c in off:
                s = s + off_[c + c]
            ident("divergence", lab, s, "the coded gradient has a non-zero trace")
            ident("divergence", lab + ", coded divergence", off_["div"] - s, "the coded divergence is not the trace of the coded gradient")
            # ---- lubrication
            ax = "z" if three else "x"            # along the gap
            r2 = X[0] * X[0] + X[8] * X[8] if three else X[8] * X[8]
            walls = {"first": -(H * r2).scale(HALF), "second": A_ + (M * r2).scale(HALF)}
            if not (three and mv == "tangMvt"):
                for c in off:
                    if c == ax:
                        continue
                    q = diff(diff(off_[c], X[off[ax]].as_atom()), X[off[ax]].as_atom()) - diff(off_["p"], X[off[c]].as_atom())
                    ident("lubrication", "%s, %s" % (lab, c), nochi(q), "the pressure gradient does not balance the second derivative of the velocity across the gap")
                ident("lubrication", "%s, pressure across the gap" % lab, diff(off_["p"], X[off[ax]].as_atom()), "the pressure varies across the gap")
                for w, pos in walls.items():
                    for c in off:
                        v = nochi(at(off_[c], {off[ax]: pos}))
                        along = c == ax if mv == "normalMvt" else c != ax
                        want = U.scale(HALF if w == "second" else -HALF) if along else ZERO
                        ident("wall", "%s, u%s on the %s particle" % (lab, c, w), v - want, "not the rigid speed of the particle")
            # ---- axis
            if not three:
                for k, v in raw.items():
                    if tests(v, True) is not v and not (tests(v, True) - off_[k]).t == {}:
                        at0 = lambda p: rewrite(p, lambda x: ZERO if x is X[8].as_atom() else None, {})
                        ident("axis", "%s, %s" % (lab, k), at0(tests(v, True)) - at0(off_[k]), "value on the axis is not the limit of the values around it")
            if three:
                for k, v in raw.items():
                    if mv == "tangMvt" and k == "p":
                        continue
                    on = onaxis(v)
                    for a, b in ((0, 8), (8, 0)):
                        l = limit(off_[k], X[a], (b,))
                        cx.check(l is not None and zero(l[0] - on * l[1]), "axis", "%s, %s along %s" % (lab, k, "xy"[a // 8]), "value on the axis %s is not the limit of the values around it" % on.show()[:80])
    # p = 3D sliding is linear in cos(theta): nothing to add on the axis
