"""P15 the cut-off"""
from cases import *
from canon import *
from calculus import diff, zero
import re
TITLE = "The contact cut-off is a smooth step and its coded derivatives are exact"
LEVEL = "proof"
TRUSTED = "clang 18 front end and -O2 IR; irdump"
EXPLAIN = "The five cut-off functions and five polynomials are reduced to piecewise rational functions; each is compared on each piece (below, in, above the transition and on its ends) with the successive derivatives, formed from the definition, of the step with derivative proportional to (1-s^2)^4."
MIN_OBLIGATIONS = 25
X, L, E = sym("arg0"), sym("arg1"), sym("arg2")


def wit():
    s = "#include <cafes.hpp>\nusing namespace cafes::singularity;\n"
    for k in range(5):
        p = "" if not k else "d" if k == 1 else "d%d" % k
        s += 'extern "C" double w_chi%d(double x, double l, double e){ return %schiTrunc(x,l,e);}\nextern "C" double w_alpha%d(double x){ return %salphaTrunc(x);}\n' % (k, p, k, p)
    return s


def alpha():
    """coefficients of the k-th derivatives of 315/128 * integral of (1-s^2)^4"""
    c = [Fraction(0)] * 10
    for j, b in enumerate((1, -4, 6, -4, 1)):
        c[2 * j + 1] = Fraction(315 * b, 128 * (2 * j + 1))
    r = [c]
    for k in range(4):
        c = [i * x for i, x in enumerate(c)][1:]
        r.append(c)
    return r


def ev(c, s):
    r = ZERO
    for x in reversed(c):
        r = r * s + num(x)
    return r


def run(cx):
    m = cx.ir(wit())
    al = alpha()
    cn = Canon()
    s = div(X * X - L, E)
    below, above = cmp_lt(X * X, L - E), bnot(cmp_lt(X * X, L + E))
    facts = [bor(cmp_lt(L - E, X * X), cmp_lt(X * X, L + E))]     # positive width
    for k in range(5):
        name = "cut-off" + (", derivative %d" % k if k else "")
        for kind in ("alpha", "chi"):
            F = Fn(m, "w_%s%d" % (kind, k))
            lab = name if kind == "chi" else "transition" + (", derivative %d" % k if k else "")
            cx.saw(lab)
            quiet(cx, F, lab)
            got = cn.val(F.rets[0][1])
            if kind == "alpha":
                cx.check(zero(got - ev(al[k], X)), "value", lab, "%s, required %s" % (got, ev(al[k], X)))
                continue
            mid = (ONE - ev(al[0], s)).scale(Fraction(1, 2)) if not k else div(ev(al[k], s), E.pow(k)).scale(-Fraction(1, 2))
            want = ite(below, num(0 if k else 1), ite(above, ZERO, mid))
            r = same(got, want, facts=facts)
            cx.check(r is None, "value", lab, r)
            d = {num(-1): "start", ONE: "end"}
            for e, t in d.items():
                v = ev(al[k], e)
                cx.check(v == (e if not k else ZERO), "smooth", "%s at the %s of the transition" % (lab, t), "jump: %s" % v)
