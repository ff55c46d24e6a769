"""P12 vector algebra and box sets"""
from cases import *
from canon import *
TITLE = "Vector and box algebra is exact component by component"
LEVEL = "proof"
TRUSTED = "clang 18 front end and -O2 IR; irdump; libm floor/ceil"
EXPLAIN = "Every operator of positions, vectors, velocities and forces and every box operation is instantiated in 2D and 3D, reduced to the function it computes and compared with the specification; comparisons are split into all orderings of the compared quantities."
MIN_OBLIGATIONS = 250
OPS = []       # (label, d, return type, parameters, statement, oracle)
AX = "xyz"


def T(k, d):
    return {"P": "geometry::position<double,%d>", "I": "geometry::position<int,%d>", "V": "geometry::vector<double,%d>", "U": "physics::velocity<%d>", "F": "physics::force<%d>",
            "A": "std::array<double,%d>", "B": "geometry::box<double,%d>", "J": "geometry::box<int,%d>"}[k] % d


NAMES = {"P": "position", "I": "index", "V": "vector", "U": "velocity", "F": "force", "A": "sizes", "s": "scalar", "i": "integer"}


def binop(kinds, sym, f, assign=True, plain=True, out=None):
    """(a sym b) and (a sym= b); kinds: two letters"""
    for d in (2, 3):
        a, b = kinds
        o = out or a
        if plain:
            OPS.append(("%s %s %s" % (NAMES[a], sym, NAMES[b]), d, o, kinds, "*o = a %s b;" % sym, f))
        if assign:
            OPS.append(("%s %s= %s" % (NAMES[a], sym, NAMES[b]), d, a, kinds, "*o = a; *o %s= b;" % sym, f))


add, sub, mul, quo = (lambda x, y: x + y), (lambda x, y: x - y), (lambda x, y: x * y), (lambda x, y: div(x, y))
binop("PP", "+", add)
binop("PP", "-", sub)
binop("PU", "+", add)
binop("Ps", "+", add)
binop("Ps", "-", sub)
binop("PA", "/", quo)
binop("Ps", "/", quo)
binop("PP", "*", mul, plain=False)
binop("PA", "*", mul, plain=False)
binop("IA", "*", mul, assign=False, out="P")
binop("IP", "*", mul, assign=False, out="P")
binop("II", "-", sub, assign=False, out="P")
binop("II", "+", add)
binop("II", "-", sub, plain=False)
binop("II", "*", mul, plain=False)
binop("VV", "+", add)
binop("Vs", "*", mul)
binop("sV", "*", mul, assign=False, out="V")
binop("Vs", "/", quo)
binop("Vi", "/", quo, assign=False)
binop("VV", "-", sub, plain=False)
binop("VV", "*", mul, plain=False)
binop("VU", "+", add, plain=False)
binop("VU", "-", sub, assign=False)
binop("UV", "-", sub, assign=False, out="V")
binop("UU", "+", add)
binop("FF", "+", add)
binop("FF", "-", sub)
binop("Fs", "+", add)
binop("Fs", "*", mul)
binop("sF", "+", add, assign=False, out="F")
binop("sF", "*", mul, assign=False, out="F")


def params(kinds, d):
    r = []
    for k, n in zip(kinds, "ab"):
        r.append("double %s" % n if k == "s" else "int %s" % n if k == "i" else "%s const &%s" % (T(k, d), n))
    return ", ".join(r)


def wit():
    s = "#include <cafes.hpp>\nusing namespace cafes;\n"
    for n, (lab, d, o, ks, st, f) in enumerate(OPS):
        s += 'extern "C" void w_o%d(%s *__restrict o, %s){ %s }\n' % (n, T(o, d), params(ks, d), st)
    for d in (2, 3):
        P, V, U, I, B, J, F = (T(k, d) for k in "PVUIBJF")
        s += '''extern "C" void w_neg%(d)d(%(V)s *__restrict o, %(V)s const &a){ *o = -a; }
extern "C" void w_floor%(d)d(%(I)s *__restrict o, %(P)s const &a){ *o = geometry::floor(a); }
extern "C" void w_ceil%(d)d(%(I)s *__restrict o, %(P)s const &a){ *o = geometry::ceil(a); }
extern "C" void w_pi%(d)d(%(P)s *__restrict o, %(I)s const &a){ *o = %(P)s(a); }
extern "C" void w_vp%(d)d(%(V)s *__restrict o, %(P)s const &a){ *o = %(V)s(a); }
extern "C" void w_vu%(d)d(%(V)s *__restrict o, %(U)s const &a){ *o = %(V)s(a); }
extern "C" void w_fill%(d)d(%(F)s *__restrict o, double x){ o->fill(x); }
extern "C" int w_inter%(d)d(%(B)s const&a, %(B)s const&b){ return geometry::intersect(a,b); }
extern "C" int w_interi%(d)d(%(J)s const&a, %(J)s const&b){ return geometry::intersect(a,b); }
extern "C" int w_chk%(d)d(%(B)s const&a, %(B)s const&b){ return geometry::check_box_inside(a,b); }
extern "C" void w_ov%(d)d(%(B)s *__restrict o, %(B)s const&a, %(B)s const&b){ *o = geometry::overlap_box(a,b); }
extern "C" void w_ovi%(d)d(%(J)s *__restrict o, %(J)s const&a, %(J)s const&b){ *o = geometry::overlap_box(a,b); }
extern "C" void w_un%(d)d(%(B)s *__restrict o, %(B)s const&a, %(B)s const&b){ *o = geometry::union_box(a,b); }
extern "C" void w_in%(d)d(%(B)s *__restrict o, %(B)s const&a, %(B)s const&b){ *o = geometry::box_inside(a,b); }
extern "C" int w_pt%(d)d(%(B)s const&a, %(P)s const &p){ return geometry::point_inside(a,p); }
extern "C" int w_pti%(d)d(%(J)s const&a, %(I)s const &p){ return geometry::point_inside(a,p); }
extern "C" double w_len%(d)d(%(B)s const&a){ return a.length(); }
extern "C" double w_leni%(d)d(%(B)s const&a, std::size_t i){ return a.length(i); }
''' % dict(d=d, P=P, V=V, U=U, I=I, B=B, J=J, F=F)
    V2, V3, P2 = T("V", 2), T("V", 3), T("P", 2)
    s += '''extern "C" double w_c1(%(V2)s const&a, %(V2)s const&b){ return geometry::cross_product(a,b); }
extern "C" double w_c2(%(P2)s const&a, %(V2)s const&b){ return geometry::cross_product(a,b); }
extern "C" void w_c3(%(V2)s *__restrict o, double z, %(V2)s const&a){ *o = geometry::cross_product(z,a); }
extern "C" void w_c4(%(V2)s *__restrict o, %(V2)s const&a, double z){ *o = geometry::cross_product(a,z); }
extern "C" void w_c5(%(V2)s *__restrict o, %(V1)s const&z, %(V2)s const&a){ *o = geometry::cross_product(z,a); }
extern "C" void w_c6(%(V2)s *__restrict o, %(V2)s const&a, %(V1)s const&z){ *o = geometry::cross_product(a,z); }
extern "C" void w_c7(%(V3)s *__restrict o, %(V3)s const&a, %(V3)s const&b){ *o = geometry::cross_product(a,b); }
''' % dict(V1=T("V", 1), V2=V2, V3=V3, P2=P2)
    return s


def arg(F, k, i, kind):
    if kind in "si":
        return Poly.of(F.argatoms[k])
    sz = 4 if kind in "IJ" else 8
    return Poly.of(atom("ld", F.argatoms[k], num(sz * i)))


def ret(F):
    return Canon().val(F.rets[0][1]) if not isinstance(F.rets[0][1], BDD) else ite(Canon().bdd(F.rets[0][1]), ONE, ZERO)


def cmp(cx, rule, inst, got, want, isint=False, facts=()):
    r = same(got, want, isint, facts=facts)
    cx.check(r is None, rule, inst, r)


def conj(bs):
    r = TRUE
    for b in bs:
        r = band(r, b)
    return ite(r, ONE, ZERO)


def run(cx):
    m = cx.ir(wit())
    for n, (lab, d, o, ks, st, f) in enumerate(OPS):
        F = Fn(m, "w_o%d" % n)
        lab = "%s, %dD" % (lab, d)
        cx.saw(lab)
        quiet(cx, F, lab)
        for i in range(d):
            cmp(cx, "component", "%s, %s" % (lab, AX[i]), outval(F, 0, 4 * i, 4, "i32") if o in "IJ" else outval(F, 0, 8 * i), f(arg(F, 1, i, ks[0]), arg(F, 2, i, ks[1])))
    for d in (2, 3):
        unary(cx, m, d)
        boxes(cx, m, d)
    cross(cx, m)


def unary(cx, m, d):
    for nm, lab, ki, so, f in (("neg", "-vector", "V", 8, lambda x: -x), ("floor", "floor", "P", 4, lambda x: fn("floor", x)), ("ceil", "ceil", "P", 4, lambda x: fn("ceil", x)),
                               ("pi", "position from index", "I", 8, lambda x: x), ("vp", "vector from position", "P", 8, lambda x: x), ("vu", "vector from velocity", "U", 8, lambda x: x),
                               ("fill", "force fill", "s", 8, lambda x: x)):
        F = Fn(m, "w_%s%d" % (nm, d))
        lab = "%s, %dD" % (lab, d)
        cx.saw(lab)
        quiet(cx, F, lab)
        for i in range(d):
            v = outval(F, 0, so * i, so, "double" if so == 8 else "i32")
            cmp(cx, "component", "%s, %s" % (lab, AX[i]), v, f(arg(F, 1, i, ki)))


def boxes(cx, m, d):
    for nm, lab, k in (("inter", "intersect", "B"), ("interi", "intersect (indices)", "J"), ("chk", "check_box_inside", "B")):
        F = Fn(m, "w_%s%d" % (nm, d))
        isint = k == "J"
        a = [arg(F, 0, i, k) for i in range(2 * d)]
        b = [arg(F, 1, i, k) for i in range(2 * d)]
        w = conj([bnot(cmp_lt(b[d + i], a[i], isint)) for i in range(d)] + [bnot(cmp_lt(a[d + i], b[i], isint)) for i in range(d)])
        lab = "%s, %dD" % (lab, d)
        cx.saw(lab)
        quiet(cx, F, lab, ())
        cmp(cx, "boxes meet", lab, ret(F), w, isint, facts=ordered(a, b, isint=isint))
    for nm, lab, k, lo, hi in (("ov", "overlap_box", "B", mx, mn), ("ovi", "overlap_box (indices)", "J", mx, mn), ("un", "union_box", "B", mn, mx), ("in", "box_inside", "B", mx, mn)):
        F = Fn(m, "w_%s%d" % (nm, d))
        lab = "%s, %dD" % (lab, d)
        cx.saw(lab)
        quiet(cx, F, lab)
        sz = 4 if k == "J" else 8
        for i in range(d):
            for j, g, w in ((i, lo, "lower"), (d + i, hi, "upper")):
                v = outval(F, 0, sz * j, sz, "double" if sz == 8 else "i32")
                cmp(cx, "corner", "%s, %s %s" % (lab, w, AX[i]), v, g(arg(F, 1, j, k), arg(F, 2, j, k)), k == "J")
    for nm, lab, k in (("pt", "point_inside", "B"), ("pti", "point_inside (indices)", "J")):
        F = Fn(m, "w_%s%d" % (nm, d))
        isint = k == "J"
        lab = "%s, %dD" % (lab, d)
        cx.saw(lab)
        quiet(cx, F, lab, ())
        p = [arg(F, 1, i, "I" if isint else "P") for i in range(d)]
        w = conj([bnot(cmp_lt(p[i], arg(F, 0, i, k), isint)) for i in range(d)] + [cmp_lt(p[i], arg(F, 0, d + i, k), isint) for i in range(d)])
        cmp(cx, "point in box", lab, ret(F), w, isint)
    F = Fn(m, "w_len%d" % d)
    w = ONE
    for i in range(d):
        w = w * fnorm("fabs", [arg(F, 0, d + i, "B") - arg(F, 0, i, "B")])
    cx.saw("box::length, %dD" % d)
    got = ret(F)
    cx.check(measure(got, w), "measure", "length, %dD" % d, "%s, required %s" % (got, w))
    F = Fn(m, "w_leni%d" % d)
    A, i = F.argatoms[0], Poly.of(F.argatoms[1])
    w = fnorm("fabs", [Poly.of(atom("ld", A, num(8 * d) + i.scale(8))) - Poly.of(atom("ld", A, i.scale(8)))])
    got = ret(F)
    cx.check(equal(got, w), "measure", "length along an axis, %dD" % d, "%s, required %s" % (got, w))


def measure(a, b):
    """equality of products of absolute values (equal squares, both nonnegative)"""
    def square(p):
        if len(p.t) != 1:
            return None
        (m, c), = p.t.items()
        if c < 0:
            return None
        r = num(c * c)
        for x, e in m:
            x = aget(x)
            if x.kind != "fn" or x.args[0] != "fabs":
                return None
            r = r * x.args[1][0].pow(2 * e)
        return r
    x, y = square(a), square(b)
    return x is not None and y is not None and equal(x, y)


def cross(cx, m):
    a2 = lambda F, k: [arg(F, k, i, "V") for i in range(2)]
    for nm, lab in (("c1", "vector x vector"), ("c2", "position x vector")):
        F = Fn(m, "w_" + nm)
        x, y = a2(F, 0), a2(F, 1)
        cx.saw("cross_product " + lab)
        cmp(cx, "cross product", "2D " + lab, ret(F), x[0] * y[1] - x[1] * y[0])
    for nm, lab, kz, kx in (("c3", "scalar x vector", "s", 1), ("c4", "vector x scalar", "s", -1), ("c5", "axial x vector", "V", 1), ("c6", "vector x axial", "V", -1)):
        F = Fn(m, "w_" + nm)
        iz, ix = (1, 2) if kx == 1 else (2, 1)
        z, x = arg(F, iz, 0, kz), a2(F, ix)
        w = [-z * x[1], z * x[0]]
        cx.saw("cross_product " + lab)
        for i in range(2):
            cmp(cx, "cross product", "2D %s, %s" % (lab, AX[i]), outval(F, 0, 8 * i), w[i].scale(kx))
        quiet(cx, F, "2D " + lab)
    F = Fn(m, "w_c7")
    x, y = ([arg(F, k, i, "V") for i in range(3)] for k in (1, 2))
    cx.saw("cross_product 3D")
    for i in range(3):
        j, k = (i + 1) % 3, (i + 2) % 3
        cmp(cx, "cross product", "3D " + AX[i], outval(F, 0, 8 * i), x[j] * y[k] - x[k] * y[j])
    quiet(cx, F, "3D")
