"""P13 rotations and shapes"""
from cases import *
from canon import *
import itertools
TITLE = "Rotations and super-ellipsoids describe one and the same rigid shape"
LEVEL = "proof"
TRUSTED = "clang 18 front end and -O2 IR; irdump; libm; witness/smallvec.h (fixed-capacity std::vector of points)"
EXPLAIN = "Quaternion construction, conjugation and application, and the parametric points, radial vectors, implicit function, inside test, bounding boxes, areas, volumes and drag factors of 2D and 3D super-ellipsoids, circles and spheres are reduced to closed forms for every rotation (no rotation and every pattern of non-zero quaternion components) and compared, modulo the unit norm, with an independently written rotation; bounding boxes are compared with the extreme corners over all orderings."
MIN_OBLIGATIONS = 120
AX = "xyz"

WIT = r'''
#include <cafes.hpp>
using namespace cafes;
using Q = geometry::quaternion;
using P2 = geometry::position<double,2>; using P3 = geometry::position<double,3>;
using A2 = std::array<double,2>; using A3 = std::array<double,3>;
using S2 = geometry::super_ellipsoid<double,2>; using S3 = geometry::super_ellipsoid<double,3>;
extern "C" void w_q(Q *__restrict o, double a, double x, double y, double z){ *o = Q(a, {x,y,z}); }
extern "C" void w_q1(Q *__restrict o, double a){ *o = Q(a); }
extern "C" void w_conj(Q *__restrict o, Q const &a){ *o = a.conj(); }
extern "C" void w_rot2(P2 *__restrict o, Q const &a, P2 const &p){ *o = a.rotate(p); }
extern "C" void w_rot3(P3 *__restrict o, Q const &a, P3 const &p){ *o = a.rotate(p); }
extern "C" void w_at2(P2 *__restrict o, Q const &q, P2 const &c, A2 const &s, double n, double u){ *o = S2(c,s,n,q).at(u); }
extern "C" void w_rad2(P2 *__restrict o, Q const &q, P2 const &c, A2 const &s, double n, double u){ *o = S2(c,s,n,q).radial(u); }
extern "C" double w_imp2(Q const &q, P2 const &c, A2 const &s, double n, P2 const &p){ return S2(c,s,n,q).implicit(p); }
extern "C" int w_con2(Q const &q, P2 const &c, A2 const &s, double n, P2 const &p){ return S2(c,s,n,q).contains(p); }
extern "C" void w_at3(P3 *__restrict o, Q const &q, P3 const &c, A3 const &s, double n, double e, double u, double v){ *o = S3(c,s,n,e,q).at(u,v); }
extern "C" void w_rad3(P3 *__restrict o, Q const &q, P3 const &c, A3 const &s, double n, double e, double u, double v){ *o = S3(c,s,n,e,q).radial(u,v); }
extern "C" double w_imp3(Q const &q, P3 const &c, A3 const &s, double n, double e, P3 const &p){ return S3(c,s,n,e,q).implicit(p); }
extern "C" int w_con3(Q const &q, P3 const &c, A3 const &s, double n, double e, P3 const &p){ return S3(c,s,n,e,q).contains(p); }
extern "C" void w_mk2(P2 *__restrict o, Q const &q, P2 const &c, A2 const &s, double n, double u){ *o = make_ellipsoid<2>(c,s,n,q).at(u); }
extern "C" void w_mk3(P3 *__restrict o, Q const &q, P3 const &c, A3 const &s, double n, double e, double u, double v){ *o = make_ellipsoid<3>(c,s,n,e,q).at(u,v); }
extern "C" double w_circle(Q const &q, P2 const &c, double r, P2 const &p){ return make_circle(c,r,q).implicit(p); }
extern "C" double w_sphere(Q const &q, P3 const &c, double r, P3 const &p){ return make_sphere(c,r,q).implicit(p); }
#define M(n) \
extern "C" double w_circle_##n(P2 const &c, double r){ return make_circle(c,r).n(); } \
extern "C" double w_sphere_##n(P3 const &c, double r){ return make_sphere(c,r).n(); }
M(surface_area) M(volume) M(Cd_R) M(Ci_R)
'''

BOX = r'''
#include "%s/witness/smallvec.h"
#include <particle/geometry/super_ellipsoid.hpp>
using namespace cafes;
using Q = geometry::quaternion;
using P2 = geometry::position<double,2>; using P3 = geometry::position<double,3>;
using A2 = std::array<double,2>; using A3 = std::array<double,3>;
using S2 = geometry::super_ellipsoid<double,2>; using S3 = geometry::super_ellipsoid<double,3>;
extern "C" void w_pts2(P2 *__restrict o, geometry::box<double,2> const &b){ auto v = b.get_box_points(); for(int i=0;i<4;++i) o[i] = v[i]; }
extern "C" void w_pts3(P3 *__restrict o, geometry::box<double,3> const &b){ auto v = b.get_box_points(); for(int i=0;i<8;++i) o[i] = v[i]; }
extern "C" int w_ptn2(geometry::box<double,2> const &b){ return b.get_box_points().size(); }
extern "C" int w_ptn3(geometry::box<double,3> const &b){ return b.get_box_points().size(); }
extern "C" void w_bb2(geometry::box<double,2> *__restrict o, Q const &q, P2 const &c, A2 const &s, double n){ *o = S2(c,s,n,q).bounding_box(); }
extern "C" void w_bb3(geometry::box<double,3> *__restrict o, Q const &q, P3 const &c, A3 const &s, double n){ *o = S3(c,s,n,n,q).bounding_box(); }
extern "C" void w_bbh2(geometry::box<int,2> *__restrict o, Q const &q, P2 const &c, A2 const &s, double n, A2 const &h){ *o = S2(c,s,n,q).bounding_box(h); }
extern "C" void w_bbh3(geometry::box<int,3> *__restrict o, Q const &q, P3 const &c, A3 const &s, double n, A3 const &h){ *o = S3(c,s,n,n,q).bounding_box(h); }
'''


def ldv(F, k, i, sz=8):
    return Poly.of(atom("ld", F.argatoms[k], num(sz * i)))


# ------------------------------------------------------------ quaternions
def qmul(a, b):
    x, y, z, w = a
    p, q, r, s = b
    return [w * p + x * s + y * r - z * q, w * q - x * r + y * s + z * p, w * r + x * q - y * p + z * s, w * s - x * p - y * q - z * r]


def rotated(q, v):
    """q v q^-1 for a unit quaternion (x, y, z, w)"""
    c = [-q[0], -q[1], -q[2], q[3]]
    return qmul(qmul(q, list(v) + [ZERO]), c)[:3]


def unit_mod(q, live):
    """reducer modulo sum of squares = 1: eliminates the square of the last non-zero component"""
    k = max(live)
    piv = q[k].as_atom()
    rest = ONE
    for i in live:
        if i != k:
            rest = rest - q[i] * q[i]

    def red(p):
        out = ZERO
        for m, c in p.t.items():
            d = dict(m)
            e = d.pop(piv.id, 0)
            b = Poly({tuple(sorted(d.items())): c})
            if e >= 2:
                b = b * rest.pow(e // 2)
                e = e % 2
            if e:
                b = b * Poly.of(piv, e)
            out = out + b
        return out

    def at(a):
        if a.kind == "fn":
            return fnorm(a.args[0], [go(x) for x in a.args[1]])
        if a.kind == "inv":
            return inv(go(a.args[0]))
        if a.kind == "sqrt":
            return sqrt(go(a.args[0]))
        if a.kind == "ite":
            return ite(rewrite_bdd(a.args[0], at, {}), go(a.args[1]), go(a.args[2]))
        return None

    def go(p):
        return red(rewrite(p, at))
    return go


def patterns(q, axes):
    """[(description, function specialising a value to that pattern of non-zero components, reducer)]"""
    out = []
    for live in [()] + [l for n in range(1, 5) for l in itertools.combinations(axes, n)]:
        zero = {q[i].as_atom().id: ZERO for i in range(4) if i not in live}

        def spec(v, zero=zero, live=live):
            memo = {}

            def settle(c):
                for x in support(c):
                    k = varkey(x)
                    if k[0] == "eq" and any(k[1] == q[i] for i in live):
                        c = cofactor(c, x, 0)
                return c

            def f(a):
                if a.id in zero:
                    return ZERO
                if a.kind == "ite":
                    c = settle(rewrite_bdd(a.args[0], f, memo))
                    if c is TRUE or c is FALSE:
                        return rewrite(a.args[1 if c is TRUE else 2], f, memo)
                    return ite(c, rewrite(a.args[1], f, memo), rewrite(a.args[2], f, memo))
                return None
            return settle(rewrite_bdd(v, f, memo)) if isinstance(v, BDD) else rewrite(v, f, memo)
        nm = "no rotation" if not live else "quaternion components " + ",".join("xyzw"[i] for i in live)
        out.append((nm, spec, unit_mod(q, live) if live else (lambda p: p), live))
    return out


def turn(q, live, v):
    if not live:
        return list(v)
    z = [q[i] if i in live else ZERO for i in range(4)]
    return rotated(z, list(v) + [ZERO] * (3 - len(v)))[:len(v)]


def conj(q):
    return [-q[0], -q[1], -q[2], q[3]]


def run(cx):
    m = cx.ir(WIT)
    quat(cx, m)
    for d in (2, 3):
        shape(cx, m, d)
        measures(cx, m, d)
    from harness import VERIF
    b = cx.ir(BOX % VERIF, name="box")
    for d in (2, 3):
        boxes(cx, b, d)


def quat(cx, m):
    cx.saw("quaternion(angle, axis)", "quaternion(angle)", "quaternion::conj", "quaternion::rotate 2D", "quaternion::rotate 3D")
    F = Fn(m, "w_q")
    A = [Poly.of(a) for a in F.argatoms]
    s, c = fnorm("sin", [A[1].scale(Fraction(1, 2))]), fnorm("cos", [A[1].scale(Fraction(1, 2))])
    # unit axis: ax^2+ay^2+az^2 = 1
    red0 = unit_mod([A[2], A[3], A[4], None], (0, 1, 2))
    for i in range(4):
        v = outval(F, 0, 8 * i)
        w = s * A[2 + i] if i < 3 else c
        d = unitroots(v, red0)
        cx.check(is_zero(trig_reduce(red0(trig_reduce(d - w)))), "unit rotation about the axis", "quaternion(angle, unit axis), %s" % "xyzw"[i], "%s\nrequired %s" % (d, w))
    quiet(cx, F, "quaternion(angle, axis)")
    # any axis: unit norm
    n = ZERO
    for i in range(4):
        v = outval(F, 0, 8 * i)
        n = n + v * v
    cx.check(is_zero(n - ONE), "unit norm", "quaternion(angle, any axis)", str(n))
    F = Fn(m, "w_q1")
    s, c = (fnorm(f, [Poly.of(F.argatoms[1]).scale(Fraction(1, 2))]) for f in ("sin", "cos"))
    for i, w in enumerate((ZERO, ZERO, s, c)):
        v = unitroots(outval(F, 0, 8 * i), lambda p: p)
        cx.check(is_zero(v - w), "unit rotation about the axis", "quaternion(angle), %s" % "xyzw"[i], "%s\nrequired %s" % (v, w))
    F = Fn(m, "w_conj")
    q = [ldv(F, 1, i) for i in range(4)]
    for i in range(4):
        v = outval(F, 0, 8 * i)
        cx.check(equal(v, conj(q)[i]), "inverse of a unit quaternion", "conj, %s" % "xyzw"[i], str(v))
    for d in (2, 3):
        F = Fn(m, "w_rot%d" % d)
        q = [ldv(F, 1, i) for i in range(4)]
        p = [ldv(F, 2, i) for i in range(d)]
        live = (2, 3) if d == 2 else (0, 1, 2, 3)
        quiet(cx, F, "rotate %dD" % d)
        red = unit_mod(q, live)
        zero = {q[i].as_atom().id: ZERO for i in range(4) if i not in live}
        for i, w in enumerate(turn(q, live, p)):
            v = rewrite(outval(F, 0, 8 * i), lambda a: zero.get(a.id))
            cx.check(is_zero(red(v - w)), "rigid rotation", "rotate %dD, %s" % (d, AX[i]), "%s\nrequired (unit norm) %s" % (v, w))


def unitroots(p, red):
    """square roots and inverses of quantities equal to 1"""
    def f(a):
        if a.kind in ("sqrt", "inv"):
            x = trig_reduce(red(trig_reduce(unitroots(a.args[0], red))))
            return (sqrt if a.kind == "sqrt" else inv)(x)
        return None
    return rewrite(p, f)


# ------------------------------------------------------------ shapes
def powsign(x, n):
    """sign(x) |x|^n"""
    return fnorm("copysign", [fnorm("pow", [fnorm("fabs", [x]), n]), x])


def piece(got, want, red):
    """equality of piecewise functions (signs of cosines and sines) modulo the norm"""
    return same(red(got), red(want))


def shape(cx, m, d):
    names = ["at", "radial", "implicit", "contains", "make_ellipsoid"]
    cx.saw(*["super_ellipsoid<%d>::%s" % (d, n) for n in names])
    axes = (2, 3) if d == 2 else (0, 1, 2, 3)
    for nm, lab in (("at", "at"), ("rad", "radial"), ("mk", "make_ellipsoid")):
        F = Fn(m, "w_%s%d" % (nm, d))
        q, c, s = [ldv(F, 1, i) for i in range(4)], [ldv(F, 2, i) for i in range(d)], [ldv(F, 3, i) for i in range(d)]
        A = [Poly.of(a) for a in F.argatoms]
        ex = [num(2) * inv(A[4])]
        if d == 2:
            u = A[5]
            loc = [s[0] * powsign(fnorm("cos", [u]), ex[0]), s[1] * powsign(fnorm("sin", [u]), ex[0])]
        else:
            n, e, u, v = ex[0], num(2) * inv(A[5]), A[6], A[7]
            cv, sv, cu, su = (powsign(fnorm(f, [x]), k) for f, x, k in (("cos", v, n), ("sin", v, n), ("cos", u, e), ("sin", u, e)))
            loc = [s[0] * cv * cu, s[1] * cv * su, s[2] * sv]
        lab = "%s %dD" % (lab, d)
        quiet(cx, F, lab)
        outs = [outval(F, 0, 8 * i) for i in range(d)]
        for pn, spec, red, live in patterns(q, axes):
            w = turn(q, live, loc)
            for i in range(d):
                r = piece(spec(outs[i]), w[i] + (c[i] if nm != "rad" else ZERO), red)
                cx.check(r is None, "surface point", "%s, %s, %s" % (lab, pn, AX[i]), r)
    for nm in ("imp", "con"):
        F = Fn(m, "w_%s%d" % (nm, d))
        implicit(cx, F, nm, "%s %dD" % ("implicit" if nm == "imp" else "contains", d), d, axes,
                 lambda A, F=F: [ldv(F, 2, i) for i in range(d)], lambda A: [A[3]] + ([A[4]] if d == 3 else []), 4 if d == 2 else 5)
    F = Fn(m, "w_circle" if d == 2 else "w_sphere")
    cx.saw("make_circle" if d == 2 else "make_sphere")
    implicit(cx, F, "imp", "make_circle" if d == 2 else "make_sphere", d, axes, lambda A: [A[2]] * d, lambda A: [num(2)] * (d - 1), 3)


def implicit(cx, F, nm, lab, d, axes, sf, ef, kp):
    A = [Poly.of(a) for a in F.argatoms]
    q, c, p = [ldv(F, 0, i) for i in range(4)], [ldv(F, 1, i) for i in range(d)], [ldv(F, kp, i) for i in range(d)]
    s, ex = sf(A), ef(A)
    got = Canon().val(F.rets[0][1])
    if isinstance(got, BDD):
        got = ite(got, ONE, ZERO)
    quiet(cx, F, lab, ())
    P = lambda x, n: fnorm("pow", [fnorm("fabs", [x]), n]) if n.as_int() != 2 else x * x
    for pn, spec, red, live in patterns(q, axes):
        y = turn(conj(q), live, [p[i] - c[i] for i in range(d)])
        y = [red(x) for x in y]
        z = [red(y[i] * inv(s[i])) for i in range(d)]
        if d == 2:
            w = P(z[0], ex[0]) + P(z[1], ex[0])
        else:
            n, e = ex
            w = (fnorm("pow", [P(z[0], e) + P(z[1], e), n * inv(e)]) if n != e else P(z[0], e) + P(z[1], e)) + P(z[2], n)
        g = spec(got)
        if nm == "con":
            w = ite(cmp_lt(w, ONE), ONE, ZERO)
        r = piece(g, w, red)
        cx.check(r is None, "implicit equation" if nm == "imp" else "inside test", "%s, %s" % (lab, pn), r)


PI = Fraction(314159265358979323846, 10**20)


def measures(cx, m, d):
    sh = "circle" if d == 2 else "sphere"
    W = {"surface_area": (2 * PI, 1) if d == 2 else (4 * PI, 2), "volume": (PI, 2) if d == 2 else (Fraction(4, 3) * PI, 3),
         "Cd_R": (1 if d == 2 else Fraction(3, 2), -2), "Ci_R": (2 if d == 2 else Fraction(5, 2), -2)}
    for n, (k, e) in W.items():
        F = Fn(m, "w_%s_%s" % (sh, n))
        cx.saw("%s::%s" % (sh, n))
        r = Canon().val(F.rets[0][1]) * Poly.of(F.argatoms[1], -e)
        c = r.as_const() if isinstance(r, Poly) else None
        cx.check(c is not None and abs(c - k) < Fraction(1, 10**12), "measure", "%s::%s" % (sh, n), "%s, required %.15g r^%d" % (F.rets[0][1], k, e))


# ------------------------------------------------------------ bounding boxes
def boxes(cx, m, d):
    F = Fn(m, "w_ptn%d" % d)
    cx.saw("box::get_box_points %dD" % d, "bounding_box %dD" % d, "bounding_box(h) %dD" % d)
    cx.check(F.rets[0][1] == num(2 ** d), "corners", "get_box_points %dD, number" % d, str(F.rets[0][1]))
    F = Fn(m, "w_pts%d" % d)
    for k in range(2 ** d):
        for a in range(d):
            v = outval(F, 0, 8 * (d * k + a))
            w = ldv(F, 1, a + d * ((k >> a) & 1))
            cx.check(equal(v, w), "corners", "get_box_points %dD, corner %d, %s" % (d, k, AX[a]), "%s, required %s" % (v, w))
    for h in (0, 1):
        F = Fn(m, "w_bb%s%d" % ("h" if h else "", d))
        q, c, s = [ldv(F, 1, i) for i in range(4)], [ldv(F, 2, i) for i in range(d)], [ldv(F, 3, i) for i in range(d)]
        lab = "bounding_box%s %dD" % ("(h)" if h else "", d)
        quiet(cx, F, lab)
        axes = (2, 3) if d == 2 else (0, 1, 2, 3)
        for pn, spec, red, live in patterns(q, axes):
            if len(live) not in (0, 1, len(axes)):
                continue
            for a in range(d):
                # columns of the rotation: contribution of each half-axis to coordinate a
                t = []
                for j in range(d):
                    e = [ZERO] * d
                    e[j] = s[j]
                    t.append(red(turn(q, live, e)[a]))
                for up in (0, 1):
                    inst = "%s, %s, %s %s" % (lab, pn, "upper" if up else "lower", AX[a])
                    sz = 4 if h else 8
                    v = spec(outval(F, 0, sz * (a + d * up), sz, "i32" if h else "double"))
                    if h:
                        v = unround(v, ldv(F, 5, a), up)
                        if isinstance(v, str):
                            cx.check(False, "index range covers", inst, v)
                            continue
                    r = extreme(v, c[a], t, s, up, red)
                    cx.check(r is None, "extent", inst, r)


def unround(v, h, up):
    """v = f(x/h + k): the real bound x, when the index range it gives covers every node in it"""
    def leaf(p):
        k = p.t.get((), Fraction(0))
        a = (p - num(k)).as_atom()
        if a is None or a.kind != "fn" or a.args[0] not in ("toint", "trunc", "floor", "ceil"):
            return "not a rounded bound: %s" % p
        x = a.args[1][0]
        off = Fraction(0)
        if x.as_atom() is None or x.as_atom().kind != "ite":
            off = x.t.get((), Fraction(0))
            x = x - num(off)
        f = a.args[0]
        if f in ("toint", "trunc") and k:
            return "rounded toward zero, then shifted by %s: %s" % (k, p)
        t = off + k
        ok = (t <= 0 if f != "floor" else t < 1) if not up else (t > 0 if f == "ceil" else t >= 1)
        if not ok:
            return "%s(x/h %+g) misses nodes" % (f, float(t))
        return x * h
    a = v.as_atom()
    if a is not None and a.kind == "ite":
        x, y = unround(a.args[1], h, up), unround(a.args[2], h, up)
        return x if isinstance(x, str) else y if isinstance(y, str) else ite(a.args[0], x, y)
    return leaf(v)


def extreme(v, c, t, s, up, red):
    """v == c +- sum |t_j| for every value of the t_j"""
    n = len(t)
    mono = [next(iter(x.t.items())) if x.t else None for x in t]

    def coords(p):
        """p as a combination of the t_j, or None"""
        p = red(p)
        k = []
        for x, mo in zip(t, mono):
            a = p.t.get(mo[0], Fraction(0)) / mo[1] if mo else Fraction(0)
            k.append(a)
            p = p - x.scale(a)
        return k if not p.t else None
    conds = {}
    for x in conds_in(v):
        k = varkey(x)
        co = coords(k[1]) if k[0] in ("lt", "eq") else None
        if co is None:
            return "depends on %s" % show_var(x)
        conds[x] = (k[0], co)
    leafs = {}
    def rng(x, half):
        if not x.t:
            return (0,)
        k = (x * inv(half)).as_const()          # plus or minus a half-axis, which is positive
        return range(-4, 5) if k is None else range(1, 5) if k > 0 else range(-4, 0)
    for pt in itertools.product(*[rng(x, half) for x, half in zip(t, s)]):
        tab = {}
        for x, (kind, co) in conds.items():
            z = sum(a * b for a, b in zip(co, pt))
            tab[x] = int(z < 0) if kind == "lt" else int(z == 0)
        val = pick(v, tab, c, coords, leafs)
        if isinstance(val, str):
            return val
        got = sum(a * b for a, b in zip(val, pt))
        w = sum(abs(b) for b in pt) * (1 if up else -1)
        if got != w:
            return "with half-axis contributions %s the bound is %s from the centre, required %s" % (pt, got, w)
    return None


def pick(v, tab, c, coords, leafs):
    out = ()
    lin = ZERO
    for m, k in v.t.items():
        a = atom_of(m)
        if a is not None and a.kind == "ite":
            b = a.args[0]
            while b.v is not None:
                b = b.hi if tab[b.v] else b.lo
            lin = lin + resolve(a.args[1] if b is TRUE else a.args[2], tab).scale(k)
        else:
            lin = lin + resolve(Poly({m: k}), tab)
    r = leafs.get(lin)
    if r is None:
        r = coords(lin - c)
        leafs[lin] = r = r if r is not None else "not a corner: %s" % lin
    return r


def resolve(p, tab):
    def f(a):
        if a.kind == "ite":
            b = a.args[0]
            while b.v is not None:
                b = b.hi if tab[b.v] else b.lo
            return resolve(a.args[1] if b is TRUE else a.args[2], tab)
        return None
    return rewrite(p, f)
