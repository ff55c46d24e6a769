"""P18 surface samples"""
from irx import *
from cases import *
from canon import Canon
from calculus import zero
import os, re
TITLE = "Surface samples lie on the shape and cover it by symmetry"
LEVEL = "proof"
TRUSTED = "clang 18 front end and -O2 IR; irdump; libm; witness/recvec.h (recording list)"
EXPLAIN = "The sampling templates are instantiated with a list whose insertions are recorded; each inserted point is compared as an exact expression with the parametrisation of the shape, the mirrored copies are enumerated symbolically over the whole list, and the later passes over the list are shown to visit every point once."
MIN_OBLIGATIONS = 60
AX = "xyz"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CN = Canon()
WIT = '#include "%s/witness/recvec.h"\nnamespace std{ CAFES_REC(double) }\n#include <cafes.hpp>\n#include <particle/geometry/linspace.hpp>\nusing namespace cafes;\n' % HERE + '''
using S2 = geometry::super_ellipsoid<double,2>; using S3 = geometry::super_ellipsoid<double,3>;
extern "C" void w_u2(std::array<double,2> const& r, double eps, double k, double tol){ geometry::uniform_sampling(r,eps,k,tol);}
extern "C" void w_u3(std::array<double,3> const& r, double eps, double k, double z, double phi, double tol){ geometry::uniform_sampling(r,eps,k,z,phi,tol);}
extern "C" void w_s2(S2 const& s, double k){ s.surface(k);}
extern "C" void w_s3(S3 & s, std::array<double,2> const& k){ s.surface(k);}
extern "C" void w_n2(void *o, geometry::position<double,2> const& c, std::array<double,2> const& r, double n, geometry::quaternion const& q){ new (o) S2(c,r,n,q);}
extern "C" void w_n3(void *o, geometry::position<double,3> const& c, std::array<double,3> const& r, double n, double e, geometry::quaternion const& q){ new (o) S3(c,r,n,e,q);}
extern "C" double w_t(double r1, double r2, double t, double e, double k, double tol){ return geometry::theta(r1,r2,t,e,k,tol);}
extern "C" void w_l(double a, double b, int n, bool e){ geometry::linspace(a,b,n,e);}
'''


def run(cx):
    m = cx.ir(WIT, name="inl")
    mo = cx.ir(WIT, name="out", noinline=[r"uniform_sampling", r"quaternion::rotate", r"is_rotate"])
    for d in (2, 3):
        sampling(cx, m, d)
    lay2, lay3 = layout(cx, m, 2), layout(cx, m, 3)
    surface2(cx, mo, lay2)
    surface3(cx, mo, lay3)
    spacing(cx, m)
    line(cx, m)


def calls(F, pat):
    return [e for e in F.effects if e.kind == "call" and re.search(pat, e.name)]


def clean(cx, F, lab, allow):
    bad = [e for e in F.effects if not (e.kind == "store" and (e.root.kind == "alloca" or allow(e)))
           and not (e.kind == "call" and re.search(r"3rec.*(4push|3cut|6append)E|^llvm\\.mem|uniform_sampling|quaternion|^_Zd", e.name)) and not (e.kind == "call" and e.name.startswith("llvm.mem"))]
    cx.check(not bad, "no side effect", lab, "\n".join(map(str, bad[:3]))[:400])


def argv(F, k):
    return Poly.of(F.argatoms[k])


def arg(F, k, off):
    return Poly.of(atom("ld", F.argatoms[k], num(off)))


def ob(F, e, d, k=1):
    p = F.asptr(e.args[k])
    return [F.closed(F.asint(F.load(e.pre, Ptr(p.root, p.off + num(8 * a)), 8, "double"))) for a in range(d)]


def cosines(p):
    r = []
    for a in all_atoms(p).values():
        if a.kind == "fn" and a.args[0] in ("cos", "sin") and a.args[1][0] not in r:
            r.append(a.args[1][0])
    return r


def step(r1, r2, t, e, k):
    """the advance of the angle: spacing over the speed of the curve; near 0, the advance of the arc y = r2 sin^e"""
    c, s = fn("cos", t), fn("sin", t)
    sp = sqrt(r1.pow(2) * fn("pow", c, e.scale(2)) * s.pow(4) + r2.pow(2) * fn("pow", s, e.scale(2)) * c.pow(4))
    return div(k * c * s, e * sp)


def sampling(cx, m, d):
    F = Fn(m, "w_u%d" % d)
    lab = "curve, %dD" % d
    cx.saw(lab)
    clean(cx, F, lab, lambda e: False)
    r = [arg(F, 0, 8 * a) for a in range(2)]
    eps, k = argv(F, 1), argv(F, 2)
    phi, z = (ONE, None) if d == 2 else (argv(F, 4), argv(F, 3))
    tol = argv(F, 3 if d == 2 else 5)
    pushes = [e for e in calls(F, r"4pushE") if "position" in e.name]
    saves = [e for e in calls(F, r"4pushE") if "position" not in e.name]
    T = {F.asptr(e.args[0]).root for e in pushes}
    S = {F.asptr(e.args[0]).root for e in saves}
    if not cx.check(len(T) == 1 and len(S) == 1 and len(saves) == 1 and len(pushes) == 5, "curve", lab + ", lists", "%d insertions in %d lists" % (len(pushes) + len(saves), len(T) + len(S))):
        return
    T, S = T.pop(), S.pop()
    cx.check(all(CN.bdd(e.guard) is TRUE and len(e.loops) == 1 for e in pushes + saves), "curve", lab + ", every round inserts", "an insertion is conditional")
    if any(len(e.loops) != 1 for e in pushes):
        return
    on = lambda e, a: all(zero(CN.poly(x) - w) for x, w in zip(ob(F, e, d), pt(a)))
    swp = lambda e, a: all(zero(CN.poly(x) - w) for x, w in zip(ob(F, e, d), pt(a, True)))

    def pt(a, sw=False):
        f = ("sin", "cos") if sw else ("cos", "sin")
        return [r[i] * fn("pow", fn(f[i], a), eps) * phi for i in range(2)] + ([z] if d == 3 else [])
    base = [e for e in pushes if e.loops[0].count is None]
    if not cx.check(len(base) == 1, "curve", lab + ", direct samples", "%d open loops" % len(base)):
        return
    e = base[0]
    L = e.loops[0]
    an = [CN.poly(a) for a in cosines(ob(F, e, d)[0])]
    ok = len(an) == 1 and on(e, an[0])
    if not cx.check(ok, "on the shape", lab + ", direct samples", str(ob(F, e, d))[:300]):
        return
    a = an[0]
    o = [o for o in L.others.values() if CN.poly(Poly.of(o["atom"])) == a]
    if cx.check(len(o) == 1 and len(o[0]["latch"]) == 1, "curve", lab + ", angle", str(a)):
        o = o[0]
        cx.check(isinstance(o["init"], Poly) and not o["init"].t, "curve", lab + ", starts on the axis", str(o["init"]))
        nx = CN.poly(F.asint(F.latchval(o, o["latch"][0])))
        g = TRUE if d == 2 else bnot(cmp_eq(phi, ZERO))
        far = bnot(cmp_lt(a, tol))
        w = a + step(phi, phi, a, eps, k)
        rr = same(nx, w, facts=(g, far))
        cx.check(rr is None, "curve", lab + ", advance of the angle", str(rr)[:300])
        w = fn("pow", fn("fabs", div(k, phi) + fn("pow", a, eps)), div(ONE, eps))
        rr = same(nx, w, facts=(g, bnot(far), cmp_lt(ZERO, a)))
        cx.check(rr is None, "curve", lab + ", advance of a small angle", str(rr)[:300])
        w = a + fn("pow", fn("fabs", div(k, phi)), div(ONE, eps))
        rr = same(nx, w, facts=(g, bnot(far), bnot(cmp_lt(ZERO, a))))
        cx.check(rr is None, "curve", lab + ", advance from the axis", str(rr)[:300])
        q = num(Fraction(0.7853981633974483))
        out = CN.bdd(F.edge_cond(*L.exits[0])) if len(L.exits) == 1 else FALSE
        top = bnot(cmp_lt(a, q))
        rr = same(out, bnot(F.push_lt(nx, q, False)), facts=(g,))
        cx.check(rr is None or same(out, top) is None, "curve", lab + ", until the diagonal", str(rr)[:300])
        if d == 3:
            rr = same(out, TRUE, facts=(cmp_eq(phi, ZERO),))
            cx.check(rr is None or same(nx, q, facts=(cmp_eq(phi, ZERO),)) is None, "curve", lab + ", one sample at the pole", str(rr)[:300])
    cx.check(saves[0].loops == e.loops and CN.poly(ob(F, saves[0], 1)[0]) == a, "curve", lab + ", angles kept", str(saves[0]))
    # ---- the other half of the quadrant: the kept angles backwards, sine and cosine exchanged
    n = Poly.of(atom("ld", S, num(8)))
    rest = [x for x in pushes if x is not e]
    half = [x for x in rest if CN.poly(x.loops[0].count) == n]
    mir = [x for x in rest if x not in half]
    if not cx.check(len(half) == 1 and len(mir) == 3, "curve", lab + ", passes", "%d second half, %d mirrored" % (len(half), len(mir))):
        return
    h = half[0]
    t = Poly.of(F.domain(h)[0][0])
    sb = atom("ld", S, ZERO)
    back = Poly.of(atom("ld", sb, (n - ONE - t).scale(8)))
    cx.check(swp(h, back), "on the shape", lab + ", second half", str(ob(F, h, d))[:300])
    cx.check(e.order < h.order < min(x.order for x in mir), "curve", lab + ", order of the passes", "the halves are not complete before mirroring")
    # ---- mirrored copies
    size = set()
    seen = {}
    base_ = atom("ld", T, ZERO)
    for x in mir:
        t, c, g = F.domain(x)[0]
        v = [CN.poly(p) for p in ob(F, x, d)]
        sg, idx = [], []
        for i, p in enumerate(v):
            s = 1
            b = p.as_atom()
            if b is None:
                s, b = -1, (-p).as_atom()
            if b is None or b.kind != "ld" or b.args[0] is not base_:
                sg = None
                break
            sg.append(s)
            idx.append((b.args[1] - num(8 * i)).scale(Fraction(1, 8 * d)))
        if not cx.check(sg is not None and len(set(map(str, idx))) == 1, "on the shape", lab + ", mirrored samples", "not an earlier sample with signs: %s" % str(v)[:200]):
            return
        cx.check(d == 2 or sg[2] == 1, "on the shape", lab + ", mirrored samples, height", "the height changes sign")
        cx.check(tuple(sg[:2]) not in seen, "symmetry", "%s, signs %s" % (lab, sg[:2]), "twice")
        seen[tuple(sg[:2])] = (x, idx[0], Poly.of(t), c)
        size.add(c)
    if not cx.check(set(seen) == {(-1, 1), (-1, -1), (1, -1)}, "symmetry", lab + ", quadrants", str(sorted(seen))):
        return
    # every element but one of the two on the axes
    axis = {"E": 1, "N": 1, "W": 0, "S": 0}
    N = None
    for sg, (x, i, t, c) in seen.items():
        # the size of the list when mirroring starts, one and the same raw value
        nn = [p for p in all_atoms(c).values() if p.kind == "ld" and CN.poly(Poly.of(p)) == Poly.of(atom("ld", T, num(8)))]
        one = len(nn) == 1 and (N is None or N is nn[0])
        cx.check(one, "symmetry", "%s, signs %s, length" % (lab, list(sg)), "not the number of samples of the first quadrant")
        if not one:
            return
        N = nn[0]
        n_ = CN.poly(Poly.of(N))
        cc = CN.poly(c)
        ends = ("E" if sg[0] > 0 else "W", "N" if sg[1] > 0 else "S")
        lo, hi = i, i + cc - ONE - t - t        # range of an index running up / down
        first = None
        for f, l in ((ZERO, n_), (ONE, n_), (ZERO, n_ - ONE)):
            if cc == l - f and (i == f + t or i == l - ONE - t):
                first, last = f == ZERO, l == n_
        if not cx.check(first is not None, "symmetry", "%s, signs %s, samples" % (lab, list(sg)), "rounds %s, sample %s" % (cc, i)):
            return
        axis[ends[0]] += first
        axis[ends[1]] += last
    cut = calls(F, r"3cutE")
    for x in cut:
        p = F.asptr(x.args[1])
        cx.check(F.asptr(x.args[0]).root is T and CN.ptr(p) == Ptr(base_, ZERO) and CN.bdd(x.guard) is TRUE and not x.loops and x.order > max(y.order for y in mir), "symmetry", lab + ", duplicate removed", str(x))
        axis["E"] -= 1
    for q, v in sorted(axis.items()):
        cx.check(v == 1, "symmetry", "%s, sample on the %s axis once" % (lab, q), "%d times" % v)


def layout(cx, m, d):
    F = Fn(m, "w_n%d" % d)
    lab = "shape, %dD" % d
    cx.saw(lab)
    st = {}
    for o in range(0, 200, 8):
        try:
            st[o] = CN.poly(outval(F, 0, o))
        except Exception:
            break
    w = {}
    for a in range(d):
        w["c", a] = arg(F, 1, 8 * a)
        w["r", a] = arg(F, 2, 8 * a)
    w["n"] = div(num(2), argv(F, 3))
    if d == 3:
        w["e"] = div(num(2), argv(F, 4))
    w["q"] = arg(F, 4 if d == 2 else 5, 0)
    out = {}
    for k, p in w.items():
        o = [x for x, v in st.items() if v == p]
        cx.need(len(o) == 1, "layout of a shape not found: %s" % (k,))
        out[k] = o[0]
    return out


def passes(cx, F, d, lab, lay, V):
    """after the last insertion: each point rotated once if the shape is, then moved by the centre once"""
    n = Poly.of(atom("ld", V, num(8)))
    b = atom("ld", V, ZERO)
    self_ = F.argatoms[0]
    rot = calls(F, r"quaternion6rotateE")
    isr = calls(F, r"is_rotate")
    full = lambda e: len(e.loops) == 1 and e.loops[0].count is not None and same(CN.poly(e.loops[0].count), n, True, facts=(bnot(cmp_eq(n, ZERO)),)) is None
    ins = [e.order for e in F.effects if e.kind == "call" and re.search(r"4push|6append", e.name)] + [e.order for e in calls(F, r"uniform_sampling")]
    mv = [e for e in F.effects if e.kind == "store" and CN.ptr(Ptr(e.root, ZERO)).root is b]
    rst, add = [], {}
    for e in mv:
        v = CN.poly(F.asint(e.val))
        if not full(e):
            cx.check(False, "moved once", lab, "not over all points: %s" % e)
            continue
        t = Poly.of(F.domain(e)[0][0])
        hit = [a for a in range(d) if CN.poly(e.ofs) == t.scale(8 * d) + num(8 * a)]
        if not cx.check(len(hit) == 1, "moved once", lab, str(e)[:300]):
            continue
        a = hit[0]
        w = Poly.of(atom("ld", b, t.scale(8 * d) + num(8 * a))) + Poly.of(atom("ld", self_, num(lay["c", a])))
        c = Poly.of(atom("ld", self_, num(lay["c", a])))
        if zero(v - w) or turned(F, v, w, rot, isr, a, c):
            add.setdefault(a, []).append(e)
        else:
            rst.append((a, e))
    for a in range(d):
        x = add.get(a, [])
        ok = len(x) == 1 and CN.bdd(x[0].guard) in (TRUE, ) or len(x) == 1 and same(CN.bdd(x[0].guard), TRUE, True, facts=(bnot(cmp_eq(n, ZERO)),)) is None
        cx.check(ok and x[0].order > max(ins), "moved once", "%s, %s" % (lab, AX[a]), "the centre is added %d times" % len(x))
        if x:
            g = F.domain(x[0])[0][2]
            cx.check(same(CN.bdd(g), TRUE, True, facts=(bnot(cmp_eq(n, ZERO)),)) is None, "moved once", "%s, %s, always" % (lab, AX[a]), str(g)[:200])
    if not cx.check(len(rot) == 1 and len(isr) == 1 and full(rot[0]), "rotated once", lab, "%d rotations, %d tests" % (len(rot), len(isr))):
        return
    e = rot[0]
    g = CN.bdd(F.domain(e)[0][2])
    cx.check(same(g, CN.bdd(F.asbool(isr[0].ret)), True, facts=(bnot(cmp_eq(n, ZERO)),)) is None and same(CN.bdd(e.guard), TRUE, True) is None or same(band(g, CN.bdd(e.guard)), CN.bdd(F.asbool(isr[0].ret)), True, facts=(bnot(cmp_eq(n, ZERO)),)) is None,
             "rotated once", lab + ", when the shape is rotated", str(g)[:200])
    for x, k in ((e, 0 if d == 2 else 1), (isr[0], 0)):
        cx.check(F.asptr(x.args[k]) == Ptr(self_, num(lay["q"])), "rotated once", lab + ", rotation of the shape", str(x.args[k]))
    t = Poly.of(F.domain(e)[0][0])
    here = lambda a: Poly.of(atom("ld", b, t.scale(8 * d) + num(8 * a)))
    if d == 2:
        ok = all(CN.poly(F.asint(e.args[1 + a])) == here(a) for a in range(2))
        res = [(a, x) for a, x in rst if x.loops == e.loops]
        ok2 = sorted(a for a, _ in rst) == [0, 1] and len(res) == 2 and all(str(x.val) and extracts(F, x.val, e, a) for a, x in res)
    else:
        p = F.asptr(e.args[2])
        ok = CN.ptr(p) == Ptr(b, t.scale(24)) or all(CN.poly(F.asint(F.load(e.pre, Ptr(p.root, p.off + num(8 * a)), 8, "double"))) == here(a) for a in range(3))
        tmp = F.asptr(e.args[0])
        cp = [x for x in F.effects if x.kind == "call" and x.name.startswith("llvm.memcpy") and CN.ptr(F.asptr(x.args[0])).root is b]
        ok2 = len(cp) == 1 and not rst and cp[0].loops == e.loops and CN.ptr(F.asptr(cp[0].args[0])).off == t.scale(24) and F.asptr(cp[0].args[1]) == tmp and F.asint(cp[0].args[2]) == num(24)
        if not cp and len(rst) == 3:
            ok2 = sorted(a for a, _ in rst) == [0, 1, 2] and all(x.loops == e.loops and (lambda q: q is not None and q.kind == "ld" and q.args[0] is tmp.root and q.args[1] == tmp.off + num(8 * a))(CN.poly(F.asint(x.val)).as_atom()) for a, x in rst)
    cx.check(ok, "rotated once", lab + ", of the point", str(e.args)[:300])
    cx.check(ok2, "rotated once", lab + ", replaces the point", str([str(x) for _, x in rst])[:300])
    cx.check(all(e.order < x.order for l in add.values() for x in l) and e.order > max(ins), "rotated once", lab + ", about the centre", "after the point is moved, or before all are there")


def turned(F, v, w, rot, isr, a, c):
    """centre + (rotated ? rotation of the point : the point), in one pass"""
    if len(rot) != 1 or len(isr) != 1 or not isinstance(rot[0].ret, tuple) or rot[0].ret[0] != "agg0":
        return False
    x = Poly.of(atom("ev", rot[0].ret[1], (a,)))
    return same(v, ite(CN.bdd(F.asbool(isr[0].ret)), x + c, w), True) is None


def extracts(F, v, e, a):
    v = F.asint(v).as_atom()
    return v is not None and v.kind == "ev" and e.ret[0] == "agg0" and v.args[0] is e.ret[1] and tuple(v.args[1]) == (a,)


def surface2(cx, m, lay):
    F = Fn(m, "w_s2")
    lab = "surface, 2D"
    cx.saw(lab)
    us = calls(F, r"uniform_sampling")
    if not cx.check(len(us) == 1 and CN.bdd(us[0].guard) is TRUE and not us[0].loops, "surface", lab, "%d curves" % len(us)):
        return
    u = us[0]
    V = F.asptr(u.args[0]).root
    clean(cx, F, lab, lambda e: CN.ptr(Ptr(e.root, ZERO)).root is atom("ld", V, ZERO))
    self_ = F.argatoms[0]
    radii(cx, F, u, 2, lab, self_, lay, 2)
    sc = [F.asptr(x) for x in u.args[-3:]]
    ex, k = (CN.poly(F.asint(F.load(u.pre, p, 8, "double"))) for p in sc[:2])
    cx.check(ex == Poly.of(atom("ld", self_, num(lay["n"]))), "surface", lab + ", exponent", str(ex))
    cx.check(k == argv(F, 1), "surface", lab + ", spacing", str(k))
    passes(cx, F, 2, lab, lay, V)


def radii(cx, F, u, d, lab, self_, lay, by):
    for a in range(d if by == 2 else 2):
        if by == 2:
            v = CN.poly(F.asint(u.args[1 + a]))
        else:
            p = F.asptr(u.args[1])
            v = CN.poly(F.asint(F.load(u.pre, Ptr(p.root, p.off + num(8 * a)), 8, "double")))
        cx.check(v == Poly.of(atom("ld", self_, num(lay["r", a]))), "surface", "%s, radius %s" % (lab, AX[a]), str(v))


def surface3(cx, m, lay):
    F = Fn(m, "w_s3", keep=lambda n, k: k > 0 and "uniform_sampling" in n)
    lab = "surface, 3D"
    cx.saw(lab)
    self_ = F.argatoms[0]
    us = calls(F, r"uniform_sampling")
    ap = calls(F, r"6appendE")
    if not cx.check(len(us) == 2 and len(ap) == 2 and all(CN.bdd(x.guard) is TRUE and len(x.loops) == 1 for x in us + ap) and len({id(x.loops[0]) for x in us + ap}) == 1, "surface", lab, "%d rings, %d appended" % (len(us), len(ap))):
        return
    V = F.asptr(ap[0].args[0]).root
    B = atom("ld", V, ZERO)
    clean(cx, F, lab, lambda e: CN.ptr(Ptr(e.root, ZERO)).root is B)
    L = us[0].loops[0]
    c = Poly.of(atom("ld", self_, num(lay["r", 2])))
    ee, nn = (Poly.of(atom("ld", self_, num(lay[k]))) for k in "en")
    k0, k1 = arg(F, 1, 0), arg(F, 1, 8)
    kinds = []
    for u in us:
        ln = "%s, ring %d" % (lab, us.index(u) + 1)
        radii(cx, F, u, 3, ln, self_, lay, 3)
        ex, k, z, phi, tl = (CN.poly(F.asint(F.load(u.pre, F.asptr(p), 8, "double"))) for p in u.args[-5:])
        cx.check(ex == ee, "surface", ln + ", exponent", str(ex))
        cx.check(k == k0, "surface", ln + ", spacing", str(k))
        an = cosines(z)
        an += [x for x in cosines(phi) if x not in an]
        if not cx.check(len(an) == 1, "on the shape", ln + ", angle", str((z, phi))[:200]):
            return
        a = an[0]
        kd = None
        for i, (f, g) in enumerate((("sin", "cos"), ("cos", "sin"))):
            if zero(z - c * fn("pow", fn(f, a), nn)) and zero(phi - fn("pow", fn(g, a), nn)):
                kd = i
        if not cx.check(kd is not None, "on the shape", ln, "height %s, scale %s" % (z, phi)):
            return
        kinds.append(kd)
        o = [o for o in L.others.values() if CN.poly(Poly.of(o["atom"])) == a]
        if cx.check(len(o) == 1 and len(o[0]["latch"]) == 1, "surface", ln + ", angle", str(a)):
            o = o[0]
            cx.check(isinstance(o["init"], Poly) and not o["init"].t, "surface", ln + ", starts on the axis", str(o["init"]))
            nx = CN.poly(F.asint(F.latchval(o, o["latch"][0])))
            r = same(nx, a + step(ONE, ONE, a, nn, k1), facts=(bnot(cmp_lt(a, tl)),))
            cx.check(r is None, "surface", ln + ", advance of the angle", str(r)[:300])
        # appended in full
        W = F.asptr(u.args[0]).root
        wb = atom("ld", W, ZERO)
        x = [y for y in ap if CN.ptr(F.asptr(y.args[1])) == Ptr(wb, ZERO)]
        ok = len(x) == 1 and F.asptr(x[0].args[0]).root is V and x[0].order > u.order and CN.ptr(F.asptr(x[0].args[2])) == Ptr(wb, Poly.of(atom("ld", W, num(8))).scale(24))
        cx.check(ok, "surface", ln + ", all its samples", "%d times" % len(x))
    cx.check(sorted(kinds) == [0, 1], "surface", lab + ", two families of rings", str(kinds))
    q = num(Fraction(0.7853981633974483))
    out = CN.bdd(F.edge_cond(*L.exits[0])) if len(L.exits) == 1 else FALSE
    ok = False
    for o in L.others.values():
        if len(o["latch"]) == 1 and isinstance(o["init"], Poly) and not o["init"].t:
            nx = CN.poly(F.asint(F.latchval(o, o["latch"][0])))
            ok = ok or same(out, bnot(F.push_lt(nx, q, False))) is None or same(out, bnot(cmp_lt(CN.poly(Poly.of(o["atom"])), q))) is None
    cx.check(ok, "surface", lab + ", until the diagonal", str(out)[:300])
    # ---- the lower half
    pu = calls(F, r"4pushE")
    if cx.check(len(pu) == 1 and len(pu[0].loops) == 1, "symmetry", lab + ", lower half", "%d insertions" % len(pu)):
        e = pu[0]
        t, cnt, g = F.domain(e)[0]
        n = Poly.of(atom("ld", V, num(8)))
        cx.check(cnt is not None and CN.poly(cnt) == n and CN.bdd(e.guard) is TRUE and CN.bdd(g) is TRUE and e.order > max(x.order for x in ap), "symmetry", lab + ", lower half, rounds", str(cnt))
        v = [CN.poly(p) for p in ob(F, e, 3)]
        w = [Poly.of(atom("ld", B, Poly.of(t).scale(24) + num(8 * a))) for a in range(3)]
        w2 = [Poly.of(atom("ld", B, (n - ONE - Poly.of(t)).scale(24) + num(8 * a))) for a in range(3)]
        cx.check(any([v[0], v[1], -v[2]] == x for x in (w, w2)) and F.asptr(e.args[0]).root is V, "symmetry", lab + ", lower half, samples", str(v)[:300])
    passes(cx, F, 3, lab, lay, V)


def spacing(cx, m):
    F = Fn(m, "w_t")
    cx.saw("advance of the angle")
    quiet(cx, F, "advance of the angle")
    r1, r2, t, e, k, tol = (argv(F, i) for i in range(6))
    v = CN.poly(F.asint(F.rets[0][1]))
    r = same(v, step(r1, r2, t, e, k), facts=(bnot(cmp_lt(t, tol)),))
    cx.check(r is None, "curve", "spacing over speed", str(r)[:300])


def line(cx, m):
    F = Fn(m, "w_l")
    cx.saw("linspace")
    clean(cx, F, "linspace", lambda e: False)
    es = calls(F, r"4pushE")
    if not cx.check(len(es) == 1 and len(es[0].loops) == 1, "line", "insertions", str(len(es))):
        return
    e = es[0]
    a, b, n = (argv(F, i) for i in range(3))
    t, c, g = F.domain(e)[0]
    r = same(CN.poly(c), n, True, facts=(cmp_lt(ZERO, n, True),)) if c is not None else "open loop"
    cx.check(r is None and CN.bdd(e.guard) is TRUE, "line", "number of points", "%s: %s" % (c, r))
    v = CN.poly(ob(F, e, 1)[0])
    t = Poly.of(t)
    for what, val, m_ in (("with the end", True, n - ONE), ("without the end", False, n)):
        f = flag(F, 3, val)
        w = a + t * div(b - a, m_)
        r = same(v, w, True, facts=(f, cmp_lt(ONE, n, True)))
        cx.check(r is None, "line", "points " + what, str(r)[:300])
        r = same(v if not val else cases0(v, t), a + (t * (b - a) if not val else ZERO), True, facts=(f, cmp_eq(n, ONE)))
        cx.check(r is None, "line", "one point " + what, str(r)[:300])


def cases0(v, t):
    return rewrite(v, lambda x: ZERO if Poly.of(x) == t else None, {})


def flag(F, k, val):
    b = CN.bdd(bvar(("b", F.argatoms[k])))
    return b if val else bnot(b)
