"""P16 the contact frame"""
from irx import *
from cases import *
from cases import _subst, splits, vanishes
from calculus import *
import re, itertools, math
TITLE = "The contact frame is rigid and carries fields and points exactly"
LEVEL = "proof"
TRUSTED = "clang 18 front end and -O2 IR; irdump; libm sqrt, sin, cos, asin as functions of their argument"
EXPLAIN = "Frame construction, changes of coordinates, world/contact field evaluations and the contact box are reduced to closed forms in the centres, radii, velocities and point; orthonormality, handedness, inversion and tensor rotation are polynomial identities in them, checked on every combination of the tests taken."
MIN_OBLIGATIONS = 150
AX = "xyz"
OFF = ["base_", "origin_", "vector_space_", "H1_", "H2_", "contact_length_", "param_", "UN_", "UT_", "cutoff_dist_"]
POFF = ["center_", "velocity_", "shape_factors_"]


def wit():
    s = '''#include <cafes.hpp>
using namespace cafes;
template<class S,std::size_t D> using SG = singularity::singularity<S,D>;
using C=geometry::circle<>; using S=geometry::sphere<>;
'''
    for d, sh in ((2, "C"), (3, "S")):
        s += '''
extern "C" void w_base@(SG<$,@> *__restrict s, particle<$> const&p, particle<$> const&q){ s->construct_base(p,q);}
extern "C" void w_ctor@(SG<$,@> *__restrict s, particle<$> const&p, particle<$> const&q, double h){ new(s) SG<$,@>(p,q,h);}
extern "C" void w_in@(geometry::position<double,@>*__restrict o, SG<$,@> & s, geometry::position<double,@> const& x){ *o = s.get_pos_in_part_ref(x);}
extern "C" void w_from@(geometry::position<double,@>*__restrict o, SG<$,@> & s, geometry::position<double,@> const& x){ *o = s.get_pos_from_part_ref(x);}
extern "C" void w_u@(std::array<double,@>*__restrict o, SG<$,@> & s, geometry::position<double,@> const& x){ *o = s.get_u_sing(x);}
extern "C" void w_ur@(std::array<double,@>*__restrict o, SG<$,@> & s, geometry::position<double,@> & x){ *o = s.get_u_sing_ref(x);}
extern "C" void w_g@(std::array<std::array<double,@>,@>*__restrict o, SG<$,@> & s, geometry::position<double,@> & x){ *o = s.get_grad_u_sing(x);}
extern "C" void w_gr@(std::array<std::array<double,@>,@>*__restrict o, SG<$,@> & s, geometry::position<double,@> & x){ *o = s.get_grad_u_sing_ref(x, std::integral_constant<int,@>{});}
extern "C" void w_p@(std::array<double,1>*__restrict o, SG<$,@> & s, geometry::position<double,@> & x){ (*o)[0] = s.get_p_sing(x);}
extern "C" void w_pr@(std::array<double,1>*__restrict o, SG<$,@> & s, geometry::position<double,@> & x){ (*o)[0] = s.get_p_sing_ref(x);}
extern "C" void w_box@(geometry::box<int,@>*__restrict o, SG<$,@> & s, std::array<double,@> const& h){ *o = s.get_box(h);}
extern "C" void w_off@(std::size_t*__restrict o){ SG<$,@>*p=0; particle<$>*q=0; std::size_t n=0;'''.replace("@", str(d)).replace("$", sh)
        for x in OFF:
            s += " o[n++]=(std::size_t)&p->%s;" % x
        for x in POFF:
            s += " o[n++]=(std::size_t)&q->%s;" % x
        s += "}\n"
    return s


def printing(cx, F, lab, allow=()):
    """only stores through the output argument, prints and the allowed calls"""
    bad = []
    for e in F.effects:
        if e.kind == "call":
            if e.name in allow or re.search(r"ostream|basic_ios|ctype|_ZSt|_ZNSo|bad_cast", e.name):
                continue
            bad.append(e.name)
        elif e.kind == "store" and e.root is not F.argatoms[0] and e.root.kind == "sym":
            bad.append(str(e))
    cx.check(not bad, "no-side-effect", lab, bad[:3])


def field(F, k, off):
    return Poly.of(atom("ld", F.argatoms[k], num(off)))


class Frame:
    """values of w_NAMEd: cells of the frame become the symbols b<i><j>, o<j>, H, M, ..."""
    def __init__(self, cx, m, d):
        self.cx, self.m, self.d = cx, m, d
        F = Fn(m, "w_off%d" % d)
        n = OFF + POFF
        self.off = {x: outval(F, 0, 8 * i).as_int() for i, x in enumerate(n)}
        cx.need(None not in self.off.values(), "layout of the contact frame not found")
        self.b = [[sym("b%d%d" % (i, j)) for j in range(d)] for i in range(d)]
        self.o = [sym("o%d" % j) for j in range(d)]
        self.x = [sym("x%d" % j) for j in range(d)]
        self.map = {}
        for i in range(d):
            for j in range(d):
                self.map[self.off["base_"] + 8 * (i * d + j)] = self.b[i][j]
            self.map[self.off["origin_"] + 8 * i] = self.o[i]
        for k, nme in (("H1_", "H"), ("H2_", "M"), ("contact_length_", "gap"), ("param_", "cut"), ("UN_", "UN"), ("UT_", "UT"), ("cutoff_dist_", "cd")):
            self.map[self.off[k]] = sym(nme)
        # coordinates in the frame
        self.ref = []
        for i in range(d):
            r = ZERO
            for j in range(d):
                r = r + self.b[i][j] * (self.x[j] - self.o[j])
            self.ref.append(r)

    def fn(self, n):
        return Fn(self.m, "w_%s%d" % (n, self.d))

    def norm(self, F, p, calls=None):
        memo = {}

        def f(a):
            if a.kind == "ld":
                if a.args[0] is F.argatoms[1]:
                    return self.map.get(a.args[1].as_int())
                if a.args[0] is F.argatoms[2]:
                    o = a.args[1].as_int()
                    if o is not None and o % 8 == 0 and o < 8 * self.d:
                        return self.x[o // 8]
            if a.kind == "ret" and calls and a in calls:
                return calls[a]
            return None
        return rewrite(p, f, memo)

    def field_calls(self, F, lab, ref):
        """{ret atom: F(name) symbol}; every call must be made at the reference point with the frame's parameters"""
        cx, d, r = self.cx, self.d, {}
        for e in F.effects:
            if e.kind != "call" or e.name not in self.m.dem:
                continue
            nm = re.search(r"(\w+)\(", self.m.dem[e.name]).group(1)
            a = list(e.args)
            if isinstance(a[0], Ptr):
                p = a[0]
                pos = [F.asint(F.load(e.pre, Ptr(p.root, p.off + num(8 * j)), 8, "double")) for j in range(d)]
                a = a[1:]
            else:
                pos, a = a[:d], a[d:]
            want = ref
            for j in range(d):
                if is_undef(pos[j]):
                    continue      # the callee ignores it
                got = self.norm(F, F.asint(pos[j]), r)
                cx.check(zero(got - want[j]), "point", "%s, %s, coordinate %d" % (lab, nm, j), "field evaluated at %s, not at the point in the frame" % got.show()[:120])
            for w, g in zip(("H", "M", "gap", "UN", "cut", "cut"), a):
                if is_undef(g):
                    continue
                g = self.norm(F, F.asint(g), r)
                cx.check(zero(g - sym(w)), "parameters", "%s, %s, %s" % (lab, nm, w), "evaluated with %s" % g.show()[:80])
            r[e.ret.as_atom()] = fn("field", nm)
        return r


def is_undef(v):
    a = v.as_atom() if isinstance(v, Poly) else None
    return a is not None and a.kind == "sym" and a.args[0] == "undef"


def run(cx):
    m = cx.ir(wit(), noinline=[r"normalMvt[23]D\(", r"tangMvt[23]D\("])
    for d in (2, 3):
        fr = Frame(cx, m, d)
        base(cx, m, fr)
        ctor(cx, m, fr)
        coords(cx, fr)
        fields(cx, fr)
        box(cx, fr)


def relative(F, fr):
    """write the second particle's centre and velocity as the first's plus symbols"""
    d = fr.d

    def f(a):
        if a.kind == "ld" and a.args[0] is F.argatoms[2]:
            o = a.args[1].as_int()
            for k, nm in (("center_", "d"), ("velocity_", "v")):
                j = (o - fr.off[k]) // 8
                if 0 <= j < d:
                    return Poly.of(atom("ld", F.argatoms[1], num(o))) + sym("%s%d" % (nm, j))
        return None
    memo = {}
    return lambda p: rewrite(p, f, memo)


def base(cx, m, fr):
    d = fr.d
    F = fr.fn("base")
    lab = "%dD" % d
    cx.saw("contact frame " + lab)
    printing(cx, F, "frame, " + lab)
    sub = relative(F, fr)
    b0 = [[sub(outval(F, 0, fr.off["base_"] + 8 * (i * d + j))) for j in range(d)] for i in range(d)]
    c0 = [sub(outval(F, 0, fr.off["vector_space_"] + 8 * i)) for i in range(d)]
    un0, ut0 = (sub(outval(F, 0, fr.off[k])) for k in ("UN_", "UT_"))
    D = [sym("d%d" % j) for j in range(d)]
    V = [sym("v%d" % j) for j in range(d)]
    n, t = (0, 1) if d == 2 else (2, 0)
    q = ZERO
    for x in D:
        q = q + x * x
    dist = sqrt(q)
    fails = {}
    obs = []

    def ob(rule, inst, got, want):
        obs.append((rule, inst))
        if not vanishes(got - want, eqs):
            fails.setdefault((rule, inst), "case %s: %s, required %s" % (txt, got.show()[:150], want.show()[:150]))
    flat = [x for r in b0 for x in r] + c0 + [un0, ut0]
    ncase = 0
    for tab, eqs, txt in splits(flat):
        ncase += 1
        b = [[_subst(x, tab) for x in r] for r in b0]
        c = [_subst(x, tab) for x in c0]
        un, ut = _subst(un0, tab), _subst(ut0, tab)
        for j in range(d):
            ob("normal", "%s, %s" % (lab, AX[j]), b[n][j], div(D[j], dist))
        for i in range(d):
            for k in range(i, d):
                s = ZERO
                for j in range(d):
                    s = s + b[i][j] * b[k][j]
                ob("orthonormal", "%s, vectors %d and %d" % (lab, i, k), s, ONE if i == k else ZERO)
        if d == 2:
            ob("right-handed", lab, b[0][0] * b[1][1] - b[0][1] * b[1][0], ONE)
        else:
            for j in range(3):
                k, l = (j + 1) % 3, (j + 2) % 3
                ob("right-handed", "%s, %s" % (lab, AX[j]), b[0][k] * b[1][l] - b[0][l] * b[1][k], b[2][j])
        for i in range(d):
            s = ZERO
            for j in range(d):
                s = s + V[j] * b[i][j]
            ob("relative velocity", "%s, component %d" % (lab, i), c[i], s)
            if i == n:
                ob("relative velocity", "%s, approach" % lab, un, s)
            elif i == t:
                ob("relative velocity", "%s, sliding" % lab, ut, s)
        if d == 3 and any(y.id in all_atoms(b[0][j]) for y in [v.as_atom() for v in V] for j in range(3)):
            # a first vector that follows the relative velocity carries all of its tangential part
            ob("relative velocity", "3D, sliding direction", c[1], ZERO)
    for rule, inst in dict.fromkeys(obs):
        cx.check((rule, inst) not in fails, rule, inst, fails.get((rule, inst)))
    cx.need(ncase > 0, "no case of the contact frame")


def ctor(cx, m, fr):
    d = fr.d
    F = fr.fn("ctor")
    lab = "%dD" % d
    printing(cx, F, "contact, " + lab)
    sub = relative(F, fr)
    r1 = field(F, 1, fr.off["shape_factors_"])
    r2 = field(F, 2, fr.off["shape_factors_"])
    q = ZERO
    for j in range(d):
        x = sym("d%d" % j)
        q = q + x * x
    dist = sqrt(q)

    def eq(inst, got, want):
        r = same(sub(got), want)
        cx.check(r is None, "contact data", "%s, %s" % (lab, inst), str(r)[:300])
    eq("curvature of the first particle", outval(F, 0, fr.off["H1_"]), inv(r1))
    eq("curvature of the second particle", outval(F, 0, fr.off["H2_"]), inv(r2))
    eq("gap", outval(F, 0, fr.off["contact_length_"]), dist - r1 - r2)
    cd = outval(F, 0, fr.off["cutoff_dist_"])
    eq("cut-off square", outval(F, 0, fr.off["param_"]), sub((cd * cd).scale(Fraction(1, 2))))
    gap = dist - r1 - r2
    al = num(4)
    h = [a for a in F.argatoms][3]
    reach = al * sqrt(div(gap, (inv(r1) + inv(r2)).scale(Fraction(1, 2))))
    least = Poly.of(h).scale(Fraction(math.sqrt(2)))
    r = ordered(sub(cd), [reach, r1, sub(r2), least], lambda a, b, c, e: max(min(a, b, c), e))
    cx.check(r is None, "contact data", "%s, cut-off radius" % lab, r)
    for j in range(d):
        want = field(F, 1, fr.off["center_"] + 8 * j) + r1 * div(sym("d%d" % j), dist)
        o = outval(F, 0, fr.off["origin_"] + 8 * j)
        # the frame is built for near particles only: where it is, the origin is on the first particle
        got = sub(o)
        vs = [a for a in got.atoms() if a.kind == "ite"]
        if len(got.t) == 1 and vs and got == Poly.of(vs[0]):
            arms = [x for x in vs[0].args[1:] if not any(y.kind == "ld" and y.args[0] is F.argatoms[0] or y.kind in ("undef", "init") for y in x.atoms())]
            got = arms[0] if len(arms) == 1 else got
        r = same(got, want)
        cx.check(r is None, "contact data", "%s, origin %s" % (lab, AX[j]), str(r)[:300])


def coords(cx, fr):
    d = fr.d
    F = fr.fn("in")
    lab = "%dD" % d
    cx.saw("to the contact frame " + lab, "from the contact frame " + lab)
    quiet(cx, F, "to the frame, " + lab)
    for i in range(d):
        got = fr.norm(F, outval(F, 0, 8 * i))
        cx.check(zero(got - fr.ref[i]), "coordinates", "%s, into the frame, %s" % (lab, AX[i]), got.show()[:200])
    F = fr.fn("from")
    quiet(cx, F, "from the frame, " + lab)
    for j in range(d):
        w = fr.o[j]
        for i in range(d):
            w = w + fr.b[i][j] * fr.x[i]
        got = fr.norm(F, outval(F, 0, 8 * j))
        cx.check(zero(got - w), "coordinates", "%s, out of the frame, %s" % (lab, AX[j]), got.show()[:200])


def fields(cx, fr):
    d = fr.d
    suf = "_sing_normalMvt%dD" % d
    c = "xz" if d == 2 else "xyz"
    u = [fn("field", "u%s%s" % (x, suf)) for x in c]
    g = [[fn("field", "d%su%s%s" % (y, x, suf)) for y in c] for x in c]
    p = fn("field", "p_sing_withT_normalMvt%dD" % d)
    for n, ref in (("u", fr.ref), ("ur", fr.x), ("g", fr.ref), ("gr", fr.x), ("p", fr.ref), ("pr", fr.x)):
        F = fr.fn(n)
        lab = "%s%s, %dD" % ({"u": "velocity", "g": "gradient", "p": "pressure"}[n[0]], " in the frame" if len(n) > 1 else "", d)
        cx.saw(lab)
        calls = fr.field_calls(F, lab, ref)
        printing(cx, F, lab, fr.m.dem)
        cnt = {"u": d, "g": d * d, "p": 1}[n[0]]
        for k in range(cnt):
            got = fr.norm(F, outval(F, 0, 8 * k), calls)
            if n[0] == "p":
                w = p
            elif n == "ur":
                w = u[k]
            elif n == "gr":
                w = g[k // d][k % d]
            elif n == "u":
                w = ZERO
                for i in range(d):
                    w = w + fr.b[i][k] * u[i]
            else:
                w = ZERO
                for i in range(d):
                    for j in range(d):
                        w = w + fr.b[i][k // d] * fr.b[j][k % d] * g[i][j]
            cx.check(zero(got - w), "rotation", "%s, entry %d" % (lab, k), "%s, required %s" % (got.show()[:200], w.show()[:200]))


def box(cx, fr):
    """every corner of the region around the gap lies in the box, and the box is the one of the corners"""
    d = fr.d
    F = fr.fn("box")
    lab = "%dD" % d
    cx.saw("contact box " + lab)
    quiet(cx, F, "box, " + lab)
    H, M, gap, cd = sym("H"), sym("M"), sym("gap"), sym("cd")
    th = [fn("asin", cd * H), fn("asin", cd * M)]
    sn = [cd * H, cd * M]
    def trig(p):
        """sin(asin t) = t; cos(asin t) = one symbol per particle"""
        def f(a):
            if a.kind == "fn" and a.args[0] in ("sin", "cos") and len(a.args[1]) == 1:
                x = rewrite(a.args[1][0], f, memo)
                for i in range(2):
                    if x == th[i]:
                        return sn[i] if a.args[0] == "sin" else sym("cos%d" % i)
            return None
        memo = {}
        return rewrite(p, f, memo)
    cs = [sym("cos0"), sym("cos1")]
    h = [Poly.of(atom("ld", F.argatoms[2], num(8 * j))) for j in range(d)]
    ends = [div(cs[0] - ONE, H), gap + div(ONE - cs[1], M)]
    corners = []
    for z in ends:
        for s in itertools.product((1, -1), repeat=d - 1):
            r = [cd.scale(t) for t in s]
            ref = [z] + r if d == 2 else r + [z]
            w = []
            for j in range(d):
                x = fr.o[j]
                for i in range(d):
                    x = x + fr.b[i][j] * ref[i]
                w.append(x)
            corners.append(w)
    for side in (0, 1):
        for j in range(d):
            v = outval(F, 0, 4 * (side * d + j), 4, "i32")
            a = v.as_atom()
            fl = "ceil" if side else "floor"
            inner = rounded(v, fl)
            if inner is None:
                cx.check(False, "contact box", "%s, %s %s" % (lab, "upper" if side else "lower", AX[j]), "not the %s of a coordinate: %s" % (fl, v.show()[:150]))
                continue
            inner = trig(fr.norm(F, inner))
            # min / max over the corners of coordinate / spacing
            vals = [div(w[j], sym("x%d" % j)) for w in corners]
            ok = extremum(inner, vals, side)
            cx.check(ok is None, "contact box", "%s, %s %s" % (lab, "upper" if side else "lower", AX[j]), ok)


def rounded(v, fl):
    a = v.as_atom()
    n = 0
    while a is not None and n < 6:
        n += 1
        if a.kind == "fn" and a.args[0] == fl:
            return a.args[1][0]
        if a.kind == "fn" and len(a.args[1]) == 1:
            a = a.args[1][0].as_atom() if isinstance(a.args[1][0], Poly) else None
            continue
        return None
    return None


def ordered(p, vals, f):
    """None when p equals f(vals), f being built from min and max, in every strict order of vals"""
    n = len(vals)
    vals = list(vals)
    edge = {}
    for i in range(n):
        for j in range(n):
            if i != j:
                c = cmp_lt(vals[i], vals[j])
                for v in support(c):
                    edge[v] = (i, j)
    for v in conds_in(p):
        if v not in edge:
            return "decided by %s" % show_var(v)[:200]
    for rank in itertools.permutations(range(n)):
        q = _subst(p, {v: int(rank[i] < rank[j]) for v, (i, j) in edge.items()})
        w = vals[rank.index(f(*rank))]
        if not zero(q - w):
            return "%s where %s is required" % (q.show()[:150], w.show()[:150])
    return None


def extremum(p, vals, side):
    """None when p is the minimum (side 0) or maximum of vals.  p is walked as a
    tree of comparisons of two of the values; on every branch the comparisons
    taken must imply that the value reached is the extremum"""
    n = len(vals)
    edge = {}
    hs = {x for v in vals for x in v.atoms() if x.kind == "sym" and re.fullmatch(r"x\d", x.args[0])}
    for i in range(n):
        for j in range(n):
            if i == j:
                continue
            for k in (ONE, *[Poly.of(x) for x in hs]):
                c = cmp_lt(vals[i] * k, vals[j] * k)
                if c is TRUE or c is FALSE:
                    continue
                for v in support(c):
                    edge.setdefault(v, set()).add((i, j))
    todo = [(p, [[i == j for j in range(n)] for i in range(n)], ())]
    leaves = 0
    while todo:
        q, le, path = todo.pop()
        vs = conds_in(q)
        if not vs:
            leaves += 1
            at = [i for i in range(n) if zero(q - vals[i])]
            if not at:
                return "value %s is not a corner of the region" % q.show()[:200]
            if not any(all((le[i][j] if not side else le[j][i]) for j in range(n)) for i in at):
                return "corner %s is not shown to be the %s" % (vals[at[0]].show()[:120], "largest" if side else "smallest")
            continue
        known = [v for v in vs if v in edge]
        if not known:
            return "decided by something else than the corners: %s" % show_var(min(vs))[:150]
        v = min(known)
        for val in (0, 1):
            l2 = [r[:] for r in le]
            new = [(i, j) if val else (j, i) for i, j in edge[v]]
            if val and any(le[j][i] for i, j in edge[v]):
                continue            # i < j against j <= i
            for i, j in new:
                if not l2[i][j]:
                    for a in range(n):
                        if l2[a][i]:
                            for b in range(n):
                                if l2[j][b]:
                                    l2[a][b] = True
            todo.append((_subst(q, {v: val}), l2, path))
    return None
