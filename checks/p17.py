"""P17 sampling of the particles"""
from irx import *
from cases import *
from cases import _subst
from canon import Canon
from calculus import zero
import os, re
TITLE = "Particles are sampled exactly once by nodes, surface points and sub-points"
LEVEL = "proof"
TRUSTED = "clang 18 front end and -O2 IR; irdump; MPI_Allreduce; witness/recvec.h and witness/shape.h (recording list, abstract shape)"
EXPLAIN = "The sampling templates are instantiated with a shape whose tests are uninterpreted functions and a list whose insertions are recorded; loop nests, guards and inserted values are compared with the definition of each sample, and set_materials with the composition of them."
MIN_OBLIGATIONS = 60
AX = "xyz"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def wit():
    s = '#include "%s/witness/recvec.h"\n#include "%s/witness/shape.h"\n#include <cafes.hpp>\nusing namespace cafes;\n' % (HERE, HERE)
    for d, dp in ((2, "double"), (3, "std::array<double,2> const&")):
        s += '''
using A@ = ashape<@>; using V@ = geometry::vector<double,@>; using X@ = geometry::position<double,@>; using I@ = geometry::position<int,@>;
using Q@ = std::pair<I@, X@>; using H@ = std::array<double,@>; using B@ = geometry::box<int,@>;
extern "C" void w_fl@(particle<A@> const& p, B@ const& b, H@ const& h){ find_fluid_points_insides(p,b,h);}
extern "C" void w_sf@(std::vector<X@> const& p, B@ const& b, H@ const& h){ find_surf_points_insides<@>(p,b,h);}
extern "C" void w_rd@(std::vector<X@> const& p, B@ const& b, H@ const& h, X@ const& c){ find_radial_surf_points_insides<@>(p,b,h,c);}
extern "C" std::size_t w_mat@(cafes_check::rec<particle<A@>>& ps, std::vector<std::vector<Q@>>& sp, std::vector<std::vector<V@>>& rv, cafes_check::rec<int>& nb, cafes_check::rec<int>& num, B@ const& b, H@ const& h, %s dp, std::size_t sc){ return set_materials(ps,sp,rv,nb,num,b,h,dp,sc);}
extern "C" void w_pd@(X@ *__restrict o, particle<A@> const& p, particle<A@> const& q){ *o = position_diff<A@,@>(p,q);}
extern "C" void w_vd@(physics::velocity<@> *__restrict o, particle<A@> const& p, particle<A@> const& q){ *o = velocity_diff<A@,@>(p,q);}
extern "C" double w_di@(particle<A@> const& p, particle<A@> const& q){ return distance<A@,@>(p,q);}
extern "C" void w_off@(std::size_t*__restrict o){ particle<A@>*q=0; o[0]=(std::size_t)&q->center_; o[1]=(std::size_t)&q->velocity_; o[2]=sizeof(*q);}
'''.replace("@", str(d)) % dp
    return s


def calls(F, pat):
    return [e for e in F.effects if e.kind == "call" and re.search(pat, e.name)]


def clean(cx, F, lab, allow):
    bad = [e for e in F.effects if not (e.kind == "store" and e.root.kind == "alloca") and not (e.kind == "call" and re.search(allow + "|^llvm\\.mem", e.name))]
    cx.check(not bad, "no side effect", lab, "\n".join(map(str, bad[:3])))


CN = Canon()


def nest(cx, F, e, lab, counts, sizes=()):
    """the loops around e are exactly counts (outer first); returns the trip numbers"""
    C = Canon()
    dom = F.domain(e)
    if not cx.check(len(dom) == len(counts), "loop nest", lab, "%d loops, %d required" % (len(dom), len(counts))):
        return None
    ok = True
    for (t, c, g), w in zip(dom, counts):
        ok &= cx.check(c is not None and C.poly(c) == w, "loop nest", "%s, %s rounds" % (lab, w), "%s rounds" % c)
    for t, g in F.entered_empty(e):
        r = same(C.bdd(g), FALSE, True, facts=[bnot(cmp_lt(x, ZERO, True)) for x in sizes])
        cx.check(r is None, "loop nest", "%s, empty range" % lab, "entered: %s" % r)
    return [Poly.of(t) for t, _, _ in dom] if ok else None


def arg(F, k, off):
    return Poly.of(atom("ld", F.argatoms[k], num(off)))


def field(F, e, p, off, size=8, ty="double"):
    return CN.poly(F.asint(F.load(e.pre, Ptr(p.root, p.off + num(off)), size, ty)))


def run(cx):
    m = cx.ir(wit(), noinline=[r"find_\w+_insides"])
    mi = cx.ir(wit(), name="inl")
    for d in (2, 3):
        F = Fn(m, "w_off%d" % d)
        off = [outval(F, 0, 8 * i).as_int() for i in range(3)]
        cx.need(None not in off, "layout of a particle not found")
        fluid(cx, mi, d)
        surf(cx, mi, d)
        materials(cx, m, d, off)
        pairs(cx, m, d, off)


def fluid(cx, m, d):
    F = Fn(m, "w_fl%d" % d)
    lab = "inner nodes, %dD" % d
    cx.saw(lab)
    clean(cx, F, lab, r"4pushE|q_contains")
    es = calls(F, r"4pushE")
    if not cx.check(len(es) == 1, "sample", lab, "%d places insert points" % len(es)):
        return
    e = es[0]
    lo = [arg(F, 1, 4 * a) for a in range(d)]
    hi = [arg(F, 1, 4 * (d + a)) for a in range(d)]
    ts = nest(cx, F, e, lab, [hi[a] - lo[a] for a in range(d)][::-1])
    if ts is None:
        return
    ts = ts[::-1]
    for a in range(d):
        v = field(F, e, e.args[1], 4 * a, 4, "i32")
        cx.check(zero(v - lo[a] - ts[a]), "sample", "%s, index %s" % (lab, AX[a]), "inserts %s" % v)
    q = [c for c in calls(F, r"q_contains") if c.loops == e.loops]
    if cx.check(len(q) == 1, "inside test", lab, "%d tests" % len(q)):
        q = q[0]
        cx.check(F.asptr(q.args[0]) == Ptr(F.argatoms[0], ZERO), "inside test", lab + ", shape", str(q.args[0]))
        for a in range(d):
            v = CN.poly(F.closed(F.asint(q.args[1 + a])))
            cx.check(zero(v - (lo[a] + ts[a]) * arg(F, 2, 8 * a)), "inside test", "%s, coordinate %s" % (lab, AX[a]), "tests %s" % v)
        r = same(Canon().bdd(e.guard), Canon().bdd(F.asbool(q.ret)), True)
        cx.check(r is None and Canon().bdd(q.guard) is TRUE, "inside test", lab + ", decides", str(r))


def surf(cx, m, d):
    for n, what in (("sf", "surface points"), ("rd", "radial vectors")):
        F = Fn(m, "w_%s%d" % (n, d))
        lab = "%s, %dD" % (what, d)
        cx.saw(lab)
        clean(cx, F, lab, r"4pushE")
        es = calls(F, r"4pushE")
        if not cx.check(len(es) == 1, "sample", lab, "%d places insert points" % len(es)):
            continue
        e = es[0]
        ts = nest(cx, F, e, lab, [arg(F, 0, 8)], [arg(F, 0, 8)])
        if ts is None:
            continue
        base = arg(F, 0, 0).as_atom()
        s = [Poly.of(atom("ld", base, ts[0].scale(8 * d) + num(8 * a))) for a in range(d)]
        f = [fn("floor", div(s[a], arg(F, 2, 8 * a))) for a in range(d)]
        g = TRUE
        for a in range(d):
            g = band(g, band(bnot(cmp_lt(f[a], arg(F, 1, 4 * a), True)), cmp_lt(f[a], arg(F, 1, 4 * (d + a)), True)))
        r = same(Canon().bdd(e.guard), g, True)
        cx.check(r is None, "owned by one process", lab, str(r)[:300])
        for a in range(d):
            if n == "sf":
                v = field(F, e, e.args[1], 4 * a, 4, "i32")
                cx.check(zero(v - f[a]), "sample", "%s, element %s" % (lab, AX[a]), "inserts %s" % v)
                o = 8 * a + (8 if d == 2 else 16)
                want = s[a] - f[a] * arg(F, 2, 8 * a)
            else:
                o, want = 8 * a, s[a] - arg(F, 3, 8 * a)
            v = field(F, e, e.args[1], o)
            cx.check(zero(v - want), "sample", "%s, offset %s" % (lab, AX[a]), "inserts %s" % v)


def materials(cx, m, d, off):
    F = Fn(m, "w_mat%d" % d, keep=lambda n, k: n in m.dem and k > 0)
    lab = "%dD" % d
    C = Canon()
    cx.saw("sampling of the particles, " + lab)
    clean0 = [e for e in F.effects if e.kind == "store" and e.root.kind != "alloca" and not (e.root.kind == "glob" and "allreduce_ct" in str(e.root))]
    n = arg(F, 0, 8)
    P = arg(F, 0, 0).as_atom()
    part = lambda t: Ptr(P, t.scale(off[2]))
    h = [arg(F, 6, 8 * a) for a in range(d)]
    B = [arg(F, 5, 4 * k) for k in range(2 * d)]
    at = {}
    # ---- the pieces, per particle
    def one(pat, what):
        es = calls(F, pat)
        if not cx.check(len(es) == 1, "composition", "%s, %s" % (lab, what), "%d calls" % len(es)):
            return None
        return es[0]
    fl, sf, rd = (one(p, w) for p, w in ((r"find_fluid", "inner nodes"), (r"find_surf", "surface points"), (r"find_radial", "radial vectors")))
    su = one(r"^q_surface", "surface")
    ct = one(r"^q_contains", "sub-points")
    if None in (fl, sf, rd, su, ct):
        return

    def pbox(t):
        p = F.asint(part(t))
        return [fn("q_box%d" % d, p, num(k), *h) for k in range(2 * d)]

    def inter(pb):
        g = TRUE
        for a in range(d):
            g = band(g, band(bnot(cmp_lt(pb[d + a], B[a], True)), bnot(cmp_lt(B[d + a], pb[a], True))))
        return g
    guards = {}
    for e, what in ((fl, "inner nodes"), (sf, "surface points"), (rd, "radial vectors"), (su, "surface")):
        ts = nest(cx, F, e, "%s, %s" % (lab, what), [n], [n])
        if ts is None:
            return
        pb = pbox(ts[0])
        g = inter(pb)
        r = same(C.bdd(e.guard), g, True, facts=ordered(B[:2 * d], pb[:2 * d]))
        cx.check(r is None, "composition", "%s, %s where the particle meets the range" % (lab, what), str(r)[:300])
        if e is not su:
            b = F.asptr(e.args[2])
            for k in range(2 * d):
                v = F.asint(F.load(e.pre, Ptr(b.root, b.off + num(4 * k)), 4, "i32"))
                w = (mx if k < d else mn)(B[k], pb[k])
                r = same(C.poly(v), w, True, facts=(g,))
                cx.check(r is None, "composition", "%s, %s, range %d" % (lab, what, k), str(r)[:300])
            cx.check(F.asptr(e.args[3]) == Ptr(F.argatoms[6], ZERO), "composition", "%s, %s, spacing" % (lab, what), str(e.args[3]))
    t = [Poly.of(F.domain(fl)[0][0])][0]
    cx.check(CN.ptr(F.asptr(fl.args[1])) == CN.ptr(part(t)), "composition", lab + ", inner nodes, particle", str(fl.args[1]))
    cx.check(CN.ptr(F.asptr(su.args[1])) == CN.ptr(part(t)), "composition", lab + ", surface, particle", str(su.args[1]))
    dp = [Poly.of(F.argatoms[7])] if d == 2 else [arg(F, 7, 0), arg(F, 7, 8)]
    for k, w in enumerate(dp):
        cx.check(zero(CN.poly(F.asint(su.args[2 + k])) - w), "composition", "%s, surface, step %d" % (lab, k), str(su.args[2 + k]))
    for e, what in ((sf, "surface points"), (rd, "radial vectors")):
        cx.check(F.asptr(e.args[1]) == F.asptr(su.args[0]), "composition", "%s, %s, list" % (lab, what), "not of the sampled surface")
    c0 = F.asptr(rd.args[4]) if d == 3 else None
    for a in range(d):
        v = CN.poly(F.asint(rd.args[4 + a])) if d == 2 else field(F, rd, c0, 8 * a)
        w = Poly.of(atom("ld", P, t.scale(off[2]) + num(off[0] + 8 * a)))
        cx.check(zero(v - w), "composition", "%s, radial vectors, centre %s" % (lab, AX[a]), str(v))
    # ---- where they go
    cp = calls(F, r"4copyE")
    cx.check(len(cp) == 2, "composition", lab + ", lists stored", "%d lists" % len(cp))
    for e in cp:
        src = F.asptr(e.args[1])
        k = 1 if "4pair" in e.name else 2
        what = "surface points" if k == 1 else "radial vectors"
        call = sf if k == 1 else rd
        dst = F.asptr(e.args[0])
        cx.check(is_base(dst.root, F, k) and dst.off == t.scale(16), "composition", "%s, %s stored" % (lab, what), "in %s" % dst)
        own = F.asptr(call.args[0])
        cx.check(src.root.kind == "ld" and src.root.args[0] is own.root and same(C.bdd(e.guard), C.bdd(call.guard), True) is None, "composition", "%s, %s kept" % (lab, what), "copied from %s" % src)
        hi = F.asptr(e.args[2])
        sz = {1: 24 if d == 2 else 40, 2: 8 * d}[k]
        ln = (hi.off - src.off) if hi.root is src.root else None
        la = div(ln, num(sz)).as_atom() if ln is not None else None
        cx.check(la is not None and la.kind == "ld" and la.args[0] is own.root and la.args[1] == num(8), "composition", "%s, %s kept, number" % (lab, what), "copies up to %s" % hi)
    # ---- numbers
    st = [e for e in clean0]
    nb = [e for e in st if is_base(e.root, F, 3)]
    nu = [e for e in st if is_base(e.root, F, 4)]
    cx.check(len(st) == 2 and len(nb) == 1 and len(nu) == 1, "no side effect", lab, str([str(e) for e in st if e not in nb + nu][:2]))
    if len(nb) == 1:
        e = nb[0]
        v = F.asint(e.val).as_atom()
        ok = v is not None and v.kind == "ld" and is_base(v.args[0], F, 1) and v.args[1] == t.scale(16) + num(8)
        cx.check(ok and e.ofs == t.scale(4) and e.size == 4 and same(C.bdd(e.guard), C.bdd(sf.guard), True) is None, "numbers", lab + ", surface points", str(e))
    sc = Poly.of(F.argatoms[8])
    rng = F.asptr(fl.args[2])
    cell = lambda k: Poly.of(atom("ld", rng.root, num(4 * k)))
    g = inter(pbox(t))
    if len(nu) == 1:
        e = nu[0]
        dom = F.domain(ct)
        pb = pbox(t)
        N = [mn(B[d + a], pb[d + a]) - mx(B[a], pb[a]) for a in range(d)]
        cx.check(len(dom) == 1 + 2 * d, "sub-points", lab + ", loops", "%d loops" % len(dom))
        cx.check(e.loops == ct.loops and same(C.bdd(e.guard), C.bdd(F.asbool(ct.ret)), True) is None if guard_of(ct, F) is TRUE else same(C.bdd(e.guard), band(C.bdd(ct.guard), C.bdd(F.asbool(ct.ret))), True) is None, "sub-points", lab + ", counted when inside", str(e.guard)[:200])
        old = F.asint(e.val) - ONE
        a0 = old.as_atom()
        cx.check(a0 is not None and a0.kind == "ld" and a0.args[0] is e.root and a0.args[1] == e.ofs and e.ofs == t.scale(4), "sub-points", lab + ", counts by one", str(e))
        if len(dom) == 1 + 2 * d:
            cx.check(CN.ptr(F.asptr(ct.args[0])) == CN.ptr(part(t)), "sub-points", lab + ", particle", str(ct.args[0]))
            used = set()
            for a in range(d):
                x = C.poly(F.asint(ct.args[1 + a]))
                ts = [(q, c) for q, c, _ in dom[1:] if q.id in all_atoms(x)]
                ok = len(ts) == 2 and not used & {q for q, _ in ts}
                used |= {q for q, _ in ts}
                if not cx.check(ok, "sub-points", "%s, own loops %s" % (lab, AX[a]), str(x)[:200]):
                    continue
                lo = mx(B[a], pb[a])
                done = False
                for (q, c), (q2, c2) in (ts, ts[::-1]):
                    want = (lo + Poly.of(q) + div(Poly.of(q2), sc)) * h[a]
                    if same(x, want, True, facts=(g,)) is None:
                        r = same(C.poly(c), N[a], True, facts=(g,))
                        cx.check(r is None, "sub-points", "%s, elements %s" % (lab, AX[a]), "%s elements: %s" % (c, r))
                        cx.check(C.poly(c2) == sc, "sub-points", "%s, subdivision %s" % (lab, AX[a]), "%s sub-points" % c2)
                        done = True
                        break
                cx.check(done, "sub-points", "%s, coordinate %s" % (lab, AX[a]), "tests %s" % str(x)[:300])
    # ---- totals over the processes
    ar = calls(F, r"MPI_Allreduce")
    tot = {}
    for e in ar:
        p = F.asptr(e.args[1])
        for k, what in ((3, "surface points"), (4, "sub-points")):
            if is_base(p.root, F, k) and not p.off.t:
                tot.setdefault(k, []).append(e)
                cx.check(zero(CN.poly(F.asint(e.args[2])) - n) and "ompi_mpi_int" in str(e.args[3]) and "op_sum" in str(e.args[4]) and "PETSC_COMM_WORLD" in str(e.args[5]) and "int', 1" in str(e.args[0]),
                         "totals", "%s, %s" % (lab, what), str(e))
                late = [x for x in (nb if k == 3 else nu) if x.order > e.order]
                cx.check(C.bdd(e.guard) is TRUE and not e.loops and not late, "totals", "%s, %s, once after all particles" % (lab, what), str(e.guard))
    cx.check(len(ar) == 2 and all(len(tot.get(k, ())) == 1 for k in (3, 4)), "totals", lab, "%d reductions" % len(ar))
    # ---- result: sum of the numbers of inner nodes
    ret = F.asint(F.rets[0][1])
    L = F.effects[F.effects.index(fl)].loops[0]
    own = F.asptr(fl.args[0])
    ok = False
    ret = C.poly(ret)
    for o in L.others.values():
        a = o["atom"]
        if not isinstance(o["init"], Poly) or o["init"].t or len(o["latch"]) != 1:
            continue
        v = C.poly(F.asint(F.latchval(o, o["latch"][0])))
        inc = v - Poly.of(a)
        w = ite(g, Poly.of(atom("ld", own.root, num(8))), ZERO)
        inc = strip(inc, own.root)
        if same(inc, strip(w, own.root), True, facts=ordered(B[:2 * d], pbox(t)[:2 * d])) is None:
            r = same(ret, ite(cmp_eq(n, ZERO), ZERO, v), True)
            ok = ok or r is None
    cx.check(ok, "numbers", lab + ", inner nodes", "the result is not the sum of the numbers of inner nodes: %s" % str(ret)[:200])


def strip(p, root):
    """forget which version of the list object is read"""
    memo = {}
    return rewrite(p, lambda a: Poly.of(atom("ld", root, a.args[1])) if a.kind == "ld" and a.args[0] is root else None, memo)


def guard_of(e, F):
    return Canon().bdd(e.guard)


def is_base(a, F, k):
    return a.kind == "ld" and a.args[0] is F.argatoms[k] and isinstance(a.args[1], Poly) and not a.args[1].t


def pairs(cx, m, d, off):
    for n, o, what in (("pd", 0, "centres"), ("vd", 1, "velocities")):
        F = Fn(m, "w_%s%d" % (n, d))
        cx.saw("difference of " + what + " %dD" % d)
        quiet(cx, F, "difference of %s, %dD" % (what, d))
        for a in range(d):
            v = CN.poly(outval(F, 0, 8 * a))
            cx.check(zero(v - arg(F, 1, off[o] + 8 * a) + arg(F, 2, off[o] + 8 * a)), "difference", "%s, %dD, %s" % (what, d, AX[a]), str(v))
    F = Fn(m, "w_di%d" % d)
    cx.saw("distance %dD" % d)
    q = ZERO
    for a in range(d):
        q = q + (arg(F, 0, off[0] + 8 * a) - arg(F, 1, off[0] + 8 * a)).pow(2)
    quiet(cx, F, "distance, %dD" % d)
    cx.check(zero(CN.poly(F.asint(F.rets[0][1])) - sqrt(q)), "difference", "distance, %dD" % d, str(F.rets[0][1]))
