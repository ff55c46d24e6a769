"""P19 surface and volume operators of the particle solvers"""
from irx import *
from cases import *
from canon import Canon
from calculus import zero
from elems import Elems, K, I
import os, re
TITLE = "Particle surface and volume operators are the stated sums"
LEVEL = "proof"
TRUSTED = "clang 18 front end and -O2 IR; irdump; MPI_Allreduce; PETSc vectors; witness/recvec.h and witness/shape.h (recording list, abstract shape)"
EXPLAIN = "The operators are instantiated with an abstract shape and symbolic lists; every pass over the lists is replayed for one symbolic particle and one symbolic sample, and the resulting element and every increment of every accumulation is compared, with its loop nest and guard, with the defining formula."
MIN_OBLIGATIONS = 60
AX = "xyz"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CN = Canon()
OPS = [r"petsc_vec<.*>::(?!at)", r"get_DM_bounds", r"DirichletOnRHS", r"interp_rigid_motion_", r"projection_impl"]


def head():
    return '''#include "%s/witness/recvec.h"
namespace std{ CAFES_REC(double) CAFES_REC(int) }
#include "%s/witness/shape.h"
#include <cafes.hpp>
using namespace cafes;
''' % (HERE, HERE)


def types(d):
    return '''
using A@ = ashape<@>; using V@ = geometry::vector<double,@>; using X@ = geometry::position<double,@>; using I@ = geometry::position<int,@>;
using B@ = geometry::box<int,@>; using H@ = std::array<double,@>; using PV@ = petsc::petsc_vec<@>; using P@ = particle<A@>;
using Pb@ = problem::stokes<@>; using C@ = problem::particle_context<@,A@,Pb@>; using cr@ = std::conditional<@==2,double,V@>::type;
namespace std{ CAFES_REC(particle<A@>) }
extern "C" void w_lc@(C@& c, void const **__restrict o){ o[0]=&c.particles; o[1]=&c.surf_points; o[2]=&c.radial_vec; o[3]=&c.nb_surf_points; o[4]=&c.num; o[5]=c.problem.ctx->dm; o[6]=&c.problem.ctx->h; o[7]=c.problem.sol; o[8]=c.problem.rhs; o[9]=&c.problem.ctx->bc_; o[10]=&c.scale; o[11]=&c.compute_rhs; o[12]=&c.add_rigid_motion; o[13]=&c.compute_singularity; o[14]=&c.problem; o[15]=c.sol_tmp; }
extern "C" void w_lp@(std::size_t*__restrict o){ P@*q=0; o[0]=(std::size_t)&q->center_; o[1]=(std::size_t)&q->velocity_; o[2]=(std::size_t)&q->angular_velocity_; o[3]=(std::size_t)&q->force_; o[4]=(std::size_t)&q->rho_; o[5]=sizeof(*q); PV@*v=0; o[6]=(std::size_t)&v->pv_; o[7]=(std::size_t)&v->pvg_; }
'''.replace("@", str(d))


WIT = '''
extern "C" int w_rig@(std::vector<P@> const& p, std::vector<std::vector<V@>> const& r, std::vector<std::vector<V@>>& g){return problem::interp_rigid_motion_(p,r,g);}
extern "C" int w_i2s@(C@& c, std::vector<std::vector<V@>>& g, bool rm, bool s){return problem::interp_fluid_to_surf(c,g,rm,s);}
extern "C" int w_sl@(C@& c, std::vector<std::vector<V@>>& g, std::vector<V@>& m, std::vector<cr@>& x){return problem::simple_layer(c,g,m,x);}
extern "C" int w_s2r@(C@& c, std::vector<std::vector<V@>> const& g){return problem::SL_to_Rhs(c,g);}
extern "C" int w_pi@(std::vector<P@> const& p, PV@& s, B@ const& b, std::vector<V@>& m, std::vector<cr@>& x, std::vector<int> const& n, std::size_t sc, H@ const& h){return problem::projection_impl(p,s,b,m,x,n,sc,h);}
extern "C" int w_p@(C@& c, std::vector<V@>& m, std::vector<cr@>& x){return problem::projection<@>(c,m,x);}
'''


class Lay:
    """addresses inside a context and offsets inside a particle, found through the types"""
    def __init__(self, cx, m, d):
        F = Fn(m, "w_lc%d" % d)
        names = "particles surf rad nb num dm h sol rhs bc scale crhs rigid sing problem tmp".split()
        for k, n in enumerate(names):
            p = F.load(F.final_state, Ptr(F.argatoms[1], num(8 * k)), 8, "ptr")
            setattr(self, n, CN.ptr(F.asptr(p)))
        F = Fn(m, "w_lp%d" % d)
        o = [outval(F, 0, 8 * i).as_int() for i in range(8)]
        cx.need(None not in o, "layout of a particle not found")
        self.center, self.vel, self.ang, self.force, self.rho, self.size, self.pv, self.pvg = o
        self.dim = d


def ld(p, off=0):
    """address -> Ptr to what is stored there"""
    o = p.off + (off if isinstance(off, Poly) else num(off))
    return Ptr(atom("ld", p.root, o), ZERO)


def rd(p, off=0):
    return Poly.of(atom("ld", p.root, p.off + (off if isinstance(off, Poly) else num(off))))


def arr(p):
    """data pointer of the list object at p"""
    return ld(p)


def size(p):
    return rd(p, 8)


def at(base, k, sz):
    return Ptr(base.root, base.off + (k if isinstance(k, Poly) else num(k)).scale(sz))


def cross(d, w, r):
    """w x r (2D: scalar w)"""
    if d == 2:
        return [-(w[0] * r[1]), w[0] * r[0]]
    return [w[1] * r[2] - w[2] * r[1], w[2] * r[0] - w[0] * r[2], w[0] * r[1] - w[1] * r[0]]


def curl(d, r, g):
    """r x g (2D: its only component)"""
    if d == 2:
        return [r[0] * g[1] - r[1] * g[0]]
    return cross(3, r, g)


def calls(F, pat):
    return [e for e in F.effects if e.kind == "call" and re.search(pat, e.name)]


IO = r"^_ZNSt|^_ZSt.*(ostream|put|endl)|^_ZNSo"
MPI = r"^MPI_(Comm_size|Allreduce)$"


def dem(F, m, e):
    return m.dem.get(e.name, e.name)


def clean(cx, F, m, lab, stores, names):
    bad = []
    for e in F.effects:
        if e.kind == "store":
            if e.root.kind == "alloca" or e.root.kind == "glob" and "allreduce_ct" in str(e.root) or stores(e):
                continue
        elif re.search(IO + "|" + MPI + r"|^q_|^llvm\.mem", e.name) or any(re.search(n, dem(F, m, e)) for n in names):
            continue
        bad.append(e)
    cx.check(not bad, "no side effect", lab, "\n".join(str(x)[:300] for x in bad[:3]))


def nestok(cx, F, L, lab, count, facts=()):
    C = Canon()
    if not cx.check(L.count is not None, "all elements", lab, "open loop"):
        return
    c = C.poly(L.count)
    r = same(c, count, True, facts=tuple(facts) + (bnot(cmp_lt(count, ONE, True)),))
    cx.check(r is None, "all elements", lab, "%s rounds, required %s: %s" % (c, count, r))


def entered(cx, F, loops, lab, sizes=(), guard=TRUE):
    """outer loops are always entered when there is something to visit, and never else"""
    class E:
        pass
    e = E()
    e.loops = loops
    C = Canon()
    for (t, c, g), _ in zip(F.domain(e), loops):
        facts = [bnot(cmp_lt(x, ONE, True)) for x in sizes]
        if guard is not TRUE:
            facts.append(guard)
        r = same(C.bdd(g), TRUE, True, facts=facts)
        cx.check(r is None, "all elements", lab + ", always", "only if %s" % str(r)[:200])
    for t, g in F.entered_empty(e):
        r = same(C.bdd(g), FALSE, True, facts=[bnot(cmp_lt(x, ZERO, True)) for x in sizes])
        cx.check(r is None, "all elements", lab + ", empty", "entered: %s" % str(r)[:200])


def vecs(F, m):
    """petsc_vec objects: root -> (dm Ptr, vec Ptr, entry Poly, readonly BDD, constructor event)"""
    r = {}
    for e in F.effects:
        if e.kind == "call" and re.search(r"petsc_vec<.*>::petsc_vec\(", dem(F, m, e)):
            a = e.args
            r[F.asptr(a[0]).root] = (CN.ptr(F.asptr(a[1])), CN.ptr(F.asptr(a[2])), F.asint(a[3]), F.asbool(a[4]), e)
    return r


def node(v, lay, idx, k):
    """address of component k of the local (ghosted) values at a node"""
    p = Ptr(v, num(lay.pv))
    for a in range(lay.dim - 1, -1, -1):
        p = ld(p)
        p = Ptr(p.root, idx[a].scale(8))
    p = ld(p)
    return Ptr(p.root, num(8 * k))


def hat(c, x, h):
    w = ONE
    for a, b in enumerate(c):
        s = div(x[a], h[a])
        w = w * (s if b else ONE - s)
    return w


def corners(d):
    return [tuple((j >> a) & 1 for a in range(d)) for j in range(1 << d)]


def run(cx):
    src = head() + "".join(types(d) + WIT.replace("@", str(d)) for d in (2, 3))
    m = cx.ir(src, name="ops", noinline=OPS)
    ml = cx.ir(src, name="leaf", noinline=OPS[:3])
    for d in (2, 3):
        lay = Lay(cx, m, d)
        rigid(cx, ml, lay)
        interp(cx, m, lay)
        layer(cx, m, lay)
        rhs(cx, m, lay)
        project(cx, ml, lay)
        projection(cx, m, lay)


def listof(p, d, name):
    """matcher for list-of-lists p: element K, sample I0"""
    def f(q):
        b = ld(at(arr(p), K, 16))
        for a in range(d):
            if q == Ptr(b.root, I[0].scale(8 * d) + num(8 * a)):
                return (name, a)
        return None
    return f


def flat(p, n, name):
    def f(q):
        b = arr(p)
        for a in range(n):
            if q == Ptr(b.root, K.scale(8 * n) + num(8 * a)):
                return (name, a)
        return None
    return f


def either(*fs):
    def f(q):
        for g in fs:
            r = g(q)
            if r is not None:
                return r
    return f


def rigid(cx, m, lay):
    d = lay.dim
    F = Fn(m, "w_rig%d" % d)
    lab = "rigid motion, %dD" % d
    cx.saw(lab)
    A = [Ptr(a, ZERO) for a in F.argatoms]
    E = Elems(F, listof(A[2], d, "g"))
    clean(cx, F, m, lab, lambda e: E.cell(e) is not None, ())
    st = [e for e in F.effects if e.kind == "store" and E.store(e)]
    over(cx, F, E, lab, [size(A[1]), rd(at(arr(A[1]), K, 16), 8)])
    pt = at(arr(A[0]), K, lay.size)
    w = [rd(pt, lay.ang + 8 * a) for a in range(1 if d == 2 else 3)]
    r = ld(at(arr(A[1]), K, 16))
    r = [rd(r, I[0].scale(8 * d) + num(8 * a)) for a in range(d)]
    c = cross(d, w, r)
    for a in range(d):
        want = E.init(("g", a)) - rd(pt, lay.vel + 8 * a) - c[a]
        got = E.get(("g", a))
        cx.check(zero(got - want), "rigid motion", "%s, %s" % (lab, AX[a]), "becomes %s" % str(got)[:300])


def over(cx, F, E, lab, counts, guard=TRUE):
    """the nests seen are loops over everything, in as many levels as counts"""
    done = set()
    for e in F.effects:
        for j, L in enumerate(e.loops):
            if id(L) in done or e.kind == "call" and not e.name.startswith("llvm.mem") and not e.name.startswith("q_"):
                continue
            done.add(id(L))
            if j >= len(counts):
                cx.check(False, "all elements", lab, "a loop too many")
                continue
            C = E.tsub(CN.poly(L.count), e.loops) if L.count is not None else None
            r = "open loop" if C is None else same(C, counts[j], True, facts=(bnot(cmp_lt(counts[j], ONE, True)),))
            cx.check(r is None, "all elements", "%s, loop %d" % (lab, len(done)), "%s rounds, required %s" % (C, counts[j]))

            class X:
                loops = e.loops[:j + 1]
            t, c, g = F.domain(X)[-1]
            facts = [bnot(cmp_lt(x, ONE, True)) for x in counts[:j + 1]]
            if guard is not TRUE:
                facts.append(guard)
            r = same(E.tbdd(g, e.loops), TRUE, True, facts=facts)
            cx.check(r is None, "all elements", "%s, loop %d always" % (lab, len(done)), "only if %s" % str(r)[:200])
            for t, g in F.entered_empty(X)[-1:]:
                r = same(E.tbdd(g, e.loops), FALSE, True, facts=[bnot(cmp_lt(x, ZERO, True)) for x in counts[:j + 1]])
                cx.check(r is None, "all elements", "%s, loop %d empty" % (lab, len(done)), "entered: %s" % str(r)[:200])
    cx.check(bool(done), "all elements", lab, "no loop")


def samples(lay):
    """element and offset in it of sample I0 of particle K"""
    d = lay.dim
    b = ld(at(arr(lay.surf), K, 16))
    o = 8 if d == 2 else 16
    sz = o + 8 * d
    i = [rd(b, I[0].scale(sz) + num(4 * a)) for a in range(d)]
    x = [rd(b, I[0].scale(sz) + num(o + 8 * a)) for a in range(d)]
    return i, x, rd(at(arr(lay.surf), K, 16), 8)


def interp(cx, m, lay):
    d = lay.dim
    F = Fn(m, "w_i2s%d" % d)
    lab = "interpolation, %dD" % d
    cx.saw(lab)
    g = Ptr(F.argatoms[1], ZERO)
    E = Elems(F, listof(g, d, "g"))
    V = vecs(F, m)
    if not cx.check(len(V) == 1, "interpolation", lab + ", field", "%d vectors" % len(V)):
        return
    v, (dm, vec, en, ro, ce) = next(iter(V.items()))
    cx.check(dm == lay.dm and vec == lay.sol and en == ZERO and CN.bdd(ce.guard) is TRUE, "interpolation", lab + ", velocity of the solution", "%s of %s" % (en, vec))
    clean(cx, F, m, lab, lambda e: E.cell(e) is not None, [r"petsc_vec<.*>::(petsc_vec|~petsc_vec|global_to_local)\(", "interp_rigid"])
    for e in F.effects:
        if e.kind == "store":
            E.store(e)
        elif e.name.startswith("llvm.memset"):
            E.zero(e, 8 * d)
    gl = [e for e in F.effects if e.kind == "call" and "global_to_local" in dem(F, m, e)]
    first = min([e.order for e in F.effects if e.loops] or [0])
    cx.check(len(gl) == 1 and F.asptr(gl[0].args[0]).root is v and F.asint(gl[0].args[1]).as_int() == 1 and CN.bdd(gl[0].guard) is TRUE and not gl[0].loops and gl[0].order < first, "interpolation", lab + ", ghost values", "not fetched once before use")
    idx, x, n = samples(lay)
    over(cx, F, E, lab, [size(lay.surf), n])
    h = [rd(lay.h, 8 * a) for a in range(d)]
    for a in range(d):
        w = ZERO
        for c in corners(d):
            p = node(v, lay, [idx[b] + num(c[b]) for b in range(d)], a)
            w = w + hat(c, x, h) * rd(p)
        got = E.get(("g", a))
        cx.check(zero(got - w), "interpolation", "%s, %s" % (lab, AX[a]), "becomes %s" % str(got)[:300])
    rm = [e for e in F.effects if e.kind == "call" and "interp_rigid" in dem(F, m, e)]
    if cx.check(len(rm) == 1, "interpolation", lab + ", rigid motion", "%d calls" % len(rm)):
        e = rm[0]
        ok = [CN.ptr(F.asptr(a)) for a in e.args] == [lay.particles, lay.rad, g]
        cx.check(ok and same(CN.bdd(e.guard), bvar(("b", F.argatoms[2])), True) is None and not e.loops, "interpolation", lab + ", rigid motion on request", "%s if %s" % (e, e.guard))
        cx.check(e.order > max(x.order for x in F.effects if x.loops), "interpolation", lab + ", rigid motion last", "before the interpolation")


def reduce(cx, F, E, lab, what, p, n, comps, name, ty="double"):
    """one sum over the processes of the whole list"""
    r = [e for e in calls(F, "^MPI_Allreduce$") if CN.ptr(F.asptr(e.args[1])) == arr(p)]
    if not cx.check(len(r) == 1, "sum over processes", "%s, %s" % (lab, what), "%d reductions" % len(r)):
        return None
    e = r[0]
    ok = zero(CN.poly(F.asint(e.args[2])) - n.scale(comps)) and "ompi_mpi_" + ty in str(e.args[3]) and "op_sum" in str(e.args[4]) and "PETSC_COMM_WORLD" in str(e.args[5]) and CN.bdd(e.guard) is TRUE and not e.loops and "inttoptr', ['int', 1" in str(e.args[0])
    cx.check(ok, "sum over processes", "%s, %s, whole list" % (lab, what), str(e)[:300])
    return e


def replay(F, E, d, reds):
    """all effects in order; reds: event -> name of the list it sums"""
    for e in F.effects:
        if e.kind == "store":
            E.store(e)
        elif e.name.startswith("llvm.memset"):
            n = F.asint(e.args[2]).as_int()
            E.zero(e, n if n is not None else 0)
        elif e in reds:
            E.event(e, lambda k, s: Poly.of(atom("sym", "allproc", k, s)) if k[0] == reds[e] else s)


def parts(E, key):
    return [p for k, _, p in E.sums.values() if k == key]


def layer(cx, m, lay):
    d = lay.dim
    nc = 1 if d == 2 else 3
    F = Fn(m, "w_sl%d" % d)
    lab = "single layer, %dD" % d
    cx.saw(lab)
    g, me, cr = (Ptr(a, ZERO) for a in F.argatoms[1:4])
    E = Elems(F, either(listof(g, d, "g"), flat(me, d, "mean"), flat(cr, nc, "cross")))
    clean(cx, F, m, lab, lambda e: E.cell(e) is not None, ())
    e1 = reduce(cx, F, E, lab, "mean", me, size(me), d, "mean")
    e2 = reduce(cx, F, E, lab, "moment", cr, size(cr), nc, "cross")
    if e1 is None or e2 is None:
        return
    for j in range(nc):
        E.get(("cross", j))
    for a in range(d):
        E.get(("mean", a)), E.get(("g", a))
    replay(F, E, d, {e1: "mean", e2: "cross"})
    cx.check(not E.bad, "single layer", lab + ", accumulations", str(E.bad[:1])[:300])
    over(cx, F, E, lab, [size(g), rd(at(arr(g), K, 16), 8)])
    r = ld(at(arr(lay.rad), K, 16))
    r = [rd(r, I[0].scale(8 * d) + num(8 * a)) for a in range(d)]
    g0 = [E.init(("g", a)) for a in range(d)]
    nb = rd(arr(lay.nb), K.scale(4))
    cd = fn("q_cd", F.asint(at(arr(lay.particles), K, lay.size)))
    ok = True
    S = {}
    for key, inc in [(("mean", a), g0[a]) for a in range(d)] + [(("cross", j), c) for j, c in enumerate(curl(d, r, g0))]:
        ps = parts(E, key)
        lb = "%s, %s %s" % (lab, key[0], AX[key[1]])
        if not cx.check(len(ps) == 1, "single layer", lb + ", one sum", "%d sums" % len(ps)):
            return
        Ls, gd, v = ps[0]
        cx.check(gd is TRUE and zero(v - inc) and len(Ls) == 2, "single layer", lb + ", term", "adds %s if %s" % (str(v)[:300], gd))
        s = [Poly.of(x) for x, y in E.sums.items() if y[0] == key][0]
        S[key] = Poly.of(atom("sym", "allproc", key, E.init(key) + s))
    mean = [div(S["mean", a], nb) for a in range(d)]
    cro = [div(S["cross", j] * cd, nb) for j in range(nc)]
    for a in range(d):
        v = E.get(("mean", a))
        cx.check(zero(v - mean[a]), "single layer", "%s, mean %s" % (lab, AX[a]), str(v)[:300])
    for j in range(nc):
        v = E.get(("cross", j))
        cx.check(zero(v - cro[j]), "single layer", "%s, moment %s" % (lab, AX[j]), str(v)[:300])
    c = cross(d, cro, r)
    for a in range(d):
        v = E.get(("g", a))
        cx.check(zero(v - (g0[a] - mean[a] - c[a])), "single layer", "%s, sample %s" % (lab, AX[a]), str(v)[:400])


def rhs(cx, m, lay):
    d = lay.dim
    F = Fn(m, "w_s2r%d" % d)
    lab = "surface density to right-hand side, %dD" % d
    cx.saw(lab)
    g = Ptr(F.argatoms[1], ZERO)
    V = vecs(F, m)
    w = [x for x in V.items() if x[1][3] is FALSE]
    n = [x for x in V.items() if x[1][3] is TRUE or x[1][3] is not FALSE]
    ok = all(x[1][0] == lay.dm and x[1][1] == lay.rhs and x[1][2] == ZERO for x in V.items())
    if not cx.check(len(w) == 1 and ok, "right-hand side", lab + ", velocity of the right-hand side", str([str(x[1][1]) for x in V.items()])):
        return
    v = w[0][0]
    E = Elems(F, lambda q: None)
    idx, x, ns = samples(lay)
    cells = {}
    for c in corners(d):
        for a in range(d):
            p = node(v, lay, [idx[b] + num(c[b]) for b in range(d)], a)
            cells[p] = (c, a)
    hit = {}
    bad = []
    for e in F.effects:
        if e.kind == "store" and e.root.kind != "alloca":
            p = E.addr(Ptr(e.root, e.ofs), e.loops)
            if p in cells:
                hit.setdefault(cells[p], []).append(e)
            else:
                bad.append(e)
    cx.check(not bad, "right-hand side", lab + ", nodes of the element", str(bad[:1])[:400])
    clean(cx, F, m, lab, lambda e: True, [r"petsc_vec<.*>::(petsc_vec|~petsc_vec|fill|local_to_global)\(", "SetNullDirichletOnRHS", "^VecSet$"])
    over(cx, F, E, lab, [size(g), ns])
    h = [rd(lay.h, 8 * a) for a in range(d)]
    pt = at(arr(lay.particles), K, lay.size)
    gam = div(fn("q_area", F.asint(pt)), rd(arr(lay.nb), K.scale(4)))
    gs = ld(at(arr(g), K, 16))
    for (c, a) in sorted(cells.values()):
        es = hit.get((c, a), [])
        lb = "%s, node %s, %s" % (lab, c, AX[a])
        if not cx.check(len(es) == 1 and len(es[0].loops) == 2 and E.tbdd(es[0].guard, es[0].loops) is TRUE, "right-hand side", lb, "%d contributions" % len(es)):
            continue
        e = es[0]
        val = E.value(F.asint(e.val), e.loops, e)
        own = E.addr(Ptr(e.root, e.ofs), e.loops)
        inc = val - rd(own)
        want = rd(gs, I[0].scale(8 * d) + num(8 * a)) * hat(c, x, h) * gam
        cx.check(zero(inc - want), "right-hand side", lb + ", value", "adds %s" % str(inc)[:300])
    # ---- order: empty, add, send to owners, boundary rows
    T = [e.order for l in hit.values() for e in l] or [0]

    def once(pat, what, before, test):
        es = [e for e in F.effects if e.kind == "call" and re.search(pat, dem(F, m, e))]
        ok = len(es) == 1 and CN.bdd(es[0].guard) is TRUE and not es[0].loops
        ok = ok and (es[0].order < min(T) if before else es[0].order > max(T)) and test(es[0])
        cx.check(ok, "right-hand side", "%s, %s" % (lab, what), str(es)[:300])
        return es[0] if ok else None
    once(r"^VecSet$", "starts from 0", True, lambda e: CN.ptr(F.asptr(e.args[0])) == lay.rhs and F.asint(e.args[1]) == ZERO)
    once(r"::fill\(", "local contributions start from 0", True, lambda e: F.asptr(e.args[0]).root is v and F.asint(e.args[1]) == ZERO)
    s = once(r"::local_to_global\(", "added over processes", False, lambda e: F.asptr(e.args[0]).root is v and F.asint(e.args[1]).as_int() == 2)
    b = once(r"SetNullDirichletOnRHS", "boundary rows", False, lambda e: F.asptr(e.args[0]).root in V)
    if b is not None:
        q = F.asptr(b.args[0]).root
        cx.check(q in V and V[q][1] == lay.rhs and V[q][2] == ZERO, "right-hand side", lab + ", boundary rows of the right-hand side", str(b))
        cx.check(bcarg(F, b, lay), "right-hand side", lab + ", boundary conditions", str(b)[:300])
    if s is not None and b is not None:
        cx.check(s.order < b.order, "right-hand side", lab + ", boundary rows last", "before the sum")


def bcarg(F, b, lay):
    """the conditions passed are those of the problem, by reference or copied"""
    p = CN.ptr(F.asptr(b.args[1]))
    if p == lay.bc:
        return True
    if p.root.kind == "alloca":
        q = CN.val(F.load(b.pre, F.asptr(b.args[1]), 8, "ptr"))
        return q == ld(lay.bc) or str(ld(lay.bc)) in str(q)
    return False


def project(cx, m, lay):
    d = lay.dim
    nc = 1 if d == 2 else 3
    F = Fn(m, "w_pi%d" % d)
    lab = "projection, %dD" % d
    cx.saw(lab)
    ps, sol, bx, me, cr, nm = (Ptr(a, ZERO) for a in F.argatoms[:6])
    sc = Poly.of(F.argatoms[6])
    h = [Poly.of(atom("ld", F.argatoms[7], num(8 * a))) for a in range(d)]
    E = Elems(F, either(flat(me, d, "mean"), flat(cr, nc, "cross")))
    clean(cx, F, m, lab, lambda e: E.cell(e) is not None, ())
    for j in range(nc):
        E.get(("cross", j))
    for a in range(d):
        E.get(("mean", a))
    replay(F, E, d, {})
    cx.check(not E.bad, "projection", lab + ", accumulations", str(E.bad[:1])[:300])
    n = size(ps)
    pt = at(arr(ps), K, lay.size)
    pp = F.asint(pt)
    B = [Poly.of(atom("ld", bx.root, num(4 * k))) for k in range(2 * d)]
    pb = [fn("q_box%d" % d, pp, num(k), *h) for k in range(2 * d)]
    meet = TRUE
    for a in range(d):
        meet = band(meet, band(bnot(cmp_lt(pb[d + a], B[a], True)), bnot(cmp_lt(B[d + a], pb[a], True))))
    boxes = ordered(B, pb)
    lo = [mx(B[a], pb[a]) for a in range(d)]
    N = [mn(B[d + a], pb[d + a]) - lo[a] for a in range(d)]
    num_ = rd(arr(nm), K.scale(4))
    # increments
    seen = None
    for key in [("mean", a) for a in range(d)] + [("cross", j) for j in range(nc)]:
        q = parts(E, key)
        lb = "%s, %s %s" % (lab, key[0], AX[key[1]])
        if not cx.check(len(q) == 1 and len(q[0][0]) == 1 + 2 * d, "projection", lb + ", one sum over nodes and sub-points", "%d sums" % len(q)):
            return
        Ls, gd, v = q[0]
        if seen is None:
            seen = Ls
            T = axes(cx, F, E, m, lay, lab, Ls, lo, N, h, sc, pp, meet, n, boxes)
            if T is None:
                return
        cx.check([id(x) for x in Ls] == [id(x) for x in seen], "projection", lb + ", same points", "other loops")
        el, sub = T
        y = [(lo[a] + el[a] + div(sub[a], sc)) * h[a] for a in range(d)]
        inside = [c for c in calls(F, r"^q_contains") if [id(x) for x in c.loops] == [id(x) for x in Ls]]
        okc = len(inside) == 1
        if okc:
            r = same(gd, E.tbdd(F.asbool(inside[0].ret), Ls), True, facts=(meet,))
            okc = r is None
        cx.check(okc, "projection", lb + ", points inside", "if %s" % str(gd)[:200])
        xs = [div(sub[a], sc) * h[a] for a in range(d)]
        u = []
        for a in range(d):
            w = ZERO
            for c in corners(d):
                p = node(sol.root, lay, [lo[b] + el[b] + num(c[b]) for b in range(d)], a)
                w = w + hat(c, xs, h) * rd(p)
            u.append(w)
        rr = [y[a] - rd(pt, lay.center + 8 * a) for a in range(d)]
        want = u[key[1]] if key[0] == "mean" else curl(d, rr, u)[key[1]]
        r = None if zero(v - want) else same(v, want, True, facts=(meet,))
        cx.check(r is None, "projection", lb + ", term", "adds %s" % str(r)[:300])
        s = [Poly.of(x) for x, z in E.sums.items() if z[0] == key][0]
        got = E.get(key) * num_
        nat = bnot(cmp_lt(sc, ZERO, True))
        full = [nat] + [F.push_lt(ZERO, x, True) for x in N] + [cmp_lt(ZERO, sc, True), meet] + list(boxes)
        r = same(got, s, True, facts=full)
        cx.check(r is None, "projection", lb + ", average", str(r)[-600:])
        none = rewrite(got, lambda x: ZERO if x.kind == "sym" and x.args[0] in ("sum", "partial") else None, {})
        for what, f in [("particle elsewhere", bnot(meet))] + [("no element " + AX[a], bnot(F.push_lt(ZERO, x, True))) for a, x in enumerate(N)]:
            r = same(none, ZERO, True, facts=[f, cmp_lt(ZERO, sc, True)] + list(boxes))
            cx.check(r is None, "projection", "%s, %s" % (lb, what), str(r)[-600:])


def axes(cx, F, E, m, lay, lab, Ls, lo, N, h, sc, pp, meet, n, boxes):
    """which loop runs over the elements and which over the sub-points of each axis"""
    d = lay.dim
    q = [c for c in calls(F, r"^q_contains") if [id(x) for x in c.loops] == [id(x) for x in Ls]]
    if not cx.check(len(q) == 1, "projection", lab + ", inside test", "%d tests" % len(q)):
        return None
    q = q[0]
    cx.check(F.asint(E.addr(F.asptr(q.args[0]), Ls)) == pp, "projection", lab + ", inside test, particle", str(q.args[0]))

    class X:
        loops = Ls
    dom = [(E.tsub(CN.poly(c), Ls) if c is not None else None, E.tbdd(g, Ls)) for t, c, g in F.domain(X)]
    if not cx.check(dom[0][0] is not None and same(dom[0][0], n, True, facts=(bnot(cmp_lt(n, ONE, True)),)) is None, "projection", lab + ", all particles", "%s rounds" % dom[0][0]):
        return None
    el, sub = [], []
    used = set()
    for a in range(d):
        x = E.value(F.asint(q.args[1 + a]), Ls, q)
        ts = [j for j in range(2 * d) if I[j].as_atom().id in all_atoms(x) and j not in used]
        done = False
        for j, k in ((ts + [None, None])[:2], (ts + [None, None])[:2][::-1]):
            if j is None or k is None:
                continue
            want = (lo[a] + I[j] + div(I[k], sc)) * h[a]
            if same(x, want, True, facts=(meet,)) is None:
                used |= {j, k}
                el.append(I[j])
                sub.append(I[k])
                cj, ck = dom[1 + j][0], dom[1 + k][0]
                r = same(cj, N[a], True, facts=(meet, cmp_lt(ZERO, N[a], True))) if cj is not None else "open loop"
                if r is not None and cj is not None and cj == N[a]:
                    r = None
                cx.check(r is None, "projection", "%s, elements %s" % (lab, AX[a]), "%s elements: %s" % (cj, str(r)[:200]))
                cx.check(ck is not None and ck == sc, "projection", "%s, subdivision %s" % (lab, AX[a]), "%s sub-points" % ck)
                done = True
                break
        if not cx.check(done, "projection", "%s, sub-point %s" % (lab, AX[a]), str(x)[:300]):
            return None
    # the nest is entered exactly when the particle meets the range
    g = TRUE
    for c, gg in dom[1:]:
        g = band(g, gg)
    nonempty = [cmp_lt(ZERO, x, True) for x in N] + [cmp_lt(ZERO, sc, True)]
    r = same(g, meet, True, facts=nonempty + list(boxes))
    cx.check(r is None, "projection", lab + ", particles meeting the range", str(r)[:300])
    return el, sub


def boxwords(F, b, d):
    """words of the range returned by a call"""
    if d == 2:
        r = b.ret[1] if isinstance(b.ret, tuple) else b.ret.as_atom()
        return [str(fn("part", Poly.of(atom("ev", r, (k // 2,))), num(4 * (k % 2)), num(4))) for k in range(4)]
    p = F.asptr(b.args[0])
    nxt = min((e for e in F.effects if e.order > b.order), key=lambda e: e.order)
    return [str(CN.poly(F.asint(F.load(nxt.pre, Ptr(p.root, p.off + num(4 * k)), 4, "i32")))) for k in range(6)]


def boundsof(F, b, d):
    """(grid, component, without the last nodes) of a call that asks for the range of a process"""
    a = b.args[1:] if d == 3 else b.args
    i = F.asint(a[1]).as_int() if len(a) == 3 else None
    last = CN.bdd(a[-1])
    p = CN.ptr(F.asptr(a[0]))
    g = ld(p)
    return (g if g.root.kind != "ld" or p.root.kind != "alloca" else CN.ptr(F.asptr(F.load(b.pre, F.asptr(a[0]), 8, "ptr"))), i, True if last is TRUE else False if last is FALSE else None)


def projection(cx, m, lay):
    d = lay.dim
    nc = 1 if d == 2 else 3
    F = Fn(m, "w_p%d" % d)
    lab = "projection over processes, %dD" % d
    cx.saw(lab)
    me, cr = (Ptr(a, ZERO) for a in F.argatoms[1:3])
    clean(cx, F, m, lab, lambda e: False, [r"petsc_vec<.*>::(petsc_vec|~petsc_vec|global_to_local)\(", "projection_impl", "get_DM_bounds"])
    V = vecs(F, m)
    pi = [e for e in F.effects if e.kind == "call" and "projection_impl" in dem(F, m, e)]
    bo = [e for e in F.effects if e.kind == "call" and "get_DM_bounds" in dem(F, m, e)]
    gl = [e for e in F.effects if e.kind == "call" and "global_to_local" in dem(F, m, e)]
    if not cx.check(len(V) == 1 and len(pi) == 1 and len(bo) == 1 and len(gl) == 1 and all(CN.bdd(e.guard) is TRUE and not e.loops for e in pi + bo + gl), "projection", lab + ", steps", "%d local averages" % len(pi)):
        return
    v, (dm, vec, en, ro, ce) = next(iter(V.items()))
    cx.check(dm == lay.dm and vec == lay.sol and en == ZERO, "projection", lab + ", velocity of the solution", "%s of %s" % (en, vec))
    cx.check(F.asptr(gl[0].args[0]).root is v and F.asint(gl[0].args[1]).as_int() == 1 and gl[0].order < pi[0].order, "projection", lab + ", ghost values", str(gl[0]))
    a = [CN.val(x) for x in pi[0].args]
    want = [lay.particles, Ptr(v, ZERO), None, me, cr, lay.num, rd(lay.scale), lay.h]
    names = ["particles", "field", "range of the process", "mean", "moment", "numbers of sub-points", "subdivision", "spacing"]
    for x, w, nme in zip(a, want, names):
        if w is not None:
            cx.check(x == w, "projection", "%s, %s" % (lab, nme), "%s, required %s" % (x, w))
    box = boxwords(F, bo[0], d)
    got = [str(CN.poly(F.asint(F.load(pi[0].pre, Ptr(F.asptr(pi[0].args[2]).root, F.asptr(pi[0].args[2]).off + num(4 * k)), 4, "i32")))) for k in range(2 * d)]
    cx.check(got == box, "projection", lab + ", range of the process", str(got))
    cx.check(boundsof(F, bo[0], d) == (lay.dm, 0, True), "projection", lab + ", range of the velocity nodes", str(bo[0])[:300])
    E = None
    for p, what, c in ((me, "mean", d), (cr, "moment", nc)):
        e = reduce(cx, F, E, lab, what, p, size(p), c, what)
        if e is not None:
            cx.check(e.order > pi[0].order, "sum over processes", "%s, %s, after the local averages" % (lab, what), "before")
