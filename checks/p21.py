"""P21 forces and torques of the control, and singular contact forces"""
from irx import *
from cases import *
from calculus import zero
from elems import Elems, K, I
from p19 import head, Lay, boxwords, ld, rd, arr, size, at, cross, curl, boundsof, dem, CN, AX, IO, HERE, flat, either, reduce, replay, parts, calls
from p20 import Walk, fields, sym, _onto, words
import math, re
from fractions import Fraction
TITLE = "Forces and torques are the control's sums, plus contact forces"
LEVEL = "proof"
TRUSTED = "clang 18 front end and -O2 IR; irdump; MPI_Allreduce; witness/recvec.h and witness/shape.h; libm sin, cos, asin"
EXPLAIN = "The summation is replayed for one symbolic particle and node with an abstract shape; the contact forces for one symbolic pair and surface sample; every increment, result, loop nest and guard is compared with the defining formula."
MIN_OBLIGATIONS = 200
L0 = [r"find_fluid_points_insides", r"get_DM_bounds"]
L1 = L0 + [r"forces_torques_with_control"]
L2 = [r"compute_singular_forces_on_part", r"singularity<.*>::singularity\("]
L3 = [r"::get_grad_u_sing_ref", r"::get_p_sing_ref", r"::get_p_sing\b", r"::get_grad_u_sing\b"]

WIT = '''
struct FP@ { problem::context<@>* ctx; Vec sol, rhs; PetscErrorCode setup_RHS(); PetscErrorCode setup_KSP(); PetscErrorCode solve(); };
using A@ = ashape<@>; using V@ = geometry::vector<double,@>; using P@ = particle<A@>; using B@ = geometry::box<int,@>; using H@ = std::array<double,@>;
using cr@ = std::conditional<@==2,double,V@>::type; using PV@ = petsc::petsc_vec<@>;
namespace std{ CAFES_REC(particle<A@>) CAFES_REC(cafes::physics::force<@>) }
using C@ = problem::particle_context<@,A@,FP@>; using S@ = problem::SEM<A@,@,FP@>; using D@ = problem::DtoN<A@,@,FP@>;
namespace cafes{ namespace singularity{ template<> PetscErrorCode compute_singular_forces<@,A@>(std::vector<particle<A@>> const&, std::vector<physics::force<@>>&, std::array<double,@> const&, std::size_t); } }
extern "C" void w_lc@(C@& c, void const **__restrict o){ o[0]=&c.particles; o[1]=&c.surf_points; o[2]=&c.radial_vec; o[3]=&c.nb_surf_points; o[4]=&c.num; o[5]=c.problem.ctx->dm; o[6]=&c.problem.ctx->h; o[7]=c.problem.sol; o[8]=c.problem.rhs; o[9]=&c.problem.ctx->bc_; o[10]=&c.scale; o[11]=&c.compute_rhs; o[12]=&c.add_rigid_motion; o[13]=&c.compute_singularity; o[14]=&c.problem; o[15]=c.sol_tmp; }
extern "C" void w_lp@(std::size_t*__restrict o){ P@*q=0; o[0]=(std::size_t)&q->center_; o[1]=(std::size_t)&q->velocity_; o[2]=(std::size_t)&q->angular_velocity_; o[3]=(std::size_t)&q->force_; o[4]=(std::size_t)&q->rho_; o[5]=sizeof(*q); PV@*v=0; o[6]=(std::size_t)&v->pv_; o[7]=(std::size_t)&v->pvg_; }
extern "C" void w_ls@(S@& c, void const **__restrict o){ o[0]=&c.parts_; o[1]=&c.surf_points_; o[2]=&c.radial_vec_; o[3]=&c.nb_surf_points_; o[4]=&c.num_; o[5]=&c.problem_; o[6]=&c.ctx; o[7]=&c.sol; o[8]=&c.rhs; o[9]=&c.A; o[10]=&c.ksp; o[11]=&c.scale_; o[12]=&c.dpart_; }
extern "C" void w_lf@(FP@& c, void const **__restrict o){ o[0]=&c.ctx->dm; o[1]=&c.ctx->h; o[2]=&c.sol; o[3]=&c.rhs; }
extern "C" int w_ft@(std::vector<P@> const& p, Vec c, B@ const& b, std::vector<V@>& f, std::vector<cr@>& t, H@ const& h, bool s){return forces_torques_with_control(p,c,b,f,t,h,s);}
extern "C" int w_sg@(S@& s, std::vector<V@>& f, std::vector<cr@>& t){return s.get_new_forces_torques(f,t);}
'''
WIT2 = '''
#include <cafes.hpp>
using namespace cafes;
template<class S,std::size_t D> using SG = singularity::singularity<S,D>;
namespace std{ CAFES_REC(particle<geometry::circle<>>) CAFES_REC(particle<geometry::sphere<>>) CAFES_REC(cafes::physics::force<2>) CAFES_REC(cafes::physics::force<3>) }
extern "C" int w_v2(std::vector<particle<geometry::circle<>>> const& p, std::vector<physics::force<2>>& f, std::array<double,2> const& h, std::size_t N){return singularity::compute_singular_forces<2,geometry::circle<>>(p,f,h,N);}
extern "C" int w_v3(std::vector<particle<geometry::sphere<>>> const& p, std::vector<physics::force<3>>& f, std::array<double,3> const& h, std::size_t N){return singularity::compute_singular_forces<3,geometry::sphere<>>(p,f,h,N);}
template<std::size_t D> struct HH { std::array<double,D> const& h; };
template<class S,std::size_t D> struct KK { struct { HH<D>* ctx; } problem; std::vector<particle<S>>& particles; };
extern "C" int w_w2(std::vector<particle<geometry::circle<>>>& p, std::array<double,2> const& h, std::size_t N){HH<2> a{h}; KK<geometry::circle<>,2> k{{&a},p}; return singularity::compute_singular_forces<2,KK<geometry::circle<>,2>>(k,N);}
extern "C" std::size_t w_pf2(particle<geometry::circle<>>* p){ return (std::size_t)&p->force_ - (std::size_t)p; }
extern "C" int w_w3(std::vector<particle<geometry::sphere<>>>& p, std::array<double,3> const& h, std::size_t N){HH<3> a{h}; KK<geometry::sphere<>,3> k{{&a},p}; return singularity::compute_singular_forces<3,KK<geometry::sphere<>,3>>(k,N);}
extern "C" std::size_t w_pf3(particle<geometry::sphere<>>* p){ return (std::size_t)&p->force_ - (std::size_t)p; }
extern "C" void w_c2(physics::force<2>*__restrict o, SG<geometry::circle<>,2> const& s, std::size_t N){*o = singularity::compute_singular_forces(s,N);}
extern "C" void w_a2(physics::force<2>*__restrict o, SG<geometry::circle<>,2> const& s, std::size_t N){*o = singularity::compute_singular_forces_on_part1(s,N);}
extern "C" void w_b2(physics::force<2>*__restrict o, SG<geometry::circle<>,2> const& s, std::size_t N){*o = singularity::compute_singular_forces_on_part2(s,N);}
extern "C" void w_a3(physics::force<3>*__restrict o, SG<geometry::sphere<>,3> const& s, std::size_t N){*o = singularity::compute_singular_forces_on_part1(s,N);}
extern "C" void w_b3(physics::force<3>*__restrict o, SG<geometry::sphere<>,3> const& s, std::size_t N){*o = singularity::compute_singular_forces_on_part2(s,N);}
extern "C" void w_lq2(SG<geometry::circle<>,2>& s, void const **__restrict o){ o[0]=&s.base_[0][0]; o[1]=&s.base_[0][1]; o[2]=&s.base_[1][0]; o[3]=&s.H1_; o[4]=&s.H2_; o[5]=&s.contact_length_; o[6]=&s.cutoff_dist_; o[7]=&s.is_singularity_; o[8]=&s+1; }
extern "C" void w_lq3(SG<geometry::sphere<>,3>& s, void const **__restrict o){ o[0]=&s.base_[0][0]; o[1]=&s.base_[0][1]; o[2]=&s.base_[1][0]; o[3]=&s.H1_; o[4]=&s.H2_; o[5]=&s.contact_length_; o[6]=&s.cutoff_dist_; o[7]=&s.is_singularity_; o[8]=&s+1; }
extern "C" void w_ps2(particle<geometry::circle<>>& s, void const **__restrict o){ o[0]=&s+1; }
extern "C" void w_ps3(particle<geometry::sphere<>>& s, void const **__restrict o){ o[0]=&s+1; }
'''


def src():
    return head() + "".join(WIT.replace("@", str(d)) for d in (2, 3))


def src2():
    return '#include "%s/witness/recvec.h"\n' % HERE + WIT2


class Lists(Elems):
    """lists of one length N seen through the walk over particles and nodes"""
    def __init__(self, F, W, match, sizes, N):
        Elems.__init__(self, F, match)
        self.W, self.sizes, self.N = W, sizes, N
        self.some = {}
        for g in (cmp_lt(N, ONE, True), cmp_lt(N, ONE), cmp_eq(N, ZERO)):
            (v,) = support(g)
            self.some[v] = 0 if cofactor(g, v, 1) is TRUE else 1

    def fix(self, a):
        for z in self.sizes:
            if a is z.as_atom():
                return self.N
        r = self.W.tr(a)
        if r is not None and r.as_atom() is not a:
            return rewrite(r, self.fix, {}) if a.kind in ("ld", "p2i") and r.as_atom() is not None and r.as_atom().kind != "sym" else r
        return None

    def tsub(self, p, loops):
        return rewrite(Elems.tsub(self, p, loops), self.fix, {})

    def tbdd(self, g, loops, e=None):
        from cases import _subst
        g = Elems.tbdd(self, g, loops)
        if g is TRUE or g is FALSE:
            return g
        return _subst(rewrite_bdd(g, self.fix, {}), self.some)

    def guard(self, e):
        """condition of the statement and of entering its outermost loop, with particles"""
        g = self.tbdd(e.guard, e.loops)
        if e.loops:
            class X:
                loops = e.loops[:1]
            g = band(g, self.tbdd(self.F.domain(X)[0][2], e.loops))
        return g

    def full(self, L):
        """does the outermost loop run over the whole lists?"""
        c = self.tsub(CN.poly(L.count), [L]) if L.count is not None else None
        return "open loop" if c is None else same(c, self.N, True, facts=(bnot(cmp_lt(self.N, ONE, True)),))


def sums(cx, m, d, lp):
    nc = 1 if d == 2 else 3
    F = Fn(m, "w_ft%d" % d)
    lab = "sums of the control, %dD" % d
    cx.saw(lab)
    ps, ctl, bx, fo, to, h = (Ptr(a, ZERO) for a in F.argatoms[:6])

    class L:
        pass
    lay = L()
    lay.particles, lay.h, lay.dim = ps, h, d
    lay.center, lay.size = lp.center, lp.size
    W = Walk(cx, F, m, lay, lab, bx)
    if not W.ok:
        return
    g = [e for e in F.effects if e.kind == "call" and e.name == "VecGetArrayRead"]
    if not cx.check(len(g) == 1 and not g[0].loops and F.asptr(g[0].args[0]) == ctl, "sums of the control", lab + ", control read", str(g)[:200]):
        return
    px = ld(CN.ptr(F.asptr(g[0].args[1]))).root
    # local lists: the numbers of nodes, the contact forces
    al = [e for e in F.effects if e.kind == "call" and re.search(r"^_ZN11cafes_check3recI.*E(4fill|3fit)Em", e.name)]
    nums = [e for e in al if "recIi" in e.name]
    cont = [e for e in al if "recIN5cafes7physics5force" in e.name]
    cs = [e for e in F.effects if e.kind == "call" and "compute_singular_forces" in dem(F, m, e)]
    if not cx.check(len(nums) == 1 and len(cont) == 1 and len(cs) == 1, "sums of the control", lab + ", lists", "%d counts, %d contact lists, %d contact computations" % (len(nums), len(cont), len(cs))):
        return
    nl = CN.ptr(F.asptr(nums[0].args[0]))
    cl = CN.ptr(F.asptr(cont[0].args[0]))
    N = sym("N")
    sizes = [size(x) for x in (ps, fo, to, nl, cl)]

    def number(q):
        return ("num", 0) if q == Ptr(arr(nl).root, K.scale(4)) else None

    def alloc(e):
        n = E.tsub(CN.poly(F.asint(e.args[1])), [])
        cx.check(n == N and not e.loops, "sums of the control", lab + ", length of the lists", str(n))
        if "fill" in e.name:
            z = F.asint(F.load(e.pre, F.asptr(e.args[2]), 4, "i32"))
            cx.check(z == ZERO, "sums of the control", lab + ", counts start from 0", str(z))
    # the nodes
    body = [e for e in F.effects if e.kind == "store" and len(e.loops) == 2 and CN.ptr(Ptr(e.root, e.ofs)).root in (arr(fo).root, arr(to).root)]
    if not W.body(body):
        return
    E = Lists(F, W, either(flat(fo, d, "f"), flat(to, nc, "t"), flat(cl, d, "c"), number), sizes, N)
    for e in nums:
        alloc(e)
    names = [r"VecGetArrayRead$|VecRestoreArrayRead$|find_fluid|^llvm\.|operator delete|^_Zd|^_Znw|~|compute_singular_forces|^_ZN11cafes_check3rec"]
    for e in F.effects:
        if e.kind == "store":
            if e.root.kind == "alloca" or e.root.kind == "glob" and "allreduce_ct" in str(e.root) or E.cell(e) is not None:
                continue
        elif re.search(IO + r"|^MPI_(Comm_size|Allreduce)$|^q_|^llvm\.mem", e.name) or any(re.search(n, dem(F, m, e)) for n in names):
            continue
        cx.check(False, "no side effect", lab, str(e)[:300])
    E.st[("num", 0)] = ZERO
    reds = {}
    for p, k, n, ty in ((fo, "f", d, "double"), (to, "t", nc, "double"), (nl, "num", 1, "int")):
        r = [e for e in calls(F, "^MPI_Allreduce$") if CN.ptr(F.asptr(e.args[1])) == arr(p)]
        if not cx.check(len(r) == 1, "sums of the control", "%s, sum of %s over processes" % (lab, k), "%d reductions" % len(r)):
            return
        e = r[0]
        c = E.tsub(CN.poly(F.asint(e.args[2])), [])
        ok = c == N.scale(n) and "ompi_mpi_" + ty in str(e.args[3]) and "op_sum" in str(e.args[4]) and "PETSC_COMM_WORLD" in str(e.args[5]) and CN.bdd(e.guard) is TRUE and not e.loops and "inttoptr', ['int', 1" in str(e.args[0])
        cx.check(ok, "sums of the control", "%s, sum of %s over processes, whole list" % (lab, k), str(e)[:300])
        reds[e] = k
    for k, n in (("f", d), ("t", nc)):
        for a in range(n):
            E.get((k, a))
    for e in F.effects:
        if e.kind == "store":
            E.store(e)
        elif e.name.startswith("llvm.memset"):
            n = F.asint(e.args[2])
            whole = [(k, c) for p, k, c in ((fo, "f", d), (to, "t", nc), (nl, "num", .5)) if CN.ptr(F.asptr(e.args[0])) == arr(p) and not e.loops and rewrite(CN.poly(n), E.fix, {}) == N.scale(int(8 * c))]
            if whole:
                k = whole[0][0]
                E.event(e, lambda key, s: ZERO if key[0] == k else s)
            else:
                E.zero(e, n.as_int() or 0)
        elif e in reds:
            E.event(e, lambda key, s: Poly.of(atom("sym", "allproc", key, s)) if key[0] == reds[e] else s)
    cx.check(not E.bad, "sums of the control", lab + ", accumulations", str(E.bad[:1])[:300])
    for j, x in enumerate(E.nests):
        r = E.full(x)
        cx.check(r is None, "sums of the control", "%s, pass %d over everything" % (lab, j), str(r)[:200])
    # ---- terms
    idx = W.index()
    hh = [rd(h, 8 * a) for a in range(d)]
    r = [idx[b] * hh[b] - rd(W.pt, lay.center + 8 * b) for b in range(d)]
    S = {}
    entry = {}
    for key in [("f", a) for a in range(d)] + [("t", j) for j in range(nc)]:
        q = parts(E, key)
        lb = "%s, %s %s" % (lab, key[0], AX[key[1]])
        if not cx.check(len(q) == 1 and len(q[0][0]) == 2 and q[0][0][1] is W.inner, "sums of the control", lb + ", one sum", "%d sums" % len(q)):
            return
        Ls, gd, v = q[0]
        # entries of the control the term reads, by component
        look = {}

        def ent(a):
            if a.kind == "ld" and a.args[0] is px:
                c = W.position(W.term(a.args[1]))
                if c is not None:
                    return sym("entry", c)
            return None
        v = rewrite(W.term(v), ent, {})
        g = [sym("entry", a) for a in range(d)]
        want = g[key[1]] if key[0] == "f" else curl(d, r, g)[key[1]]
        cx.check(gd is TRUE and zero(v - W.term(want)), "sums of the control", lb + ", term", "adds %s if %s" % (str(v)[:300], str(gd)[:100]))
        s = [Poly.of(x) for x, y in E.sums.items() if y[0] == key][0]
        S[key] = Poly.of(atom("sym", "allproc", key, s))
    # ---- result
    cnt = None
    for x in set(y for key in S for y in iter_syms(E.get(key), "allproc")):
        if x.args[1] == ("num", 0):
            cnt = x
    if not cx.check(cnt is not None, "sums of the control", lab + ", counts", "not used"):
        return
    rr = same(cnt.args[2], ite(W.meet, W.nodes, ZERO), True, facts=(bnot(cmp_lt(W.nodes, ZERO, True)),) + W.boxes)
    cx.check(rr is None, "sums of the control", lab + ", counts the nodes", str(rr)[-300:])
    c = Poly.of(cnt)
    vol = fn("q_volume", F.asint(W.pt))
    on = bvar(("b", F.argatoms[6]))
    for key, s in S.items():
        want = ite(cmp_eq(c, ZERO), s, div(s * vol, c))
        if key[0] == "f":
            want = want + ite(on, E.init(("c", key[1])), ZERO)
        got = E.get(key)
        rr = same(got, want, True)
        cx.check(rr is None, "sums of the control", "%s, %s %s, result" % (lab, key[0], AX[key[1]]), str(rr)[-400:])
    # ---- contact forces
    alloc(cont[0])
    e = cs[0]
    a = [CN.ptr(F.asptr(x)) for x in e.args[:3]]
    rr = same(CN.bdd(e.guard), on, True)
    cx.check(a == [ps, cl, h] and rr is None and not e.loops, "contact forces", lab + ", on request", str(e)[:300])
    n = F.asint(e.args[3]).as_int()
    cx.check(n is not None and n >= 50, "contact forces", lab + ", quadrature", str(n))
    use = [x.order for x in F.effects if x.kind == "store" and x.loops and any(y.args[1] == ("c", 0) for y in iter_syms(E.value(F.asint(x.val), x.loops, x), "init"))]
    cx.check(use and e.order < min(use) and cont[0].order < e.order, "contact forces", lab + ", before use", "")


def wiring(cx, m, d):
    """which particles, control, range and spacing the mobility solver sums with"""
    o = fields(cx, m, d, "s")
    G = Fn(m, "w_lf%d" % d)
    dm, h = (_onto(CN.ptr(G.asptr(G.load(G.final_state, Ptr(G.argatoms[1], num(8 * k)), 8, "ptr"))), o["problem"]) for k in (0, 1))
    F = Fn(m, "w_sg%d" % d)
    lab = "forces of the mobility problem, %dD" % d
    cx.saw(lab)
    C = [e for e in F.effects if e.kind == "call" and not re.search(IO + r"|^llvm\.", e.name)]
    W = [e for e in F.effects if e.kind == "store" and e.root.kind != "alloca"]
    ft = [e for e in C if "forces_torques_with_control" in dem(F, m, e)]
    bo = [e for e in C if "get_DM_bounds" in dem(F, m, e)]
    if not cx.check(len(ft) == 1 and len(bo) == 1 and len(C) == 2 and not W and all(e.guard is TRUE and not e.loops for e in C), "wiring", lab + ", steps", str(C)[:300]):
        return
    e = ft[0]
    cx.check(boundsof(F, bo[0], d) in ((dm, 0, True), (ld(dm), 0, True)), "wiring", lab + ", range of the process", "%s, required %s" % (boundsof(F, bo[0], d), dm))
    box = boxwords(F, bo[0], d)
    got = [str(CN.poly(F.asint(F.load(e.pre, Ptr(F.asptr(e.args[2]).root, F.asptr(e.args[2]).off + num(4 * k)), 4, "i32")))) for k in range(2 * d)]
    cx.check(got == box, "wiring", lab + ", range passed on", str(got))
    want = dict(particles=(0, o["parts"]), control=(1, ld(o["sol"])), forces=(3, Ptr(F.argatoms[1], ZERO)), torques=(4, Ptr(F.argatoms[2], ZERO)))
    for k, (j, w) in want.items():
        q = CN.ptr(F.asptr(e.args[j]))
        cx.check(q == w, "wiring", "%s, %s" % (lab, k), "%s, required %s" % (q, w))
    q = F.asptr(e.args[5])
    got = [CN.poly(F.asint(F.load(e.pre, Ptr(q.root, q.off + num(8 * a)), 8, "double"))) for a in range(d)]
    cx.check(got == [rd(h, 8 * a) for a in range(d)], "wiring", lab + ", spacing", str(got[0]))
    cx.check(CN.bdd(F.asbool(e.args[6])) is FALSE, "wiring", lab + ", contact forces left out", str(e.args[6]))


def keeps(m, name, k, depth=0):
    """does the function leave what its k-th argument points to as it was?"""
    if depth > 3 or name not in m.fns:
        return False
    F = Fn(m, name)
    a = F.argatoms[k]
    for e in F.effects:
        if e.kind == "store" and e.root is a:
            return False
        if e.kind == "call":
            for j, x in enumerate(e.args):
                if isinstance(x, Ptr) and x.root is a:
                    if e.name.startswith("llvm.memcpy") and j == 1 or e.name.startswith("llvm.lifetime"):
                        continue
                    if not keeps(m, e.name, j, depth + 1):
                        return False
    return True


class Sing:
    def __init__(self, cx, m, d):
        F = Fn(m, "w_lq%d" % d)
        p = [CN.ptr(F.asptr(F.load(F.final_state, Ptr(F.argatoms[1], num(8 * k)), 8, "ptr"))) for k in range(9)]
        o = [x.off.as_int() for x in p]
        cx.need(None not in o, "layout of a singularity not found")
        self.H, self.gap, self.cut, self.flag = [o[3], o[4]], o[5], o[6], o[7]
        self.base = lambda i, j: o[0] + i * (o[2] - o[0]) + j * (o[1] - o[0])
        self.size = o[8]


def quadrature(cx, m, d, part, fun=None):
    """force of the singular stress on the part of a surface near the contact"""
    q = Sing(cx, m, d)
    F = Fn(m, "w_%s%d" % (fun or "ab"[part], d))
    lab = "contact force on particle %d%s, %dD" % (part + 1, " by itself" if fun else "", d)
    cx.saw(lab)
    me = F.argatoms[1]
    N = Poly.of(F.argatoms[2])
    copies = {me}
    for e in F.effects:
        if e.kind == "call" and e.name.startswith("llvm.memcpy") and F.asptr(e.args[1]) == Ptr(me, ZERO) and F.asint(e.args[2]).as_int() == q.size and not e.loops:
            copies.add(F.asptr(e.args[0]).root)
    gr = [e for e in F.effects if e.kind == "call" and "get_grad_u_sing_ref" in dem(F, m, e)]
    pr = [e for e in F.effects if e.kind == "call" and "get_p_sing_ref" in dem(F, m, e)]
    if not cx.check(len(gr) == 1 and len(pr) == 1, "contact forces", lab + ", stress in the frame of the pair", "%d gradients, %d pressures" % (len(gr), len(pr))):
        return
    gr, pr = gr[0], pr[0]
    Ls = gr.loops
    if not cx.check(len(Ls) == d - 1 and [id(x) for x in pr.loops] == [id(x) for x in Ls] and gr.guard is TRUE and pr.guard is TRUE, "contact forces", lab + ", samples", "%d loops" % len(Ls)):
        return
    g0 = F.asptr(gr.args[0])
    tr = {L.t: I[j] for j, L in enumerate(Ls)}
    ret = pr.ret.as_atom() if isinstance(pr.ret, Poly) else None

    def fix(a):
        if a in tr:
            return tr[a]
        if a is ret:
            return sym("p")
        if a.kind == "ld" and a.args[0] in copies and a.args[0] is not me:
            return Poly.of(atom("ld", me, a.args[1]))
        if a.kind == "ld" and a.args[0] is g0.root:
            o = (a.args[1] - g0.off).as_int()
            if o is not None and o % 8 == 0 and 0 <= o < 8 * d * d:
                return G(*divmod(o // 8, d))
        return None
    G = lambda i, j: sym("g", 0, 1) if d == 3 and {i, j} == {0, 1} else sym("g", i, j)
    term = lambda p: rewrite(CN.poly(F.closed(p)), fix, {})
    fld = lambda o: Poly.of(atom("ld", me, num(o)))
    H, gap = fld(q.H[part]), fld(q.gap)
    th = fn("asin", fld(q.cut) * H)
    # number of samples
    some = bnot(cmp_lt(N, ONE, True))
    want = [N + N] if d == 2 else [N, N]
    dom = F.domain(gr)
    for j, L in enumerate(Ls):
        c = CN.poly(L.count) if L.count is not None else None
        r = "open loop" if c is None else same(c, want[j], True, facts=(some,))
        cx.check(r is None, "contact forces", "%s, number of samples %d" % (lab, j), "%s, required %s" % (c, want[j]))
        r = same(CN.bdd(dom[j][2]), TRUE, True, facts=(some,))
        cx.check(r is None, "contact forces", "%s, samples %d always" % (lab, j), str(r)[:200])
    if d == 2:
        a = div((I[0] - N) * th, N)
        n = [fn("cos", a), fn("sin", a)]
        w = div(th, N * H)
        ax = 0
    else:
        a = div((I[0] + ONE) * th, N)
        b = div((I[1] + ONE) * num(Fraction(2 * math.pi)), N)
        n = [fn("sin", a) * fn("cos", b), fn("sin", a) * fn("sin", b), fn("cos", a)]
        w = div(num(Fraction(2 * math.pi)) * th * fn("sin", a), N * N * H * H)
        ax = 2
    pos = [div(x - (ONE if k == ax else ZERO), H) for k, x in enumerate(n)]
    if part:
        pos[ax] = gap - pos[ax]
        n[ax] = -n[ax]
    first = min(gr, pr, key=lambda e: e.order)
    for e, what in ((gr, "gradient"), (pr, "pressure")):
        s, x = (F.asptr(y) for y in e.args[-2:])
        pre = e.pre
        if e is not first and x == F.asptr(first.args[-1]) and keeps(m, first.name, len(first.args) - 1):
            if not any(first.order < y.order < e.order and (y.kind == "store" and y.root is x.root or y.kind == "call" and any(isinstance(z, Ptr) and z.root is x.root for z in y.args)) for y in F.effects):
                pre = first.pre
        cx.check(s.root in copies and s.off == ZERO, "contact forces", "%s, %s of the pair" % (lab, what), str(s))
        for k in range(d):
            v = term(F.asint(F.load(pre, Ptr(x.root, x.off + num(8 * k)), 8, "double")))
            cx.check(zero(v - pos[k]), "contact forces", "%s, %s, sample point %s" % (lab, what, AX[k]), "at %s" % str(v)[:300])
    tract = []
    for i in range(d):
        t = ZERO
        for j in range(d):
            t = t + (G(i, j) + G(j, i) - (sym("p") if i == j else ZERO)) * n[j]
        tract.append(t * w)
    # the accumulators
    acc, terms = {}, {}
    for k, x in Ls[-1].others.items():
        if len(x["latch"]) != 1:
            continue
        inc = F.closed(F.asint(F.latchval(x, x["latch"][0])) - Poly.of(x["atom"]))
        v = term(inc)
        hit = [i for i in range(d) if zero(v - tract[i])]
        if hit:
            acc[hit[0]] = x
            terms[x["atom"]] = inc
    if not cx.check(sorted(acc) == list(range(d)), "contact forces", lab + ", traction times area", "accumulated: %s" % [AX[i] for i in acc]):
        return
    for i, x in acc.items():
        last = lambda y: CN.poly(F.closed(F.asint(F.latchval(y, y["latch"][0]))))
        init = F.asint(x["init"])
        for L in Ls[-2::-1]:
            o = [y for y in L.others.values() if y["atom"] is init.as_atom()]
            if not cx.check(len(o) == 1 and len(o[0]["latch"]) == 1 and last(o[0]) == last(x), "contact forces", "%s, %s, carried over" % (lab, AX[i]), "restarts"):
                return
            init = F.asint(o[0]["init"])
        cx.check(init == ZERO, "contact forces", "%s, %s, starts from 0" % (lab, AX[i]), str(init))
    S = [sym("total", i) for i in range(d)]
    back = {x["atom"]: S[i] for i, x in acc.items()}
    # an accumulator behind the loop is its last value plus the last term
    f = lambda a: (back[a] - terms[a]) if a in back else None
    for k in range(d):
        v = F.closed(F.asint(F.load(F.final_state, Ptr(F.argatoms[0], num(8 * k)), 8, "double")))
        v = term(rewrite(v, f, {}))
        w_ = ZERO
        for j in range(d):
            w_ = w_ + fld(q.base(j, k)) * S[j]
        r = same(v, w_, facts=(some,))
        cx.check(r is None, "contact forces", "%s, %s, in the axes of the grid" % (lab, AX[k]), str(r)[-400:])


def pairs(cx, F, m, lab, ps, sz, spacing, rule):
    """the nest over pairs of particles: each pair i < j once; (loops, i, j, object)"""
    ct = [e for e in F.effects if e.kind == "call" and re.search(r"::singularity\(", dem(F, m, e))]
    if not cx.check(len(ct) == 1 and len(ct[0].loops) == 2 and ct[0].guard is TRUE, rule, lab + ", every pair", "%d pairs formed" % len(ct)):
        return None
    e = ct[0]
    Ls = e.loops
    tr = {Ls[0].t: K, Ls[1].t: I[0]}
    term = lambda p: rewrite(CN.poly(F.closed(p)), lambda a: tr.get(a), {})
    n = size(ps)

    def which(x):
        """index of the particle an argument denotes"""
        q = CN.ptr(F.asptr(x))
        if q.root.kind == "alloca":
            c = [y for y in F.effects if y.kind == "call" and y.name.startswith("llvm.memcpy") and CN.ptr(F.asptr(y.args[0])) == q and y.order < e.order and CN.poly(F.asint(y.args[2])).as_int() == sz]
            if len(c) != 1 or c[0].guard is not TRUE or any(z is not w for z, w in zip(c[0].loops, Ls)):
                return None
            q = CN.ptr(F.asptr(c[0].args[1]))
        return div(term(q.off), num(sz)) if q.root is arr(ps).root else None
    a, b = which(e.args[1]), which(e.args[2])
    if not cx.check(a is not None and b is not None, rule, lab + ", particles of the pair", "%s, %s" % (a, b)):
        return None
    ok = a == K and b == K + I[0] + ONE
    cx.check(ok, rule, lab + ", particles of the pair", "%s and %s" % (a, b))
    some = cmp_lt(ONE, n, True)
    dom = F.domain(e)
    c0, c1 = (term(L.count) if L.count is not None else None for L in Ls)
    r = "open loop" if c0 is None else same(c0, n - ONE, True, facts=(some,)) and same(c0, n, True, facts=(some,))
    cx.check(r is None, rule, lab + ", first of the pair", "%s rounds" % c0)
    inside = (some, cmp_lt(K, n - ONE, True), bnot(cmp_lt(K, ZERO, True)))
    r = "open loop" if c1 is None else same(c1, n - K - ONE, True, facts=inside)
    cx.check(r is None, rule, lab + ", second of the pair", "%s rounds" % c1)
    for j in (0, 1):
        g = rewrite_bdd(CN.bdd(dom[j][2]), lambda x: tr.get(x), {})
        r = same(g, TRUE, True, facts=inside)
        cx.check(r is None, rule, lab + ", always", str(r)[:200])
    # without two particles nothing is read
    for t, g in F.entered_empty(e):
        for k in (0, 1):
            f = [cmp_eq(n, num(k))]
            r = same(rewrite_bdd(CN.bdd(g), lambda x: n_at(x, n, k), {}), FALSE, True)
            cx.check(r is None, rule, "%s, with %d particles" % (lab, k), "a pair is formed: %s" % str(r)[:200])
    got = CN.poly(F.asint(e.args[3]))
    cx.check(got == spacing, rule, lab + ", spacing", str(got))
    cx.check([CN.poly(F.asint(x)) for x in e.args[4:6]] == [num(4), num(Fraction(1, 5))], rule, lab + ", contact range", str(e.args[4:]))
    return Ls, a, b, CN.ptr(F.asptr(e.args[0])), e, term


def n_at(a, n, k):
    return num(k) if a is n.as_atom() else None


def contacts(cx, m, d, leaf, own):
    """the pair sums, into a list of forces or (own) into the particles themselves"""
    q = Sing(cx, leaf, d)
    F = Fn(m, "w_%s%d" % ("w" if own else "v", d))
    lab = "contact forces%s, %dD" % (" kept by the particles" * own, d)
    cx.saw(lab)
    ps = Ptr(F.argatoms[0], ZERO)
    sz = psize(cx, leaf, d)
    fo, step, at = (ps, sz, pforce(cx, leaf, d)) if own else (Ptr(F.argatoms[1], ZERO), 8 * d, 0)
    hs, count = F.argatoms[1:3] if own else F.argatoms[2:4]
    P = pairs(cx, F, m, lab, ps, sz, Poly.of(atom("ld", hs, ZERO)), "contact forces")
    if P is None:
        return
    Ls, a, b, ob, ct, term = P
    on = CN.bdd(bnot(cmp_eq(Poly.of(atom("ld", ob.root, ob.off + num(q.flag))), ZERO)))
    same_nest = lambda e: [id(x) for x in e.loops] == [id(x) for x in Ls]
    parts_ = {}
    for k in (1, 2):
        es = [e for e in F.effects if e.kind == "call" and "on_part%d<" % k in dem(F, m, e)]
        ok = len(es) == 1 and same_nest(es[0]) and str(CN.bdd(es[0].guard)) == str(on)
        if ok:
            s, c = es[0].args[-2:]
            ok = F.asint(c) == Poly.of(count) and (CN.ptr(F.asptr(s)) == ob or copied(F, s, ob, q.size, es[0]))
        if not cx.check(ok, "contact forces", "%s, force on particle %d of the pair" % (lab, k), str(es)[:300]):
            return
        parts_[k] = es[0]
    # emptied first
    st = [e for e in F.effects if e.kind == "store" and e.root.kind != "alloca"]
    n = size(ps)
    if own:
        z = emptied(F, fo, n, step, at, d, ct.order)
        st = [e for e in st if e not in z]
        ok = bool(z)
    else:
        z = [e for e in F.effects if e.kind == "call" and e.name.startswith("llvm.memset") and CN.ptr(F.asptr(e.args[0])) == arr(fo)]
        ok = len(z) == 1 and not z[0].loops and z[0].order < ct.order and F.asint(z[0].args[1]) == ZERO
        if ok:
            c = rewrite(CN.poly(F.asint(z[0].args[2])), lambda x: n if x is size(fo).as_atom() else None, {})
            r = same(ite(CN.bdd(z[0].guard), c, ZERO), n.scale(8 * d), True, facts=(bnot(cmp_lt(n, ZERO, True)),))
            g = rewrite_bdd(CN.bdd(z[0].guard), lambda x: n if x is size(fo).as_atom() else None, {})
            ok = same(c, n.scale(8 * d), True) is None and same(g, TRUE, True, facts=(bnot(cmp_lt(n, ONE, True)), bnot(cmp_eq(n, ZERO)))) is None
    cx.check(ok, "contact forces", lab + ", start from 0", str(z)[:300])
    seen = {}
    for e in st:
        p = CN.ptr(Ptr(e.root, e.ofs))
        o = term(p.off)
        hit = None
        for k, x in ((1, a), (2, b)):
            for c in range(d):
                if p.root is arr(fo).root and o == x.scale(step) + num(at + 8 * c):
                    hit = (k, c)
        if not cx.check(hit is not None and same_nest(e) and str(CN.bdd(e.guard)) == str(on), "contact forces", lab + ", forces written", str(e)[:300]):
            continue
        k, c = hit
        own = Poly.of(atom("ld", p.root, o))
        f = parts_[k]
        if d == 2:
            r = f.ret[1] if isinstance(f.ret, tuple) else f.ret.as_atom()
            w = Poly.of(atom("ev", r, (c,)))
        else:
            x = CN.ptr(F.asptr(f.args[0]))
            w = Poly.of(atom("ld", x.root, x.off + num(8 * c)))
        v = term(CN.poly(F.asint(e.val)))
        cx.check(zero(v - (own - w)), "contact forces", "%s, particle %d of the pair, %s" % (lab, k, AX[c]), "becomes %s" % str(v)[:300])
        seen.setdefault(hit, []).append(e)
    cx.check(sorted(seen) == [(k, c) for k in (1, 2) for c in range(d)] and all(len(x) == 1 for x in seen.values()), "contact forces", lab + ", both particles", str(sorted(seen)))
    rest = [e for e in F.effects if e.kind == "call" and e is not ct and e not in parts_.values() and not re.search(r"^llvm\.|" + IO, e.name)]
    cx.check(not rest, "no side effect", lab, str(rest[:1])[:300])


def copied(F, s, ob, sz, e):
    q = CN.ptr(F.asptr(s))
    c = [y for y in F.effects if y.kind == "call" and y.name.startswith("llvm.memcpy") and CN.ptr(F.asptr(y.args[0])) == q and y.order < e.order]
    return len(c) == 1 and CN.ptr(F.asptr(c[0].args[1])) == ob and CN.poly(F.asint(c[0].args[2])).as_int() == sz and c[0].guard is e.guard


def emptied(F, lst, n, step, at, d, before):
    """the writes that set a field of every record of a list to zero, or nothing"""
    found = {}
    for e in F.effects:
        if len(e.loops) != 1 or e.order > before:
            continue
        if e.kind == "store":
            p, w, v = CN.ptr(Ptr(e.root, e.ofs)), 8, CN.poly(F.asint(e.val))
        elif e.kind == "call" and e.name.startswith("llvm.memset"):
            p, w, v = CN.ptr(F.asptr(e.args[0])), CN.poly(F.asint(e.args[2])).as_int(), F.asint(e.args[1])
        else:
            continue
        if p.root is not arr(lst).root or v != ZERO or not w:
            continue
        t, c, g = F.domain(e)[0]
        some = bnot(cmp_lt(n, ONE))
        if c is None or same(CN.poly(c), n, True, facts=(some,)) or same(CN.bdd(g), TRUE, True, facts=(some, bnot(cmp_lt(Poly.of(t), ZERO)), cmp_lt(Poly.of(t), n))):
            continue
        it = Poly.of(t)
        o = CN.poly(F.closed(p.off))
        for x in (it, n - ONE - it):
            b = (o - x.scale(step) - num(at)).as_int()
            if b is not None:
                for k in range(b, b + w, 8):
                    found.setdefault(k, []).append(e)
    if sorted(found) != [8 * c for c in range(d)] or any(len(x) > 1 for x in found.values()):
        return []
    return [e for x in found.values() for e in x]


def pforce(cx, m, d):
    F = Fn(m, "w_pf%d" % d)
    o = CN.poly(F.asint(F.rets[0][1])).as_int()
    cx.need(o is not None, "place of a particle's force not found")
    return o


def psize(cx, m, d):
    F = Fn(m, "w_ps%d" % d)
    o = CN.ptr(F.asptr(F.load(F.final_state, Ptr(F.argatoms[1], ZERO), 8, "ptr"))).off.as_int()
    cx.need(o is not None, "size of a particle not found")
    return o


def iter_syms(p, kind):
    out = []

    def f(a):
        if a.kind == "sym" and a.args and a.args[0] == kind:
            out.append(a)
        return None
    rewrite(p, f, {})
    return out


class Half:
    pass


def offsets(cx, m, d):
    F = Fn(m, "w_lp%d" % d)
    o = [outval(F, 0, 8 * i).as_int() for i in range(6)]
    cx.need(None not in o, "layout of a particle not found")
    r = Half()
    r.center, r.size = o[0], o[5]
    return r


def run(cx):
    M = [cx.ir(src(), name="q%d" % i, noinline=l) for i, l in enumerate((L0, L1))]
    for d in (2, 3):
        sums(cx, M[0], d, offsets(cx, M[0], d))
        wiring(cx, M[1], d)
    C = [cx.ir(src2(), name="c%d" % i, noinline=l) for i, l in enumerate((L2, L3))]
    for d in (2, 3):
        for own in (False, True):
            contacts(cx, C[0], d, C[1], own)
        for k in (0, 1):
            quadrature(cx, C[1], d, k)
    quadrature(cx, C[1], 2, 0, "c")
