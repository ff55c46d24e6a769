"""P20 composition of the particle control operators"""
from irx import *
from cases import *
from canon import Canon
from calculus import zero
from p19 import head, Lay, ld, rd, arr, size, at, cross, vecs, boundsof, dem, CN, AX, IO
from elems import K, I
import re
TITLE = "Control operators are solve, read, correct, apply, solve"
LEVEL = "proof"
TRUSTED = "clang 18 front end and -O2 IR; irdump; PETSc vectors, shell matrices and Krylov solvers as documented; the fluid problem's own solve, singular and mass operators (their own properties); witness/recvec.h and witness/shape.h"
EXPLAIN = "The operators are instantiated with an abstract fluid problem and an abstract shape. Loops over particles and nodes are replayed for one symbolic particle and node, including the running position in the control vector; compositions are read off the effects as terms over the contents of the vectors and compared with the required composition."
MIN_OBLIGATIONS = 150
LEAF = [r"petsc_vec<.*>::(?!at)", r"get_DM_bounds", r"find_fluid_points_insides", r"apply_mass_matrix"]
L1 = LEAF + [r"set_rhs_problem_impl", r"Dirichlet", r"add_singularity"]
L2 = L1 + [r"set_rhs_problem<"]
L3 = L2 + [r"init_problem<", r"interp_fluid_to_surf", r"simple_layer<", r"SL_to_Rhs<", r"projection<", r"compute_y<", r"set_materials", r"FP.::"]

WIT = '''
struct FP@ { problem::context<@>* ctx; Vec sol, rhs; PetscErrorCode setup_RHS(); PetscErrorCode setup_KSP(); PetscErrorCode solve(); };
using A@ = ashape<@>; using V@ = geometry::vector<double,@>; using PV@ = petsc::petsc_vec<@>; using P@ = particle<A@>; using Pb@ = FP@;
namespace std{ CAFES_REC(particle<A@>) }
using C@ = problem::particle_context<@,A@,FP@>; using cr@ = std::conditional<@==2,double,V@>::type;
using D@ = problem::DtoN<A@,@,FP@>; using S@ = problem::SEM<A@,@,FP@>;
namespace cafes{ namespace singularity{ template<> PetscErrorCode add_singularity_in_fluid<@,C@>(C@&); template<> PetscErrorCode add_singularity_to_last_sol<@,C@>(C@&, Vec); } }
extern "C" void w_lc@(C@& c, void const **__restrict o){ o[0]=&c.particles; o[1]=&c.surf_points; o[2]=&c.radial_vec; o[3]=&c.nb_surf_points; o[4]=&c.num; o[5]=c.problem.ctx->dm; o[6]=&c.problem.ctx->h; o[7]=c.problem.sol; o[8]=c.problem.rhs; o[9]=&c.problem.ctx->bc_; o[10]=&c.scale; o[11]=&c.compute_rhs; o[12]=&c.add_rigid_motion; o[13]=&c.compute_singularity; o[14]=&c.problem; o[15]=c.sol_tmp; }
extern "C" void w_lp@(std::size_t*__restrict o){ P@*q=0; o[0]=(std::size_t)&q->center_; o[1]=(std::size_t)&q->velocity_; o[2]=(std::size_t)&q->angular_velocity_; o[3]=(std::size_t)&q->force_; o[4]=(std::size_t)&q->rho_; o[5]=sizeof(*q); PV@*v=0; o[6]=(std::size_t)&v->pv_; o[7]=(std::size_t)&v->pvg_; }
extern "C" void w_ld@(D@& c, void const **__restrict o){ o[0]=&c.parts_; o[1]=&c.surf_points_; o[2]=&c.radial_vec_; o[3]=&c.nb_surf_points_; o[4]=&c.num_; o[5]=&c.problem_; o[6]=&c.ctx; o[7]=&c.sol; o[8]=&c.rhs; o[9]=&c.A; o[10]=&c.ksp; o[11]=&c.scale_; o[12]=&c.dpart_; o[13]=&c.default_flags_; o[14]=&c.use_sing; o[15]=&c.sol_tmp; }
extern "C" void w_ls@(S@& c, void const **__restrict o){ o[0]=&c.parts_; o[1]=&c.surf_points_; o[2]=&c.radial_vec_; o[3]=&c.nb_surf_points_; o[4]=&c.num_; o[5]=&c.problem_; o[6]=&c.ctx; o[7]=&c.sol; o[8]=&c.rhs; o[9]=&c.A; o[10]=&c.ksp; o[11]=&c.scale_; o[12]=&c.dpart_; }
extern "C" void w_lf@(FP@& c, void const **__restrict o){ o[0]=&c.ctx->dm; o[1]=&c.ctx->h; o[2]=&c.sol; o[3]=&c.rhs; }
extern "C" int w_ri@(C@& c, Vec x, PV@& u, bool f){return problem::set_rhs_problem_impl<@,C@>(c,x,u,f);}
extern "C" int w_r@(C@& c, Vec x, bool f){return problem::set_rhs_problem<@,C@>(c,x,f);}
extern "C" int w_i@(C@& c, Vec x, bool f){return problem::init_problem<@,C@>(c,x,f);}
extern "C" int w_ys@(C@& c, Vec y, std::vector<V@> const& m, std::vector<cr@> const& x){return problem::compute_y(c,y,m,x);}
extern "C" int w_yd@(C@& c, Vec y){return problem::compute_y<@,C@>(c,y);}
extern "C" int w_sm@(Mat A, Vec x, Vec y){return problem::sem_matrix<@,C@>(A,x,y);}
extern "C" int w_dm@(Mat A, Vec x, Vec y){return problem::DtoN_matrix<@,C@>(A,x,y);}
extern "C" void w_dn@(D@*__restrict q, std::vector<P@>& a, FP@& p, typename D@::dpart_type const& c){ new(q) D@(a,p,c); }
extern "C" void w_sn@(S@*__restrict q, std::vector<P@>& a, FP@& p, typename S@::dpart_type const& c){ new(q) S@(a,p,c); }
extern "C" int w_dc@(D@& p){return p.create_Mat_and_Vec();}
extern "C" int w_dr@(D@& p){return p.D@::setup_RHS();}
extern "C" int w_dk@(D@& p){return p.D@::setup_KSP();}
extern "C" int w_ds@(D@& p){return p.D@::solve();}
extern "C" int w_sc@(S@& p){return p.create_Mat_and_Vec();}
extern "C" int w_sr@(S@& p){return p.S@::setup_RHS();}
extern "C" int w_sk@(S@& p){return p.S@::setup_KSP();}
extern "C" int w_ss@(S@& p){return p.S@::solve();}
extern "C" int w_sv@(S@& p){return p.get_new_velocities();}
'''


def run(cx):
    src = head() + "".join(WIT.replace("@", str(d)) for d in (2, 3))
    M = [cx.ir(src, name="l%d" % i, noinline=l) for i, l in enumerate((LEAF, L1, L2, L3))]
    for d in (2, 3):
        lay = Lay(cx, M[0], d)
        start(cx, M, lay)
        matvec(cx, M[3], lay)
        velocities(cx, M[3], d)
        for c in "ds":
            fresh(cx, M[3], d, c)
            driver(cx, M[3], d, c)
            build(cx, M[3], d, c)
        control(cx, M[0], lay)
        readback(cx, M[0], lay, True)
        readback(cx, M[0], lay, False)


# ------------------------------------------------------------ nodes of the particles
def words(F, b, d):
    """the 2d integers of the range a call returned, and how they show up in terms"""
    w = [Poly.of(atom("sym", "B", k)) for k in range(2 * d)]
    if d == 2:
        r = b.ret[1] if isinstance(b.ret, tuple) else b.ret.as_atom()
        tr = {}
        for j in (0, 1):
            e = Poly.of(atom("ev", r, (j,)))
            tr[e.as_atom()] = w[2 * j]
            tr[fn("fdivp2", e, num(32)).as_atom()] = w[2 * j + 1]
            tr[atom("part", e, 0, 4)] = w[2 * j]
            tr[atom("part", e, 4, 4)] = w[2 * j + 1]
        return w, (lambda a: tr.get(a))
    p = CN.ptr(F.asptr(b.args[0]))

    def f(a):
        if a.kind == "ld" and a.args[0] is p.root and len(a.args) <= 3:
            o = (a.args[1] - p.off).as_int()
            if o is not None and 0 <= o < 8 * d and o % 4 == 0:
                return w[o // 4]
        return None
    return w, f


class Walk:
    """the loop over particles and over the nodes inside each"""
    def __init__(self, cx, F, m, lay, lab, box=None):
        self.cx, self.F, self.lay, self.lab = cx, F, lay, lab
        d = lay.dim
        self.ok = False
        bo = [e for e in F.effects if e.kind == "call" and "get_DM_bounds" in dem(F, m, e)]
        ff = [e for e in F.effects if e.kind == "call" and "find_fluid_points" in dem(F, m, e)]
        if not cx.check(len(bo) == (box is None) and len(ff) == 1 and not any(x.loops for x in bo) and len(ff[0].loops) == 1, "nodes inside", lab + ", one list per particle", "%d ranges, %d lists" % (len(bo), len(ff))):
            return
        self.call = ff[0]
        if box is None:
            cx.check(boundsof(F, bo[0], d) == (lay.dm, 0, True), "nodes inside", lab + ", range of the process", str(bo[0])[:300])
            self.B, self.btr = words(F, bo[0], d)
        else:
            self.B, self.btr = [rd(box, 4 * k) for k in range(2 * d)], lambda a: None
        self.outer = ff[0].loops[0]
        L = self.outer
        n = size(lay.particles)
        c = self.term(L.count) if L.count is not None else None
        r = "open loop" if c is None else same(c, n, True, facts=(bnot(cmp_lt(n, ONE, True)),))
        cx.check(r is None, "nodes inside", lab + ", every particle", "%s rounds" % c)
        pt = at(arr(lay.particles), K, lay.size)
        self.pt = pt
        pp = F.asint(pt)
        self.copies = {}                # a local copy of the particle
        for e in F.effects:
            if e.kind == "call" and e.name.startswith("llvm.memcpy") and e.loops and e.loops[0] is L:
                if CN.poly(F.asint(e.args[2])).as_int() == lay.size and self.ptr(F.asptr(e.args[1])) == pt and CN.bdd(e.guard) is TRUE:
                    q = CN.ptr(F.asptr(e.args[0]))
                    if q.root.kind == "alloca":
                        self.copies[q.root] = Ptr(pt.root, pt.off - q.off)
        h = [rd(lay.h, 8 * a) for a in range(d)]
        pb = [fn("q_box%d" % d, pp, num(k), *h) for k in range(2 * d)]
        self.boxes = ordered(self.B[:2 * d], pb[:2 * d])
        self.meet = TRUE
        for a in range(d):
            self.meet = band(self.meet, band(bnot(cmp_lt(pb[d + a], self.B[a], True)), bnot(cmp_lt(self.B[d + a], pb[a], True))))
        a = list(ff[0].args)
        out, part, rng, hh = (F.asptr(x) for x in a)
        self.list = out
        cx.check(self.ptr(part) == pt, "nodes inside", lab + ", the particle's own", str(part))
        cx.check(CN.ptr(hh) == lay.h, "nodes inside", lab + ", spacing", str(hh))
        r = same(self.bdd(ff[0].guard), self.meet, True, facts=self.boxes)
        cx.check(r is None, "nodes inside", lab + ", particles meeting the range", str(r)[-300:])
        for k in range(2 * d):
            v = self.term(F.asint(F.load(ff[0].pre, Ptr(rng.root, rng.off + num(4 * k)), 4, "i32")))
            w = mx(self.B[k], pb[k]) if k < d else mn(self.B[k], pb[k])
            r = same(v, w, True, facts=(self.meet,))
            cx.check(r is None, "nodes inside", "%s, common range %d" % (lab, k), str(r)[-300:])
        self.nodes = Poly.of(atom("sym", "nodes"))
        self.ok = True

    def tr(self, a):
        if a.kind == "it":
            return self.sub.get(a)
        for r, q in getattr(self, "copies", {}).items():
            if a.kind == "ld" and a.args[0] is r:
                return rd(q, a.args[1])
            if a.kind == "p2i" and a.args[0].root is r:
                return self.F.asint(Ptr(q.root, q.off + a.args[0].off))
        if a.kind == "ld" and hasattr(self, "list"):
            o = CN.poly(a.args[1]) if isinstance(a.args[1], Poly) else None
            if a.args[0] is self.list.root and o is not None:
                k = (o - self.list.off).as_int()
                if k == 8:
                    return Poly.of(atom("sym", "nodes"))
                if k == 0:
                    return Poly.of(atom("sym", "list"))
        return self.btr(a)

    @property
    def sub(self):
        s = {self.outer.t: K}
        if hasattr(self, "inner"):
            s[self.inner.t] = I[0]
        return {(x.as_atom() if isinstance(x, Poly) else x): v for x, v in s.items()}

    def term(self, p):
        return rewrite(CN.poly(self.F.closed(p)), self.tr, {})

    def bdd(self, g):
        if g is TRUE or g is FALSE:
            return g
        return rewrite_bdd(CN.bdd(g), self.tr, {})

    def ptr(self, p):
        q = CN.ptr(p)
        c = getattr(self, "copies", {}).get(q.root)
        if c is not None:
            q = Ptr(c.root, c.off + q.off)
        return Ptr(self.term(Poly.of(q.root)).as_atom(), self.term(q.off))

    def body(self, stores):
        """the innermost loop, checked to visit the nodes of the list once each"""
        L = [e.loops for e in stores if e.loops]
        cx, lab = self.cx, self.lab
        if not cx.check(L and all(len(x) == 2 and x[0] is self.outer and x[1] is L[0][1] for x in L), "nodes inside", lab + ", loop over the nodes", "%d loops" % len(L)):
            return False
        self.inner = L[0][1]
        n = self.nodes
        c = self.term(self.inner.count) if self.inner.count is not None else None
        r = "open loop" if c is None else same(c, n, True, facts=(bnot(cmp_lt(n, ONE, True)),))
        cx.check(r is None, "nodes inside", lab + ", every node", "%s rounds" % c)
        dom = self.F.domain(stores[0])
        some = bnot(cmp_lt(n, ONE, True))
        r = same(self.bdd(dom[1][2]), self.meet, True, facts=(some,) + self.boxes)
        cx.check(r is None, "nodes inside", lab + ", whenever the particle meets the range", str(r)[-300:])
        ps = bnot(cmp_lt(size(self.lay.particles), ONE, True))
        r = same(self.bdd(dom[0][2]), TRUE, True, facts=(ps,))
        cx.check(r is None, "nodes inside", lab + ", always", str(r)[-300:])
        return True

    def index(self):
        """coordinates of node I0 of the list"""
        d = self.lay.dim
        b = atom("sym", "list")
        return [Poly.of(atom("ld", b, I[0].scale(4 * d) + num(4 * a))) for a in range(d)]

    def position(self, off):
        """is off = 8 (running count + d I0 + component)?  component or None; checks the running count"""
        F, d = self.F, self.lay.dim
        lv = [x for x in self.outer.others.values() if x["atom"].id in all_atoms(off)]
        if len(lv) != 1:
            return None
        x = lv[0]
        lead = Poly.of(x["atom"])
        w = 1 if "base" in x else 8       # a moving pointer, or a running count
        c = (off - lead.scale(w) - I[0].scale(8 * d)).as_int()
        if c is None or c % 8 or not 0 <= c // 8 < d:
            return None
        if not getattr(self, "counted", False):
            self.counted = True
            cx, lab = self.cx, self.lab
            cx.check(self.term(F.asint(x["init"])) == ZERO, "position in the control", lab + ", starts at 0", str(x["init"]))
            M = self.inner
            end = F.closed(M.count if M.top else M.count - ONE)     # the last round, seen from behind the loop
            got = F.closed(F.asint(F.latchval(x, x["latch"][0]))) if len(x["latch"]) == 1 else ONE
            got = self.term(rewrite(got, lambda a: end if a is M.t else None, {}))
            want = ite(self.meet, lead + self.nodes.scale(8 * d // w), lead)
            r = same(got, want, True, facts=(bnot(cmp_lt(self.nodes, ZERO, True)),) + self.boxes)
            cx.check(r is None, "position in the control", lab + ", advances by the nodes seen", str(r)[-300:])
        return c // 8


def ghost(v, lay, idx, k, off):
    """address of component k of the owned values at a node"""
    p = Ptr(v, off)
    for a in range(lay.dim - 1, -1, -1):
        p = ld(p)
        p = Ptr(p.root, idx[a].scale(8))
    p = ld(p)
    return Ptr(p.root, num(8 * k))


def control(cx, m, lay):
    d = lay.dim
    F = Fn(m, "w_ri%d" % d)
    lab = "control to field, %dD" % d
    cx.saw(lab)
    W = Walk(cx, F, m, lay, lab)
    if not W.ok:
        return
    st = [e for e in F.effects if e.kind == "store" and e.root.kind != "alloca"]
    if not W.body(st):
        return
    rest = [e for e in F.effects if e.kind == "call" and not re.search(r"^q_box|VecGetArrayRead$|VecRestoreArrayRead$|get_DM_bounds|find_fluid|^llvm\.|operator delete|^_ZdlPv|~|" + IO, dem(F, m, e))]
    cx.check(not rest, "no side effect", lab, str(rest[:1])[:300])
    g = [e for e in F.effects if e.kind == "call" and e.name == "VecGetArrayRead"]
    if not cx.check(len(g) == 1 and F.asptr(g[0].args[0]) == Ptr(F.argatoms[1], ZERO), "control to field", lab + ", control read", str(g)[:200]):
        return
    px = ld(CN.ptr(F.asptr(g[0].args[1]))).root
    cells = {}
    idx = W.index()
    for a in range(d):
        cells[ghost(F.argatoms[2], lay, idx, a, num(lay.pvg))] = a
    val = {}
    for e in st:
        p = W.ptr(Ptr(e.root, e.ofs))
        if not cx.check(p in cells, "control to field", lab + ", nodes written", str(p)[:300]):
            return
        a = cells[p]
        v = W.term(F.asint(e.val))
        gd = W.bdd(e.guard)
        val[a] = v if gd is TRUE else ite(gd, v, val.get(a, Poly.of(atom("sym", "old", a))))
    on = bvar(("b", F.argatoms[3]))
    for a in range(d):
        if not cx.check(a in val, "control to field", "%s, %s" % (lab, AX[a]), "never written"):
            continue
        f = rd(W.pt, lay.rho) * rd(W.pt, lay.force + 8 * a)
        for what, fact, add in (("with forces", on, f), ("without", bnot(on), ZERO)):
            # value minus the required force is one entry of the control
            x = rewrite(val[a], lambda t: None, {})
            x = _subst_fact(x, fact)
            y = (x - add).as_atom()
            ok = y is not None and y.kind == "ld" and W.term(Poly.of(y.args[0])).as_atom() is W.term(Poly.of(px)).as_atom() and W.position(W.term(y.args[1])) == a
            cx.check(ok, "control to field", "%s, %s, %s" % (lab, AX[a], what), str(x)[:300])


def _subst_fact(x, fact):
    from cases import _subst
    (v,) = support(fact)
    return _subst(x, {v: 1 if cofactor(fact, v, 1) is TRUE else 0})


def readback(cx, m, lay, sem):
    d = lay.dim
    F = Fn(m, "w_y%s%d" % ("s" if sem else "d", d))
    lab = "%s field to control, %dD" % ("mobility" if sem else "Dirichlet", d)
    cx.saw(lab)
    W = Walk(cx, F, m, lay, lab)
    if not W.ok:
        return
    V = vecs(F, m)
    if not cx.check(len(V) == 1, "field to control", lab + ", field", "%d fields" % len(V)):
        return
    v, (dm, vec, en, ro, ce) = next(iter(V.items()))
    cx.check(dm == lay.dm and vec == lay.sol and en == ZERO, "field to control", lab + ", velocity of the solution", "%s of %s" % (en, vec))
    g = [e for e in F.effects if e.kind == "call" and e.name == "VecGetArray"]
    if not cx.check(len(g) == 1 and F.asptr(g[0].args[0]) == Ptr(F.argatoms[1], ZERO), "field to control", lab + ", control written", str(g)[:200]):
        return
    py = W.term(Poly.of(ld(CN.ptr(F.asptr(g[0].args[1]))).root)).as_atom()
    st = [e for e in F.effects if e.kind == "store" and e.root.kind != "alloca"]
    if not W.body(st):
        return
    rest = [e for e in F.effects if e.kind == "call" and not re.search(r"^q_(box|ci)|VecGetArray$|VecRestoreArray$|get_DM_bounds|find_fluid|^llvm\.|operator delete|^_ZdlPv|petsc_vec\(|" + IO, dem(F, m, e))]
    cx.check(not rest, "no side effect", lab, str(rest[:1])[:300])
    idx = W.index()
    h = [rd(lay.h, 8 * a) for a in range(d)]
    seen = set()
    for e in st:
        p = W.ptr(Ptr(e.root, e.ofs))
        a = W.position(p.off) if p.root is py else None
        if not cx.check(a is not None and W.bdd(e.guard) is TRUE, "field to control", lab + ", entries written", "%s if %s" % (str(p)[:200], e.guard)):
            return
        seen.add(a)
        val = W.term(F.asint(e.val))
        want = rd(ghost(v, lay, idx, a, num(lay.pvg)))
        if sem:
            nc = 1 if d == 2 else 3
            r = [idx[b] * h[b] - rd(W.pt, lay.center + 8 * b) for b in range(d)]
            w = [rd(arr(Ptr(F.argatoms[3], ZERO)), K.scale(8 * nc) + num(8 * j)) for j in range(nc)]
            ci = fn("q_ci", F.asint(W.pt))
            want = want - rd(arr(Ptr(F.argatoms[2], ZERO)), K.scale(8 * d) + num(8 * a)) - ci * cross(d, w, r)[a]
        want = W.term(want)
        cx.check(zero(val - want), "field to control", "%s, %s" % (lab, AX[a]), "entry is %s" % str(val)[:400])
    cx.check(seen == set(range(d)), "field to control", lab + ", all components", str(seen))


# ------------------------------------------------------------ compositions
def sym(*a):
    return Poly.of(atom("sym", *a))


def pt(p):
    """an object, by its address"""
    return Poly.of(atom("sym", "at", p.root, p.off))


def was(p):
    """what an object held at the start"""
    return Poly.of(atom("sym", "was", p.root, p.off))


class Terms:
    """contents of vectors and lists after each call, as terms over their contents before"""
    def __init__(self, cx, F, m, lab, fix=(), bools=(), ctx=None, ref={}, flags=()):
        self.cx, self.F, self.m, self.lab = cx, F, m, lab
        self.fix = dict((x.as_atom(), v) for x, v in fix)          # value of a flag
        self.env = {}
        for x, v in fix:
            (b,) = support(cmp_eq(x, ZERO))
            self.env[b] = 1 if v == 0 else 0
        for x, v in bools:
            (b,) = support(bvar(("b", x)))
            self.env[b] = v
        self.ctx, self.ref, self.flags = ctx, ref, flags
        self.st, self.view, self.calls, self.odd = {}, {}, [], []
        for e in F.effects:
            self.step(e)

    # -- values
    def cond(self, g):
        if g is not TRUE and g is not FALSE:
            g = CN.bdd(g)
        for v in list(support(g)):
            if v in self.env:
                g = cofactor(g, v, self.env[v])
        return g

    def val(self, p):
        from cases import _subst
        p = CN.poly(p)
        p = _subst(p, self.env)
        return rewrite(p, lambda a: num(self.fix[a]) if a in self.fix else None, {})

    def al(self, p):
        r, o = p.root, p.off
        if r.kind == "ld" and len(r.args) >= 2 and not isinstance(r.args[0], Poly):
            q = self.al(Ptr(r.args[0], r.args[1]))
            r = atom("ld", q.root, q.off)
        q = self.ref.get(r)
        return Ptr(r, o) if q is None else Ptr(q.root, q.off + o)

    def alp(self, p):
        """a value with the references of the context replaced by what they refer to"""
        def f(a):
            if a.kind == "ld" and not isinstance(a.args[0], Poly):
                q = self.al(Ptr(a.args[0], a.args[1]))
                b = atom("ld", q.root, q.off)
                return None if b is a else Poly.of(b)
        return rewrite(p, f, {})

    def obj(self, a):
        return self.al(CN.ptr(self.F.asptr(a)))

    def get(self, p):
        k = self.obj(p)
        return self.st.get(k, was(k))

    def flag(self, e, p):
        """value of a flag of the context at a call"""
        if self.ctx is not None:
            c = self.F.asptr(self.F.load(e.pre, self.ctx, 8, "ptr"))
            p = Ptr(c.root, c.off + p.off)
        return self.val(self.F.asint(self.F.load(e.pre, p, 1, "i8")))

    def prob(self, c):
        """(solution, right-hand side) handles of the problem of a context"""
        q = self.al(ld(c))
        return self.al(ld(q, 8)), self.al(ld(q, 16))

    # -- calls
    def step(self, e):
        F = self.F
        g = self.cond(e.guard)
        if g is FALSE:
            return
        if e.kind == "store":
            if e.root.kind != "alloca":
                self.calls.append(("store", e))
            return
        n = dem(F, self.m, e)
        if re.search(IO + r"|^llvm\.lifetime|operator delete|^_Zd|DMGetGlobalVector|DMRestoreGlobalVector|~|^_Znwm", n):
            return
        if g is not TRUE:
            self.odd.append("%s if %s" % (n, g))
            return
        A = e.args
        ob = self.obj
        sg = n.split("(")[0]
        self.calls.append((n, e))
        if n == "VecSet":
            self.st[ob(A[0])] = self.val(F.asint(A[1]))
        elif n == "VecCopy":
            self.st[ob(A[1])] = self.get(A[0])
        elif n == "VecAXPY":
            self.st[ob(A[0])] = self.get(A[0]) + self.val(F.asint(A[1])) * self.get(A[2])
        elif n == "VecScale":
            self.st[ob(A[0])] = self.val(F.asint(A[1])) * self.get(A[0])
        elif "apply_mass_matrix" in sg:
            self.st[ob(A[2])] = fn("mass", pt(ob(A[0])), pt(ob(A[3])), self.get(A[1]))
        elif n == "MatShellGetContext" or n.startswith("MatCreate") or n.startswith("MatShellSet"):
            pass
        elif n == "llvm.memset.p0.i64":
            if F.asptr(A[0]).root.kind == "alloca":
                self.st[ob(A[0])] = fn("list", ZERO)
        elif "petsc_vec" in sg:
            self.view[ob(A[0])] = (ob(A[2]), self.val(F.asint(A[3])), ob(A[1]))
        elif "fit" in n:
            return self.fit(e)
        elif re.search(r"FP\d+setup_RHSEv|FP.::setup_RHS", n):
            q = ob(A[0])
            r = self.al(ld(q, 16))
            self.st[r] = self.get(r) + sym("source")
        elif re.search(r"FP\d+solveEv|FP.::solve", n):
            q = ob(A[0])
            self.st[self.al(ld(q, 8))] = fn("solve", self.get(self.al(ld(q, 16))))
        elif "add_singularity_in_fluid" in n:
            s, r = self.prob(ob(A[0]))
            self.st[r] = self.get(r) + fn("singular", pt(ob(A[0])))
        elif "add_singularity_to_last_sol" in n:
            v = ob(A[1])
            self.st[v] = fn("plus singular", pt(ob(A[0])), self.get(v))
        elif "set_rhs_problem_impl" in n:
            v, en, dm = self.view.get(ob(A[2]), (None, None, None))
            if v is None:
                self.odd.append("view not known: " + str(e)[:200])
                return
            self.st[v] = fn("load", self.get(v), en, pt(dm), pt(ob(A[0])), self.get(A[1]), self.bit(A[3]))
        elif "set_rhs_problem" in n:
            s, r = self.prob(ob(A[0]))
            self.st[r] = self.get(r) + fn("control", pt(ob(A[0])), self.get(A[1]), self.bit(A[2]))
        elif "DirichletOnRHS" in n:
            v, en, dm = self.view.get(ob(A[0]), (None, None, None))
            if v is None:
                self.odd.append("view not known: " + str(e)[:200])
                return
            ex = [pt(ob(x)) for x in A[1:]]
            self.st[v] = fn("null" if "Null" in n else "bc", self.get(v), en, pt(dm), *ex)
        elif "init_problem" in n:
            c = ob(A[0])
            s, r = self.prob(c)
            fl = [self.flag(e, Ptr(c.root, num(o))) for o in self.flags]
            self.st[r] = fn("init", pt(c), self.get(r), self.get(A[1]), self.bit(A[2]), *fl)
        elif "interp_fluid_to_surf" in n:
            s, r = self.prob(ob(A[0]))
            self.st[ob(A[1])] = fn("gap", pt(ob(A[0])), self.get(s), self.get(A[1]), self.bit(A[2]), self.bit(A[3]))
        elif "simple_layer" in n:
            a, b, c = self.get(A[1]), self.get(A[2]), self.get(A[3])
            for k in (1, 2, 3):
                self.st[ob(A[k])] = fn("layer", num(k), pt(ob(A[0])), a, b, c)
        elif "SL_to_Rhs" in n:
            s, r = self.prob(ob(A[0]))
            self.st[r] = fn("spread", pt(ob(A[0])), self.get(r), self.get(A[1]))
        elif "projection" in n:
            s, r = self.prob(ob(A[0]))
            a, b = self.get(A[1]), self.get(A[2])
            for k in (1, 2):
                self.st[ob(A[k])] = fn("project", num(k), pt(ob(A[0])), self.get(s), a, b)
        elif "compute_y" in n:
            s, r = self.prob(ob(A[0]))
            self.st[ob(A[1])] = fn("read", pt(ob(A[0])), self.get(s), *[self.get(x) for x in A[2:]])
        elif n == "MatMult":
            fl = [self.flag(e, Ptr(None, num(o))) for o in self.flags]
            self.st[ob(A[2])] = fn("apply", pt(ob(A[0])), self.get(A[1]), *fl)
        elif n == "KSPSolve":
            fl = [self.flag(e, Ptr(None, num(o))) for o in self.flags]
            self.st[ob(A[2])] = fn("krylov", pt(ob(A[0])), self.get(A[1]), *fl)
        else:
            self.odd.append(str(e)[:300])

    def bit(self, v):
        b = self.F.asbool(v)
        return ite(self.cond(b), ONE, ZERO) if not isinstance(v, Poly) else self.val(v)

    def fit(self, e):
        F = self.F
        n = self.alp(CN.poly(F.asint(e.args[1])))
        p = self.obj(e.args[0])
        if not e.loops:
            self.st[p] = fn("list", n)
            return
        L = e.loops[0]
        if len(e.loops) != 1 or p.root.kind != "ld":
            self.odd.append(str(e)[:300])
            return
        q = Ptr(p.root.args[0], p.root.args[1])
        w = {L.t: K}
        off = rewrite(p.off, lambda a: w.get(a), {})
        c = self.alp(CN.poly(L.count)) if L.count is not None else sym("open")
        self.st[q] = fn("rows", self.get(q), off, rewrite(n, lambda a: w.get(a), {}), c)

    def done(self, still=True):
        if still:
            w = [e for n, e in self.calls if n == "store"]
            self.cx.check(not w, "no side effect", self.lab, " | ".join(str(e)[:200] for e in w[:3]))
        self.cx.check(not self.odd, "composition", self.lab + ", only the steps stated", " | ".join(self.odd[:3]))


def same_term(cx, rule, lab, got, want):
    cx.check(got == want, rule, lab, "%s, required %s" % (str(got)[:500], str(want)[:500]))


def start(cx, M, lay):
    """loading a control: forcing, singular part, control, boundary values"""
    d = lay.dim
    rhs = was(lay.rhs)
    for f in (0, 1):
        F = Fn(M[1], "w_r%d" % d)
        c = pt(Ptr(F.argatoms[0], ZERO))
        x = was(Ptr(F.argatoms[1], ZERO))
        lab = "control in the right-hand side%s, %dD" % (" with forces" if f else "", d)
        cx.saw(lab)
        T = Terms(cx, F, M[1], lab, bools=[(F.argatoms[2], f)])
        T.done()
        load = fn("load", ZERO, ZERO, pt(lay.dm), c, x, num(f))
        same_term(cx, "start of an application", lab, T.get(lay.rhs), rhs + fn("mass", pt(lay.dm), pt(lay.h), load))
        F = Fn(M[2], "w_i%d" % d)
        for r in (0, 1):
            for s in (0, 1):
                lab = "start%s%s%s, %dD" % (" with forcing" if r else "", " with singular part" if s else "", " with forces" if f else "", d)
                cx.saw(lab)
                T = Terms(cx, F, M[2], lab, [(rd(lay.crhs), r), (rd(lay.sing), s)], [(F.argatoms[2], f)])
                T.done()
                w = rhs + fn("control", c, x, num(f))
                if r:
                    w = w + sym("source")
                if s:
                    w = w + fn("singular", c)
                bc, dm = pt(lay.bc), pt(lay.dm)
                w = fn("bc", w, ZERO, dm, bc, pt(lay.h)) if r else fn("null", w, ZERO, dm, bc)
                same_term(cx, "start of an application", lab, T.get(lay.rhs), w)


def matvec(cx, m, lay):
    """one application of the operators"""
    d = lay.dim
    for sem in (True, False):
        F = Fn(m, "w_%sm%d" % ("s" if sem else "d", d))
        ctx = Ptr(atom("shellctx", F.argatoms[0]), ZERO)
        L = {k: _onto(getattr(lay, k), ctx) for k in "particles surf rhs sol crhs rigid sing".split()}
        for r in (0, 1):
            for g, s in ((0, 0), (0, 1), (1, 0), (1, 1)):
                lab = "%s product%s%s%s, %dD" % ("mobility" if sem else "Dirichlet-to-Neumann", " with forcing" * r, " with rigid motion" * g, " with singular part" * s, d)
                cx.saw(lab)
                fl = [(rd(L["crhs"]), r), (rd(L["rigid"]), g), (rd(L["sing"]), s)]
                T = Terms(cx, F, m, lab, fl)
                T.done()
                c = pt(ctx)
                x = was(Ptr(F.argatoms[1], ZERO))
                n = size(L["particles"])
                rows = fn("rows", fn("list", n), K.scale(16), rd(at(arr(L["surf"]), K, 16), 8), size(L["surf"]))
                rows2 = fn("rows", fn("list", n), K.scale(16), rd(at(arr(L["surf"]), K, 16), 8), n)
                first = fn("init", c, ZERO, x, num(r if sem else 0))
                u = fn("solve", first)
                got = T.get(Ptr(F.argatoms[2], ZERO))
                want = []
                for rw in (rows, rows2):
                    gap = fn("gap", c, u, rw, num(0 if sem else g), num(0 if sem else s))
                    if not sem:
                        want.append(fn("read", c, fn("solve", fn("spread", c, first, gap))))
                        continue
                    z = fn("list", n)
                    lay3 = [fn("layer", num(k), c, gap, z, z) for k in (1, 2, 3)]
                    v = fn("solve", fn("spread", c, first, lay3[0]))
                    pr = [fn("project", num(k), c, v, lay3[1], lay3[2]) for k in (1, 2)]
                    want.append(fn("read", c, v, *pr))
                cx.check(any(got == w for w in want), "one application", lab, "%s, required %s" % (str(got)[:600], str(want[0])[:600]))


def _onto(p, ctx):
    """an address of the layout with the context in place of the argument"""
    r = p.root
    if r.kind == "ld":
        q = _onto(Ptr(r.args[0], r.args[1]), ctx)
        return Ptr(atom("ld", q.root, q.off), p.off)
    return Ptr(ctx.root, ctx.off + p.off)


def fields(cx, m, d, c):
    names = "parts surf rad nb num problem ctx sol rhs A ksp scale dpart dflag using tmp".split()
    F = Fn(m, "w_l%s%d" % (c, d))
    o = {}
    for k, n in enumerate(names[:13] if c == "s" else names):
        o[n] = CN.ptr(F.asptr(F.load(F.final_state, Ptr(F.argatoms[1], num(8 * k)), 8, "ptr")))
    return o


def fresh(cx, m, d, c):
    """the control problem as constructed: its particles, fluid problem and spacing, default flags"""
    o = fields(cx, m, d, c)
    lay = Lay(cx, m, d)
    F = Fn(m, "w_%sn%d" % (c, d))
    lab = "%s problem as constructed, %dD" % ("mobility" if c == "s" else "Dirichlet-to-Neumann", d)
    cx.saw(lab)
    me, src = F.argatoms[0], F.argatoms[1:4]
    here = lambda k, n=0: Ptr(me, o[k].off + num(n))
    E = [e for e in F.effects if e.kind == "call"]
    ks = [e for e in E if "setup_KSP" in dem(F, m, e)]
    ok = len(ks) == 1 and ks[0].guard is TRUE and not ks[0].loops and CN.ptr(F.asptr(ks[0].args[0])) == here("problem")
    if not cx.check(ok, "control problem as constructed", lab + ", fluid solver set up once", str(ks)[:200]):
        return
    want = [("particles", "parts", 0, Ptr(src[0], ZERO), 16), ("fluid problem", "problem", 0, Ptr(src[1], ZERO), o["ctx"].off.as_int() - o["problem"].off.as_int()), ("spacing", "dpart", 0, Ptr(src[2], ZERO), 8 * (d - 1))]
    for t, k, n, q, w in want:
        for i in range(0, w, 8):
            v = F.asint(F.load(ks[0].pre, here(k, i), 8, "double" if k == "dpart" else "i64"))
            cx.check(CN.poly(v) == rd(q, i), "control problem as constructed", "%s, %s, word %d" % (lab, t, i // 8), str(v)[:200])
    def left(k, n, ty):
        """what the constructor leaves in a field; the solver's set-up keeps to the problem"""
        late = [e for e in F.effects if e.kind == "store" and e.order > ks[0].order and Ptr(e.root, e.ofs) == here(k)]
        return CN.poly(F.asint(late[-1].val if late else F.load(ks[0].pre, here(k), n, ty)))
    for k, v in (("dflag", 1), ("using", 0)) if c == "d" else ():
        x = left(k, 1, "i8")
        cx.check(x == num(v), "control problem as constructed", "%s, %s" % (lab, "steps choose their own flags" if v else "no singular part unless asked"), str(x))
    x = left("scale", 8, "i64")
    cx.check(x == num(4), "control problem as constructed", lab + ", surface weight", str(x))
    if c == "d":
        dup = [e for e in E if e.name == "VecDuplicate" and CN.ptr(F.asptr(e.args[1])) == here("tmp")]
        ok = len(dup) == 1 and dup[0].guard is TRUE and not dup[0].loops
        v = CN.ptr(F.asptr(dup[0].args[0])) if ok else None
        like = [ld(q, k) for q in (here("problem"), Ptr(src[1], ZERO)) for k in (8, 16)]
        cx.check(ok and v in like, "control problem as constructed", lab + ", work vector like the solution", str(v))


def driver(cx, m, d, c):
    """setup of the right-hand side and solution of the control problem"""
    o = fields(cx, m, d, c)
    lay = Lay(cx, m, d)
    word = "mobility" if c == "s" else "Dirichlet-to-Neumann"
    off = [getattr(lay, k).off.as_int() for k in ("crhs", "rigid", "sing")]
    cp = ld(o["ctx"])
    ref = refs(o, lay)
    prob = o["problem"]
    V = {k: ld(o[k]) for k in ("sol", "rhs", "A", "ksp")}
    rhs, sol = ld(prob, 16), ld(prob, 8)
    for us in ((0, 1) if c == "d" else (0,)):
        fix = [(rd(o["dflag"]), 1), (rd(o["using"]), us)] if c == "d" else []
        on = [ONE, ONE, num(us)] if c == "d" else [ONE]
        of = [ZERO, ZERO, ZERO] if c == "d" else [ZERO]
        used = off[:len(on)]
        tail = " with singular part" * us
        lab = "%s right-hand side%s, %dD" % (word, tail, d)
        cx.saw(lab)
        F = Fn(m, "w_%sr%d" % (c, d))
        T = Terms(cx, F, m, lab, fix, ctx=o["ctx"], ref=ref, flags=used)
        T.done(False)
        same_term(cx, "right-hand side of the control problem", lab, T.get(V["rhs"]), -fn("apply", pt(V["A"]), was(V["sol"]), *on))
        same_term(cx, "right-hand side of the control problem", lab + ", control kept", T.get(V["sol"]), was(V["sol"]))
        F = Fn(m, "w_%ss%d" % (c, d))
        lab = "%s solution%s, %dD" % (word, tail, d)
        cx.saw(lab)
        T = Terms(cx, F, m, lab, fix, ctx=o["ctx"], ref=ref, flags=used)
        T.done(False)
        x = fn("krylov", pt(V["ksp"]), was(V["rhs"]), *of)
        same_term(cx, "solution of the control problem", lab + ", control", T.get(V["sol"]), x)
        w = fn("solve", fn("init", pt(cp), ZERO, x, ONE if c == "s" else ZERO, *on))
        if us:
            w = fn("plus singular", pt(cp), w)
        same_term(cx, "solution of the control problem", lab + ", fluid", T.get(sol), w)
    F = Fn(m, "w_%sk%d" % (c, d))
    lab = "%s Krylov solver, %dD" % (word, d)
    cx.saw(lab)
    E = [e for e in F.effects if e.kind == "call"]
    need = ["KSPCreate", "KSPSetOptionsPrefix", "KSPSetOperators", "KSPGetPC", "PCSetType", "KSPSetFromOptions"]
    by = {n: [e for e in E if e.name == n] for n in need}
    ok = all(len(by[n]) == 1 and by[n][0].guard is TRUE for n in need) and len(E) == len(need)
    if cx.check(ok, "Krylov solver", lab + ", set up once", str([e.name for e in E])):
        a = lambda n, k: CN.ptr(F.asptr(by[n][0].args[k]))
        k = a("KSPCreate", 1)
        cx.check(k == o["ksp"] and all(a(n, 0) == V["ksp"] for n in need[1:4] + need[5:]), "Krylov solver", lab + ", same solver", "")
        cx.check(a("KSPSetOperators", 1) == V["A"] == a("KSPSetOperators", 2), "Krylov solver", lab + ", operator", str(a("KSPSetOperators", 1)))
        for n, k, w in (("KSPSetOptionsPrefix", 1, "sem_" if c == "s" else "dton_"), ("PCSetType", 1, "none")):
            q = F.asptr(by[n][0].args[k])
            t = F.cstring(q)
            cx.check(t == w, "Krylov solver", "%s, %s" % (lab, "prefix" if k == 1 and n[0] == "K" else "preconditioner"), repr(t))
        o1 = [e.order for e in (by["KSPGetPC"][0], by["PCSetType"][0], by["KSPSetFromOptions"][0])]
        cx.check(o1 == sorted(o1) and a("PCSetType", 0) == ld(a("KSPGetPC", 1)), "Krylov solver", lab + ", options override", str(o1))


def refs(o, lay):
    """what the references of the context refer to"""
    cp = ld(o["ctx"])
    w = dict(problem="problem", particles="parts", surf="surf", rad="rad", nb="nb", num="num")
    return {atom("ld", cp.root, getattr(lay, k).root.args[1]): o[v] for k, v in w.items()}


def velocities(cx, m, d):
    """velocity of each particle after a mobility solve"""
    o = fields(cx, m, d, "s")
    lay = Lay(cx, m, d)
    F = Fn(m, "w_sv%d" % d)
    lab = "velocities, %dD" % d
    cx.saw(lab)
    T = Terms(cx, F, m, lab, ctx=o["ctx"], ref=refs(o, lay))
    T.done(False)
    cp = ld(o["ctx"])
    n = size(o["parts"])
    sf = o["surf"]
    z, c = fn("list", n), pt(cp)
    st = [e for k, e in T.calls if k == "store"]
    if not cx.check(len(st) == d and all(len(e.loops) == 1 and e.loops[0] is st[0].loops[0] for e in st), "velocities", lab + ", one loop", str(st)[:300]):
        return
    L = st[0].loops[0]
    c0 = T.alp(CN.poly(L.count)) if L.count is not None else None
    some = bnot(cmp_lt(n, ONE, True))
    r = "open loop" if c0 is None else same(c0, n, True, facts=(some,))
    cx.check(r is None, "velocities", lab + ", every particle", "%s rounds" % c0)
    for e in st:
        r = same(rewrite_bdd(CN.bdd(F.domain(e)[0][2]), lambda a: None, {}), TRUE, True, facts=(some,))
        cx.check(e.guard is TRUE and r is None, "velocities", lab + ", always", str(e.guard))
    it = lambda p: rewrite(CN.poly(p), lambda a: K if a is L.t else None, {})
    al = [k for k in T.st if k.root.kind == "alloca"]
    mean = None
    for rows in (n, size(sf)):
        gap = fn("gap", c, was(ld(o["problem"], 8)), fn("rows", z, K.scale(16), rd(at(arr(sf), K, 16), 8), rows), ZERO, ZERO)
        w = fn("layer", num(2), c, gap, z, z)
        mean = mean or next((k for k in al if T.st[k] == w), None)
    if not cx.check(mean is not None, "velocities", lab + ", mean over the surface of the fluid velocity", str([str(T.st[k]) for k in al])[:600]):
        return
    got = {}
    for e in st:
        p = T.al(CN.ptr(Ptr(e.root, e.ofs)))
        v = it(F.asint(e.val)).as_atom()
        v = T.al(Ptr(v.args[0], v.args[1])) if v is not None and v.kind == "ld" else None
        got[(p.root, it(p.off))] = v
    for a in range(d):
        p = at(arr(o["parts"]), K, lay.size)
        w = at(arr(mean), K, 8 * d)
        w = Ptr(w.root, w.off + num(8 * a))
        v = got.get((p.root, p.off + num(lay.vel + 8 * a)))
        cx.check(v is not None and v == w, "velocities", "%s, %s" % (lab, AX[a]), "%s, required %s" % (v, w))


def build(cx, m, d, c):
    """the points, the context, the matrix and the vectors of the control problem"""
    o = fields(cx, m, d, c)
    lay = Lay(cx, m, d)
    lab = "%s set-up, %dD" % ("mobility" if c == "s" else "Dirichlet-to-Neumann", d)
    cx.saw(lab)
    G = Fn(m, "w_lf%d" % d)
    dm, h = (_onto(CN.ptr(G.asptr(G.load(G.final_state, Ptr(G.argatoms[1], num(8 * k)), 8, "ptr"))), o["problem"]) for k in (0, 1))
    F = Fn(m, "w_%sc%d" % (c, d))
    E = [e for e in F.effects if e.kind == "call" and not re.search(IO + r"|^llvm\.", e.name)]
    by = {}
    for e in E:
        n = dem(F, m, e)
        for w in ("get_DM_bounds", "set_materials", "_Znwm", "MatCreateShell", "MatShellSetOperation", "MatCreateVecs"):
            if w in n.split("(")[0]:
                by.setdefault(w, []).append(e)
                break
        else:
            by.setdefault("other", []).append(e)
    ok = sorted(by) == sorted(["get_DM_bounds", "set_materials", "_Znwm", "MatCreateShell", "MatShellSetOperation", "MatCreateVecs"]) and all(len(v) == 1 and v[0].guard is TRUE for v in by.values())
    if not cx.check(ok, "set-up of the control problem", lab + ", steps", str({k: len(v) for k, v in by.items()})):
        return
    by = {k: v[0] for k, v in by.items()}
    P = lambda w, k: CN.ptr(F.asptr(by[w].args[k]))
    cx.check(boundsof(F, by["get_DM_bounds"], d) == (ld(dm), 0, True), "set-up of the control problem", lab + ", range of the process", str(by["get_DM_bounds"])[:300])
    e = by["set_materials"]
    for k, n in enumerate(("parts", "surf", "rad", "nb", "num")):
        cx.check(P("set_materials", k) == o[n], "set-up of the control problem", "%s, list %d" % (lab, k), str(e.args[k]))
    B, tr = words(F, by["get_DM_bounds"], d)
    b = F.asptr(e.args[5])
    if d == 3 and b.root is F.asptr(by["get_DM_bounds"].args[0]).root:
        cx.check(b == F.asptr(by["get_DM_bounds"].args[0]), "set-up of the control problem", lab + ", range used", str(b))
    else:
        for k in range(2 * d):
            v = rewrite(CN.poly(F.asint(F.load(e.pre, Ptr(b.root, b.off + num(4 * k)), 4, "i32"))), tr, {})
            cx.check(v == B[k], "set-up of the control problem", "%s, range used %d" % (lab, k), str(v))
    cx.check(P("set_materials", 6) == h, "set-up of the control problem", lab + ", spacing", str(e.args[6]))
    cx.check(P("set_materials", 7) == o["dpart"], "set-up of the control problem", lab + ", spacing of the samples", str(e.args[7]))
    cx.check(CN.poly(F.asint(e.args[8])) == rd(o["scale"]), "set-up of the control problem", lab + ", subdivision", str(e.args[8]))
    S = by["MatCreateShell"].pre
    c0 = [e.val for e in F.effects if e.kind == "store" and CN.ptr(Ptr(e.root, e.ofs)) == o["ctx"] and e.guard is TRUE]
    c0 = F.asptr(c0[-1]) if c0 else Ptr(atom("sym", "nothing"), ZERO)
    new = F.asptr(by["_Znwm"].ret)
    cx.check(CN.ptr(c0) == CN.ptr(new), "set-up of the control problem", lab + ", context kept", str(c0))
    cell = lambda n: getattr(lay, n).root.args[1]
    at_ = lambda x: Ptr(new.root, new.off + x)
    for n, w in (("problem", "problem"), ("particles", "parts"), ("surf", "surf"), ("rad", "rad"), ("nb", "nb"), ("num", "num")):
        v = CN.ptr(F.asptr(F.load(S, at_(cell(n)), 8, "ptr")))
        cx.check(v == o[w], "context", "%s, %s" % (lab, n), str(v))
    v = CN.poly(F.asint(F.load(S, at_(lay.scale.off), 8, "i64")))
    cx.check(v == rd(o["scale"]), "context", lab + ", subdivision", str(v))
    for n in ("crhs", "rigid", "sing"):
        v = F.asint(F.load(S, at_(getattr(lay, n).off), 1, "i8"))
        cx.check(v == ZERO, "context", "%s, flag %s off" % (lab, n), str(v))
    if c == "d":
        v = CN.ptr(F.asptr(F.load(S, at_(cell("tmp")), 8, "ptr")))
        cx.check(v == ld(o["tmp"]), "context", lab + ", work vector", str(v))
    n = F.asint(by["set_materials"].ret).scale(d)
    A = by["MatCreateShell"].args
    for k in (1, 2):
        cx.check(F.asint(A[k]) == n, "matrix", "%s, local size %d" % (lab, k), str(A[k]))
        cx.check(F.asint(A[k + 2]).as_int() in (-1,), "matrix", "%s, global size %d" % (lab, k), str(A[k + 2]))
    cx.check(CN.ptr(F.asptr(A[5])) == CN.ptr(new) and P("MatCreateShell", 6) == o["A"], "matrix", lab + ", context", str(A[5:]))
    A = by["MatShellSetOperation"].args
    f = F.asptr(A[2])
    nm = str(f.root.args[0])
    want = r"%s_matrixILm%dE" % ("sem" if c == "s" else "DtoN", d)
    cx.check(P("MatShellSetOperation", 0) == ld(o["A"]) and F.asint(A[1]).as_int() == 3 and re.search(want, nm) is not None, "matrix", lab + ", product", "%s %s" % (A[1], nm))
    cx.check(P("MatCreateVecs", 0) == ld(o["A"]) and P("MatCreateVecs", 1) == o["sol"] and P("MatCreateVecs", 2) == o["rhs"], "matrix", lab + ", vectors", str(by["MatCreateVecs"])[:300])
    od = [by[w].order for w in ("set_materials", "MatCreateShell", "MatShellSetOperation", "MatCreateVecs")]
    cx.check(od == sorted(od), "matrix", lab + ", order", str(od))
