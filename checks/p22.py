"""P22 assembly of the Stokes problem and of its solver"""
from wire import *
from fractions import Fraction
TITLE = "The Stokes system is built and solved from the options, mesh and data given"
LEVEL = "proof"
TRUSTED = "clang 18 front end and -O2 IR; irdump; lib/wire.py meaning of the PETSc creation and set calls; PETSc's own solvers"
EXPLAIN = "The constructor (2D; the 3D one does not compile), setup_KSP, setPMMSolver, the level operators (2D, 3D) and the pressure null space are replayed over symbolic objects for each combination of options; every matrix is identified by value and its history, context, cell sizes and callbacks compared with the specification."
MIN_OBLIGATIONS = 150
KEEP = [r"process_options\(", r"^(int|PetscErrorCode|void) cafes::fem::createMesh<", r"PreallocateMat<", r"^\S+ cafes::(laplacian|strain_tensor|mass|B_BT|diagonal)_assembling<",
        r"SetDirichletOnMat<", r"stokes<.*>::CreatePressureNullSpace\(", r"^_p_Mat\* cafes::fem::make_matrix<", r"^\S+ cafes::problem::setPMMSolver<"]
KEEP2 = [r"fem::get_DM_sizes\("]

WIT = '''
#include <cafes.hpp>
using namespace cafes;
using F2 = PetscErrorCode (*)(Mat,Vec,Vec); using F1 = PetscErrorCode (*)(Mat,Vec);
'''
CTOR = '''
extern "C" void w_ct2(problem::stokes<2>* s, fem::dirichlet_conditions<2> const& bc, fem::rhs_conditions<2> const& r){ new((void*)s) problem::stokes<2>(bc,r); }
extern "C" void w_mk2(problem::stokes<2>* s, fem::dirichlet_conditions<2> const& bc, fem::rhs_conditions<2> const& r){ new((void*)s) problem::stokes<2>(make_stokes<2,2>(bc,r)); }
extern "C" void w_fp(void const **__restrict o){ using K=problem::context<2>; using V=petsc::petsc_vec<2>; using H=std::array<double,2>;
 o[0]=(void*)(F2)fem::stokes_matrix<K>; o[1]=(void*)(F2)fem::diag_block_matrix<K>; o[2]=(void*)(F1)fem::diag_diag_block_matrix<K>;
 o[3]=(void*)(PetscErrorCode(*)(V&,V&,H const&))fem::laplacian_mult<2>; o[4]=(void*)(PetscErrorCode(*)(V&,V&,H const&))fem::strain_tensor_mult<2>; o[5]=(void*)(PetscErrorCode(*)(V&,V&,H const&))fem::mass_mult<2>;
 o[6]=(void*)(PetscErrorCode(*)(V&,H const&))fem::diag_laplacian_mult<2>; o[7]=(void*)(PetscErrorCode(*)(V&,H const&))fem::diag_mass_mult<2>; }
'''
MEM = '''
extern "C" int w_kp@(problem::stokes<@>& s){ return s.problem::stokes<@>::setup_KSP(); }
extern "C" int w_so@(problem::stokes<@>& s){ return s.problem::stokes<@>::solve(); }
extern "C" void w_ls@(problem::stokes<@>& s, void const **__restrict o){ o[0]=&s.rhsc_; o[1]=&s.opt.mx; o[2]=&s.opt.lx; o[3]=&s.opt.xperiod; o[4]=&s.opt.strain_tensor; o[5]=&s.opt.assembling; o[6]=&s.opt.pmm; o[7]=&s.ctx; o[8]=&s.sol; o[9]=&s.rhs; o[10]=&s.A; o[11]=&s.P; o[12]=&s.ksp; o[13]=&s.opt; }
extern "C" void w_lc@(problem::context<@>& s, void const **__restrict o){ o[0]=&s.dm; o[1]=&s.h; o[2]=&s.apply; o[3]=&s.apply_diag; o[4]=&s.bc_; o[5]=&s.set_bc_; o[6]=&s+1; }
extern "C" void w_lr@(fem::rhs_conditions<@>& s, void const **__restrict o){ o[0]=&s+1; }
extern "C" void w_lb@(fem::dirichlet_conditions<@>& s, void const **__restrict o){ o[0]=&s+1; }
'''
LEV = '''
extern "C" int w_nl@(problem::stokes<@>& s, DM m){ return s.CreatePressureNullSpace(m); }
extern "C" int w_lv@(KSP k, Mat a, Mat p, void* c){ return problem::createLevelMatrices<problem::context<@>,@>(k,a,p,c); }
extern "C" int w_pm@(KSP k, DM dm, problem::context<@>* c){ return problem::setPMMSolver<problem::context<@>,@>(k,dm,c); }
extern "C" void w_fp@(void const **__restrict o){ using K=problem::context<@>; using V=petsc::petsc_vec<@>; using H=std::array<double,@>;
 o[0]=(void*)(F2)fem::diag_block_matrix<K>; o[1]=(void*)(F1)fem::diag_diag_block_matrix<K>; o[2]=(void*)(PetscErrorCode(*)(V&,H const&))fem::diag_laplacian_mult<@>; o[3]=(void*)problem::createLevelMatrices<K,@>; }
'''
VEC = 'extern "C" void w_lv_@(petsc::petsc_vec<@>& s, void const **__restrict o){ o[0]=&s.dm_; o[1]=&s.v_; o[2]=&s.v_entry_; }\n'
AX = "xyz"
SN = ["rhsc_", "mx", "lx", "xperiod", "strain_tensor", "assembling", "pmm", "ctx", "sol", "rhs", "A", "P", "ksp", "opt"]
CF = ["dm", "h", "apply", "apply_diag", "bc_", "set_bc_", "end"]


def offs(m, w, names):
    F = Fn(m, w)
    r = {}
    for k, n in enumerate(names):
        p = F.asptr(F.load(F.final_state, Ptr(F.argatoms[1], num(8 * k)), 8, "ptr"))
        r[n] = p.off.as_int()
    return r


def fptrs(m, w, names):
    F = Fn(m, w)
    return {n: Canon().ptr(F.asptr(F.load(F.final_state, Ptr(F.argatoms[0], num(8 * k)), 8, "ptr"))) for k, n in enumerate(names)}


def short(m):
    """kept functions by their plain name"""
    def f(e):
        n = m.dem.get(e.name)
        if n is None:
            return e.name
        n = n.split("(")[0]
        d = 0
        r = ""
        for c in n:
            d += c == "<"
            if not d:
                r += c
            d -= c == ">"
        return r.split()[-1].split("::")[-1]
    return f


def params(m, e):
    """parameter types of a kept function"""
    n = m.dem.get(e.name, "")
    i = n.rindex("(") if n else 0
    r, d, cur = [], 0, ""
    body, depth = "", 0
    # last balanced parenthesis group
    for j in range(len(n) - 1, -1, -1):
        depth += n[j] == ")"
        depth -= n[j] == "("
        if depth == 0 and n[j] == "(":
            body = n[j + 1:n.rindex(")")]
            break
    for c in body:
        d += c in "<(["
        d -= c in ">)]"
        if c == "," and not d:
            r.append(cur.strip())
            cur = ""
        else:
            cur += c
    return r + [cur.strip()]


def same(a, b):
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a == b
    if isinstance(a, Poly) and isinstance(b, Poly):
        return not (a - b).t
    return a == b


class Report:
    def __init__(self, cx, W, lab):
        self.cx, self.W, self.lab = cx, W, lab

    def __call__(self, ok, rule, inst, detail=""):
        self.cx.check(ok, rule, "%s: %s" % (self.lab, inst), detail)

    def eq(self, got, want, rule, inst, where=""):
        self(same(got, want), rule, inst, "%s\nvalue %s\nrequired %s" % (where, got, want))

    def clean(self):
        W = self.W
        self(not W.problems, "every step happens unconditionally", "steps", "\n".join(W.problems[:3]))
        R = [(g, v) for g, v in W.F.rets]

    def returns(self):
        v = [W for W in (self.W.canon.poly(self.W.F.asint(r)) for g, r in self.W.F.rets)]
        self(len(v) == 1 and v[0] == ZERO, "returns success", "return value", str(v)[:200])


def one(R, xs, what):
    R(len(xs) == 1, "done exactly once", what, "%d times" % len(xs))
    return xs[0] if len(xs) == 1 else None


def target(W, e, k, m):
    """object meant by argument k, by value or by reference"""
    p = W.ptr(e.args[k])
    ty = params(m, e)
    if k < len(ty) and (ty[k].endswith("&") or ty[k].endswith("**")):
        return W.at(e, W.F.asptr(e.args[k]), 0)
    return p


def vals(W, e, k, n, size, ty):
    p = W.F.asptr(e.args[k])
    return [W.at(e, p, size * i, ty, size) for i in range(n)]


def context(R, root, C, d, spec, what):
    W = R.W
    R.eq(W.word(root, C["dm"]), spec["dm"], "context holds the grid it acts on", what)
    for i in range(d):
        R.eq(W.word(root, C["h"] + 8 * i, "double"), spec["h"][i], "context holds the cell sizes of its grid", "%s axis %s" % (what, AX[i]))
    R.eq(W.word(root, C["apply"]), spec["apply"], "context holds the operator", what)
    if "diag" in spec:
        R.eq(W.word(root, C["apply_diag"]), spec["diag"], "context holds the diagonal", what)
    s = W.word(root, C["set_bc_"], "i8", 1)
    s = s if not isinstance(s, BDD) else s
    on = s is TRUE or isinstance(s, Poly) and s.as_int() == 1
    off = s is FALSE or isinstance(s, Poly) and s == ZERO
    on = on or "flag" in spec and s == spec["flag"]      # without the flag there is no condition in bc_ either
    R(on if spec["bc"] else off, "boundary conditions are applied where they were given" if spec["bc"] else "no boundary conditions on the pressure", what, "flag %s" % s)
    if spec["bc"]:
        for k, w in enumerate(spec["bc"]):
            R.eq(W.word(root, C["bc_"] + 8 * k), w, "context holds the boundary conditions given", "%s word %d" % (what, k))


NULL = of(atom("sym", "null"))


def ctor(cx, m, w, S, C, RH, BC, FP):
    d = 2
    # the assembly passes change matrices, not the handles and sizes passed to them (P07)
    F = Fn(m, w, keep=lambda n, a: "_assembling" in m.dem.get(n, n))
    s, bc, rh = F.argatoms
    nm = short(m)
    cx.saw("stokes<2>::stokes", "make_stokes<2>")
    oracle = {"mx": [atom("sym", "option mx[%d]" % i) for i in range(d)], "lx": [atom("sym", "option Lx[%d]" % i) for i in range(d)], "xp": [atom("sym", "option period[%d]" % i) for i in range(d)]}
    for asm in (0, 1):
        for st in (0, 1):
            lab = "%s, %s, %s" % ("make_stokes" if w == "w_mk2" else "stokes<2>", "assembled" if asm else "matrix-free", "strain tensor" if st else "Laplacian")

            def opt(a):
                if a.kind == "ld" and a.args[0] is s:
                    o = a.args[1].as_int()
                    if o == S["assembling"]:
                        return num(asm)
                    if o == S["strain_tensor"]:
                        return num(st)
                    for i in range(d):
                        if o == S["mx"] + 4 * i:
                            return Poly.of(oracle["mx"][i])
                        if o == S["lx"] + 8 * i:
                            return Poly.of(oracle["lx"][i])
                        if o == S["xperiod"] + 4 * i:
                            return Poly.of(oracle["xp"][i])
                return None
            outs = {"createMesh": [(0, "mesh")], "PreallocateMat": [(3, "assembled")], "make_matrix": []}
            W = World(F, opt, outs, None, nm)
            opened = []

            def on(W, e, n, g):
                if n == "process_options":
                    p = W.ptr(e.args[0])
                    opened.append(p == Ptr(s, num(S["opt"])))
                    # the options hold what the user gave from here on
                    for k in [k for k in W.loc if k[0] is s and S["opt"] <= (k[1].as_int() or 0) < S["ctx"]]:
                        del W.loc[k]
                    W._renew()
                    return True
                return False
            W.run(on=on)
            R = Report(cx, W, lab)
            R(opened == [True], "the options given by the user are read first", "options", str(opened))
            R.clean()
            ev = one(R, W.all("createMesh"), "mesh creation")
            if ev is None:
                continue
            e = ev[1][3]
            mesh = ev[1][2][0]
            for i, v in enumerate(vals(W, e, 1, d, 4, "i32")):
                R.eq(v, Poly.of(oracle["mx"][i]), "mesh has the requested points", "axis " + AX[i], e.where())
            for i, v in enumerate(vals(W, e, 2, d, 4, "i32")):
                R.eq(v, Poly.of(oracle["xp"][i]), "mesh has the requested periodicity", "axis " + AX[i], e.where())
            dav, dap = of(atom("entry", mesh, ZERO)), of(atom("entry", mesh, ONE))
            hp = [Poly.of(oracle["lx"][i]) * inv(Poly.of(oracle["mx"][i]) - ONE) for i in range(d)]
            hu = [hp[i] * num(Fraction(1, 2)) for i in range(d)]
            # vectors
            sol, rhs = W.word(s, S["sol"]), W.word(s, S["rhs"])
            made = {}
            for i, x in enumerate(W.ev):
                for o in x[2].values():
                    made[of(o)] = (i, x)

            def vector(v, what):
                i, x = made.get(v, (None, None))
                ok = x is not None and (x[0] == "DMCreateGlobalVector" and x[1][0] == of(mesh) or x[0] == "VecDuplicate" and x[1][0] != v and vector(x[1][0], None))
                if what:
                    R(ok, "vectors of the whole mesh", what, str(v))
                return ok
            vector(sol, "solution")
            vector(rhs, "right-hand side")
            R(sol != rhs, "vectors of the whole mesh", "distinct", "%s and %s" % (sol, rhs))
            sets = [x for x in W.ev if x[0] in ("VecSet", "VecZeroEntries") and x[1][0] == rhs]
            R(len(sets) == 1 and (sets[0][0] == "VecZeroEntries" or same(sets[0][1][1], ZERO)), "the right-hand side starts at zero", "right-hand side", str([x[1] for x in sets]))
            # main context
            ctx = W.word(s, S["ctx"])
            if not (isinstance(ctx, Ptr) and ctx.root.kind == "ret" and not ctx.off.t):
                R(False, "the context belongs to the problem", "context", str(ctx))
                continue
            bcw = [W.canon.ptr(F.asptr(F.load(F.new_state(), Ptr(bc, num(8 * k)), 8, "ptr"))) for k in range(BC // 8)]
            op = FP["strain_tensor_mult" if st else "laplacian_mult"]
            context(R, ctx.root, C, d, {"dm": of(mesh), "h": hu, "apply": op, "bc": bcw}, "main")
            for k in range(RH // 8):
                R.eq(W.word(s, S["rhsc_"] + 8 * k), of(atom("ld", rh, num(8 * k))), "the forcing given is kept", "word %d" % k)
            A, P = W.word(s, S["A"]), W.word(s, S["P"])
            R(A != P and A in made and P in made, "two matrices", "A and P", "%s and %s" % (A, P))
            if A not in made or P not in made:
                continue
            for M, t in ((A, "A"), (P, "P")):
                x = [(i, x) for i, x in W.all("MatSetDM") if x[1][0] == M]
                R(len(x) >= 1 and all(y[1][1] == of(mesh) for i, y in x), "the matrix knows its mesh", t, str([y[1] for i, y in x]))
            if asm:
                assembled(R, m, made, A, P, mesh, dav, ctx, hu, hp, st, bcw, bc, S, s)
            else:
                free(R, m, made, A, P, dav, dap, ctx, hu, hp, C, op, bcw, FP)


def assembled(R, m, made, A, P, mesh, dav, ctx, hu, hp, st, bcw, bc, S, s):
    W, F = R.W, R.W.F
    blocks = {}
    ends = {}
    use = {"laplacian_assembling": ("velocity", "Laplacian"), "strain_tensor_assembling": ("velocity", "strain tensor"), "B_BT_assembling": ("coupling", "coupling"),
           "mass_assembling": ("pressure", "mass"), "diagonal_assembling": ("pressure", "zeros")}
    for M, t in ((A, "A"), (P, "P")):
        i0, x = made[M]
        R(x[0] == "PreallocateMat", "matrices are preallocated", t, x[0])
        if x[0] != "PreallocateMat":
            continue
        e = x[3]
        R.eq(x[1][0], ctx, "preallocated for this problem", t + " context", e.where())
        R.eq(x[1][1], Ptr(s, num(S["opt"])), "preallocated for this problem", t + " options", e.where())
        R(x[1][2] == "aij", "matrices are preallocated", t + " type", str(x[1][2]))
        pre = x[1][4]
        pre = 1 if pre is TRUE or isinstance(pre, Poly) and pre.as_int() == 1 else 0 if pre is FALSE or isinstance(pre, Poly) and pre == ZERO else pre
        R(pre == (1 if t == "P" else 0), "preallocated for its own pattern", t, "preconditioner flag %s" % x[1][4])
        got = []
        last = i0
        for i, y in enumerate(W.ev):
            if y[0] in use and target(W, y[3], 1, m) == M:
                R(i > i0, "contributions go to the preallocated matrix", "%s %s" % (t, y[0]), y[3].where())
                g = target(W, y[3], 0, m)
                want = dav if use[y[0]][0] == "velocity" else of(mesh)
                R.eq(g, want, "contributions come from their grid", "%s %s" % (t, y[0]), y[3].where())
                if y[0] == "diagonal_assembling":
                    R(same(y[1][2], ZERO), "pressure diagonal of A is zero", t, str(y[1][2]))
                else:
                    hs = vals(W, y[3], 2, 2, 8, "double")
                    for a in range(2):
                        R.eq(hs[a], (hp if use[y[0]][1] == "mass" else hu)[a], "contributions use the cell sizes of their grid", "%s %s axis %s" % (t, y[0], AX[a]), y[3].where())
                got.append(use[y[0]][1])
                last = max(last, i)
        vel = "strain tensor" if st else "Laplacian"
        want = [vel, "coupling", "zeros"] if t == "A" else [vel, "mass"]
        R(sorted(got) == sorted(want), "the matrix is the sum of its blocks", t, "added %s\nrequired %s" % (got, want))
        b = [i for i, y in W.all("MatAssemblyBegin") if y[1][0] == M and same(y[1][1], ZERO)]
        f = [i for i, y in W.all("MatAssemblyEnd") if y[1][0] == M and same(y[1][1], ZERO)]
        R(len(b) == len(f) and len(b) >= 1 and b[-1] > last and f[-1] > b[-1], "finally assembled after every contribution", t, "last contribution %s, begin %s, end %s" % (last, b, f))
        ds = [(i, y) for i, y in enumerate(W.ev) if y[0] == "SetDirichletOnMat" and target(W, y[3], 0, m) == M]
        R(len(ds) == 1 and f and ds[0][0] > f[-1], "Dirichlet rows are imposed once, after assembly", t, "%d times" % len(ds))
        for i, y in ds:
            got = [W.at(y[3], F.asptr(y[3].args[1]), 8 * k) for k in range(len(bcw))]
            R(all(same(u, v) for u, v in zip(got, bcw)), "Dirichlet rows are those of the conditions given", t, "%s\n%s" % (y[3].where(), got))
    ns = [(i, y) for i, y in enumerate(W.ev) if y[0] == "CreatePressureNullSpace"]
    R(len(ns) == 1 and ns[0][1][1][0] == of(s) and ns[0][1][1][1] == of(mesh), "constant pressures are declared to be in the kernel", "A", str([y[1] for i, y in ns]))
    if ns:
        sets = [i for i, x in enumerate(W.ev) if x is made[A][1]]
        R(ns[0][0] > made[A][0], "constant pressures are declared to be in the kernel", "after A exists")


def free(R, m, made, A, P, dav, dap, ctx, hu, hp, C, op, bcw, FP):
    W, F = R.W, R.W.F
    x = made[A][1]
    R(x[0] == "make_matrix" and x[1][0] == ctx and x[1][1] == FP["stokes_matrix"], "A is the Stokes operator of the problem's context", "A", "%s %s" % (x[0], x[1]))
    x = made[P][1]
    R(x[0] == "MatCreateNest", "P is block diagonal", "P", x[0])
    if x[0] != "MatCreateNest":
        return
    e = x[3]
    R(same(x[1][1], num(2)) and same(x[1][3], num(2)) and x[1][2] == NULL and x[1][4] == NULL, "P is block diagonal", "2 x 2 blocks", str(x[1][:5]))
    # the blocks are read where the array was filled: stores precede the call
    p = W.F.asptr(e.args[5])
    b = [W.at(e, p, 8 * k) for k in range(4)]
    R(b[1] == NULL and b[2] == NULL, "P is block diagonal", "no coupling blocks", str(b))
    for k, t, g, h, a, dg, cond in ((0, "velocity block of P", dav, hu, op, FP["diag_laplacian_mult"], bcw), (3, "pressure block of P", dap, hp, FP["mass_mult"], FP["diag_mass_mult"], None)):
        y = made.get(b[k])
        R(y is not None and y[1][0] == "make_matrix", "blocks of P are operators", t, str(b[k]))
        if y is None or y[1][0] != "make_matrix":
            continue
        a1 = y[1][1]
        R(a1[1] == FP["diag_block_matrix"] and (len(a1) < 3 or a1[2] == FP["diag_diag_block_matrix"]), "blocks of P are operators", t + " callbacks", str(a1[1:]))
        R(isinstance(a1[0], Ptr) and a1[0].root.kind == "ret" and a1[0] != ctx, "blocks of P have their own context", t, str(a1[0]))
        if isinstance(a1[0], Ptr) and a1[0].root.kind == "ret":
            context(R, a1[0].root, C, 2, {"dm": g, "h": h, "apply": a, "diag": dg, "bc": cond}, t)
    sh = {}
    for i, y in W.all("DMSetMatType"):
        sh[y[1][0]] = y[1][1]
    R(sh.get(dav) == "shell", "velocity grids make shell matrices", "velocity", str(sh))


def words(W, root, C, d):
    """content of a context object given by the caller"""
    ld = lambda o: Poly.of(atom("ld", root, num(o)))
    return {"dm": Ptr(atom("ld", root, num(C["dm"])), ZERO), "h": [ld(C["h"] + 8 * i) for i in range(d)], "apply": Ptr(atom("ld", root, num(C["apply"])), ZERO),
            "diag": Ptr(atom("ld", root, num(C["apply_diag"])), ZERO), "flag": Poly.of(atom("ld", root, num(C["set_bc_"]))), "bc": [Ptr(atom("ld", root, num(C["bc_"] + 8 * k)), ZERO) for k in range((C["set_bc_"] - C["bc_"]) // 8)]}


def is1(v):
    return v is TRUE or isinstance(v, Poly) and v.as_int() == 1


def is0(v):
    return v is FALSE or isinstance(v, Poly) and v == ZERO


def ksp(cx, m, d, S, C):
    F = Fn(m, "w_kp%d" % d)
    s = F.argatoms[0]
    cx.saw("stokes<%d>::setup_KSP" % d)
    ld = lambda n: atom("ld", s, num(S[n]))
    A, P, ctx = of(ld("A")), of(ld("P")), of(ld("ctx"))
    dm = of(atom("ld", ld("ctx"), num(C["dm"])))
    for asm in (0, 1):
        for pmm in (0, 1):
            for pre in (0, 1):
                for lu in (0, 1):
                    if not asm and (pre or lu):
                        continue
                    lab = "setup_KSP<%d>, %s%s%s%s" % (d, "assembled" if asm else "matrix-free", ", PMM" if pmm else "", ", preonly" if pre else "", ", LU" if lu else "")

                    def opt(a):
                        if a.kind == "ld" and a.args[0] is s:
                            return {S["assembling"]: num(asm), S["pmm"]: num(pmm)}.get(a.args[1].as_int())
                        if a.kind == "tycmp":
                            return {"preonly": num(pre), "lu": num(lu)}.get(a.args[1])
                        return None
                    W = World(F, opt, {}, None, short(m)).run()
                    R = Report(cx, W, lab)
                    R.clean()
                    R.returns()
                    c = one(R, W.all("KSPCreate"), "solver creation")
                    if c is None:
                        continue
                    k = c[1][2][1]
                    R.eq(W.word(s, S["ksp"]), of(k), "the solver belongs to the problem", "solver")
                    pc = obj("KSPGetPC", of(k))
                    names = {}
                    for i, x in enumerate(W.ev):
                        names.setdefault(x[0], []).append((i, x))
                    dms = [x[1] for i, x in names.get("KSPSetDM", [])]
                    R(len(dms) == 1 and dms[0][0] == of(k) and dms[0][1] == dm, "the solver knows the mesh and not its operators", "mesh", str(dms))
                    act = [x[1] for i, x in names.get("KSPSetDMActive", [])]
                    R(len(act) >= 1 and act[-1][0] == of(k) and is0(act[-1][1]), "the solver knows the mesh and not its operators", "mesh inactive", str(act))
                    pf = [(i, x[1]) for i, x in names.get("KSPSetOptionsPrefix", [])]
                    fo = [(i, x[1]) for i, x in names.get("KSPSetFromOptions", [])]
                    R(len(pf) == 1 and pf[0][1][0] == of(k) and pf[0][1][1] == "stokes_" and fo and pf[0][0] < fo[0][0] and all(y[0] == of(k) for i, y in fo), "options with prefix stokes_ are honoured", "options", "%s %s" % (pf, fo))
                    so = [(i, x[1]) for i, x in names.get("KSPSetOperators", [])]
                    want = (A, A) if asm and pre and lu else (A, P)
                    R(bool(so) and all(y[0] == of(k) for i, y in so) and (so[-1][1][1], so[-1][1][2]) == want, "operators of the solver", "operators", "%s\nrequired %s" % (so, want))
                    sh = [x[1] for i, x in names.get("PCFactorSetShiftType", [])]
                    R((len(sh) == 1 and sh[0][0] == of(pc) and same(sh[0][1], ONE)) if asm and pre and lu else not sh, "a direct solve of the assembled system shifts zero pivots", "shift", str(sh))
                    pm = [(i, x[1]) for i, x in names.get("setPMMSolver", [])]
                    if pmm and not asm:
                        R(len(pm) == 1 and pm[0][1][:3] == [of(k), dm, ctx] and so and pm[0][0] > so[-1][0], "the pressure-mass multigrid is set up on request", "PMM", str(pm))
                    else:
                        R(not pm, "the pressure-mass multigrid is set up on request", "no PMM", str(pm))
                    odd = [n for n in names if n.startswith(("KSPSet", "PCSet", "PCF", "MatS", "VecS", "DMS")) and n not in
                           ("KSPSetDM", "KSPSetDMActive", "KSPSetOptionsPrefix", "KSPSetFromOptions", "KSPSetOperators", "KSPSetUp", "PCFactorSetShiftType")]
                    R(not odd, "nothing else is configured", "steps", str(odd))


def solve(cx, m, d, S):
    F = Fn(m, "w_so%d" % d)
    s = F.argatoms[0]
    cx.saw("stokes<%d>::solve" % d)
    W = World(F, None, {}, None, short(m)).run()
    R = Report(cx, W, "solve<%d>" % d)
    R.clean()
    R.returns()
    v = [of(atom("ld", s, num(S[n]))) for n in ("ksp", "rhs", "sol")]
    ev = [x for x in W.ev if not x[0].startswith("Petsc")]
    R(len(ev) == 1 and ev[0][0] == "KSPSolve" and ev[0][1] == v, "one solve from the right-hand side into the solution", "steps", str([(x[0], x[1]) for x in ev]))


def levels(cx, m, d, C, FP):
    F = Fn(m, "w_lv%d" % d, keep=lambda n, a: False)
    k, A, B, c = F.argatoms
    cx.saw("createLevelMatrices<%d>" % d)
    for per in range(2 ** d):
        pers = [per >> i & 1 for i in range(d)]

        def opt(a):
            if a.kind == "info" and a.args[0] in ("bx", "by", "bz"):
                i = "xyz".index(a.args[0][1])
                return num(3 * pers[i]) if i < d else ZERO
            return None
        W = World(F, opt, {"get_DM_sizes": [(1, "local size"), (2, "total size")]}, None, short(m)).run()
        R = Report(cx, W, "createLevelMatrices<%d>, periodic %s" % (d, "".join(AX[i] for i in range(d) if pers[i]) or "nowhere"))
        R.clean()
        R.returns()
        given = words(W, c, C, d)
        dm = of(obj("KSPGetDM", of(k)))
        sz = {}
        for i, x in W.all("get_DM_sizes"):
            sz[target(W, x[3], 0, m)] = x[2]
        x = one(R, W.all("MatSetSizes"), "sizes")
        if x:
            t = sz.get(dm)
            R(x[1][1][0] == of(A) and t is not None and [str(v) for v in x[1][1][1:5]] == [str(of(t[j]).root) for j in (1, 1, 2, 2)], "the level matrix has the sizes of its grid", "sizes", "%s\n%s" % (x[1][1], sz))
        ops = {}
        for i, x in W.all("MatShellSetOperation"):
            ops[x[1][1].as_int()] = (x[1][0], x[1][2])
        R(ops.get(3) == (of(A), FP["diag_block_matrix"]), "the level matrix applies the velocity operator", "product", str(ops))
        R(ops.get(17) == (of(A), FP["diag_diag_block_matrix"]), "the level matrix gives its diagonal", "diagonal", str(ops))
        ty = [x[1] for i, x in W.all("MatSetType")]
        R(len(ty) == 1 and ty[0][0] == of(A) and ty[0][1] == "shell", "the level matrix is a shell", "type", str(ty))
        md = [x[1] for i, x in W.all("MatSetDM")]
        R(len(md) == 1 and md[0] == [of(A), dm], "the level matrix knows its grid", "grid", str(md))
        x = one(R, W.all("MatShellSetContext"), "context")
        if not x:
            continue
        n = x[1][1][1]
        R(x[1][1][0] == of(A) and n.root.kind == "ret" and not n.off.t, "every level has its own context", "context", str(x[1][1]))
        if n.root.kind != "ret":
            continue
        # same domain, number of cells of this grid
        cells = lambda g, i: Poly.of(atom("info", "m" + AX[i], g)) - (ZERO if pers[i] else ONE)
        fine, coarse = given["dm"].root, dm.root
        h = [given["h"][i] * cells(fine, i) * inv(cells(coarse, i)) for i in range(d)]
        context(R, n.root, C, d, {"dm": dm, "h": h, "apply": given["apply"], "diag": given["diag"], "bc": given["bc"], "flag": given["flag"]}, "level")


def pmm(cx, m, d, C, FP):
    F = Fn(m, "w_pm%d" % d)
    k, dm, c = F.argatoms
    cx.saw("setPMMSolver<%d>" % d)
    W = World(F, None, {}, None, short(m)).run()
    R = Report(cx, W, "setPMMSolver<%d>" % d)
    R.clean()
    R.returns()
    given = words(W, c, C, d)
    pc = of(obj("KSPGetPC", of(k)))
    sub = obj("PCFieldSplitGetSubKSP", pc)
    s0, s1 = of(atom("ld", sub, ZERO)), of(atom("ld", sub, num(8)))
    p0, p1 = of(obj("KSPGetPC", s0)), of(obj("KSPGetPC", s1))
    dav = of(atom("entry", dm, ZERO))

    def last(nm, o):
        x = [(i, y) for i, y in W.all(nm) if y[1][0] == o]
        return x[-1] if x else (None, None)

    def setting(nm, o, want, rule, inst, after=None):
        i, x = last(nm, o)
        ok = x is not None and len(x[1]) > len(want) and all(same(a, b) for a, b in zip(x[1][1:], want)) and (after is None or after < i)
        R(ok, rule, inst, "%s\nrequired %s(%s)" % (x and x[1], nm, ", ".join(map(str, want))))
        return i if ok else None
    setting("KSPSetType", of(k), ["gcr"], "outer solver", "type")
    t = setting("PCSetType", pc, ["fieldsplit"], "outer preconditioner", "type")
    t = -1 if t is None else t
    r = "upper Schur factorisation with the pressure block of P"
    last_set = [setting("PCFieldSplitSetType", pc, [num(4)], r, "composite", t), setting("PCFieldSplitSetOffDiagUseAmat", pc, [ONE], r, "coupling taken from A", t),
                setting("PCFieldSplitSetSchurFactType", pc, [num(2)], r, "upper factor", t), setting("PCFieldSplitSetSchurPre", pc, [num(3), NULL], r, "Schur complement approximated by the pressure block", t)]
    up = [i for i, x in W.all("PCSetUp") if x[1][0] == pc]
    R(len(up) == 1 and all(i is not None and i < up[0] for i in last_set), r, "set before the blocks are made", str(up))
    x = one(R, W.all("DMKSPSetComputeOperators"), "level operators")
    if x:
        i, x = x
        R(x[1][0] == dav and x[1][1] == FP["createLevelMatrices"] and up and i < up[0], "every level makes its own operator", "velocity grid", str(x[1]))
        n = x[1][2]
        R(n.root.kind == "ret" and not n.off.t, "the finest level has its own context", "context", str(n))
        if n.root.kind == "ret":
            context(R, n.root, C, d, {"dm": dav, "h": given["h"], "apply": given["apply"], "diag": FP["diag_laplacian_mult"], "bc": given["bc"], "flag": given["flag"]}, "finest level")
    g = [i for i, x in W.all("PCFieldSplitGetSubKSP")]
    R(len(g) >= 1 and up and g[0] > up[0], "the block solvers are those of the factorisation", "blocks", str(g))
    setting("KSPSetDM", s0, [dav], "velocity block is solved by multigrid on its grid", "grid")
    setting("KSPSetDMActive", s0, [ZERO], "velocity block is solved by multigrid on its grid", "operators kept")
    setting("KSPSetType", s0, ["gcr"], "velocity block is solved by multigrid on its grid", "solver")
    t = setting("PCSetType", p0, ["mg"], "velocity block is solved by multigrid on its grid", "preconditioner")
    x = [(i, y) for i, y in W.all("PCMGSetLevels") if y[1][0] == p0]
    R(len(x) == 1 and t is not None and x[0][0] > t, "velocity block is solved by multigrid on its grid", "levels", str(len(x)))
    if len(x) == 1:
        n = x[0][1][1][1]
        sm = W.all("PCMGGetSmoother")
        R(len(sm) == 1 and sm[0][1][1][0] == p0 and len(sm[0][1][3].loops) == 1 and sm[0][0] > x[0][0], "every level is smoothed", "smoothers", str([y[1] for i, y in sm]))
        if len(sm) == 1 and len(sm[0][1][3].loops) == 1:
            L = sm[0][1][3].loops[0]
            R.eq(W.canon.poly(L.count), n, "every level is smoothed", "number of smoothers", sm[0][1][3].where())
            i = sm[0][1][1][1]
            t = Poly.of(L.t)
            R(isinstance(i, Poly) and (same(i, W.canon.poly(t)) or same(i, W.canon.poly(L.count) - ONE - W.canon.poly(t))), "every level is smoothed", "level numbers", str(i))
            s = of(sm[0][1][2][2])
            setting("KSPSetType", s, ["cg"], "every level is smoothed", "smoother")
            setting("PCSetType", of(obj("KSPGetPC", s)), ["jacobi"], "every level is smoothed", "its preconditioner")
    setting("KSPSetType", s1, ["preonly"], "pressure block is one Jacobi step", "solver")
    setting("PCSetType", p1, ["jacobi"], "pressure block is one Jacobi step", "preconditioner")
    return


def kernel(cx, m, d, S, V):
    from petscsim import Sim
    F = Fn(m, "w_nl%d" % d)
    s, mesh = F.argatoms
    lab = "CreatePressureNullSpace<%d>" % d
    cx.saw("stokes<%d>::CreatePressureNullSpace" % d)
    st = {}

    def custom(S_, e):
        if e.name in ("DMGetGlobalVector", "DMCreateGlobalVector"):
            return True
        if e.name == "PetscObjectComm":
            return True
        if e.name == "VecNormalize":
            h = S_.h(e.args[0])
            subs = {k.args[2].as_int(): v for k, v in S_.c.items() if isinstance(k, Atom) and k.kind == "sub" and k.args[1] is h}
            st["norm"] = (h, S_.get(h), subs)
            S_.put(h, ("op", "normalised"))
            return True
        if e.name == "MatNullSpaceCreate":
            p = F.asptr(e.args[3])
            st["ns"] = (S_.n(e.args[1]), S_.n(e.args[2]), S_.h(F.load(e.pre, p, 8, "ptr")))
            st["content"] = S_.get(st["ns"][2])
            q = S_.canon.ptr(F.asptr(e.args[4]))
            st["obj"] = [of(atom("ld", q.root, q.off)), of(atom("out", e.name, F.name, e.ins["id"]))]
            return True
        if e.name in ("MatSetNullSpace", "MatNullSpaceDestroy", "VecDestroy"):
            if e.name == "MatSetNullSpace":
                st["set"] = (S_.canon.ptr(F.asptr(e.args[0])), S_.canon.ptr(F.asptr(e.args[1])))
            return True
        if e.name == "DMRestoreGlobalVector":
            st["back"] = e
            return True
        return False
    Q = Sim(F, V, lambda a: ONE if a.kind == "tycmp" and a.args[1] == "composite" else None)
    Q.run(custom=custom)
    ck = lambda ok, r, i, dt="": cx.check(ok, r, "%s: %s" % (lab, i), dt)
    pr = Q.done()
    ck(not pr, "the vector protocol is respected", "steps", "\n".join(pr[:3]))
    h, c, subs = st.get("norm", (None, None, None))
    ck(c == ("const", ZERO) and subs == {1: ("const", ONE)}, "the kernel vector is a constant pressure", "content", "%s %s" % (c, subs))
    ns = st.get("ns")
    ck(ns is not None and ns[0] == ZERO and ns[1] == ONE and ns[2] == h and st["content"] == ("op", "normalised"), "the kernel vector is a constant pressure", "normalised", str((ns, st.get("content"))))
    ck(st.get("set") is not None and st["set"][0] == of(atom("ld", s, num(S["A"]))) and st["set"][1] in st.get("obj", []), "the kernel is attached to A", "A", str(st.get("set")))
    ck("back" not in st, "nobody else can overwrite the kernel vector", "work vector", str(st.get("back") and st["back"].where()))
    W = [Canon().poly(F.asint(v)) for g, v in F.rets]
    ck(len(W) == 1 and W[0] == ZERO, "returns success", "return value", str(W)[:200])


def run(cx):
    m = cx.ir(WIT + CTOR + MEM.replace("@", "2") + MEM.replace("@", "3"), noinline=KEEP)
    FP = fptrs(m, "w_fp", ["stokes_matrix", "diag_block_matrix", "diag_diag_block_matrix", "laplacian_mult", "strain_tensor_mult", "mass_mult", "diag_laplacian_mult", "diag_mass_mult"])
    S = offs(m, "w_ls2", SN)
    C = offs(m, "w_lc2", CF)
    RH, BC = offs(m, "w_lr2", ["e"])["e"], offs(m, "w_lb2", ["e"])["e"]
    for w in ("w_ct2", "w_mk2"):
        ctor(cx, m, w, S, C, RH, BC, FP)
    for d in (2, 3):
        S, C = offs(m, "w_ls%d" % d, SN), offs(m, "w_lc%d" % d, CF)
        ksp(cx, m, d, S, C)
        solve(cx, m, d, S)
    m2 = cx.ir(WIT + "".join((MEM + LEV + VEC).replace("@", str(d)) for d in (2, 3)), noinline=KEEP2, name="levels")
    for d in (2, 3):
        S, C = offs(m2, "w_ls%d" % d, SN), offs(m2, "w_lc%d" % d, CF)
        FP = fptrs(m2, "w_fp%d" % d, ["diag_block_matrix", "diag_diag_block_matrix", "diag_laplacian_mult", "createLevelMatrices"])
        levels(cx, m2, d, C, FP)
        pmm(cx, m2, d, C, FP)
        kernel(cx, m2, d, S, offs(m2, "w_lv_%d" % d, ["dm_", "v_", "v_entry_"]))
