"""P11 Stokes right-hand side"""
from grid import *
from petscsim import *
TITLE = "The Stokes right-hand side is the mass-weighted forcing with Dirichlet values"
LEVEL = "proof"
TRUSTED = "clang 18 front end and -O2 IR; irdump; lib/petscsim.py semantics of the PETSc calls; the mass product (P05) and the Dirichlet values (P08)"
EXPLAIN = "The nodal sweep of the forcing (2D, 3D) is reduced to its callback calls (guard, node range, coordinates, target cell); set_rhs and stokes::setup_RHS are interpreted over symbolic vector contents with the sweep, the mass product and the Dirichlet pass kept as operators, and compared with the specification."
MIN_OBLIGATIONS = 60
nul = atom("sym", "null")


def wit():
    s = PROBES
    for d in (2, 3):
        s += '''extern "C" PetscErrorCode w_imp%(d)d(petsc::petsc_vec<%(d)d>&__restrict x, fem::rhs_conditions<%(d)d> const&c, std::array<double,%(d)d> const&h){ FIX(x,%(d)d) return fem::set_rhs_impl<%(d)d>(x,c,h,fem::kernel_func_on_rhs);}
extern "C" PetscErrorCode w_set%(d)d(DM dm, Vec v, fem::rhs_conditions<%(d)d> const&c, std::array<double,%(d)d> const&h){ return fem::set_rhs<%(d)d,1,%(d)d>(dm,v,c,h);}
extern "C" PetscErrorCode w_setup%(d)d(problem::stokes<%(d)d>&s){return s.problem::stokes<%(d)d>::setup_RHS();}
''' % {"d": d}
        for f in ("dm_", "v_", "v_entry_"):
            s += 'extern "C" void* w_v%d_%s(petsc::petsc_vec<%d> &c){ return &c.%s;}\n' % (d, f, d, f)
        for f in ("rhsc_", "ctx", "rhs", "sol"):
            s += 'extern "C" void* w_s%d_%s(problem::stokes<%d> &c){ return &c.%s;}\n' % (d, f, d, f)
        for f in ("dm", "h", "bc_"):
            s += 'extern "C" void* w_c%d_%s(problem::context<%d> &c){ return &c.%s;}\n' % (d, f, d, f)
    return s


def offs(m, pre, names):
    r = {}
    for f in names:
        P = Fn(m, pre + f)
        r[f] = P.asptr(P.rets[0][1]).off.as_int()
    return r


def sweep(cx, m, d):
    G = Grid(m, d)
    F = Fn(m, "w_imp%d" % d, keep=lambda n, k: n.startswith("*") and k == 0)
    lab = "nodal forcing sweep %dD" % d
    cx.saw("set_rhs_impl<%d>" % d)
    base = Canon()
    Y, CO, H = F.argatoms[:3]
    dm = G.dm(Y)
    seen = {}
    copied = set()
    for e in F.effects:
        if e.kind == "store":
            if e.root.kind != "alloca" and not own(e) and id(e) not in copied:
                cx.check(False, "no other store", lab, e.where())
            continue
        if not e.name.startswith("*"):
            cx.check(e.name in MODELS or e.name.startswith("llvm."), "nothing else is called", "%s: %s" % (lab, e.name), e.where())
            continue
        place, cp = filled(F, e, 1)
        if cp is not None:
            copied.add(id(cp))
        R = Region(G, F, e, Y, place)
        if not R.ok:
            cx.check(False, "values go to the nodes of the grid", lab, "%s\n%s" % (e.where(), R.why))
            continue
        inst = "%s component %d" % (lab, R.dof)
        seen[R.dof] = seen.get(R.dof, 0) + 1
        fn = atom("ld", CO, num(8 * R.dof))
        cal = base.ptr(e.fptr)
        cx.check(cal == Ptr(fn, ZERO), "which function is evaluated", inst, "%s\ncalls %s\nrequired %s" % (e.where(), cal, fmt_atom(fn, 0)))
        cx.check(R.guard is bnot(cmp_eq(Poly.of(fn), Poly.of(nul))), "evaluated exactly when it is given", inst, "%s\nonly if %s" % (e.where(), R.guard))
        for a in range(d):
            iv = R.interval(a)
            w = (G.start(dm, a), G.local(dm, a))
            cx.check(iv is not None and equal(base.poly(iv[0]), w[0]) and equal(base.poly(iv[1]), w[1]), "every owned node once", "%s axis %s" % (inst, AX[a]), "%s\n%s" % (e.where(), iv))
            X = F.asptr(e.args[0])
            v = base.poly(F.load(e.pre, Ptr(X.root, X.off + num(8 * a)), 8, "double"))
            h = base.poly(F.load(F.new_state(), Ptr(H, num(8 * a)), 8, "double"))
            cx.check(equal(v, R.idx[a] * h), "coordinates of the node", "%s coordinate %s" % (inst, AX[a]), "%s\nvalue %s\nrequired %s" % (e.where(), v, R.idx[a] * h))
    for c in range(d):
        cx.check(seen.get(c, 0) == 1, "each component once", "%s component %d" % (lab, c), "%d times" % seen.get(c, 0))


def scen(a):
    return ONE if a.kind == "tycmp" and a.args[1] == "composite" else None


def keepf(m):
    def k(name, i):
        n = m.dem.get(name, name)
        return any(x in n for x in ("set_rhs_impl<", "mass_mult", "SetDirichletOnRHS<", "set_rhs<"))
    return k


def adr(S, v):
    q = S.canon.ptr(S.F.asptr(v))
    return (q.root, q.off)


def forcing(cx, m, d, V):
    F = Fn(m, "w_set%d" % d, keep=keepf(m))
    dm, vec, CO, H = F.argatoms
    lab = "set_rhs<%d>" % d
    cx.saw(lab)

    def ops(S, e):
        n = m.dem.get(e.name, e.name)
        if "set_rhs_impl<" in n:
            x = S.vecarg(e, 0)
            hs = [k for k in range(1, len(e.args)) if isinstance(e.args[k], Ptr) and adr(S, e.args[k]) == (H, ZERO)]
            conds = []
            for k in range(1, len(e.args)):
                if not isinstance(e.args[k], Ptr):
                    continue
                p = F.asptr(e.args[k])
                q = S.canon.ptr(p)
                if p.root.kind == "alloca" or q == Ptr(CO, ZERO):
                    vs = [S.canon.ptr(F.asptr(F.load(e.pre, Ptr(p.root, p.off + num(8 * j)), 8, "ptr"))) for j in range(d)]
                    if all(vs[j] == Ptr(atom("ld", CO, num(8 * j)), ZERO) for j in range(d)):
                        conds.append(k)
            direct = [k for k in range(1, len(e.args)) if isinstance(e.args[k], Ptr) and S.canon.ptr(F.asptr(e.args[k])).root.kind == "ld" and S.canon.ptr(F.asptr(e.args[k])).root.args[0] is CO]
            okc = bool(conds) or [S.canon.ptr(F.asptr(e.args[k])) for k in direct] == [Ptr(atom("ld", CO, num(8 * j)), ZERO) for j in range(d)]
            cx.check(okc, "the given functions are evaluated", lab, e.where() + "\n%s" % (e.args,))
            cx.check(bool(hs), "cell sizes", lab + " sweep", e.where())
            S.put(x["v_entry_"], ("op", "nodal", S.get(x["v_entry_"]), x["dm_"]))
            return True
        if "mass_mult" in n:
            x, y = S.vecarg(e, 0), S.vecarg(e, 1)
            cx.check(adr(S, e.args[2]) == (H, ZERO), "cell sizes", lab + " mass", e.where())
            S.put(y["v_"], lin((ONE, S.get(y["v_"])), (ONE, ("op", "mass", S.get(x["v_"]), x["dm_"], y["dm_"]))))
            return True
        return False
    S = Sim(F, V, scen)
    S.run(None, ops)
    v0 = atom("entry", dm, ZERO)
    got = S.get(atom("sub", dm, vec, ZERO))
    want = lin((ONE, ("sub", ("in", vec), ZERO)), (ONE, ("S", ("op", "mass", ("G", ("op", "nodal", ("const", ZERO), v0), v0), v0, v0), v0)))
    cx.check(got == want, "forcing is added through the mass matrix", lab, "computed %s\nrequired %s" % (show(got), show(want)))
    other = [k for k in S.c if k is not atom("sub", dm, vec, ZERO) and (k is vec or isinstance(k, Atom) and k.kind == "sub" and k.args[1] is vec)]
    cx.check(not other, "the pressure part is unchanged", lab, str(other))
    gone = [k for k in S.held if k[0] in ("local vector", "component") or k[0].startswith("array")]
    cx.check(not S.problems and not S.pending and not gone, "protocol", lab, "\n".join(S.problems[:4] + [str(k) for k in gone]))


def setup(cx, m, d, V, SO, CO):
    F = Fn(m, "w_setup%d" % d, keep=keepf(m))
    A = F.argatoms[0]
    lab = "stokes<%d>::setup_RHS" % d
    cx.saw(lab)
    C = Canon()
    ctx = atom("ld", A, num(SO["ctx"]))
    rhs = atom("ld", A, num(SO["rhs"]))
    dm = atom("ld", ctx, num(CO["dm"]))
    some = FALSE
    for k in range(d):
        some = bor(some, bnot(cmp_eq(Poly.of(atom("ld", A, num(SO["rhsc_"] + 8 * k))), Poly.of(nul))))
    es = []
    for e in F.effects:
        if e.kind == "call" and "fem::set_rhs<" in m.dem.get(e.name, e.name):
            g = C.bdd(e.guard)
            cx.check(g is some, "forcing is used exactly when some component is given", lab, "%s\nonly if %s" % (e.where(), g))
            e.guard = TRUE
        es.append(e)

    def ops(S, e):
        n = m.dem.get(e.name, e.name)
        if "fem::set_rhs<" in n:
            cx.check(adr(S, e.args[2]) == (A, num(SO["rhsc_"])), "forcing of the problem", lab, e.where())
            cx.check(adr(S, e.args[3]) == (ctx, num(CO["h"])), "cell sizes", lab + " forcing", e.where())
            cx.check(S.h(e.args[0]) is dm, "grid of the problem", lab, e.where())
            v = S.h(e.args[1])
            S.put(v, lin((ONE, S.get(v)), (ONE, ("op", "forcing"))))
            return True
        if "SetDirichletOnRHS<" in n:
            y = S.vecarg(e, 0)
            cx.check(adr(S, e.args[1]) == (ctx, num(CO["bc_"])), "boundary conditions of the problem", lab, e.where())
            cx.check(adr(S, e.args[2]) == (ctx, num(CO["h"])), "cell sizes", lab + " boundary", e.where())
            S.put(y["v_entry_"], ("op", "dirichlet", S.get(y["v_entry_"]), y["dm_"]))
            return True
        return False
    S = Sim(F, V, scen)
    S.run(es, ops)
    sub = atom("sub", dm, rhs, ZERO)
    got = S.get(sub)
    want = ("op", "dirichlet", ("sub", lin((ONE, ("in", rhs)), (ONE, ("op", "forcing"))), ZERO), atom("entry", dm, ZERO))
    cx.check(got == want, "forcing then Dirichlet values on the velocity", lab, "computed %s\nrequired %s" % (show(got), show(want)))
    pr = S.done()
    cx.check(not pr, "protocol", lab, "\n".join(pr[:4]))
    ok = all(isinstance(v, Poly) and not v.t for b, v in F.rets)
    cx.check(ok, "returns success", lab, str(F.rets))


def run(cx):
    m1 = cx.ir(wit(), name="w1")
    m2 = cx.ir(wit(), noinline=[r"fem::set_rhs_impl<", r"fem::mass_mult"], name="w2")
    m3 = cx.ir(wit(), noinline=[r"fem::set_rhs<", r"fem::SetDirichletOnRHS<", r"petsc::get_DM\("], name="w3")
    for d in (2, 3):
        sweep(cx, m1, d)
        V = offs(m1, "w_v%d_" % d, ("dm_", "v_", "v_entry_"))
        forcing(cx, m2, d, V)
        setup(cx, m3, d, V, offs(m1, "w_s%d_" % d, ("rhsc_", "ctx", "rhs", "sol")), offs(m1, "w_c%d_" % d, ("dm", "h", "bc_")))
