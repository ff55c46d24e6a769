"""P05 matrix-free kernels"""
from grid import *
TITLE = "Matrix-free kernels apply the exact element operator on every element once"
LEVEL = "proof"
TRUSTED = "clang 18 front end and -O2 IR; irdump; lib/algebra.py normal forms; the accessor at() of the local view (P10); x and y are distinct vectors; PETSc's partition of the nodes"
EXPLAIN = "Each *_mult kernel (Laplacian, strain tensor, mass, their diagonals, pressure coupling; 2D and 3D) is reduced to a summary: for a generic element, every accumulation into y as a linear form in the cells of x. Sweep bounds, target nodes and coefficients are compared with the exact element matrices and with the box of elements whose first node is owned."
MIN_OBLIGATIONS = 600


def wit():
    s = PROBES
    for d in (2, 3):
        for k in ("laplacian", "strain_tensor", "mass"):
            s += 'extern "C" PetscErrorCode w_%s%d(petsc::petsc_vec<%d>&__restrict x, petsc::petsc_vec<%d>&__restrict y, std::array<double,%d> const& h){ FIX(x,%d) FIX(y,%d) return fem::%s_mult<%d>(x,y,h);}\n' % (k, d, d, d, d, d, d, k, d)
        for k in ("diag_laplacian", "diag_mass"):
            s += 'extern "C" PetscErrorCode w_%s%d(petsc::petsc_vec<%d>&__restrict x, std::array<double,%d> const& h){ FIX(x,%d) return fem::%s_mult<%d>(x,h);}\n' % (k, d, d, d, d, k, d)
        s += 'extern "C" PetscErrorCode w_mass1_%d(petsc::petsc_vec<%d>&__restrict x, petsc::petsc_vec<%d>&__restrict y, std::array<double,%d> const& h){ FIX(x,1) FIX(y,1) return fem::mass_mult<%d>(x,y,h);}\n' % (d, d, d, d, d)
        s += 'extern "C" PetscErrorCode w_diag_mass1_%d(petsc::petsc_vec<%d>&__restrict x, std::array<double,%d> const& h){ FIX(x,1) return fem::diag_mass_mult<%d>(x,h);}\n' % (d, d, d, d)
        s += 'extern "C" PetscErrorCode w_B%d(petsc::petsc_vec<%d> const&__restrict x, petsc::petsc_vec<%d> const&__restrict xp, petsc::petsc_vec<%d>&__restrict y, petsc::petsc_vec<%d>&__restrict yp, std::array<double,%d> const& h){ FIX(x,%d) FIX(y,%d) FIX(xp,1) FIX(yp,1) return fem::B_and_BT_mult<%d>(x,xp,y,yp,h);}\n' % (d, d, d, d, d, d, d, d, d)
    return s


def sweep(cx, G, m, name, label, dmarg, harg, want):
    """want(F, h, E): {target address: Poly in x cells}; compares with the accumulated effects"""
    F = Fn(m, name)
    cx.saw(label)
    d = G.d
    base = Canon()
    st = F.new_state()
    h = [Canon().poly(F.load(st, Ptr(F.argatoms[harg], num(8 * a)), 8, "double")) for a in range(d)]
    dm = G.dm(F.argatoms[dmarg])
    acc = {}
    where = {}
    for e in F.effects:
        if e.kind == "call":
            cx.check(e.name in MODELS or e.name.startswith("llvm."), "kernel calls nothing else", "%s: %s" % (label, e.name), e.where())
            continue
        if e.root.kind == "alloca" or own(e):
            continue
        sub, probs = G.loops(F, e, dm)
        cx.check(not probs, "sweep covers each element once", label + (": " + e.where() if probs else ""), "; ".join(probs) + "\n" + e.where())
        if e.guard is not TRUE:
            cx.check(False, "accumulation is unconditional", label, "%s\nonly if %s" % (e.where(), base.bdd(e.guard)))
        C = Canon(sub)
        p = C.ptr(Ptr(e.root, e.ofs))
        pre = e.pre if e.pre is not None else ZERO
        delta = C.poly(e.val - pre)
        acc[p] = acc.get(p, ZERO) + delta
        where[p] = e.where()
    exp = want(F, h)
    for p, w in exp.items():
        g = acc.pop(p, ZERO)
        cx.check(equal(g, w), "element action", "%s: contribution to %s" % (label, p), "at %s\ncomputed %s\nrequired %s" % (where.get(p, "(no store)"), g, w))
    for p, g in acc.items():
        cx.check(equal(g, ZERO), "no other cell is written", "%s: %s" % (label, p), "%s\n+= %s" % (where[p], g))
    # error code
    ok = all(isinstance(v, Poly) and not v.t for b, v in F.rets)
    cx.check(ok, "returns success", label, str(F.rets))


def run(cx):
    m = cx.ir(wit())
    for d in (2, 3):
        G = Grid(m, d)
        cor = fem.corners(d)
        def nd(c, s=1):
            return [G.E[a].scale(s) + num(c[a]) for a in range(d)]
        def X(F, k, c, dof, s=1):
            return Poly.of(G.cell(F.argatoms[k], nd(c, s), dof))
        def block(dofs, M):
            def want(F, h):
                A = M(d, h)
                r = {}
                for i, ci in enumerate(cor):
                    for c in range(dofs):
                        r[G.addr(F.argatoms[1], nd(ci), c)] = sum((A[i][j] * X(F, 0, cj, c) for j, cj in enumerate(cor)), ZERO)
                return r
            return want
        def tensor(F, h):
            A = fem.strain(d, h)
            r = {}
            for i, ci in enumerate(cor):
                for c in range(d):
                    r[G.addr(F.argatoms[1], nd(ci), c)] = sum((A[i][j][c][k] * X(F, 0, cj, k) for j, cj in enumerate(cor) for k in range(d)), ZERO)
            return r
        def diagm(dofs, M):
            def want(F, h):
                A = M(d, h)
                return {G.addr(F.argatoms[0], nd(ci), c): A[i][i] for i, ci in enumerate(cor) for c in range(dofs)}
            return want
        def coupling(F, h):
            B = fem.pressure(d, h)
            r = {}
            n3 = fem.nodes3(d)
            for j, cj in enumerate(n3):
                for c in range(d):
                    r[G.addr(F.argatoms[2], nd(cj, 2), c)] = -sum((B[i][j][c] * X(F, 1, ci, 0) for i, ci in enumerate(cor)), ZERO)
            for i, ci in enumerate(cor):
                r[G.addr(F.argatoms[3], nd(ci), 0)] = sum((B[i][j][c] * X(F, 0, cj, c, 2) for j, cj in enumerate(n3) for c in range(d)), ZERO)
            return r
        sweep(cx, G, m, "w_laplacian%d" % d, "laplacian_mult<%d>" % d, 0, 2, block(d, fem.laplacian))
        sweep(cx, G, m, "w_mass%d" % d, "mass_mult<%d>" % d, 0, 2, block(d, fem.mass))
        sweep(cx, G, m, "w_mass1_%d" % d, "mass_mult<%d> (scalar)" % d, 0, 2, block(1, fem.mass))
        sweep(cx, G, m, "w_strain_tensor%d" % d, "strain_tensor_mult<%d>" % d, 0, 2, tensor)
        sweep(cx, G, m, "w_diag_laplacian%d" % d, "diag_laplacian_mult<%d>" % d, 0, 1, diagm(d, fem.laplacian))
        sweep(cx, G, m, "w_diag_mass%d" % d, "diag_mass_mult<%d>" % d, 0, 1, diagm(d, fem.mass))
        sweep(cx, G, m, "w_diag_mass1_%d" % d, "diag_mass_mult<%d> (scalar)" % d, 0, 1, diagm(1, fem.mass))
        sweep(cx, G, m, "w_B%d" % d, "B_and_BT_mult<%d>" % d, 1, 4, coupling)
