"""P08 Dirichlet conditions"""
from grid import *
TITLE = "Dirichlet conditions act on every constrained dof of every non-periodic face"
LEVEL = "proof"
TRUSTED = "clang 18 front end and -O2 IR; irdump; lib/algebra.py normal forms; PETSc's node ownership and ghost ranges; MatZeroRowsLocal"
EXPLAIN = "For each of the vector, right-hand-side and homogeneous variants (2D, 3D), each store/callback is reduced to (guard, index intervals, value) and compared with the face sets: all owned nodes of face (axis, side), only if that axis is not periodic and the process owns that side, for each constrained component. The assembled variant's zeroed row sets are compared in the ghosted local numbering."
MIN_OBLIGATIONS = 200


def wit():
    s = PROBES
    for d in (2, 3):
        s += '''extern "C" PetscErrorCode w_v%(d)d(petsc::petsc_vec<%(d)d>&__restrict x, petsc::petsc_vec<%(d)d>&__restrict y, fem::dirichlet_conditions<%(d)d> const&bc){ FIX(x,%(d)d) FIX(y,%(d)d) return fem::SetDirichletOnVec<%(d)d>(x,y,bc);}
extern "C" PetscErrorCode w_r%(d)d(petsc::petsc_vec<%(d)d>&__restrict y, fem::dirichlet_conditions<%(d)d> const&bc, std::array<double,%(d)d> const&h){ FIX(y,%(d)d) return fem::SetDirichletOnRHS<%(d)d>(y,bc,h);}
extern "C" PetscErrorCode w_n%(d)d(petsc::petsc_vec<%(d)d>&__restrict y, fem::dirichlet_conditions<%(d)d> const&bc){ FIX(y,%(d)d) return fem::SetNullDirichletOnRHS<%(d)d>(y,bc);}
extern "C" condition_fn w_bc%(d)d(fem::dirichlet_conditions<%(d)d> const&bc, int f, int c){ return bc.conditions_[f][c];}
''' % {"d": d}
    s += 'extern "C" PetscErrorCode w_mat(Mat &A, fem::dirichlet_conditions<2> const&bc){ return fem::SetDirichletOnMat<2>(A,bc);}\n'
    return s


def bcfn(m, d, bcarg, f, c):
    P = Fn(m, "w_bc%d" % d)
    A = P.argatoms
    r = P.rets[0][1]
    return Canon({A[0]: Poly.of(bcarg), A[1]: num(f), A[2]: num(c)}).ptr(P.asptr(r))


def faces(cx, m, G, name, label, yarg, bcarg, kind):
    d = G.d
    # the conditions take their coordinates through a pointer to const
    F = Fn(m, name, keep=lambda n, k: n.startswith("*") and k == 0)
    cx.saw(label)
    base = Canon()
    Y = F.argatoms[yarg]
    BC = F.argatoms[bcarg]
    dm = G.dm(Y)
    nul = atom("sym", "null")
    seen = {}
    copied = set()
    for e in F.effects:
        if e.kind == "call":
            if e.name in MODELS or e.name.startswith("llvm."):
                continue
            if not (kind == "func" and e.name.startswith("*")):
                cx.check(False, "nothing else is called", "%s: %s" % (label, e.name), e.where())
                continue
            p, cp = filled(F, e, 1)
            if cp is not None:
                copied.add(id(cp))
        else:
            if e.root.kind == "alloca" or own(e) or id(e) in copied:
                continue
            if kind == "func":
                cx.check(False, "no other store", label, e.where() + "\n%s" % e)
                continue
            p = Ptr(e.root, e.ofs)
        R = Region(G, F, e, Y, p)
        if not R.ok:
            cx.check(False, "writes stay on the faces", label, "%s\n%s" % (e.where(), R.why))
            continue
        hit = None
        for f in range(2 * d):
            a, side = divmod(f, 2)
            edge = cmp_eq(G.start(dm, a), ZERO) if side == 0 else cmp_eq(G.start(dm, a) + G.local(dm, a), G.glob(dm, a))
            cb = bcfn(m, d, BC, f, R.dof)
            g = band(band(bnot(G.periodic(dm, a)), edge), bnot(base.bdd(cmp_eq(cb.poly(), Poly.of(nul)))))
            if R.guard is g:
                hit = (f, cb)
        if hit is None:
            cx.check(False, "condition under which a face is treated", "%s component %d" % (label, R.dof), "%s\napplied when %s" % (e.where(), R.guard))
            continue
        f, cb = hit
        a, side = divmod(f, 2)
        inst = "%s face %s%s component %d" % (label, AX[a], "-+"[side], R.dof)
        for b in range(d):
            iv = R.interval(b)
            if b == a:
                want = (ZERO if side == 0 else G.start(dm, a) + G.local(dm, a) - ONE, ONE)
            else:
                want = (G.start(dm, b), G.local(dm, b))
            if iv is not None:
                def simp(x):
                    st, gl = G.start(dm, a).as_atom(), G.glob(dm, a).as_atom()
                    return rewrite(base.poly(x), lambda q: (ZERO if q is st else None) if side == 0 else (G.start(dm, a) + G.local(dm, a) if q is gl else None))
                iv = tuple(map(simp, iv))
                want = tuple(map(simp, want))
            cx.check(iv is not None and equal(iv[0], want[0]) and equal(iv[1], want[1]), "face nodes", "%s, range along %s" % (inst, AX[b]),
                     "%s\ncovers %s nodes from %s, required %s from %s" % (e.where(), iv and iv[1], iv and iv[0], want[1], want[0]))
        if kind == "vec":
            w = Poly.of(G.cell(F.argatoms[0], R.idx, R.dof, True))
            # the components are adjacent: compare addresses of x and y at the same node
            g = base.poly(e.val)
            cx.check(equal(g, base.poly(w)), "prescribed value", inst, "%s\nvalue %s\nrequired %s" % (e.where(), g, w))
        elif kind == "null":
            cx.check(equal(e.val, ZERO), "prescribed value", inst, "%s\nvalue %s\nrequired 0" % (e.where(), e.val))
        else:
            st = e.pre
            X = F.asptr(e.args[0])
            for b in range(d):
                v = base.poly(F.load(st, Ptr(X.root, X.off + num(8 * b)), 8, "double"))
                hb = base.poly(F.load(F.new_state(), Ptr(F.argatoms[2], num(8 * b)), 8, "double"))
                cx.check(equal(v, R.idx[b] * hb), "coordinates given to the condition", "%s, coordinate %s" % (inst, AX[b]), "%s\nvalue %s\nrequired %s" % (e.where(), v, R.idx[b] * hb))
            cal = base.ptr(e.fptr)
            cx.check(cal == cb, "which condition is evaluated", inst, "%s\ncalls %s\nrequired %s" % (e.where(), cal, cb))
        seen[(f, R.dof)] = seen.get((f, R.dof), 0) + 1
    for f in range(2 * d):
        for c in range(d):
            n = seen.get((f, c), 0)
            cx.check(n == 1, "every face and component is treated once", "%s face %s%s component %d" % (label, AX[f // 2], "-+"[f % 2], c), "treated %d times" % n)


def matrix(cx, m):
    F = Fn(m, "w_mat")
    base = Canon()
    label = "SetDirichletOnMat<2>"
    cx.saw(label)
    dms = [e for e in F.effects if e.kind == "call" and e.name == "DMDAGetLocalInfo"]
    cx.need(dms, "no local info")
    H = base.poly(Poly.of(F.asptr(dms[0].args[0]).root)).as_atom()
    inf = lambda f: info(H, f)
    pend = []
    seen = {}
    for e in F.effects:
        if e.kind == "store":
            if e.root.kind != "alloca":
                pend.append(e)
            else:
                pend.append(e)
            continue
        if e.name != "MatZeroRowsLocal":
            continue
        n = base.poly(F.asint(e.args[1]))
        rows = base.ptr(F.asptr(e.args[2]))
        diag = F.asint(e.args[3])
        cx.check(equal(diag, ONE), "unit diagonal", label + " #%d" % len(seen), e.where() + " diagonal %s" % diag)
        mat = base.ptr(F.asptr(e.args[0]))
        cx.check(mat == base.ptr(Ptr(atom("ld", F.argatoms[0], ZERO), ZERO)), "acts on the given matrix", label, e.where() + " %s" % (mat,))
        es = [x for x in pend if base.ptr(Ptr(x.root, x.ofs)).root is rows.root]
        pend = [x for x in pend if x not in es]
        hit = None
        for f in range(4):
            a, side = divmod(f, 2)
            o = 1 - a
            edge = cmp_eq(inf(AX[a] + "s"), ZERO) if side == 0 else cmp_eq(inf(AX[a] + "s") + inf(AX[a] + "m"), inf("m" + AX[a]))
            g = band(bnot(cmp_eq(inf("b" + AX[a]), num(DM_BOUNDARY_PERIODIC))), edge)
            w = ite(g, inf("g%sm" % AX[o]).scale(2), ZERO)
            w = base.poly(w)
            if equal(n, w):
                hit = f
        if hit is None:
            cx.check(False, "condition and number of rows", label, "%s\n%s rows" % (e.where(), n))
            continue
        a, side = divmod(hit, 2)
        o = 1 - a
        inst = "%s face %s%s" % (label, AX[a], "-+"[side])
        seen[hit] = seen.get(hit, 0) + 1
        got = {}
        for x in es:
            dom = F.domain(x)
            if len(dom) != 1:
                cx.check(False, "row list", inst, x.where())
                continue
            t, c, g = dom[0]
            off = base.poly(x.ofs - rows.off)
            T = Poly.of(t)
            k = None
            for comp in (0, 1):
                if equal(off, T.scale(8) + num(4 * comp)):
                    k = comp
            cnt = base.poly(c)
            fixed = ZERO if side == 0 else inf("g%sm" % AX[a]) - ONE
            i, j = (fixed, T) if a == 0 else (T, fixed)
            for comp in (0, 1):
                w = inf("dof") * (j * inf("gxm") + i) + num(comp)
                if equal(base.poly(x.val), w):
                    cx.check(k is not None and k not in got, "row list", inst + " component %d" % comp, "%s\nstored at %s" % (x.where(), off))
                    cx.check(equal(cnt, inf("g%sm" % AX[o])), "row list covers the face", inst + " component %d" % comp, "%s\n%s nodes" % (x.where(), cnt))
                    got[k] = comp
                    break
            else:
                cx.check(False, "zeroed rows are the face's dofs", inst, "%s\nrow %s" % (x.where(), base.poly(x.val)))
        cx.check(sorted(got.values()) == [0, 1], "both components are constrained", inst, str(got))
    for f in range(4):
        cx.check(seen.get(f, 0) == 1, "every face is treated once", "%s face %s%s" % (label, AX[f // 2], "-+"[f % 2]), "treated %d times" % seen.get(f, 0))


def run(cx):
    m = cx.ir(wit())
    for d in (2, 3):
        G = Grid(m, d)
        faces(cx, m, G, "w_v%d" % d, "SetDirichletOnVec<%d>" % d, 1, 2, "vec")
        faces(cx, m, G, "w_r%d" % d, "SetDirichletOnRHS<%d>" % d, 0, 1, "func")
        faces(cx, m, G, "w_n%d" % d, "SetNullDirichletOnRHS<%d>" % d, 0, 1, "null")
    matrix(cx, m)
