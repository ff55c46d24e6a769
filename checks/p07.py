"""P07 assembled operators"""
from grid import *
TITLE = "Assembled matrices are the sum of the exact element matrices"
LEVEL = "proof"
TRUSTED = "clang 18 front end and -O2 IR; irdump; lib/algebra.py normal forms; MatSetValuesLocal adds a row-major block in the ghosted local numbering; PETSc's partition of the nodes"
EXPLAIN = "Each *_assembling function (2D) is reduced to the list of blocks handed to MatSetValuesLocal in a generic element: the loops around each call are matched with the element range owned by the process, index lists and values are read from memory at the call, and every (row, column) entry is accumulated and compared with the exact element matrix in the ghosted local numbering."
MIN_OBLIGATIONS = 200
ADD = 2


def wit():
    return PROBES + r'''
extern "C" PetscErrorCode w_lap(DM &dm, Mat &A, std::array<double,2> const&h){ return laplacian_assembling<2>(dm,A,h);}
extern "C" void w_strain(DM &dm, Mat &A, std::array<double,2> const&h){ strain_tensor_assembling<2>(dm,A,h);}
extern "C" PetscErrorCode w_mass(DM &dm, Mat &A, std::array<double,2> const&h){ return mass_assembling<2>(dm,A,h);}
extern "C" PetscErrorCode w_B(DM &dm, Mat &A, std::array<double,2> const&h){ return B_BT_assembling<2>(dm,A,h);}
extern "C" void w_diag(DM &dm, Mat &A, double v){ diagonal_assembling<2>(dm,A,v);}
'''


def asm(cx, G, m, name, label, boxdm, dofs, want, ret=True):
    """boxdm(F) -> grid whose elements are swept; dofs(F) -> {info atom: components}"""
    F = Fn(m, name)
    cx.saw(label)
    dm = boxdm(F)
    dv = dofs(F)
    fix = lambda a: num(dv[a]) if a in dv else None
    base = Canon(f=fix)
    Gd = G.d
    acc, where = {}, {}
    n = 0
    mat = Ptr(atom("ld", F.argatoms[1], ZERO), ZERO)
    for e in F.effects:
        if e.kind == "store":
            if e.root.kind != "alloca":
                cx.check(False, "nothing else is written", label, e.where() + " %s" % e)
            continue
        if e.name in MODELS or e.name.startswith("llvm."):
            continue
        if e.name != "MatSetValuesLocal":
            cx.check(False, "nothing else is called", "%s: %s" % (label, e.name), e.where())
            continue
        n += 1
        inst = "%s, block %d" % (label, n)
        # loops: element ranges, or short constant ones that are enumerated
        doms = [(t, base.poly(c) if c is not None else None, base.bdd(g)) for t, c, g in F.domain(e)]
        todo, sub, enum, probs = set(range(Gd)), {}, [], []
        for t, c, g in doms:
            if g is not TRUE:
                probs.append("loop entered only if %s" % g)
            if c is None:
                probs.append("loop of unknown trip count")
            elif c.as_int() is not None and 0 <= c.as_int() <= 8:
                enum.append((t, c.as_int()))
            else:
                ax = [a for a in sorted(todo) if equal(c, base.poly(G.count(dm, a)))]
                if not ax:
                    probs.append("loop runs %s times" % c)
                    continue
                todo.discard(ax[0])
                sub[t] = G.E[ax[0]] - G.start(dm, ax[0])
        if todo:
            probs.append("no loop over the %s range of elements" % ", ".join(AX[a] for a in sorted(todo)))
        cx.check(not probs, "sweep covers each owned element once", inst, "%s\n%s" % (e.where(), "; ".join(probs)))
        cx.check(base.bdd(e.guard) is TRUE, "the block is added unconditionally", inst, "%s\nonly if %s" % (e.where(), e.guard))
        cx.check(base.ptr(F.asptr(e.args[0])) == mat, "acts on the given matrix", inst, e.where())
        cx.check(equal(F.asint(e.args[6]), num(ADD)), "entries are accumulated", inst, "%s mode %s" % (e.where(), e.args[6]))
        nr, nc = (base.poly(F.asint(e.args[k])).as_int() for k in (1, 3))
        cx.need(nr is not None and nc is not None and nr <= 40 and nc <= 40, "block size of " + inst)
        R, Cc, V = (F.asptr(e.args[k]) for k in (2, 4, 5))

        def idx(p, k):
            return F.asint(F.load(e.pre, Ptr(p.root, p.off + num(4 * k)), 4, "i32"))
        rows = [idx(R, k) for k in range(nr)]
        cols = [idx(Cc, k) for k in range(nc)]
        vals = [[F.load(e.pre, Ptr(V.root, V.off + num(8 * (r * nc + c))), 8, "double") for c in range(nc)] for r in range(nr)]
        envs = [{}]
        for t, k in enum:
            envs = [dict(x, **{t: num(i)}) if False else {**x, t: num(i)} for x in envs for i in range(k)]
        for env in envs:
            C = Canon({**sub, **env}, f=fix)
            rr = [C.poly(x) for x in rows]
            cc = [C.poly(x) for x in cols]
            for i in range(nr):
                for j in range(nc):
                    k = (rr[i], cc[j])
                    acc[k] = acc.get(k, ZERO) + C.poly(vals[i][j])
                    where.setdefault(k, e.where())
    cx.need(n > 0, label + ": no MatSetValuesLocal found")
    h = [base.poly(F.load(F.new_state(), Ptr(F.argatoms[2], num(8 * a)), 8, "double")) for a in range(Gd)] if name != "w_diag" else None
    exp = {(base.poly(r), base.poly(c)): (v, nm) for (r, c), (v, nm) in want(F, h).items()}
    short = lambda x: str(x)[:300]
    for k, (w, nm) in exp.items():
        if k not in acc:
            cx.check(False, "entry", "%s: %s" % (label, nm), "no block contains row %s, column %s" % k)
            continue
        g = acc.pop(k)
        cx.check(equal(g, w), "entry", "%s: %s" % (label, nm), "%s\ncomputed %s\nrequired %s" % (where[k], g, w))
    for k, g in acc.items():
        cx.check(equal(g, ZERO), "no other entry is changed", "%s: row %s column %s" % (label, short(k[0]), short(k[1])), "%s\n+= %s" % (where[k], g))
    if ret:
        ok = all(isinstance(v, Poly) and not v.t for b, v in F.rets)
        cx.check(ok, "returns success", label, str(F.rets[0][1]))


def run(cx):
    m = cx.ir(wit())
    G = Grid(m, 2)
    cor, n3 = fem.corners(2), fem.nodes3(2)
    inf = info

    def lid(dm, node, comp, dec=ZERO):
        i, j = node
        return dec + inf(dm, "dof") * ((j - inf(dm, "gys")) * inf(dm, "gxm") + i - inf(dm, "gxs")) + num(comp)

    def nd(c, s=1):
        return [G.E[a].scale(s) + num(c[a]) for a in range(2)]
    whole = lambda F: atom("ld", F.argatoms[0], ZERO)
    part = lambda F, k: atom("entry", atom("ld", F.argatoms[0], ZERO), num(k))
    da = lambda dm: inf(dm, "dof").as_atom()

    def dec(F):
        v = part(F, 0)
        return inf(v, "dof") * inf(v, "gxm") * inf(v, "gym") * inf(v, "gzm")

    def vel(M, tensor):
        def want(F, h):
            A = M(2, h)
            dm = whole(F)
            r = {}
            for i, ci in enumerate(cor):
                for j, cj in enumerate(cor):
                    for a in range(2):
                        for b in range(2):
                            v = A[i][j][a][b] if tensor else (A[i][j] if a == b else None)
                            if v is not None:
                                r[(lid(dm, nd(ci), a), lid(dm, nd(cj), b))] = (v, "node %s component %d, node %s component %d" % (ci, a, cj, b))
            return r
        return want

    def pres(M):
        def want(F, h):
            A = M(2, h)
            p = part(F, 1)
            return {(lid(p, nd(ci), 0, dec(F)), lid(p, nd(cj), 0, dec(F))): (A[i][j], "pressure nodes %s, %s" % (ci, cj)) for i, ci in enumerate(cor) for j, cj in enumerate(cor)}
        return want

    def coupling(F, h):
        B = fem.pressure(2, h)
        p, v = part(F, 1), part(F, 0)
        r = {}
        for i, ci in enumerate(cor):
            for j, cj in enumerate(n3):
                for c in range(2):
                    ip, iv = lid(p, nd(ci), 0, dec(F)), lid(v, nd(cj, 2), c)
                    r[(ip, iv)] = (B[i][j][c], "pressure node %s row, velocity node %s component %d" % (ci, cj, c))
                    r[(iv, ip)] = (-B[i][j][c], "velocity node %s component %d row, pressure node %s" % (cj, c, ci))
        return r
    zero = lambda d, h: [[ZERO] * 4 for _ in range(4)]
    one = lambda F: {da(whole(F)): 2}
    two = lambda F: {da(part(F, 0)): 2, da(part(F, 1)): 1}
    asm(cx, G, m, "w_lap", "laplacian_assembling<2>", whole, one, vel(fem.laplacian, False))
    asm(cx, G, m, "w_strain", "strain_tensor_assembling<2>", whole, one, vel(fem.strain, True), ret=False)
    asm(cx, G, m, "w_mass", "mass_assembling<2>", lambda F: part(F, 1), two, pres(fem.mass))
    asm(cx, G, m, "w_diag", "diagonal_assembling<2>", lambda F: part(F, 1), two, pres(zero), ret=False)
    asm(cx, G, m, "w_B", "B_BT_assembling<2>", lambda F: part(F, 1), two, coupling)
