"""P06 matrix-free operator protocol"""
from grid import *
from petscsim import *
TITLE = "Matrix-free products equal boundary-corrected sums of ghosted local products"
LEVEL = "proof"
TRUSTED = "clang 18 front end and -O2 IR; irdump; lib/petscsim.py semantics of the PETSc vector/scatter/shell calls"
EXPLAIN = "diag_block_matrix, diag_diag_block_matrix (one grid and composite), stokes_matrix, make_matrix, get_DM_sizes and apply_mass_matrix (2D and 3D) are interpreted over symbolic vector contents for each scenario (composite or single grid, with or without boundary conditions); the final contents, the callbacks and cell sizes used, the sizes and callbacks of the shell matrix, and the release of everything obtained are compared with the specification."
MIN_OBLIGATIONS = 60
KEEP = [r"fem::SetDirichletOnVec<", r"fem::B_and_BT_mult", r"petsc::get_DM\(", r"fem::mass_mult", r"fem::get_DM_sizes\("]


def wit():
    s = "#include <cafes.hpp>\nusing namespace cafes;\n"
    for d in (2, 3):
        for n in (1, 2):
            s += '''using C%(d)d%(n)d = problem::context<%(d)d,%(n)d>;
extern "C" PetscErrorCode w_db%(d)d%(n)d(Mat A, Vec x, Vec y){ return fem::diag_block_matrix<C%(d)d%(n)d>(A,x,y);}
extern "C" PetscErrorCode w_dd%(d)d%(n)d(Mat A, Vec x){ return fem::diag_diag_block_matrix<C%(d)d%(n)d>(A,x);}
extern "C" Mat w_mk%(d)d%(n)d(C%(d)d%(n)d *c){ return fem::make_matrix<C%(d)d%(n)d>(c);}
extern "C" Mat w_mm%(d)d%(n)d(C%(d)d%(n)d *c, PetscErrorCode (*m)(Mat,Vec,Vec), PetscErrorCode (*g)(Mat,Vec)){ return fem::make_matrix<C%(d)d%(n)d>(c, m, g);}
extern "C" void* w_o%(d)d%(n)d_dm(C%(d)d%(n)d &c){ return &c.dm;}
extern "C" void* w_o%(d)d%(n)d_h(C%(d)d%(n)d &c){ return &c.h;}
extern "C" void* w_o%(d)d%(n)d_apply(C%(d)d%(n)d &c){ return (void*)&c.apply;}
extern "C" void* w_o%(d)d%(n)d_apply_diag(C%(d)d%(n)d &c){ return (void*)&c.apply_diag;}
extern "C" void* w_o%(d)d%(n)d_bc_(C%(d)d%(n)d &c){ return &c.bc_;}
extern "C" void* w_o%(d)d%(n)d_set_bc_(C%(d)d%(n)d &c){ return &c.set_bc_;}
''' % {"d": d, "n": n}
        s += '''extern "C" PetscErrorCode w_sm%(d)d(Mat A, Vec x, Vec y){ return fem::stokes_matrix<C%(d)d1>(A,x,y);}
extern "C" PetscErrorCode w_am%(d)d(DM dm, Vec x, Vec y, std::array<double,%(d)d> const& h){ return fem::apply_mass_matrix<%(d)d>(dm, x,y,h);}
''' % {"d": d}
        for f in ("dm_", "v_", "v_entry_"):
            s += 'extern "C" void* w_v%d_%s(petsc::petsc_vec<%d> &c){ return &c.%s;}\n' % (d, f, d, f)
    s += 'extern "C" PetscErrorCode w_sz(DM const& dm, int &l, int &t){ return fem::get_DM_sizes(dm, l, t);}\n'
    return s


def offsets(m, pre, names):
    r = {}
    for f in names:
        P = Fn(m, pre + f)
        r[f] = P.asptr(P.rets[0][1]).off.as_int()
    return r


def bcguard(c, off):
    def f(a):
        if a.kind == "ld" and a.args[0].kind == "shellctx" and a.args[1] == num(off):
            return num(c)
        return None
    return f


def scenario(comp, bc, bcoff):
    def f(a):
        if a.kind == "tycmp":
            return num(comp) if a.args[1] == "composite" else None
        if bcoff is not None and a.kind == "ld" and a.args[0].kind == "shellctx" and a.args[1] == num(bcoff):
            return num(bc)
        return None
    return f


def callname(m, e):
    return m.dem.get(e.name, e.name)


class Ops:
    """calls of the operator stored in the context and of the named kernels"""
    def __init__(self, m, C, ctx):
        self.m, self.C, self.ctx = m, C, ctx

    def hsize(self, sim, p):
        """cell sizes passed by reference: which member of the context"""
        q = sim.canon.ptr(sim.F.asptr(p))
        return "%s+%s" % (fmt_atom(q.root, 0), q.off)

    def __call__(self, sim, e):
        nm = callname(self.m, e)
        if e.name.startswith("*"):
            fp = sim.canon.ptr(e.fptr)
            off = None
            if fp.root.kind == "ld" and fp.root.args[0] is self.ctx and not fp.off.t:
                off = fp.root.args[1].as_int()
            which = {self.C["apply"]: "apply", self.C["apply_diag"]: "apply_diag"}.get(off)
            if which == "apply" and len(e.args) == 3:
                x, y = sim.vecarg(e, 0), sim.vecarg(e, 1)
                sim.put(y["v_"], lin((ONE, sim.get(y["v_"])), (ONE, ("op", "apply", sim.get(x["v_"]), x["dm_"], y["dm_"], self.hsize(sim, e.args[2])))))
                return True
            if which == "apply_diag" and len(e.args) == 2:
                y = sim.vecarg(e, 0)
                sim.put(y["v_"], lin((ONE, sim.get(y["v_"])), (ONE, ("op", "apply_diag", y["dm_"], self.hsize(sim, e.args[1])))))
                return True
            sim.bad(e, "calls %s" % fp)
            return True
        if "SetDirichletOnVec<" in nm:
            x, y = sim.vecarg(e, 0), sim.vecarg(e, 1)
            b = sim.canon.ptr(sim.F.asptr(e.args[2]))
            sim.put(y["v_entry_"], ("op", "dirichlet", sim.get(y["v_entry_"]), sim.get(x["v_entry_"]), y["dm_"], "%s+%s" % (fmt_atom(b.root, 0), b.off)))
            return True
        if "B_and_BT_mult" in nm:
            v = [sim.vecarg(e, k) for k in range(4)]
            hs = self.hsize(sim, e.args[4])
            xu, xp = sim.get(v[0]["v_"]), sim.get(v[1]["v_"])
            sim.put(v[2]["v_"], lin((ONE, sim.get(v[2]["v_"])), (ONE, ("op", "BT", xp, v[0]["dm_"], v[1]["dm_"], hs))))
            sim.put(v[3]["v_"], lin((ONE, sim.get(v[3]["v_"])), (ONE, ("op", "B", xu, v[0]["dm_"], v[1]["dm_"], hs))))
            return True
        return False


def keepfn(m):
    def k(name, a):
        n = m.dem.get(name, name)
        return name.startswith("*") or any(x in n for x in ("SetDirichletOnVec<", "B_and_BT_mult"))
    return k


def run(cx):
    m = cx.ir(wit(), noinline=KEEP)
    for d in (2, 3):
        V = offsets(m, "w_v%d_" % d, ("dm_", "v_", "v_entry_"))
        for n in (1, 2):
            C = offsets(m, "w_o%d%d_" % (d, n), ("dm", "h", "apply", "apply_diag", "bc_", "set_bc_"))
            product(cx, m, d, n, V, C)
            diagonal(cx, m, d, n, V, C)
            make(cx, m, d, n, C)
            if n == 1:
                stokes(cx, m, d, V, C)
        apply_mass(cx, m, d, offsets(m, "w_o%d2_" % d, ("dm", "h", "apply", "apply_diag", "bc_", "set_bc_")))
    sizes(cx, m)


def envs(F):
    A = F.argatoms[0]
    ctx = atom("shellctx", A)
    DMc = atom("ld", ctx, ZERO)
    return A, ctx, DMc


def loop_split(cx, F, label, count, canon):
    """effects outside and inside the single loop over the grids"""
    outs, ins = [], []
    it = None
    for e in F.effects:
        ds = F.domain(e)
        if not ds:
            if e.kind == "store" and e.root.kind == "alloca":
                continue
            if e.kind == "call" and e.name in PURE_OK:
                continue
            (outs if not ins else []).append(e) if not ins else outs.append(e)
        else:
            it = ds
            ins.append(e)
    ok = it is not None and len(it) == 1 and it[0][1] is not None and equal(canon.poly(it[0][1]), count) and canon.bdd(it[0][2]) is TRUE
    cx.check(ok, "every grid of the composite is treated", label, "loop over %s" % ([(str(c), str(g)) for t, c, g in it] if it else None))
    ok2 = all(len(F.domain(e)) <= 1 for e in F.effects)
    return outs, ins, (Poly.of(it[0][0]) if it else ZERO)


def product(cx, m, d, n, V, C):
    nm = "w_db%d%d" % (d, n)
    label = "diag_block_matrix<%d, %d grids>" % (d, n)
    F = Fn(m, nm, keep=keepfn(m))
    cx.saw("fem::" + label)
    A, ctx, dmo = envs(F)
    dmc = atom("ld", ctx, num(C["dm"]))
    x, y = F.argatoms[1], F.argatoms[2]
    for comp in ((0, 1) if n == 1 else (1,)):
        for bc in (0, 1):
            inst = "%s, %s%s" % (label, "composite" if comp else "single grid", ", boundary conditions" if bc else "")
            S = Sim(F, V, scenario(comp, bc, C["set_bc_"]))
            if n == 1:
                k = ZERO
                S.run(custom=Ops(m, C, ctx))
                hs = "%s+%s" % (fmt_atom(ctx, 0), num(C["h"]))
            else:
                outs, ins, k = loop_split(cx, F, inst, Poly.of(atom("ndm", dmc)), S.canon)
                pre = [e for e in outs if e.order < ins[0].order] if ins else outs
                S.run(pre, custom=Ops(m, C, ctx))
                S.run(ins, custom=Ops(m, C, ctx))
                S.run([e for e in outs if e not in pre], custom=Ops(m, C, ctx))
                hs = "%s+%s" % (fmt_atom(ctx, 0), num(C["h"]) + k.scale(8 * d))
            dm = atom("entry", dmc, k) if comp else dmc
            xi = atom("sub", dmc, x, k) if comp else x
            yi = atom("sub", dmc, y, k) if comp else y
            want = ("S", ("op", "apply", ("G", S_in(S, x, xi), dm), dm, dm, hs), dm)
            if bc and n == 1:
                want = ("op", "dirichlet", want, S_in(S, x, xi), dm, "%s+%s" % (fmt_atom(ctx, 0), num(C["bc_"])))
            finish(cx, S, inst, {yi: want}, x)


def S_in(S, whole, part):
    return ("in", whole) if part is whole else ("sub", ("in", whole), part.args[2])


def finish(cx, S, inst, want, x):
    for hd, w in want.items():
        g = S.get(hd)
        cx.check(g == w, "final content", "%s: %s" % (inst, fmt_atom(hd, 0)), "computed %s\nrequired %s" % (show(g), show(w)))
    if x is not None:
        ch = [k for k in S.c if k is x or isinstance(k, Atom) and k.kind == "sub" and k.args[1] is x]
        cx.check(not ch, "the input is left unchanged", inst, str(ch))
    pr = S.done()
    cx.check(not pr, "protocol", inst, "\n".join(pr[:6]))


def diagonal(cx, m, d, n, V, C):
    nm = "w_dd%d%d" % (d, n)
    label = "diag_diag_block_matrix<%d, %d grids>" % (d, n)
    F = Fn(m, nm, keep=keepfn(m))
    cx.saw("fem::" + label)
    A, ctx, dmo = envs(F)
    dmc = atom("ld", ctx, num(C["dm"]))
    y = F.argatoms[1]
    for comp in ((0, 1) if n == 1 else (1,)):
        inst = "%s, %s" % (label, "composite" if comp else "single grid")
        S = Sim(F, V, scenario(comp, 0, None))
        if n == 1:
            k = ZERO
            S.run(custom=Ops(m, C, ctx))
            hs = "%s+%s" % (fmt_atom(ctx, 0), num(C["h"]))
        else:
            outs, ins, k = loop_split(cx, F, inst, Poly.of(atom("ndm", dmc)), S.canon)
            pre = [e for e in outs if e.order < ins[0].order] if ins else outs
            S.run(pre, custom=Ops(m, C, ctx))
            S.run(ins, custom=Ops(m, C, ctx))
            S.run([e for e in outs if e not in pre], custom=Ops(m, C, ctx))
            hs = "%s+%s" % (fmt_atom(ctx, 0), num(C["h"]) + k.scale(8 * d))
        dm = atom("entry", dmc, k) if comp else dmc
        yi = atom("sub", dmc, y, k) if comp else y
        finish(cx, S, inst, {yi: ("S", ("op", "apply_diag", dm, hs), dm)}, None)


def stokes(cx, m, d, V, C):
    label = "stokes_matrix<%d>" % d
    F = Fn(m, "w_sm%d" % d, keep=keepfn(m))
    cx.saw("fem::" + label)
    A, ctx, dmo = envs(F)
    dmc = atom("ld", ctx, num(C["dm"]))
    x, y = F.argatoms[1], F.argatoms[2]
    for bc in (0, 1):
        inst = label + (", boundary conditions" if bc else "")
        S = Sim(F, V, scenario(1, bc, C["set_bc_"])).run(custom=Ops(m, C, ctx))
        dm = [atom("entry", dmc, num(k)) for k in (0, 1)]
        xs = [atom("sub", dmc, x, num(k)) for k in (0, 1)]
        ys = [atom("sub", dmc, y, num(k)) for k in (0, 1)]
        G = [("G", S_in(S, x, xs[k]), dm[k]) for k in (0, 1)]
        hs = "%s+%s" % (fmt_atom(ctx, 0), num(C["h"]))
        u = ("S", lin((ONE, ("op", "apply", G[0], dm[0], dm[0], hs)), (ONE, ("op", "BT", G[1], dm[0], dm[1], hs))), dm[0])
        p = ("S", ("op", "B", G[0], dm[0], dm[1], hs), dm[1])
        if bc:
            u = ("op", "dirichlet", u, S_in(S, x, xs[0]), dm[0], "%s+%s" % (fmt_atom(ctx, 0), num(C["bc_"])))
        finish(cx, S, inst, {ys[0]: u, ys[1]: p}, x)


def shell(cx, F, m, label, C, ctxptr, dm, mult, diag, present):
    """the shell matrix created in F; returns its handle"""
    base = Canon()
    mk = [e for e in F.effects if e.kind == "call" and e.name == "MatCreateShell"]
    cx.check(len(mk) == 1 and mk[0].guard is TRUE, "one shell matrix", label, str(mk))
    if len(mk) != 1:
        return None
    e = mk[0]
    gs = [x for x in F.effects if x.kind == "call" and "get_DM_sizes(" in m.dem.get(x.name, "") and x.order < e.order]
    cx.check(len(gs) == 1, "sizes come from the grids", label, str(gs))
    if len(gs) == 1:
        g = gs[0]
        l, t = F.asptr(g.args[1]), F.asptr(g.args[2])
        dmv = base.ptr(F.asptr(F.load(g.pre, F.asptr(g.args[0]), 8, "ptr")))
        cx.check(dmv == dm, "sizes are those of the context's grids", label, "%s\n%s, required %s" % (g.where(), dmv, dm))
        L = [F.asint(F.load(e.pre, p, 4, "i32")) for p in (l, t)]
        got = [F.asint(a) for a in e.args[1:5]]
        cx.check(got == [L[0], L[0], L[1], L[1]], "sizes of the shell matrix", label, "%s\n%s\nrequired %s" % (e.where(), got, L))
        cx.check(L[0] != L[1], "local and global sizes are told apart", label)
    c = base.ptr(F.asptr(e.args[5]))
    cx.check(c == ctxptr, "context of the shell matrix", label, "%s\n%s" % (e.where(), c))
    out = F.asptr(e.args[6])
    ops = [x for x in F.effects if x.kind == "call" and x.name == "MatShellSetOperation"]
    seen = {}
    for x in ops:
        k = F.asint(x.args[1]).as_int()
        seen.setdefault(k, []).append((base.bdd(x.guard), base.ptr(F.asptr(x.args[2])), base.ptr(F.asptr(x.args[0])), x))
    A = None
    for k, nm, fn_, g in ((3, "product", mult, TRUE), (17, "diagonal", diag, present)):
        s = seen.get(k, [])
        ok = len(s) == 1 and s[0][0] is g and fn_(s[0][1])
        cx.check(ok, "callback for the " + nm, label, "%s" % [(str(a), str(b)) for a, b, c, x in s])
        if s:
            A = s[0][2]
    cx.check(set(seen) <= {3, 17}, "no other operation is set", label, str(sorted(seen)))
    cx.check(A is not None and all(s[2] == A for v in seen.values() for s in v), "operations are set on the new matrix", label)
    return A


def isfn(text):
    return lambda p: p.root.kind == "sym" and str(p.root.args[0]).startswith("fn:") and all(t in p.root.args[0] for t in text)


def make(cx, m, d, n, C):
    for nm, label in (("w_mk", "make_matrix"), ("w_mm", "make_matrix with given callbacks")):
        F = Fn(m, "%s%d%d" % (nm, d, n))
        lab = "%s<%d, %d grids>" % (label, d, n)
        cx.saw("fem::" + lab)
        c = F.argatoms[0]
        dm = Ptr(atom("ld", c, num(C["dm"])), ZERO)
        pres = bnot(cmp_eq(Poly.of(atom("ld", c, num(C["apply_diag"]))), Poly.of(atom("sym", "null"))))
        if nm == "w_mk":
            suf = "ILm%dELm%dEE" % (d, n)
            A = shell(cx, F, m, lab, C, Ptr(c, ZERO), dm, isfn(["17diag_block_matrix", suf]), isfn(["22diag_diag_block_matrix", suf]), pres)
        else:
            A = shell(cx, F, m, lab, C, Ptr(c, ZERO), dm, lambda p: p == Ptr(F.argatoms[1], ZERO), lambda p: p == Ptr(F.argatoms[2], ZERO), pres)
        r = Canon().ptr(F.asptr(F.rets[0][1])) if len(F.rets) == 1 else None
        cx.check(r is not None and r == A, "the matrix is returned", lab, "%s, created %s" % (r, A))


def apply_mass(cx, m, d, C):
    label = "apply_mass_matrix<%d>" % d
    F = Fn(m, "w_am%d" % d)
    cx.saw("fem::" + label)
    base = Canon()
    mk = [e for e in F.effects if e.kind == "call" and e.name == "MatCreateShell"]
    cx.need(mk, "apply_mass_matrix creates no shell matrix")
    e = mk[0]
    c = F.asptr(e.args[5])
    # the context object is a local; look at it when the matrix is created
    gs = [x for x in F.effects if x.kind == "call" and "get_DM_sizes(" in m.dem.get(x.name, "")]
    st = gs[0].pre if gs else e.pre
    fld = lambda o, ty="ptr", sz=8: F.load(st, Ptr(c.root, c.off + num(o)), sz, ty)
    dm = base.ptr(F.asptr(fld(C["dm"])))
    cx.check(dm == Ptr(F.argatoms[0], ZERO), "grids of the mass operator", label, str(dm))
    ap = base.ptr(F.asptr(fld(C["apply"])))
    cx.check(isfn(["9mass_mult", "ILm%dE" % d])(ap), "operator is the mass matrix", label, str(ap))
    h0 = F.new_state()
    for k, s in ((0, 1), (1, 2)):
        for a in range(d):
            g = base.poly(F.asint(fld(C["h"] + 8 * (k * d + a), "double")))
            w = base.poly(F.asint(F.load(h0, Ptr(F.argatoms[3], num(8 * a)), 8, "double"))).scale(s)
            cx.check(equal(g, w), "cell sizes of the mass operator", "%s %s grid, %s" % (label, ("velocity", "pressure")[k], AX[a]), "used %s\nrequired %s" % (g, w))
    ops = [x for x in F.effects if x.kind == "call" and x.name == "MatShellSetOperation" and F.asint(x.args[1]).as_int() == 3]
    suf = "ILm%dELm2EE" % d
    cx.check(len(ops) == 1 and isfn(["17diag_block_matrix", suf])(base.ptr(F.asptr(ops[0].args[2]))), "product callback", label, str(ops))
    mm = [x for x in F.effects if x.kind == "call" and x.name == "MatMult"]
    ok = len(mm) == 1 and mm[0].guard is TRUE and not mm[0].loops
    cx.check(ok, "one product", label, str(mm))
    if ok:
        x = mm[0]
        A = base.ptr(F.asptr(ops[0].args[0])) if ops else None
        got = [base.ptr(F.asptr(a)) for a in x.args]
        cx.check(got == [A, Ptr(F.argatoms[1], ZERO), Ptr(F.argatoms[2], ZERO)], "y = M x", label, "%s\n%s" % (x.where(), got))
        ds = [z for z in F.effects if z.kind == "call" and z.name == "MatDestroy"]
        cx.check(len(ds) == 1 and ds[0].order > x.order and base.ptr(F.asptr(F.load(ds[0].pre, F.asptr(ds[0].args[0]), 8, "ptr"))) == A, "the matrix is destroyed", label, str(ds))
    wr = [z for z in F.effects if z.kind == "store" and z.root.kind != "alloca"]
    cx.check(not wr, "nothing else is written", label, str(wr[:2]))


def sizes(cx, m):
    """local and global number of unknowns of a grid or of a composite"""
    F = Fn(m, "w_sz")
    label = "get_DM_sizes"

    def prod(h, fs):
        r = ONE
        for f in fs:
            r = r * info(h, f)
        return r
    LOC, GLO = ("dof", "xm", "ym", "zm"), ("dof", "mx", "my", "mz")
    cx.saw("fem::" + label)
    fs = [f for f in m.fns.values() if "get_DM_sizes(" in m.dem.get(f["name"], "")]
    if fs:
        # a grid of the composite may be counted by the function itself: the single grid is decided below
        counted = set()

        def again(G, i, args, st):
            h = G.asptr(G.load(st, G.asptr(args[0]), 8, "ptr"))
            if h.root.kind != "entry" or h.off.t:
                return NotImplemented
            counted.add(i["id"])
            for k, w in ((1, LOC), (2, GLO)):
                G.store(st, G.asptr(args[k]), prod(h.root, w), 4)
            return ZERO
        MODELS[fs[0]["name"]] = again
        try:
            F = Fn(m, fs[0]["name"])
        finally:
            MODELS.pop(fs[0]["name"])
    dm = atom("ld", F.argatoms[0], ZERO)
    L, T = F.argatoms[1], F.argatoms[2]

    for comp in (0, 1):
        can = Canon(None, scenario(comp, 0, None))
        plain = {L: None, T: None}
        for e in F.effects:
            if e.kind == "call":
                if e.name in MODELS or e.name.startswith("llvm.") or e.name in ("DMCompositeGetEntriesArray",) or fs and e.ins["id"] in counted:
                    continue
                cx.check(False, "nothing else is called", label, e.where() + " " + e.name)
                continue
            if e.root.kind == "alloca" or can.bdd(e.guard) is FALSE:
                continue
            if e.root not in plain:
                cx.check(False, "nothing else is written", label, "%s\n%s" % (e.where(), e))
        if comp == 0:
            for r, fs_, nm in ((L, LOC, "local"), (T, GLO, "global")):
                es = [e for e in F.effects if e.kind == "store" and e.root is r and can.bdd(e.guard) is not FALSE]
                ok = es and can.bdd(es[-1].guard) is TRUE and not es[-1].loops
                v = can.poly(F.asint(es[-1].val)) if es else None
                w = prod(dm, fs_)
                cx.check(ok and equal(v, w), "%s size" % nm, label + " single grid", "computed %s\nrequired %s" % (v, w))
        else:
            for r, fs_, nm in ((L, LOC, "local"), (T, GLO, "global")):
                es = [e for e in F.effects if e.kind == "store" and e.root is r and can.bdd(e.guard) is not FALSE]
                init = [e for e in es if not e.loops]
                acc = [e for e in es if e.loops]
                inst = label + " composite, " + nm
                cx.check(bool(init) and equal(can.poly(F.asint(init[-1].val)), ZERO) and (not acc or init[-1].order < acc[0].order), "sums start at zero", inst, str(init))
                cx.check(len(acc) == 1, "one term per grid", inst, str(acc))
                if len(acc) != 1:
                    continue
                e = acc[0]
                ds = F.domain(e)
                ok = len(ds) == 1 and ds[0][1] is not None and equal(can.poly(ds[0][1]), Poly.of(atom("ndm", dm))) and can.bdd(ds[0][2]) is TRUE
                cx.check(ok, "every grid of the composite is counted", inst, str([(str(c), str(g)) for t, c, g in ds]))
                t = ds[0][0]
                ms = [c for c in F.effects if c.kind == "call" and c.name == "DMCompositeGetEntriesArray"]
                cx.check(len(ms) == 1 and can.ptr(F.asptr(ms[0].args[0])) == Ptr(dm, ZERO), "grids of the composite", inst, str(ms))
                old = F.asint(e.pre) if e.pre is not None and not isinstance(e.pre, dict) else None
                v = can.poly(F.asint(e.val) - old) if old is not None else None
                # first to last or last to first
                ws = [prod(atom("entry", dm, k), fs_) for k in (Poly.of(t), Poly.of(atom("ndm", dm)) - ONE - Poly.of(t))]
                w = ws[0]
                cx.check(v is not None and any(equal(v, z) for z in ws), "%s size" % nm, inst, "%s\nadds %s\nrequired %s" % (e.where(), v, w))
