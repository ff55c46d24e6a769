"""P09 meshes"""
from grid import *
TITLE = "Meshes have the documented sizes, boundaries and matching partitions"
LEVEL = "proof"
TRUSTED = "clang 18 front end and -O2 IR; irdump; lib/algebra.py normal forms; PETSc's DMDA/DMComposite creation semantics"
EXPLAIN = "createMesh and createLaplacianMesh (2D, 3D) are reduced to their ordered PETSc calls with symbolic arguments; each created grid's parameters, the element-wise content of the ownership arrays (generic entry and last entry), the set-up-before-use order, the order in the composite and the pairing of creations and releases are compared with the specification for every number of points and every periodicity."
MIN_OBLIGATIONS = 60
NEUTRAL = {"DMDASetFieldName", "DMSetFromOptions", "DMDAGetInfo", "DMDAGetLocalInfo", "PetscMallocA", "PetscFreeA", "DMDAGetOwnershipRanges", "DMDASetCoordinateName"}
BOX, PER = 1, 3
nul = atom("sym", "null")


def wit():
    s = "#include <cafes.hpp>\nusing namespace cafes;\n"
    for d in (2, 3):
        for k, f in (("mesh", "createMesh"), ("lap", "createLaplacianMesh")):
            s += 'extern "C" PetscErrorCode w_%s%d(DM &dm, std::array<int,%d> const&n, std::array<PetscBool,%d> const&p){ return fem::%s<%d>(dm,n,p);}\n' % (k, d, d, d, f, d)
    return s


class Sim:
    """typestate of the grids and blocks created by one function"""
    def __init__(self, cx, F, lab, d):
        self.cx, self.F, self.lab, self.d = cx, F, lab, d
        self.C = Canon()
        self.grid = {}      # DM atom -> dict(call=, up=bool, live=bool)
        self.comp = None
        self.added = []
        self.mem = {}
        self.stores = []
        A = F.argatoms
        st = F.new_state()
        for e in F.effects:
            if e.kind == "store":
                if e.root.kind != "alloca":
                    self.stores.append(e)
                continue
            self.call(e)

    def ck(self, ok, rule, inst, detail=""):
        return self.cx.check(ok, rule, "%s: %s" % (self.lab, inst), detail)

    def ptr(self, v):
        return self.C.ptr(self.F.asptr(v)).root

    def use(self, e, k):
        g = self.ptr(e.args[k])
        if g in self.grid:
            self.ck(self.grid[g]["up"] and self.grid[g]["live"], "a grid is set up before it is used", e.name + " on " + self.nm(g), e.where())
        return g

    def nm(self, g):
        return "grid %d" % (list(self.grid).index(g) + 1) if g in self.grid else "the composite" if g is self.comp else str(g)

    def call(self, e):
        n = e.name
        if n.startswith("llvm."):
            return
        if n not in ("PetscFreeA",) and not n.startswith("*") and n != "PetscTrFreeDefault":
            self.ck(e.guard is TRUE and not self.F.domain(e), "unconditional", n, "%s\nonly if %s" % (e.where(), e.guard))
        if n in ("DMDACreate2d", "DMDACreate3d"):
            at = atom("out", n, self.F.name, e.ins["id"])
            slot = self.F.asptr(e.args[-1])
            self.grid[at] = {"e": e, "up": False, "live": True, "slot": slot, "stores": list(self.stores), "mem": dict(self.mem)}
        elif n == "DMSetUp":
            g = self.ptr(e.args[0])
            if g in self.grid:
                self.grid[g]["up"] = True
        elif n == "DMCompositeCreate":
            self.comp = atom("out", n, self.F.name, e.ins["id"])
            self.compslot = self.F.asptr(e.args[1])
        elif n == "DMCompositeAddDM":
            g = self.use(e, 1)
            self.ck(self.ptr(e.args[0]) is self.comp, "grids are added to the new composite", "call %d" % (len(self.added) + 1), e.where())
            self.added.append(g)
        elif n == "DMDestroy":
            p = self.F.asptr(e.args[0])
            g = [x for x in self.grid if self.grid[x]["slot"] == p]
            ok = len(g) == 1 and self.grid[g[0]]["live"]
            self.ck(ok, "a grid is released once", self.nm(g[0]) if g else "?", e.where())
            if ok:
                self.grid[g[0]]["live"] = False
        elif n == "PetscMallocA":
            k = self.F.asint(e.args[0]).as_int()
            for j in range(k or 0):
                self.mem[atom("out", "PetscMalloc", self.F.name, e.ins["id"], j)] = (e.ins["id"], k, self.F.asint(e.args[5 + 2 * j]))
        elif n == "PetscFreeA":
            k = self.F.asint(e.args[0]).as_int()
            ps = [self.F.asptr(self.F.load(e.pre, self.F.asptr(a), 8, "ptr")).root for a in e.args[4:]]
            ids = {self.mem.get(p, (None, None))[:2] for p in ps}
            ok = len(ids) == 1 and ids == {(self.mem.get(ps[0], (0,))[0], k)} and len(set(ps)) == k
            self.ck(ok, "memory is released by the call matching its allocation", "%d blocks" % k, e.where())
            for p in ps:
                self.mem.pop(p, None)
        elif n.startswith("*") and e.fptr is not None and "PetscTrFree" in str(e.fptr):
            p = self.F.asptr(e.args[0]).root
            ok = p in self.mem and self.mem[p][1] == 1
            self.ck(ok, "memory is released by the call matching its allocation", "block", e.where() + " %s" % p)
            self.mem.pop(p, None)
        elif n in NEUTRAL:
            if e.args and isinstance(e.args[0], Ptr):
                self.use(e, 0)
        else:
            self.ck(n in ("_Znwm", "_ZdlPv", "_ZdlPvm"), "nothing else is called", n, e.where())

    def content(self, root, idx, facts, stores):
        """value of the 32-bit entry idx of the array root after the stores; facts decides order"""
        cur = None
        for e in stores:
            if e.root is not root:
                continue
            dom = self.F.domain(e)
            g = e.guard
            T = None
            if dom:
                if len(dom) != 1 or dom[0][1] is None:
                    return None
                t, c, g0 = dom[0]
                z = rewrite(e.ofs, lambda x: ZERO if x is t else None)
                s = (e.ofs - z)
                if equal(s, Poly.of(t).scale(4)):
                    T = idx - z.scale(Fraction(1, 4))
                elif equal(s, Poly.of(t).scale(-4)):
                    T = z.scale(Fraction(1, 4)) - idx
                else:
                    return None
                if not (facts(T, "ge0") and facts(c - ONE - T, "ge0")):
                    if facts(T, "lt0") or facts(c - ONE - T, "lt0"):
                        continue
                    return None
                g = band(g, g0)
            elif not equal(e.ofs, idx.scale(4)):
                d = e.ofs.scale(Fraction(1, 4)) - idx
                if facts(d, "lt0") or facts(-d, "lt0"):
                    continue
                return None
            sub = {t: T} if T is not None else {}
            v = e.val
            if cur is not None and e.pre is not None:
                dv = v - e.pre
                v = cur + dv if not any(a.kind == "ld" and a.args[0] is root for a in _atoms(dv)) else None
            if v is None:
                return None
            C = Canon(sub)
            g, v = C.bdd(g), C.poly(v)
            if g is TRUE:
                cur = v
            elif cur is None:
                return None
            else:
                cur = ite(g, v, cur)
        return cur


def _atoms(p):
    return [aget(i) for i in all_atoms(p)]


def params(S, g, lab, per, size, dof, procs, own):
    e = S.grid[g]["e"]
    d = S.d
    F, C = S.F, S.C
    a = e.args
    P = lambda k: C.poly(F.asint(a[k]))
    ok = S.ptr(a[0]) is C.poly(Poly.of(atom("ld", atom("glob", "PETSC_COMM_WORLD"), ZERO))).as_atom()
    S.ck(ok, "communicator", lab, str(a[0]))
    for x in range(d):
        w = ite(per[x], num(PER), ZERO)
        S.ck(equal(P(1 + x), w), "boundary type", "%s, axis %s" % (lab, AX[x]), "%s\n%s\nrequired %s" % (e.where(), P(1 + x), w))
        S.ck(equal(P(2 + d + x), size[x]), "number of points", "%s, axis %s" % (lab, AX[x]), "%s\n%s\nrequired %s" % (e.where(), P(2 + d + x), size[x]))
        if procs is None:
            S.ck(equal(P(2 + 2 * d + x), num(-1)), "processes chosen by PETSc", "%s, axis %s" % (lab, AX[x]), str(P(2 + 2 * d + x)))
        else:
            S.ck(equal(P(2 + 2 * d + x), procs[x]), "same process grid", "%s, axis %s" % (lab, AX[x]), "%s\nrequired %s" % (P(2 + 2 * d + x), procs[x]))
    S.ck(equal(P(1 + d), num(BOX)), "box stencil", lab, str(P(1 + d)))
    k = 2 + 3 * d
    S.ck(equal(P(k), num(dof)), "number of components", lab, str(P(k)))
    S.ck(equal(P(k + 1), ONE), "ghost width", lab, str(P(k + 1)))
    for x in range(d):
        p = F.asptr(a[k + 2 + x])
        if own is None:
            S.ck(p.root is nul, "default ownership", "%s, axis %s" % (lab, AX[x]), str(p))
            continue
        N = procs[x]
        K = sym("@k")
        mem = S.grid[g]["mem"].get(p.root)
        if mem is not None:
            S.ck(equal(C.poly(mem[2]), N.scale(4)), "ownership array has one entry per process", "%s, axis %s" % (lab, AX[x]), str(mem[2]))
        for inst, idx in (("last entry", N - ONE), ("other entries", K)):
            def facts(q, what):
                # 0 <= K <= N-2, N >= 1   (or idx = N-1)
                q = C.poly(q)
                if what == "lt0":
                    q = -q - ONE
                lo = q
                cK = lo.t.get(K.as_mono() if hasattr(K, "as_mono") else next(iter(K.t)), 0)
                rest = lo - K.scale(cK)
                # q = cK*K + cN*N + c ; worst case over K in [0,N-2]
                cand = [rest] + [rest + (N - num(2)).scale(cK)]
                def ge0(r):
                    r = C.poly(r)
                    n1 = next(iter(N.t))
                    cN = r.t.get(n1, 0)
                    c0 = (r - N.scale(cN)).as_const()
                    if c0 is None:
                        return False
                    low = 1 if inst == "last entry" else 2
                    return cN >= 0 and cN * low + c0 >= 0
                return all(ge0(r) for r in cand)
            v = S.content(p.root, C.poly(idx), facts, S.grid[g]["stores"])
            src = Poly.of(atom("ld", atom("ranges", own, num(x)), idx.scale(4)))
            w = src.scale(2)
            if inst == "last entry":
                w = w - ite(per[x], ZERO, ONE)
            lst = cmp_eq(K, N - ONE)
            if v is not None:
                v = C.poly(v)
                if inst != "last entry":
                    v = rewrite_assume(v, lst)
            S.ck(v is not None and equal(v, w), "twice the pressure points, minus one at a closed end", "%s, axis %s, %s" % (lab, AX[x], inst), "%s\n%s\nrequired %s" % (e.where(), v, w))


def rewrite_assume(p, false_bdd):
    """p where the condition false_bdd is known to fail"""
    def f(a):
        if a.kind == "ite":
            c = band(a.args[0], bnot(false_bdd))
            if c is FALSE:
                return a.args[2]
            if band(bnot(a.args[0]), bnot(false_bdd)) is FALSE:
                return a.args[1]
        return None
    return rewrite(p, f)


def run(cx):
    m = cx.ir(wit())
    for d in (2, 3):
        for kind in ("mesh", "lap"):
            F = Fn(m, "w_%s%d" % (kind, d))
            lab = ("createMesh<%d>" if kind == "mesh" else "createLaplacianMesh<%d>") % d
            cx.saw(lab)
            A = F.argatoms
            st = F.new_state()
            C = Canon()
            n = [C.poly(F.load(st, Ptr(A[1], num(4 * x)), 4, "i32")) for x in range(d)]
            per = [bnot(C.bdd(cmp_eq(F.load(st, Ptr(A[2], num(4 * x)), 4, "i32"), ZERO))) for x in range(d)]
            S = Sim(cx, F, lab, d)
            gs = list(S.grid)
            red = [ite(per[x], ONE, ZERO) for x in range(d)]
            if kind == "lap":
                S.ck(len(gs) == 1 and S.comp is None, "grids created", "number", str(len(gs)))
                if gs:
                    params(S, gs[0], "the grid", per, [n[x] - red[x] for x in range(d)], 1, None, None)
                    S.ck(S.grid[gs[0]]["slot"] == Ptr(A[0], ZERO) and S.grid[gs[0]]["up"] and S.grid[gs[0]]["live"], "the result is a usable grid", "result", str(S.grid[gs[0]]["slot"]))
            else:
                S.ck(S.comp is not None and S.compslot == Ptr(A[0], ZERO), "the result is the composite", "result")
                S.ck(len(gs) == 2 and len(S.added) == 2 and set(S.added) == set(gs), "grids created", "number", "%d created, %d added" % (len(gs), len(S.added)))
                if len(gs) == 2 and set(S.added) == set(gs):
                    vel, pre = S.added
                    params(S, pre, "pressure", per, [n[x] - red[x] for x in range(d)], 1, None, None)
                    procs = [info(pre, k) for k in "mnp"[:d]]
                    params(S, vel, "velocity", per, [n[x].scale(2) - ONE - red[x] for x in range(d)], d, procs, pre)
                    for g, l in ((pre, "pressure"), (vel, "velocity")):
                        S.ck(not S.grid[g]["live"], "the composite keeps the only reference", l)
            S.ck(not S.mem, "temporary memory is given back", "end", str(S.mem))
            ok = all(isinstance(v, Poly) and not v.t for b, v in F.rets)
            S.ck(ok, "returns success", "end", str(F.rets))
