"""P10 grid-vector views"""
from grid import *
from petscsim import *
TITLE = "A grid-vector view reaches the right cells and releases all it took"
LEVEL = "proof"
TRUSTED = "clang 18 front end and -O2 IR; irdump; lib/petscsim.py semantics of the PETSc calls"
EXPLAIN = "The constructor, the destructor, every element accessor and every transfer/fill member of petsc_vec (2D, 3D), and the helpers that pick a grid or a component of a composite, are reduced to their effects for each scenario (composite or single grid, read-only or writable) and compared with the specification; construction followed by destruction is interpreted with acquisition/release pairing."
MIN_OBLIGATIONS = 150
FIELDS = ("dm_", "dm_global_", "v_", "v_global_", "v_entry_", "entry_", "dof_", "readonly_", "iscomposite", "pv_", "pvg_")
KEEP = [r"petsc::get_DM\(", r"petsc::get_Vec\(", r"petsc::retore_Vec\("]


def wit():
    s = "#include <cafes.hpp>\n#include <new>\nusing namespace cafes;\n"
    for d in (2, 3):
        s += "using V%d = petsc::petsc_vec<%d>;\n" % (d, d)
        for f in FIELDS:
            s += 'extern "C" void const* w_v%d_%s(V%d &c){ return &c.%s;}\n' % (d, f, d, f)
        s += '''extern "C" void w_ctor%(d)d(V%(d)d *o, DM dm, Vec v, std::size_t e, int ro){ new(o) V%(d)d(dm, v, e, ro != 0);}
extern "C" void w_def%(d)d(V%(d)d *o, DM dm, Vec v, std::size_t e){ new(o) V%(d)d(dm, v, e);}
extern "C" void w_dtor%(d)d(V%(d)d &o){ o.~petsc_vec();}
extern "C" void w_life%(d)d(DM dm, Vec v, std::size_t e, int ro){ V%(d)d x(dm, v, e, ro != 0);}
extern "C" PetscErrorCode w_l2g%(d)d(V%(d)d &o, InsertMode m){ return o.local_to_global(m);}
extern "C" PetscErrorCode w_g2l%(d)d(V%(d)d &o, InsertMode m){ return o.global_to_local(m);}
extern "C" PetscErrorCode w_fill%(d)d(V%(d)d &o, double a){ return o.fill(a);}
extern "C" PetscErrorCode w_fillg%(d)d(V%(d)d &o, double a){ return o.fill_global(a);}
''' % {"d": d}
        P, I = ("int i, int j", "i,j") if d == 2 else ("int i, int j, int k", "i,j,k")
        for cst, c in (("", ""), ("const", "c")):
            for ac in ("at", "at_g"):
                s += 'extern "C" double const* w_%s_p%s%d(V%d %s &x, %s){ return x.%s(geometry::position<int,%d>{%s});}\n' % (ac, c, d, d, cst, P, ac, d, I)
            s += 'extern "C" double const* w_at_a%s%d(V%d %s &x, %s){ return x.at(std::array<int,%d>{{%s}});}\n' % (c, d, d, cst, P, d, I)
    s += '''extern "C" DM w_getdm(DM dm, int e){ return petsc::get_DM(dm, e);}
extern "C" Vec w_getvec(DM dm, Vec v, int e){ return petsc::get_Vec(dm, v, e);}
extern "C" void w_retvec(DM dm, Vec v, Vec w, int e){ petsc::retore_Vec(dm, v, w, e);}
'''
    return s


def off(m, d):
    r = {}
    for f in FIELDS:
        P = Fn(m, "w_v%d_%s" % (d, f))
        r[f] = P.asptr(P.rets[0][1]).off.as_int()
    return r


def run(cx):
    m = cx.ir(wit())
    for d in (2, 3):
        O = off(m, d)
        accessors(cx, m, d, O)
        ctor(cx, m, d, O)
        dtor(cx, m, d, O)
        life(cx, m, d, O)
        transfers(cx, m, d, O)
    helpers(cx, m)


def accessors(cx, m, d, O):
    for c in ("", "c"):
        for nm, fld in (("at_p", "pv_"), ("at_a", "pv_"), ("at_g_p", "pvg_")):
            F = Fn(m, "w_%s%s%d" % (nm, c, d))
            lab = "petsc_vec<%d>::%s(%s)%s" % (d, "at_g" if "_g_" in nm else "at", "array" if nm.endswith("a") else "position", " const" if c else "")
            cx.saw(lab)
            p = Canon().ptr(F.asptr(F.rets[0][1]))
            r, o = atom("ld", F.argatoms[0], num(O[fld])), ZERO
            for a in range(d)[::-1]:
                r, o = atom("ld", r, o + Poly.of(F.argatoms[1 + a]).scale(8)), ZERO
            w = Ptr(r, ZERO)
            cx.check(p == w, "cell reached", lab, "returns %s\nrequired %s" % (p, w))
            wr = [e for e in F.effects if e.kind == "store" and e.root.kind != "alloca" or e.kind == "call" and not e.name.startswith("llvm.")]
            cx.check(not wr, "no side effect", lab, str(wr[:2]))


def scen(comp, ro=None, roatom=None, extra=None):
    def f(a):
        if a.kind == "tycmp":
            return num(comp) if a.args[1] == "composite" else None
        if roatom is not None and a is roatom:
            return num(ro)
        if extra:
            return extra(a)
        return None
    return f


def ctor(cx, m, d, O):
    for nm, ros in (("w_ctor%d" % d, (0, 1)), ("w_def%d" % d, (1,))):
        F = Fn(m, nm)
        A = F.argatoms
        lab0 = "petsc_vec<%d> constructor%s" % (d, "" if "ctor" in nm else " (default access)")
        cx.saw(lab0)
        for comp in (0, 1):
            for ro in ros:
                lab = "%s, %s, %s" % (lab0, "composite" if comp else "single grid", "read-only" if ro else "writable")
                roa = A[4] if len(A) > 4 else None
                S = Sim(F, {}, scen(comp, ro, roa))
                es = [e for e in F.effects if not (e.kind == "store" and e.root is A[0])]
                S.run(es)
                cx.check(not S.problems, "protocol", lab, "\n".join(S.problems[:4]))
                dm = atom("entry", A[1], Poly.of(A[3])) if comp else A[1]
                ve = atom("sub", A[1], A[2], Poly.of(A[3])) if comp else A[2]
                fld = lambda f, ty, sz: S.canon.val(F.load(F.final_state, Ptr(A[0], num(O[f])), sz, ty))
                lv = fld("v_", "ptr", 8)
                held = sorted([k[0] for k in S.held])
                cx.check(lv.root.kind == "out" and lv.root.args[0] == "DMGetLocalVector", "local vector", lab, str(lv))
                for f, w in (("dm_", dm), ("dm_global_", A[1]), ("v_global_", A[2]), ("v_entry_", ve), ("pv_", atom("arr", dm, lv.root)), ("pvg_", atom("arr", dm, ve))):
                    g = fld(f, "ptr", 8)
                    cx.check(g == Ptr(w, ZERO), "member " + f, lab, "%s, required %s" % (g, fmt_atom(w, 0)))
                g = S.canon.poly(F.asint(fld("dof_", "i32", 4)))
                cx.check(equal(g, info(dm, "dof")), "member dof_", lab, str(g))
                g = S.canon.poly(F.asint(fld("entry_", "i64", 8)))
                cx.check(equal(g, Poly.of(A[3])), "member entry_", lab, str(g))
                g = S.canon.poly(F.asint(fld("iscomposite", "i32", 4)))
                cx.check(equal(g, num(comp)), "member iscomposite", lab, str(g))
                g = S.canon.poly(F.asint(fld("readonly_", "i8", 1)))
                cx.check(equal(g, num(ro)), "member readonly_", lab, str(g))
                k = "array (%s)" % ("ro" if ro else "rw")
                want = {("local vector", dm, lv.root), (k, dm, lv.root), (k, dm, ve)}
                if comp:
                    want.add(("component", A[1], A[2], ve))
                cx.check(set(S.held) == want, "what is acquired", lab, "%s\nrequired %s" % (sorted(map(str, S.held)), sorted(map(str, want))))
        wr = [e for e in F.effects if e.kind == "store" and e.root.kind != "alloca" and e.root is not A[0]]
        cx.check(not wr, "nothing else is written", lab0, str(wr[:2]))


def dtor(cx, m, d, O):
    F = Fn(m, "w_dtor%d" % d)
    A = F.argatoms[0]
    lab0 = "petsc_vec<%d> destructor" % d
    cx.saw(lab0)
    ld = lambda f: atom("ld", A, num(O[f]))
    for comp in (0, 1):
        for ro in (0, 1):
            lab = "%s, %s, %s" % (lab0, "composite" if comp else "single grid", "read-only" if ro else "writable")

            def ex(a):
                if a.kind == "ld" and a.args[0] is A and a.args[1].as_int() in (O["readonly_"], O["iscomposite"]):
                    return num(ro if a.args[1].as_int() == O["readonly_"] else comp)
                return None
            S = Sim(F, {}, ex)
            k = "array (%s)" % ("ro" if ro else "rw")
            S.held = {("local vector", ld("dm_"), ld("v_")): None, (k, ld("dm_"), ld("v_")): None, (k, ld("dm_"), ld("v_entry_")): None}
            for kk in S.held:
                S.held[kk] = "x"
            if comp:
                S.held[("component", ld("dm_global_"), ld("v_global_"), ld("v_entry_"))] = "x"
            S.run([e for e in F.effects if not (e.kind == "store" and e.root is A)])
            cx.check(not S.problems, "protocol", lab, "\n".join(S.problems[:4]))
            cx.check(not S.held, "everything is released", lab, str(sorted(map(str, S.held))))
            if comp:
                es = [e for e in F.effects if e.kind == "call" and e.name == "DMCompositeRestoreAccessArray"]
                i = S.n(S._vals(es[0], 3, "i32", 4)[0]) if es else None
                cx.check(i is not None and equal(i, Poly.of(ld("entry_"))), "component number", lab, str(i))


def life(cx, m, d, O):
    F = Fn(m, "w_life%d" % d)
    A = F.argatoms
    lab0 = "petsc_vec<%d> construction then destruction" % d
    cx.saw(lab0)
    for comp in (0, 1):
        for ro in (0, 1):
            lab = "%s, %s, %s" % (lab0, "composite" if comp else "single grid", "read-only" if ro else "writable")
            S = Sim(F, {}, scen(comp, ro, A[3])).run()
            pr = S.done()
            cx.check(not pr, "everything is released", lab, "\n".join(pr[:4]))
            cx.check(A[1] not in S.c, "the vector is left unchanged", lab, str(S.c))


def transfers(cx, m, d, O):
    for nm, lab in (("l2g", "local_to_global"), ("g2l", "global_to_local"), ("fill", "fill"), ("fillg", "fill_global")):
        F = Fn(m, "w_%s%d" % (nm, d))
        A = F.argatoms[0]
        lab = "petsc_vec<%d>::%s" % (d, lab)
        cx.saw(lab)
        ld = lambda f: atom("ld", A, num(O[f]))
        cases = {"l2g": (INSERT, ADD), "g2l": (INSERT,)}.get(nm, (None,))
        for mode in cases:
            S = Sim(F, {}, None, {F.argatoms[1]: num(mode)} if mode else None).run()
            v, g, dm = ld("v_"), ld("v_entry_"), ld("dm_")
            if nm == "l2g":
                w = {g: lin((ONE, ("in", g)), (ONE, ("S", ("in", v), dm))) if mode == ADD else ("I", ("in", v), dm)}
            elif nm == "g2l":
                w = {v: ("G", ("in", g), dm)}
            else:
                w = {v if nm == "fill" else g: ("const", Poly.of(F.argatoms[1]))}
            inst = lab + ({INSERT: " insert", ADD: " add"}.get(mode, ""))
            cx.check(S.c == w, "effect", inst, "computed %s\nrequired %s" % ({str(k): show(t) for k, t in S.c.items()}, {str(k): show(t) for k, t in w.items()}))
            pr = S.done()
            cx.check(not pr, "protocol", inst, "\n".join(pr[:4]))


def helpers(cx, m):
    F = Fn(m, "w_getvec")
    A = F.argatoms
    cx.saw("petsc::get_Vec", "petsc::retore_Vec", "petsc::get_DM")
    r = Canon().ptr(F.asptr(F.rets[0][1]))
    w = Ptr(atom("sub", A[0], A[1], Poly.of(A[2])), ZERO)
    cx.check(r == w, "component picked", "get_Vec", "%s, required %s" % (r, w))
    F = Fn(m, "w_retvec")
    A = F.argatoms
    S = Sim(F, {})
    S.held = {("component", A[0], A[1], A[2]): "x"}
    S.run()
    cx.check(not S.problems and not S.held, "component released", "retore_Vec", "\n".join(S.problems[:3]))
    fs = [f for f in m.fns if "6get_DME" in f] or ["w_getdm"]
    F = Fn(m, fs[0])
    A = F.argatoms
    es = [e for e in F.effects if e.kind == "call" and e.name == "DMCompositeGetEntriesArray"]
    cx.check(len(es) == 1 and es[0].guard is TRUE and Canon().ptr(F.asptr(es[0].args[0])) == Ptr(A[0], ZERO), "grids of the composite", "get_DM", str(es))
    if es:
        r = Canon().ptr(F.asptr(F.rets[0][1]))
        ok = r == Ptr(atom("entry", A[0], Poly.of(A[1])), ZERO)
        cx.check(ok, "grid picked", "get_DM", "%s" % r)
