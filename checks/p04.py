"""P04 box iteration and index ranges"""
from grid import *
from cases import *
TITLE = "Box sweeps visit each node once over the ranges the process owns"
LEVEL = "proof"
TRUSTED = "clang 18 front end and -O2 IR; irdump; DMDALocalInfo fields"
EXPLAIN = "algorithm::iterate is instantiated with a recording callback in 2D and 3D and its loop nest (trip counts, visited indices) compared with the box; get_DM_bounds (plain and composite part, with and without the final points), get_global_bounds and get_boundary_type are reduced to their results and compared, threshold case by case, with the ownership ranges."
MIN_OBLIGATIONS = 40

WIT = r'''
#include <cafes.hpp>
using namespace cafes;
using I2 = geometry::box<int,2>; using I3 = geometry::box<int,3>;
extern "C" void cb2(int,int);
extern "C" void cb3(int,int,int);
extern "C" void w_it2(I2 const&a){ algorithm::iterate(a,[](auto const&p){ cb2(p[0],p[1]);});}
extern "C" void w_it3(I3 const&a){ algorithm::iterate(a,[](auto const&p){ cb3(p[0],p[1],p[2]);});}
#define W(d) \
extern "C" void w_def##d(I##d *o, DM const& dm){ *o = fem::get_DM_bounds<d>(dm);} \
extern "C" void w_bnd##d(I##d *o, DM const& dm, bool r){ *o = fem::get_DM_bounds<d>(dm, r);} \
extern "C" void w_cmp##d(I##d *o, DM const& dm, int i){ *o = fem::get_DM_bounds<d>(dm, i);} \
extern "C" void w_cmpr##d(I##d *o, DM const& dm, int i, bool r){ *o = fem::get_DM_bounds<d>(dm, i, r);} \
extern "C" void w_glob##d(std::array<int,d> *o, DM const& dm){ *o = fem::get_global_bounds<d>(dm);} \
extern "C" void w_bd##d(std::array<DMBoundaryType,d> *o, DM const& dm){ *o = fem::get_boundary_type<d>(dm);}
W(2) W(3)
'''


def run(cx):
    m = cx.ir(WIT, inline=[r"get_DM_bounds"])
    for d in (2, 3):
        iterate(cx, m, d)
        bounds(cx, m, d)


def iterate(cx, m, d):
    F = Fn(m, "w_it%d" % d)
    lab = "iterate %dD" % d
    cx.saw("algorithm::iterate<%d>" % d)
    es = [e for e in F.effects if e.kind == "call" and e.name == "cb%d" % d]
    ot = [e for e in F.effects if e not in es and not (e.kind == "store" and e.root.kind == "alloca")]
    cx.check(len(es) == 1 and not ot, "one visit per point", lab, "%d call sites; other effects %s" % (len(es), ot[:2]))
    if len(es) != 1:
        return
    e = es[0]
    C = Canon()
    dom = [(t, C.poly(c) if c is not None else None, C.bdd(g)) for t, c, g in F.domain(e)]
    lo = [Poly.of(atom("ld", F.argatoms[0], num(4 * a))) for a in range(d)]
    hi = [Poly.of(atom("ld", F.argatoms[0], num(4 * (d + a)))) for a in range(d)]
    cx.check(C.bdd(e.guard) is TRUE, "no point skipped", lab, "visited only if %s" % C.bdd(e.guard))
    cx.check(len(dom) == d, "one loop per axis", lab, str(dom))
    for t, g in F.entered_empty(e):
        r = same(C.bdd(g), FALSE, True)
        cx.check(r is None, "an empty box has no point", lab, "the loop of %d axes is entered: %s" % (d, r))
    used = set()
    for a in range(d):
        inst = "%s axis %s" % (lab, AX[a])
        ix = C.poly(F.asint(e.args[a]))
        ts = [x for x in dom if x[0].id in all_atoms(ix)]
        if not cx.check(len(ts) == 1 and ts[0][0] not in used, "own loop", inst, "index %s" % ix):
            continue
        t, c, g = ts[0]
        used.add(t)
        cx.check(c is not None and equal(c, hi[a] - lo[a]) and g is TRUE, "number of indices", inst, "%s times if %s, required %s" % (c, g, hi[a] - lo[a]))
        up = equal(ix, lo[a] + Poly.of(t)) or equal(ix, hi[a] - ONE - Poly.of(t))
        cx.check(up, "indices visited", inst, "index %s" % ix)


def word(F, k, off):
    v = F.load(F.final_state, Ptr(F.argatoms[k], num(off)), 4, "i32")
    return F.asint(v)


def bounds(cx, m, d):
    for nm, comp, opt in (("def", 0, 0), ("bnd", 0, 1), ("cmp", 1, 0), ("cmpr", 1, 1)):
        F = Fn(m, "w_%s%d" % (nm, d))
        lab = "get_DM_bounds<%d>%s%s" % (d, " of a composite part" if comp else "", " (default)" if not opt else "")
        cx.saw(lab)
        A = F.argatoms
        D = atom("ld", A[1], ZERO)
        dm = atom("sym", "@dm")
        subs = {D: Poly.of(dm)}
        if comp:
            def f(a):
                # entry of the array filled by DMCompositeGetEntriesArray
                return None
            calls = [e for e in F.effects if e.kind == "call" and not e.name.startswith("llvm.")]
        C = Canon()
        part = atom("entry", D, Poly.of(A[2])) if comp else D
        for rem in ((0, 1) if opt else (1,)):
            for a in range(d):
                s, n, g, b = (info(part, AX[a] + "s"), info(part, AX[a] + "m"), info(part, "m" + AX[a]), info(part, "b" + AX[a]))
                lo, hi = fin(F, C, A, 4 * a, opt, rem, comp, part), fin(F, C, A, 4 * (d + a), opt, rem, comp, part)
                w = s + n
                if rem:
                    w = w + ite(band(cmp_eq(s + n, g), bnot(cmp_eq(b, num(DM_BOUNDARY_PERIODIC)))), num(-1), ZERO)
                inst = "%s, %s final points, axis %s" % (lab, "without" if rem else "with", AX[a])
                r = same(lo, s, True)
                cx.check(r is None, "first index", inst, r)
                r = same(hi, w, True)
                cx.check(r is None, "end index", inst, r)
        bad = [e for e in F.effects if e.kind == "store" and e.root.kind != "alloca" and e.root is not A[0]]
        cx.check(not bad, "no side effect", lab, str(bad[:2]))
    for nm, flds, lab in (("glob", ["m" + x for x in AX], "get_global_bounds"), ("bd", ["b" + x for x in AX], "get_boundary_type")):
        F = Fn(m, "w_%s%d" % (nm, d))
        cx.saw("%s<%d>" % (lab, d))
        D = atom("ld", F.argatoms[1], ZERO)
        for a in range(d):
            v = Canon().poly(word(F, 0, 4 * a))
            cx.check(equal(v, info(D, flds[a])), "value", "%s<%d> axis %s" % (lab, d, AX[a]), str(v))


def fin(F, C, A, off, opt, rem, comp, part):
    v = word(F, 0, off)
    C2 = Canon(None, lambda a: entry(a, part) if comp else None)
    v = C2.poly(v)
    if opt:
        r = A[-1]
        memo = {}

        def f(a):
            return num(rem) if a is r else None
        v = rewrite(v, f, memo)
        tab = {}
        for x in conds_in(v):
            k = varkey(x)
            if k[0] == "b" and (k[1] is r or getattr(k[1], "as_atom", lambda: None)() is r):
                tab[x] = rem
        v = _decide(v, tab)
    return v


def _decide(v, tab):
    import cases
    return cases._subst(v, tab) if tab else v


def entry(a, part):
    """the loads of the entries array are the grid of the composite at that position"""
    if a.kind == "ld" and a.args[0].kind == "alloca" and len(a.args) > 2 and "call" in str(a.args[2]):
        i = a.args[1].scale(Fraction(1, 8))
        if equal(i, part.args[1]):
            return Poly.of(part)
    return None
