"""P25 interpolation on a refined mesh"""
from wire import *
from grid import *
import cases
from p22 import Report, one, offs
TITLE = "Refined fields are the bilinear interpolants of the computed ones"
LEVEL = "proof"
TRUSTED = "clang 18 front end and -O2 IR; irdump; DMRefine multiplies the numbers of cells by the refinement factors set and keeps the partition; grid-vector views are other obligations (P10); the refined and the coarse arrays do not overlap"
EXPLAIN = "linear_interpolation (2D) is reduced to its calls and stores. The calls are replayed symbolically (which mesh is refined, composed, viewed); the stores are replayed for one symbolic cell, refined node of that cell and component, and the resulting value compared with the bilinear formula; the loop ranges are compared with the cells owned and with 0..factor."
MIN_OBLIGATIONS = 40
KEEP = [r"petsc_vec<.*>::(?!at)"]
FIELDS = ["dm_", "v_", "v_entry_", "dof_", "pv_", "pvg_"]
WIT = '''
#include <cafes.hpp>
using namespace cafes;
extern "C" int w_i(DM& dm, Vec& sol, DM& dr, Vec& sr, std::array<int,2> const& r, std::array<double,2> const& h){ return posttraitement::linear_interpolation<2>(dm, sol, dr, sr, r, h); }
extern "C" void w_lv(petsc::petsc_vec<2>& s, void const **__restrict o){ ''' + " ".join("o[%d]=&s.%s;" % (i, f) for i, f in enumerate(FIELDS)) + " }\n"


def run(cx):
    m = cx.ir(WIT, noinline=KEEP)
    F = Fn(m, "w_i")
    cx.saw("posttraitement::linear_interpolation<2>")
    V = offs(m, "w_lv", FIELDS)
    dmr, solr, drr, srr, ref, h = F.argatoms[:6]
    dm, sol = atom("ld", dmr, ZERO), atom("ld", solr, ZERO)
    rx, ry = (Poly.of(atom("ld", ref, num(4 * a))) for a in range(2))

    def name(e):
        d = m.dem.get(e.name)
        if d is None:
            return e.name
        d = d.split("petsc_vec<2ul>::")[-1] if "petsc_vec<2ul>::" in d else d
        return d.split("(")[0]
    W = World(F, None, outs={"DMClone": [(1, "clone")], "DMRefine": [(2, "refined")], "DMCompositeCreate": [(1, "composite")], "DMDACreate2d": [(12, "grid")]}, name=name)

    W.run([e for e in F.effects if e.kind == "call" and not e.name.startswith("llvm.") or e.kind == "store" and e.root.kind == "alloca" and not e.loops])
    R = Report(cx, W, "linear_interpolation")
    R.clean()
    R.returns()
    dav, dap = (atom("entry", dm, num(k)) for k in (0, 1))
    fine = {}
    for k, (d, nm) in enumerate(((dav, "velocity"), (dap, "pressure"))):
        xs = [(i, x) for i, x in W.all("DMRefine") if x[1][0] == of(d)]
        x = one(R, xs, "refinement of the %s mesh" % nm)
        if not x:
            continue
        i, (n, a, made, e) = x
        fine[k] = made[2]
        fs = [(j, y) for j, y in W.all("DMDASetRefinementFactor") if j < i and y[1][0] == of(d)]
        R(bool(fs), "the factors are set before refining", nm, e.where())
        if fs:
            g = fs[-1][1][1]
            for a_, (got, w) in enumerate(zip(g[1:3], (rx, ry))):
                R(isinstance(got, Poly) and equal(got, w), "factor along its own axis", "%s %s" % (nm, AX[a_]), "%s\nvalue %s\nrequired %s" % (fs[-1][1][3].where(), got, w))
    R(len(W.all("DMRefine")) == 2, "nothing else is refined", "meshes", "")
    x = one(R, W.all("DMCompositeCreate"), "refined mesh")
    comp = x[1][2][1] if x else None
    adds = [y[1] for i, y in W.all("DMCompositeAddDM")]
    R([a for a in adds] == [[of(comp), of(fine.get(k))] for k in (0, 1)] if comp is not None and len(fine) == 2 else False, "velocity then pressure", "refined mesh", str(adds)[:300])
    lastadd = max([i for i, y in W.all("DMCompositeAddDM")] or [0])
    x = one(R, W.all("DMCreateGlobalVector"), "refined solution")
    vec = None
    if x:
        i, (n, a, made, e) = x
        vec = made[1]
        R(a[0] == of(comp) and i > lastadd, "on the complete refined mesh", "refined solution", "%s\non %s" % (e.where(), a[0]))
    C0 = Canon(W.names)
    for nm, arg, w in (("refined mesh", drr, comp), ("refined solution", srr, vec)):
        v = W.loc.get((arg, ZERO))
        R(v == of(w) if w is not None else False, "handed to the caller", nm, str(v))
    # ---- views
    views = {}
    for i, (n, a, made, e) in W.all("petsc_vec"):
        views.setdefault((a[1], a[2], a[3].as_int() if isinstance(a[3], Poly) else None), []).append((i, a[0], a[4] if len(a) > 4 else TRUE, e))
    src, dst = {}, {}
    for k, nm in ((0, "velocity"), (1, "pressure")):
        for tab, key, lab in ((src, (of(dm), of(sol), k), nm), (dst, (of(comp), of(vec), k), "refined " + nm)):
            xs = views.get(key, [])
            R(len(xs) == 1, "viewed", lab, "%d views" % len(xs))
            for i, p, ro, e in xs[:1]:
                tab[k] = (p.root, i, e)
                isro = ro is TRUE or ro == ONE
                R(tab is src or not isro, "opened for writing", lab, e.where())
    stores = [e for e in F.effects if (e.kind == "store" and e.root.kind != "alloca") or e.name.startswith("llvm.mem") and W.canon.ptr(F.asptr(e.args[0])).root.kind != "alloca"]
    for k, nm in ((0, "velocity"), (1, "pressure")):
        if k not in src or k not in dst:
            continue
        xs = [(i, y) for i, y in W.all("global_to_local") if y[1][0] == of(src[k][0])]
        R(len(xs) == 1 and xs[0][1][1][1] == ONE, "neighbouring values are fetched", nm, str([str(y[1][1]) for i, y in xs]))
        ys = [(i, y) for i, y in W.all("local_to_global") if y[1][0] == of(dst[k][0])]
        R(len(ys) == 1 and ys[0][1][1][1] == ONE, "values are stored", "refined " + nm, str([str(y[1][1]) for i, y in ys]))
        mine = [e for e in stores if target(F, e) is dst[k][0]]
        pos = {id(e): n for n, e in enumerate(F.effects)}
        if xs and ys and mine:
            R(pos[id(xs[0][1][3])] < min(pos[id(e)] for e in mine) and pos[id(ys[0][1][3])] > max(pos[id(e)] for e in mine), "fetched before, stored after", nm, "%s\n%s" % (xs[0][1][3].where(), ys[0][1][3].where()))
        values(R, F, (dav, dap)[k], nm, src[k][0], dst[k][0], mine, V, (rx, ry))
    odd = [e for e in stores if target(F, e) not in [x[0] for x in dst.values()]]
    R(not odd, "nothing else is written", "memory", "\n".join(e.where() for e in odd[:3]))
    bad = [y for nm in ("fill", "fill_global") for i, y in W.all(nm) if y[1][0].root in [x[0] for x in src.values()]] + \
          [y for i, y in W.all("local_to_global") if y[1][0].root in [x[0] for x in src.values()]]
    R(not bad, "the solution is left as it is", "solution", "\n".join(y[3].where() for y in bad[:2]))


def base_of(F, e):
    return Canon().ptr(Ptr(e.root, e.ofs) if e.kind == "store" else F.asptr(e.args[0]))


def target(F, e):
    """the view whose array the store goes through"""
    r = base_of(F, e).root
    for _ in range(6):
        if r.kind != "ld":
            break
        r = r.args[0]
    return r


def values(R, F, dm, nm, src, dst, stores, V, rf):
    """one cell, refined node of it and component"""
    G = Grid.__new__(Grid)
    G.d = 2
    E = [sym("E" + a) for a in "xy"]
    S = [sym("s" + a) for a in "xy"]
    D = sym("comp")
    dof = Poly.of(atom("ld", dst, num(V["dof_"])))
    facts = [cmp_lt(ZERO, rf[0]), cmp_lt(ZERO, rf[1]), cmp_lt(ZERO, dof)]
    eqi = lambda a, b: cases.same(a, b, True, facts=facts) is None
    cur = before = None
    base = Canon()
    idx = lambda a: rf[a] * E[a] + S[a]
    row = atom("ld", dst, num(V["pv_"]))
    want = Ptr(atom("ld", atom("ld", row, idx(1).scale(8)), idx(0).scale(8)), D.scale(8))
    R(bool(stores), "values are computed", "refined " + nm, "")
    for e in stores:
        sub = {}
        bad = []
        for t, c, g in F.domain(e):
            if c is None:
                bad.append("loop of unknown trip count")
                continue
            c = base.poly(c)
            taken = [h for h, v in sub.values()]
            hit = None
            for k, n, v in [(("E", q), G.count(dm, q), E[q] - G.start(dm, q)) for q in (0, 1)] + [(("S", q), rf[q] + ONE, S[q]) for q in (0, 1)] + [(("D", 0), dof, D)]:
                if k not in taken and eqi(c, n):
                    hit = (k, v)
                    break
            if not hit:
                bad.append("loop runs %s times" % c)
                continue
            if g is not TRUE and not implied(base.bdd(g), facts):
                bad.append("loop entered only if %s" % base.bdd(g))
            sub[t] = hit
        ms = e.kind == "call"
        need = {("E", 0), ("E", 1), ("S", 0), ("S", 1)} | (set() if ms else {("D", 0)})
        miss = need - {h for h, _ in sub.values()}
        if miss:
            bad.append("no loop over %s" % ", ".join(sorted({"E": "the cells along ", "S": "the refined nodes of the cell along ", "D": "the components"}[a] + ("xy"[b] if a != "D" else "") for a, b in miss)))
        g = base.bdd(e.guard)
        if g is not TRUE and not implied(g, facts):
            bad.append("done only if %s" % g)
        inst = "refined " + nm
        R(not bad, "every refined node of every owned cell, every component", inst, "%s\n%s" % (e.where(), "\n".join(bad)))
        if bad:
            return
        nest = {h: t for t, (h, v) in sub.items() if h[0] != "D"}
        for turned in ((), (0,), (1,), (0, 1)):
            X = Canon({t: rf[h[1]] - v if h[0] == "S" and h[1] in turned else v for t, (h, v) in sub.items()})
            p = X.ptr(F.asptr(e.args[0]) if ms else Ptr(e.root, e.ofs))
            if p == (Ptr(want.root, ZERO) if ms else want):
                break
        else:
            X = Canon({t: v for t, (h, v) in sub.items()})
        if ms:
            p = X.ptr(F.asptr(e.args[0]))
            n = X.poly(F.asint(e.args[2]))
            v = X.poly(F.asint(e.args[1]))
            R(p == Ptr(want.root, ZERO) and eqi(n, dof.scale(8)) and v == ZERO and "memset" in e.name, "the values are reset", inst, "%s\n%s bytes at %s" % (e.where(), n, p))
            cur, before = ZERO, nest
            continue
        p = X.ptr(Ptr(e.root, e.ofs))
        R(p == want, "the node written is the refined node", inst, "%s\nwrites %s\nrequired %s" % (e.where(), p, want))
        if p != want:
            return
        me = atom("ld", p.root, p.off)
        v = X.poly(F.asint(e.val))
        if me.id in all_atoms(v):
            if cur is None or nest != before:
                R(False, "every node starts from zero in the cell that fills it", inst, e.where())
                return
            v = rewrite(v, lambda a: cur if a is me else None)
        cur, before = v, nest
    if cur is None:
        return
    srow = atom("ld", src, num(V["pv_"]))
    w = ZERO
    for j in (0, 1):
        for i in (0, 1):
            u = Poly.of(atom("ld", atom("ld", atom("ld", srow, (E[1] + num(j)).scale(8)), (E[0] + num(i)).scale(8)), D.scale(8)))
            fx, fy = div(S[0], rf[0]), div(S[1], rf[1])
            w = w + u * (fx if i else ONE - fx) * (fy if j else ONE - fy)
    R(equal(cur, w), "value is the bilinear interpolant", "refined " + nm, "%s\nvalue %s\nrequired %s" % (stores[-1].where(), str(cur)[:1500], str(w)[:1500]))


def implied(g, facts):
    return cases.same(ite(g, ONE, ZERO), ONE, True, facts=facts) is None
