"""P26 contact singularities in the equations and in the solution"""
from irx import *
from cases import *
from calculus import zero
from elems import Elems, K, I
from p19 import node, hat, corners, rd, ld, dem, CN, AX, IO, HERE, vecs, mx, mn
from p20 import sym
from p21 import pairs, psize
import re
TITLE = "Contact singularities enter equations and solutions as stated sums"
LEVEL = "proof"
TRUSTED = "clang 18 front end and -O2 IR; irdump; witness/recvec.h; real arithmetic in the sub-point counters"
EXPLAIN = "The sums are replayed for one symbolic pair, element, sub-point (or surface sample), corner and component; every increment, loop range and guard is compared with the defining formula."
MIN_OBLIGATIONS = 60
PRIM = [r"petsc_vec<.*>::(?!at)", r"singularity<.*>::singularity\(", r"::get_grad_u_sing", r"::get_p_sing", r"::get_u_sing", r"singularity<.*>::get_box\(", r"::get_pos_in", r"::get_pos_from", r"::contains\(", r"get_DM_bounds"]
FIELDS = ["flag", "scale", "cut", "end"]
WIT = '''#include "%s/witness/recvec.h"
#include <cafes.hpp>
using namespace cafes;
using S=geometry::circle<>; using P=particle<S>; using SG=singularity::singularity<S,2>;
namespace std{ CAFES_REC(P) }
struct FP { problem::context<2>* ctx; Vec sol, rhs; };
struct C { std::vector<P> particles; FP problem; };
extern "C" int w_f(C& c){ return singularity::add_singularity_in_fluid<2>(c); }
extern "C" int w_l(C& c, Vec v){ return singularity::add_singularity_to_last_sol<2>(c, v); }
using S3=geometry::sphere<>; using P3=particle<S3>; using SG3=singularity::singularity<S3,3>;
namespace std{ CAFES_REC(P3) }
struct FP3 { problem::context<3>* ctx; Vec sol, rhs; };
struct C3 { std::vector<P3> particles; FP3 problem; };
extern "C" int w_f3(C3& c){ return singularity::add_singularity_in_fluid<3>(c); }
extern "C" void w_lq3(SG3& s, void const **__restrict o){ o[0]=&s.is_singularity_; o[1]=&s.scale; o[2]=&s.cutoff_dist_; o[3]=&s+1; }
extern "C" void w_lc3(C3& c, void const **__restrict o){ o[0]=&c.particles; o[1]=&c.problem.ctx->dm; o[2]=&c.problem.ctx->h; o[3]=&c.problem.rhs; }
extern "C" void w_lv3(std::size_t*__restrict o){ petsc::petsc_vec<3>*v=0; o[0]=(std::size_t)&v->pv_; }
extern "C" void w_ps3(P3& s, void const **__restrict o){ o[0]=&s+1; }
extern "C" void w_lq(SG& s, void const **__restrict o){ o[0]=&s.is_singularity_; o[1]=&s.scale; o[2]=&s.cutoff_dist_; o[3]=&s+1; }
extern "C" void w_lc(C& c, void const **__restrict o){ o[0]=&c.particles; o[1]=&c.problem.ctx->dm; o[2]=&c.problem.ctx->h; o[3]=&c.problem.rhs; }
extern "C" void w_lv(std::size_t*__restrict o){ petsc::petsc_vec<2>*v=0; o[0]=(std::size_t)&v->pv_; }
extern "C" void w_ps2(P& s, void const **__restrict o){ o[0]=&s+1; }
''' % HERE
R = "singular sums"


def keepf(m):
    """which arguments a call leaves as they are: what a const method or a reference to const says"""
    memo = {}

    def f(name, k):
        if name not in memo:
            d = m.dem.get(name)
            r = ()
            if d and "(" in d and not name.startswith("llvm."):
                head_, _, rest = d.partition("(")
                args, depth, cur = [], 0, ""
                for c in rest:
                    if c in "<([":
                        depth += 1
                    if c in ">)]":
                        if c == ")" and depth == 0:
                            break
                        depth -= 1
                    if c == "," and depth == 0:
                        args.append(cur)
                        cur = ""
                    else:
                        cur += c
                args.append(cur)
                r = (d.rstrip().endswith(" const"), [a.strip().endswith("const&") for a in args])
            memo[name] = r
        r = memo[name]
        if leaves(m, name, k):
            return True
        if not r or name not in m.fns:
            return False
        # method: this, then parameters, possibly after a place for the result
        n = len(m.fns[name]["args"]) - len(r[1])
        return (r[0] and k == n - 1) if 0 <= k < n else k - n < len(r[1]) and r[1][k - n]
    return f


def origin(F, p, e):
    """what a pointer handed to e denotes, through whole-object copies made before"""
    q = CN.ptr(F.asptr(p))
    for _ in range(4):
        if q.root.kind != "alloca":
            break
        c = [y for y in F.effects if y.kind == "call" and re.match(r"llvm\.mem(cpy|move)", y.name) and CN.ptr(F.asptr(y.args[0])) == q and y.order < e.order]
        if len(c) != 1:
            break
        q = CN.ptr(F.asptr(c[0].args[1]))
    return q


def copies(F, q):
    """every place an object was copied to as a whole"""
    r = [q]
    for y in F.effects:
        if y.kind == "call" and re.match(r"llvm\.mem(cpy|move)", y.name) and CN.ptr(F.asptr(y.args[1])) in r:
            r.append(CN.ptr(F.asptr(y.args[0])))
    return r


def corner_words(F, e, d):
    """the numbers of a range a call returns"""
    if d == 3:
        p = CN.ptr(F.asptr(e.args[0]))
        return [Poly.of(atom("ld", p.root, p.off + num(4 * k))) for k in range(6)]
    r = e.ret[1] if isinstance(e.ret, tuple) else e.ret.as_atom()
    w = [Poly.of(atom("ev", r, (k,))) for k in range(2)]
    return [w[k // 2] if k % 2 == 0 else fn("fdivp2", w[k // 2], num(32)) for k in range(4)]


def one(cx, F, m, pat, lab, what):
    es = [e for e in F.effects if e.kind == "call" and re.search(pat, dem(F, m, e))]
    return es[0] if cx.check(len(es) == 1, R, "%s, %s" % (lab, what), "%d times\n%s" % (len(es), "\n".join(e.where() for e in es[:3]))) else None


def unabs(b):
    """comparisons with an absolute value, by the sign of what it is taken of"""
    if b.v is None:
        return b
    k = varkey(b.v)
    v = bvar(k)
    if k[0] == "lt":
        for a in k[1].atoms():
            if a.kind == "fn" and a.args[0] == "fabs":
                y = a.args[1][0]
                put = lambda z: unabs(cmp_lt(rewrite(k[1], lambda x: z if x is a else None, {}), ZERO))
                v = bite(cmp_lt(y, ZERO), put(-y), put(y))
                break
    return bite(v, unabs(b.hi), unabs(b.lo))


def sums(cx, m, w, kind, d=2):
    F = Fn(m, w, keep=keepf(m))
    lab = ("right-hand side" if kind == "weak" else "solution") + (" in 3D" if d == 3 else "")
    sfx = "3" if d == 3 else ""
    cx.saw("singular part, " + lab)
    G = Fn(m, "w_lc" + sfx)
    at_ = [CN.ptr(G.asptr(G.load(G.final_state, Ptr(G.argatoms[1], num(8 * k)), 8, "ptr"))) for k in range(4)]
    back = {G.argatoms[0]: F.argatoms[0]}

    def on(p):
        f = lambda a: Poly.of(back[a]) if a in back else None
        return Ptr(rewrite(Poly.of(p.root), f, {}).as_atom(), rewrite(p.off, f, {}))
    ps, dmp, hp, rhsp = map(on, at_)
    h = [rd(hp, 8 * a) for a in range(d)]
    vec = ld(rhsp) if kind == "weak" else Ptr(F.argatoms[1], ZERO)
    G = Fn(m, "w_lq" + sfx)
    q = [CN.ptr(G.asptr(G.load(G.final_state, Ptr(G.argatoms[1], num(8 * k)), 8, "ptr"))).off.as_int() for k in range(4)]
    cx.need(None not in q, "layout of a singularity not found")
    flag, scale, cut, size_ = q
    lay = type("L", (), {})()
    lay.pv, lay.dim = outval(Fn(m, "w_lv" + sfx), 0, 0).as_int(), d
    # ---- the field
    V = vecs(F, m)
    if not cx.check(len(V) == 1, R, lab + ", field", "%d views" % len(V)):
        return
    v, (dm, vc, en, ro, ce) = next(iter(V.items()))
    cx.check(dm == ld(dmp) and vc == vec and en == ZERO and ro is FALSE and CN.bdd(ce.guard) is TRUE and not ce.loops, R, lab + ", velocity, opened for writing", "%s\n%s of %s" % (ce.where(), en, vc))
    bo = one(cx, F, m, r"get_DM_bounds", lab, "owned elements")
    gb = one(cx, F, m, r"::get_box\(", lab, "range of the pair")
    if bo is None or gb is None:
        return
    a = bo.args[1:] if d == 3 else bo.args
    g = CN.ptr(F.asptr(a[0]))
    g = CN.ptr(F.asptr(F.load(bo.pre, F.asptr(a[0]), 8, "ptr"))) if g.root.kind == "alloca" else ld(g)
    cx.check(g == ld(dmp) and (len(a) < 3 or F.asint(a[1]) == ZERO) and CN.bdd(a[-1]) is TRUE and CN.bdd(bo.guard) is TRUE and not bo.loops, R, lab + ", elements of the velocity grid the process owns", "%s\n%s" % (bo.where(), a))
    P = pairs(cx, F, m, lab, ps, psize(cx, m, d), h[0], R)
    if P is None:
        return
    Ls2, pa, pb, ob, ct, term = P
    obs = copies(F, ob)
    fld = lambda o: Poly.of(atom("ld", ob.root, ob.off + num(o)))

    names = {}
    for e, nm in ((bo, "own"), (gb, "box")):
        for k, x in enumerate(corner_words(F, e, d)):
            names[CN.poly(x).as_atom()] = sym("%s %s %s" % (nm, ("from", "to")[k // d], AX[k % d]))

    def norm(x):
        if x in names:
            return names[x]
        if x.kind == "ld" and any(x.args[0] is c.root for c in obs):
            c = [c for c in obs if x.args[0] is c.root][0]
            return Poly.of(atom("ld", ob.root, ob.off + x.args[1] - c.off))
        return None
    isob = lambda p, e: any(CN.ptr(F.asptr(p)) == c for c in obs)
    flagged = CN.bdd(bnot(cmp_eq(fld(flag), ZERO)))
    cx.check(gb.loops[:2] == Ls2 and len(gb.loops) == 2 and isob(gb.args[1 if d == 3 else 0], gb), R, lab + ", range of the same pair", gb.where())
    hs = gb.args[d - 1:]
    got = [CN.poly(F.asint(x)) for x in hs] if len(hs) == d else [CN.poly(F.asint(F.load(gb.pre, Ptr(F.asptr(hs[0]).root, F.asptr(hs[0]).off + num(8 * k)), 8, "double"))) for k in range(d)]
    cx.check(got == h, R, lab + ", range in cells of the velocity grid", "%s\n%s" % (gb.where(), got))
    # ---- stores
    st = [e for e in F.effects if e.kind == "store" and e.root.kind != "alloca" or e.kind == "call" and re.match(r"llvm\.mem", e.name) and CN.ptr(F.asptr(e.args[0])).root.kind != "alloca"]
    st = [e for e in st if e.kind == "store" or F.asint(e.args[2]) != ZERO]
    if not cx.check(bool(st) and all(e.kind == "store" and [id(x) for x in e.loops] == [id(x) for x in st[0].loops] for e in st) and len(st[0].loops) == 2 + 2 * d and st[0].loops[:2] == Ls2, R, lab + ", one nest over pairs, elements and sub-points", "\n".join(e.where() for e in st[:2])):
        return
    Ls = st[0].loops
    E = Elems(F, lambda q: None)
    val = lambda x, e: rewrite(E.value(x, Ls, e), norm, {})

    class X:
        loops = Ls
    dom = [(rewrite(E.tsub(CN.poly(c), Ls), norm, {}) if c is not None else None, rewrite_bdd(E.tbdd(g, Ls), norm, {})) for t, c, g in F.domain(X)]
    B, pb_ = ([names[CN.poly(x).as_atom()] for x in corner_words(F, e, d)] for e in (bo, gb))
    lo = [mx(B[a], pb_[a]) for a in range(d)]
    N = [mn(B[d + a], pb_[d + a]) - lo[a] for a in range(d)]
    sc = fld(scale)
    meet = TRUE
    for a in range(d):
        for x in (B, pb_):
            for y in (B, pb_):
                meet = band(meet, cmp_lt(y[a], x[d + a], True))
    overlap = TRUE
    for a in range(d):
        overlap = band(overlap, band(bnot(cmp_lt(pb_[d + a], B[a], True)), bnot(cmp_lt(B[d + a], pb_[a], True))))
    pos_ = [cmp_lt(ZERO, sc), cmp_lt(ZERO, sc, True), cmp_lt(ZERO, fn("ceil", sc), True)]
    facts = [overlap, flagged] + pos_
    prim = [e for e in F.effects if e.kind == "call" and len(e.loops) == 2 + 2 * d]
    ins = [e for e in prim if re.search(r"::contains\(", dem(F, m, e))]
    if not cx.check(len(ins) == 2, R, lab + ", inside tests", "%d tests" % len(ins)):
        return
    who = {}
    for e in ins:
        o = origin(F, e.args[0], e)
        o = Ptr(o.root, term(o.off))
        for k, x in enumerate((pa, pb)):
            if o.root is ld(ps).root and o.off == x.scale(psize(cx, m, d)):
                who[k] = e
    cx.check(sorted(who) == [0, 1], R, lab + ", both particles of the pair", str([str(origin(F, e.args[0], e)) for e in ins]))

    def point(e, args):
        """coordinates of the point handed over"""
        if len(args) == d:
            return [val(F.asint(x), e) for x in args]
        p = F.asptr(args[0])
        return [val(F.asint(F.load(e.pre, Ptr(p.root, p.off + num(8 * k)), 8, "double")), e) for k in range(d)]
    # ---- which loop is which
    x0 = point(ins[0], ins[0].args[1:])
    el, sub, used = [], [], set()
    for a in range(d):
        hit = None
        for j in range(1, 1 + 2 * d):
            for k in range(1, 1 + 2 * d):
                if hit is None and j != k and not {j, k} & used:
                    want = (lo[a] + I[j] + div(I[k], sc)) * h[a]
                    if same(x0[a], want, facts=facts) is None:
                        hit = (j, k)
        if not cx.check(hit is not None, R, "%s, point along %s" % (lab, AX[a]), "%s\n%s" % (ins[0].where(), str(x0[a])[:400])):
            return
        j, k = hit
        used |= {j, k}
        el.append(I[j])
        sub.append(I[k])
        cj, ck = dom[j + 1][0], dom[k + 1][0]
        r = "open loop" if cj is None else same(ite(dom[j + 1][1], cj, ZERO), N[a], True, facts=facts + [meet])
        cx.check(r is None, R, "%s, elements along %s" % (lab, AX[a]), "%s elements: %s" % (cj, str(r)[:400]))
        r = "open loop" if ck is None else None if ck == fn("ceil", sc) or ck == sc else "other"
        cx.check(r is None, R, "%s, sub-points along %s" % (lab, AX[a]), "%s sub-points" % ck)
    pt = [(lo[a] + el[a] + div(sub[a], sc)) * h[a] for a in range(d)]
    nest = TRUE
    for c, g in dom[2:]:
        nest = band(nest, g)
    r = same(nest, flagged, True, facts=pos_ + [meet])
    cx.check(r is None, R, lab + ", pairs in contact whose range meets the elements", "only if %s" % str(r)[:400])
    for t, g in F.entered_empty(X)[-2 * d:]:
        r = same(rewrite_bdd(E.tbdd(g, Ls), norm, {}), FALSE, True, facts=pos_)
        cx.check(r is None, R, lab + ", empty ranges", "entered: %s" % str(r)[:400])
    # ---- primitives
    prims = {}
    pats = {"ref": r"::get_pos_in_part_ref\(", "grad": r"::get_grad_u_sing\(", "p": r"::get_p_sing\(", "u": r"::get_u_sing\("}
    for e in prim:
        for k, pat in pats.items():
            if re.search(pat, dem(F, m, e)):
                prims.setdefault(k, []).append(e)
    want = (["ref"] if d == 2 else []) + (["grad", "p"] if kind == "weak" else ["u"])
    if not cx.check(sorted(prims) == sorted(want) and all(len(x) == 1 for x in prims.values()), R, lab + ", fields of the pair", str({k: len(x) for k, x in prims.items()})):
        return
    for k, (e,) in prims.items():
        args = [x for x in e.args]
        sret = k == "grad"
        o, args = (args[1], args[2:]) if sret else (args[0], args[1:])
        cx.check(isob(o, e), R, "%s, %s of the same pair" % (lab, k), e.where())
        x = point(e, args)
        ok = all(same(x[a], pt[a], facts=facts) is None for a in range(d))
        cx.check(ok, R, "%s, %s at the sub-point" % (lab, k), "%s\nat %s" % (e.where(), str(x)[:400]))
    for k, e in who.items():
        x = point(e, e.args[1:])
        cx.check(all(same(x[a], pt[a], facts=facts) is None for a in range(d)), R, "%s, particle %d at the sub-point" % (lab, k + 1), "%s\nat %s" % (e.where(), str(x)[:400]))

    def ret(e, k):
        r = e.ret[1] if isinstance(e.ret, tuple) else e.ret.as_atom()
        return Poly.of(atom("ev", r, (k,)))
    near = TRUE         # in 3D the fields themselves end at the cut-off
    if d == 2:
        y = ret(prims["ref"][0], 1)
        c = fld(cut)
        near = band(bnot(cmp_lt(c, y)), bnot(cmp_lt(y, -c)))
    out = band(bnot(F.asbool(who[0].ret)), bnot(F.asbool(who[1].ret))) if len(who) == 2 else TRUE
    req = band(E.tbdd(out, Ls), band(near, flagged))
    for e in st:
        gd = unabs(rewrite_bdd(E.tbdd(e.guard, Ls, e), norm, {}))
        r = same(ite(gd, ONE, ZERO), ite(req, ONE, ZERO), facts=facts + [meet])
        if not cx.check(r is None, R, lab + ", outside both particles and within the cut-off", "%s\n%s" % (e.where(), str(r)[:400])):
            return
    # ---- increments
    xs = [div(sub[a], sc) * h[a] for a in range(d)]
    cells = {}
    for cn in corners(d):
        for a in range(d):
            cells[(cn, a)] = node(v, lay, [lo[b] + el[b] + num(cn[b]) for b in range(d)], a)
    inc = {k: ZERO for k in cells}
    base = {}
    for e in st:
        p = E.addr(Ptr(e.root, e.ofs), Ls)
        p = Ptr(rewrite(Poly.of(p.root), norm, {}).as_atom(), rewrite(p.off, norm, {}))
        hit = [k for k, q_ in cells.items() if q_ == p]
        if not hit:
            hit = [k for k, q_ in cells.items() if same(q_.poly(), p.poly(), True, facts=facts) is None]
        if not cx.check(len(hit) == 1, R, lab + ", corners of the element", "%s\n%s" % (e.where(), str(p)[:400])):
            return
        x = val(F.asint(e.val), e)
        # what the value is built on: the cell before the element, or the cell after earlier additions
        old = {z for z in all_atoms(F.asint(e.val)).values() if z.kind == "ld" and z.args[0] is e.root and z.args[1] == e.ofs}
        y = x - Poly.of(atom("ld", p.root, p.off))
        b0, i0 = base.get(hit[0], (old, ZERO))
        base[hit[0]] = (old, i0 if old == b0 else inc[hit[0]])
        inc[hit[0]] = base[hit[0]][1] + y
    sret = CN.ptr(F.asptr(prims["grad"][0].args[0])) if kind == "weak" else None
    for (cn, a), got in sorted(inc.items(), key=lambda z: z[0]):
        if kind == "weak":
            gr = lambda i, j: Poly.of(atom("ld", sret.root, sret.off + num(8 * (d * i + j))))
            lam = lambda b: (div(xs[b], h[b]) if cn[b] else ONE - div(xs[b], h[b]))

            def slope(b):
                z = div(ONE if cn[b] else -ONE, h[b])
                for q in range(d):
                    z = z * lam(q) if q != b else z
                return z
            dphi = [slope(b) for b in range(d)]
            r = prims["p"][0].ret
            p_ = Poly.of(r.as_atom()) if isinstance(r, Poly) else Poly.of(r[1])
            w_ = p_ * dphi[a]
            for b in range(d):
                w_ = w_ - gr(a, b) * dphi[b]
            for b in range(d):
                w_ = w_ * h[b]
        else:
            w_ = ret(prims["u"][0], a) * hat(cn, xs, h)
        for b in range(d):
            w_ = div(w_, sc)
        ok = zero(got - w_) or same(got, w_, facts=facts) is None
        cx.check(ok, R, "%s, corner %s, %s" % (lab, cn, AX[a]), "adds %s" % str(got)[:500])
    # ---- steps
    first, last = min(e.order for e in F.effects if e.loops), max(e.order for e in F.effects if e.loops)
    mine = lambda e: F.asptr(e.args[0]).root is v and F.asptr(e.args[0]).off == ZERO
    for pat, what, num_, before in ((r"petsc_vec<.*>::fill\(", "local contributions start from 0", 0, True), (r"::local_to_global\(", "added over processes", 2, False)):
        e = one(cx, F, m, pat, lab, what)
        if e is not None:
            ok = mine(e) and CN.poly(F.asint(e.args[1])).as_int() == num_ and CN.bdd(e.guard) is TRUE and not e.loops and (e.order < first if before else e.order > last)
            cx.check(ok, R, lab + ", " + what, "%s\n%s" % (e.where(), str(e)[:400]))
    known = PRIM[1:] + [r"petsc_vec<.*>::(petsc_vec|~petsc_vec|fill|local_to_global)\(", IO, r"^llvm\.", r"intersect|box_inside"]
    for e in F.effects:
        if e.kind == "call" and not any(re.search(k, dem(F, m, e)) or re.search(k, e.name) for k in known):
            cx.check(False, "no other effect", lab, "%s\n%s" % (e.where(), e.name))


def run(cx):
    m = cx.ir(WIT, noinline=PRIM)
    sums(cx, m, "w_f", "weak")
    sums(cx, m, "w_l", "average")
    sums(cx, m, "w_f3", "weak", 3)
