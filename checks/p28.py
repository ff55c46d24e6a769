"""P28 the space reserved in the assembled matrices"""
from irx import *
from cases import *
import cases
from canon import Canon
from p19 import head
import itertools
TITLE = "Assembled matrices reserve exactly the entries their rows receive"
LEVEL = "proof"
TRUSTED = "clang 18 front end and -O2 IR; irdump; PETSc's partitions, ghost windows (width one), local-to-global mappings and preallocation calls as documented; calls into PETSc succeed"
EXPLAIN = "The index lists handed to the preallocation are reduced to closed forms in the loop counters (running positions by induction over the loop nest) and compared, per axis and for every kind of subdomain (closed or periodic, alone, first, inner or last), with the nodes whose elements share the row's node."
MIN_OBLIGATIONS = 150
WIT = '''
extern "C" int w_pre(problem::context<2>* u, problem::options<2> const& o, Mat* J, bool pc){ return PreallocateMat(u,o,MATAIJ,J,pc); }
extern "C" bool const* w_strain(problem::options<2> const& o){ return (bool const*)&o.strain_tensor; }
'''
AX = "xy"
MAP, ADD = "ISLocalToGlobalMappingApply", "index list"


def ge(p):
    return bnot(piece(p, lambda d: cmp_lt(d, ZERO, True)))


def piece(p, leaf):
    """a test on a piecewise value, pushed to its pieces"""
    v = cases._top(p) if not isinstance(p, BDD) else None
    if v is None or not cases._held(p, v):
        return leaf(p)
    return bite(algebra._mk(v, TRUE, FALSE), piece(cases._subst(p, {v: 1}), leaf), piece(cases._subst(p, {v: 0}), leaf))


def zero(p):
    return piece(p, lambda d: cmp_eq(d, ZERO))


def shifted(x, k):
    """an exact right shift, or None"""
    a = x.as_atom()
    if a is not None and a.kind == "ite":
        hi, lo = shifted(a.args[1], k), shifted(a.args[2], k)
        return None if hi is None or lo is None else ite(a.args[0], hi, lo)
    if k is None or k < 0 or any((Fraction(c) / 2 ** int(k)).denominator != 1 for c in x.t.values()):
        return None
    return x.scale(Fraction(1, 2 ** int(k)))


def flat(x, memo):
    """comparisons of piecewise values become comparisons of their pieces"""
    if isinstance(x, BDD):
        if x.v is None:
            return x
        if x not in memo:
            k = varkey(x.v)
            c = algebra._mk(x.v, TRUE, FALSE)
            if k[0] in ("lt", "eq") and isinstance(k[1], Poly):
                p = flat(k[1], memo)
                c = piece(p, lambda d: cmp_lt(d, ZERO) if k[0] == "lt" else cmp_eq(d, ZERO))
            memo[x] = bite(c, flat(x.hi, memo), flat(x.lo, memo))
        return memo[x]

    def f(a):
        if a.kind == "ite":
            return ite(flat(a.args[0], memo), flat(a.args[1], memo), flat(a.args[2], memo))
        if a.kind == "p2i" and a.args[0].root.kind == "out":
            return Poly.of(a.args[0].root) + a.args[0].off
        if a.kind == "fn" and a.args[0] == "fdivp2":
            x, k = (flat(y, memo) for y in a.args[1])
            q = shifted(x, k.as_const())
            if q is not None:
                return q
        return None
    return rewrite(x, f, memo.setdefault("p", {}))


class Part:
    """one kind of subdomain along an axis: what the grids say there, and what is known"""
    def __init__(self, a, lab, per, np1, **v):
        self.a, self.lab, self.per = a, lab, per
        M, S, N, q, b = (sym(k + a) for k in "MSNqb")
        g = dict(M=M, S=S, N=N)
        g.update(v)
        M, S, N = g["M"], g["S"], g["N"]
        self.M, self.S, self.N = M, S, N
        self.mv = M.scale(2) - (ZERO if per else ONE)
        self.Nv = g.get("Nv", N.scale(2))
        self.gp, self.gv = g["gp"], g["gv"]
        self.gnp, self.gnv = g["gnp"], g["gnv"]
        self.info = {}
        for w, t in (("p", (M, S, N, self.gp)), ("v", (self.mv, S.scale(2), self.Nv, self.gv))):
            for k, x in zip(("m%s", "%ss", "%sm", "g%ss"), t):
                self.info[k % a, w] = x
            self.info["b" + a, w] = num(3 if per else 0)
        self.one = np1
        self.facts = [ge(M - num(2)), ge(N - ONE), ge(S), ge(M - S - N)] + [ge(x) for x in g.get("facts", ())]


def parts(a):
    M, S, N = (sym(k + a) for k in "MSN")
    two = lambda p: p.scale(2)
    return [
        Part(a, "closed, whole", 0, 1, S=ZERO, N=M, Nv=two(M) - ONE, gp=ZERO, gv=ZERO, gnp=M, gnv=two(M) - ONE),
        Part(a, "closed, first", 0, 0, S=ZERO, gp=ZERO, gv=ZERO, gnp=N + ONE, gnv=two(N) + ONE, facts=[M - N - ONE]),
        Part(a, "closed, inner", 0, 0, gp=S - ONE, gv=two(S) - ONE, gnp=N + num(2), gnv=two(N) + num(2), facts=[S - ONE, M - S - N - ONE]),
        Part(a, "closed, last", 0, 0, S=M - N, Nv=two(N) - ONE, gp=M - N - ONE, gv=two(M - N) - ONE, gnp=N + ONE, gnv=two(N), facts=[M - N - ONE]),
        Part(a, "periodic, whole", 1, 1, S=ZERO, N=M, gp=-ONE, gv=-ONE, gnp=M + num(2), gnv=two(M) + num(2)),
        Part(a, "periodic, part", 1, 0, gp=S - ONE, gv=two(S) - ONE, gnp=N + num(2), gnv=two(N) + num(2), facts=[M - N - ONE]),
    ]


FIXED = {"mz": 1, "zs": 0, "zm": 1, "gzs": 0, "gzm": 1, "bz": 0, "p": 1}
NPROC = {"m": "x", "n": "y"}


def which(o):
    s = str(o)
    return {"entry(*(arg0), 0)": "v", "entry(*(arg0), 1)": "p"}.get(s)


def parity(p, rows):
    """bit operations on the (non-negative) row index 2q + b"""
    def f(a):
        if a.kind == "fn" and a.args[0] in ("or", "and", "idiv", "irem", "srem", "urem"):
            x, k = a.args[1]
            k = k.as_const() if isinstance(k, Poly) else None
            if isinstance(x, Poly) and x == ZERO:
                return num(-2) if (a.args[0], k) == ("or", -2) else ZERO
            for r, q, b in rows:
                if isinstance(x, Poly) and x == r:
                    if a.args[0] == "or" and k == -2:
                        return num(-2) + b
                    if a.args[0] == "and" and k == 1 or a.args[0].endswith("rem") and k == 2:
                        return b
                    if a.args[0] == "idiv" and k in (2, -2):
                        return q.scale(1 if k == 2 else -1)
        return None
    return rewrite(p, f, {}) if not isinstance(p, BDD) else rewrite_bdd(p, f, {})


class Block:
    """one row list / column list pair handed to the counting"""
    def __init__(self, cx, F, er, ec, effects, lo):
        self.cx, self.F, self.er, self.ec = cx, F, er, ec
        self.R, self.C = F.asptr(er.args[2]), F.asptr(ec.args[2])
        L = list(ec.loops)
        inside = lambda e: list(e.loops[:len(L)]) == L
        self.rows = [e for e in effects if e.kind == "store" and e.root is self.R.root and inside(e) and lo < e.order < er.order]
        self.cols = [e for e in effects if e.kind == "store" and e.root is self.C.root and inside(e) and lo < e.order < er.order and e not in self.rows]
        self.nouter = len(L)
        self.where = ec.where()

    # ---- what the loops range over
    def roles(self):
        """row loops -> axis or 'k'; loops of the stores -> axis or 'k'"""
        F = self.F
        plain = Canon({}, self.plain)
        self.role = {}
        self.kind = None
        dom = F.domain(self.ec)
        for t, n, g in dom:
            n = None if n is None else plain.poly(F.closed(n))
            r = None
            for a in AX:
                for w in "vp":
                    if n is not None and n == sym("%sm_%s" % (a, w)):
                        r = a
                        if self.kind not in (None, w):
                            return "rows of both grids"
                        self.kind = w
            if n == num(1):
                r = "1"
            elif n == num(2) and r is None:
                r = "k"
            if r is None:
                return "row loop over %s" % n
            self.role[t] = r
        if sorted(x for x in self.role.values() if x in AX) != list(AX):
            return "row loops %s" % sorted(self.role.values())
        tsub = {t: sym("t" + r) if r in AX else ZERO if r == "1" else sym("kr") for t, r in self.role.items()}
        plain = Canon(tsub, self.plain)
        for e in self.rows + self.cols:
            for t, n, g in F.domain(e)[self.nouter:]:
                if n is None:
                    return "a list built by a loop of unknown length"
                n = flat(parity(plain.poly(F.closed(n)), []), {})
                if n == num(2):
                    r = "k"
                else:
                    names = {str(x) for x in all_atoms(n).values() if x.kind == "sym"}
                    ax = {a for a in AX if names & {"t" + a, "b%s_v" % a, "b%s_p" % a, "m%s_v" % a, "m%s_p" % a, "%ss_v" % a}}
                    r = ax.pop() if len(ax) == 1 else "1" if n.as_const() == 1 else None
                if r is None:
                    return "a list built by a loop over %s" % str(n)[:120]
                self.role[t] = r
        return None

    @staticmethod
    def plain(a):
        if a.kind != "info":
            return None
        w = which(a.args[1])
        k = str(a.args[0])
        if w is None:
            return None
        if k in FIXED:
            return num(FIXED[k])
        if k == "dof":
            return num(2 if w == "v" else 1)
        return sym("%s_%s" % (k, w))

    def canon(self, ps):
        """reading of values when the subdomain is of the kinds ps (axis -> Part)"""
        sub, rows = {}, []
        for t, r in self.role.items():
            if r in AX:
                outer = t in self.outer
                if not outer:
                    sub[t] = sym("w" + r)
                elif self.kind == "p":
                    sub[t] = sym("q" + r) - (ps[r].S if r in ps else sym("xs".replace("x", r) + "_p"))
                else:
                    i = sym("q" + r).scale(2) + sym("b" + r)
                    sub[t] = i - (ps[r].S.scale(2) if r in ps else sym(r + "s_v"))
                    rows.append((i, sym("q" + r), sym("b" + r)))
            elif r == "1":
                sub[t] = ZERO
            else:
                sub[t] = sym("kr") if t in self.outer else sym("kc")

        def f(a):
            if a.kind != "info":
                return None
            w, k = which(a.args[1]), str(a.args[0])
            if w is None:
                return None
            for x in ps.values():
                if (k, w) in x.info:
                    return x.info[k, w]
                if x.one and NPROC.get(k) == x.a:
                    return ONE
            return self.plain(a)
        C = Canon(sub, f)

        def rd(v):
            v = self.F.closed(v) if isinstance(v, Poly) else v
            v = C.val(v)
            return flat(parity(v, rows), {}) if isinstance(v, (Poly, BDD)) else v
        return rd

    @property
    def outer(self):
        return {L.t for L in self.ec.loops}


def split_axes(v, w):
    """v = Y*gxm + X -> {x: X, y: Y}"""
    g = sym("gxm_%s" % w).as_atom()
    Y, X = ZERO, ZERO
    for m, c in v.t.items():
        e = [(i, k) for i, k in m if i == g.id]
        if e:
            if e[0][1] != 1:
                return None
            Y = Y + Poly({tuple(x for x in m if x[0] != g.id): c})
        else:
            X = X + Poly({m: c})
    return {"x": X, "y": Y}


def window(kind, cols, p, base, b):
    """offsets of the columns coupled to a row along an axis: first, last (relative to base)"""
    if kind == cols:
        m = p.mv if kind == "v" else p.M
        lo, hi = -ONE, ONE
        at = base
    elif kind == "p":
        m, at, lo, hi = p.mv, base.scale(2), num(-2), num(2)
    else:
        m, at, lo, hi = p.M, base, b - ONE, ONE
    if not p.per:
        lo = mx(lo, -at)
        hi = mn(hi, m - at - ONE)
    return at, lo, hi


def run(cx):
    m = cx.ir(head() + WIT)
    Fs = Fn(m, "w_strain")
    r = [Fs.asptr(x) for g, x in Fs.rets]
    cx.need(len(r) == 1, "where the strain-tensor option is kept")
    strain = r[0].off
    F = Fn(m, "w_pre")
    cx.saw("PreallocateMat<2>")
    ck = cx.check
    E = F.effects
    calls = lambda n: [e for e in E if e.kind == "call" and e.name == n]
    plain = Canon({}, Block.plain)

    def once(n):
        l = calls(n)
        ok = len(l) == 1 and not l[0].loops and l[0].guard is TRUE
        ck(ok, "done exactly once", n, "%d times" % len(l))
        return l[0] if ok else None
    ent = calls("DMCompositeGetEntries")
    s = lambda n: sym(n)
    ls = s("xm_v") * s("ym_v") * num(2) + s("xm_p") * s("ym_p")
    ts = s("mx_v") * s("my_v") * num(2) + s("mx_p") * s("my_p")
    st = F.final_state
    made, sized, mapped, seq, mpi = (once(n) for n in ("MatCreate", "MatSetSizes", "MatSetLocalToGlobalMapping", "MatSeqAIJSetPreallocation", "MatMPIAIJSetPreallocation"))
    ltog, dmset = once("DMGetLocalToGlobalMapping"), once("MatSetDM")
    if None in (made, sized, mapped, seq, mpi, ltog, dmset):
        return
    A = str(F.asptr(sized.args[0]))
    for e, k in ((mapped, 0), (seq, 0), (mpi, 0), (dmset, 0)):
        ck(str(F.asptr(e.args[k])) == A, "the same matrix throughout", e.name, "%s, created as %s" % (e.args[k], A))
    out = F.load(st, Ptr(F.argatoms[2], ZERO), 8, "ptr")
    ck(str(out) == A, "the matrix handed back", "J", "%s, created as %s" % (out, A))
    pack = str(F.asptr(ltog.args[0]))
    ck(str(F.asptr(dmset.args[1])) == pack, "the matrix lives on the problem's mesh", "MatSetDM", str(dmset.args[1]))
    lm = str(F.asptr(mapped.args[1]))
    for e, k in ((mapped, 2),) + tuple((x, 0) for x in calls(MAP)):
        ck(str(F.asptr(e.args[k])) == lm, "the mesh's own numbering", "%s %s" % (e.name, e.where()[-60:]), str(e.args[k]))
    for k, w, t in ((1, ls, "local rows"), (2, ls, "local columns"), (3, ts, "global rows"), (4, ts, "global columns")):
        v = plain.poly(F.asint(sized.args[k]))
        ck(equal(v, w), "matrix size", t, "computed %s\nrequired %s" % (v, w))
    dn, on = F.asptr(mpi.args[2]), F.asptr(mpi.args[4])
    ck(F.asptr(seq.args[2]) == dn and dn != on, "per-row counts", "counts handed to the matrix", "sequential %s, parallel %s and %s" % (seq.args[2], dn, on))
    size = {}
    for e in calls("PetscMallocA"):
        n = int(F.asint(e.args[0]).as_const())
        for k in range(n):
            size[e.ins["id"], k] = (plain.poly(F.asint(e.args[5 + 2 * k])), F.asint(e.args[1]), e)

    def room(p):
        """bytes a work array was given"""
        a = p.root
        if a.kind == "out" and a.args[0] == "PetscMalloc":
            return size.get((a.args[2], a.args[3]), (None,))[0], p.off
        if a.kind == "alloca":
            i = F.ins.get(a.args[1], {})
            n = [i["size"]] if i.get("op") == "alloca" else []
            return (num(n[0]) if n and n[0] > 0 else None), p.off
        return None, p.off
    for e in calls("MPI_Scan"):
        v = plain.poly(F.asint(F.load(e.pre, F.asptr(e.args[0]), 4, "i32")))
        ck(equal(v, ls), "per-row counts", "this process's range " + str(e.order), "computed %s\nrequired %s" % (v, ls))
    for p, t in ((dn, "own columns"), (on, "other columns")):
        z = size.get((p.root.args[2], p.root.args[3])) if p.root.kind == "out" else None
        ck(z is not None and equal(z[0], ls.scale(4)) and z[1] != ZERO, "per-row counts", "cleared, one per owned row: " + t, str(z and z[:2]))
    # ---- the lists
    ap = calls(MAP)
    ck(len(ap) % 2 == 0 and ap, "row and column lists in pairs", "lists", "%d" % len(ap))
    blocks, lo = [], -1
    for er, ec in zip(ap[::2], ap[1::2]):
        same_loops = list(er.loops) == list(ec.loops)
        ck(same_loops, "row and column lists in pairs", ec.where(), "")
        for e in (er, ec):
            ck(F.asptr(e.args[2]) == F.asptr(e.args[3]), "translated in place", e.where() + e.name[-1:] + str(e.order), "%s" % e.args[3])
        b = Block(cx, F, er, ec, E, lo)
        lo = ec.order
        bad = b.roles()
        ck(bad is None, "lists built by plain loops", b.where, bad or "")
        if bad is None:
            blocks.append(b)
    have = []
    for b in blocks:
        have.append(judge(cx, F, b, E, dn, on, room))
    stv = cmp_eq(F.load(F.new_state(), Ptr(F.argatoms[1], strain), 4, "i32"), ZERO)
    for tensor, pc in itertools.product((0, 1), (0, 1)):
        n = {}
        for h in have:
            if h is None:
                continue
            kind, cols, full, g = h
            # the tests this path depends on
            tab = {}
            for v in support(g):
                k = varkey(v)
                if str(k) == str(varkey(list(support(stv))[0])):
                    tab[v] = int(not tensor)
                elif "arg3" in str(show_var(v)):
                    tab[v] = pc
            g2 = cases._subst(g, tab)
            ck(g2 in (TRUE, FALSE), "reserved unconditionally", "%s rows, %s columns%s" % (kind, cols, " all components" if full else ""), str(g2)[:200])
            if g2 is TRUE:
                n.setdefault((kind, cols), []).append(full)
        lab = "%s, %s" % ("strain tensor" if tensor else "Laplacian", "preconditioner" if pc else "coupled matrix")
        need = [("v", "v"), ("p", "p")] + ([] if pc else [("p", "v"), ("v", "p")])
        nm = {"v": "velocity", "p": "pressure"}
        for k in need:
            l = n.get(k, [])
            ck(len(l) == 1 and (l[0] or not tensor or k != ("v", "v")), "every coupling has its space once", "%s: %s rows, %s columns" % (lab, nm[k[0]], nm[k[1]]), "reserved %s" % l)
        ck(set(n) <= set(need), "every coupling has its space once", lab + ": nothing else", str(set(n) - set(need)))


def judge(cx, F, b, E, dn, on, room):
    ck = cx.check
    rd = b.canon({})
    nm = {"v": "velocity", "p": "pressure"}
    dec = (sym("gxm_v") * sym("gym_v")).scale(2)
    # which columns: entries beyond the velocity numbers are pressures
    vals = []
    for e in b.cols:
        g = F.domain(e)[-1][2] if len(e.loops) > b.nouter else TRUE
        g = band(g, e.guard)
        vals.append([e, g, F.asint(e.val)])
    out = []
    for e, g, v in vals:                    # a choice between -1 and a number
        a = v.as_atom()
        if a is not None and a.kind == "ite" and num(-1) in (a.args[1], a.args[2]):
            x, y = a.args[1], a.args[2]
            out += [[e, band(g, a.args[0]), x], [e, band(g, bnot(a.args[0])), y]]
        else:
            out.append([e, g, v])
    vals = out
    real = [x for x in vals if x[2] != num(-1)]
    void = [x for x in vals if x[2] == num(-1)]
    lab0 = "%s rows" % nm[b.kind]
    if len(real) != 1 or len(void) > 1:
        ck(False, "one column list per row", "%s %s" % (lab0, b.where), "%d entries, %d left out" % (len(real), len(void)))
        return None
    e, g, v = real[0]
    V = rd(v)
    cols = "p" if any(m and sorted(x[0] for x in m) == sorted(x[0] for x in list(dec.t)[0]) for m in V.t) else "v"
    lab = "%s rows, %s columns" % (nm[b.kind], nm[cols])
    inner = [L for L in e.loops[b.nouter:]]
    roles = [b.role[L.t] for L in inner]
    comp = "k" in roles
    outk = "k" in [b.role[L.t] for L in b.ec.loops]
    lab += ", all components" if comp else ", one component" if outk else ""
    cx.saw("column list: " + lab)
    ck(sorted(x for x in roles if x in AX) == list(AX) and roles.count("k") <= 1, "the window is swept once", lab, "loops %s" % roles)
    # ---- the running position
    count = lambda L: F.domain(e)[list(e.loops).index(L)][1]
    facts = []
    for L in inner:
        facts.append(ge(rd(count(L)) - ONE))
        gd = rd(F.domain(e)[list(e.loops).index(L)][2])
        if L is not inner[-1]:
            facts.append(gd)
    for x, gx, vx in vals:
        Q = Chain(F, b, x, rd, facts + [rd(gx)] if len(vals) > 1 else facts)
        pos = Q.read(x.ofs - b.C.off, len(Q.inner) - 1)
        d = same(pos, Q.at(len(Q.inner) - 1).scale(4), True, facts=facts)
        if x is e:
            n = Q.read(F.asint(b.ec.args[1]), -1)
            d2 = same(n, Q.total, True, facts=facts)
            ck(d2 is None, "the whole list is handed over", lab, d2 or "")
        d = d or Q.prove()
        ck(d is None, "entries follow one another", lab + (" (left out)" if vx == num(-1) else ""), d or "")
    # ---- rows
    comps = "v" == b.kind
    for x in b.rows:
        V2 = rd(F.asint(x.val))
        rk = [b.role[L.t] for L in x.loops[b.nouter:]]
        kk = sym("kc") if rk == ["k"] else sym("kr") if outk else ZERO
        pos = {}
        if b.kind == "v":
            i = {a: sym("q" + a).scale(2) + sym("b" + a) - sym("g%ss_v" % a) for a in AX}
            want = (i["y"] * sym("gxm_v") + i["x"]).scale(2) + kk
        else:
            i = {a: sym("q" + a) - sym("g%ss_p" % a) for a in AX}
            want = dec + i["y"] * sym("gxm_p") + i["x"]
        ck(equal(V2, want), "the list's rows are the node's", lab, "computed %s\nrequired %s" % (V2, want))
        of = rd(x.ofs)
        ck(equal(of, (sym("kc").scale(4) if rk == ["k"] else ZERO) + rd(b.R.off)), "the list's rows are the node's", lab + ": position", str(of))
        ck(rk in ([], ["k"]) and (comps or not rk), "the list's rows are the node's", lab + ": loops", str(rk))
        nr = rd(F.asint(b.er.args[1]))
        ck(nr == (num(2) if rk else ONE), "the list's rows are the node's", lab + ": number", str(nr))
    ck(len(b.rows) == 1 and (not comps or outk or [b.role[L.t] for L in b.rows[0].loops[b.nouter:]] == ["k"]), "the list's rows are the node's", lab + ": every component", "%d" % len(b.rows))
    # ---- room
    big = {("v", "v"): 3, ("p", "p"): 3, ("p", "v"): 5, ("v", "p"): 3}[b.kind, cols]
    for p, need, t in ((b.C, num(4 * big * big * (2 if comp else 1)), "columns"), (b.R, num(4 if not comps or outk else 8), "rows")):
        z, off = room(p)
        k = None if z is None else (z - off - need).as_const()
        ck(k is not None and k >= 0, "lists fit their arrays", "%s: %s" % (lab, t), "%s bytes for %s" % (z, need))
    # ---- the columns
    gown = None
    for a in AX:
        for p in parts(a):
            R = b.canon({a: p})
            for bit in (0, 1) if b.kind == "v" else (0,):
                q = sym("q" + a)
                fix = Canon({sym("b" + a).as_atom(): num(bit)})
                f = list(p.facts) + [ge(q - p.S), ge(p.S + p.N - ONE - q)]
                base = q
                if b.kind == "v":
                    i = q.scale(2) + num(bit)
                    f.append(ge(p.S.scale(2) + p.Nv - ONE - i))
                    if cols == "v":
                        base = i
                at, lo, hi = window(b.kind, cols, p, base, num(bit))
                w = sym("w" + a)
                nn = hi - lo + ONE
                L = [L for L in inner if b.role[L.t] == a]
                if len(L) != 1:
                    continue
                L = L[0]
                case = "%s: %s axis %s%s" % (lab, a, p.lab, (", even node", ", odd node")[bit] if b.kind == "v" else "")
                got = fix.poly(R(count(L)))
                d = same(got, nn, True, facts=f)
                ck(d is None, "as many columns as nodes sharing an element", case, d or "")
                gd = fix.bdd(R(F.domain(e)[list(e.loops).index(L)][2])) if L is not inner[-1] or not void else TRUE
                c = case_of(cases_and(f + [bnot(gd)]), True)
                ck(c is None, "the window is swept", case, c or "")
                X = split_axes(fix.poly(R(v)) - (dec if cols == "p" else ZERO), cols)
                if X is None:
                    ck(False, "columns are the nodes sharing an element", case, str(v)[:200])
                    continue
                x = X[a]
                if cols == "v":
                    if a == "x":
                        x = x - sym("kc" if comp else "kr")
                    x = x.scale(Fraction(1, 2))
                gs, gn = (p.gv, p.gnv) if cols == "v" else (p.gp, p.gnp)
                f2 = f + [ge(w), ge(nn - ONE - w)]
                if not void:
                    want = at + lo + w - gs
                    d = same(x, want, True, facts=f2)
                    if d is not None and same(x, at + hi - w - gs, True, facts=f2) is None:
                        d = None
                    ck(d is None, "columns are the nodes sharing an element", case, d or "")
                    c = case_of(cases_and(f2 + [bnot(band(ge(want), ge(gn - ONE - want)))]), True)
                    ck(c is None, "columns lie in the ghosted window", case, c or "")
    if void:
        beyond(cx, F, b, e, g, v, void, inner, lab, count, comp)
    # ---- counting
    counting(cx, F, b, E, dn, on, lab)
    G = TRUE
    for (t, n_, gg), L in zip(F.domain(b.ec), b.ec.loops):
        G = band(G, gg)
    return b.kind, cols, comp, band(G, b.ec.guard)


def cases_and(l):
    r = TRUE
    for x in l:
        r = band(r, x)
    return r


class Chain:
    """the position of a push, by induction over the loops inside the row loops"""
    def __init__(self, F, b, x, rd, facts):
        self.F, self.rd, self.facts = F, rd, facts
        self.inner = list(x.loops[b.nouter:])
        dom = F.domain(x)[b.nouter:]
        self.n = [rd(n) for t, n, g in dom]
        self.sy = [rd(Poly.of(L.t)) for L in self.inner]
        self.step = []
        t = ONE
        for n in reversed(self.n):
            self.step.insert(0, t)
            t = t * n
        self.total = t
        self.lv = {}
        self.bad = None
        self.top = any(L.top for L in self.inner)

    def at(self, k):
        """position at the start of a round of loop k"""
        r = ZERO
        for j in range(k + 1):
            r = r + self.sy[j] * self.step[j]
        return r

    def last(self, p, k):
        """the loops inside loop k (of any branch) have just ended"""
        sub = {self.sy[j].as_atom(): self.n[j] - ONE for j in range(k + 1, len(self.inner))}
        return Canon(sub).poly(p)

    def read(self, p, k):
        """value p seen in loop k (-1: outside), running positions resolved"""
        F = self.F
        p = F.closed(p)
        for i in range(20):
            lvs = [(L, o) for L in F.loops.values() for o in L.others.values() if o["atom"] in set(all_atoms(p).values())]
            if not lvs:
                break
            sub = {}
            for L, o in lvs:
                j = self.level(L)
                if j is None:
                    self.bad = "a counter of another loop: %s" % o["atom"]
                    return ZERO
                self.lv.setdefault(o["atom"], (j, o))
                sub[o["atom"]] = self.at(j).scale(self.unit(o))
            p = Canon(sub).poly(p)
        return flat(self.last(self.rd(p), k), {})

    def unit(self, o):
        """positions are counted in entries, or in bytes when a pointer runs through the list"""
        return 4 if o.get("base") is not None else 1

    def level(self, L):
        for j, M in enumerate(self.inner):
            if M is L:
                return j
        return None

    def prove(self):
        done = set()
        while set(self.lv) - done:
            for a in list(self.lv):
                if a in done:
                    continue
                done.add(a)
                j, o = self.lv[a]
                if not isinstance(o["init"], Poly):
                    return "%s starts at %s" % (a, o["init"])
                d = same(self.read(o["init"], j), self.at(j - 1).scale(self.unit(o)), True, facts=self.facts)
                if d is not None:
                    return "start: " + d
                for v in o["latch"]:
                    want = (self.at(j) + self.step[j]).scale(self.unit(o))
                    d = same(self.read(self.F.latchval(o, v), j), want, True, facts=self.facts)
                    if d is not None:
                        return "one round: " + d
        return self.bad


def wrapped(x, facts):
    """remainders of quantities known to lie within a few periods of the range"""
    ok = {}

    def f(a):
        if a.kind == "fn" and a.args[0] in ("irem", "srem", "urem"):
            p, k = a.args[1]
            if a not in ok:
                ok[a] = case_of(cases_and(facts + [bnot(cases_and([ge(p + k - ONE), ge(k.scale(3) - ONE - p)]))]), True) is None
            if ok[a]:
                below = lambda m: piece(p - m, lambda d: cmp_lt(d, ZERO))
                return ite(below(k), p, ite(below(k.scale(2)), p - k, p - k.scale(2)))
        return None
    return rewrite_bdd(x, f, {}) if isinstance(x, BDD) else rewrite(x, f, {})


def beyond(cx, F, b, e, g, v, void, inner, lab, count, comp):
    """columns some of which this process only counts as another's"""
    ck = cx.check
    ev, gv, _ = void[0]
    for px, py in itertools.product(parts("x"), parts("y")):
        ps = {"x": px, "y": py}
        R = b.canon(ps)
        case = "%s: %s / %s" % (lab, px.lab, py.lab)
        f, own = [], []
        for a in AX:
            p = ps[a]
            q, w = sym("q" + a), sym("w" + a)
            at, lo, hi = window(b.kind, "v", p, q, ZERO)
            f += list(p.facts) + [ge(q - p.S), ge(p.S + p.N - ONE - q), ge(w), ge(hi - lo - w)]
            node = at + lo + w
            if p.per:
                node = ite(cmp_lt(node, ZERO, True), node + p.mv, ite(cmp_lt(p.mv - ONE, node, True), node - p.mv, node))
            own += [ge(node - p.S.scale(2)), ge(p.S.scale(2) + p.Nv - ONE - node)]
        npf = []
        for a, k in (("x", "m_v"), ("y", "n_v")):
            if not ps[a].one:
                npf.append(ge(sym(k) - num(2)))
        f += npf
        W = lambda x: flat(wrapped(x, f), {})
        G, Gv = W(R(g)), W(R(gv))
        cx.need(case_of(cases_and(f + own), True) is not None, "a subdomain of this kind")
        c = case_of(cases_and(f + own + [bnot(G)]), True)
        ck(c is None, "every owned column is listed", case, c or "")
        c = case_of(cases_and(f + [bnot(bor(G, Gv))]), True)
        ck(c is None, "every column is counted", case, c or "")
        c = case_of(cases_and(f + [G, Gv]), True)
        ck(c is None, "no column is counted twice", case, c or "")
        X = split_axes(W(R(v)), "v")
        if X is None:
            ck(False, "columns are the nodes sharing an element", case, str(v)[:200])
            continue
        for a in AX:
            p = ps[a]
            w = sym("w" + a)
            x = X[a]
            if a == "x":
                x = x - sym("kc")
            x = x.scale(Fraction(1, 2))
            at, lo, hi = window(b.kind, "v", p, sym("q" + a), ZERO)
            bad = None
            for node in (at + lo + w, at + hi - w):
                d = x - (node - p.gv)
                ok = zero(d)
                if p.per:
                    ok = bor(ok, bor(zero(d - p.mv), zero(d + p.mv)))
                ok = band(ok, band(ge(x), ge(p.gnv - ONE - x)))
                c = case_of(cases_and(f + [G, bnot(ok)]), True)
                if c is None:
                    bad = None
                    break
                bad = bad or c
            ck(bad is None, "columns are the nodes sharing an element", case + ": " + a, bad or "")


def counting(cx, F, b, E, dn, on, lab):
    """each entry adds one to its row's count, by the owner of its column"""
    ck = cx.check
    L = list(b.ec.loops)
    nxt = [e for e in E if e.kind == "call" and e.name == MAP and e.order > b.ec.order]
    hi = nxt[0].order if nxt else 10 ** 9
    cs = [e for e in E if e.kind == "store" and list(e.loops[:len(L)]) == L and b.ec.order < e.order < hi and len(e.loops) > len(L)]
    cs = [e for e in cs if e.root is dn.root or e.root is on.root or e.root.kind == "pite"]
    ck(len(cs) in (1, 2), "entries are counted by owner", lab, "%d counting steps" % len(cs))
    for e in cs:
        root = e.root
        opts = [(TRUE, Ptr(root, ZERO))] if root.kind != "pite" else [(root.args[0], root.args[1]), (bnot(root.args[0]), root.args[2])]
        lds = {a for c, p in opts for v in support(c) for a in all_atoms(varkey(v)[1]).values() if a.kind == "ld" and a.args[0] is b.C.root}
        ck(len(lds) == 1, "entries are counted by owner", lab + ": the column", str(lds)[:200])
        if len(lds) != 1:
            return
        col = lds.pop()
        old = F.asint(e.val) - ONE
        new = F.closed(old).as_atom()
        ck(new is not None and new.kind in ("ld", "ite"), "entries are counted by owner", lab + ": one more", str(e.val)[:200])
        scans = [x for x in E if x.kind == "call" and x.name == "MPI_Scan"]
        ck(len(scans) == 2, "entries are counted by owner", lab + ": ranges", "%d scans" % len(scans))
        if len(scans) != 2:
            return
        en = Poly.of(atom_at(F, scans[0].args[1]))
        n = Poly.of(atom_at(F, scans[0].args[0]))
        cases4 = {"last own": (lambda en, n: en - ONE, dn), "first own": (lambda en, n: en - n, dn), "next": (lambda en, n: en, on), "before": (lambda en, n: en - n - ONE, on)}
        for nmx, (k, want) in cases4.items():
            C = Canon({col: k(en, n)})
            ok = None
            for c, p in opts:
                c2 = C.bdd(c)
                f = ge(n - ONE)
                if case_of(band(f, c2), True) is None:
                    continue
                ok = (ok is None or ok) and p.root is want.root
            ck(bool(ok), "entries are counted by owner", "%s: %s" % (lab, nmx), str(root)[:300])


def atom_at(F, p):
    q = F.asptr(p)
    return atom("ld", q.root, q.off)
