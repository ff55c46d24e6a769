"""Common machinery for code that sweeps the elements/nodes of a DMDA box."""
from canon import *
import fem

AX = "xyz"
DM_BOUNDARY_PERIODIC = 3

PROBES = r'''
#include <cafes.hpp>
using namespace cafes;
#define FIX(v,n) const_cast<int &>((v).dof_) = n;
extern "C" double* w_at2(petsc::petsc_vec<2>&x, int i, int j){ return x.at(std::array<int,2>{{i,j}});}
extern "C" double* w_at3(petsc::petsc_vec<3>&x, int i, int j, int k){ return x.at(std::array<int,3>{{i,j,k}});}
extern "C" double* w_atg2(petsc::petsc_vec<2>&x, int i, int j){ return x.at_g(geometry::position<int,2>{i,j});}
extern "C" double* w_atg3(petsc::petsc_vec<3>&x, int i, int j, int k){ return x.at_g(geometry::position<int,3>{i,j,k});}
extern "C" DM w_dm2(petsc::petsc_vec<2>&x){ return x.dm_;}
extern "C" DM w_dm3(petsc::petsc_vec<3>&x){ return x.dm_;}
'''


def own(e):
    """a store made by the witness itself (it pins the number of components)"""
    return e.ins.get("fnm", "").startswith("w_") and not e.ins.get("inl")


class Grid:
    def __init__(self, m, d):
        self.d = d
        self.at = Fn(m, "w_at%d" % d)
        self.atg = Fn(m, "w_atg%d" % d)
        self.dmf = Fn(m, "w_dm%d" % d)
        self.E = [sym("E" + AX[a]) for a in range(d)]

    def _probe(self, F, argatom, idx):
        # the probed argument is first renamed to a private symbol so that it cannot be
        # confused with the witness's own parameters
        A0 = F.argatoms[0]
        me = atom("sym", "@vec")
        sub = {A0: Poly.of(me)}
        for a, i in zip(F.argatoms[1:], idx or []):
            sub[a] = i
        p = Canon(sub).ptr(F.rets[0][1])
        return Canon({me: Poly.of(argatom)}).ptr(p)

    def addr(self, argatom, idx, dof, glob=False):
        """canonical address of component dof of the node idx in the vector argument"""
        p = self._probe(self.atg if glob else self.at, argatom, idx)
        return Ptr(p.root, p.off + num(8 * dof) if not isinstance(dof, Poly) else p.off + dof.scale(8))

    def cell(self, argatom, idx, dof, glob=False):
        p = self.addr(argatom, idx, dof, glob)
        return atom("ld", p.root, p.off)

    def dm(self, argatom):
        return self._probe(self.dmf, argatom, None).root

    def start(self, dm, a):
        return info(dm, AX[a] + "s")

    def local(self, dm, a):
        return info(dm, AX[a] + "m")

    def glob(self, dm, a):
        return info(dm, "m" + AX[a])

    def periodic(self, dm, a):
        return cmp_eq(info(dm, "b" + AX[a]), num(DM_BOUNDARY_PERIODIC))

    def count(self, dm, a, elements=True):
        """number of owned nodes, or of elements whose first node is owned, along axis a"""
        n = self.local(dm, a)
        if not elements:
            return n
        last = cmp_eq(self.start(dm, a) + n, self.glob(dm, a))
        return n + ite(band(last, bnot(self.periodic(dm, a))), num(-1), ZERO)

    def loops(self, F, e, dm, elements=True):
        """match the loops around effect e to the axes.
        returns (substitution, problems)"""
        base = Canon()
        sub, probs = {}, []
        todo = set(range(self.d))
        for t, c, g in F.domain(e):
            if c is None:
                probs.append("loop of unknown trip count")
                continue
            c = base.poly(c)
            ax = [a for a in sorted(todo) if equal(c, self.count(dm, a, elements))]
            if not ax:
                probs.append("loop runs %s times" % c)
                continue
            a = ax[0]
            todo.discard(a)
            if g is not TRUE:
                probs.append("loop entered only if %s" % base.bdd(g))
            sub[t] = self.E[a] - self.start(dm, a)
        if todo:
            probs.append("no loop runs over the %s range of %s" % (", ".join(AX[a] for a in sorted(todo)), "elements" if elements else "nodes"))
        return sub, probs


def solve_template(tpl, act, var):
    """match act against tpl (Ptr, nested loads), binding the symbols of var (list of atoms).
    returns {atom: Poly} or None"""
    out = {}
    ids = {v.id: v for v in var}

    def poly(tp, ap):
        d = ap - tp
        for m, c in list(tp.t.items()):
            for i, e in m:
                if i in ids:
                    if len(m) != 1 or e != 1 or ids[i] in out:
                        return False
                    r = Poly({mm: cc for mm, cc in tp.t.items() if mm != m})
                    out[ids[i]] = (ap - r).scale(Fraction(1) / c)
                    return True
        return not d.t

    def go(tr, to, ar, ao):
        if tr is not ar:
            if tr.kind != "ld" or ar.kind != "ld":
                return False
            if not go(tr.args[0], tr.args[1], ar.args[0], ar.args[1]):
                return False
        return poly(to, ao)
    if not go(tpl.root, tpl.off, act.root, act.off):
        return None
    return out


def filled(F, e, k):
    """where the value a callback returns through its k-th argument ends up: the place given, or the
    place a local variable that held its former value (or zero) is copied to right after.  -> (place, copying store or None)"""
    p = F.asptr(e.args[k])
    if p.root.kind != "alloca":
        return p, None
    base = Canon()
    for s in F.effects:
        if s.kind != "store" or s.order < e.order or s.loops != e.loops or s.root.kind == "alloca":
            continue
        a = F.asint(s.val).as_atom() if isinstance(s.val, Poly) else None
        if a is None or a.kind != "ld" or a.args[0] is not p.root or a.args[1] != p.off or a.args[2] != (("call", F.name, e.ins["id"], k), 0):
            continue
        q = Ptr(s.root, s.ofs)
        was = base.poly(F.load(F.copy_state(e.pre), p, 8, "double"))
        now = base.poly(F.load(F.copy_state(e.pre), q, 8, "double"))
        if base.bdd(s.guard) is base.bdd(e.guard) and (equal(was, now) or equal(was, ZERO)):
            return q, s
    return p, None


class Region:
    """the set of (node, component) cells one effect ranges over"""
    def __init__(self, G, F, e, argatom, ptr, glob=True):
        self.ok = False
        self.why = ""
        base = Canon()
        self.doms = [(t, base.poly(c) if c is not None else None, base.bdd(g)) for t, c, g in F.domain(e)]
        self.guard = base.bdd(e.guard)
        for t, c, g in self.doms:
            self.guard = band(self.guard, g)
            if c is None:
                self.why = "loop of unknown trip count"
        I = [atom("sym", "@i%d" % a) for a in range(G.d)]
        p = Canon().ptr(ptr)
        tpl = G.addr(argatom, [Poly.of(i) for i in I], 0, glob)
        D = atom("sym", "@dof")
        tpl = Ptr(tpl.root, tpl.off + Poly.of(D).scale(8))
        b = solve_template(tpl, p, I + [D])
        if b is None:
            self.why = "address %s is not a node of the expected array" % p
            return
        self.dof = b[D].as_int()
        if self.dof is None:
            self.why = "component %s is not constant" % b[D]
            return
        self.idx = [b[i] for i in I]
        self.t = {}
        used = []
        for a in range(G.d):
            ts = [t for t, c, g in self.doms if t.id in all_atoms(self.idx[a])]
            if len(ts) > 1:
                self.why = "index along %s depends on several loops" % AX[a]
                return
            self.t[a] = ts[0] if ts else None
            used += ts
        if len(used) != len(set(used)):
            self.why = "one loop drives two axes"
            return
        free = [t for t, c, g in self.doms if t not in used and (c is None or not equal(c, ONE))]
        if free and not self.why:
            self.why = "repeated %s times" % free
        self.ok = not self.why

    def interval(self, a):
        """(first, number) along axis a; None when the stride is not 1"""
        t = self.t[a]
        if t is None:
            return self.idx[a], ONE
        z = rewrite(self.idx[a], lambda x: ZERO if x is t else None)
        s = self.idx[a] - z
        c = [c for tt, c, g in self.doms if tt is t][0]
        if equal(s, Poly.of(t)):
            return z, c
        if equal(s, -Poly.of(t)):
            return z - c + ONE, c
        return None
