"""Abstract execution of the PETSc vector protocol of one function.

The ordered effect summary (irx.Fn) is interpreted over symbolic vector contents:
    ('in', handle)            content on entry
    ('const', c)              all entries equal to c
    ('junk', id)              work vector as handed out
    ('sub', content, k)       k-th component of a composite content
    ('G', content)            ghosted local copy of a global content
    ('sum', ((coef, content), ...))   linear combination
    ('S', content)            sum over processes of local contributions (ADD scatter)
    ('I', content)            INSERT scatter of a local content
    ('op', name, args...)     result of an operator
Nothing is executed: this is an abstract interpretation of the source's effects."""
from canon import *

INSERT, ADD = 1, 2


def lin(*terms):
    d = {}
    order = []
    for c, t in terms:
        if t[0] == "sum":
            for c2, t2 in t[1]:
                k = t2
                if k not in d:
                    order.append(k)
                d[k] = d.get(k, ZERO) + c * c2
        elif t[0] == "const" and t[1] == ZERO:
            continue
        else:
            if t not in d:
                order.append(t)
            d[t] = d.get(t, ZERO) + c
    r = [(d[k], k) for k in order if d[k].t]
    if not r:
        return ("const", ZERO)
    if len(r) == 1 and r[0][0] == ONE:
        return r[0][1]
    return ("sum", tuple(sorted(r, key=lambda x: str(x))))


def show(t):
    if t[0] == "in":
        return str(t[1])
    if t[0] == "const":
        return str(t[1])
    if t[0] == "junk":
        return "<uninitialised %s>" % (t[1],)
    if t[0] == "sum":
        return " + ".join(("" if c == ONE else "%s*" % c) + show(x) for c, x in t[1])
    if t[0] == "op":
        return "%s(%s)" % (t[1], ", ".join(show(x) if isinstance(x, tuple) else str(x) for x in t[2:]))
    return "%s(%s)" % (t[0], ", ".join(show(x) if isinstance(x, tuple) else str(x) for x in t[1:]))


class Sim:
    """assume: function Atom -> Poly/None fixing the scenario (composite or not, ...)"""

    def __init__(self, F, fields, assume=None, sub=None):
        self.F = F
        self.fields = fields           # byte offsets of the petsc_vec members
        self.canon = Canon(sub, assume)
        self.c = {}                    # handle -> content
        self.pending = {}
        self.problems = []
        self.held = {}                 # resources: key -> effect
        self.order = []
        self.callbacks = {}

    # -------- values
    def h(self, v):
        """handle of a pointer value"""
        p = self.canon.ptr(self.F.asptr(v))
        return p.root if not p.off.t else ("p", p.root, p.off)

    def n(self, v):
        return self.canon.poly(self.F.asint(v))

    def guard(self, e):
        return self.canon.bdd(e.guard)

    def get(self, hd):
        if hd in self.c:
            return self.c[hd]
        if isinstance(hd, Atom) and hd.kind == "sub":
            p = self.get(hd.args[1])
            return p if p[0] == "const" else ("sub", p, hd.args[2])
        if isinstance(hd, Atom) and hd.kind == "out":
            return ("junk", hd.args[0])
        return ("in", hd)

    def put(self, hd, t):
        for k in [k for k in self.c if isinstance(k, Atom) and k.kind == "sub" and k.args[1] is hd]:
            del self.c[k]
        self.c[hd] = t

    def vecarg(self, e, k):
        """the petsc_vec object passed by reference as argument k of the call e"""
        p = self.F.asptr(e.args[k])
        r = {}
        for f, o in self.fields.items():
            r[f] = self.h(self.F.load(e.pre, Ptr(p.root, p.off + num(o)), 8, "ptr"))
        return r

    def bad(self, e, what):
        self.problems.append("%s\n%s" % (e.where(), what))

    # -------- the walk
    def run(self, effects=None, custom=None):
        for e in (self.F.effects if effects is None else effects):
            g = self.guard(e)
            if g is FALSE:
                continue
            if e.kind == "store":
                if e.root.kind == "alloca":
                    continue
                self.touch(e, g)
                continue
            if g is not TRUE:
                self.bad(e, "%s happens only if %s" % (e.name, g)) if e.name not in PURE_OK else None
                continue
            if custom and custom(self, e):
                continue
            f = getattr(self, "c_" + e.name, None)
            if f:
                f(e)
            elif e.name in PURE_OK or e.name.startswith("llvm."):
                pass
            elif e.name in MODELS and e.name not in ACTIVE:
                pass
            else:
                self.bad(e, "unexpected call %s" % e.name)
        return self

    def touch(self, e, g):
        r = e.root
        s = self.canon.poly(Poly.of(r))
        v = [a for a in (aget(i) for i in all_atoms(s)) if a.kind == "arr"]
        if v:
            hd = v[0].args[1]
            self.put(hd, ("op", "entry-wise store", self.get(hd), str(e.val)[:80]))
        else:
            self.bad(e, "writes %s + %s" % (r, e.ofs))

    def c_VecSet(self, e):
        self.put(self.h(e.args[0]), ("const", self.n(e.args[1])))

    def c_VecZeroEntries(self, e):
        self.put(self.h(e.args[0]), ("const", ZERO))

    def c_VecCopy(self, e):
        self.put(self.h(e.args[1]), self.get(self.h(e.args[0])))

    def c_VecScale(self, e):
        x = self.h(e.args[0])
        self.put(x, lin((self.n(e.args[1]), self.get(x))))

    def c_VecAXPY(self, e):
        y = self.h(e.args[0])
        self.put(y, lin((ONE, self.get(y)), (self.n(e.args[1]), self.get(self.h(e.args[2])))))

    def c_VecAYPX(self, e):
        y = self.h(e.args[0])
        self.put(y, lin((self.n(e.args[1]), self.get(y)), (ONE, self.get(self.h(e.args[2])))))

    def c_VecWAXPY(self, e):
        self.put(self.h(e.args[0]), lin((self.n(e.args[1]), self.get(self.h(e.args[2]))), (ONE, self.get(self.h(e.args[3])))))

    def _begin(self, kind, e, src, dst):
        self.pending[(kind, self.h(e.args[0]), src, dst, self.n(e.args[2]))] = (self.get(src), self.get(dst), e)

    def _end(self, kind, e, src, dst):
        k = (kind, self.h(e.args[0]), src, dst, self.n(e.args[2]))
        b = self.pending.pop(k, None)
        if b is None:
            self.bad(e, "%s without the matching Begin" % e.name)
            return
        if b[0] != self.get(src) or b[1] != self.get(dst):
            self.bad(e, "a vector is modified while its scatter is in progress")
        self._scatter(kind, e, src, dst)

    def _scatter(self, kind, e, src, dst):
        mode = self.n(e.args[2]).as_int()
        dm = self.h(e.args[0])
        if kind == "G" and mode == INSERT:
            self.put(dst, ("G", self.get(src), dm))
        elif kind == "L" and mode == ADD:
            self.put(dst, lin((ONE, self.get(dst)), (ONE, ("S", self.get(src), dm))))
        elif kind == "L" and mode == INSERT:
            self.put(dst, ("I", self.get(src), dm))
        else:
            self.bad(e, "scatter mode %s" % self.n(e.args[2]))

    def c_DMGlobalToLocalBegin(self, e):
        self._begin("G", e, self.h(e.args[1]), self.h(e.args[3]))

    def c_DMGlobalToLocalEnd(self, e):
        self._end("G", e, self.h(e.args[1]), self.h(e.args[3]))

    def c_DMGlobalToLocal(self, e):
        self._scatter("G", e, self.h(e.args[1]), self.h(e.args[3]))

    def c_DMLocalToGlobalBegin(self, e):
        self._begin("L", e, self.h(e.args[1]), self.h(e.args[3]))

    def c_DMLocalToGlobalEnd(self, e):
        self._end("L", e, self.h(e.args[1]), self.h(e.args[3]))

    def c_DMLocalToGlobal(self, e):
        self._scatter("L", e, self.h(e.args[1]), self.h(e.args[3]))

    # ---- resources
    def take(self, e, *k):
        if k in self.held:
            self.bad(e, "%s obtained twice" % (k,))
        self.held[k] = e

    def give(self, e, *k):
        if self.held.pop(k, None) is None:
            self.bad(e, "%s given back but not held" % ", ".join(map(str, k)))

    def c_DMGetLocalVector(self, e):
        p = self.F.asptr(e.args[1])
        self.take(e, "local vector", self.h(e.args[0]), atom("out", e.name, self.F.name, e.ins["id"]))

    def c_DMRestoreLocalVector(self, e):
        p = self.F.asptr(e.args[1])
        self.give(e, "local vector", self.h(e.args[0]), self.h(self.F.load(e.pre, p, 8, "ptr")))

    def _ga(k):
        def f(self, e):
            self.take(e, "array (%s)" % k, self.h(e.args[0]), self.h(e.args[1]))
        return f

    def _ra(k):
        def f(self, e):
            self.give(e, "array (%s)" % k, self.h(e.args[0]), self.h(e.args[1]))
        return f
    c_DMDAVecGetArrayDOF = _ga("rw")
    c_DMDAVecGetArrayDOFRead = _ga("ro")
    c_DMDAVecRestoreArrayDOF = _ra("rw")
    c_DMDAVecRestoreArrayDOFRead = _ra("ro")

    def _vals(self, e, k, ty="ptr", sz=8):
        n = self.n(e.args[2]).as_int()
        p = self.F.asptr(e.args[k])
        return [self.F.load(e.pre, Ptr(p.root, p.off + num(sz * j)), sz, ty) for j in range(n or 0)]

    def c_DMCompositeGetAccessArray(self, e):
        for i in self._vals(e, 3, "i32", 4):
            self.take(e, "component", self.h(e.args[0]), self.h(e.args[1]), atom("sub", self.h(e.args[0]), self.h(e.args[1]), self.n(i)))

    def c_DMCompositeRestoreAccessArray(self, e):
        for i, v in zip(self._vals(e, 3, "i32", 4), self._vals(e, 4)):
            hd = self.h(v)
            self.give(e, "component", self.h(e.args[0]), self.h(e.args[1]), hd)
            if isinstance(hd, Atom) and hd.kind == "sub" and hd.args[2] != self.n(i):
                self.bad(e, "component %s given back as %s" % (hd.args[2], self.n(i)))

    def done(self):
        """everything obtained was given back"""
        for k, e in self.held.items():
            self.bad(e, "%s is never given back" % ", ".join(map(str, k)))
        for k, b in self.pending.items():
            self.bad(b[2], "scatter started but never completed")
        return self.problems


ACTIVE = {"DMGetLocalVector", "DMRestoreLocalVector", "DMDAVecGetArrayDOF", "DMDAVecGetArrayDOFRead", "DMDAVecRestoreArrayDOF",
          "DMDAVecRestoreArrayDOFRead", "DMCompositeGetAccessArray", "DMCompositeRestoreAccessArray"}
PURE_OK = {"DMDAGetLocalInfo", "PetscObjectTypeCompare", "MatShellGetContext", "DMCompositeGetNumberDM", "DMCompositeGetEntries", "DMDAGetInfo",
           "DMDAGetCorners", "DMDAGetGhostCorners", "_ZN5cafes5petsc6get_DMEP5_p_DMi"}
