"""P27 what is borrowed or created for a while is given back exactly once"""
from irx import *
from cases import *
from canon import Canon
from p19 import head
import re
TITLE = "What is borrowed or created for a while is given back exactly once"
LEVEL = "proof"
TRUSTED = "clang 18 front end and -O2 IR; irdump; PETSc's get/restore, malloc/free and create/destroy calls as documented; calls into PETSc succeed; witness/shape.h"
EXPLAIN = "Typestate over the inlined code of every operation that takes something: for each variable that receives it, the calls that take and give it are folded along the paths as an exact condition (free before taking, held at every giving and every use, free at the end), with the same owner at both ends."
MIN_OBLIGATIONS = 60
CN = Canon()

WIT = '''
using A@ = ashape<@>; using V@ = geometry::vector<double,@>; using X@ = geometry::position<double,@>; using H@ = std::array<double,@>; using PV@ = petsc::petsc_vec<@>; using P@ = particle<A@>;
using B@ = geometry::box<int,@>; using Pb@ = problem::stokes<@>; using C@ = problem::particle_context<@,A@,Pb@>; using cr@ = std::conditional<@==2,double,V@>::type;
namespace std{ CAFES_REC(particle<A@>) }
extern "C" int w_mass@(DM dm, Vec x, Vec y, H@ const& h){ return fem::apply_mass_matrix<@>(dm,x,y,h); }
extern "C" int w_forcing@(DM dm, Vec v, fem::rhs_conditions<@> const&c, H@ const&h){ return fem::set_rhs<@,1,@>(dm,v,c,h);}
extern "C" int w_nullspace@(Pb@& s, DM m){ return s.CreatePressureNullSpace(m); }
extern "C" int w_control@(C@& c, Vec x, bool f){return problem::set_rhs_problem<@,C@>(c,x,f);}
extern "C" int w_mobility@(C@& c, Vec y, std::vector<V@> const& m, std::vector<cr@> const& x){return problem::compute_y(c,y,m,x);}
extern "C" int w_surface@(C@& c, Vec y){return problem::compute_y<@,C@>(c,y);}
extern "C" int w_forces@(std::vector<P@> const& p, Vec c, B@ const& b, std::vector<V@>& f, std::vector<cr@>& t, H@ const& h, bool s){return forces_torques_with_control(p,c,b,f,t,h,s);}
extern "C" int w_mesh@(DM& dm, std::array<int,@> const& n, std::array<PetscBool,@> const& p){ return fem::createMesh<@>(dm,n,p); }
extern "C" int w_preallocate@(problem::context<@>* u, problem::options<@> const& o, Mat* J, bool pc){ return PreallocateMat(u,o,MATAIJ,J,pc); }
'''
ONE = '''
extern "C" int w_rows(Mat& A, fem::dirichlet_conditions<2> const& bc){ return fem::SetDirichletOnMat<2>(A,bc); }
extern "C" int w_save(char const* path, char const* name, Vec sol, DM dm, std::array<double,2> const& h){ return io::save_hdf5<2>(path, name, sol, dm, h); }
'''
WHAT = {"mass": "mass product", "forcing": "forcing of a grid vector", "nullspace": "pressure kernel", "control": "right-hand side of a control", "mobility": "velocities read back",
        "surface": "surface values read back", "forces": "forces and torques", "mesh": "mesh", "preallocate": "matrix preallocation", "rows": "Dirichlet rows of a matrix", "save": "saved file"}

# take -> (give, variables that receive, arguments naming the owner)
PAIR = {}
for x in ("", "Read", "Write"):
    PAIR["VecGetArray" + x] = ("VecRestoreArray" + x, (1,), (0,))
    PAIR["DMDAVecGetArray" + x] = ("DMDAVecRestoreArray" + x, (2,), (0, 1))
    PAIR["DMDAVecGetArrayDOF" + x] = ("DMDAVecRestoreArrayDOF" + x, (2,), (0, 1))
for x in ("Global", "Local"):
    PAIR["DMGet%sVector" % x] = ("DMRestore%sVector" % x, (1,), (0,))
PAIR["VecGetSubVector"] = ("VecRestoreSubVector", (2,), (0, 1))
PAIR["ISGetIndices"] = ("ISRestoreIndices", (1,), (0,))
PAIR["ISLocalToGlobalMappingGetIndices"] = ("ISLocalToGlobalMappingRestoreIndices", (1,), (0,))
PAIR["DMCompositeGetAccess"] = ("DMCompositeRestoreAccess", None, (0, 1))
PAIR["DMCompositeGetLocalVectors"] = ("DMCompositeRestoreLocalVectors", None, (0,))
PAIR["DMCompositeGetAccessArray"] = ("DMCompositeRestoreAccessArray", (4,), (0, 1))
MADE = {"DMDACreate2d": -1, "DMDACreate3d": -1, "DMDACreate1d": -1, "DMCompositeCreate": 1, "DMClone": 1, "DMRefine": 2, "MatCreate": 1, "MatCreateShell": 6, "MatCreateNest": 6, "MatDuplicate": 2,
        "KSPCreate": 1, "VecCreate": 1, "VecCreateMPI": 3, "VecCreateSeq": 2, "DMCreateGlobalVector": 1, "DMCreateLocalVector": 1, "VecDuplicate": 1, "MatNullSpaceCreate": 4, "ISCreateGeneral": 4,
        "ISCreateStride": 4, "PetscViewerHDF5Open": 3, "PetscViewerASCIIOpen": 2, "PetscViewerVTKOpen": 3, "VecScatterCreate": 4, "MatCreateVecs": 1, "VecCreateNest": 4}
DEAD = {"DM": "DMDestroy", "Mat": "MatDestroy", "KSP": "KSPDestroy", "Vec": "VecDestroy", "MatNullSpace": "MatNullSpaceDestroy", "IS": "ISDestroy", "PetscViewer": "PetscViewerDestroy", "VecScatter": "VecScatterDestroy"}
GIVES = {p[0]: k for k, p in PAIR.items()}
DIRECT = re.compile(r"^(PetscMallocA|PetscFreeA|%s)$" % "|".join(list(PAIR) + list(GIVES) + list(MADE) + list(DEAD.values())))


def kind_of(n):
    if n == "DMCreateGlobalVector" or n == "DMCreateLocalVector" or n == "MatCreateVecs":
        return "VecDestroy"
    for k in sorted(DEAD, key=len, reverse=True):
        if n.startswith(k):
            return DEAD[k]
    return None


def callees(f):
    for b in f["blocks"]:
        for i in b["i"]:
            if i["op"] in ("call", "invoke"):
                yield i["callee"]


def involved(m):
    """functions that take or give something themselves or through another one; a grid-vector view is a whole (P10)"""
    view = {n for n in m.fns if re.search(r"petsc_vec<.*>::", m.dem.get(n, "").split("(")[0]) or re.search(r"petsc::(get_Vec|retore_Vec)\(", m.dem.get(n, ""))}
    ptr = {n for n in m.fns if any(c[0] in ("v", "gep", "glob") for c in callees(m.fns[n]))}
    R = {n for n in m.fns if n in ptr or any(c[0] == "fn" and DIRECT.match(c[1]) for c in callees(m.fns[n]))} - view
    while True:
        N = {n for n in m.fns if n not in R and n not in view and any(c[0] == "fn" and c[1] in R for c in callees(m.fns[n]))}
        if not N:
            return R, view
        R |= N


def run(cx):
    src = head() + "".join(WIT.replace("@", str(d)) for d in (2, 3)) + ONE
    a = cx.ir(src, noinline=[r"cafes::"], name="a")
    R, view = involved(a)
    keep = ["^" + re.escape(a.dem[n]) + "$" for n in a.fns if n in a.dem and n not in R and "cafes_check::" not in a.dem[n].split("(")[0]]
    m = cx.ir(src, noinline=keep, name="b")
    for w in sorted(n for n in m.fns if n.startswith("w_")):
        op = w[2:].rstrip("23")
        lab = WHAT[op] + (" %sD" % w[-1] if w[-1] in "23" else "")
        Ops(cx, m, w, lab).run()


class Event:
    pass


class Ops:
    def __init__(self, cx, m, w, lab):
        self.cx, self.m, self.lab = cx, m, lab
        self.F = Fn(m, w)

    # ---- what each call takes and gives
    def slot(self, v):
        p = CN.ptr(self.F.asptr(v))
        return (p.root, p.off)

    def indirect(self, e):
        p = getattr(e, "fptr", None)
        if p is None:
            return None
        s = str(p.root)
        return "malloc" if "PetscTrMalloc" in s else "free" if "PetscTrFree" in s else None

    def events(self):
        F = self.F
        r = []

        def add(e, what, slot, fam, owner=()):
            x = Event()
            x.e, x.what, x.slot, x.fam, x.owner = e, what, slot, fam, owner
            r.append(x)
        for e in F.effects:
            if e.kind != "call":
                continue
            n = e.name
            if n in PAIR or n in GIVES:
                k = n if n in PAIR else GIVES[n]
                give, slots, own = PAIR[k]
                if slots is None:
                    slots = range(len(own), len(e.args))
                ow = tuple(str(CN.val(e.args[j])) for j in own)
                for s in slots:
                    p = F.asptr(e.args[s])
                    if p.root.kind == "sym" and p.root.args[0] == "null":
                        continue
                    add(e, "take" if n in PAIR else "give", self.slot(e.args[s]), k, ow)
            elif n == "PetscMallocA":
                for k in range(F.asint(e.args[0]).as_int()):
                    add(e, "take", self.slot(e.args[6 + 2 * k]), "PetscMalloc")
            elif n == "PetscFreeA":
                for k in range(F.asint(e.args[0]).as_int()):
                    add(e, "give", self.slot(e.args[4 + k]), "PetscMalloc")
            elif self.indirect(e) == "malloc":
                add(e, "take", self.slot(e.args[5]), "PetscMalloc")
            elif self.indirect(e) == "free":
                add(e, "give", ("value", F.asptr(e.args[0])), "PetscMalloc")
            elif n in MADE and kind_of(n):
                add(e, "take", self.slot(e.args[MADE[n]]), kind_of(n))
            elif n in DEAD.values():
                add(e, "give", self.slot(e.args[0]), n)
            else:
                # a kept function that makes and returns an object
                d = self.m.dem.get(n, "")
                if re.match(r"_p_Mat\* ", d) and isinstance(e.ret, Ptr):
                    add(e, "take", ("ret", e.ret), "MatDestroy")
        return r

    # ---- flow
    def setup(self):
        F = self.F
        self.fwd = {}
        for b in F.idx:
            self.fwd[b] = [s for s in F.succ[b] if s in F.idx and F.idx[s] > F.idx[b]]
        self.memo = {}

    def below(self, b):
        """blocks reachable without a back edge"""
        if b not in self.memo:
            r, todo = set(), [b]
            while todo:
                x = todo.pop()
                for s in self.fwd[x]:
                    if s not in r:
                        r.add(s)
                        todo.append(s)
            self.memo[b] = r
        return self.memo[b]

    def lift(self, b, L):
        """condition under which b's part of loop L (None: the function) is reached"""
        F = self.F
        M = F.loop_of.get(b)
        while M is not L:
            if M is None:
                return None
            h = M.header
            if M.parent is L:
                c = FALSE
                for q in F.pred[h]:
                    if q not in M.body:
                        c = bor(c, F.path_cond(q, h, L))
                return c
            M = M.parent
        return F.rc[b]

    def pos(self, b, k):
        return (self.F.idx[b], k)

    def run(self):
        F, cx = self.F, self.cx
        self.setup()
        where = {}
        for b in F.idx:
            for k, i in enumerate(F.blocks[b]["i"]):
                where[i["id"]] = (b, k)
        self.where = where
        ev = self.events()
        cx.saw(self.lab)
        # match givers by value, and objects returned by kept functions, to their variable
        takes = [x for x in ev if x.what == "take"]
        res = []
        for x in takes:
            if x.slot[0] == "ret":
                # the variable that holds the returned object
                st = [e for e in F.effects if e.kind == "store" and isinstance(e.val, Ptr) and e.val == x.slot[1] and e.root.kind == "alloca"]
                home = [(e.root, CN.poly(e.ofs)) for e in st]
                x.value = x.slot[1]
                if home:
                    x.slot = home[0]
        for x in ev:
            if x.what == "give" and x.slot[0] == "value":
                v = x.slot[1]
                if v.root.kind == "sym" and v.root.args[0] == "null":
                    x.what = "none"
                    continue
                hit = [y for y in takes if y.slot[0] not in ("value", "ret") and y.fam == x.fam and self.content(x, y.slot) == v]
                if not hit:
                    cx.check(False, "given back", "%s, what is freed was taken" % self.lab, "%s\nfrees %s" % (x.e.where(), v))
                    x.what = "none"
                else:
                    x.slot = hit[0].slot
                    x.frees = True
        # a variable that was given the content of another one
        for x in ev:
            if x.what == "give" and not any(y.slot == x.slot and y.fam == x.fam for y in takes):
                v = self.content(x, x.slot)
                hit = [y for y in takes if y.fam == x.fam and (y.value.root == v.root if hasattr(y, "value") else y.slot[0] != "ret" and self.content(x, y.slot) == v)]
                if hit:
                    x.slot = hit[0].slot
        slots = []
        for x in ev:
            if x.what != "none" and (x.slot, x.fam) not in slots:
                slots.append((x.slot, x.fam))
        n = {}
        for s, fam in slots:
            k = n[fam] = n.get(fam, 0) + 1
            self.one(s, fam, [x for x in ev if x.what != "none" and x.slot == s and x.fam == fam], "%s, %s %d" % (self.lab, fam, k))
        cx.facts.setdefault("operations", []).append("%s: %d taken" % (self.lab, len(slots)))

    def content(self, x, slot):
        return self.F.asptr(self.F.load(self.F.copy_state(x.e.pre), Ptr(slot[0], slot[1]), 8, "ptr"))

    def one(self, slot, fam, ev, lab):
        F, cx = self.F, self.cx
        obj = fam in DEAD.values()
        local = slot[0].kind == "alloca" if slot[0] != "ret" else False
        takes = [x for x in ev if x.what == "take"]
        if obj and not local:
            if slot[0] == "ret":
                if self.returned(slot[1]):
                    return
                cx.check(False, "given back", lab + ", a temporary object is destroyed", "%s\nthe object is never destroyed" % takes[0].e.where())
            return
        loops = {tuple(x.e.loops) for x in ev}
        if not cx.check(len(loops) == 1, "given back", lab + ", taken and given as often", "\n".join("%s %s, inside %d loops" % (x.e.where(), x.what, len(x.e.loops)) for x in ev)):
            return
        L = ev[0].e.loops[-1] if ev[0].e.loops else None
        ev.sort(key=lambda x: self.pos(*self.where[x.e.ins["id"]]))
        held = FALSE
        own = None
        bad = []
        for x in ev:
            g = x.e.guard
            if x.what == "take":
                if self.possible(band(g, held)):
                    bad.append("%s\ntaken again while still held" % x.e.where())
                held = bor(held, g)
                if own is not None and x.owner != own[0] and self.possible(band(g, own[1])):
                    pass
                own = (x.owner, g)
            else:
                if self.possible(band(g, bnot(held))):
                    if not (fam == "PetscMalloc" and self.isnull(x)):
                        bad.append("%s\ngiven back %s" % (x.e.where(), "although not held" if held is FALSE else "also when it is not held (%s)" % str(band(g, bnot(held)))[:200]))
                if own is not None and x.owner != own[0]:
                    bad.append("%s\ngiven back to %s, taken from %s" % (x.e.where(), ", ".join(x.owner)[:200], ", ".join(own[0])[:200]))
                held = band(held, bnot(g))
        cx.check(not bad, "given back", lab + ", only what is held is given back, to its owner", "\n".join(bad))
        left = self.possible(held)
        if left and obj and self.handed(slot, takes):
            left = None
        cx.check(not left, "given back", lab + ", nothing is kept", "%s\nnot given back%s" % (takes[0].e.where() if takes else "", "" if held is TRUE else " when %s" % str(held)[:300]))
        self.uses(slot, fam, ev, L, lab, takes)

    def possible(self, b):
        return b is not FALSE and same(b, FALSE) is not None

    def isnull(self, x):
        v = self.content(x, x.slot)
        return v.root.kind == "sym" and v.root.args[0] == "null"

    def roots(self, v, out, depth=0):
        """atoms a value is made of"""
        seen = set()

        def go(p):
            if isinstance(p, Ptr):
                go(p.root)
                go(p.off)
            elif isinstance(p, Poly):
                for a in p.atoms():
                    go(a)
            elif isinstance(p, Atom):
                if p in seen:
                    return
                seen.add(p)
                out.add(p)
                for q in p.args:
                    go(q)
            elif isinstance(p, tuple):
                for q in p:
                    go(q)
        go(v)
        return out

    def marks(self, slot, takes):
        """the atoms that stand for what the variable holds after each taking"""
        r = set()
        for x in takes:
            if getattr(x, "value", None) is not None:
                r.add(x.value.root)
        return r

    def mentions(self, v, slot, marks):
        if v is None or isinstance(v, (str, int)):
            return False
        for a in self.roots(v, set()):
            if a in marks:
                return True
            if a.kind == "ld" and a.args[0] is slot[0] and a.args[1] == slot[1]:
                return True
        return False

    def handed(self, slot, takes):
        F = self.F
        mk = self.marks(slot, takes)
        for x in F.effects:
            if x.kind == "store" and x.root.kind != "alloca" and isinstance(x.val, Ptr) and self.mentions(x.val, slot, mk):
                return True
        return any(isinstance(v, Ptr) and self.mentions(v, slot, mk) for v in [F.ret] if v is not None) if hasattr(F, "ret") else False

    def returned(self, v):
        return False

    def uses(self, slot, fam, ev, L, lab, takes):
        F, cx = self.F, self.cx
        mk = self.marks(slot, takes)
        for x in takes:
            # what a modelled call stored in the variable
            nx = [y for y in ev if y is not x]
            for y in nx:
                v = self.content(y, slot)
                if v.root.kind in ("out", "ret"):
                    mk.add(v.root)
        mine = {x.e.ins["id"] for x in ev}
        bad, n = [], 0
        views = set()
        for e in F.effects:
            if e.kind == "call" and e.ins["id"] not in mine and re.search(r"petsc_vec<.*>::petsc_vec\(", self.m.dem.get(e.name, "")) and any(self.mentions(a, slot, mk) for a in e.args[1:]):
                views.add(CN.ptr(F.asptr(e.args[0])).root)
        for b in F.idx:
            for k, i in enumerate(F.blocks[b]["i"]):
                if i["id"] in mine:
                    continue
                vals, end = [], False
                if i["op"] == "load":
                    vals = [F.const(i["a"][0])]
                elif i["op"] == "store":
                    vals = [F.const(i["a"][1])]
                elif i["op"] in ("call", "invoke"):
                    vals = [F.const(a) for a in i["a"] if a[0] not in ("undef", "poison")]
                    d = self.m.dem.get(i["callee"][1], "") if i["callee"][0] == "fn" else ""
                    if views and "petsc_vec<" in d.split("(")[0] and "::~" not in d and CN.ptr(F.asptr(vals[0])).root in views:
                        end = True
                    elif re.search(r"petsc_vec<.*>::~", d):
                        vals = []
                    if i["callee"][0] == "fn" and i["callee"][1].startswith("llvm.lifetime"):
                        continue
                if not end and not any(self.mentions(v, slot, mk) for v in vals):
                    continue
                n += 1
                held = FALSE
                for x in ev:
                    xb, xk = self.where[x.e.ins["id"]]
                    if xb == b and xk > k or xb != b and b not in self.below(xb):
                        continue
                    held = bor(held, x.e.guard) if x.what == "take" else band(held, bnot(x.e.guard))
                g = self.lift(b, L)
                if g is None:
                    bad.append((i, "used outside of the loop that takes it"))
                elif self.possible(band(g, bnot(held))):
                    bad.append((i, "used %s" % ("when not held" if held is FALSE else "also when not held: %s" % str(band(g, bnot(held)))[:200])))

        def wh(i):
            l = i.get("loc")
            return "%s:%d" % (l[0].split("/cafes/")[-1], l[1]) if l else "?"
        cx.check(not bad, "not used afterwards", "%s" % lab, "\n".join("%s %s" % (wh(i), t) for i, t in bad[:4]))
        cx.facts["uses"] = cx.facts.get("uses", 0) + n
