"""Forward dataflow over optimised SSA form.

For one function: every SSA value gets a normal form (algebra.Poly / BDD / vector
of values); memory is tracked per (root object, symbolic byte offset); control
merges become gated values; loops are summarised by one generic iteration with
induction variables in closed form.  The result is an *effect summary*: ordered
guarded stores / calls with symbolic operands, plus return values.
"""
import json, os
from algebra import *


class Giveup(Exception):
    pass


class Module:
    def __init__(self, path):
        d = json.load(open(path))
        self.fns = {f["name"]: f for f in d["functions"]}
        self.globals = d["globals"]


def leaves(m, name, k, seen=None):
    """no instruction of the function, or of what it calls, writes through or keeps argument k"""
    memo = m.__dict__.setdefault("_leaves", {})
    if (name, k) in memo:
        return memo[name, k]
    f = m.fns.get(name)
    if f is None or k >= len(f["args"]) or not f["blocks"] or (name, k) in (seen or ()):
        return False
    t = {f["args"][k]["id"]}
    ins = [i for b in f["blocks"] for i in b["i"]]

    def uses(c):
        return c[0] == "gep?" or c[0] == "v" and c[1] in t or c[0] == "gep" and (uses(c[1]) or any(uses(v) for _, v in c[3]))
    ok, n = True, -1
    while ok and n != len(t):
        n = len(t)
        for i in ins:
            op = i["op"]
            a = i["gep"][1:2] if op == "getelementptr" else [x[0] for x in i["inc"]] if op == "phi" else i.get("a", [])
            hit = [j for j, x in enumerate(a) if isinstance(x, list) and uses(x)]
            if not hit:
                continue
            if op in ("getelementptr", "phi", "select", "bitcast", "freeze"):
                t.add(i["id"])
            elif op in ("load", "icmp"):
                pass
            elif op in ("call", "invoke"):
                nm = i["callee"][1] if i["callee"][0] == "fn" else ""
                for j in hit:
                    ok = ok and (j in i.get("bv", ()) or nm.startswith(("llvm.memcpy", "llvm.memmove")) and j == 1 or nm.startswith(("llvm.lifetime", "llvm.dbg")) or leaves(m, nm, j, (seen or ()) + ((name, k),)))
            else:
                ok = False
    memo[name, k] = ok
    return ok


ERR_CALLS = ("PetscError", "MPI_Abort", "abort", "__assert_fail", "_ZSt", "__cxa_throw",
             "PetscAbortErrorHandler", "exit", "_exit", "PetscErrorPrintf", "__clang_call_terminate")


class Loop:
    def __init__(self, header):
        self.header = header
        self.body = set()
        self.latches = []
        self.exits = []      # (from block, to block)
        self.parent = None
        self.ivs = {}        # phi id -> dict(init, step, t atom)
        self.t = None        # iteration-counter atom (0,1,2,...)
        self.count = None    # Poly: number of iterations, None if unknown
        self.others = {}     # phi id -> dict(init, next(lazily), atom)
        self.depth = 0


# pointer parameters the PETSc interface declares pointer-to-const
READONLY_ARGS = {
    "MatSetValuesLocal": (2, 4, 5), "MatSetValues": (2, 4, 5), "MatZeroRowsLocal": (2,), "VecSetValues": (2, 3),
    "DMDACreate2d": (10, 11), "DMDACreate3d": (13, 14, 15), "MatNullSpaceCreate": (3,),
}


class Effect:
    __slots__ = ("kind", "block", "guard", "loops", "addr", "val", "size", "ins", "name", "args", "ret", "order", "fty", "pre", "outs", "ofs", "root", "fptr")

    def where(self):
        i = self.ins
        l = i.get("loc")
        r = []
        def nm(x):
            x = x.split("<")[0]
            return x if len(x) < 40 else x[:40]
        if l:
            r.append("%s:%d (%s)" % (short(l[0]), l[1], nm(i.get("fnm", ""))))
        for x in i.get("inl", []):
            r.append("<- %s:%d (%s)" % (short(x[0]), x[1], nm(x[2])))
        return " ".join(r) or "?"

    def __repr__(self):
        if self.kind == "store":
            return "store %s + %s := %s" % (self.root, self.ofs, self.val)
        return "call %s(%s)" % (self.name, ", ".join(map(str, self.args)))


def short(p):
    p = os.path.normpath(p)
    for k in ("/repo/", "./"):
        if p.startswith(k):
            return p[len(k):]
    return p


class Ptr:
    """pointer value: root atom + byte offset"""
    __slots__ = ("root", "off")

    def __init__(self, root, off):
        self.root = root
        self.off = off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.root is o.root and self.off == o.off

    def __hash__(self):
        return hash((id(self.root), self.off))

    def poly(self):
        return Poly.of(self.root) + self.off

    def show(self, d=0):
        return "&[%s + %s]" % (fmt_atom(self.root, d), self.off.show(d))

    __repr__ = show


PURE_MATH = {"sqrt", "pow", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "exp", "log", "fabs",
             "floor", "ceil", "fmod", "sinh", "cosh", "tanh", "cbrt", "hypot", "fmax", "fmin", "round", "trunc", "copysign"}


class NoReturn(Exception):
    """a function none of whose paths comes back"""


class Returns(list):
    def __init__(self, name):
        super().__init__()
        self.name = name

    def __getitem__(self, k):
        if not self:
            raise NoReturn(self.name)
        return super().__getitem__(k)


class Fn:
    def __init__(self, mod, name, pure=(), argvals=None, nonnull_ok=True, havoc=None, keep=None):
        self.keep = keep or (lambda name, k: False)
        self.mod = mod
        self.f = mod.fns[name]
        self.name = name
        self.pure = set(pure)
        self.blocks = {b["id"]: b for b in self.f["blocks"]}
        self.entry = self.f["blocks"][0]["id"]
        self.val = {}
        self.ins = {}
        self.blk_of = {}
        for b in self.f["blocks"]:
            for i in b["i"]:
                self.ins[i["id"]] = i
                self.blk_of[i["id"]] = b["id"]
        self.argatoms = []
        for k, a in enumerate(self.f["args"]):
            at = atom("sym", "arg%d" % k)
            self.argatoms.append(at)
            if a["ty"] == "ptr":
                v = Ptr(at, ZERO)
            elif a["ty"] == "i1":
                v = bvar(("b", at))
            else:
                v = Poly.of(at)
            if argvals and k in argvals:
                v = argvals[k]
            self.val[a["id"]] = v
        args = dict(self.val)
        self.inv = set()        # loop phis proved to keep their initial value
        while True:
            self.val = dict(args)
            self.effects = []
            self.rets = Returns(self.name)          # (block, value)
            self._cfg()
            self._loops()
            self._scratch()
            self._run()
            new = self.invariant_phis()
            if not new:
                break
            self.inv |= new

    # ---------------------------------------------------------------- CFG
    def term(self, b):
        return self.blocks[b]["i"][-1]

    def raw_succ(self, b):
        t = self.term(b)
        if t["op"] == "br":
            return t["succ"]
        if t["op"] == "switch":
            return [t["def"]] + [c[1] for c in t["cases"]]
        if t["op"] == "invoke":
            return [t["succ"][0]]
        return []

    def is_error_block(self, b):
        for i in self.blocks[b]["i"]:
            if i["op"] in ("call", "invoke"):
                c = i["callee"]
                if i.get("noreturn"):
                    return True
                if c[0] == "fn" and (c[1] in ("PetscError", "PetscErrorMPI", "__cxa_throw", "abort", "__assert_fail")):
                    return True
            if i["op"] == "unreachable":
                return True
        return False

    def __getattr__(self, k):
        if k == "final_state" and isinstance(self.__dict__.get("rets"), Returns) and not self.rets:
            raise NoReturn(self.name)
        raise AttributeError(k)

    def _cfg(self):
        self.err = {b for b in self.blocks if self.is_error_block(b)}
        self.succ = {}
        for b in self.blocks:
            if b in self.err:
                self.succ[b] = []
            else:
                s = self.raw_succ(b)
                self.succ[b] = [x for x in s if x not in self.err]
        # reachable, RPO
        seen = set()
        order = []
        def dfs(b):
            st = [(b, iter(self.succ[b]))]
            seen.add(b)
            while st:
                x, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(self.succ[s])))
                        break
                else:
                    order.append(x)
                    st.pop()
        dfs(self.entry)
        self.rpo = order[::-1]
        self.live = seen
        idx = {b: i for i, b in enumerate(self.rpo)}
        self.idx = idx
        self.pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in dict.fromkeys(self.succ[b]):
                self.pred[s].append(b)
        # dominators
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                n = None
                for p in self.pred[b]:
                    if p in idom:
                        if n is None:
                            n = p
                        else:
                            x, y = p, n
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            n = x
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True
        self.idom = idom

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == self.entry:
                return False
            b = self.idom[b]

    def _loops(self):
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.idx[s] <= self.idx[b]:
                    if not self.dominates(s, b):
                        raise Giveup("irreducible control flow in " + self.name)
                    L = self.loops.setdefault(s, Loop(s))
                    L.latches.append(b)
        for L in self.loops.values():
            st = list(L.latches)
            L.body = {L.header}
            while st:
                x = st.pop()
                if x not in L.body:
                    L.body.add(x)
                    st.extend(self.pred[x])
            for b in L.body:
                for s in self.succ[b]:
                    if s not in L.body:
                        L.exits.append((b, s))
        ls = sorted(self.loops.values(), key=lambda l: len(l.body))
        self.loop_of = {}
        for b in self.rpo:
            for L in ls:
                if b in L.body:
                    self.loop_of[b] = L
                    break
        for L in ls:
            for M in ls:
                if M is not L and L.header in M.body and len(M.body) > len(L.body):
                    L.parent = M
                    break
        for L in ls:
            d = 0
            x = L
            while x:
                d += 1
                x = x.parent
            L.depth = d

    def loops_at(self, b):
        r = []
        L = self.loop_of.get(b)
        while L:
            r.append(L)
            L = L.parent
        return r[::-1]

    # ------------------------------------------------------------ values
    def const(self, c):
        k = c[0]
        if k == "v":
            v = self.val.get(c[1])
            if v is None:
                raise Giveup("value %d used before definition in %s" % (c[1], self.name))
            return v
        if k == "int":
            return (TRUE if c[1] & 1 else FALSE) if c[2] == 1 else num(c[1])
        if k == "fp":
            if c[1] in ("nan", "inf", "-inf"):
                return Poly.of(atom("sym", c[1]))
            return num(rational(c[1]))
        if k == "null":
            return Ptr(atom("sym", "null"), ZERO)
        if k in ("undef", "poison"):
            return Poly.of(atom("sym", "undef"))
        if k == "fn":
            return Ptr(atom("sym", "fn:" + c[1]), ZERO)
        if k == "glob":
            return Ptr(atom("glob", c[1]), ZERO)
        if k == "gep":
            return self.gep(c)
        if k == "zero":
            return ("agg", {})
        if k == "agg":
            return ("agg", {(i,): self.const(x) for i, x in enumerate(c[1:])})
        if k == "md":
            return Poly.of(atom("sym", "md"))
        return Poly.of(atom("opaque", str(c)))

    def gep(self, g):
        if g[0] == "gep?":
            raise Giveup("gep")
        base = self.asptr(self.const(g[1]))
        off = num(g[2])
        for s, v in g[3]:
            off = off + self.asint(self.const(v)).scale(s)
        return Ptr(base.root, base.off + off)

    def asptr(self, v):
        if isinstance(v, Ptr):
            return v
        if isinstance(v, Poly):
            a = v.as_atom()
            if a is not None:
                if a.kind == "p2i":
                    return a.args[0]
                return Ptr(a, ZERO)
            # pointer held in integer form: root + offset, when one atom is pointer-like
            for a in v.atoms():
                if a.kind in ("p2i",):
                    r = v - Poly.of(a)
                    p = a.args[0]
                    return Ptr(p.root, p.off + r)
            return Ptr(atom("ptrof", v), ZERO)
        if isinstance(v, BDD):
            return Ptr(atom("ptrof", self.asint(v)), ZERO)
        return Ptr(atom("opaque", str(v)), ZERO)

    def unpiece(self, v):
        if isinstance(v, tuple) and v[0] == "pieces":
            ps = v[1]
            if len(ps) == 1 and ps[0][0] == 0:
                return self.asint(ps[0][2])
            if len(ps) == 2 and ps[0][:2] == (0, 4) and ps[1][:2] == (4, 4):
                return self.asint(ps[0][2]) + self.asint(ps[1][2]).scale(1 << 32)
            return Poly.of(atom("opaque", str(v)))
        return v

    def asint(self, v):
        v = self.unpiece(v)
        if isinstance(v, Poly):
            return v
        if isinstance(v, BDD):
            return ite(v, ONE, ZERO)
        if isinstance(v, Ptr):
            if v.root.kind in ("ld", "out", "lv", "ret") and not v.off.t:
                return Poly.of(v.root)
            return Poly.of(atom("p2i", Ptr(v.root, ZERO))) + v.off
        return Poly.of(atom("opaque", str(v)))

    def asbool(self, v):
        if isinstance(v, BDD):
            return v
        if isinstance(v, Poly):
            c = v.as_const()
            if c is not None:
                return TRUE if c != 0 else FALSE
            a = v.as_atom()
            if a is not None and a.kind == "ite":
                x, y = a.args[1].as_const(), a.args[2].as_const()
                if x is not None and y is not None:
                    if x != 0 and y == 0:
                        return a.args[0]
                    if x == 0 and y != 0:
                        return bnot(a.args[0])
            return bvar(("b", v))
        return bvar(("b", str(v)))

    def sel(self, c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if isinstance(a, BDD) and isinstance(b, BDD):
            return bite(c, a, b)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            a, b = self.asptr(a), self.asptr(b)
            if a == b:
                return a
            if a.root is b.root:
                return Ptr(a.root, ite(c, a.off, b.off))
            if a.root.kind == "sym" and a.root.args[0] == "undef":
                return b
            if b.root.kind == "sym" and b.root.args[0] == "undef":
                return a
            # the storage of an empty array is never reached
            null = atom("sym", "null")
            for x, y, k in ((a, b, c), (b, a, bnot(c))):
                if x.root is null and y.root in self.heapsize and k is self.push_eq(self.heapsize[y.root], ZERO):
                    return y
            return Ptr(atom("pite", c, a, b), ZERO)
        pa, pb = (isinstance(x, tuple) and x[0] == "pieces" for x in (a, b))
        if pa or pb:
            sh = [(o, z) for o, z, _ in (a if pa else b)[1]]
            if (pa and pb and sh != [(o, z) for o, z, _ in b[1]]) or (not (pa and pb) and sh != [(0, 4), (4, 4)]):
                return self.sel(c, self.asint(a), self.asint(b))
            half = lambda x, o, z: [v for q, _, v in x[1] if q == o][0] if isinstance(x, tuple) else self.part(self.asint(x), o, z, 8, "i32")
            return ("pieces", tuple((o, z, self.sel(c, half(a, o, z), half(b, o, z))) for o, z in sh))
        if isinstance(a, tuple) or isinstance(b, tuple):
            a, b = self.asagg(a), self.asagg(b)
            ks = set(a[1]) | set(b[1])
            return ("agg", {k: self.sel(c, a[1].get(k, ZERO), b[1].get(k, ZERO)) for k in ks})
        if isinstance(a, BDD):
            a = self.asint(a)
        if isinstance(b, BDD):
            b = self.asint(b)
        return ite(c, a, b)

    def asagg(self, v):
        if isinstance(v, tuple):
            return v
        return ("agg", {})

    # ------------------------------------------------------------- memory
    # state: {"m": {(root, off): (val, size)}, "w": {root: [writes]}, "z": [...ranges], "ver": {root: n}}
    def new_state(self):
        return {"m": {}, "w": {}, "r": {}, "ver": {}}

    def copy_state(self, s):
        return {"m": dict(s["m"]), "w": {k: v for k, v in s["w"].items()}, "r": dict(s["r"]), "ver": dict(s["ver"])}

    def store(self, st, p, v, size):
        root = p.root
        m = st["m"]
        dead = []
        for (r, o), (val, sz) in m.items():
            if r is root:
                d = (o - p.off).as_const()
                if d is None or (d < size and d > -sz):
                    dead.append((r, o))
        for k in dead:
            del m[k]
        m[(root, p.off)] = (v, size)
        st["w"] = dict(st["w"])
        st["w"][root] = st["w"].get(root, ()) + ((p.off, size),)

    def load(self, st, p, size, ty):
        root = p.root
        k = (root, p.off)
        e = st["m"].get(k)
        if e is not None and (e[1] == size):
            return self.coerce(e[0], ty)
        # a wider or narrower store at a constant distance
        for (r, o), (val, sz) in st["m"].items():
            if r is root:
                d = (p.off - o).as_const()
                if d is not None and 0 <= d and d + size <= sz:
                    return self.part(val, int(d), size, sz, ty)
        if e is not None or any(r is root and (p.off - o).as_const() is not None and 0 < (o - p.off).as_const() < size for (r, o) in st["m"]):
            # assembled from narrower pieces
            pieces = []
            for (r, o), (val, sz) in st["m"].items():
                if r is root:
                    d = (o - p.off).as_const()
                    if d is not None and 0 <= d and d + sz <= size:
                        pieces.append((int(d), sz, val))
            pieces.sort(key=lambda x: x[0])
            if sum(x[1] for x in pieces) == size:
                return ("pieces", tuple(pieces))
        # range (memset / memcpy)
        for (off, ln, src) in reversed(st["r"].get(root, ())):
            d = (p.off - off).as_const()
            if isinstance(src, tuple) and src[0] == "entries":
                # an array filled with the grids of a composite, not written since
                if ty == "ptr" and (d is None or 0 <= d) and not st["w"].get(root):
                    v = Ptr(atom("entry", src[1], (p.off - off).scale(Fraction(1, 8))), ZERO)
                    st["m"][k] = (v, size)
                    return v
                break
            if d is not None and 0 <= d and d + size <= ln:
                if any((o - p.off).as_const() is None or ((o - p.off).as_const() < size and (o - p.off).as_const() > -sz) for o, sz in st["w"].get(root, ()) if not self._before(st, root, off, o)):
                    pass
                if src == "zero":
                    v = ZERO if ty in ("double", "float") or ty.startswith("i") else Ptr(atom("sym", "null"), ZERO)
                    if ty.startswith("<") or ty.startswith("{"):
                        v = ("agg", {})
                    st["m"][k] = (v, size)
                    return self.coerce(v, ty)
                kind, sroot, soff, snap = src
                v = self.load(snap, Ptr(sroot, soff + num(d)), size, ty)
                st["m"][k] = (v, size)
                return v
        if root.kind == "glob":
            v = self.gload(root, p.off, size, ty)
            if v is not None:
                return v
        nw = 0
        for o, sz in st["w"].get(root, ()):
            d = (o - p.off).as_const()
            if d is None or (d < size and d > -sz):
                nw += 1
        ver = (st["ver"].get(root, 0), nw)
        at = atom("ld", root, p.off, ver)
        v = self.mkval(at, ty)
        st["m"][k] = (v, size)
        return v

    def _before(self, st, root, off, o):
        return True

    def mkval(self, at, ty):
        if ty == "ptr":
            return Ptr(at, ZERO)
        if ty == "i1":
            return bvar(("b", at))
        if ty.startswith("<") or ty.startswith("{") or ty.startswith("["):
            return ("agg0", at)
        return Poly.of(at)

    def coerce(self, v, ty):
        if ty == "ptr":
            return self.asptr(v)
        if ty == "i1":
            return self.asbool(v)
        if isinstance(v, tuple):
            return v
        if ty.startswith("<") or ty.startswith("{"):
            return v
        return self.asint(v)

    def part(self, val, d, size, sz, ty):
        if isinstance(val, tuple) and val[0] == "pieces":
            for o, s, v in val[1]:
                if o <= d and d + size <= o + s:
                    return self.coerce(v, ty) if (o == d and s == size) else self.part(v, d - o, size, s, ty)
        if isinstance(val, tuple) and val[0] == "agg":
            # vector <n x T>: element d/size
            v = val[1].get((d // size,), ZERO)
            return self.coerce(v, ty)
        if isinstance(val, Poly) and not val.t:
            return self.coerce(ZERO, ty)
        if isinstance(val, Poly) and size == 4 and sz == 8:
            if val.as_atom() is None or val.as_atom().kind == "ite" and self.packed(val):
                lo = self.lo32(val)
                return self.coerce(lo if d == 0 else self.hi32(val), ty)
            pk = val.as_atom()
            if pk is not None and pk.kind == "ld":
                return self.mkval(atom("ld", pk.args[0], pk.args[1] + num(d), *pk.args[2:]), ty)
        at = atom("part", val if isinstance(val, (Poly, Ptr)) else str(val), d, size)
        return self.mkval(at, ty)

    def gload(self, root, off, size, ty):
        g = self.mod.globals.get(root.args[0])
        if not g or not g.get("const") or "init" not in g:
            return None
        c = off.as_const()
        if c is None:
            return None
        for o, sz, v in g["init"]:
            if o == c and sz == size:
                return self.coerce(self.const(v), ty)
        return None

    def merge_states(self, b, preds, states):
        """gated merge"""
        if len(preds) == 1:
            return self.copy_state(states[preds[0]])
        out = self.new_state()
        keys = None
        allk = set()
        for p in preds:
            allk |= set(states[p]["m"])
        roots = set()
        for p in preds:
            roots |= set(states[p]["ver"]) | set(states[p]["w"]) | set(states[p]["r"])
        for r in roots:
            vs = [states[p]["ver"].get(r, 0) for p in preds]
            out["ver"][r] = vs[0] if all(v == vs[0] for v in vs) else ("m", b, tuple(map(str, vs)))
            ws = []
            for p in preds:
                for w in states[p]["w"].get(r, ()):
                    if w not in ws:
                        ws.append(w)
            if ws:
                out["w"][r] = tuple(ws)
            rs = [states[p]["r"].get(r, ()) for p in preds]
            if all(x == rs[0] for x in rs):
                if rs[0]:
                    out["r"][r] = rs[0]
            else:
                # keep the common prefix only
                n = 0
                while all(len(x) > n for x in rs) and all(x[n] == rs[0][n] for x in rs):
                    n += 1
                if n:
                    out["r"][r] = rs[0][:n]
                out["ver"][r] = ("m", b, "r")
        for k in allk:
            vals = []
            for p in preds:
                e = states[p]["m"].get(k)
                vals.append(e)
            sizes = {e[1] for e in vals if e}
            if len(sizes) != 1:
                continue
            size = sizes.pop()
            # materialise missing values by a load in that predecessor's state
            ref = next(e for e in vals if e)[0]
            ty = "ptr" if isinstance(ref, Ptr) else ("i1" if isinstance(ref, BDD) else ("i%d" % (8 * size)))
            if isinstance(ref, tuple):
                if all(e and e[0] == vals[0][0] for e in vals):
                    out["m"][k] = vals[0]
                continue
            # nothing stored anywhere: unmodified cell, same atom everywhere
            vv = {}
            for p, e in zip(preds, vals):
                if e is None:
                    v = self.load(self.copy_state(states[p]), Ptr(k[0], k[1]), size, ty)
                else:
                    v = e[0]
                vv[p] = v
            first = vv[preds[0]]
            if all(v == first for v in vv.values()):
                out["m"][k] = (first, size)
            else:
                out["m"][k] = (self.gamma(b, vv), size)
        return out

    # ------------------------------------------------------------- gating
    def edge_cond(self, b, s):
        """condition under which control goes b -> s (error edges pruned)"""
        t = self.term(b)
        succ = self.succ[b]
        if len(set(succ)) <= 1:
            return TRUE
        if t["op"] == "br":
            c = self.asbool(self.const(t["a"][0])) if len(t["succ"]) == 2 else TRUE
            return c if t["succ"][0] == s else bnot(c)
        if t["op"] == "switch":
            x = self.asint(self.const(t["a"][0]))
            c = FALSE
            oth = TRUE
            for k, d in t["cases"]:
                e = cmp_eq(x, num(k))
                if d == s:
                    c = bor(c, e)
                oth = band(oth, bnot(e))
            if t["def"] == s:
                c = bor(c, oth)
            return c
        return TRUE

    def exit_of(self, L, target_block):
        pass

    def reach(self, b):
        """condition for reaching b relative to the header of its innermost loop (or entry)"""
        return self.rc[b]

    def compute_reach(self, b):
        L = self.loop_of.get(b)
        if b == self.entry or (L and L.header == b):
            self.rc[b] = TRUE
            return
        c = FALSE
        for p in self.pred[b]:
            if self.idx[p] >= self.idx[b]:
                continue
            c = bor(c, self.path_cond(p, b, L))
        self.rc[b] = c

    def path_cond(self, p, b, L):
        """reach(p) and edge p->b, expressed relative to loop L (b's innermost loop)"""
        M = self.loop_of.get(p)
        if M is L:
            return band(self.rc[p], self.edge_cond(p, b))
        # p is inside inner loops that exit to b: reaching the loop header suffices
        # (loops terminate); distinguish exits by an opaque exit atom when several.
        inner = M
        while inner.parent is not L:
            inner = inner.parent
            if inner is None:
                raise Giveup("loop nest")
        h = inner.header
        outside = [q for q in self.pred[h] if q not in inner.body]
        c = FALSE
        for q in outside:
            c = bor(c, self.path_cond(q, h, L))
        exits = sorted(set((e[0], e[1]) for e in inner.exits))
        tgts = sorted(set(e[1] for e in exits))
        if len(exits) > 1:
            e = bvar(("b", atom("loopexit", self.name, inner.header, p, b)))
            if len(tgts) > 1 or True:
                # last exit = negation of the others so that they partition
                k = exits.index((p, b))
                cond = TRUE
                for j in range(k):
                    cond = band(cond, bnot(bvar(("b", atom("loopexit", self.name, inner.header) + exits[j]) if False else ("b", atom("loopexit", self.name, inner.header, exits[j][0], exits[j][1])))))
                if k < len(exits) - 1:
                    cond = band(cond, e)
                c = band(c, cond)
        return c

    def gamma(self, b, vals):
        """gated merge of vals[pred] at block b"""
        preds = [p for p in self.pred[b] if p in vals]
        vs = [vals[p] for p in preds]
        if all(v == vs[0] for v in vs):
            return vs[0]
        L = self.loop_of.get(b)
        r = vals[preds[-1]]
        base = self.rc_common(b, preds, L)
        for p in preds[:-1][::-1]:
            c = self.path_cond(p, b, L)
            c = self.simplify_under(c, base)
            r = self.sel(c, vals[p], r)
        return r

    def rc_common(self, b, preds, L):
        c = FALSE
        for p in preds:
            c = bor(c, self.path_cond(p, b, L))
        return c

    def simplify_under(self, c, care):
        """drop from c what `care` already guarantees (Coudert-Madre restrict)"""
        if care is TRUE or care is FALSE:
            return c
        memo = {}
        def restrict(f, g):
            if g is FALSE:
                return f
            if g is TRUE or f.v is None:
                return f
            k = (id(f), id(g))
            if k in memo:
                return memo[k]
            if g.v < f.v:
                r = restrict(f, bor(g.hi, g.lo))
            else:
                gh, gl = (g.hi, g.lo) if g.v == f.v else (g, g)
                if gh is FALSE:
                    r = restrict(f.lo, gl)
                elif gl is FALSE:
                    r = restrict(f.hi, gh)
                else:
                    from algebra import _mk
                    r = _mk(f.v, restrict(f.hi, gh), restrict(f.lo, gl))
            memo[k] = r
            return r
        return restrict(c, care)

    # ---------------------------------------------------------------- run
    def _run(self):
        self.rc = {}
        self.out_state = {}
        self.order = 0
        for b in self.rpo:
            self.compute_reach(b)
            L = self.loops.get(b)
            fpreds = [p for p in self.pred[b] if self.idx[p] < self.idx[b]]
            if b == self.entry:
                st = self.new_state()
            else:
                st = self.merge_states(b, fpreds, self.out_state)
            if L:
                self.enter_loop(L, st)
            for i in self.blocks[b]["i"]:
                if i["op"] == "phi":
                    if L:
                        continue
                    self.val[i["id"]] = self.phi(b, i)
                else:
                    self.step(b, i, st)
            self.out_state[b] = st
        for L in self.loops.values():
            self.close_loop(L)

    def phi(self, b, i):
        vals = {}
        for v, p in i["inc"]:
            if p in self.live and p in self.pred[b]:
                vals[p] = self.const(v) if v[0] not in ("undef", "poison") else None
        if not vals:
            return Poly.of(atom("sym", "undef"))
        known = {p: v for p, v in vals.items() if v is not None}
        if not known:
            return Poly.of(atom("sym", "undef"))
        for p in vals:
            if vals[p] is None:
                vals[p] = Poly.of(atom("undefphi", self.name, i["id"]))
        return self.gamma(b, vals)

    def _base_root(self, c, seen=None, nonull=False):
        """syntactic root of a pointer operand: ('arg',id) ('alloca',id) ('other',)"""
        seen = seen or set()
        while True:
            if c[0] == "gep":
                c = c[1]
                continue
            if c[0] == "glob":
                return ("glob", c[1])
            if c[0] != "v":
                return ("other",)
            if c[1] in seen:
                return ("rec",)
            seen.add(c[1])
            i = self.ins.get(c[1])
            if i is None:
                return ("v", c[1])
            if i["op"] == "getelementptr":
                c = i["gep"][1]
                continue
            if i["op"] == "alloca":
                return ("v", c[1])
            if i["op"] == "phi" or i["op"] == "select":
                ops = [x[0] for x in i["inc"]] if i["op"] == "phi" else i["a"][1:]
                rs = {self._base_root(o, seen, nonull) for o in ops if not (nonull and o[0] == "null")}
                rs.discard(("rec",))
                if len(rs) == 1:
                    return rs.pop()
                return ("other",)
            return ("v", c[1])

    def _scratch(self):
        """storage obtained from operator new and given back here, outside any loop: a working array,
        treated like a local one"""
        self.scratch, self.heapsize = set(), {}
        for b in self.live:
            for i in self.blocks[b]["i"]:
                if i["op"] in ("call", "invoke") and i["callee"][0] == "fn" and i["callee"][1] in ("_ZdlPv", "_ZdlPvm") and not self.loop_of.get(b):
                    r = self._base_root(i["a"][0], nonull=True)
                    j = self.ins.get(r[1]) if r[0] == "v" else None
                    if j is not None and j["op"] in ("call", "invoke") and j["callee"][0] == "fn" and j["callee"][1] == "_Znwm" and not self.loop_of.get(self.blk_of[j["id"]]):
                        self.scratch.add(j["id"])

    def is_scratch(self, p):
        return isinstance(p, Ptr) and p.root in self.heapsize

    def enter_loop(self, L, st):
        h = L.header
        # 1. memory written in the loop
        other = False
        vroots = set()
        for b in L.body:
            for i in self.blocks[b]["i"]:
                if i["op"] == "store":
                    r = self._base_root(i["a"][1])
                    self._note(r, vroots)
                elif i["op"] in ("call", "invoke") and not self.is_pure(i):
                    nm = i["callee"][1] if i["callee"][0] == "fn" else ""
                    ro = READONLY_ARGS.get(nm, ())
                    for k, a in enumerate(i["a"]):
                        if k not in ro and k not in i.get("bv", ()) and not self.keep(nm, k) and a[0] in ("v", "gep", "glob"):
                            r = self._base_root(a)
                            self._note(r, vroots)
        roots = set()
        inner_loads = False
        for r in vroots:
            if r[0] == "glob":
                roots.add(atom("glob", r[1]))
            elif r[0] == "v":
                v = self.val.get(r[1])
                if isinstance(v, Ptr):
                    roots.add(v.root)
                else:
                    inner_loads = True
            else:
                inner_loads = True
        for (r, o) in list(st["m"]):
            if r in roots or (inner_loads and r.kind in ("ld", "lv", "pite", "ptrof", "out", "ret")):
                # keep cells whose value is only ever stored outside the loop when the root is an
                # alloca not written in the loop
                del st["m"][(r, o)]
        hv = set(roots)
        if inner_loads:
            for r in list(st["w"]) + list(st["r"]):
                if r.kind in ("ld", "lv", "pite", "ptrof", "out", "ret"):
                    hv.add(r)
        for r in hv:
            st["ver"][r] = ("L", self.name, h)
            st["w"].pop(r, None)
            st["r"].pop(r, None)
        L.inner_store_other = inner_loads
        L.havoc = hv
        # 2. header phis
        L.t = atom("it", self.name, h)
        T = Poly.of(L.t)
        pre = [p for p in self.pred[h] if p not in L.body]
        for i in self.blocks[h]["i"]:
            if i["op"] != "phi":
                break
            init = None
            ivals = {}
            lat = []
            for v, p in i["inc"]:
                if p in L.body:
                    lat.append(v)
                elif p in self.live:
                    ivals[p] = self.const(v)
            if len(ivals) == 1:
                init = next(iter(ivals.values()))
            elif ivals:
                r = None
                L2 = L.parent
                ps = list(ivals)
                r = ivals[ps[-1]]
                base = FALSE
                for p in ps:
                    base = bor(base, self.path_cond(p, h, L2))
                for p in ps[:-1][::-1]:
                    r = self.sel(self.simplify_under(self.path_cond(p, h, L2), base), ivals[p], r)
                init = r
            if i["id"] in self.inv:
                self.val[i["id"]] = init
                continue
            step = self.iv_step(i, lat)
            if step is not None:
                if isinstance(init, Ptr):
                    v = Ptr(init.root, init.off + T.scale(step))
                elif isinstance(init, Poly):
                    v = init + T.scale(step)
                else:
                    v = None
                if v is not None:
                    self.val[i["id"]] = v
                    L.ivs[i["id"]] = (init, step)
                    continue
            at = atom("lv", self.name, h, i["id"])
            if isinstance(init, Ptr) and lat and all(self._stays(v, i["id"]) for v in lat):
                # a pointer moved within one object: its distance from where it starts
                L.others[i["id"]] = {"init": ZERO, "latch": lat, "atom": at, "base": init}
                self.val[i["id"]] = Ptr(init.root, init.off + Poly.of(at))
                continue
            L.others[i["id"]] = {"init": init, "latch": lat, "atom": at}
            self.val[i["id"]] = self.mkval(at, i["ty"])

    def _stays(self, v, pid, seen=None):
        """v is the pointer phi pid, moved"""
        seen = set() if seen is None else seen
        while True:
            if v == ["v", pid]:
                return True
            if v[0] == "gep":
                v = v[1]
                continue
            if v[0] != "v" or v[1] not in self.ins:
                return False
            if v[1] in seen:
                return True
            seen.add(v[1])
            i = self.ins[v[1]]
            if i["op"] == "getelementptr":
                v = i["gep"][1]
            elif i["op"] == "phi":
                return all(self._stays(x, pid, seen) for x, p in i["inc"] if p in self.live)
            elif i["op"] == "select":
                return all(self._stays(x, pid, seen) for x in i["a"][1:])
            else:
                return False

    def latchval(self, o, v):
        """what a loop variable (entry of Loop.others) becomes along back edge v"""
        x = self.const(v)
        b = o.get("base")
        return x.off - b.off if b is not None and isinstance(x, Ptr) and x.root is b.root else x

    def closed(self, p, memo=None):
        """p with the loop variables that grow by a loop-invariant amount written as start + amount * trip"""
        memo = {} if memo is None else memo
        if not hasattr(self, "_lvs"):
            self._lvs = {o["atom"]: (L, o) for L in self.loops.values() for o in L.others.values()}
            self._lvc = {}

        def f(a):
            if a.kind == "lv" and a in self._lvs:
                if a not in self._lvc:
                    self._lvc[a] = None
                    self._lvc[a] = self._close(a, *self._lvs[a])
                return self._lvc[a]
            return None
        return rewrite(p, f, memo)

    def _close(self, a, L, o):
        if not isinstance(o["init"], Poly):
            return None
        d = None
        for v in o["latch"]:
            x = self.latchval(o, v)
            if not isinstance(x, Poly):
                return None
            x = x - Poly.of(a)
            if d is not None and x != d:
                return None
            d = x
        inner = [M for M in self.loops.values() if M is L or self._within(M, L)]
        bad = {M.t for M in inner} | {q["atom"] for M in inner for q in M.others.values()}
        if d is not None and len(o["latch"]) == 1:
            # the value another induction variable had one round before
            x = d + Poly.of(a)
            ax = all_atoms(x).values()
            if a not in ax and L.t in ax and not any((y in bad and y is not L.t) or y.kind in ("ret", "undefphi", "ld") for y in ax):
                at = lambda k: rewrite(x, lambda y: k if y is L.t else None, {})
                if equal(self.closed(at(num(-1))), self.closed(o["init"])):
                    return self.closed(at(Poly.of(L.t) - ONE))
        if d is None or any(x in bad or x.kind in ("ret", "undefphi") for x in all_atoms(d).values()):
            return None
        return self.closed(o["init"]) + self.closed(d) * Poly.of(L.t)

    def _within(self, M, L):
        while M is not None:
            if M is L:
                return True
            M = M.parent
        return False

    def iv_step(self, phi, lat):
        if len(lat) < 1:
            return None
        step = None
        for v in lat:
            s = self._step_of(v, phi["id"], 0)
            if s is None or (step is not None and s != step):
                return None
            step = s
        return step if step else None

    def _step_of(self, v, pid, depth, half=None):
        """constant by which v exceeds the phi pid; half 'lo'/'hi': only that half of a
        64-bit value made of two packed 32-bit values"""
        if v == ["v", pid]:
            return 0
        if v[0] != "v" or depth > 16:
            return None
        i = self.ins.get(v[1])
        if i is None:
            return None
        op = i["op"]
        go = lambda x, h=half: self._step_of(x, pid, depth + 1, h)
        if op == "phi":
            h = self.blk_of.get(i["id"])
            L = self.loops.get(h)
            if L is None:
                ss = {go(x) for x, p in i["inc"] if p in self.live}
                return ss.pop() if len(ss) == 1 else None
            ins = [x for x, p in i["inc"] if p in L.body]
            outs = [x for x, p in i["inc"] if p not in L.body and p in self.live]
            if any(self._step_of(x, i["id"], depth + 1, half) != 0 for x in ins) or len(outs) != 1:
                return None
            return go(outs[0])
        if op in ("add", "sub", "fadd", "fsub"):
            if half == "hi":
                return None
            a, b = i["a"]
            def cst(x):
                if x[0] == "int":
                    return x[1]
                if x[0] == "fp":
                    return rational(x[1])
                return None
            if cst(b) is not None:
                s = go(a)
                return None if s is None else (s + cst(b) if op in ("add", "fadd") else s - cst(b))
            if op in ("add", "fadd") and cst(a) is not None:
                s = go(b)
                return None if s is None else s + cst(a)
            return None
        if op == "getelementptr":
            g = i["gep"]
            if g[3]:
                return None
            s = go(g[1])
            return None if s is None else s + g[2]
        if op in ("sext", "zext", "trunc"):
            return go(i["a"][0], "lo" if half is None else half) if half != "hi" else None
        if op in ("lshr", "ashr") and i["a"][1] == ["int", 32, 64]:
            return go(i["a"][0], "hi") if half != "hi" else None
        if op == "shl" and i["a"][1] == ["int", 32, 64]:
            return go(i["a"][0], "lo") if half == "hi" else None
        HI = (-4294967296, 0xffffffff00000000)
        if op == "and" and i["a"][1][0] == "int":
            if i["a"][1][1] == 4294967295:
                return go(i["a"][0], "lo") if half != "hi" else None
            if i["a"][1][1] in HI and half == "hi":
                return go(i["a"][0])
            return None
        if op == "or" and i["ty"] == "i64":
            # two 32-bit values packed in one i64
            def part(x):
                j = self.ins.get(x[1]) if x[0] == "v" else None
                if j is None:
                    return None
                if j["op"] == "and" and j["a"][1][0] == "int":
                    return "hi" if j["a"][1][1] in HI else "lo" if j["a"][1][1] == 4294967295 else None
                if j["op"] == "shl" and j["a"][1] == ["int", 32, 64]:
                    return "hi"
                if j["op"] == "zext":
                    return "lo"
                return None
            for x, y in (i["a"], i["a"][::-1]):
                if part(x) == "hi" and part(y) in ("lo", None) or part(y) == "lo" and part(x) is None:
                    if half == "hi":
                        return go(x)
                    if half == "lo":
                        return go(y)
                    # a phi that is itself a packed pair whose low half is stepped
                    sx = self._step_of(x, pid, depth + 1, "hi")
                    return go(y, "lo") if sx == 0 else None
        return None

    def _note(self, r, s):
        s.add(r)

    def close_loop(self, L):
        """iteration count from the affine exit test; latch values of the other phis"""
        T = L.t
        def taken(eb, es):
            t = self.term(eb)
            if t["op"] == "br" and len(t["succ"]) == 2 and t["succ"][0] != t["succ"][1]:
                c = self.asbool(self.const(t["a"][0]))
                return c is not (FALSE if t["succ"][0] == es else TRUE)
            return True
        L.exits = [x for x in L.exits if taken(*x)]
        if len(L.exits) == 1:
            (eb, es), = L.exits
            t = self.term(eb)
            c = None
            if t["op"] == "br" and len(t["succ"]) == 2:
                c = self.exit_test(t["a"][0], t["succ"][0] == es)
            if c is not None:
                L.count = self.count_from(c, L, eb)
                L.exit_pred = c[0]
        for pid, o in L.others.items():
            nv = {}
            for i in self.blocks[L.header]["i"]:
                if i["id"] == pid:
                    for v, p in i["inc"]:
                        if p in L.body:
                            nv[p] = self.latchval(o, v)
            if len(nv) == 1:
                o["next"] = next(iter(nv.values()))
            else:
                o["next"] = None
        # final values after the loop are left as lv atoms

    def invariant_phis(self):
        """loop phis whose next value equals the initial one whenever the current one does"""
        cand = {}
        for L in self.loops.values():
            for pid, o in L.others.items():
                i, n = o["init"], o["next"]
                if isinstance(i, Ptr) and isinstance(n, Ptr):
                    i, n = i.poly() if not i.off.t else None, n.poly() if not n.off.t else None
                if isinstance(i, Poly) and isinstance(n, Poly):
                    cand[pid] = (o["atom"], i, n)
        alone = {pid for pid, (x, i, n) in cand.items() if equal(i, n) or equal(i, rewrite(n, lambda a: i if a is x else None))}
        if alone or len(cand) > 40:
            return alone
        # together: drop those that fail while the others are assumed
        while cand:
            tab = {x: i for x, i, n in cand.values()}

            def f(a, depth=[0]):
                if a not in tab or depth[0] > 8:
                    return None
                depth[0] += 1
                r = rewrite(tab[a], f)
                depth[0] -= 1
                return r
            bad = [pid for pid, (x, i, n) in cand.items() if not equal(rewrite(i, f), rewrite(n, f))]
            if not bad:
                break
            for pid in bad:
                del cand[pid]
        return set(cand)

    def exit_test(self, v, pos):
        """(pred, a, b) such that the loop is left when  a pred b"""
        if v[0] != "v":
            return None
        i = self.ins.get(v[1])
        if i is None:
            return None
        if i["op"] == "xor" and i["ty"] == "i1" and i["a"][1][0] == "int":
            return self.exit_test(i["a"][0], not pos)
        if i["op"] == "freeze":
            return self.exit_test(i["a"][0], pos)
        if i["op"] not in ("icmp", "fcmp"):
            return None
        try:
            a, b = self.const(i["a"][0]), self.const(i["a"][1])
        except Giveup:
            return None
        if i["op"] == "fcmp":
            # over the reals: no NaN among a counter and its bound
            pr = {"lt": "lt", "gt": "gt", "le": "le", "ge": "ge"}.get(i["pred"][1:])
            if pr is None or not isinstance(a, Poly) or not isinstance(b, Poly):
                return None
            if not pos:
                pr = {"lt": "ge", "ge": "lt", "gt": "le", "le": "gt"}[pr]
            return "f" + pr, a, b
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.root is not b.root:
                return None
            a, b = a.off, b.off
        a, b = self.unpiece(a), self.unpiece(b)
        if not isinstance(a, Poly) or not isinstance(b, Poly):
            return None
        pr = i["pred"]
        if pr in ("eq", "ne") and not b.t and i["a"][0][0] == "v":
            # sign-bit test
            j = self.ins.get(i["a"][0][1])
            if j and j["op"] == "and" and j["a"][1][0] == "int" and j["a"][1][1] in (2147483648, -2147483648):
                x = self.const(j["a"][0])
                if isinstance(x, Poly):
                    a = self.lo32(x)
                    pr = "ge" if pr == "eq" else "lt"
        pr = {"slt": "lt", "ult": "lt", "sgt": "gt", "ugt": "gt", "sle": "le", "ule": "le", "sge": "ge", "uge": "ge"}.get(pr, pr)
        if not pos:
            pr = {"lt": "ge", "ge": "lt", "gt": "le", "le": "gt", "eq": "ne", "ne": "eq"}[pr]
        return pr, a, b

    def count_from(self, c, L, eb):
        """iterations = first T at which the exit test holds (+1 when the body precedes it)"""
        pr, a, b = c
        p = a - b                    # exit when  p pr 0
        T = L.t
        real = pr[0] == "f"
        pr = pr[1:] if real else pr
        alpha = ZERO
        beta = ZERO
        for m, k in p.t.items():
            d = dict(m)
            if T.id in d:
                if d[T.id] != 1 or len(d) != 1:
                    return None
                alpha = alpha + num(k)
            else:
                beta = beta + Poly({m: k})
        al = alpha.as_const()
        if not al or T.id in all_atoms(beta):
            return None
        root = beta.scale(Fraction(-1) / al)      # T value where p == 0
        if real and not integral(root):
            root = fn("ceil" if pr in ("ge", "le") else "floor", root)
        if pr == "eq":
            first = root
        elif pr in ("ge", "gt") and al > 0:
            first = root if pr == "ge" else root + ONE
        elif pr in ("le", "lt") and al < 0:
            first = root if pr == "le" else root + ONE
        else:
            return None
        if pr != "eq" and abs(al) != 1:
            return None
        # a test at the top leaves before the body of iteration `first`
        top = (eb == L.header and not self._has_effects(eb)) or not all(self.dominates(eb, x) for x in L.latches) or eb not in L.latches
        L.top = top
        return first if top else first + ONE

    def _has_effects(self, b):
        return any(i["op"] in ("store",) or (i["op"] in ("call", "invoke") and not self.is_pure(i)) for i in self.blocks[b]["i"]) or b in [l for L in self.loops.values() if L.header == b for l in L.latches]

    def domain(self, e):
        """[(iteration atom, count or None, entry guard)] for the loops around an effect.
        the entry guard is what must hold to start the loop, minus `count > 0`"""
        r = []
        for L in e.loops:
            if L.count is None:
                r.append((L.t, None, TRUE))
                continue
            pos = band(self.push_lt(ZERO, L.count, True), bnot(cmp_eq(L.count, ZERO)))
            g = FALSE
            for q in self.pred[L.header]:
                if q not in L.body:
                    g = bor(g, self.path_cond(q, L.header, L.parent))
            r.append((L.t, L.count, self.simplify_under(g, pos)))
        return r

    def entered_empty(self, e):
        """for each loop around e whose exit test is an equality: the condition (BDD) under
        which it is entered although its count is not positive (it would then run away)"""
        r = []
        up = TRUE
        for L in e.loops:
            g = FALSE
            for q in self.pred[L.header]:
                if q not in L.body:
                    g = bor(g, self.path_cond(q, L.header, L.parent))
            up = band(up, g)
            if L.count is None:
                continue
            pos = self.push_lt(ZERO, L.count, True)
            # a test at the top with an inequality leaves at once
            if L.top and L.exit_pred != "eq":
                continue
            r.append((L.t, band(up, bnot(pos)) if not L.top else band(band(up, bnot(pos)), bnot(cmp_eq(L.count, ZERO)))))
        return r

    # ------------------------------------------------------- instructions
    def is_pure(self, i):
        c = i["callee"]
        if i.get("pure"):
            return True
        if c[0] == "fn":
            n = c[1]
            if n in PURE_MATH or n in self.pure or n.startswith("llvm.fabs") or n.startswith("llvm.sqrt") or n.startswith("llvm.pow"):
                return True
            if n.startswith("llvm.dbg") or n.startswith("llvm.stack") or n.startswith("llvm.mem") is False and n.startswith("llvm."):
                return True
        return False

    def step(self, b, i, st):
        op = i["op"]
        if op in ("br", "switch", "unreachable", "fence"):
            return
        if op == "ret":
            self.rets.append((b, self.const(i["a"][0]) if i["a"] else None))
            self.final_state = st
            return
        f = getattr(self, "op_" + op, None)
        if f:
            self.val[i["id"]] = f(i, b, st)
            return
        self.val[i["id"]] = self.mkval(atom("opaque", self.name, i["id"]), i["ty"])

    def op_alloca(self, i, b, st):
        return Ptr(atom("alloca", self.name, i["id"]), ZERO)

    def op_getelementptr(self, i, b, st):
        return self.gep(i["gep"])

    def op_load(self, i, b, st):
        p = self.asptr(self.const(i["a"][0]))
        ty = i["ty"]
        if ty.startswith("<"):
            n, et = vecty(ty)
            es = esize(et)
            return ("agg", {(k,): self.load(st, Ptr(p.root, p.off + num(k * es)), es, et) for k in range(n)})
        v = self.load(st, p, i.get("sz", 8), ty)
        return v

    def op_store(self, i, b, st):
        v = self.const(i["a"][0]) if i["a"][0][0] not in ("undef", "poison") else Poly.of(atom("sym", "undef"))
        p = self.asptr(self.const(i["a"][1]))
        vty = i["vty"]
        if vty.startswith("<"):
            n, et = vecty(vty)
            es = esize(et)
            v = self.asagg(v)
            for k in range(n):
                self.put(b, i, st, Ptr(p.root, p.off + num(k * es)), v[1].get((k,), ZERO), es)
            return None
        self.put(b, i, st, p, v, i["vsz"])
        return None

    def put(self, b, i, st, p, v, size):
        e = Effect()
        e.kind = "store"
        e.block = b
        e.guard = self.rc[b]
        e.loops = self.loops_at(b)
        e.root = p.root
        e.ofs = p.off
        e.val = v
        e.size = size
        e.ins = i
        e.order = self.order
        e.pre = st["m"].get((p.root, p.off), (None,))[0]
        self.order += 1
        self.effects.append(e)
        self.store(st, p, v, size)

    def arith(self, i, f, lhs=None):
        a, b = self.unpiece(self.const(i["a"][0]) if lhs is None else lhs), self.unpiece(self.const(i["a"][1]))
        if isinstance(a, tuple) or isinstance(b, tuple):
            a, b = self.asagg(a), self.asagg(b)
            ks = set(a[1]) | set(b[1])
            return ("agg", {k: f(self.asint(a[1].get(k, ZERO)), self.asint(b[1].get(k, ZERO))) for k in ks})
        return f(self.asint(a), self.asint(b))

    def op_fadd(self, i, b, st): return self.arith(i, lambda x, y: x + y)
    def op_fsub(self, i, b, st): return self.arith(i, lambda x, y: x - y)
    def op_fmul(self, i, b, st): return self.arith(i, lambda x, y: x * y)
    def op_fdiv(self, i, b, st): return self.arith(i, div)
    def op_mul(self, i, b, st): return self.arith(i, lambda x, y: x * y)

    def op_add(self, i, b, st):
        return self.arith(i, lambda x, y: x + y)

    def op_sub(self, i, b, st):
        return self.arith(i, lambda x, y: x - y)

    def op_fneg(self, i, b, st):
        return -self.asint(self.const(i["a"][0]))

    def op_frem(self, i, b, st):
        return self.arith(i, lambda x, y: fn("fmod", x, y))

    def op_shl(self, i, b, st):
        def f(x, y):
            c = y.as_int()
            if c is not None:
                if c >= 32 and i["ty"] == "i64":
                    x = self.lo32(x)
                return x.scale(1 << c)
            return fn("shl", x, y)
        return self.arith(i, f)

    def op_lshr(self, i, b, st):
        return self.shr(i, "lshr")

    def op_ashr(self, i, b, st):
        return self.shr(i, "ashr")

    def shr(self, i, k):
        a = self.const(i["a"][0])
        if isinstance(a, tuple) and a[0] == "pieces":
            c = self.asint(self.const(i["a"][1])).as_int()
            if c is not None and c % 8 == 0:
                out = tuple((o - c // 8, s, v) for o, s, v in a[1] if o >= c // 8)
                return ("pieces", out)
        # high half of a loaded pair to whose high half a constant was added
        up, v = 0, i["a"][0]
        while i["ty"] == "i64" and v[0] == "v" and v[1] in self.ins:
            j = self.ins[v[1]]
            if j["op"] == "add" and j["a"][1][0] == "int" and j["a"][1][1] % (1 << 32) == 0:
                up += j["a"][1][1] >> 32
                v = j["a"][0]
                continue
            if j["op"] != "load" or j["ty"] != "i64":
                up = 0
            break
        if up:
            a = self.const(v)
            if isinstance(a, tuple) and a[0] == "pieces" and i["a"][1] == ["int", 32, 64]:
                hi = [x for o, z, x in a[1] if o == 4 and z == 4]
                if len(hi) == 1:
                    return self.asint(hi[0]) + num(up)
        def f(x, y):
            c = y.as_int()
            if up:
                pk = x.as_atom()
                if c == 32 and pk is not None and pk.kind == "ld":
                    return Poly.of(atom("ld", pk.args[0], pk.args[1] + num(4), *pk.args[2:])) + num(up)
                x = x + num(up << 32)
            if c is not None and i["a"] and x.t:
                n = 1 << c
                if all((cc / n).denominator == 1 for cc in x.t.values()):
                    return x.scale(Fraction(1, n))
                pk = x.as_atom()
                if c == 32 and pk is not None and pk.kind == "ld" and i["ty"] == "i64":
                    return Poly.of(atom("ld", pk.args[0], pk.args[1] + num(4), *pk.args[2:]))
                if c == 32:
                    # (hi << 32) | lo  packed pairs
                    if self.packed(x):
                        return self.hi32(x)
                return fn("fdivp2", x, y)
            return fn(k, x, y)
        return self.arith(i, f, a if up else None)

    def op_or(self, i, b, st):
        if i["ty"] == "i1":
            return bor(self.asbool(self.const(i["a"][0])), self.asbool(self.const(i["a"][1])))
        def f(x, y):
            if not x.t:
                return y
            if not y.t:
                return x
            # packed pair (hi<<32) | lo
            if i["ty"] == "i64":
                for p, q in ((x, y), (y, x)):
                    if all((c / (1 << 32)).denominator == 1 for c in p.t.values()):
                        return p + q
            cx, cy = x.as_int(), y.as_int()
            if cx is not None and cy is not None:
                return num(cx | cy)
            # disjoint bits: 2*k | 1
            for p, q in ((x, y), (y, x)):
                c = q.as_int()
                if c is not None and c > 0:
                    n = 1 << c.bit_length()
                    if all((cc / n).denominator == 1 for cc in p.t.values()):
                        return p + q
            if i.get("dj"):
                return x + y
            return fn("or", x, y)
        return self.arith(i, f)

    def op_and(self, i, b, st):
        if i["ty"] == "i1":
            return band(self.asbool(self.const(i["a"][0])), self.asbool(self.const(i["a"][1])))
        a0 = self.const(i["a"][0])
        def f(x, y):
            c = y.as_int()
            if c == 0xffffffff:
                return self.lo32(x)
            if c == 0xffffffff00000000 or c == -4294967296:
                return self.hi32(x).scale(1 << 32)
            if c in (2147483648, -2147483648):
                return ite(cmp_lt(self.lo32(x), ZERO, True), num(c), ZERO)
            cx = x.as_int()
            if c is not None and cx is not None:
                return num(cx & c)
            return fn("and", x, y)
        return self.arith(i, f)

    def lo32(self, x):
        """low half of a packed pair lo + 2**32 * hi (coefficients of lo are small)"""
        big = 1 << 32
        out = {}
        extra = ZERO
        for m, c in x.t.items():
            if c.denominator != 1:
                out[m] = c
                continue
            at = atom_of(m)
            if at is not None and at.kind == "ite" and self.packed(Poly({m: c})):
                extra = extra + ite(at.args[0], self.lo32(at.args[1].scale(c)), self.lo32(at.args[2].scale(c)))
                continue
            r = (c.numerator + (big >> 1)) % big - (big >> 1)
            if r:
                out[m] = Fraction(r)
        return Poly(out) + extra

    def packed(self, x):
        for m, c in x.t.items():
            if abs(c) >= (1 << 31):
                return True
            at = atom_of(m)
            if at is not None and at.kind == "ite" and (self.packed(at.args[1]) or self.packed(at.args[2])):
                return True
        return False

    def hi32(self, x):
        # subtract branch by branch so that no difference of two conditionals is left
        out = ZERO
        for m, c in x.t.items():
            at = atom_of(m)
            if at is not None and at.kind == "ite" and self.packed(Poly({m: c})):
                out = out + ite(at.args[0], self.hi32(at.args[1].scale(c)), self.hi32(at.args[2].scale(c)))
            elif at is not None and at.kind == "ev" and c == 1 and not any(k and abs(q) >= 1 << 31 for k, q in x.t.items()):
                # a word pair returned by a call
                out = out + fn("fdivp2", Poly.of(at), num(32))
            else:
                p = Poly({m: c})
                out = out + (p - self.lo32(p)).scale(Fraction(1, 1 << 32))
        return out

    def op_xor(self, i, b, st):
        if i["ty"] == "i1":
            return bxor(self.asbool(self.const(i["a"][0])), self.asbool(self.const(i["a"][1])))
        def f(x, y):
            if y.as_int() == -1:
                return -x - ONE
            return fn("xor", x, y)
        return self.arith(i, f)

    def op_sdiv(self, i, b, st):
        return self.arith(i, idiv)

    op_udiv = op_sdiv

    def op_srem(self, i, b, st):
        return self.arith(i, self.rem)

    @staticmethod
    def rem(x, y):
        a, b = x.as_int(), y.as_int()
        if a is not None and b:
            return num(int(abs(a) % abs(b)) * (1 if a >= 0 else -1))
        if b and all(c % b == 0 for c in x.t.values()):
            return ZERO                 # a multiple, no overflow
        return fn("irem", x, y)

    op_urem = op_srem

    def op_icmp(self, i, b, st):
        return self.cmp(i, True)

    def op_fcmp(self, i, b, st):
        return self.cmp(i, False)

    def cmp(self, i, isint):
        a, c = self.const(i["a"][0]), self.const(i["a"][1])
        pr = i["pred"]
        if i["oty"] == "i1":
            a, c = self.asbool(a), self.asbool(c)
            if pr == "eq":
                return bnot(bxor(a, c))
            if pr == "ne":
                return bxor(a, c)
            a, c = self.asint(a), self.asint(c)
        if i["oty"].startswith("<"):
            return bvar(("b", atom("opaque", self.name, i["id"])))
        if isinstance(a, Ptr) or isinstance(c, Ptr):
            a, c = self.asptr(a), self.asptr(c)
            if a.root is c.root:
                a, c = a.off, c.off
                isint = True
            else:
                n = atom("sym", "null")
                for x, y in ((a, c), (c, a)):
                    if y.root is n and x.root.kind in ("alloca", "glob") or y.root is n and x.root.kind == "sym" and str(x.root.args[0]).startswith("fn:"):
                        return TRUE if pr == "ne" else FALSE
                if a.root is n:
                    a, c = c, a
                v = bvar(("eq", a.poly() - c.poly())) if (a.poly() - c.poly()).t else TRUE
                if pr == "eq":
                    return v
                if pr == "ne":
                    return bnot(v)
                return bvar(("b", atom("pcmp", pr, a, c)))
        a, c = self.asint(a), self.asint(c)
        if a == Poly.of(atom("sym", "nan")) or c == Poly.of(atom("sym", "nan")):
            return FALSE
        if not isint:
            pr = {"ueq": "eq", "oeq": "eq", "une": "ne", "one": "ne", "olt": "lt", "ult": "lt", "ogt": "gt", "ugt": "gt", "ole": "le", "ule": "le", "oge": "ge", "uge": "ge", "ord": "true", "uno": "false"}.get(pr, pr)
        else:
            pr = {"slt": "lt", "ult": "lt", "sgt": "gt", "ugt": "gt", "sle": "le", "ule": "le", "sge": "ge", "uge": "ge"}.get(pr, pr)
        if pr == "true":
            return TRUE
        if pr == "false":
            return FALSE
        if pr == "eq":
            return self.push_eq(a, c)
        if pr == "ne":
            return bnot(self.push_eq(a, c))
        if pr == "lt":
            return self.push_lt(a, c, isint)
        if pr == "gt":
            return self.push_lt(c, a, isint)
        if pr == "le":
            return bnot(self.push_lt(c, a, isint))
        if pr == "ge":
            return bnot(self.push_lt(a, c, isint))
        return bvar(("b", atom("opaque", self.name, i["id"])))

    def push_eq(self, a, c):
        d = a - c
        at = only_ite(d)
        if at is not None:
            x = assume_gate(d, at, 1)
            y = assume_gate(d, at, 0)
            return bite(at.args[0], self.push_eq(x, ZERO), self.push_eq(y, ZERO))
        return cmp_eq(a, c)

    def push_lt(self, a, c, isint):
        d = a - c
        at = only_ite(d)
        if at is not None:
            x = assume_gate(d, at, 1)
            y = assume_gate(d, at, 0)
            return bite(at.args[0], self.push_lt(x, ZERO, isint), self.push_lt(y, ZERO, isint))
        if isint and 0 < len(d.t) <= 4:
            r = grid_fact(d)
            if r is not None:
                return r
        return cmp_lt(a, c, isint)

    def op_select(self, i, b, st):
        c = self.asbool(self.const(i["a"][0]))
        x, y = (self.const(v) if v[0] not in ("undef", "poison") else Poly.of(atom("sym", "undef")) for v in i["a"][1:])
        if i["ty"] == "i1":
            return bite(c, self.asbool(x), self.asbool(y))
        return self.sel(c, x, y)

    def op_sext(self, i, b, st):
        v = self.const(i["a"][0])
        if isinstance(v, BDD):
            return ite(v, num(-1), ZERO)
        return v

    def op_zext(self, i, b, st):
        v = self.const(i["a"][0])
        if isinstance(v, BDD):
            return ite(v, ONE, ZERO)
        return v

    def op_trunc(self, i, b, st):
        v = self.const(i["a"][0])
        if isinstance(v, tuple) and v[0] == "pieces":
            n = int(i["ty"][1:]) // 8 if i["ty"] != "i1" else 1
            for o, s, x in v[1]:
                if o == 0 and s == n:
                    return self.coerce(x, i["ty"])
            return Poly.of(atom("opaque", self.name, i["id"]))
        if i["ty"] == "i1":
            return self.asbool(v)
        if i["ty"] == "i32" and isinstance(v, Poly):
            return self.lo32(v)
        return v

    def op_sitofp(self, i, b, st):
        return self.asint(self.const(i["a"][0]))

    op_uitofp = op_sitofp

    def op_fptosi(self, i, b, st):
        p = self.asint(self.const(i["a"][0]))
        return fptosi(p)

    op_fptoui = op_fptosi

    def op_fpext(self, i, b, st):
        return self.const(i["a"][0])

    op_fptrunc = op_fpext

    def op_bitcast(self, i, b, st):
        return self.coerce(self.const(i["a"][0]), i["ty"])

    def op_ptrtoint(self, i, b, st):
        return self.asint(self.const(i["a"][0]))

    def op_inttoptr(self, i, b, st):
        return self.asptr(self.const(i["a"][0]))

    def op_freeze(self, i, b, st):
        return self.const(i["a"][0])

    def op_extractvalue(self, i, b, st):
        v = self.const(i["a"][0])
        if isinstance(v, tuple) and v[0] == "agg":
            return v[1].get(tuple(i["idx"]), ZERO)
        if isinstance(v, tuple) and v[0] == "agg0":
            return self.mkval(atom("ev", v[1], tuple(i["idx"])), i["ty"])
        return self.mkval(atom("opaque", self.name, i["id"]), i["ty"])

    def op_insertvalue(self, i, b, st):
        v = self.const(i["a"][0]) if i["a"][0][0] not in ("undef", "poison") else ("agg", {})
        d = dict(self.asagg(v)[1]) if isinstance(v, tuple) and v[0] == "agg" else {}
        d[tuple(i["idx"])] = self.const(i["a"][1])
        return ("agg", d)

    def op_extractelement(self, i, b, st):
        v = self.const(i["a"][0])
        k = self.asint(self.const(i["a"][1])).as_int()
        if isinstance(v, tuple) and v[0] == "agg" and k is not None:
            return v[1].get((k,), ZERO)
        return self.mkval(atom("opaque", self.name, i["id"]), i["ty"])

    def op_insertelement(self, i, b, st):
        v = self.const(i["a"][0]) if i["a"][0][0] not in ("undef", "poison") else ("agg", {})
        k = self.asint(self.const(i["a"][2])).as_int()
        d = dict(v[1]) if isinstance(v, tuple) and v[0] == "agg" else {}
        d[(k,)] = self.const(i["a"][1])
        return ("agg", d)

    def op_invoke(self, i, b, st):
        return self.op_call(i, b, st)

    def op_call(self, i, b, st):
        c = i["callee"]
        n = c[1] if c[0] == "fn" else None
        args = []
        for a in i["a"]:
            args.append(self.const(a) if a[0] not in ("undef", "poison") else Poly.of(atom("sym", "undef")))
        if n:
            if n == "VecZeroEntries":
                n, args = "VecSet", args + [ZERO]
            m = self.math(n, args, i)
            if m is not None:
                return m
            if n == "_Znwm" and i["id"] in self.scratch:
                p = Ptr(atom("alloca", self.name, i["id"]), ZERO)
                self.heapsize[p.root] = self.asint(args[0])
                return p
            if n in ("_ZdlPv", "_ZdlPvm") and self.is_scratch(self.asptr(args[0])):
                return None
            if n.startswith("llvm.memset"):
                ln = self.asint(args[2]).as_int()
                p = self.asptr(args[0])
                z = self.asint(args[1]).as_int()
                self.memrange(b, i, st, p, ln, "zero" if z == 0 else None)
                if not self.is_scratch(p):
                    self.effect_call(b, i, n, args, None, st)
                return None
            if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove"):
                ln = self.asint(args[2]).as_int()
                p, q = self.asptr(args[0]), self.asptr(args[1])
                if ln and ln % 8 == 0 and ln <= 24 and p.root.kind not in ("alloca", "glob") and not self.is_scratch(p):
                    # element by element: all read, then all written
                    vs = [self.load(st, Ptr(q.root, q.off + num(k)), 8, "double") for k in range(0, ln, 8)]
                    for k, v in enumerate(vs):
                        self.put(b, i, st, Ptr(p.root, p.off + num(8 * k)), v, 8)
                    return None
                self.memrange(b, i, st, p, ln, ("copy", q.root, q.off, self.copy_state(st)))
                self.effect_call(b, i, n, args, None, st)
                return None
            if n.startswith("llvm.") and i["ty"] == "void":
                return None
        if n and n in MODELS:
            before = self.copy_state(st)
            r = MODELS[n](self, i, args, st)
            if r is not NotImplemented:
                e = self.effect_call(b, i, n, args, r, st)
                e.pre = before
                return r
        name = n or ("*" + str(self.asptr(self.const(c)).show() if c[0] in ("v", "gep", "glob") else c))
        cs = "c%d" % i["id"]
        outs = {}
        before = self.copy_state(st)
        if not self.is_pure(i) and not i.get("ro"):
            for k, (a, t) in enumerate(zip(args, i["at"])):
                if t == "ptr":
                    p = self.asptr(a)
                    if p.root.kind == "sym" and (str(p.root.args[0]).startswith("fn:") or p.root.args[0] == "null"):
                        continue
                    if p.root.kind == "glob" and self.mod.globals.get(p.root.args[0], {}).get("const"):
                        continue
                    if k in READONLY_ARGS.get(name, ()) or k in i.get("bv", ()) or self.keep(name, k):
                        continue
                    outs[k] = p
                    self.clobber(st, p, (self.name, i["id"], k))
        if self.is_pure(i) and n:
            r = Poly.of(atom("fn", n, tuple(self.asint(a) if not isinstance(a, tuple) else str(a) for a in args)))
            ret = r if i["ty"] in ("double", "float") or i["ty"].startswith("i") and i["ty"] != "i1" else self.mkval(r.as_atom(), i["ty"])
        elif i["ty"] != "void":
            ret = self.mkval(atom("ret", name if n else "*", self.name, i["id"]), i["ty"])
        else:
            ret = None
        e = self.effect_call(b, i, name, args, ret, st)
        e.pre = before
        e.fptr = None if n else self.asptr(self.const(c))
        e.outs = outs
        return ret

    def cstring(self, p):
        """text of a constant string"""
        g = self.mod.globals.get(p.root.args[0]) if p.root.kind == "glob" else None
        t = g.get("str") if g else None
        return t if t is not None else str(p)

    def clobber(self, st, p, tag):
        """a callee may write through pointer p: everything in that object changes.
        (PETSc handles are opaque: an object reached through a *value* handle has no tracked cells)"""
        r = p.root
        dead = [k for k in st["m"] if k[0] is r]
        for k in dead:
            del st["m"][k]
        if r.kind in ("alloca", "sym", "glob") or dead or r in st["w"]:
            st["ver"][r] = ("call",) + tag
            st["w"] = dict(st["w"])
            st["w"].pop(r, None)
            st["r"] = dict(st["r"])
            st["r"].pop(r, None)

    def memkill(self, st, p, ln):
        for (rr, o) in list(st["m"]):
            if rr is p.root:
                d = (o - p.off).as_const()
                if d is None or (d < ln and d > -64):
                    if d is not None and d + st["m"][(rr, o)][1] <= 0:
                        continue
                    del st["m"][(rr, o)]

    # -------------------------------------------------------- results
    def cell(self, k, off, ty="double"):
        """final content of the object argument k points to, at byte offset off"""
        return self.load(self.final_state, Ptr(self.argatoms[k], num(off) if not isinstance(off, Poly) else off), esize(ty), ty)

    def memrange(self, b, i, st, p, ln, src):
        r = p.root
        if ln is None or src is None:
            self.clobber(st, p, (self.name, i["id"], 0))
            return
        for (rr, o) in list(st["m"]):
            if rr is r:
                d = (o - p.off).as_const()
                if d is None or (d < ln and d > -64):
                    if d is not None and d + st["m"][(rr, o)][1] <= 0:
                        continue
                    del st["m"][(rr, o)]
        st["r"] = dict(st["r"])
        st["r"][r] = st["r"].get(r, ()) + ((p.off, ln, src),)

    def effect_call(self, b, i, name, args, ret, st):
        e = Effect()
        e.kind = "call"
        e.block = b
        e.guard = self.rc[b]
        e.loops = self.loops_at(b)
        e.name = name
        e.args = args
        e.ret = ret
        e.ins = i
        e.order = self.order
        e.outs = {}
        e.pre = st if name.startswith("llvm.mem") else self.copy_state(st)
        self.order += 1
        self.effects.append(e)
        return e

    def math(self, n, args, i):
        b = n
        if n.startswith("llvm."):
            b = n.split(".")[1]
        if b == "fmuladd" or b == "fma":
            x, y, z = (self.asint(a) for a in args)
            return x * y + z
        if b in PURE_MATH:
            return fnorm(b, [self.asint(a) for a in args])
        if n.startswith("llvm."):
            if b in ("smax", "umax", "maxnum", "maximum"):
                return mxmn("max", self.asint(args[0]), self.asint(args[1]))
            if b in ("smin", "umin", "minnum", "minimum"):
                return mxmn("min", self.asint(args[0]), self.asint(args[1]))
            if b == "abs":
                return fnorm("fabs", [self.asint(args[0])])
            if b in ("powi",):
                k = self.asint(args[1]).as_int()
                if k is not None:
                    return self.asint(args[0]).pow(k)
            if b in ("expect",):
                return args[0]
        return None


# ---- models of the PETSc / MPI queries whose results are functions of their arguments
MODELS = {}
INFO_FIELDS = {"dim": 0, "dof": 4, "sw": 8, "mx": 12, "my": 16, "mz": 20, "xs": 24, "ys": 28, "zs": 32, "xm": 36, "ym": 40, "zm": 44,
               "gxs": 48, "gys": 52, "gzs": 56, "gxm": 60, "gym": 64, "gzm": 68, "bx": 72, "by": 76, "bz": 80, "st": 84}


def hkey(v):
    """hashable identity of an argument value"""
    if isinstance(v, Ptr):
        return v.root if not v.off.t else ("p", v.root, v.off)
    return v


def model(name):
    def d(f):
        MODELS[name] = f
        return f
    return d


def grid_fact(d):
    """d < 0, decided from what PETSc guarantees of an owned range: the start is not negative and the
    end is not beyond the number of points.  None: says nothing"""
    k = Fraction(d.t.get((), 0))
    at = {}
    for m, c in d.t.items():
        if m == ():
            continue
        a = atom_of(m)
        if a is None or a.kind != "info" or abs(c) != 1:
            return None
        at[a.args[0]] = (c, a.args[1])
    if not at or len({dm for c, dm in at.values()}) != 1 or k.denominator != 1:
        return None
    for x in "xyz":
        for want in ({x + "s": 1}, {x + "s": -1, x + "m": -1, "m" + x: 1}):
            if set(want) != set(at):
                continue
            for sg in (1, -1):
                if all(at[f][0] == sg * w for f, w in want.items()):
                    n = d - num(k) if sg == 1 else num(k) - d       # not negative
                    if sg == 1:
                        if k >= 0:
                            return FALSE
                        return cmp_eq(n, ZERO) if k == -1 else None
                    if k < 0:
                        return TRUE
                    return bnot(cmp_eq(n, ZERO)) if k == 0 else None
    return None


def info(dm, field):
    return Poly.of(atom("info", field, dm))


@model("DMDAGetLocalInfo")
def _m_info(F, i, args, st):
    dm = hkey(F.asptr(args[0]))
    p = F.asptr(args[1])
    F.memkill(st, p, 96)
    for f, o in INFO_FIELDS.items():
        F.store(st, Ptr(p.root, p.off + num(o)), info(dm, f), 4)
    F.store(st, Ptr(p.root, p.off + num(88)), F.asptr(args[0]), 8)
    return ZERO


DMDA_GETINFO = ["dim", "mx", "my", "mz", "m", "n", "p", "dof", "sw", "bx", "by", "bz", "st"]


@model("DMDAGetInfo")
def _m_getinfo(F, i, args, st):
    dm = hkey(F.asptr(args[0]))
    for f, a in zip(DMDA_GETINFO, args[1:]):
        p = F.asptr(a)
        if p.root is atom("sym", "null"):
            continue
        F.store(st, p, info(dm, f), 4)
    return ZERO


def _corners(fs):
    def m(F, i, args, st):
        dm = hkey(F.asptr(args[0]))
        for f, a in zip(fs, args[1:]):
            p = F.asptr(a)
            if p.root is atom("sym", "null"):
                continue
            F.store(st, p, info(dm, f), 4)
        return ZERO
    return m


MODELS["DMDAGetCorners"] = _corners(["xs", "ys", "zs", "xm", "ym", "zm"])
MODELS["DMDAGetGhostCorners"] = _corners(["gxs", "gys", "gzs", "gxm", "gym", "gzm"])


def out_model(name, key, outk, *argk):
    """name(..., &out): *out becomes the atom (key, arguments)"""
    def m(F, i, args, st):
        p = F.asptr(args[outk])
        F.store(st, p, Ptr(atom(key, *[hkey(args[k] if not isinstance(args[k], Ptr) else F.asptr(args[k])) for k in argk]), ZERO), 8)
        return ZERO
    MODELS[name] = m


out_model("DMDAVecGetArrayDOF", "arr", 2, 0, 1)
out_model("DMDAVecGetArrayDOFRead", "arr", 2, 0, 1)
out_model("DMDAVecGetArray", "arr", 2, 0, 1)
out_model("DMDAVecGetArrayRead", "arr", 2, 0, 1)
out_model("MatShellGetContext", "shellctx", 1, 0)


def _vals(F, args, k):
    v = args[k]
    return hkey(F.asptr(v)) if isinstance(v, Ptr) else v


def out_unique(name, outk, *nullk):
    """name(..., &out): a new handle, distinct from every other"""
    def m(F, i, args, st):
        F.store(st, F.asptr(args[outk]), Ptr(atom("out", name, F.name, i["id"]), ZERO), 8)
        return ZERO
    MODELS[name] = m


for _n in ("DMGetLocalVector", "DMGetGlobalVector", "DMCreateGlobalVector", "DMCreateLocalVector", "VecDuplicate", "MatCreateVecs"):
    out_unique(_n, 1)


for _n, _k in (("DMDACreate2d", 12), ("DMDACreate3d", 16), ("DMCompositeCreate", 1)):
    out_unique(_n, _k)


@model("PetscMallocA")
def _m_malloc(F, i, args, st):
    n = F.asint(args[0]).as_int()
    if n is None:
        return NotImplemented
    for k in range(n):
        F.store(st, F.asptr(args[6 + 2 * k]), Ptr(atom("out", "PetscMalloc", F.name, i["id"], k), ZERO), 8)
    return ZERO


@model("DMDAGetOwnershipRanges")
def _m_ranges(F, i, args, st):
    for k, a in enumerate(args[1:]):
        p = F.asptr(a)
        if p.root is not atom("sym", "null"):
            F.store(st, p, Ptr(atom("ranges", _vals(F, args, 0), num(k)), ZERO), 8)
    return ZERO


def out_null(name, *outk):
    """name(..., &handle): the handle is given back and the variable reset"""
    def m(F, i, args, st):
        for k in outk:
            F.store(st, F.asptr(args[k]), Ptr(atom("sym", "null"), ZERO), 8)
        return ZERO
    MODELS[name] = m


for _n in ("DMRestoreLocalVector", "DMRestoreGlobalVector"):
    out_null(_n, 1)
for _n in ("DMDAVecRestoreArrayDOF", "DMDAVecRestoreArrayDOFRead", "DMDAVecRestoreArray", "DMDAVecRestoreArrayRead"):
    out_null(_n, 2)
for _n in ("VecDestroy", "MatDestroy", "DMDestroy", "KSPDestroy"):
    out_null(_n, 0)


@model("PetscObjectTypeCompare")
def _m_tycmp(F, i, args, st):
    g = F.asptr(args[1])
    F.store(st, F.asptr(args[2]), Poly.of(atom("tycmp", _vals(F, args, 0), F.cstring(g))), 4)
    return ZERO


@model("DMCompositeGetNumberDM")
def _m_ndm(F, i, args, st):
    F.store(st, F.asptr(args[1]), Poly.of(atom("ndm", _vals(F, args, 0))), 4)
    return ZERO


@model("DMCompositeGetEntries")
def _m_entries(F, i, args, st):
    for k, a in enumerate(args[1:]):
        p = F.asptr(a)
        if p.root is not atom("sym", "null"):
            F.store(st, p, Ptr(atom("entry", _vals(F, args, 0), num(k)), ZERO), 8)
    return ZERO


@model("DMCompositeGetEntriesArray")
def _m_entarr(F, i, args, st):
    p = F.asptr(args[1])
    F.clobber(st, p, (F.name, i["id"], 1))
    st["r"] = dict(st["r"])
    st["r"][p.root] = ((p.off, 0, ("entries", _vals(F, args, 0))),)
    return ZERO


@model("_ZN5cafes5petsc6get_DMEP5_p_DMi")
def _m_getdm(F, i, args, st):
    # verified on its own by P10
    return Ptr(atom("entry", _vals(F, args, 0), F.asint(args[1])), ZERO)


@model("DMCompositeGetAccessArray")
def _m_acc(F, i, args, st):
    n = F.asint(args[2]).as_int()
    if n is None or n > 8:
        return NotImplemented
    w, o = F.asptr(args[3]), F.asptr(args[4])
    for k in range(n):
        e = F.asint(F.load(st, Ptr(w.root, w.off + num(4 * k)), 4, "i32"))
        F.store(st, Ptr(o.root, o.off + num(8 * k)), Ptr(atom("sub", _vals(F, args, 0), _vals(F, args, 1), e), ZERO), 8)
    return ZERO


@model("DMCompositeRestoreAccessArray")
def _m_racc(F, i, args, st):
    n = F.asint(args[2]).as_int()
    if n is None or n > 8:
        return NotImplemented
    o = F.asptr(args[4])
    vs = []
    for k in range(n):
        vs.append(F.asptr(F.load(st, Ptr(o.root, o.off + num(8 * k)), 8, "ptr")))
        F.store(st, Ptr(o.root, o.off + num(8 * k)), Ptr(atom("sym", "null"), ZERO), 8)
    return ZERO


def mxmn(k, a, b):
    if a == b:
        return a
    c = cmp_lt(a, b)
    return ite(c, b, a) if k == "max" else ite(c, a, b)


def fptosi(p):
    c = p.as_const()
    if c is not None:
        return num(int(c))
    a = p.as_atom()
    if integral(p):
        return p
    if a is not None and a.kind == "ite":
        return ite(a.args[0], fptosi(a.args[1]), fptosi(a.args[2]))
    return fn("toint", p)


def idiv(x, y):
    c, d = x.as_int(), y.as_int()
    if c is not None and d:
        q = abs(c) // abs(d)
        return num(q if (c >= 0) == (d > 0) else -q)
    if d:
        if all((k / d).denominator == 1 for k in x.t.values()):
            return x.scale(Fraction(1, d))
    return fn("idiv", x, y)


def only_ite(d):
    """an ite atom occurring in d, when d is small enough to push the comparison inside"""
    if len(d.t) > 12:
        return None
    for a in d.atoms():
        if a.kind == "ite":
            return a
    return None


def assume_gate(d, at, val):
    return rewrite(d, lambda a: (at.args[1] if val else at.args[2]) if a is at else (Poly.of(a)))


def vecty(t):
    n, et = t[1:-1].split(" x ")
    return int(n), et


def esize(t):
    return {"double": 8, "i64": 8, "ptr": 8, "i32": 4, "float": 4, "i8": 1, "i16": 2}.get(t, 8)
