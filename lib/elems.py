"""What one pass (or several) over lists does to the element with a symbolic index.

Every effect of a function is replayed for one symbolic element K (trip of the
outermost loop) and, inside inner loops, one symbolic trip I of each; reads of a
tracked cell are replaced by its state at the point the read happens, which the
version of the SSA load tells."""
from irx import *
from canon import Canon
from cases import same, splits

K = Poly.of(atom("sym", "K"))
I = [Poly.of(atom("sym", "I%d" % j)) for j in range(8)]
CN = Canon()


class Elems:
    def __init__(self, F, match):
        self.F = F
        self.match = match          # canonical Ptr (trips as K, I..) -> key or None
        self.st = {}
        self.snap = {}
        self.last = {}              # atom -> (guard, increment) of the last trip, in the program's own terms
        self.sums = {}              # atom -> [(inner loops, guard, increment)]
        self.bad = []
        self.nests = []             # outermost loops, in order
        self.red = []               # whole-list events
        self.cur = []
        self.mark = None            # cell whose value at the start of the innermost round is kept apart
        self.order = 0
        self.down, self.seen = set(), set()     # loops counting down; loops whose direction is known

    def get(self, key):
        if key not in self.st:
            self.st[key] = self.init(key)
        return self.st[key]

    def init(self, key):
        return Poly.of(atom("sym", "init", key))

    def trips(self, loops):
        r = {}
        for j, L in enumerate(loops):
            r[L.t] = K if j == 0 else I[j - 1]
            if id(L) in self.down:
                r[L.t] = CN.poly(self.F.closed(L.count)) - num(1) - r[L.t]
        return r

    def cell(self, e):
        """the tracked cell a store writes; a pass from the last element to the first is seen as such"""
        key = self.match(self.addr(Ptr(e.root, e.ofs), e.loops))
        for L in e.loops:
            if key is None and L.count is not None and id(L) not in self.seen:
                self.down.add(id(L))
                key = self.match(self.addr(Ptr(e.root, e.ofs), e.loops))
                if key is None:
                    self.down.discard(id(L))
        if key is not None:
            self.seen |= set(id(L) for L in e.loops)
        return key

    def tsub(self, p, loops):
        tr = self.trips(loops)
        return rewrite(p, lambda a: tr.get(a), {})

    def tbdd(self, g, loops, e=None):
        if g is TRUE or g is FALSE:
            return g
        tr = self.trips(loops)
        g = rewrite_bdd(g, lambda a: self._cell(a, loops), {})
        return rewrite_bdd(CN.bdd(g), lambda a: tr.get(a), {})

    def _cell(self, a, loops):
        if a.kind == "ld":
            key = self.match(self.addr(Ptr(a.args[0], a.args[1]), loops))
            if key is not None:
                return self.state_at(key, a.args[2][0] if len(a.args) > 2 else 0, loops)
        return None

    def addr(self, p, loops):
        q = CN.ptr(p)
        r = self.tsub(Poly.of(q.root), loops).as_atom()
        return Ptr(r, self.tsub(self.F.closed(q.off), loops))

    def value(self, p, loops, e):
        """canonical value with reads of tracked cells resolved"""
        p = self.F.closed(p)
        p = rewrite(p, lambda a: self._cell(a, loops), {})
        return self.tsub(CN.poly(p), loops)

    def state_at(self, key, ver, loops):
        """state of the cell at the point named by the version of a load"""
        h = None
        if isinstance(ver, tuple) and ver:
            if ver[0] == "L":
                h = ("L" if ver[2] in [L.header for L in loops] else "X", ver[2])
            elif ver[0] == "call":
                h = ("call", ver[2])
        elif ver == 0:
            return self.init(key)
        if h is not None and h[0] == "L" and key == self.mark and loops and h[1] == loops[-1].header:
            return Poly.of(atom("sym", "own", key))
        if h is not None and h[0] == "X":
            for x, (k2, ids, part) in self.sums.items():
                Ls = part[0]
                if k2 == key and len(Ls) > 1 and Ls[0] in loops and h[1] in [L.header for L in Ls[1:]]:
                    if h[1] != Ls[-1].header:
                        return Poly.of(atom("sym", "partial", key, h[1]))
                    # the loop is left after its last trip: what the cell held at the start of that trip
                    g, inc = self.last[x]
                    return self.get(key) - ite(self.tbdd(g, loops), self.tsub(inc, loops), ZERO)
        s = self.snap.get(h)
        return s.get(key, self.init(key)) if s is not None else self.get(key)

    def enter(self, loops):
        old, new = self.cur, list(loops)
        n = 0
        while n < len(old) and n < len(new) and old[n] is new[n]:
            n += 1
        for L in old[n:]:
            self.snap[("X", L.header)] = dict(self.st)
        for L in new[n:]:
            self.snap[("L", L.header)] = dict(self.st)
        if new and (not old or old[0] is not new[0]):
            self.nests.append(new[0])
        self.cur = new

    def store(self, e):
        """replay a store to a tracked cell; False when it is not one"""
        loops = e.loops
        self.enter(loops)
        key = self.cell(e)
        if key is None:
            return False
        v = self.value(self.F.asint(e.val), loops, e)
        g = self.guard(e)
        own = self.addr(Ptr(e.root, e.ofs), loops)
        ids = all_atoms(own.off)
        ids.update(all_atoms(Poly.of(own.root)))
        inner = [I[j].as_atom() for j in range(len(loops) - 1)]
        if inner and not all(x.id in ids for x in inner):
            base = self.snap[("L", loops[-1].header)].get(key, self.init(key))
            self.mark = key
            w = self.value(self.F.asint(e.val), loops, e)
            self.mark = None
            own = atom("sym", "own", key)
            if own.id in all_atoms(w - Poly.of(own)):
                self.bad.append((e, "does not add to what was there"))
            inc = v - base
            for s, (k2, Ls, part) in self.sums.items():
                if k2 == key and Ls == tuple(id(x) for x in loops):
                    if part[1] is not g:
                        self.bad.append((e, "adds up under two conditions"))
                    self.sums[s] = (key, Ls, (loops, g, inc))      # the later store holds both
                    self.last[s] = self.raw(e, key)
                    return True
            s = atom("sym", "sum", key, len(self.sums))
            self.sums[s] = (key, tuple(id(x) for x in loops), (loops, g, inc))
            self.last[s] = self.raw(e, key)
            self.st[key] = base + Poly.of(s)
            return True
        self.st[key] = v if g is TRUE else ite(g, v, self.get(key))
        return True

    def raw(self, e, key):
        """(guard, increment) of an accumulating store, keeping the loop counters"""
        drop = lambda a: ZERO if self._cell(a, e.loops) is not None and self.match(self.addr(Ptr(a.args[0], a.args[1]), e.loops)) == key else None
        v = rewrite(self.F.closed(self.F.asint(e.val)), drop, {})
        return CN.bdd(e.guard), CN.poly(v)

    def guard(self, e):
        return self.tbdd(e.guard, e.loops, e)

    def zero(self, e, n):
        p = self.addr(self.F.asptr(e.args[0]), e.loops)
        self.enter(e.loops)
        hit = False
        for o in range(0, n, 8):
            key = self.match(Ptr(p.root, p.off + num(o)))
            if key is not None:
                hit = True
                g = self.guard(e)
                self.st[key] = ZERO if g is TRUE else ite(g, ZERO, self.get(key))
        return hit

    def event(self, e, f):
        """an event on the whole list: f(key, state) -> state"""
        self.enter(e.loops)
        for k in list(self.st):
            self.st[k] = f(k, self.st[k])
        self.snap[("call", e.ins["id"])] = dict(self.st)
        self.red.append(e)
