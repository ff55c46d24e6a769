"""P23 command-line options"""
from wire import *
from p22 import offs, Report, same, is0
TITLE = "Each command-line option sets its own quantity and nothing else"
LEVEL = "proof"
TRUSTED = "clang 18 front end and -O2 IR; irdump; PetscOptionsInt/Real/Bool: the target receives the value given and is left alone without one"
EXPLAIN = "The default constructor and process_options (2D, 3D) are reduced to their stores and option queries; every query's name, kind, default and target are resolved to a member of the options object and compared with the documented table."
MIN_OBLIGATIONS = 60
AX = "xyz"
WIT = '''
#include <cafes.hpp>
using namespace cafes;
'''
W = '''
extern "C" int w_po@(problem::options<@>& o){ return o.process_options(); }
extern "C" void w_df@(problem::options<@>* o){ new((void*)o) problem::options<@>(); }
extern "C" void w_lo@(problem::options<@>& s, void const **__restrict o){ o[0]=&s.mx; o[1]=&s.lx; o[2]=&s.xperiod; o[3]=&s.strain_tensor; o[4]=&s.assembling; o[5]=&s.pmm; o[6]=&s+1; }
'''


def table(S, d):
    """option -> (kind, offset, size, default)"""
    t = {}
    for i in range(d):
        t["-m" + AX[i]] = ("Int", S["mx"] + 4 * i, 4, num(17))
        t["-L" + AX[i]] = ("Real", S["lx"] + 8 * i, 8, ONE)
        t["-%speriod" % AX[i]] = ("Bool", S["xperiod"] + 4 * i, 4, ZERO)
    t["-strain_tensor"] = ("Bool", S["strain_tensor"], 4, ZERO)
    t["-assembling"] = ("Bool", S["assembling"], 4, ZERO)
    t["-PMM"] = ("Bool", S["pmm"], 4, ZERO)
    return t


def rounds(e):
    """the values of the counters of the loops with a constant number of rounds the call is in"""
    r = [{}]
    for L in e.loops:
        n = L.count.as_int() if isinstance(L.count, Poly) else None
        if n is not None and 1 < n <= 16:
            r = [dict(x, **{}) for x in r]
            r = [{**x, L.t: num(k)} for x in r for k in range(n)]
    return r


def name(F, p):
    """text of the option: a constant string, or an entry of a constant table of strings"""
    if p.root.kind == "ld" and p.root.args[0].kind == "glob" and not p.off.t:
        p = F.asptr(F.load(F.new_state(), Ptr(p.root.args[0], p.root.args[1]), 8, "ptr"))
    return F.cstring(p)


def through(F, e, k, t, stores, X, sub, spec):
    """the query fills a local variable: the member that variable is then copied to
    (always, if it held the member before; or if the query reports the option as given)"""
    flag = F.asptr(e.args[k + 1])
    local = {t.root: k}
    if flag.root.kind == "alloca":
        local[flag.root] = k + 1
    for s in stores:
        if [L.t for L in s.loops] != [L.t for L in e.loops]:
            continue
        # variables read where the copy is made: as this query left them
        reads = [a for a in all_atoms(ite(s.guard, F.asint(s.val), num(-1))).values() if a.kind == "ld" and a.args[0] in local]
        if not any(a.args[0] is t.root for a in reads) or any(a.args[2] != (("call", F.name, e.ins["id"], local[a.args[0]]), 0) for a in reads):
            continue
        p = X.ptr(Ptr(s.root, s.ofs))
        if spec is None:
            return p, [id(s)]
        cur = Poly.of(atom("ld", p.root, p.off))
        after = ite(X.bdd(s.guard), X.poly(F.asint(s.val)), cur)
        before = X.poly(F.asint(F.load(F.copy_state(e.pre), F.asptr(e.args[k]), spec[2], "double" if spec[0] == "Real" else "i32")))
        new = Poly.of(atom("ld", t.root, t.off))
        want = [new] if before == cur else []
        if len(local) == 2:
            f = Poly.of(atom("ld", flag.root, flag.off))
            want += [ite(bnot(cmp_eq(f, ZERO)), new, cur), ite(cmp_eq(f, ZERO), cur, new), ite(cmp_eq(f, ONE), new, cur), ite(bnot(cmp_eq(f, ONE)), cur, new)]
        if any(same(after, w) for w in want):
            return p, [id(s)]
    return t, []


def run(cx):
    m = cx.ir(WIT + "".join(W.replace("@", str(d)) for d in (2, 3)))
    for d in (2, 3):
        S = offs(m, "w_lo%d" % d, ["mx", "lx", "xperiod", "strain_tensor", "assembling", "pmm", "end"])
        T = table(S, d)
        F = Fn(m, "w_df%d" % d)
        cx.saw("options<%d>::options" % d, "options<%d>::process_options" % d)
        C = Canon()
        for n, (k, off, size, dv) in sorted(T.items()):
            v = C.poly(F.asint(F.load(F.final_state, Ptr(F.argatoms[0], num(off)), size, "double" if k == "Real" else "i32")))
            cx.check(v == dv, "value when the option is not given", "%dD %s" % (d, n), "value %s\nrequired %s" % (v, dv))
        F = Fn(m, "w_po%d" % d)
        o = F.argatoms[0]
        seen = {}
        odd = []
        through_ = set()
        later = []            # members written from the local variable a query filled
        for e in F.effects:
            g = C.bdd(e.guard)
            if g is FALSE:
                continue
            if e.kind == "store":
                p = C.ptr(Ptr(e.root, e.ofs))
                if p.root is o:
                    later.append(e)
                continue
            if e.name.startswith("llvm.") or e.name in ("PetscOptionsGetenv",):
                continue
            k = {"PetscOptionsInt_Private": "Int", "PetscOptionsReal_Private": "Real", "PetscOptionsBool_Private": "Bool"}.get(e.name)
            q = {"PetscOptionsGetInt": "Int", "PetscOptionsGetReal": "Real", "PetscOptionsGetBool": "Bool"}.get(e.name)
            if k or q:
                for sub in rounds(e):
                    X = Canon(sub)
                    n = name(F, X.ptr(F.asptr(e.args[1 if k else 2])))
                    ki = 5 if k else 3
                    t = X.ptr(F.asptr(e.args[ki]))
                    if t.root.kind == "alloca":
                        t, used = through(F, e, ki, t, [s for s in F.effects if s.kind == "store" and X.ptr(Ptr(s.root, s.ofs)).root is o], X, sub, T.get(n))
                        through_.update(used)
                    seen.setdefault(n, []).append((k or q, t, X.poly(F.asint(e.args[4])) if k else None, g, e))
                continue
            if e.name in ("PetscOptionsBegin_Private", "PetscOptionsEnd_Private"):
                continue
            for a in e.args:
                if isinstance(a, Ptr) and C.ptr(F.asptr(a)).root is o:
                    odd.append("%s\npasses the options to %s" % (e.where(), e.name))
        odd += ["%s\nwrites %s" % (e.where(), C.ptr(Ptr(e.root, e.ofs))) for e in later if id(e) not in through_]
        cx.check(not odd, "nothing else is changed", "%dD" % d, "\n".join(odd[:3]))
        for n, (k, off, size, dv) in sorted(T.items()):
            inst = "%dD %s" % (d, n)
            x = seen.get(n, [])
            cx.check(len(x) == 1, "the option is known, once", inst, "%d times" % len(x))
            for kk, t, cur, g, e in x[:1]:
                cx.check(kk == k, "the option has its type", inst, "%s\n%s, required %s" % (e.where(), kk, k))
                cx.check(t == Ptr(o, num(off)), "the option sets its own quantity", inst, "%s\nwrites %s\nrequired %s" % (e.where(), t, Ptr(o, num(off))))
                cx.check(cur is None or cur == Poly.of(atom("ld", o, num(off))), "the value reported by -help is the current one", inst, "%s\nvalue %s" % (e.where(), cur))
                cx.check(g is TRUE, "the option is read unconditionally", inst, "%s\nonly if %s" % (e.where(), g))
        extra = sorted(set(seen) - set(T))
        bad = [n for n in extra if seen[n][0][1].root is o and S["mx"] <= (seen[n][0][1].off.as_int() if seen[n][0][1].off.as_int() is not None else S["mx"]) < S["end"]]
        cx.check(not bad, "no other option changes these quantities", "%dD" % d, str(bad))
        r = [C.poly(F.asint(v)) for g, v in F.rets]
        cx.check(len(r) == 1 and r[0] == ZERO, "returns success", "%dD" % d, str(r)[:200])
