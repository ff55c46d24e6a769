"""Shared driver: compile a witness against /repo's current headers, dump its IR,
run a check, write evidence / replay / verdict lines."""
import os, re, sys, time, json, subprocess, hashlib, tempfile, shutil, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CAFES_REPO", "/repo")
LLVM = "/usr/lib/llvm-18"
CLANG = LLVM + "/bin/clang++"
CFLAGS = ["-std=gnu++14", "-I" + REPO + "/cafes", "-I" + REPO + "/external_packages/qhull",
          "-I/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real/include",
          "-I/usr/include/hdf5/openmpi", "-I/usr/lib/x86_64-linux-gnu/openmpi/include",
          "-include", "/opt/vp/support/petsc_compat.h", "-w"]
OPT = ["-O2", "-fno-exceptions", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off",
       "-mllvm", "-inline-threshold=1000000", "-mllvm", "-unroll-threshold=1000000",
       "-mllvm", "-unroll-allow-partial=false", "-mllvm", "-unroll-runtime=false",
       "-mllvm", "-enable-pre=false", "-mllvm", "-enable-load-pre=false", "-mllvm", "-disable-licm-promotion",
       "-mllvm", "-memdep-block-scan-limit=100000", "-mllvm", "-memdep-block-number-limit=100000", "-mllvm", "-memssa-check-limit=100000", "-g1"]


class Broken(Exception):
    """the analysis could not be carried out (anchor vanished, does not compile...)"""


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, **k)


def irdump():
    src = os.path.join(VERIF, "tools", "irdump.cpp")
    d = os.path.join(VERIF, "build")
    h = hashlib.sha1(open(src, "rb").read()).hexdigest()[:12]
    exe = os.path.join(d, "irdump-" + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(d, exist_ok=True)
    tmp = exe + ".%d" % os.getpid()
    r = sh(["g++", "-O1", "-std=c++17", "-fno-rtti", "-w", "-I" + LLVM + "/include", "-D__STDC_CONSTANT_MACROS",
            "-D__STDC_LIMIT_MACROS", src, "-o", tmp, "-L" + LLVM + "/lib", "-lLLVM-18"])
    if r.returncode:
        raise Broken("irdump does not build: " + r.stderr[:2000])
    os.rename(tmp, exe)
    return exe


class Ctx:
    def __init__(self, pid, title):
        self.pid = pid
        self.title = title
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.obl = []         # (rule, instance, ok, detail)
        self.functions = set()
        self.notes = []
        self.tmp = tempfile.mkdtemp(prefix="cafes-%s-" % pid)
        self.facts = {}

    # ---- building blocks
    def ir(self, source, prefix="w_", extra=(), opt=None, name="w", passes=1, noinline=(), inline=(), ext=False):
        """compile witness text and return the loaded Module.
        noinline: regexes over demangled names of functions kept as calls;
        inline: same, of functions inlined even where LLVM would not (variable-length arrays)"""
        from irx import Module
        exe = irdump()
        cpp = os.path.join(self.tmp, name + ".cpp")
        bc = os.path.join(self.tmp, name + ".bc")
        js = os.path.join(self.tmp, name + ".json")
        open(cpp, "w").write(source)
        O = list(OPT if opt is None else opt)
        r = sh([CLANG] + CFLAGS + O + list(extra) + (["-Xclang", "-disable-llvm-passes"] if noinline or inline else []) + ["-c", "-emit-llvm", cpp, "-o", bc])
        if r.returncode:
            raise Broken("witness %s does not compile against the current tree:\n%s" % (name, r.stderr[:3000]))
        self.dem = {}
        if noinline or inline:
            names = [l.split()[-1] for l in sh([LLVM + "/bin/llvm-nm"] + ([] if ext else ["--defined-only"]) + [bc]).stdout.splitlines() if l.strip()]
            dem = sh([LLVM + "/bin/llvm-cxxfilt"] + names).stdout.splitlines()
            keep = [n for n, d in zip(names, dem) if any(re.search(x, d) for x in noinline)]
            force = [n for n, d in zip(names, dem) if n not in keep and any(re.search(x, d) for x in inline)]
            self.dem = {n: d for n, d in zip(names, dem) if n in keep}
            ml = ["-" + o if not o.startswith("-") else o for i, o in enumerate(O) if i and O[i - 1] == "-mllvm"]
            r = sh([LLVM + "/bin/opt", "-passes=forceattrs,default<O2>", "-vectorize-loops=false", "-vectorize-slp=false"] + ml +
                   ["-force-attribute=%s:noinline" % n for n in keep] + ["-force-attribute=%s:alwaysinline" % n for n in force] + [bc, "-o", bc + "1"])
            if r.returncode:
                raise Broken("opt: " + r.stderr[:1000])
            os.rename(bc + "1", bc)
        if passes:
            r = sh([LLVM + "/bin/opt", "-O2", "-inline-threshold=1000000", "-unroll-threshold=1000000", "-unroll-allow-partial=false", "-unroll-runtime=false",
                    "-enable-pre=false", "-enable-load-pre=false", "-disable-licm-promotion",
                    "-memdep-block-scan-limit=100000", "-memdep-block-number-limit=100000", "-memssa-check-limit=100000", "-vectorize-loops=false", "-vectorize-slp=false", bc, "-o", bc + "2"])
            if r.returncode:
                raise Broken("opt: " + r.stderr[:1000])
            bc += "2"
        with open(js, "w") as f:
            r = subprocess.run([exe, bc, prefix], stdout=f, stderr=subprocess.PIPE, universal_newlines=True)
        if r.returncode:
            raise Broken("irdump: " + r.stderr[:1000])
        m = Module(js)
        m.dem = self.dem
        return m

    def witness(self, fname, **k):
        return self.ir(open(os.path.join(VERIF, "witness", fname)).read(), name=os.path.splitext(fname)[0], **k)

    def check(self, ok, rule, instance, detail=""):
        """one obligation; instance is a stable key"""
        self.obl.append((rule, instance, bool(ok), str(detail) if not ok else ""))
        return ok

    def saw(self, *names):
        self.functions.update(names)

    def need(self, cond, what):
        if not cond:
            raise Broken(what)

    # ---- verdict
    def finish(self, level, explain, trusted):
        known = load_known()
        bad = [o for o in self.obl if not o[2]]
        listed, new = [], []
        for o in bad:
            key = o[0] + "|" + o[1]
            (listed if (self.pid, key) in known else new).append(o)
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        rules = {}
        for r, i, ok, d in self.obl:
            x = rules.setdefault(r, {"obligations": 0, "discharged": 0})
            x["obligations"] += 1
            x["discharged"] += ok
        cov = {
            "obligations": len(self.obl), "discharged": len(self.obl) - len(bad),
            "checker_cmd": "python3 /verif/check.py %s" % self.pid,
            "trusted_base": trusted,
            "explanation": explain,
            "rules": rules,
            "functions_analysed": sorted(self.functions),
            "samples": [{"rule": r, "instance": i} for r, i, ok, d in self.obl[:8]],
            "known_findings": [o[0] + "|" + o[1] for o in listed],
        }
        cov.update(self.facts)
        if self.notes:
            cov["notes"] = self.notes
        out = {"property": self.pid, "tier": self.tier if self.tier in ("quick", "thorough") else "quick", "seed": self.seed, "level": level,
               "coverage": cov, "wall_s": round(time.time() - self.t0, 2)}
        json.dump(out, open(os.path.join(ev, self.pid + ".json"), "w"), indent=1)
        shutil.rmtree(self.tmp, ignore_errors=True)
        for o in listed:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, known[(self.pid, o[0] + "|" + o[1])]))
        if new:
            rp = os.path.join(ev, "%s.violation.txt" % self.pid)
            with open(rp, "w") as f:
                f.write("property %s: %s\n\n" % (self.pid, self.title))
                for r, i, ok, d in new:
                    f.write("rule: %s\nconstruct: %s\n%s\n\n" % (r, i, d))
            for r, i, ok, d in new[:12]:
                print("  %s: %s" % (r, i))
                for l in d.splitlines()[:6]:
                    print("     " + l[:400])
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        print("%s: %d obligations discharged over %d functions in %.1f s (%d known findings)" % (self.pid, len(self.obl) - len(bad), len(self.functions), time.time() - self.t0, len(listed)))
        return 0


def load_known():
    """known_findings.json: {"findings": [{"property","key","what"}], "fixed": [...]}"""
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    d = json.load(open(p))
    return {(f["property"], f["key"]): f["what"] for f in d.get("findings", [])}


def main(argv):
    pid = argv[0]
    mods = [f for f in os.listdir(os.path.join(VERIF, "checks")) if f.startswith(pid.lower()) and f.endswith(".py")]
    if not mods:
        print("no check for " + pid)
        return 2
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    import importlib
    m = importlib.import_module(mods[0][:-3])
    cx = Ctx(pid, m.TITLE)
    ev = os.path.join(VERIF, "evidence", pid + ".json")
    if os.path.exists(ev):
        os.unlink(ev)
    try:
        m.run(cx)
        if not cx.obl:
            raise Broken("no obligation was generated")
        if len(cx.obl) < getattr(m, "MIN_OBLIGATIONS", 1):
            raise Broken("only %d obligations (expected at least %d)" % (len(cx.obl), m.MIN_OBLIGATIONS))
        return cx.finish(getattr(m, "LEVEL", "other"), m.EXPLAIN, m.TRUSTED)
    except Broken as e:
        if any(not o[2] for o in cx.obl):
            rc = cx.finish(getattr(m, "LEVEL", "other"), m.EXPLAIN, m.TRUSTED)
            if rc == 1:
                return 1
        print("ANALYSIS-BROKEN property=%s: %s" % (pid, e))
        return 2
    except Exception as x:
        if type(x).__name__ == "NoReturn":
            cx.check(False, "the function comes back", str(x), "no path of it reaches a return")
            return cx.finish(getattr(m, "LEVEL", "other"), m.EXPLAIN, m.TRUSTED)
        if any(not o[2] for o in cx.obl):
            traceback.print_exc()
            rc = cx.finish(getattr(m, "LEVEL", "other"), m.EXPLAIN, m.TRUSTED)
            if rc == 1:
                return 1
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s" % pid)
        return 2
    finally:
        shutil.rmtree(cx.tmp, ignore_errors=True)
