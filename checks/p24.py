"""P24 saved files"""
import re
import xml.etree.ElementTree as ET
from wire import *
from irx import info
from p22 import Report, one, same
TITLE = "Saved fields are complete and described as they are stored"
LEVEL = "proof"
TRUSTED = "clang 18 front end and -O2 IR; irdump; meaning of C++ string and stream insertion; PETSc stores a 2D grid vector as one HDF5 dataset of rows x columns (x components); XDMF lists the slowest dimension first"
EXPLAIN = "save_hdf5 (2D) is reduced to its calls; the insertions into every stream and string are replayed symbolically, which gives the text of the description file with the inserted quantities as symbols; the text is parsed as XML and each grid is compared with the dataset it refers to."
MIN_OBLIGATIONS = 30
WIT = '''
#include <cafes.hpp>
using namespace cafes;
extern "C" int w_save(char const* path, char const* name, Vec sol, DM dm, std::array<double,2> const& h){ return io::save_hdf5<2>(path, name, sol, dm, h); }
'''
KEEP = [r"std::operator<<", r"std::operator\+", r"std::ostream::", r"std::basic_ostream<.*>::", r"basic_[io]?stringstream<.*>::", r"std::basic_ofstream<.*>::", r"std::basic_ios<",
        r"basic_string<.*>::", r"std::__cxx11::to_string", r"std::endl"]
OPN, CLS = "\u2983", "\u2984"


def key(p):
    return (p.root, p.off)


class Text:
    """strings and streams: object -> list of pieces; a piece is ("s", text) or ("v", kind, value)"""

    def __init__(self, m):
        self.m = m
        self.buf = {}
        self.alias = {}      # address of a part, or value returned -> object
        self.files = []      # name, pieces, guards, closed
        self.openf = {}
        self.bad = []
        self.cs = {}         # value of c_str()/data() -> pieces

    def obj(self, p):
        k = key(p)
        for _ in range(8):
            if k not in self.alias:
                break
            k = self.alias[k]
        return k

    def cstr(self, W, v):
        p = W.ptr(v)
        if key(p) in self.cs:
            return list(self.cs[key(p)])
        t = W.F.cstring(p) if p.root.kind == "glob" else None
        if isinstance(t, str) and not t.startswith("&["):
            return [("s", t)]
        return [("v", "text", p)]

    def val(self, W, ty, v):
        """pieces of an inserted / appended value of the (demangled) type"""
        ty = ty.strip()
        if re.search(r"char const\*$", ty):
            return self.cstr(W, v)
        if "basic_string<" in ty:
            k = self.obj(W.ptr(v))
            if k not in self.buf:
                self.bad.append("string of unknown content %s" % (k,))
            return list(self.buf.get(k, ()))
        if ty == "char":
            return [("s", chr(W.num(v).as_int()))]
        if ty in ("double", "float", "long double"):
            return [("v", "real", W.canon.poly(v) if isinstance(v, Poly) else W.num(v))]
        return [("v", "int", W.num(v))]

    def returned(self, W, e, k):
        self.alias[(atom("ret", e.name, W.F.name, e.ins["id"]), ZERO)] = k

    def insert(self, W, e, k, pieces, g):
        if k in self.openf:
            f = self.openf[k]
            f["pieces"] += pieces
            f["guards"].append((g, e))
            if f["closed"]:
                self.bad.append("%s\nwritten after the file is closed" % e.where())
        elif k in self.buf:
            self.buf[k] += pieces
            self.guards.setdefault(k, []).append(g)
        else:
            self.bad.append("%s\ninsertion into an unknown stream %s" % (e.where(), k))
        self.returned(W, e, k)

    guards = {}

    def __call__(self, W, e, nm, g):
        d = self.m.dem.get(e.name)
        if d is None or "std::" not in d:
            return False
        d = re.sub(r", std::allocator<char>(?=\s*>)", "", d).replace(", std::char_traits<char>", "").replace("std::__cxx11::", "std::").replace("std::basic_ostream<char>", "std::ostream")
        a = e.args
        k0 = self.obj(W.ptr(a[0])) if a and isinstance(W.F.asptr(a[0]), Ptr) else None
        ps = re.search(r"\(([^()]*(?:\([^()]*\)[^()]*)*)\)( const)?( &)?$", d)
        ps = [x.strip() for x in re.split(r",(?![^<]*>)", ps.group(1))] if ps and ps.group(1) else []
        name = re.split(r"\((?!\w*\*\))", d, 1)[0]
        short = name.split("::")[-1].split("<char>")[-1]
        if re.search(r"(stringstream|ostringstream)<char>::(basic_|~)", d):
            if "::~" in d:
                self.buf.pop(k0, None)
                return True
            self.buf[k0] = [] if not ps or "basic_string" not in ps[0] else self.val(W, ps[0], a[1])
            p = W.ptr(a[0])
            if "basic_stringstream" in d:
                self.alias[(p.root, p.off + num(16))] = k0
            return True
        if re.search(r"basic_ofstream<char>::", d):
            if "::~" in d or d.endswith("::close()"):
                if k0 in self.openf:
                    f = self.openf[k0]
                    if not f["closed"]:
                        f["guards"].append((g, e))
                    f["closed"] = True
                return True
            if "::open(" in d or "::basic_ofstream(" in d:
                if len(a) < 2:
                    return True
                mode = W.num(a[2]).as_int() if len(a) > 2 else None
                nmv = self.val(W, ps[0], a[1])
                if k0 in self.openf and not self.openf[k0]["closed"]:
                    self.bad.append("%s\nopened while already open" % e.where())
                f = {"name": nmv, "pieces": [], "guards": [(g, e)], "closed": False, "mode": mode, "e": e}
                self.files.append(f)
                self.openf[k0] = f
                return True
            if re.search(r"is_open|good|fail", d):
                return True
        if "operator<<" in d and ("std::ostream& std::operator<<" in d or "std::ostream::operator<<" in d or "ostream& " in d):
            ty = ps[-1] if ps else ""
            if re.search(r"\(\*\)", d):
                pieces = [("s", "\n")]
            else:
                pieces = self.val(W, ty, a[1])
            self.insert(W, e, k0, pieces, g)
            return True
        if re.search(r"ostream::_M_insert<", d):
            ty = re.search(r"_M_insert<([^>]*)>", d).group(1)
            self.insert(W, e, k0, self.val(W, ty, a[1]), g)
            return True
        if re.search(r"ostream::(flush|precision)|ios_base::|basic_ios<", d):
            self.returned(W, e, k0)
            return True
        if re.search(r"stringstream<char>::str\(\) const", d):
            src = self.obj(W.ptr(a[1]))
            self.buf[k0] = list(self.buf.get(src, ()))
            if src not in self.buf:
                self.bad.append("%s\ntext of an unknown stream" % e.where())
            return True
        if re.search(r"basic_string<char>::basic_string(<.*>)?\(", d):
            self.buf[k0] = self.val(W, ps[0], a[1]) if ps and "allocator" not in ps[0] else []
            return True
        if "basic_string<char>::~" in d:
            self.buf.pop(k0, None)
            return True
        if re.search(r"basic_string<char>::(c_str|data)\(\)", d):
            self.cs[(atom("ret", e.name, W.F.name, e.ins["id"]), ZERO)] = list(self.buf.get(k0, ()))
            return True
        if re.search(r"basic_string<char>::(append|operator\+=|push_back)", d):
            self.buf[k0] = self.buf.get(k0, []) + self.val(W, ps[0], a[1])
            self.returned(W, e, k0)
            return True
        if re.search(r"basic_string<char>::(assign|operator=)\(", d):
            self.buf[k0] = self.val(W, ps[0], a[1])
            self.returned(W, e, k0)
            return True
        if "std::operator+" in d:
            self.buf[k0] = self.val(W, ps[0], a[1]) + self.val(W, ps[1], a[2])
            return True
        if "to_string" in d:
            self.buf[k0] = self.val(W, ps[0], a[1])
            return True
        self.bad.append("%s\n%s is not understood" % (e.where(), d))
        return True


def glue(ps):
    """adjacent texts joined"""
    r = []
    for p in ps:
        if p[0] == "s" and r and r[-1][0] == "s":
            r[-1] = ("s", r[-1][1] + p[1])
        elif p != ("s", ""):
            r.append(p)
    return r


def show(ps):
    return "".join(p[1] if p[0] == "s" else "<%s>" % (p[2],) for p in ps)


def run(cx):
    m = cx.ir(WIT, noinline=KEEP, ext=True)
    F = Fn(m, "w_save")
    path, name, sol, dm, h = F.argatoms[:5]
    cx.saw("io::save_hdf5<2>", "io::create_xdmf")
    rank = atom("obj", "rank")
    T = Text(m)
    rguards = []

    def assume(a):
        d = m.dem.get(a.args[0]) if a.kind == "ret" else None
        if d and re.search(r"is_open|good\(|operator bool", d):
            return ONE
        if d and re.search(r"::fail\(|operator!", d):
            return ZERO
        return None

    evg = []

    def on(W, e, nm, g):
        if T(W, e, nm, g):
            return True
        if e.name == "MPI_Comm_rank":
            p = W.ptr(e.args[1])
            W.names[atom("out", e.name, F.name, e.ins["id"])] = Poly.of(rank)
            W.names[atom("rank", W.ptr(e.args[0]).root)] = Poly.of(rank)
            W.put((p.root, p.off), Poly.of(rank))
            rguards.append((W.ptr(e.args[0]), e))
            W._renew()
            return True
        return False
    W = World(F, assume, outs={"DMCompositeGetAccess": [(2, "velocity part"), (3, "pressure part")], "PetscViewerHDF5Open": [(3, "viewer")]})
    W.run(on=on)
    R = Report(cx, W, "save_hdf5")
    R.clean()
    R.returns()
    R(not T.bad, "every insertion is accounted for", "text", "\n".join(T.bad[:3]))
    uv, pv, vw = obj("velocity part", 1), obj("pressure part", 1), obj("viewer", 1)
    x = one(R, W.all("DMCompositeGetAccess"), "components of the solution")
    if x:
        i0, (n, a, made, e) = x
        R(a[0] == of(dm) and a[1] == of(sol), "the components are those of the solution", "components of the solution", "%s\nof %s %s" % (e.where(), a[0], a[1]))
    x = one(R, W.all("PetscViewerHDF5Open"), "data file")
    world = None
    i1 = 0
    if x:
        i1, (n, a, made, e) = x
        world = a[0]
        R(same(a[0], of(atom("ld", atom("glob", "PETSC_COMM_WORLD"), ZERO))) or "PETSC_COMM_WORLD" in str(a[0]), "opened by every process", "data file", "%s\non %s" % (e.where(), a[0]))
        R(a[2] == ONE, "opened for writing", "data file", "%s\nmode %s" % (e.where(), a[2]))
        nm = glue(T.cs.get(key(a[1]), T.cs.get(key(W.ptr(e.args[1])), [("v", "text", a[1])])))
        w = [("v", "text", of(path)), ("s", "/"), ("v", "text", of(name)), ("s", ".h5")]
        R(nm == w, "the data file has the requested name", "data file", "%s\nname %s\nrequired %s" % (e.where(), show(nm), show(w)))
    seen = {}
    views = W.all("VecView")
    for i, (n, a, made, e) in views:
        nms = [(j, y) for j, y in W.all("PetscObjectSetName") if j < i and y[1][0] == a[0]]
        seen.setdefault(nms[-1][1][1][1] if nms else None, []).append((i, a, e))
    for fld, v in (("velocity", uv), ("pressure", pv)):
        xs = seen.get(fld, [])
        R(len(xs) == 1, "the field is stored once under its name", fld, "%d times" % len(xs))
        for i, a, e in xs:
            R(a[0] == of(v), "the dataset holds the field", fld, "%s\nholds %s" % (e.where(), a[0]))
            R(a[1] == of(vw) and i > i1, "written to the data file", fld, "%s\nto %s" % (e.where(), a[1]))
    R(len(views) == 2, "nothing else is stored", "data file", "%d datasets" % len(views))
    lastv = max([i for i, _ in views] or [0])
    for nm, what in (("PetscViewerDestroy", "data file closed"), ("DMCompositeRestoreAccess", "components returned")):
        xs = W.all(nm)
        x = one(R, xs, what)
        if x:
            i, (n, a, made, e) = x
            R(i > lastv, "only after the fields are stored", what, e.where())
            if nm == "DMCompositeRestoreAccess":
                got = [W.arg(y) for y in a]
                c = [W.loc.get((y.root, y.off)) if isinstance(y, Ptr) else None for y in got[2:4]]
                R(got[0] == of(dm) and got[1] == of(sol) and c == [of(uv), of(pv)], "what was taken is returned", what, "%s\n%s" % (e.where(), [str(z) for z in got]))
            else:
                y = a[0]
                R(W.loc.get((y.root, y.off)) == of(vw), "the file opened is the one closed", what, "%s\n%s" % (e.where(), y))
    extra = sorted({v[0] for v in W.ev} & {"VecSet", "VecScale", "VecCopy", "VecAXPY", "VecSetValues"})
    R(not extra, "the solution is left as it is", "solution", str(extra))
    # ---- the description
    R(len(T.files) == 1, "one description file", "description", "%d files" % len(T.files))
    for f in T.files[:1]:
        w = [("v", "text", of(path)), ("s", "/"), ("v", "text", of(name)), ("s", ".xdmf")]
        R(glue(f["name"]) == w, "the description has the requested name", "description", "%s\nname %s\nrequired %s" % (f["e"].where(), show(glue(f["name"])), show(w)))
        R(f["closed"], "the description is closed", "description", f["e"].where())
        R(f["mode"] in (None, 16, 48), "the description is written from the start", "description", "%s\nmode %s" % (f["e"].where(), f["mode"]))
        gs = {g for g, e in f["guards"]}
        R(len(gs) == 1, "all of the description is written", "description", "\n".join("%s if %s" % (e.where(), g) for g, e in f["guards"] if g is not f["guards"][0][0])[:300])
        g = f["guards"][0][0]
        vals = []
        for r in (0, 1, 2, 7):
            c = Canon({rank: num(r)}).bdd(g)
            vals.append(True if c is TRUE else False if c is FALSE else None)
        R(vals == [True, False, False, False] and len(rguards) >= 1 and all("PETSC_COMM_WORLD" in str(p) for p, e in rguards), "process 0 alone writes the description", "description", "%s\nwritten if %s" % (f["e"].where(), g))
        describe(R, F, dm, h, name, glue(f["pieces"]), f["e"])


def describe(R, F, dm, h, name, pieces, e):
    vals = []
    txt = ""
    for p in pieces:
        if p[0] == "s":
            txt += p[1]
        else:
            txt += "%s%d%s" % (OPN, len(vals), CLS)
            vals.append(p)
    try:
        root = ET.fromstring(txt)
    except ET.ParseError as x:
        R(False, "the description is well formed", "description", "%s\n%s" % (e.where(), x))
        return
    R(True, "the description is well formed", "description")

    def toks(s):
        """list of numbers and symbols; a list of text for anything else"""
        r = []
        for w in (s or "").split():
            q = re.match("^%s(\\d+)%s$" % (OPN, CLS), w)
            if q:
                r.append(vals[int(q.group(1))][2])
            elif re.match(r"^-?\d+(\.\d*)?$", w):
                from fractions import Fraction
                c = Fraction(w)
                r.append(num(c) if c.denominator != 1 else num(int(c)))
            else:
                r.append(w)
        return r

    def words(s):
        s = (s or "").strip()
        r, i = [], 0
        for q in re.finditer("%s(\\d+)%s" % (OPN, CLS), s):
            if q.start() > i:
                r.append(("s", s[i:q.start()]))
            r.append(vals[int(q.group(1))])
            i = q.end()
        if s[i:]:
            r.append(("s", s[i:]))
        return r
    grids = [g for g in root.iter("Grid") if g.get("GridType") in (None, "Uniform")]
    R(root.tag == "Xdmf" and len(grids) == 2, "one grid per field", "description", "%s: %d grids" % (root.tag, len(grids)))
    C = Canon()
    iu, ip = (lambda f, k: info(atom("entry", dm, num(k)), f), None)
    for fld, k, comp, sc in (("velocity", 0, 2, 1), ("pressure", 1, 1, 2)):
        gs = [g for g in grids if [a.get("Name") for a in g.iter("Attribute")] == [fld]]
        R(len(gs) == 1, "the field is described once", fld, "%d times" % len(gs))
        if len(gs) != 1:
            continue
        g = gs[0]
        rows = [iu("my", k), iu("mx", k)]
        tp = [t for t in g if t.tag == "Topology"]
        ok = len(tp) == 1 and tp[0].get("TopologyType", tp[0].get("Type")) == "2DCoRectMesh"
        R(ok, "uniform plane grid", fld, str([t.attrib for t in tp]))
        if ok:
            n = toks(tp[0].get("NumberOfElements") or tp[0].get("Dimensions"))
            R(same_l(n, rows), "node counts are those of the dataset, rows first", fld, "%s\nnode counts %s\nrequired %s" % (e.where(), n, rows))
        ge = [t for t in g if t.tag == "Geometry"]
        ok = len(ge) == 1 and ge[0].get("GeometryType", ge[0].get("Type")) == "ORIGIN_DXDY" and len(ge[0].findall("DataItem")) == 2
        R(ok, "geometry is an origin and two steps", fld, str([t.attrib for t in ge]))
        if ok:
            o, s = ge[0].findall("DataItem")
            R(all(x.get("Format") == "XML" and toks(x.get("Dimensions")) == [num(2)] for x in (o, s)), "origin and steps are two numbers each", fld, str((o.attrib, s.attrib)))
            R(same_l(toks(o.text), [ZERO, ZERO]), "origin of the grid", fld, str(toks(o.text)))
            w = [Poly.of(atom("ld", h, num(8 * i))).scale(sc) for i in range(2)]
            R(same_l(toks(s.text), w), "steps are the cell sizes of the grid, x then y", fld, "%s\nsteps %s\nrequired %s" % (e.where(), toks(s.text), w))
        at = g.findall("Attribute")[0] if g.findall("Attribute") else None
        R(at is not None and at.get("Center") == "Node" and at.get("AttributeType") == ("Vector" if comp == 2 else "Scalar"), "values are at the nodes", fld, str(at is not None and at.attrib))
        di = at.findall("DataItem") if at is not None else []
        R(len(di) == 1 and di[0].get("Format") == "HDF" and di[0].get("DataType") in ("Float", None), "values come from the data file", fld, str([x.attrib for x in di]))
        for x in di[:1]:
            R((x.get("Precision"), x.get("NumberType", "Float")) == ("8", "Float"), "values are double precision", fld, str(x.attrib))
            n = toks(x.get("Dimensions"))
            w = rows + ([num(2)] if comp == 2 else [])
            R(same_l(n, w), "dimensions are those of the dataset", fld, "%s\ndimensions %s\nrequired %s" % (e.where(), n, w))
            r = words(x.text)
            w = [("v", "text", of(name)), ("s", ".h5:/" + fld)]
            R(r == w, "refers to the dataset of the field", fld, "%s\nrefers to %s\nrequired %s" % (e.where(), show(r), show(w)))
        R(len(g.findall("Attribute")) == 1, "nothing else is described", fld, "")


def same_l(a, b):
    return len(a) == len(b) and all(isinstance(x, Poly) and same(x, y) for x, y in zip(a, b))
