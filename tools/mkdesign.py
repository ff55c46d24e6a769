"""DESIGN.md: tools/design_head.md, one section per property from tools/props.py and the checks, tools/design_tail.md"""
import ast, glob, json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
from props import PROPS
NUM = json.load(open(os.path.join(H, "cost.json")))


def const(pid, name):
    p = os.path.join(H, "..", "checks", pid.lower() + ".py")
    if not os.path.exists(p):
        return ""
    for n in ast.parse(open(p).read()).body:
        if isinstance(n, ast.Assign) and n.targets[0].id == name if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) else False:
            return ast.literal_eval(n.value)
    return ""


out = [open(os.path.join(H, "design_head.md")).read()]
for p in PROPS:
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append(p["statement"] + "\n")
    if "na" in p:
        out.append("*Not applicable:* " + p["na"] + "\n")
        continue
    out.append("*Decided by:* " + p["technique"] + ". " + const(p["id"], "EXPLAIN") + "\n")
    out.append("*Range:* " + p["text"] + "; nothing is bounded or sampled beyond that.\n")
    out.append("*Why tests cannot settle it:* " + p["why"] + "\n")
    out.append("*Trusted:* " + const(p["id"], "TRUSTED") + ".\n")
    c = NUM.get(p["id"])
    if c:
        out.append("*Cost:* %s\n" % c)
rows = ["| seed | breaks | needs | change | caught by |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(H, "..", "seeded", "s*", "meta.json"))):
    j = json.load(open(d))
    rows.append("| %s | %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), j["property"], j["needs"], j["what_it_breaks"], j.get("caught_by", j["property"])))
out.append(open(os.path.join(H, "design_tail.md")).read().replace("SEEDTABLE", "\n".join(rows)))
s = open(os.path.join(H, "..", "known_findings.json")).read()
k = json.loads(s)
out.append("## Genuine defects found and repaired\n")
out += ["- " + x.replace("fixed: property=", "") for x in k["fixed"]]
out.append("\n## Genuine defects recorded but not repaired\n")
out += ["- %s" % (x if isinstance(x, str) else "%s: %s" % (x.get("property"), x.get("what", x))) for x in k["findings"]] or ["None."]
open(os.path.join(H, "..", "DESIGN.md"), "w").write("\n".join(out) + "\n")
