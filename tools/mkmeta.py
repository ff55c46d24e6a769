#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table in tools/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        d = {k: p[k] for k in ("id", "title", "statement")}
        d["quantifier"] = {"over": p["over"], "text": p["text"]}
        d["why_tests_cant"] = p["why"]
        d["anchors"] = {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
for p in PROPS:
    if "na" in p:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "python3 check.py " + p["id"],
                            "technique": p["technique"], "level": p.get("level", "proof"), "level_note": p["note"]})
m["notes"] = "All checks are static: they compile thin witnesses against /repo's headers to LLVM IR and decide by dataflow over the SSA form; nothing of /repo is executed. Known findings and fixes: known_findings.json."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
