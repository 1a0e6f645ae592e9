#!/usr/bin/env python3
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["observe"]: a["observe_at"] = p["observe"]
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "notes": "Static analysis only. One checker (checker/, Go) loads /repo's current tree, builds its SSA form and decides the obligations of one property per run; see DESIGN.md."}
for p in PROPS:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": "./run.sh " + p["id"], "thorough_cmd": "./run.sh " + p["id"] + " thorough",
            "technique": p["technique"], "level": "other", "level_note": p["note"]})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
