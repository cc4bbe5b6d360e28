#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H); sys.path.insert(0, H)
from props import PROPS
with open(os.path.join(V, "properties.jsonl"), "w") as o:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]: a["observe_at"] = p["observe"]
        a["hook_needed"] = None
        o.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                 "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                 "technique": "static analysis: " + p["technique"], "level": "other", "level_note": p["note"]} for p in PROPS if not p["na"]],
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in PROPS if p["na"]],
     "notes": "All checks decide from the source text of /repo's working tree through clang's front end (engine/exporter.cpp); nothing of /repo is executed."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
