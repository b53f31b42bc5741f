#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json
import os
import sys

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
sys.dont_write_bytecode = True
import props  # noqa: E402

with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in props.P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p.get("over", ["inputs"]), "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")
checks, na = [], []
for p in props.P:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({"property": p["id"], "quick_cmd": f"python3-vt check.py {p['id']}", "thorough_cmd": f"python3-vt check.py {p['id']}",
                   "technique": p["tech"], "level": "other", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "python3-vt -m compileall -q gwstat checks specs check.py >/dev/null 2>&1; true", "checks": checks, "not_applicable": na,
     "notes": "Every check parses /repo's current source on each run and decides from it; nothing of GWInferno is imported or executed. "
              "A verdict 'undecided' (construct outside the modelled language, entry point removed) is reported in the evidence and is never an alarm."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
