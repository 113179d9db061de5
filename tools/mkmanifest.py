#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from suites.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H); sys.path.insert(0, os.path.join(H, "lib"))
import suites
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 lib/build.py plain san", "checks": [], "not_applicable": []}
for i in ids:
    p = suites.PROPERTIES.get(i)
    if not p: m["not_applicable"].append({"property": i, "reason": getattr(suites, "NOT_CLAIMED", {}).get(i, "No check has been built yet.")}); continue
    m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
        "technique": p["technique"], "level": p["level"], "level_note": "Exhaustive within: " + p["bounds"] + ". Assumes: " + " ".join(p["assumptions"])})
m["notes"] = "All checks compile the library from /repo's working tree unmodified (no hooks)."
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
