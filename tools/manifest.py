#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/checks.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "python3 tools/build.py asan && python3 tools/build.py tsan",
     "checks": [], "not_applicable": []}
for p in props:
    c = CHECKS.get(p)
    if c:
        m["checks"].append({"property": p, "quick_cmd": "python3 tools/check.py %s quick" % p,
            "thorough_cmd": "python3 tools/check.py %s thorough" % p, "evidence_file": "evidence/%s.json" % p,
            "technique": c["technique"], "level": c.get("level", "exploration"), "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": "No check registered yet: its monitors are still being built."})
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
