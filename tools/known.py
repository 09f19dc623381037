#!/usr/bin/env python3
"""Development aid: adds new "fix:" commits of /repo to known_findings.json. Usage: known.py HASH=PROP... (never run by a check)"""
import json, os, subprocess, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
k = json.load(open(p))
have = {e.split()[2] for e in k["fixed"]}
m = dict(a.split("=") for a in sys.argv[1:])
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: ") or h in have: continue
    if h not in m: print("unmapped:", l); continue
    k["fixed"].append("fixed: property=%s %s %s" % (m[h], h, s[5:]))
json.dump(k, open(p, "w"), indent=1); open(p, "a").write("\n")
