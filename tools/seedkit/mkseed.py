#!/usr/bin/env python3
"""mkseed.py ID PROP FILE <<< JSON {needs, what_it_breaks, edits: [[file, old, new]...], demo: python}: creates /verif/seeded/ID."""
import json, os, shutil, subprocess, sys
def make(ID, prop, needs, breaks, edits, demo):
    here = os.path.dirname(os.path.abspath(__file__))
    d = "/verif/seeded/" + ID
    os.makedirs(d, exist_ok=True)
    for s, t in (("tp.cpp", "tp.cpp"), ("mk.py", "mk.py"), ("run.sh", "demo.sh")):
        shutil.copy(os.path.join(here, s), os.path.join(d, t))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.py"), "w").write("from mk import *\n" + demo.strip() + "\n")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    tmp = "/tmp/mkseed_repo"
    subprocess.run(["rm", "-rf", tmp]); subprocess.run(["git", "clone", "-q", "/repo", tmp], check=True)
    for f, old, new in edits:
        p = os.path.join(tmp, f); s = open(p).read()
        if s.count(old) != 1:
            sys.exit("%s: %d matches in %s for %r" % (ID, s.count(old), f, old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", tmp, "diff"], stdout=subprocess.PIPE, text=True, check=True).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    subprocess.run(["rm", "-rf", tmp])
