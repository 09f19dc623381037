#!/usr/bin/env python3
"""Runs the single case described by a replay file again, verbosely."""
import json, os, subprocess, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
j = json.load(open(sys.argv[1]))
exe, msg = B.build(j.get("flavour", "asan"))
if not exe:
    print(msg); sys.exit(3)
d = "/tmp/tpreplay"
shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=98", UBSAN_OPTIONS="print_stacktrace=1:exitcode=98", LC_ALL="C.UTF-8")
rc = subprocess.call([exe, "--prop", j["harness"], "--seed", str(j["seed"]), "--from", str(j["case"]), "--to", str(j["case"] + 1), "--dir", d + "/w",
                      "--artifacts", d + "/a", "-v"] + (["--thorough"] if j["tier"] == "thorough" else []), env=env)
print("artifacts in", d)
sys.exit(rc)
