#!/usr/bin/env python3
"""Runs the check of one property: builds, runs the cases in watched workers, judges, writes the evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from checks import CHECKS

VERIF = B.VERIF
WORKERS = 8

def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]

def crash_key(stderr, rc):
    """Classifies an abnormal end by kind and first frames within the code under observation."""
    kind = "signal%d" % -rc if rc < 0 else "exit%d" % rc
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", stderr)
    if m:
        kind = m.group(1)
    m2 = re.search(r"runtime error: ([^\n]+)", stderr)
    if m2 and not m:
        kind = "UB " + re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e\+?\d+)?", "N", m2.group(1))[:80]
    if "ThreadSanitizer" in stderr:
        m3 = re.search(r"ThreadSanitizer: ([\w -]+?) \(", stderr)
        kind = "tsan " + (m3.group(1) if m3 else "report")
    if "TPCHECK-HANG" in stderr:
        kind = "hang"
    if "TPCHECK-RUNAWAY" in stderr:
        kind = "runaway write"
    m4 = re.search(r"terminating due to uncaught exception of type ([^\n:]+)|terminate called after throwing an instance of '([^']+)'", stderr)
    if m4:
        kind = "uncaught " + (m4.group(1) or m4.group(2))
    frames = []
    for l in stderr.splitlines():
        m = re.match(r"\s*#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?)(:\d+)*$", l) or re.match(r"\s*#\d+ (.+?) (/\S+?)(:\d+)* \(\S+\)", l)
        if m and "/tagparser/" in m.group(2) or m and m.group(2).startswith(B.REPO + "/"):
            fn = re.sub(r"\(.*", "", m.group(1))
            f = os.path.basename(m.group(2))
            if (fn, f) not in frames:
                frames.append((fn, f))
            if len(frames) >= 2:
                break
    where = " < ".join("%s@%s" % x for x in frames) or "?"
    return kind, "crash:%s:%s" % (kind, where)

class Runner:
    def __init__(self, prop, tier, seed, spec, exe, ncases, scratch, artdir, harness_prop):
        self.prop, self.tier, self.seed, self.spec, self.exe = prop, tier, seed, spec, exe
        self.ncases, self.scratch, self.artdir, self.hp = ncases, scratch, artdir, harness_prop
        self.results, self.crashes, self.lock = [], [], threading.Lock()
        self.harness_errors = []
        self.deadline = None
    def run_worker(self, w, nworkers):
        start = w
        restarts = chunks = 0
        chunk = self.spec.get("chunk")
        while start < self.ncases:
            end = min(self.ncases, start + chunk * nworkers) if chunk else self.ncases
            if self.deadline and time.time() > self.deadline:
                with self.lock:
                    self.harness_errors.append("deadline")
                return
            out = os.path.join(self.scratch, "out%d_%d_%d" % (w, restarts, chunks))
            err = out + ".err"
            env = dict(os.environ)
            env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=0:max_allocation_size_mb=%d:quarantine_size_mb=16:detect_stack_use_after_return=0:handle_abort=1:print_summary=1:malloc_context_size=12" % self.spec.get("alloc_mb", 2048)
            env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=98"
            env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=98:second_deadlock_stack=1"
            env["LC_ALL"] = "C.UTF-8"
            cmd = [self.exe, "--prop", self.hp, "--seed", str(self.seed), "--from", str(start), "--to", str(end),
                   "--step", str(nworkers), "--out", out, "--dir", os.path.join(self.scratch, "w%d" % w), "--artifacts", self.artdir,
                   "--cpu", str(self.spec.get("cpu", 60))]
            if self.tier == "thorough":
                cmd.append("--thorough")
            with open(err, "wb") as ef:
                p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=env, cwd=self.scratch)
                while True:
                    try:
                        p.wait(5)
                        break
                    except subprocess.TimeoutExpired:
                        if self.deadline and time.time() > self.deadline:
                            p.kill(); p.wait()
                            break
            last, done = None, False
            with open(out, "rb") if os.path.exists(out) else open(os.devnull, "rb") as f:
                lines = f.read().decode("utf-8", "replace").splitlines()
            for l in lines:
                try:
                    j = json.loads(l)
                except ValueError:
                    continue
                if "start" in j:
                    last = j["start"]
                elif "i" in j:
                    last = None if last == j["i"] else last
                    with self.lock:
                        self.results.append(j)
                elif "done" in j:
                    done = True
            if done and end < self.ncases: # a new process for the next cases
                start, chunks = start + chunk * nworkers, chunks + 1
                os.unlink(out); os.unlink(err)
                continue
            if done:
                return
            if self.deadline and time.time() > self.deadline:
                with self.lock:
                    self.harness_errors.append("deadline")
                return
            stderr = open(err, "rb").read().decode("utf-8", "replace")
            if last is None:
                with self.lock:
                    self.harness_errors.append("worker ended (rc %s) outside a case: %s" % (p.returncode, stderr[-500:]))
                return
            kind, key = crash_key(stderr, p.returncode)
            with self.lock:
                self.crashes.append({"i": last, "kind": kind, "key": key, "stderr": stderr[-6000:], "rc": p.returncode})
            start = last + nworkers
            restarts += 1
            if restarts > 60:
                return
    def run(self):
        n = min(self.spec.get("workers", WORKERS), max(1, self.ncases))
        ts = [threading.Thread(target=self.run_worker, args=(w, n)) for w in range(n)]
        for t in ts: t.start()
        for t in ts: t.join()

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = CHECKS[prop]
    t0 = time.time()
    ncases_override = os.environ.get("TP_CASES")
    known = load_known(prop)
    evidence = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration")}
    scratch = tempfile.mkdtemp(prefix="tpcheck_", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    artdir = os.path.join(B.BUILD, "replay")
    os.makedirs(artdir, exist_ok=True)
    rc = 0
    try:
        allres, crashes, violations, knownhits = [], [], [], {}
        for part in spec["parts"]:
            exe, msg = B.build(part.get("flavour", "asan"))
            if not exe:
                print("build of the code under observation failed:\n" + msg[-4000:])
                sys.exit(3)
            n = part.get(tier, part.get("quick", 100))
            if ncases_override:
                n = int(ncases_override)
            merged = dict(spec); merged.update(part)
            r = Runner(prop, tier, seed, merged, exe, n, scratch, artdir, part["prop"])
            r.deadline = t0 + (840 if tier == "quick" else float(os.environ.get("TP_DEADLINE", "20000")))
            r.run()
            if r.harness_errors and not (r.crashes or any(x["fails"] for x in r.results)):
                print("harness error: " + "; ".join(r.harness_errors[:3]))
                rc = 4
            for x in r.results:
                x["part"] = part["prop"]
                allres.append(x)
                for f in x["fails"]:
                    violations.append((part, x["i"], f["key"], f["msg"]))
            for c in r.crashes:
                ignore = part.get("ignore_crash", spec.get("ignore_crash"))
                if ignore and re.search(ignore, c["kind"]):
                    crashes.append(c)
                    continue
                if c["kind"] == "hang":
                    # once more, alone and with twice the budget, before it counts
                    r2 = Runner(prop, tier, seed, dict(merged, cpu=2 * merged.get("cpu", 60), workers=1), exe, c["i"] + 1, scratch, artdir, part["prop"])
                    r2.deadline = r.deadline
                    r2.run_worker(c["i"], 1)
                    if not r2.crashes:
                        allres += r2.results
                        for x in r2.results:
                            for f in x["fails"]:
                                violations.append((part, x["i"], f["key"], f["msg"]))
                        continue
                violations.append((part, c["i"], c["key"], c["stderr"]))
        # judge
        reported = {}
        for part, i, key, msg in violations:
            k = next((k for k in known if re.search(k["key"], key)), None)
            if k:
                knownhits.setdefault(k["id"], [k, 0])[1] += 1
                continue
            reported.setdefault(key, (part, i, msg))
        for k in known:
            hits = knownhits.get(k["id"], [k, 0])[1]
            print("KNOWN-FINDING: property=%s %s (%s; seen %d times in this run)" % (prop, k["what"], k["id"], hits))
        for key, (part, i, msg) in sorted(reported.items(), key=lambda x: x[1][1])[:20]:
            rp = os.path.join(artdir, "%s-%s-%d-%d.json" % (prop, part["prop"], seed, i))
            json.dump({"property": prop, "harness": part["prop"], "flavour": part.get("flavour", "asan"), "seed": seed, "case": i, "tier": tier, "key": key, "message": msg,
                       "replay": "VERIF_SEED=%d python3 %s/tools/replay.py %s" % (seed, VERIF, rp)}, open(rp, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            print("   case %d key %s: %s" % (i, key, msg[-1500:] if key.startswith("crash") else msg[:700]))
            rc = 1
        sigs, cov, counts, nt = set(), {}, {}, 0
        for x in allres:
            for c in x["cov"]:
                cov[c] = cov.get(c, 0) + 1
            for c, v in x["counts"].items():
                counts[c] = counts.get(c, 0) + v
            if x["nt"]:
                sigs.add((x.get("part"), x["sig"]))
        if not reported and rc == 0 and len(sigs) < spec.get("min_distinct", 5):
            print("inconclusive: only %d distinct non-trivial cases were observed" % len(sigs))
            rc = 5
        samples = [{"case": x["i"], "what": x["desc"]} for x in allres if x.get("desc")][:6]
        evidence["coverage"] = {"evaluations": len(allres) + len(crashes), "distinct_nontrivial": len(sigs), "rule": spec["rule"], "samples": samples,
                                "features_seen": dict(sorted(cov.items())[:300]), "observed": counts, "known_findings_hit": {k: v[1] for k, v in knownhits.items()},
                                "ignored_ends": len(crashes)}
        evidence["assumptions"] = spec.get("assumptions", [])
        evidence["violations"] = len(reported)
        evidence["wall_s"] = round(time.time() - t0, 2)
        evdir = os.environ.get("TP_EVIDENCE", os.path.join(VERIF, "evidence"))
        os.makedirs(evdir, exist_ok=True)
        with open(os.path.join(evdir, prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
        print("%s %s seed %d: %d cases, %d distinct, %d features, %d violations, %.1f s" % (prop, tier, seed, len(allres), len(sigs), len(cov), len(reported), time.time() - t0))
        if counts:
            print("  observed: " + ", ".join("%s=%d" % x for x in sorted(counts.items())))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

if __name__ == "__main__":
    main()
