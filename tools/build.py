#!/usr/bin/env python3
"""Builds the harness from /repo's current sources plus /verif/src in one of several flavours.

Objects are cached by a hash of everything that goes into them (the source, all headers of /repo and of
/verif/src, the flags), so a change to any file is always seen, whatever its time stamp."""
import hashlib, os, subprocess, sys, glob, fcntl, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TP_REPO", "/repo")
BUILD = os.environ.get("TP_BUILD", os.path.join(VERIF, "build"))

DEFS = ["-DCHRONO_UTILITIES_TIMESPAN_INTEGER_SCALE_OVERLOADS", "-DCPP_UTILITIES_USE_NATIVE_FILE_BUFFER", "-DTAG_PARSER_STATIC"]
COMMON = ["-w", "-fno-omit-frame-pointer", "-pthread"]
CONFIG_H = '#pragma once\n#define APP_NAME "Tag Parser"\n#define APP_VERSION "verif"\n#define PROJECT_NAME "tagparser"\n'
UB = "undefined,float-cast-overflow"
FLAVOURS = {
    "asan": (["clang++", "-O1", "-gline-tables-only", "-fsanitize=address," + UB, "-fno-sanitize-recover=all", "-fno-sanitize=shift-base",
              "-fno-sanitize=vptr,function"], ["-fsanitize=address," + UB, "-fno-sanitize=vptr,function"]),
    "tsan": (["clang++", "-O1", "-gline-tables-only", "-fsanitize=thread"], ["-fsanitize=thread"]),
    "plain": (["clang++", "-O1", "-gline-tables-only"], []),
    "fuzz": (["clang++", "-O1", "-gline-tables-only", "-fsanitize=fuzzer-no-link,address," + UB, "-fno-sanitize-recover=all", "-fno-sanitize=shift-base",
              "-fno-sanitize=vptr,function"], ["-fsanitize=fuzzer,address," + UB, "-fno-sanitize=vptr,function"]),
    "cov": (["clang++", "-O0", "-g", "-fprofile-instr-generate", "-fcoverage-mapping"], ["-fprofile-instr-generate"]),
}

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:32]

def rd(path):
    with open(path, "rb") as f:
        return f.read()

def repo_files(ext):
    out = []
    for d, dirs, files in os.walk(REPO):
        rel = os.path.relpath(d, REPO)
        if rel == ".":
            dirs[:] = [x for x in dirs if not x.startswith((".", "_")) and x not in ("tests", "doc", "testfiles", "scripts", "cmake", "build")]
        for f in files:
            if f.endswith(ext):
                out.append(os.path.normpath(os.path.join(rel, f)))
    return sorted(out)

def build(flavour, quiet=True, harness_glob="*.cpp", exe="tpcheck", jobs=8):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return _build(flavour, quiet, harness_glob, exe, jobs)

def _build(flavour, quiet, harness_glob, exe, jobs):
    cc, ld = FLAVOURS[flavour]
    gen = os.path.join(BUILD, "gen")
    inc = os.path.join(gen, "inc")
    os.makedirs(os.path.join(inc, "resources"), exist_ok=True)
    link = os.path.join(inc, "tagparser")
    if not (os.path.islink(link) and os.readlink(link) == REPO):
        if os.path.lexists(link):
            os.unlink(link)
        os.symlink(REPO, link)
    langjson = "/usr/share/iso-codes/json/iso_639-2.json"
    script = os.path.join(REPO, "cmake/scripts/generate_iso_language_codes.cmake")
    lang = os.path.join(inc, "resources", "iso_language_codes.h")
    stamp = lang + ".stamp"
    key = sha(rd(langjson), rd(script))
    if not os.path.exists(lang) or not os.path.exists(stamp) or open(stamp).read() != key:
        rc, out = sh(["cmake", "-DLANGUAGE_FILE=" + langjson, "-DOUTPUT_PATH=" + lang, "-P", script])
        if rc != 0:
            return None, "generating language codes failed:\n" + out
        open(stamp, "w").write(key)
    for name, text in (("resources/config.h", CONFIG_H), ("tagparser-definitions.h", "#pragma once\n#define TAG_PARSER_DEFINITIONS\n")):
        path = os.path.join(inc, name)
        if not os.path.exists(path) or open(path).read() != text:
            open(path, "w").write(text)
    incs = ["-I" + inc, "-isystem", "/usr/include/martchus-c++utilities", "-I" + REPO]
    repo_hdr = [rd(os.path.join(REPO, h)) for h in repo_files((".h", ".hpp", ".inl"))] + [rd(lang)]
    ver_hdr = [rd(h) for h in sorted(glob.glob(os.path.join(VERIF, "src", "*.h")))]
    tasks = []
    objd = os.path.join(BUILD, flavour)
    os.makedirs(objd, exist_ok=True)
    repo_key, ver_key = sha(*repo_hdr), sha(*ver_hdr)
    flags = cc + COMMON + DEFS + incs
    for s in repo_files((".cpp",)):
        p = os.path.join(REPO, s)
        tasks.append((p, os.path.join(objd, "r_" + sha(rd(p), s, repo_key, " ".join(flags)) + ".o")))
    for p in sorted(glob.glob(os.path.join(VERIF, "src", harness_glob))):
        tasks.append((p, os.path.join(objd, "h_" + sha(rd(p), p, repo_key, ver_key, " ".join(flags)) + ".o")))
    todo = [t for t in tasks if not os.path.exists(t[1])]
    todo.sort(key=lambda t: -os.path.getsize(t[0]))
    def one(t):
        rc, out = sh(flags + ["-std=gnu++17" if os.path.basename(t[1]).startswith("r_") else "-std=gnu++20", "-c", t[0], "-o", t[1] + ".tmp%d" % os.getpid()])
        if rc == 0:
            os.rename(t[1] + ".tmp%d" % os.getpid(), t[1])
        return rc, (t[0] + "\n" + out) if out.strip() else ""
    with cf.ThreadPoolExecutor(jobs) as ex:
        for rc, out in ex.map(one, todo):
            if rc != 0:
                return None, "compile error: " + out
            if not quiet and out.strip():
                print(out)
    objs = [t[1] for t in tasks]
    ekey = sha(" ".join(objs), " ".join(ld))
    out_exe = os.path.join(objd, exe + "_" + ekey)
    if not os.path.exists(out_exe):
        rc, out = sh(["clang++", "-pthread"] + objs + ld + ["-o", out_exe + ".tmp", "/usr/lib/x86_64-linux-gnu/libmartchus-c++utilities.so.5", "-lz"])
        if rc != 0:
            return None, "link error: " + out
        os.rename(out_exe + ".tmp", out_exe)
        # prune what is no longer used (old objects and executables of this flavour and executable)
        keep = set(objs) | {out_exe}
        for f in glob.glob(os.path.join(objd, "*")):
            if f not in keep and (f.endswith(".o") or os.path.basename(f).startswith(exe + "_")) and os.environ.get("TP_KEEP") is None:
                try: os.unlink(f)
                except OSError: pass
    return out_exe, ""

if __name__ == "__main__":
    fl = sys.argv[1] if len(sys.argv) > 1 else "asan"
    exe, msg = build(fl, quiet=False) if len(sys.argv) < 3 else build(fl, quiet=False, harness_glob=sys.argv[2], exe=sys.argv[3])
    if not exe:
        print(msg); sys.exit(2)
    print(exe)
