#!/usr/bin/env python3
"""Builds one check from /repo's working tree and runs it.

usage: run.py ID [--thorough] [--keep] [--only SCENARIO] [--replay FILE]
"""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, time, fnmatch

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src/icl_core/src")
BUILD = os.path.join(VERIF, "build")
CACHE = os.path.join(BUILD, "cache")

DEFS = """-DTIXML_USE_STL -D_IC_BUILDER_DEPRECATED_STYLE_ -D_IC_BUILDER_ENABLE_BASE_TYPES_
-D_SYSTEM_IDENTIFIER_=x86_64.Linux -D_SYSTEM_LINUX_ -D_SYSTEM_POSIX_ -DNDEBUG
-D_IC_BUILDER_HAS_TIME_H_ -D_IC_BUILDER_HAS_SYS_TIME_H_ -D_IC_BUILDER_PTHREAD_ -D_IC_BUILDER_Pthread_
-D_IC_BUILDER_SQLITE3_ -D_IC_BUILDER_SQLite3_ -D_IC_BUILDER_BOOST_REGEX_ -D_IC_BUILDER_BOOST_
-DBOOST_ALL_NO_LIB -DBOOST_DYN_LINK -D_IC_BUILDER_BOOST_FILESYSTEM_ -D_IC_BUILDER_BOOST_SYSTEM_
-D_IC_BUILDER_ZLIB_ -D_IC_BUILDER_EIGEN3_ -D_IC_BUILDER_EIGEN_ -D_IC_BUILDER_ICL_CORE_
-D_IC_BUILDER_ICL_CORE_CONFIG_ -D_IC_BUILDER_BOOST_DATE_TIME_ -D_IC_BUILDER_TINYXML_
-D_IC_BUILDER_ICL_CORE_LOGGING_ -D_IC_BUILDER_THREADS_ -D_IC_BUILDER_ICL_CORE_PLUGIN_
-D_IC_BUILDER_ICL_CORE_THREAD_ -D_IC_BUILDER_ICL_CORE_DISPATCH_ -D_IC_BUILDER_ICL_CORE_CRYPT_
-D_IC_BUILDER_ICL_CORE_PERFORMANCE_MONITOR_""".split()
INCS = ["-I" + SRC, "-I/usr/include/eigen3", "-I" + os.path.join(VERIF, "lib")]
LIBS = ["-ltinyxml", "-lsqlite3", "-lz", "-lboost_filesystem", "-lboost_system", "-lboost_date_time",
        "-lboost_regex", "-lpthread", "-ldl", "-lrt"]
SKIP = ["*Win32*", "*win32*", "*Lxrt*", "*lxrt3*", "*Darwin*", "*darwin*", "*QNX*", "*qnx*", "*Qnx*"]
MODES = {
    # sequential harnesses: memory errors and undefined behaviour are failures
    "asan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fno-sanitize=vptr,nonnull-attribute", "-fno-sanitize-recover=all"],
    "plain": ["-O1", "-g"],
    # controlled scheduler: memory accesses call back into lib/mcthreads.cpp
    "sched": ["-O1", "-g", "-fno-omit-frame-pointer", "-fno-pie", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-U_FORTIFY_SOURCE"],
}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def component_sources(name):
    """'icl_core_config' -> every .cpp of that component, or an explicit relative file"""
    if name.endswith(".cpp"):
        return [os.path.join(SRC, name)]
    d = os.path.join(SRC, name)
    out = []
    for f in sorted(os.listdir(d)):
        if f.endswith(".cpp") and not any(fnmatch.fnmatch(f, p) for p in SKIP):
            out.append(os.path.join(d, f))
    return out


def compile_one(src, flags, tag):
    """Compiles through a cache keyed by the preprocessed text, so the result always
    reflects the current tree."""
    cmd = ["g++", "-std=gnu++17", "-w", "-pipe"] + flags
    pre = subprocess.run(cmd + ["-E", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if pre.returncode != 0:
        return None, pre.stderr.decode(errors="replace")[-3000:]
    h = hashlib.sha256()
    h.update(" ".join(cmd).encode())
    h.update(pre.stdout)
    obj = os.path.join(CACHE, h.hexdigest()[:40] + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        r = sh(cmd + ["-c", src, "-o", tmp])
        if r.returncode != 0:
            return None, r.stdout[-3000:]
        os.replace(tmp, obj)
    else:
        os.utime(obj)
    return obj, ""


def build(cid, cfg, outdir):
    os.makedirs(CACHE, exist_ok=True)
    os.makedirs(outdir, exist_ok=True)
    mode = cfg.get("mode", "asan")
    base = MODES[mode] + DEFS + INCS + cfg.get("flags", [])
    inst = ["-fsanitize=thread"] if mode == "sched" else []
    jobs = []
    for s in cfg["sources"]:
        p = os.path.join(VERIF, "checks", s)
        jobs.append((p, base + (inst if not s.startswith("../lib") else [])))
    jobs.append((os.path.join(VERIF, "lib/mc.cpp"),
                 (["-O2", "-g", "-fno-pie"] if mode == "sched" else MODES[mode]) + INCS))
    if mode == "sched":
        jobs.append((os.path.join(VERIF, "lib/mcthreads.cpp"), ["-O2", "-g", "-fno-pie", "-U_FORTIFY_SOURCE", "-fno-builtin"] + INCS))
    for c in cfg.get("components", []):
        for s in component_sources(c):
            if any(fnmatch.fnmatch(os.path.basename(s), p) for p in cfg.get("exclude", [])):
                continue
            jobs.append((s, base + inst + cfg.get("repo_flags", [])))
    objs = []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        futs = [ex.submit(compile_one, s, f, cid) for s, f in jobs]
        for (s, _), fu in zip(jobs, futs):
            o, err = fu.result()
            if o is None:
                print("BUILD ERROR: %s\n%s" % (s, err))
                return None
            objs.append(o)
    exe = os.path.join(outdir, "harness")
    link = ["g++", "-o", exe] + objs
    if mode == "asan":
        link += ["-fsanitize=address,undefined"]
    if mode == "sched":
        link += ["-no-pie"] + ["-Wl,--wrap=" + f for f in ("memcpy", "memmove", "memset", "memcmp", "memchr", "strncpy", "strcpy", "strcat", "strcmp", "strncmp", "strlen", "strchr", "strdup", "strftime", "snprintf", "vsnprintf", "sprintf", "fread", "fwrite", "gzwrite", "gzread", "strtod", "strtol", "strtoul", "strtoull")]
    link += ["-rdynamic"] + cfg.get("link", []) + LIBS
    r = sh(link)
    if r.returncode != 0:
        print("LINK ERROR\n" + r.stdout[-4000:])
        return None
    # small shared objects a harness loads with dlopen: {"out": name, "sources": [...], "flags": [...]}
    def shared(lib):
        objs = []
        for f in lib["sources"]:
            o, err = compile_one(os.path.join(VERIF, "checks", f), ["-fPIC"] + DEFS + INCS + lib.get("flags", []), cid)
            if o is None:
                return "BUILD ERROR: %s\n%s" % (f, err)
            objs.append(o)
        r = sh(["g++", "-shared", "-o", os.path.join(outdir, lib["out"])] + objs)
        return "" if r.returncode == 0 else "LINK ERROR\n" + r.stdout[-4000:]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for err in ex.map(shared, cfg.get("shared", [])):
            if err:
                print(err)
                return None
    return exe


def prune_cache():
    try:
        fs = [os.path.join(CACHE, f) for f in os.listdir(CACHE)]
        fs.sort(key=lambda f: os.stat(f).st_mtime)
        total = sum(os.stat(f).st_size for f in fs)
        while total > 1500 << 20 and fs:
            f = fs.pop(0)
            total -= os.stat(f).st_size
            os.unlink(f)
    except OSError:
        pass


def known_findings(cid):
    """known-findings.txt: 'finding: property=<id> key=<key> <text>' (open) or 'fixed: property=...'"""
    out = []
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == cid:
                out.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return out


def main():
    args = sys.argv[1:]
    cid = args[0]
    thorough = "--thorough" in args or os.environ.get("VERIF_TIER") == "thorough"
    cfg = json.load(open(os.path.join(VERIF, "checks", cid + ".json")))
    t0 = time.time()
    outdir = os.path.join(BUILD, "%s-%d" % (cid, os.getpid()))
    replays = os.path.join(VERIF, "replays", cid)
    os.makedirs(replays, exist_ok=True)
    rc = 2
    try:
        exe = build(cid, cfg, outdir)
        tb = time.time() - t0
        if exe is None:
            return 2
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:symbolize=1:max_allocation_size_mb=2048"
        env["UBSAN_OPTIONS"] = "print_stacktrace=0"
        env["TMPDIR"] = outdir
        env["LC_ALL"] = "C"
        env["TZ"] = "UTC"
        env["VERIF_OUTDIR"] = outdir
        if "--replay" in args:
            return subprocess.run([exe, "--replay", args[args.index("--replay") + 1]] + (["--thorough"] if thorough else []), env=env).returncode
        known = known_findings(cid)
        cmd = [exe, "--out", os.path.join(outdir, "out.json"), "--replay-dir", replays,
               "--budget", str(cfg.get("budget_thorough", 5400) if thorough else cfg.get("budget", 500))]
        for k, _ in known:
            cmd += ["--known", k]
        if thorough:
            cmd.append("--thorough")
        if "--only" in args:
            cmd += ["--only", args[args.index("--only") + 1]]
        print("%s: %s [build %.1fs]" % (cid, cfg.get("title", ""), tb))
        sys.stdout.flush()
        r = subprocess.run(cmd, env=env)
        if r.returncode not in (0, 1):
            print("check ended with status %d" % r.returncode)
            return 2
        res = json.load(open(os.path.join(outdir, "out.json")))
        nviol = len(res["violations"])
        cov = {
            "states": res["states"], "transitions": res["operations"] + res["choice_points"],
            "traces_validated_against_impl": res["executions"],
            "executions": res["executions"], "choice_points": res["choice_points"],
            "operations": res["operations"], "distinct_outcomes": res["outcomes"],
            "exhaustive": res["exhaustive"] and nviol == 0,
            "scenarios": res["scenarios"], "samples": res["samples"][:6],
            "explanation": "Every execution runs the real code compiled from the working tree; states = distinct abstract "
                           "states (or observation histories) recorded by the harness, transitions = operations executed "
                           "plus nondeterministic choices taken, traces_validated_against_impl = complete executions of the "
                           "implementation compared with the reference model.",
        }
        if cfg["level"] in ("exploration", "fault_enumeration"):
            cov["evaluations"] = res["executions"]
            cov["distinct_nontrivial"] = res["states"]
            cov["rule"] = cfg.get("rule", "every choice vector of the harness up to the bound; distinct by recorded state")
        ev = {
            "property": cid, "tier": "thorough" if thorough else "quick",
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": cfg["level"], "coverage": cov,
            "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": nviol,
        }
        if "--only" not in args and "VERIF_NOEVIDENCE" not in os.environ:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            with open(os.path.join(VERIF, "evidence", cid + ".json"), "w") as f:
                json.dump(ev, f, indent=1)
        hits = {k["key"]: k["hits"] for k in res["known"]}
        for k, text in known:
            if hits.get(k, 0):
                print("KNOWN-FINDING: property=%s %s (%s)" % (cid, text, k))
            elif nviol == 0:
                print("note: known finding %s was not met in this run" % k)
        for v in res["violations"]:
            print("VIOLATION property=%s replay=%s key=%s %s" % (cid, v["replay"], v["key"], v["message"].split("\n")[0][:300]))
        rc = 1 if nviol else 0
        print("%s: %s in %.1fs" % (cid, "VIOLATED" if rc else "holds on everything explored", time.time() - t0))
        return rc
    finally:
        if "--keep" not in args:
            shutil.rmtree(outdir, ignore_errors=True)
        prune_cache()


if __name__ == "__main__":
    sys.exit(main())
