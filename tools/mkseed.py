#!/usr/bin/env python3
"""Creates and confirms planted bugs.

usage: mkseed.py SPECFILE...      (re)create /verif/seeded/<id> from a spec and confirm it
       mkseed.py --confirm ID...  confirm existing ones again
       options: --nocheck (do not run the property's check against the bug)

A spec is a Python file defining ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)...],
DEMO (C++ text) and optionally LIBS, FLAGS, EXTRA={name: text}.  Everything runs in a scratch copy
of /repo that is bind-mounted over /repo in a private mount namespace.
"""
import json, os, shutil, subprocess, sys, textwrap

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
DEMO_SH = r'''#!/bin/bash
# Run with the working directory /repo after its build. Exit 0: the property holds.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
root=$PWD
g++ -std=gnu++17 -w -O1 -g -o "$work/demo" "$here/demo.cpp" %(flags)s \
  -DTIXML_USE_STL -D_IC_BUILDER_DEPRECATED_STYLE_ -D_IC_BUILDER_ENABLE_BASE_TYPES_ -D_SYSTEM_LINUX_ -D_SYSTEM_POSIX_ \
  -D_SYSTEM_IDENTIFIER_=x86_64.Linux -DNDEBUG -D_IC_BUILDER_HAS_TIME_H_ -D_IC_BUILDER_HAS_SYS_TIME_H_ -D_IC_BUILDER_BOOST_ -DBOOST_ALL_NO_LIB \
  -DBOOST_DYN_LINK -D_IC_BUILDER_EIGEN3_ -D_IC_BUILDER_ZLIB_ -D_IC_BUILDER_ICL_CORE_ -D_IC_BUILDER_ICL_CORE_CONFIG_ \
  -D_IC_BUILDER_ICL_CORE_LOGGING_ -D_IC_BUILDER_ICL_CORE_THREAD_ -D_IC_BUILDER_TINYXML_ -D_IC_BUILDER_SQLITE3_ -D_IC_BUILDER_SQLite3_ \
  -I"$root/src/icl_core/src" -I/usr/include/eigen3 \
  -L"$root/_build/lib" -Wl,-rpath,"$root/_build/lib" %(libs)s -lpthread -ldl || { echo "demo does not compile"; exit 2; }
cd "$work"
%(pre)s
timeout 120 "$work/demo" "$root"
rc=$?
[ $rc -eq 0 ] && echo "demo: property holds" || echo "demo: property violated (status $rc)"
exit $rc
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def ns(copy, script):
    return sh(["unshare", "-Urm", "bash", "-c",
               "mount --bind %s /repo && cd /repo && git config --global --add safe.directory '*' 2>/dev/null; %s" % (copy, script)],
              env=dict(os.environ, HOME=os.path.dirname(copy)))


def confirm(sid, check=True):
    d = os.path.join(SEEDED, sid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    base = "/tmp/seed-%s-%d" % (sid, os.getpid())
    copy = base + "/repo"
    os.makedirs(base)
    msg = []
    try:
        sh(["cp", "-a", "/repo", copy])
        shutil.copytree(d, base + "/demo")
        for f in ("patch.diff", "meta.json"):
            os.unlink(base + "/demo/" + f)
        r = ns(copy, "bash /opt/vp/build.sh >/dev/null 2>&1; bash %s/demo/demo.sh" % base)
        if r.returncode != 0:
            return False, "demo fails on the unchanged tree (%d):\n%s" % (r.returncode, r.stdout[-1500:])
        r = ns(copy, "git apply %s/patch.diff" % d)
        if r.returncode != 0:
            return False, "patch does not apply: " + r.stdout
        r = ns(copy, "bash /opt/vp/build.sh > %s/b.log 2>&1 || { tail -30 %s/b.log; exit 9; }" % (base, base))
        if r.returncode != 0:
            return False, "does not build: " + r.stdout
        for k in range(2):
            r = ns(copy, "bash /verif/tools/suite.sh")
            if r.returncode != 0:
                return False, "tests notice it: " + r.stdout
        r = ns(copy, "bash %s/demo/demo.sh" % base)
        if r.returncode == 0:
            return False, "demo passes with the change:\n" + r.stdout[-800:]
        msg.append("demo: " + r.stdout.strip().split("\n")[-2][:150] if len(r.stdout.strip().split("\n")) > 1 else r.stdout.strip())
        pid = meta["property"]
        if check and os.path.exists(os.path.join(VERIF, "checks", pid + ".json")):
            env = dict(os.environ, HOME=base)
            r = sh(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /verif && VERIF_NOEVIDENCE=1 timeout 900 python3 run.py %s" % (copy, pid)], env=env)
            v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
            last = r.stdout.strip().split("\n")[-1]
            msg.append(("CAUGHT " if r.returncode == 1 and v else "MISSED rc=%d " % r.returncode) + (v[0][:220] if v else last))
        return True, "; ".join(msg)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def original(diff):
    """Does the change remove a line that the first commit of the repository already had?"""
    root = sh(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"]).stdout.strip()
    name = line = None
    for l in diff.split("\n"):
        if l.startswith("--- a/"):
            name = l[6:].rstrip("\r")
        elif l.startswith("@@"):
            line = int(l.split()[1].lstrip("-").split(",")[0])
        elif line is not None and l.startswith("-") and l[1:].strip():
            r = sh(["git", "-C", "/repo", "blame", "-l", "-s", "--root", "-L", "%d,%d" % (line, line), "HEAD", "--", name]).stdout
            if r.startswith(root) or r.startswith("^" + root[:30]):
                return True
            line += 1
        elif line is not None and not l.startswith("+"):
            line += 1
    return False


def create(spec):
    g = {}
    exec(compile(open(spec).read(), spec, "exec"), g)
    sid = g["ID"]
    d = os.path.join(SEEDED, sid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    wt = "/tmp/seedwt-%d" % os.getpid()
    sh(["git", "-C", "/repo", "worktree", "add", "--detach", wt, "HEAD"])
    try:
        for f, old, new in g["EDITS"]:
            p = os.path.join(wt, "src/icl_core/src", f)
            b = open(p, encoding="latin-1", newline="").read()
            if "\r\n" in b:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if b.count(old) != 1:
                sys.exit("%s: %d matches in %s of %r" % (sid, b.count(old), f, old))
            open(p, "w", encoding="latin-1", newline="").write(b.replace(old, new))
        diff = subprocess.run(["git", "-C", wt, "diff"], stdout=subprocess.PIPE).stdout
        if not original(diff.decode("latin-1")):
            print("WARNING: %s changes no line of the original repository" % sid)
        open(d + "/patch.diff", "wb").write(diff)
    finally:
        sh(["git", "-C", "/repo", "worktree", "remove", "--force", wt])
    json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.cpp", "w").write(g["DEMO"].lstrip("\n"))
    open(d + "/demo.sh", "w").write(DEMO_SH % {"flags": g.get("FLAGS", ""), "libs": g.get("LIBS", "-licl_core"), "pre": g.get("PRE", "")})
    os.chmod(d + "/demo.sh", 0o755)
    for n, t in g.get("EXTRA", {}).items():
        os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
        open(os.path.join(d, n), "w").write(t)
    return sid


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    check = "--nocheck" not in sys.argv
    bad = 0
    ids = args if "--confirm" in sys.argv else [create(s) for s in args]
    for i in ids:
        ok, m = confirm(i, check)
        bad += not ok
        print("%-28s %s %s" % (i, "ok " if ok else "BAD", m))
        sys.stdout.flush()
    sys.exit(bad)
