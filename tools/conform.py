#!/usr/bin/env python3
"""Binds the scheduler's models of the POSIX calls to the C library: every script of calls up to a depth is run
against the models and against the real library (checks/selftest_posix.cpp), and what each call returned has to be
the same. Also runs the self test of the scheduler itself. Exit 0: they agree."""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import run
def main():
    work = tempfile.mkdtemp(prefix="conform-", dir=os.path.join(run.VERIF, "build") if os.path.isdir(os.path.join(run.VERIF, "build")) else None)
    bad = 0
    try:
        src = os.path.join(run.VERIF, "checks", "selftest_posix.cpp")
        subprocess.run(["g++", "-std=gnu++17", "-O1", "-w", "-DREAL_LIBC", src, "-o", work + "/real", "-lpthread"], check=True)
        real = subprocess.run([work + "/real"], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines()
        for name in ("selftest_posix", "selftest_threads"):
            meta = json.load(open(os.path.join(run.VERIF, "checks", name + ".json")))
            exe = run.build(name, meta, os.path.join(work, name))
            if exe is None:
                print("conform: %s does not build" % name); return 1
            r = subprocess.run([exe], env=dict(os.environ, VERIF_CONFORM=work + "/model.txt"), cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                print(r.stdout[-3000:]); bad = 1
        model = open(work + "/model.txt").read().splitlines()
        a, b = set(real), set(model)
        for l in sorted(a - b)[:10]: print("only the C library: " + l)
        for l in sorted(b - a)[:10]: print("only the models:    " + l)
        print("conform: %d scripts of POSIX calls, %d differences" % (len(a | b), len(a ^ b)))
        return 1 if a != b or bad else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
if __name__ == "__main__":
    sys.exit(main())
