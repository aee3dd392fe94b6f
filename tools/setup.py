#!/usr/bin/env python3
"""Compiles the engine and every harness once so that the first check run is not slower than the rest.
Everything it produces is a cache: each check compares the preprocessed sources again."""
import os, sys, glob, json, shutil, subprocess
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import run
rc = 0
for f in sorted(glob.glob(os.path.join(run.VERIF, "checks", "*.json"))):
    cid = os.path.basename(f)[:-5]
    out = os.path.join(run.BUILD, "setup-" + cid)
    if run.build(cid, json.load(open(f)), out) is None:
        print("setup: %s does not build" % cid)
    shutil.rmtree(out, ignore_errors=True)
try:
    subprocess.run([sys.executable, os.path.join(run.VERIF, "tools", "conform.py")], timeout=600)
except Exception as e:
    print("setup: conformance test: %s" % e)
print("setup done")
