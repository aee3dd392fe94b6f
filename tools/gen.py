#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run from anywhere)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "src/icl_core/src/"
P = []

def prop(id, title, statement, over, quant, why, files, mech, observe=None, state=None, note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                  files=[B + f for f in files], mech=[dict(name=n, where=B + w) for n, w in mech],
                  observe=observe or [], state=state or [], note=note, na=na))

exec(open(os.path.join(V, "tools", "properties.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=p["mech"], hook_needed=None))
        for w in p["files"]:
            assert os.path.exists(os.path.join("/repo", w)), w
        for m in p["mech"]:
            assert os.path.exists(os.path.join("/repo", m["where"].split(":")[0])), m
        if p["observe"]: d["anchors"]["observe_at"] = p["observe"]
        if p["state"]: d["anchors"]["state"] = p["state"]
        f.write(json.dumps(d) + "\n")

checks, na = [], []
for p in P:
    cfg = os.path.join(V, "checks", p["id"] + ".json")
    if os.path.exists(cfg) and not p["na"]:
        c = json.load(open(cfg))
        checks.append(dict(property=p["id"], quick_cmd="python3 run.py " + p["id"],
                           thorough_cmd="python3 run.py %s --thorough" % p["id"],
                           technique=c["technique"], level=c["level"], level_note=p["note"] or c.get("note", "")))
    else:
        na.append(dict(property=p["id"], reason=p["na"] or "the check for this property is not built yet"))
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         hooks=dict(guard="VERIF_HOOKS", enable="not needed: the checks add no hooks to /repo; they compile its unmodified "
                    "sources and intercept library calls at link time", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="One engine (lib/mc.cpp) enumerates every nondeterministic choice of a harness over the real code; "
               "see DESIGN.md. known-findings.txt lists open and fixed findings.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks,", len(na), "not claimed")
