#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (between the markers) from seeded/*/meta.json and the notes below."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# seeds the check missed at first, and what was added to it
MISSED = {
 "F04-overlapping-prefixes": "declarations with overlapping prefix options (F04 had kept them out)",
 "L01-unknown-stream-in-list": "unknown stream names in configured lists",
 "T03-initial-value-is-a-flag": "initial values 0–2 in the pairs, and up to 1000 in a counter scenario",
 "T05-wait-while-starting": "scenario *controllers while it starts*",
 "L07-reset-only-after-success": "the failing insertion is a real one now: a second connection locks the database for it",
 "C10-only-negative-is-an-error": "scenario *failing-write*: one write fails, later ones succeed",
}
NOTES = json.load(open(os.path.join(V, "tools", "seed_notes.json"))) if os.path.exists(os.path.join(V, "tools", "seed_notes.json")) else {}
MISSED.update(NOTES)
rows = ["| planted bug | needs | caught by | at first missed; added |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f)); n = os.path.basename(os.path.dirname(f))
    note = MISSED.get(n, "")
    caught = "" if note.startswith("NOT CAUGHT") else m["property"]
    rows.append("| %s | %s | %s | %s |" % (n, m["needs"], caught, note))
p = os.path.join(V, "DESIGN.md"); s = open(p).read()
if "@@SEEDS@@" in s: s = s.replace("@@SEEDS@@", "<!--seeds--><!--/seeds-->")
a, b = s.index("<!--seeds-->"), s.index("<!--/seeds-->")
s = s[:a] + "<!--seeds-->\n" + "\n".join(rows) + "\n" + s[b:]
open(p, "w").write(s)
