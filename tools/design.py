#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, props.py, the suites' own descriptions (evidence of the last quick runs), notes.py, known_findings.txt and seeded/."""
import json, os, glob, re
import props
from notes import NOTES, SEEDS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = [open(V + "/tools/design_head.md").read(), "## Properties\nPer property: what is enumerated, the oracle, bounds and size of the quick run (executions of the real code, transitions; wall time on 8 idle cores), what is pinned.\n"]
for p in props.P:
    o.append(f"### {p['id']} {p['title']}\n")
    o.append(f"Enumerated: {p['text']}. Oracle: {p['note']}. Beyond tests: {p['why']}.\n")
    f = f"{V}/evidence/{p['id']}.json"
    if os.path.exists(f):
        e = json.load(open(f))
        assert e["tier"] == "quick" and e["violations"] == 0, p["id"]
        cv = e["coverage"]
        ex = sum(s["executions"] for s in cv["suites"].values())
        o.append(f"Quick: {ex} executions, {cv['transitions']} transitions, {cv['states']} states, about {round(e['wall_s'])} s.\n")
        for n, s in cv["suites"].items():
            o.append(f"* `{n}` ({s['executions']}): {s['bound']}")
        o.append("")
    if NOTES.get(p["id"]):
        o.append("Pinned / not claimed: " + NOTES[p["id"]] + "\n")
o.append(open(V + "/tools/design_tail.md").read())
o.append("## Planted bugs\n")
o.append("Each was written from the property text and the code, passes the repository's tests, and has a demonstration. All are caught by the quick check of their property.\n")
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    o.append(f"* `{i}` ({m['property']}): {m['what_it_breaks']}. Needs: {m['needs']}. {SEEDS.get(i, 'Caught.')}")
o.append("")
open(V + "/DESIGN.md", "w").write("\n".join(o))
