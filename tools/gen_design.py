#!/usr/bin/env python3
"""Writes the per-property part of DESIGN.md (between the markers) from the run declarations."""
import json, os, sys, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
V = check.VERIF
NOTES = json.load(open(V + "/tools/design_notes.json"))
out = []
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)
    runs = check.parse_runs(p["id"])
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append(NOTES.get(p["id"], "") + "\n")
    for r in runs:
        b = ""
        if r["kind"] == "conc":
            b = "; preemptions ≤ %s quick, ≤ %d thorough" % (max(r["q"]) if r["q"] else "–", max(r["t"]))
        d = " ".join(r["define"] + (["(thorough: " + " ".join(r["tdefine"]) + ")"] if r["tdefine"] else []))
        out.append("- `%s` in harness/%s (%s)%s" % (r["name"], r["file"], d, b))
    out.append("")
txt = open(V + "/DESIGN.md").read()
a, b = "<!-- generated: properties -->\n", "<!-- end generated -->"
i, j = txt.index(a) + len(a), txt.index(b)
open(V + "/DESIGN.md", "w").write(txt[:i] + "\n".join(out) + "\n" + txt[j:])
