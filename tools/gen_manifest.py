#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the runs the harnesses declare."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
V = check.VERIF
NOT = {}
checks = []
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)
    runs = check.parse_runs(p["id"])
    if not runs:
        NOT.setdefault(p["id"], "no harness")
        continue
    conc = [r for r in runs if r["kind"] == "conc"]
    seq = [r for r in runs if r["kind"] == "seq"]
    q = max([max(r["q"]) for r in conc if r["q"]] or [0])
    t = max([max(r["t"]) for r in conc if r["t"]] or [0])
    io = any("io" in r["link"] for r in runs)
    note = "Bounded: every value of the symbolic inputs (full 64-bit unless a range is given) "
    if conc:
        note += "and every schedule with at most %d (quick) / %d (thorough) preemptions " % (q, t)
    note += "for the nets and steps of the harnesses (%s). " % ", ".join(sorted({"harness/" + r["file"] + ":" + r["name"] for r in runs}))
    note += "Trusts clang 18's IR of the real sources, the executor in engine/ and its models of the C++ runtime%s%s; " % (
        ", of threads (sequential consistency)" if conc else "", ", of pugixml" if io else "")
    note += "counterexamples are re-executed concretely" + (" and natively with sanitizers" if seq else "") + " before they are reported."
    checks.append(dict(property=p["id"], quick_cmd="python3 tools/check.py %s --tier quick" % p["id"], thorough_cmd="python3 tools/check.py %s --tier thorough" % p["id"],
                       technique="bounded symbolic execution of the LLVM IR of the real code%s, decided by Z3" % (" with symbolic schedules" if conc else ""),
                       level="model_checking", level_note=note))
m = dict(version=1, setup_cmd="make -s -C engine OUT=/verif/build/setup /verif/build/setup/symex && rm -rf /verif/build/setup", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NOT.items()],
         notes="No hooks: the unmodified sources are compiled to IR on every run. /repo carries only 'fix:' commits (known_findings.json).")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(NOT), "not applicable")
