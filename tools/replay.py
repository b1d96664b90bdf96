#!/usr/bin/env python3
"""Re-runs a recorded counterexample: replay.py PROPERTY RUN FILE [--native]

The run's harness is compiled from /repo's current sources and executed concretely with the recorded inputs and schedule
(in the symbolic executor, deterministic; with --native also natively with sanitizers, for sequential runs)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
import re


def main():
    prop, name, rfile = sys.argv[1:4]
    run = next((r for r in check.parse_runs(prop) if r["name"] == name), None)
    if not run:
        print("no run %s for %s" % (name, prop))
        return 2
    tier = 1 if os.environ.get("VERIF_TIER") == "thorough" else 0
    exe = check.build_engine()
    comp = check.Compiler(exe)
    defs = check.definitions(run, prop, tier)
    bc = comp.link_ir(run, defs)
    r = check.sh([exe, "--replay", rfile, "--out", rfile + ".d", "--time", "60", "--tier", str(tier), "--verbose"] + run["extra"] + [bc], timeout=150)
    print(r.stderr[-6000:])
    v = rfile + ".d/violations.jsonl"
    hit = os.path.exists(v) and os.path.getsize(v) > 0
    if hit:
        print(open(v).read())
    check.shutil.rmtree(rfile + ".d", ignore_errors=True)
    if "--native" in sys.argv:
        nat = comp.native(run, defs)
        ok, txt, n = check.native_replay(nat, rfile, dict(kind="hang"), tier)
        print("native:", txt)
        hit = hit or ok
    print("REPRODUCED" if hit else "not reproduced")
    return 1 if hit else 0


if __name__ == "__main__":
    sys.exit(main())
