#!/usr/bin/env python3
"""Development aid: builds every harness natively with g++ and runs sampled inputs of passing paths on the compiled code (C.. arguments: properties)."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import json
import check
from check import *
props = sys.argv[1:] or [json.loads(l)["id"] for l in open(VERIF + "/properties.jsonl")]
exe = build_engine(); comp = Compiler(exe); bad = 0
work = os.path.join(BUILD, "cross"); os.makedirs(work, exist_ok=True)
for prop in props:
    for run in parse_runs(prop):
        if not run["q"]:
            continue
        defs = definitions(run, prop, 0)
        if not run["native"]:
            try:
                comp.compile(os.path.join(VERIF, "harness", run["file"]), NATFLAGS + ["-c"] + defs, ".o", "g++")
            except CheckError as e:
                bad += 1; print(prop, run["name"], "COMPILE", str(e)[:600], flush=True)
            continue
        try:
            nb = comp.native(run, defs); bc = comp.link_ir(run, defs)
        except CheckError as e:
            bad += 1; print(prop, run["name"], "COMPILE", str(e)[:600], flush=True); continue
        out = os.path.join(work, run["name"])
        sh([exe, "--out", out, "--workers", str(NCPU), "--time", "12", "--preempt", str(run["q"][0]), "--early", str(run["early"]), "--tier", "0"] + run["extra"] + [bc], timeout=60)
        n = 0
        try:
            ss = [json.loads(l) for l in open(out + "/samples.jsonl")][:8]
        except OSError:
            ss = []
        for i, s in enumerate(ss):
            rf = os.path.join(work, "x%d" % i); open(rf, "w").write(replay_text(s))
            hit, txt, _ = native_replay(nb, rf, dict(kind="none"), 0, tries=8, budget=15)
            if hit:
                bad += 1; print(prop, run["name"], "NATIVE", txt[:300], s["inputs"][:30], flush=True)
            n += 1
        print(prop, run["name"], n, "samples", flush=True)
shutil.rmtree(work, ignore_errors=True)
print("bad:", bad)
