#!/usr/bin/env python3
"""Decides one property: compiles /repo's current sources to LLVM IR, executes the property's harnesses
symbolically (engine/), replays counterexamples, writes evidence/<id>.json.

usage: check.py PROPERTY [--tier quick|thorough] [--keep] [--only RUN]
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PTN_REPO", "/repo")
CLANG = next((p for p in ("/usr/lib/llvm-18/bin/clang++", "/usr/bin/clang++-18", "/usr/bin/clang++") if os.path.exists(p)), "clang++")
BUILD = os.path.join(VERIF, "build")
NCPU = min(8, os.cpu_count() or 4)
PTN = os.path.join(REPO, "PTN_Engine")
INC = ["-I" + REPO, "-I" + PTN, "-I" + PTN + "/include", "-I" + PTN + "/ImportExport", "-I" + PTN + "/ImportExport/include",
       "-I" + PTN + "/ImportExport/XML/src", "-I" + VERIF + "/rt", "-I" + VERIF + "/harness", "-I" + REPO + "/Examples"]
IRFLAGS = ["-std=c++20", "-O1", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c", "-gline-tables-only", "-D_GLIBCXX_EXTERN_TEMPLATE=0",
           "-fno-vectorize", "-fno-slp-vectorize", "-w"]
NATFLAGS = ["-std=c++20", "-O1", "-g", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]


class CheckError(Exception):
    pass


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, **kw)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def tree_hash(dirs, exts=(".h", ".hpp", ".cpp", ".cc", ".inl")):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in sorted(os.walk(d)):
            ds[:] = sorted(x for x in ds if not x.startswith((".", "_")) and x != "build")
            for f in sorted(fs):
                if f.endswith(exts):
                    p = os.path.join(root, f)
                    h.update(p.encode() + b"\0" + open(p, "rb").read())
    return h.hexdigest()[:24]


def build_engine():
    out = os.path.join(BUILD, "engine-" + tree_hash([VERIF + "/engine"]))
    exe = os.path.join(out, "symex")
    if os.path.exists(exe):
        return exe
    tmp = out + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    r = sh(["make", "-s", "-j4", "-C", VERIF + "/engine", "OUT=" + tmp, tmp + "/symex"])
    if r.returncode:
        raise CheckError("the symbolic executor does not build:\n" + r.stderr[-3000:])
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


def lib_sources(kind):
    core = sorted(glob.glob(PTN + "/*.cpp") + glob.glob(PTN + "/Executor/**/*.cpp", recursive=True) + glob.glob(PTN + "/JobQueue/**/*.cpp", recursive=True)
                  + glob.glob(PTN + "/Utilities/**/*.cpp", recursive=True))
    io = sorted(glob.glob(PTN + "/ImportExport/**/*.cpp", recursive=True))
    # directories a change may add
    for d in sorted(os.listdir(PTN)):
        p = os.path.join(PTN, d)
        if os.path.isdir(p) and d not in ("Executor", "JobQueue", "Utilities", "ImportExport", "include", "cmake"):
            core += sorted(glob.glob(p + "/**/*.cpp", recursive=True))
    out = list(core)
    if "io" in kind:
        out += io
    for k in kind:
        if k.startswith("ex:"):
            pat = k[3:]
            out += sorted(f for f in glob.glob(REPO + "/Examples/" + pat, recursive=True))
    return out


def preprocess_key(src, flags, inctree):
    return digest(open(src, "rb").read(), " ".join(flags), inctree, src)


class Compiler:
    def __init__(self, exe):
        self.exe = exe
        self.inctree = tree_hash([PTN, REPO + "/Examples", VERIF + "/rt"], (".h", ".hpp", ".inl"))
        self.htree = tree_hash([VERIF + "/harness"], (".h", ".hpp"))
        self.extree = tree_hash([REPO + "/Examples"], (".cpp",))  # some harnesses include an example's sources
        os.makedirs(BUILD + "/bc", exist_ok=True)

    def compile(self, src, flags, ext, cxx):
        m = re.match(re.escape(REPO) + r"/Examples/(\w+)/", src)
        if m:
            flags = flags + ["-I%s/Examples/%s" % (REPO, m.group(1))]
        key = preprocess_key(src, [cxx] + flags, self.inctree + self.htree + REPO + (self.extree if src.startswith(VERIF) else ""))
        out = "%s/bc/%s-%s%s" % (BUILD, os.path.basename(src).replace(".cpp", ""), key, ext)
        if not os.path.exists(out):
            tmp = out + ".tmp%d-%d" % (os.getpid(), threading.get_ident())
            r = sh([cxx] + flags + INC + [src, "-o", tmp])
            if r.returncode:
                raise CheckError("cannot compile %s:\n%s" % (src, r.stderr[-4000:]))
            os.rename(tmp, out)
        return out

    def sources(self, run):
        return lib_sources(run["link"]) + [VERIF + "/rt/rt_ir.cpp"] + ([VERIF + "/rt/rt_pugi.cpp"] if "io" in run["link"] else [])

    def library(self, runs):
        """Compiles what the runs share, once."""
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(lambda s: self.compile(s, IRFLAGS, ".bc", CLANG), sorted({s for r in runs for s in self.sources(r)})))

    def link_ir(self, run, defs):
        harness = os.path.join(VERIF, "harness", run["file"])
        srcs = self.sources(run)
        jobs = [(s, IRFLAGS) for s in srcs] + [(harness, IRFLAGS + defs)]
        with ThreadPoolExecutor(NCPU) as ex:
            bcs = list(ex.map(lambda j: self.compile(j[0], j[1], ".bc", CLANG), jobs))
        key = digest(*(bcs + [self.exe]))
        out = "%s/bc/linked-%s-%s.bc" % (BUILD, run["name"], key)
        if not os.path.exists(out):
            tmp = out + ".tmp%d-%d" % (os.getpid(), threading.get_ident())
            r = sh([self.exe, "--link", tmp] + bcs)
            if r.returncode:
                raise CheckError("cannot link the IR of %s:\n%s" % (run["name"], r.stderr[-3000:]))
            os.rename(tmp, out)
        return out

    def native(self, run, defs):
        harness = os.path.join(VERIF, "harness", run["file"])
        srcs = lib_sources(run["link"]) + [VERIF + "/rt/rt_native.cpp"]
        jobs = [(s, NATFLAGS + ["-c"]) for s in srcs] + [(harness, NATFLAGS + ["-c"] + defs)]
        with ThreadPoolExecutor(NCPU) as ex:
            try:
                cxx = "g++"
                objs = list(ex.map(lambda j: self.compile(j[0], j[1], ".o", cxx), jobs))
            except CheckError:
                cxx = CLANG
                objs = list(ex.map(lambda j: self.compile(j[0], j[1], ".o", cxx), jobs))
        out = "%s/bc/native-%s-%s" % (BUILD, run["name"], digest(*objs))
        if not os.path.exists(out):
            tmp = out + ".tmp%d" % os.getpid()
            r = sh([cxx, "-fsanitize=address,undefined", "-o", tmp] + objs + (["-lpugixml"] if "io" in run["link"] else []) + ["-lpthread"])
            if r.returncode:
                raise CheckError("cannot link the native replay of %s:\n%s" % (run["name"], r.stderr[-3000:]))
            os.rename(tmp, out)
        return out


def parse_runs(prop):
    """Runs are declared in the harness sources: //@run name=.. kind=seq|conc key=value ..."""
    runs = []
    for f in sorted(glob.glob(VERIF + "/harness/*.cpp")):
        for line in open(f):
            m = re.match(r"//@run\s+(.*)", line)
            if not m:
                continue
            d = dict(x.split("=", 1) for x in m.group(1).split())
            if prop not in d.get("prop", "").split(","):
                continue
            run = dict(file=os.path.basename(f), name=d["name"], kind=d.get("kind", "seq"), define=[x for x in d.get("define", "").split(",") if x],
                       link=[x for x in d.get("link", "").split("+") if x], covers=[x for x in d.get("covers", "").split(",") if x],
                       musts=[x for x in d.get("musts", "").split(",") if x], early=int(d.get("early", "0")), msgs=d.get("msgs", ""))
            run["q"] = [int(x) for x in d.get("q", "0").split(",")] if d.get("q", "") != "-" else []
            run["t"] = [int(x) for x in d.get("t", d.get("q", "0") if d.get("q") != "-" else "0").split(",")]
            run["qtime"] = float(d.get("qtime", "40"))
            run["ttime"] = float(d.get("ttime", "600"))
            run["qdefine"] = [x for x in d.get("qdefine", "").split(",") if x]
            run["tdefine"] = [x for x in d.get("tdefine", "").split(",") if x]
            run["extra"] = d.get("extra", "").split("+") if d.get("extra") else []
            run["native"] = int(d.get("native", "1" if run["kind"] == "seq" else "0"))
            runs.append(run)
    return runs


def definitions(run, prop, tnum):
    over = {d.split("=")[0]: d for d in run["define"] + (run["tdefine"] if tnum else run["qdefine"])}
    exinc = ["-I%s/Examples/%s" % (REPO, m.group(1)) for m in (re.match(r"ex:(\w+)/", x) for x in run["link"]) if m]
    return exinc + ["-D" + d for d in over.values()] + ['-DREPO_DIR="%s"' % REPO, "-DSYM_TIER=%d" % tnum, "-DPROP=%d" % int(re.sub(r"\D", "", prop))]


def replay_text(v):
    o = "".join("input %s %s %s\n" % (n, occ, val) for n, occ, val in v["inputs"])
    o += "".join("sched %d %d\n" % (a, b) for a, b in v["sched"])
    o += "preempt %d\nearly %d\n" % (v["preempt"], v["early"])
    return o


def engine_replay(exe, bc, rfile, v, tier, extra):
    out = rfile + ".d"
    r = sh([exe, "--replay", rfile, "--out", out, "--time", "60", "--tier", str(tier)] + extra + [bc], timeout=150)
    ok = False
    try:
        for l in open(out + "/violations.jsonl"):
            d = json.loads(l)
            if d["kind"] == v["kind"] and d["msg"] == v["msg"]:
                ok = True
    except OSError:
        pass
    shutil.rmtree(out, ignore_errors=True)
    return ok, r.stderr[-4000:]


def native_replay(binary, rfile, v, tier, tries=300, budget=60):
    try:
        return native_replay_(binary, rfile, v, tier, tries, budget)
    finally:
        shutil.rmtree(rfile + ".scratch", ignore_errors=True)


def native_replay_(binary, rfile, v, tier, tries, budget):
    """Runs the real, natively compiled code on the counterexample's inputs. The iteration order of the net is random, so the run is repeated."""
    scratch = rfile + ".scratch"
    os.makedirs(scratch, exist_ok=True)
    env = dict(os.environ, SYM_SCRATCH=scratch, SYM_REPLAY=rfile, SYM_TIER=str(tier), ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=43", UBSAN_OPTIONS="print_stacktrace=1")
    t0 = time.time()
    hang_ok = v["kind"] in ("hang", "deadlock")
    n = 0
    while n < tries and time.time() - t0 < budget:
        batch = min(NCPU, tries - n)
        ps = [subprocess.Popen([binary], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace") for _ in range(batch)]
        n += batch
        hit = None
        for p in ps:
            try:
                _, err = p.communicate(timeout=10)
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                if hang_ok:
                    hit = "the program does not terminate (stopped after 10 s)"
                continue
            if p.returncode == 42:
                m = re.search(r"SYM-VIOLATION.*", err)
                hit = m.group(0) if m else "assertion violated"
            elif p.returncode not in (0,) and hit is None:
                hit = "exit status %d: %s" % (p.returncode, err.strip()[-1500:])
        if hit:
            return True, hit, n
    return False, "not reproduced in %d native runs" % n, n


def load_known():
    p = VERIF + "/known_findings.json"
    return json.load(open(p)) if os.path.exists(p) else {"findings": []}


def known_match(prop, run, v, known):
    for k in known.get("findings", []):
        if k.get("status") != "known" or k["property"] != prop:
            continue
        m = k["match"]
        if m.get("run") and m["run"] != run:
            continue
        if m.get("kind") and m["kind"] != v["kind"]:
            continue
        if m.get("msg") and not re.fullmatch(m["msg"], v["msg"]):
            continue
        if m.get("stack") and not re.search(m["stack"], v.get("stack", "")):
            continue
        return k
    return None


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tnum = 1 if tier == "thorough" else 0
    t0 = time.time()
    limit = 800 if tnum == 0 else 6 * 3600
    work = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    runs = [r for r in parse_runs(prop) if not only or r["name"] == only]
    if not runs:
        raise CheckError("no harness declared for " + prop)
    exe = build_engine()
    comp = Compiler(exe)
    known = load_known()
    findings, confirmed, unconfirmed, errors = [], [], [], []
    tot = {}
    details = []
    functions = set()
    validated = validated_native = 0
    exhaustive = True
    samples = []
    build_s = 0.0
    runs = [r for r in runs if (r["t"] if tnum else r["q"])]

    tb = time.time()
    comp.library(runs)
    with ThreadPoolExecutor(NCPU) as ex:
        linked = list(ex.map(lambda r: comp.link_ir(r, definitions(r, prop, tnum)), runs))
    build_s += time.time() - tb
    for run, bc in zip(runs, linked):
        run["tier"] = tier
        bounds = run["t"] if tnum else run["q"]
        defs = definitions(run, prop, tnum)
        covers = {}
        complete_all = True
        viols = []
        for k in bounds:
            left = limit - (time.time() - t0)
            tm = min(run["ttime"] if tnum else run["qtime"], left)
            if tm < 5:
                complete_all = exhaustive = False
                break
            out = os.path.join(work, "%s-%d" % (run["name"], k))
            cmd = [exe, "--out", out, "--workers", str(NCPU), "--time", "%.1f" % tm, "--preempt", str(k), "--early", str(run["early"]), "--tier", str(tnum),
                   "--seed", str(seed), "--stop-first", "400"] + run["extra"] + [bc]
            r = sh(cmd, timeout=tm + 120)
            try:
                rep = json.loads(r.stdout.strip().splitlines()[-1])
            except Exception:
                raise CheckError("no report from the engine for %s: %s %s" % (run["name"], r.stdout[-300:], r.stderr[-800:]))
            for x in ("queries", "sat", "unsat", "unknown", "solver_s", "asserts", "asserts_symbolic", "forks", "instructions", "sched_choices", "preemptions",
                      "paths_done", "paths_violating", "paths_infeasible", "paths_cut", "undecided"):
                tot[x] = tot.get(x, 0) + rep[x]
            functions.update(rep["functions"])
            for c, n in rep["covers"].items():
                covers[c] = covers.get(c, 0) + n
            vs = []
            if os.path.exists(out + "/violations.jsonl"):
                vs = [json.loads(l) for l in open(out + "/violations.jsonl")]
            complete = not rep["incomplete"] and not rep["errors"] and not rep["undecided"]
            complete_all &= complete
            details.append(dict(run=run["name"], harness=run["file"], preemption_bound=k if run["kind"] == "conc" else None, complete=complete,
                                incomplete=rep["incomplete"], paths=rep["paths_done"], queries=rep["queries"], solver_s=rep["solver_s"],
                                assertions=rep["asserts"], covers=rep["covers"], wall_s=rep["wall"], counterexamples=len(vs)))
            if rep["warnings"]:
                details[-1]["warnings"] = rep["warnings"]
            if rep["errors"]:
                errors.append("%s: %s" % (run["name"], rep["errors"][0]))
            smp = out + "/samples.jsonl"
            if os.path.exists(smp):
                ss = [json.loads(l) for l in open(smp)]
                for s in ss[:2]:
                    if len(samples) < 12:
                        samples.append(dict(run=run["name"], bound=k, inputs=s["inputs"][:24], schedule=s["sched"][:24]))
                # deterministic concrete re-execution of sampled traces
                for i, s in enumerate(ss[:2]):
                    rf = os.path.join(work, "s-%s-%d-%d" % (run["name"], k, i))
                    open(rf, "w").write(replay_text(s))
                    rr = sh([exe, "--replay", rf, "--out", rf + ".d", "--time", "60", "--tier", str(tnum)] + run["extra"] + [bc], timeout=150)
                    if "main returned" in rr.stderr and not os.path.exists(rf + ".d/violations.jsonl"):
                        validated += 1
                    else:
                        errors.append("%s: a sampled trace does not replay" % run["name"])
                # thorough: the same inputs on the natively compiled code
                if tnum and run["native"] and not vs:
                    nb = comp.native(run, defs)
                    for i, s in enumerate(ss[:6]):
                        rf = os.path.join(work, "n-%s-%d-%d" % (run["name"], k, i))
                        open(rf, "w").write(replay_text(s))
                        hit, txt, _ = native_replay(nb, rf, dict(kind="none"), tnum, tries=8, budget=20)
                        if hit:
                            errors.append("%s: a sampled passing trace fails natively: %s" % (run["name"], txt[:300]))
                        else:
                            validated_native += 1
            seen = set()
            for v in vs:
                key = (v["kind"], v["msg"])
                if key in seen:
                    continue
                seen.add(key)
                viols.append((k, v))
            if vs:
                newv = [v for v in vs if not known_match(prop, run["name"], v, known)]
                if newv:
                    break
        exhaustive &= complete_all
        # confirm
        nat = None
        seen = set()
        for k, v in viols:
            key = (v["kind"], v["msg"])
            if key in seen or len([c for c in confirmed if c["run"] == run["name"]]) >= 3:
                continue
            seen.add(key)
            kf = known_match(prop, run["name"], v, known)
            name = "%s-%s-%s" % (prop, run["name"], digest(*key)[:8])
            rdir = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rdir, exist_ok=True)
            rfile = os.path.join(rdir, name + ".replay")
            open(rfile, "w").write(replay_text(v))
            ok, tr = engine_replay(exe, bc, rfile, v, tnum, run["extra"])
            how = "re-executed concretely with the recorded inputs and schedule"
            if ok and run["native"]:
                if nat is None:
                    nat = comp.native(run, defs)
                ok, txt, n = native_replay(nat, rfile, v, tnum)
                how = "reproduced on the natively compiled code: " + txt if ok else "native: " + txt
            rec = dict(run=run["name"], kind=v["kind"], msg=v["msg"], inputs=v["inputs"], schedule=v["sched"], stack=v["stack"], replay=rfile, how=how, bound=k)
            with open(rfile, "a") as fh:
                fh.write("# property %s run %s\n# %s: %s\n# %s\n" % (prop, run["name"], v["kind"], v["msg"], how.replace("\n", "\n# ")))
                fh.write("".join("# %s\n" % l for l in v["stack"].splitlines()))
                fh.write("# replay: cd %s && python3 tools/replay.py %s %s %s\n" % (VERIF, prop, run["name"], rfile))
            if not ok:
                unconfirmed.append(rec)
            elif kf:
                findings.append((kf, rec))
            else:
                confirmed.append(rec)
        if not viols:
            missing = [c for c in run["covers"] if not covers.get(c)]
            unreached = [c for c in run["musts"] if not covers.get(c)]
            if unreached and complete_all:
                rfile = os.path.join(VERIF, "evidence", "replay")
                os.makedirs(rfile, exist_ok=True)
                rfile += "/%s-%s-unreachable.txt" % (prop, run["name"])
                open(rfile, "w").write("In run %s (harness %s) the complete exploration within the bounds shows that these required behaviours are impossible: %s\n"
                                       % (run["name"], run["file"], ", ".join(unreached)))
                confirmed.append(dict(run=run["name"], kind="unreachable", msg="behaviour that must be possible is impossible: " + ", ".join(unreached), inputs=[],
                                      schedule=[], stack="", replay=rfile, how="all paths explored", bound=max(bounds)))
            elif unreached:
                missing += unreached
            if missing and not confirmed:
                errors.append("%s: witnesses not reached: %s" % (run["name"], ", ".join(missing)))
    wall = time.time() - t0
    tot = {k: (round(v, 3) if isinstance(v, float) else v) for k, v in tot.items()}
    conc = any(r["kind"] == "conc" for r in runs)
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(wall, 2), violations=len(confirmed),
              coverage=dict(states=tot.get("forks", 0) + len(details), transitions=tot.get("instructions", 0), traces_validated_against_impl=validated + validated_native, traces_run_natively=validated_native, samples=samples,
                            explanation="states: symbolic states (path prefixes) created by forking; transitions: IR instructions executed symbolically; "
                                        "traces_validated_against_impl: sampled solver models of finished paths re-executed concretely on the compiled code.",
                            exhaustive=bool(exhaustive), functions_encoded=sorted(functions), runs=details, solver=tot, build_s=round(build_s, 2),
                            unconfirmed=[{k: u[k] for k in ("run", "kind", "msg", "how")} for u in unconfirmed], errors=errors,
                            known_findings=[k["id"] for k, _ in findings]),
              assumptions=assumptions(runs, conc))
    json.dump(ev, open("%s/evidence/%s.json" % (VERIF, prop), "w"), indent=1)
    if "--keep" not in sys.argv:
        shutil.rmtree(work, ignore_errors=True)
    for kf, rec in {k["id"]: (k, r) for k, r in findings}.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, kf["what"]))
    print("%s %s: %d paths, %d solver queries (%.1f s), %d assertions, exhaustive within bounds: %s, %.1f s"
          % (prop, tier, tot.get("paths_done", 0), tot.get("queries", 0), tot.get("solver_s", 0), tot.get("asserts", 0), exhaustive, wall))
    for d in details:
        print("  %-28s K=%s paths=%d complete=%s %s %.1fs%s" % (d["run"], d["preemption_bound"], d["paths"], d["complete"], ",".join(d["incomplete"]), d["wall_s"], " " + str(d.get("warnings")) if d.get("warnings") else ""))
    for u in unconfirmed:
        print("  unconfirmed counterexample (not reported): %s %s %s" % (u["kind"], u["msg"], u["how"]))
    if confirmed:
        for c in confirmed:
            print("  %s: %s [%s] inputs=%s schedule=%s\n    %s\n    %s" % (c["kind"], c["msg"], c["run"], c["inputs"][:20], c["schedule"][:12], c["how"].replace("\n", "\n    ")[:1500], "\n    ".join(c["stack"].splitlines()[:8])))
            print("VIOLATION property=%s replay=%s" % (prop, c["replay"]))
        return 1
    for u in unconfirmed:
        errors.append("counterexample without confirmation: %s %s" % (u["run"], u["msg"]))
    if errors:
        for e in errors:
            print("ERROR " + e)
        return 2
    return 0


def assumptions(runs, conc):
    a = ["bounded: nets, sizes and steps as fixed by the harnesses " + ", ".join(sorted({r["file"] for r in runs})),
         "compiled for x86-64 by clang 18 against libstdc++ 13, sequential consistency for atomics",
         "random_device, mt19937 and uniform_int_distribution return any value of their contract"]
    if conc:
        a.append("threads interleave at locks, waits, notifications, joins and visible atomic accesses; at most the stated number of preemptions per run; "
                 "mutexes, shared mutexes, condition variables, futexes, sleeps and the clock are modelled; no spurious wake-ups unless stated")
    if any("io" in r["link"] for r in runs):
        a.append("pugixml is replaced by a model of the calls used (rt/rt_pugi.cpp); files are kept in memory")
    return a


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("ERROR " + str(e))
        sys.exit(2)
    except subprocess.TimeoutExpired as e:
        print("ERROR timeout: " + str(e))
        sys.exit(2)
