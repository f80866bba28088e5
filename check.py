#!/usr/bin/env python3
"""check.py PROPERTY [--thorough]: deterministic simulation check of one property of /repo.

Builds /repo's current tree with the simulator, explores seeded runs, reproduces and shrinks every failure, writes evidence/PROPERTY.json.
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself went wrong."""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, "sim")
REPO = os.environ.get("XOSIM_REPO", "/repo")
sys.path.insert(0, HERE)
from props import PROPS

LIB_DIRS = ["container", "filesystem", "geometry", "shape", "numerical", "serialization", "string", "system", "thread", "time", "utility"]
CXX = os.environ.get("XOSIM_CXX", "g++")
REPO_FLAGS = ["-std=c++17", "-O1", "-g1", "-fno-pie", "-fsanitize=thread", "-include", SIM + "/inst.h", "-I" + REPO, "-I" + SIM, "-w"]
RT_FLAGS = ["-std=c++17", "-O2", "-g1", "-fno-pie", "-I" + SIM, "-w"]

def die(msg):
    print("ERROR:", msg, flush=True)
    sys.exit(2)

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def build(scn_files, out):
    """compile /repo's library sources (instrumented), the scenarios and the simulator; returns the binary"""
    libsrc = sorted(f for d in LIB_DIRS for f in glob.glob(os.path.join(REPO, "xo", d, "*.cpp")))
    jobs = []
    for f in libsrc:
        jobs.append(([CXX] + REPO_FLAGS + ["-c", f], os.path.join(out, "xo_" + os.path.basename(os.path.dirname(f)) + "_" + os.path.basename(f) + ".o")))
    scn_o = []
    for s in scn_files:
        o = os.path.join(out, s + ".o")
        scn_o.append(o)
        jobs.append(([CXX] + REPO_FLAGS + ["-c", os.path.join(SIM, s + ".cpp")], o))
    lib_o = [o for _, o in jobs if os.path.basename(o).startswith("xo_")]
    rt_o = []
    for s in ["rt", "vfs", "main"]:
        o = os.path.join(out, "z_" + s + ".o")
        rt_o.append(o)
        jobs.append(([CXX] + RT_FLAGS + ["-c", os.path.join(SIM, s + ".cpp")], o))
    o = os.path.join(out, "z_shim.o")
    rt_o.append(o)
    jobs.append((["gcc", "-O2", "-g1", "-fexceptions", "-fno-pie", "-fno-builtin", "-w", "-c", os.path.join(SIM, "shim.c")], o))
    # the slow ones first
    jobs.sort(key=lambda j: 0 if "scn_" in j[1] else 1 if "z_rt" in j[1] or "serializ" in j[1] else 2)
    with concurrent.futures.ThreadPoolExecutor(max(2, os.cpu_count() or 2)) as ex:
        for (cmd, obj), r in zip(jobs, ex.map(lambda j: run(j[0] + ["-o", j[1]]), jobs)):
            if r.returncode:
                die("compiling %s failed:\n%s" % (cmd[-1], r.stdout[-4000:]))
    exe = os.path.join(out, "sim")
    r = run([CXX, "-no-pie", "-Wl,-z,now"] + scn_o + lib_o + rt_o + ["-ldl", "-lpthread", "-o", exe])
    if r.returncode:
        die("linking failed:\n" + r.stdout[-4000:])
    return exe

def explore(exe, prop, out, base, count, tmax, workers, hashes=False):
    os.makedirs(out, exist_ok=True)
    ps = []
    for w in range(workers):
        cmd = [exe, "explore", "--base", str(base), "--first", str(w), "--step", str(workers), "--count", str(count), "--tmax", str(tmax), "--out", out, "--scn", prop, "--hashes", "1" if hashes else "0"]
        ps.append(subprocess.Popen(cmd, env=dict(os.environ, XOSIM_CPU=str(w)), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True))
    errs = []
    for p in ps:
        _, e = p.communicate()
        if p.returncode:
            errs.append("worker ended with %s: %s" % (p.returncode, e[-500:]))
    if errs:
        die("; ".join(errs))
    sums = [json.load(open(f)) for f in glob.glob(os.path.join(out, "sum.*"))]
    viols = [json.loads(l) for f in sorted(glob.glob(os.path.join(out, "viol.*"))) for l in open(f)]
    hs = {}
    if hashes:
        for f in glob.glob(os.path.join(out, "hashes.*")):
            for l in open(f):
                i, rest = l.split(" ", 1)
                hs[int(i)] = rest.strip()
    return sums, viols, hs

def symbolize(exe, detail):
    pcs = sorted(set(re.findall(r"pc=(0x[0-9a-f]+)", detail)))
    if not pcs:
        return detail
    r = run(["addr2line", "-Cfse", exe] + [hex(int(p, 16) - 1) for p in pcs])
    lines = r.stdout.splitlines()
    for k, p in enumerate(pcs):
        if 2 * k + 1 < len(lines):
            detail = detail.replace("pc=" + p, "%s (%s)" % (lines[2 * k][:120], lines[2 * k + 1]))
    return detail

def replay(exe, f):
    r = run([exe, "replay", f], timeout=120)
    try:
        return json.loads(r.stdout.strip().splitlines()[-1])
    except Exception:
        return {"class": "", "same": False, "error": r.stdout[-300:]}

def known(prop):
    """entries of KNOWN_FINDINGS: 'KNOWN-FINDING: property=.. scenario=.. class=.. replay=.. match=/../ text'"""
    res = []
    f = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"KNOWN-FINDING: property=(\S+) scenario=(\S+) class=(\S+) replay=(\S+) match=/(.*?)/ (.*)", l.strip())
            if m and m[1] == prop:
                res.append({"scenario": m[2], "class": m[3], "replay": os.path.join(HERE, m[4]), "match": m[5], "text": m[6]})
    return res

def main():
    if sys.argv[1:] == ["--setup"]:
        # every check builds from /repo's current tree by itself; here the tools are only tried out
        with tempfile.TemporaryDirectory(prefix="xosim.setup.") as d:
            exe = build(sorted(set(s for p in PROPS.values() for s in p["scn"])), d)
            print(run([exe, "list"]).stdout)
        sys.exit(0)
    if len(sys.argv) < 2 or sys.argv[1] not in PROPS:
        die("usage: check.py PROPERTY [--thorough]; properties: " + " ".join(sorted(PROPS)))
    prop = sys.argv[1]
    P = PROPS[prop]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    print("VERIF_SEED=%d property=%s tier=%s" % (seed, prop, tier), flush=True)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="xosim.%s." % prop)
    try:
        rc = check(prop, P, tier, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

def check(prop, P, tier, seed, tmp, t0):
    exe = build(P["scn"], tmp)
    t_build = time.time() - t0
    workers = max(1, min(8, os.cpu_count() or 1))
    count = P.get("quick", 20000) if tier == "quick" else P.get("thorough", 1500000)
    tmax = P.get("quick_s", 40) if tier == "quick" else P.get("thorough_s", 500)
    # the same seeds in other processes, split over another number of workers, must give the same event logs
    ndet = 160 if tier == "quick" else 4000
    _, _, ha = explore(exe, prop, os.path.join(tmp, "da"), seed, ndet, tmax, 3, True)
    _, _, hb = explore(exe, prop, os.path.join(tmp, "db"), seed, ndet, tmax, workers, True)
    both = set(ha) & set(hb)
    diverged = sorted(i for i in both if ha[i] != hb[i])
    sums, viols, _ = explore(exe, prop, os.path.join(tmp, "ex"), seed, count, tmax, workers)
    kn = known(prop)

    groups = {}
    for v in viols:
        groups.setdefault((v["scenario"], v["class"]), []).append(v)
    out_dir = os.path.join(HERE, "replays", prop)
    reported, unreproduced, suppressed = [], [], 0
    budget = time.time() + (90 if tier == "quick" else 240)
    for (scn, cls), vs in sorted(groups.items()):
        done = False
        vs.sort(key=lambda v: v["index"])
        for v in vs[:8]:
            if done and not kn:
                break
            if reported and time.time() > budget:
                break
            a, b = replay(exe, v["file"]), replay(exe, v["file"])
            if not (a.get("same") and b.get("same")):
                unreproduced.append((v, a))
                continue
            mini = os.path.join(tmp, "mini.replay")
            r = run([exe, "shrink", v["file"], mini, "8" if tier == "quick" else "30"])
            src = mini if r.returncode == 0 else v["file"]
            c = replay(exe, src)
            if not c.get("same"):
                src, c = v["file"], a
            detail = symbolize(exe, c["detail"])
            k = [k for k in kn if k["scenario"] == scn and k["class"] == cls and re.search(k["match"], detail)]
            if k:
                suppressed += 1
                continue
            if done:
                continue
            os.makedirs(out_dir, exist_ok=True)
            dst = os.path.join(out_dir, "%s.%s.%s.replay" % (scn, cls, v["index"]))
            shutil.copyfile(src, dst)
            reported.append((scn, cls, detail, dst, v["seed"]))
            done = True

    # every recorded defect is shown again from its own replay file
    known_lines = []
    for k in kn:
        c = replay(exe, k["replay"])
        if c.get("class") == k["class"]:
            known_lines.append("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))

    tot = {}
    def add(a, d):
        for x, y in d.items():
            if isinstance(y, (int, float)) and not isinstance(y, bool):
                a[x] = max(a.get(x, 0), y) if x in ("max_threads", "peak_heap", "wall") else a.get(x, 0) + y
            elif isinstance(y, dict):
                add(a.setdefault(x, {}), y)
    for s in sums:
        add(tot, {k: v for k, v in s.items() if k not in ("samples", "distinct")})
    distinct = set(h for s in sums for h in s["distinct"])
    samples = [x for s in sums for x in s["samples"]][:6]
    wall = time.time() - t0
    ew = max(tot.get("wall", 0), 1e-3)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot.get("runs", 0),
            "distinct_nontrivial": len(distinct),
            "rule": "One evaluation is one simulated execution; its PRNG seed (VERIF_SEED, scenario, index) generates the workload, which fault kinds are on and at what rate, and then every scheduling and fault decision. Non-trivial: at least one non-default scheduling or fault decision was taken, a fault fired, or the scenario marked the workload itself as non-trivial. Distinct: different hash over the workload and the sequence of (decision point, choice) including the schedule.",
            "samples": samples,
            "nontrivial_runs": tot.get("nontrivial", 0),
            "runs_per_hour": int(tot.get("runs", 0) / ew * 3600), "distinct_seeds_per_hour": int(tot.get("runs", 0) / ew * 3600),
            "simulated_seconds": round(tot.get("simtime_ns", 0) / 1e9, 3),
            "events": tot.get("steps", 0), "schedule_points": tot.get("points", 0), "context_switches": tot.get("switches", 0), "simulated_io_operations": tot.get("ioops", 0),
            "max_threads_in_a_run": tot.get("max_threads", 0), "peak_heap_bytes": tot.get("peak_heap", 0), "non_default_decisions": tot.get("choices", 0),
            "crash_restart_runs": tot.get("restarts", 0),
            "faults_fired": tot.get("faults", {}), "runs_with_fault": tot.get("fault_runs", {}), "probes": tot.get("probes", {}), "scenarios": tot.get("scenarios", {}),
            "determinism": {"seeds_run_twice": len(both), "worker_counts": [3, workers], "diverged": len(diverged)},
            "violations_reproduced": len(reported), "violations_not_reproduced": len(unreproduced), "known_finding_hits": suppressed,
            "real_components": P["real"], "stubbed_components": P["stub"],
            "build_s": round(t_build, 2), "explore_s": round(ew, 2),
        },
        "assumptions": P["assume"], "wall_s": round(wall, 2), "violations": len(reported),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ef = os.path.join(HERE, "evidence", prop + ".json")
    with open(ef + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(ef + ".tmp", ef)

    for l in known_lines:
        print(l)
    print("%s: %d runs (%d distinct non-trivial) in %.1f s + %.1f s build, %d schedule points, %d faults, %d restarts" % (prop, tot.get("runs", 0), len(distinct), ew, t_build, tot.get("points", 0), sum(tot.get("faults", {}).values()), tot.get("restarts", 0)))
    for scn, cls, detail, dst, sd in reported:
        print("violation: scenario=%s class=%s seed=%s\n  %s" % (scn, cls, sd, detail))
        print("VIOLATION property=%s replay=%s" % (prop, dst))
    sys.stdout.flush()
    if reported:
        return 1
    # what does not repeat exactly is no verdict about the code: it is recorded in the evidence, and an error of the simulator if it is common
    if diverged:
        print("%s: %d of %d seeds did not repeat exactly, e.g. index %d: %s / %s" % ("ERROR" if len(diverged) * 10 > len(both) else "NOTE", len(diverged), len(both), diverged[0], ha[diverged[0]], hb[diverged[0]]))
    if unreproduced:
        v, a = unreproduced[0]
        print("%s: %d failures did not reproduce, e.g. %s -> %s" % ("ERROR" if len(unreproduced) > 20 else "NOTE", len(unreproduced), json.dumps(v), json.dumps(a)))
    if len(diverged) * 10 > len(both) or len(unreproduced) > 20:
        return 2
    if tot.get("runs", 0) == 0:
        print("ERROR: nothing was run")
        return 2
    return 0

main()
