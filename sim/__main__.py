"""python -m sim check Cxx | replay FILE | selftest [Cxx ...] | plan Cxx SEED"""
import json
import os
import sys
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = {"PYTHONHASHSEED": os.environ.get("SIM_HASHSEED", "0"), "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
       "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg"}
PYTHON = os.environ.get("SIM_PYTHON", "/opt/venv/bin/python")

# simulated runs of the quick tier
QUICK = {"C01": 3600, "C02": 3600, "C03": 3600, "C04": 2400, "C05": 3200, "C06": 8000, "C07": 10000, "C08": 6000, "C09": 1300, "C10": 1500,
         "C11": 1500, "C12": 1300, "C13": 1200, "C14": 3200, "C15": 1600}
QUICK_WALL = 300.0
THOROUGH_WALL = 1500.0
MINIMISE_WALL = 45.0

REAL_CODE = ["all of compas_cem (diagrams, elements, loads, supports, equilibrium, optimization, plotters' artists, Grasshopper component scripts)",
             "compas datastructures, data encoders and geometry", "nlopt's compiled algorithms", "autograd", "numpy/scipy",
             "xmlrpc client marshalling, compas.rpc Proxy and Dispatcher", "json encoding and decoding", "CPython threads (one runs at a time)"]
STUBS = ["clocks (time.time, monotonic, perf_counter, the CPU clocks, datetime.now, sleep): simulated", "uuid4: counter", "open() below the scratch directory: fault-injecting file layer",
         "xmlrpc transport: simulated network", "Popen of the rpc server: simulated process table; the dispatcher runs in-process on its own objects",
         "Rhino/Grasshopper modules: thin stand-ins", "nlopt.opt: real solver behind a shim that can fail an evaluation",
         "thread switches: decided by the plan at statement granularity inside compas_cem"]
ASSUMES = {
    "*": ["sampling, not proof: a quiet batch says the sampled histories, schedules and faults were fine",
          "yield points and abort points are the statements of compas_cem itself; compas, numpy and nlopt internals run atomically",
          "structures have up to 4 trails of up to 5 nodes (sessions add more by edits)"],
    "C03": ["verdicts are only passed when an independent reference form-finder finds the case clear-cut under several trail orders"],
    "C08": ["a crash keeps any prefix of the file in write; files are not journalled by the code, so a torn file must fail to load or hold a saved design"],
    "C09": ["one server process per address, requests handled one at a time, as compas.rpc does"],
}


def main(argv):
    if any(os.environ.get(k) != v for k, v in ENV.items()) or not sys.flags.dont_write_bytecode:
        env = dict(os.environ, **ENV)
        env["PYTHONPATH"] = HERE
        os.chdir(HERE)
        os.execve(PYTHON, [PYTHON, "-B", "-m", "sim"] + argv, env)
    warnings.simplefilter("ignore")
    cmd = argv[0] if argv else "help"
    if cmd == "check":
        return check(argv[1], argv[2:])
    if cmd == "setup":
        boot()
        print("ready")
        return 0
    if cmd == "replay":
        return replay(argv[1])
    if cmd == "selftest":
        return selftest(argv[1:])
    if cmd == "logs":
        return logs(argv[1], int(argv[2]), int(argv[3]))
    if cmd == "plan":
        from . import runner
        print(json.dumps(runner.plan_of(argv[1], int(argv[2])), indent=1))
        return 0
    print(__doc__)
    return 2


def boot():
    from . import seams
    try:
        seams.boot()
    except Exception as e:
        print("the code under /repo cannot be imported: %s: %s" % (type(e).__name__, e), file=sys.stderr)
        sys.exit(3)
    from . import runner
    return runner


def known():
    """Committed findings: {(property, signature)}."""
    out = []
    path = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(path):
        for ln in open(path):
            ln = ln.strip()
            if ln.startswith("known:"):
                prop, rest = ln[len("known:"):].strip().split(" ", 1)
                out.append((prop.split("=", 1)[1], rest.strip()))
    return out


def opt_of(args, name, default):
    return type(default)(args[args.index(name) + 1]) if name in args else default


def check(prop, args):
    from . import seams
    real = seams.REAL
    t0 = real.monotonic()
    tier = opt_of(args, "--tier", os.environ.get("VERIF_TIER", "quick"))
    base = opt_of(args, "--seed", int(os.environ.get("VERIF_SEED", "1")))
    runner = boot()
    print("%s tier=%s VERIF_SEED=%d workers=%d" % (prop, tier, base, runner.NPROC), flush=True)
    if tier == "thorough":
        n, wall = opt_of(args, "--runs", 10 ** 7), opt_of(args, "--wall", float(os.environ.get("SIM_THOROUGH_S", THOROUGH_WALL)))
    else:
        n, wall = opt_of(args, "--runs", QUICK[prop]), opt_of(args, "--wall", QUICK_WALL)
    b = runner.Batch(prop, base, n, wall, first=opt_of(args, "--first", 0)).go()
    lines = []
    seen = {}
    for seed, v in sorted(b.found, key=lambda x: x[0]):
        seen.setdefault(v["kind"], (seed, v))
    listed = known()
    for i, (kind, (seed, v)) in enumerate(sorted(seen.items(), key=lambda x: x[1][0])[:3]):
        m = runner.Minimiser(prop, runner.plan_of(prop, seed), kind, MINIMISE_WALL / (i + 1)).run()
        v = m.viol or v
        hit = [text for p, text in listed if p == prop and text.split(" ", 1)[0] == kind and (" " not in text or text.split(" ", 1)[1] in v["msg"])]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, hit[0]))
            continue
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", "%s-%s-%d.json" % (prop, kind, seed))
        with open(path, "w") as f:
            json.dump({"property": prop, "kind": kind, "seed": seed, "verif_seed": base, "violation": v, "plan": m.best,
                       "minimiser_runs": m.tries, "how": "cd /verif && ./check replay %s" % os.path.relpath(path, HERE)}, f, indent=1)
        again = 1 if kind == "hang" else os.spawnve(os.P_WAIT, PYTHON, [PYTHON, "-B", "-m", "sim", "replay", path, "--silent"], dict(os.environ))
        print("  seed %d: %s: %s (minimised to %s in %d runs; replay in a fresh interpreter %s)" %
              (seed, kind, v["msg"], size(m.best), m.tries, "reproduces it" if again == 1 else "gave exit %s" % again))
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
    wall_s = real.monotonic() - t0
    evidence(runner, b, prop, tier, base, wall_s, len(lines))
    print("%d runs, %d distinct non-trivial, %d events, %.1f s simulated, %.1f s (slowest run %.1f s)" %
          (b.n, len(b.nontrivial), b.events, b.sim, wall_s, b.slowest))
    for k in sorted(b.elsewhere):
        print("  note: seeds %s show %s, which is decided by that property's check" % (b.elsewhere[k][:3], k))
    for ln in lines:
        print(ln)
    if lines:
        return 1
    if b.errors:
        for seed, e in b.errors[:3]:
            print("HARNESS ERROR seed=%s\n%s" % (seed, e), file=sys.stderr)
        return 2
    if b.n == 0:
        print("no run completed", file=sys.stderr)
        return 2
    return 0


def size(plan):
    if plan["kind"] == "session":
        return "%d operations" % len(plan["ops"])
    return "%d callers, %d operations, %d scheduling decisions" % (len(plan["threads"]), sum(len(t) for t in plan["threads"]), len(plan["quanta"]))


RULES = {
    "C01": "at least one form was returned and judged", "C02": "at least one form was returned and judged",
    "C03": "at least one form-finding call was judged against the reference verdict",
    "C04": "at least one operation was really cut short (abort, callback failure or disk error fired)",
    "C05": "at least three switches between callers, or a solve nested in a callback",
    "C06": "at least two builds or shifts", "C07": "at least three edits", "C08": "something was saved and loaded back",
    "C09": "at least one answer of the server was compared with the local result",
    "C10": "at least one network, process or problem failure struck a request",
    "C11": "at least one optimization returned and was judged", "C12": "an optimization was really cut short or broke down",
    "C13": "an optimization was judged after registry edits", "C14": "at least two diagrams were alive",
    "C15": "at least one duration was judged"}


def evidence(runner, b, prop, tier, base, wall_s, nviol):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    samples = []
    for seed in sorted(b.samples)[:2]:
        p = runner.plan_of(prop, seed)
        samples.append({"seed": seed, "log_digest": b.logs.get(seed), "plan": json.loads(json.dumps(p)[:6000]) if len(json.dumps(p)) <= 6000
                        else {"kind": p["kind"], "operations": [o["op"] for o in p.get("ops", [])] or [[o["op"] for o in t] for t in p["threads"]],
                              "json": json.dumps(p)[:3000]}})
    took = max(b.took, 1e-9)
    cov = {
        "evaluations": b.n,
        "distinct_nontrivial": len(b.nontrivial),
        "rule": "a case is one seeded simulated run (plan generated from seed VERIF_SEED*1000003+i; profile %s); distinct by the digest of its event log; "
                "non-trivial if %s" % (prop, RULES[prop]),
        "samples": samples,
        "runs_per_hour": round(b.n / took * 3600),
        "simulated_seconds": round(b.sim, 3),
        "events": b.events,
        "faults_fired": dict(sorted(b.fired.items())),
        "runs_with_fault": dict(sorted(b.fired_runs.items())),
        "distinct_event_logs": len(set(b.logs.values())),
        "distinct_op_outcome_transitions": len(b.trans),
        "thread_switches": b.switches,
        "distinct_interleavings": len(b.inter),
        "functions_preempted": sorted(b.points),
        "probes": dict(sorted(b.probes.items())),
        "components_real": REAL_CODE,
        "components_stubbed": STUBS,
        "violations_of_other_properties": {k: v[:5] for k, v in sorted(b.elsewhere.items())},
        "harness_errors": len(b.errors),
        "slowest_run_s": round(b.slowest, 2),
    }
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": base, "level": "exploration", "coverage": cov,
                   "assumptions": ASSUMES["*"] + ASSUMES.get(prop, []), "wall_s": round(wall_s, 2), "violations": nviol}, f, indent=1)
        f.write("\n")


def replay(path):
    runner = boot()
    with open(path) as f:
        r = json.load(f)
    res = runner.judged(r["property"], r["plan"])
    if "error" in res:
        print(res["error"], file=sys.stderr)
        return 2
    hit = [v for v in res["own"] if v["kind"] == r["kind"]]
    if "--silent" not in sys.argv:
        for v in res["own"]:
            print("operation %s: %s: %s" % (v["op"], v["kind"], v["msg"]))
        print("event log digest %s" % res["log"])
        if hit:
            print("VIOLATION property=%s replay=%s" % (r["property"], path))
        else:
            print("not reproduced")
    return 1 if hit else 0


def logs(prop, first, n):
    """Print one log digest per run."""
    runner = boot()
    b = runner.Batch(prop, 1, n, 3600.0, first=first).go(stop_after=10 ** 9)
    print(json.dumps({str(k): b.logs[k] for k in sorted(b.logs)}))
    for seed, e in b.errors:
        print("HARNESS ERROR", seed, e, file=sys.stderr)
    return 0


def selftest(args):
    """The same seeds under other worker counts and hash seeds give the same event logs."""
    import subprocess
    n = 40
    if "-n" in args:
        i = args.index("-n")
        n = int(args[i + 1])
        args = args[:i] + args[i + 2:]
    bad = 0
    for prop in args or sorted(QUICK):
        outs = []
        for hs, wk in (("0", "8"), ("0", "3"), ("17", "8"), ("4242", "5")):
            env = dict(os.environ, SIM_HASHSEED=hs, SIM_WORKERS=wk)
            env.pop("PYTHONHASHSEED", None)
            o = subprocess.run([PYTHON, "-B", "-m", "sim", "logs", prop, "0", str(n)], env=env, cwd=HERE, stdout=subprocess.PIPE)
            outs.append(json.loads(o.stdout.decode().strip().splitlines()[-1]))
        diff = [k for k in outs[0] if any(o.get(k) != outs[0][k] for o in outs[1:])]
        print("%s: %d seeds x 4 configurations, %d diverge %s" % (prop, len(outs[0]), len(diff), diff[:5]), flush=True)
        bad += len(diff)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
