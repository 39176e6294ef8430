"""Runs plans in fresh forked processes: batches, counterfactuals, minimisation, replay."""
import hashlib
import json
import mmap
import os
import resource
import select
import shutil
import signal
import struct
import sys
import tempfile
import traceback

from . import conc
from . import gen
from . import net
from . import seams
from . import session
from . import trace

NPROC = int(os.environ.get("SIM_WORKERS", "0")) or min(8, os.cpu_count() or 1)
CPU_S = 100                 # a run that uses more than this is hanging (typical: 0.02 to 0.5 s)
WALL_S = 400
MEM = 3 << 30
FLAGS = {"C04": "no-abort", "C08": "json-as-copy", "C12": "no-opt-fault"}
HANG_TAGS = {"solve": "C03", "build": "C06", "shift": "C06", "remote": "C10", "proxy": "C10", "recover": "C10", "opt": "C12",
             "save": "C08", "load": "C08", "item": "C08", "copy": "C04", "query": "C04"}
CURRENT = [None, None]      # the run in progress in this process: pid and scratch directory
# how often a property's runs use concurrent callers
CONC = {"C05": 0.85, "C01": 0.06, "C02": 0.06, "C03": 0.08, "C04": 0.05}


def run_seed(base, i):
    return base * 1000003 + i


def plan_of(prop, seed):
    """The plan of one run; a pure function of property, seed and (where concurrent callers should look) the code."""
    share = CONC.get(prop, 0.0)
    h = int(hashlib.sha256(("kind/%s/%s" % (prop, seed)).encode()).hexdigest()[:8], 16) / float(1 << 32)
    if h < share:
        return gen.conc_plan(seed, prop, trace.hot_areas())
    return gen.plan(seed, prop)


# ------------------------------------------------------------------------------
# one run
# ------------------------------------------------------------------------------

def execute(plan, root, flags=(), progress=None):
    """Execute a plan in this process and summarise it. Called in a forked child."""
    W = seams.W
    W.reset()
    W.net = net.Net()
    seams.clear_canvas()
    W.disk.root = root
    if plan["kind"] == "conc":
        S = conc.run(plan, root, flags)
    else:
        S = session.Session(root=root, flags=flags, prop=plan.get("profile"))
        S.progress = progress
        try:
            S.run(plan["ops"])
        except Exception:
            if not S.viol:              # after a violation the harness may stumble over what the library did
                raise
    ops = S.out
    trans = set()
    if plan["kind"] == "conc":
        seqs = [o for _, o in ops] if ops and isinstance(ops[0][1], list) else [ops]
    else:
        seqs = [ops]
    for seq in seqs:
        prev = "start"
        for name, r in seq:
            cur = "%s:%s" % (name, str(r).split(":")[0] if not conc_digest(r) else "ok")
            trans.add(prev + ">" + cur)
            prev = cur
    log = "\n".join(W.events) + json.dumps([W.fired, S.viol], sort_keys=True)
    sched = getattr(S, "sched", None)
    return {"viol": S.viol, "probes": S.probes, "fired": W.fired, "log": hashlib.sha256(log.encode()).hexdigest()[:20],
            "sim": W.mono - W.sim_start, "trans": sorted(trans),
            "switches": len(sched.switches) if sched else 0,
            "inter": hashlib.sha256(json.dumps(sched.switches).encode()).hexdigest()[:16] if sched else None,
            "points": sorted(sched.points) if sched else [], "events": len(W.events)}


def conc_digest(r):
    return isinstance(r, str) and len(r) >= 16 and all(c in "0123456789abcdef" for c in r)


class Progress(object):
    """The operation in progress, visible to the parent."""

    def __init__(self):
        self.m = mmap.mmap(-1, 64)

    def set(self, i, name):
        b = name.encode()[:40]
        self.m[:] = struct.pack("<i", i) + struct.pack("<i", len(b)) + b + b"\0" * (56 - len(b))

    def get(self):
        i, n = struct.unpack("<ii", self.m[:8])
        return i, self.m[8:8 + n].decode()


def isolated(plan, flags=(), cpu=CPU_S):
    """Execute a plan in a fresh forked process. Returns its summary, or {"hang"|"error": ...}."""
    root = tempfile.mkdtemp(prefix="cemsim-")
    prog = Progress()
    prog.set(-1, "")
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            os.setpgid(0, 0)
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_AS, (MEM + used(), MEM + used()))
            nul = os.open(os.devnull, os.O_RDWR)
            os.dup2(nul, 0)
            os.dup2(nul, 1)
            os.dup2(nul, 2)
            sys.stdout = seams.REAL.open(os.devnull, "w")
            try:
                res = execute(plan, root, flags, prog)
            except BaseException:       # noqa: B902 - reported, never mistaken for a verdict
                res = {"error": traceback.format_exc()[-3000:]}
            data = json.dumps(res).encode()
            while data:
                n = os.write(w, data)
                data = data[n:]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    CURRENT[:] = [pid, root]
    data = b""
    end = seams.REAL.monotonic() + WALL_S
    timed_out = False
    while True:
        left = end - seams.REAL.monotonic()
        if left <= 0:
            timed_out = True
            break
        ok, _, _ = select.select([r], [], [], min(left, 5.0))
        if ok:
            b = os.read(r, 1 << 16)
            if not b:
                break
            data += b
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    _, status = os.waitpid(pid, 0)
    shutil.rmtree(root, ignore_errors=True)
    CURRENT[:] = [None, None]
    if data and not timed_out:
        try:
            return json.loads(data)
        except ValueError:
            pass
    i, name = prog.get()
    sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else None
    if sig == signal.SIGXCPU or timed_out:
        return {"hang": [i, name]}
    return {"error": "the run died (status %s) in operation %s %s" % (status, i, name)}


def used():
    with seams.REAL.open("/proc/self/statm") as f:
        return int(f.read().split()[0]) * resource.getpagesize()


def judged(prop, plan, flags=()):
    """Execute a plan for a property; violations attributed to it are in res["own"]."""
    res = isolated(plan, flags)
    if "hang" in res:
        again = isolated(plan, flags)
        if "hang" in again:
            i, name = again["hang"]
            tag = HANG_TAGS.get(name, "C05" if plan["kind"] == "conc" else "C07")
            v = {"op": i, "kind": "hang", "tags": [tag], "msg": "operation %s does not end" % (name or "of a concurrent run")}
            res = {"viol": [v], "probes": {}, "fired": {}, "log": "hang", "sim": 0.0, "trans": [], "switches": 0, "inter": None,
                   "points": [], "events": 0, "hung": True}
        else:
            res = again
    if "error" in res:
        return res
    own = [v for v in res["viol"] if prop in v["tags"]]
    if prop in FLAGS and not own and res["viol"] and plan["kind"] == "session" and not flags:
        # would the violation have happened without the faults this property is about?
        other = isolated(plan, (FLAGS[prop],))
        if "error" not in other and "hang" not in other:
            kinds = {v["kind"] for v in other["viol"]}
            for v in res["viol"]:
                if v["kind"] not in kinds:
                    own.append(dict(v, tags=sorted(set(v["tags"]) | {prop}), msg=v["msg"] + " (and not without the faults)"))
    res["own"] = own
    return res


# ------------------------------------------------------------------------------
# batches
# ------------------------------------------------------------------------------

class Batch(object):
    def __init__(self, prop, base, runs, wall, first=0):
        self.prop, self.base, self.runs, self.wall, self.first = prop, base, runs, wall, first
        self.n = 0
        self.probes = {}
        self.fired = {}
        self.fired_runs = {}
        self.logs = {}
        self.sim = 0.0
        self.trans = set()
        self.inter = set()
        self.points = set()
        self.switches = 0
        self.events = 0
        self.errors = []
        self.found = []             # (seed, violation)
        self.elsewhere = {}         # violations that belong to other properties
        self.nontrivial = set()
        self.samples = []
        self.slowest = 0.0

    def go(self, nproc=NPROC, stop_after=12):
        t0 = seams.REAL.monotonic()
        pipes, pids = {}, []
        for k in range(nproc):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    for fd in pipes:
                        os.close(fd)
                    os.close(r)
                    self.worker(k, nproc, w, t0)
                except BaseException:   # noqa: B902
                    try:
                        os.write(w, (json.dumps({"seed": None, "error": traceback.format_exc()[-2000:]}) + "\n").encode())
                    except OSError:
                        pass
                finally:
                    os._exit(0)
            os.close(w)
            pipes[r] = b""
            pids.append(pid)
        hurt = 0
        while pipes:
            ok, _, _ = select.select(list(pipes), [], [], 5.0)
            for fd in ok:
                b = os.read(fd, 1 << 16)
                if not b:
                    del pipes[fd]
                    os.close(fd)
                    continue
                lines = (pipes[fd] + b).split(b"\n")
                pipes[fd] = lines.pop()
                for ln in lines:
                    res = json.loads(ln)
                    self.take(res)
                    if res.get("own"):
                        hurt += 1
                        if res.get("hung"):
                            hurt += 100
            if hurt >= stop_after or len(self.errors) > 40:
                break
        for pid in pids:
            try:
                os.kill(pid, signal.SIGTERM)
            except OSError:
                pass
        for fd in list(pipes):
            os.close(fd)
        for pid in pids:
            os.waitpid(pid, 0)
        self.took = seams.REAL.monotonic() - t0
        return self

    def worker(self, k, nproc, w, t0):
        def stop(*a):
            pid, root = CURRENT
            if pid:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                shutil.rmtree(root, ignore_errors=True)
            os._exit(0)
        signal.signal(signal.SIGTERM, stop)
        i = self.first + k
        while i < self.first + self.runs:
            if seams.REAL.monotonic() - t0 > self.wall:
                break
            seed = run_seed(self.base, i)
            a = seams.REAL.monotonic()
            plan = plan_of(self.prop, seed)
            res = judged(self.prop, plan)
            res["seed"] = seed
            res["took"] = seams.REAL.monotonic() - a
            data = (json.dumps(res) + "\n").encode()
            while data:
                n = os.write(w, data)
                data = data[n:]
            i += nproc

    def take(self, res):
        seed = res["seed"]
        if "error" in res:
            self.errors.append((seed, res["error"]))
            return
        self.n += 1
        self.slowest = max(self.slowest, res["took"])
        for k, v in res["probes"].items():
            self.probes[k] = self.probes.get(k, 0) + v
        for k, v in res["fired"].items():
            self.fired[k] = self.fired.get(k, 0) + v
            self.fired_runs[k] = self.fired_runs.get(k, 0) + 1
        self.sim += res["sim"]
        self.trans.update(res["trans"])
        self.points.update(res["points"])
        self.switches += res["switches"]
        self.events += res["events"]
        if res["inter"]:
            self.inter.add(res["inter"])
        self.logs[seed] = res["log"]
        if nontrivial(self.prop, res):
            self.nontrivial.add(res["log"])
            if len(self.samples) < 3:
                self.samples.append(seed)
        for v in res["own"]:
            self.found.append((seed, v))
        for v in res["viol"]:
            if self.prop not in v["tags"] and v not in res["own"]:
                key = "/".join(v["tags"]) + " " + v["kind"]
                self.elsewhere.setdefault(key, []).append(seed)


def has(p, *prefixes):
    return sum(v for k, v in p.items() if any(k.startswith(x) for x in prefixes))


def nontrivial(prop, res):
    p, f = res["probes"], res["fired"]
    if prop in ("C01", "C02"):
        return has(p, "solve.ok", "opt.ok", "remote.ok") > 0
    if prop == "C03":
        return has(p, "solve.") > 0
    if prop == "C04":
        return has(f, "abort.", "callback.", "disk.") > 0
    if prop == "C05":
        return res["switches"] >= 3 or has(f, "nested.") > 0
    if prop == "C06":
        return has(p, "op.build", "op.shift") >= 2
    if prop == "C07":
        return has(p, *["op." + k for k in ("add_node", "move", "readd", "del_", "grow", "new_trail", "add_dev", "edge_newpos", "set_edge",
                                            "support", "load", "reject")]) >= 3
    if prop == "C08":
        return has(p, "loaded", "op.item") > 0
    if prop == "C09":
        return has(p, "remote.ok") > 0
    if prop == "C10":
        return has(f, "net.", "proc.") > 0 or has(p, "remote.failed", "remote.bad") > 0
    if prop == "C11":
        return has(p, "opt.ok") > 0
    if prop == "C12":
        return has(p, "opt.cut", "opt.breakdown") > 0
    if prop == "C13":
        return has(p, "opt.ok") > 0 and has(p, "op.opt_") > 0
    if prop == "C14":
        return has(p, "op.new", "op.copy", "op.load", "op.solve", "op.empty") >= 2
    if prop == "C15":
        return has(p, "timed") > 0
    return True


# ------------------------------------------------------------------------------
# minimisation
# ------------------------------------------------------------------------------

class Minimiser(object):
    def __init__(self, prop, plan, kind, wall):
        self.prop, self.kind = prop, kind
        self.end = seams.REAL.monotonic() + wall
        self.best = plan
        self.tries = 0
        self.viol = None

    def fails(self, plan):
        if seams.REAL.monotonic() > self.end:
            return False
        self.tries += 1
        res = judged(self.prop, plan)
        if "error" in res:
            return False
        for v in res["own"]:
            if v["kind"] == self.kind:
                self.viol = v
                self.best = plan
                return True
        return False

    def ddmin(self, get, put):
        """Shrink one list of the plan."""
        items = get(self.best)
        n = 2
        while len(items) >= 1 and seams.REAL.monotonic() < self.end:
            size = max(1, len(items) // n)
            cut = False
            i = 0
            while i < len(items):
                rest = items[:i] + items[i + size:]
                if self.fails(put(self.best, rest)):
                    items = get(self.best)
                    cut = True
                else:
                    i += size
            if not cut:
                if size == 1:
                    break
                n = min(len(items), n * 2)
        return self

    def run(self):
        p = json.loads(json.dumps(self.best))
        if self.kind == "hang":         # every attempt would cost the full limit
            return self
        if not self.fails(p):
            return self
        if p["kind"] == "session":
            i = self.viol["op"]
            if isinstance(i, int) and 0 <= i < len(p["ops"]) - 1:
                self.fails(dict(self.best, ops=self.best["ops"][:i + 1]))
            self.ddmin(lambda q: q["ops"], lambda q, x: dict(q, ops=x))
            self.simplify_ops(lambda q: q["ops"], lambda q, x: dict(q, ops=x))
            self.ddmin(lambda q: q["ops"], lambda q, x: dict(q, ops=x))
        else:
            self.ddmin(lambda q: q["threads"], lambda q, x: dict(q, threads=x))
            for t in range(len(self.best["threads"])):
                put = lambda q, x, t=t: dict(q, threads=[x if j == t else o for j, o in enumerate(q["threads"])])
                self.ddmin(lambda q, t=t: q["threads"][t], put)
            self.ddmin(lambda q: q["quanta"], lambda q, x: dict(q, quanta=x))
            self.spec(lambda q: q["shared"], lambda q, x: dict(q, shared=x))
            for t in range(len(self.best["threads"])):
                put = lambda q, x, t=t: dict(q, threads=[x if j == t else o for j, o in enumerate(q["threads"])])
                self.simplify_ops(lambda q, t=t: q["threads"][t], put)
            self.ddmin(lambda q: q["quanta"], lambda q, x: dict(q, quanta=x))
        return self

    def simplify_ops(self, get, put):
        for i in range(len(get(self.best))):
            if i >= len(get(self.best)):
                break
            at = lambda q, i=i: get(q)[i]

            def put1(q, o, i=i):
                return put(q, [o if j == i else x for j, x in enumerate(get(q))])
            for f in ("fault", "abort", "cb", "clock", "verbose", "kmax", "mask", "start", "none", "bad", "plane", "tiny"):
                o = at(self.best)
                if o.get(f):
                    x = dict(o)
                    del x[f]
                    if f in ("start",):
                        x[f] = []
                    self.fails(put1(self.best, x))
            for f in ("faults", "ps", "cs"):
                if len(at(self.best).get(f) or []) > 0:
                    self.ddmin(lambda q: at(q)[f], lambda q, x: put1(q, dict(at(q), **{f: x})))
            self.spec(at, put1)

    def spec(self, at, put1):
        if not isinstance(at(self.best).get("spec"), dict) or "nodes" not in at(self.best)["spec"]:
            return
        for f in ("edges", "loads", "supports", "nodes"):
            self.ddmin(lambda q: at(q)["spec"][f], lambda q, x: put1(q, dict(at(q), spec=dict(at(q)["spec"], **{f: x}))))
