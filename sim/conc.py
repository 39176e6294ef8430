"""Concurrent callers: the same per-thread programs alone and interleaved."""
import json
import os
import signal

from . import model as M
from . import seams
from . import session
from . import trace


def _alone(fn):
    """Run fn in a forked process; return its JSON result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            data = json.dumps(fn()).encode()
            while data:
                n = os.write(w, data)
                data = data[n:]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGXCPU:
        os.kill(os.getpid(), signal.SIGXCPU)        # it hangs even alone
    if not data:
        raise RuntimeError("a lone run died")
    return json.loads(data)


def norm(x):
    return json.loads(json.dumps(x))


def result(S):
    own = []
    for s in S.T[1:]:
        o, e = session.outcome_of(lambda: M.observe(s.d))
        own.append(session.err(e) if e else session.digest(o))
    return norm({"out": S.out, "own": own, "viol": [[v["op"], v["kind"], v["tags"], v["msg"]] for v in S.viol]})


def run(plan, root, flags=()):
    base = session.Session(root=root, concurrent=True)
    base.run([plan["shared"]])
    W = seams.W
    if base.viol or not base.T:
        base.probe("conc.no-shared")
        return base
    shared = base.T[0]
    before = M.observe(shared.d)

    def make(i):
        S = session.Session(root=root, concurrent=True)
        S.T.append(shared)
        S.tid = i
        return S

    def program(S, ops):
        S.run(ops)
        return S

    alone = [_alone(lambda i=i, ops=ops: result(program(make(i), ops))) for i, ops in enumerate(plan["threads"])]
    Ss = [make(i) for i in range(len(plan["threads"]))]
    sched = trace.Scheduler(plan["quanta"], plan.get("hot", False))
    trace.ACTIVE = sched
    try:
        sched.run([lambda S=S, ops=ops: S.run(ops) for S, ops in zip(Ss, plan["threads"])])
    finally:
        trace.ACTIVE = None
    for i, e in sorted(sched.errors.items()):
        raise RuntimeError("thread %d of the harness failed: %s" % (i, session.err(e))) from e
    base.i = 0
    for i, S in enumerate(Ss):
        got, want = result(S), alone[i]
        for k, v in S.probes.items():
            base.probes[k] = base.probes.get(k, 0) + v
        for v in S.viol:
            tags = v["tags"]
            if [v["op"], v["kind"], tags, v["msg"]] not in want["viol"]:
                tags = sorted(set(tags) | {"C05"})
            base.viol.append(dict(v, tags=tags, msg="caller %d: %s" % (i, v["msg"])))
        if got["out"] != want["out"]:
            j = next((j for j, (a, b) in enumerate(zip(got["out"], want["out"])) if a != b), -1)
            base.bad("concurrent", ("C05",), "caller %d, step %d: concurrently %r, alone %r" % (i, j, got["out"][j], want["out"][j]))
        elif got["own"] != want["own"]:
            base.bad("concurrent-state", ("C05",), "caller %d: its own diagrams differ from running alone" % i)
    o, e = session.outcome_of(lambda: M.observe(shared.d))
    why = session.err(e) if e else M.diff(before, o)
    if why:
        base.bad("shared-changed", ("C04", "C05"), "the shared topology changed while it was being analysed: %s" % why)
    base.probe("conc.runs")
    base.probes["conc.switches"] = base.probes.get("conc.switches", 0) + len(sched.switches)
    base.sched = sched
    base.out = [[i, S.out] for i, S in enumerate(Ss)]
    W.log("schedule", json.dumps(sched.switches))
    W.log("outcomes", json.dumps(norm(base.out)))
    return base
