"""Seed -> plan. A plan is plain JSON: a list of operations whose references are loose
indices, resolved against the live objects when they are executed, so any operation can
be dropped by the minimiser and the rest still makes sense."""
import random

TOLS = ["3f", "3f", "3f", "2f", "4f", "6f"]
ALGS = ["SLSQP", "LBFGS", "MMA", "TNEWTON", "VAR", "AUGLAG"]
SOLVER_FAULTS = ["value", "zerodiv", "interrupt", "memory", "runtime", "roundoff", "linalg"]
ABORTS = ["interrupt", "memory"]
DISK_W = ["open_w", "eio_w", "enospc", "crash_w", "lost"]
DISK_R = ["open_r", "eio_r", "short_r"]
NET_BENIGN = ["duplicate", "duplicate_late", "delay"]
NET_RETRY = ["reset_before", "reset_after", "disconnect_after"]
NET_HARD = ["refused", "timeout", "truncated", "torn", "alien", "garbage", "empty", "http500",
            "crash_before", "crash_after", "server_crash_mid", "interrupt_before", "interrupt_after"]


PRECISE = [False]           # a plan uses either short decimals or numbers of full precision


def r2(x):
    return x if PRECISE[0] else round(x, 2)


def xyz(rng, s=6.0):
    return [r2(rng.uniform(-s, s)), r2(rng.uniform(-s, s)), r2(rng.uniform(-s, s))]


def nz(rng, lo, hi):
    """A signed number whose magnitude lies in [lo, hi]."""
    return r2(rng.uniform(lo, hi)) * rng.choice([-1.0, 1.0])


# ------------------------------------------------------------------------------
# structures
# ------------------------------------------------------------------------------

def spec(rng, small=False, wild=None, two_d=None):
    """A structure: trails with loads, deviation edges, planes and supports."""
    nt = rng.choice([1, 1, 2, 2, 2, 3, 3, 4]) if not small else rng.choice([1, 2, 2])
    wild = rng.random() < 0.12 if wild is None else wild
    two_d = rng.random() < 0.35 if two_d is None else two_d
    lens = [rng.choice([2, 2, 3, 3, 4, 5]) if not small else rng.choice([2, 3]) for _ in range(nt)]
    if rng.random() < 0.4:
        lens = [lens[0]] * nt
    n = sum(lens)
    style = rng.choice(["contig", "contig", "gaps", "shuffled"])
    keys = list(range(n))
    if style == "gaps":
        keys = sorted(rng.sample(range(0, 6 * n + 5), n))
    if style == "shuffled":
        keys = rng.sample(range(0, 3 * n + 3), n)
    tension = rng.random() < 0.5
    sgn = 1.0 if tension else -1.0
    nodes, trails, edges, loads = [], [], [], {}
    it = iter(keys)
    for i in range(nt):
        x0, y0, z0 = r2(i * 2.0 + rng.uniform(-0.3, 0.3)), r2(rng.uniform(-0.5, 0.5)), r2(rng.uniform(-0.5, 0.5))
        t = []
        for j in range(lens[i]):
            k = next(it)
            t.append(k)
            z = 0.0 if two_d else r2(z0 - j * rng.uniform(0.3, 1.0))
            nodes.append([k, [x0 + 0.0 if j == 0 else r2(x0 + rng.uniform(-0.4, 0.4)),
                              r2(y0 + j * rng.uniform(0.7, 1.3)), z]])
        trails.append(t)
    # no two nodes in one cell (checked again by the model)
    for i in range(nt):
        t = trails[i]
        for a, b in zip(t, t[1:]):
            u, v = (a, b) if rng.random() < 0.6 else (b, a)
            L = r2(rng.uniform(0.4, 2.0)) * sgn
            if rng.random() < 0.12:
                L = -L
            e = {"u": u, "v": v, "type": "trail", "length": L}
            if rng.random() < 0.15:
                pos = dict((k, p) for k, p in nodes)[b]
                nrm = rng.choice([[0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [0.0, 2.0, 0.0], [0.3, 1.0, 0.2]])
                off = r2(rng.uniform(-0.3, 0.5))
                e["plane"] = [[pos[0], r2(pos[1] + off), pos[2]], nrm]
            edges.append(e)
    for k, _ in nodes:
        p = rng.random()
        if p < 0.75:
            q = [r2(rng.uniform(-0.4, 0.4)), r2(-sgn * rng.uniform(-0.2, 0.2)), 0.0 if two_d else r2(rng.uniform(-1.5, -0.3))]
            if two_d:
                q = [r2(rng.uniform(-0.4, 0.4)), r2(rng.choice([-1, 1]) * rng.uniform(0.3, 1.5)), 0.0]
            loads[k] = q
    for t in trails:
        for k in t[1:]:
            if k in loads and rng.random() < 0.05:
                loads[k] = [c * 4e-7 for c in loads[k]]
    for t in trails:                    # an unloaded origin gives no direction
        if t[0] not in loads and rng.random() < 0.9:
            loads[t[0]] = [r2(rng.uniform(-0.3, 0.3)), r2(rng.uniform(0.5, 1.2)), 0.0 if two_d else r2(rng.uniform(-1.0, -0.2))]
    pairs = set()
    for i in range(nt):
        for j in range(i + 1, nt):
            if j - i > 1 and rng.random() < 0.6:
                continue
            for a in range(max(lens[i], lens[j])):
                ai = min(a, lens[i] - 1)
                if rng.random() < 0.65 and a < lens[i] and a < lens[j]:
                    pairs.add((trails[i][a], trails[j][a], "d"))
                if rng.random() < 0.3:
                    b = rng.randrange(lens[j])
                    if b != ai:
                        pairs.add((trails[i][ai], trails[j][b], "i"))
    done = set()
    for u, v, kind in sorted(pairs):
        if frozenset((u, v)) in done:
            continue
        done.add(frozenset((u, v)))
        if rng.random() < 0.5:
            u, v = v, u
        mag = rng.uniform(0.1, 0.9) if kind == "d" else rng.uniform(0.02, 0.25)
        if wild:
            mag = rng.uniform(0.5, 6.0)
        f = r2(mag) * rng.choice([-1.0, 1.0])
        if rng.random() < 0.04:
            f = 0.0
        edges.append({"u": u, "v": v, "type": "deviation", "force": f})
    if rng.random() < 0.15 and any(len(t) > 2 for t in trails):
        t = rng.choice([t for t in trails if len(t) > 2])   # a deviation edge along one trail
        if frozenset((t[0], t[2])) not in done:
            edges.append({"u": t[0], "v": t[2], "type": "deviation", "force": r2(rng.uniform(0.02, 0.2)) * rng.choice([-1.0, 1.0])})
    supports = [t[-1] for t in trails]
    if rng.random() < 0.6:
        rng.shuffle(edges)
    if rng.random() < 0.5:
        rng.shuffle(supports)
    if rng.random() < 0.5:
        rng.shuffle(nodes)
    return {"tol": rng.choice(TOLS), "nodes": nodes, "edges": edges,
            "loads": [[k, loads[k]] for k in sorted(loads)], "supports": supports}


def incomplete(rng, s):
    """Drop something a build needs."""
    s = {k: v for k, v in s.items()}
    which = rng.choice(["support", "edge", "both"])
    if which in ("support", "both") and len(s["supports"]) > 0:
        s["supports"] = s["supports"][:-1]
    if which in ("edge", "both"):
        tr = [e for e in s["edges"] if e["type"] == "trail"]
        if tr:
            gone = rng.choice(tr)
            s["edges"] = [e for e in s["edges"] if e is not gone]
    return s


def dev_only(rng):
    """Only deviation edges, for auxiliary trails."""
    n = rng.choice([2, 3, 4])
    nodes = [[k, [r2(k * 1.5), r2(rng.uniform(-0.5, 0.5)), r2(rng.uniform(-0.5, 0.5))]] for k in range(n)]
    edges = [{"u": a, "v": b, "type": "deviation", "force": r2(nz(rng, 0.2, 1.5))}
             for a in range(n) for b in range(a + 1, n) if b == a + 1 or rng.random() < 0.3]
    return {"tol": "3f", "nodes": nodes, "edges": edges,
            "loads": [[k, [0.0, 0.0, -1.0]] for k in range(n) if rng.random() < 0.6], "supports": []}


# ------------------------------------------------------------------------------
# operations
# ------------------------------------------------------------------------------

def ref(rng):
    return rng.randrange(1 << 16)


def op_new(rng, **kw):
    p = rng.random()
    route = rng.choice(["keys", "keys", "lines", "component"])
    build = True
    aux = False
    if p < 0.72:
        s = spec(rng, **kw)
    elif p < 0.85:
        s = incomplete(rng, spec(rng, **kw))
        build = False
    else:
        s = dev_only(rng)
        aux = True
    return {"op": "new", "spec": s, "route": route, "build": build, "aux": aux}


def op_solve(rng, abort=0.0):
    o = {"op": "solve", "slot": ref(rng), "route": rng.choice(["plain", "plain", "numpy", "numpy", "component"]),
         "tmax": rng.choice([1, 2, 3, 5, 10, 25, 60, 100, 100, 100]), "eta": rng.choice([1e-6, 1e-6, 1e-6, 1e-4, 1e-2, 1e-8, 1e-5])}
    if rng.random() < 0.3:
        o["kmax"] = rng.choice([0, 1, 1, 2, 2, 3, 4, 9])
    if rng.random() < 0.35:
        o["cb"] = {"kind": rng.choice(["count", "count", "fail", "nested", "observe"]), "at": rng.choice([1, 2, 3, 7, 20])}
    if rng.random() < 0.15:
        o["verbose"] = True
    if rng.random() < abort:
        o["abort"] = abort_of(rng)
    return o


def abort_of(rng):
    f = rng.random()
    if rng.random() < 0.3:
        f = 1.0 - 0.2 * f * f       # near the end: when results are written out
    return {"frac": round(f, 4), "exc": rng.choice(ABORTS)}


def op_edit(rng, poke=False):
    kind = rng.choice(["add_node", "move", "move", "readd_node", "del_node", "del_edge", "grow", "grow", "new_trail",
                       "add_dev", "add_dev", "readd_edge", "readd_edge", "load", "load", "load", "support", "set_edge",
                       "set_edge", "reject", "reject", "aux_settings", "edge_newpos"] + (["poke"] * 8 if poke else []))
    o = {"op": kind, "slot": ref(rng), "a": ref(rng), "b": ref(rng), "xyz": xyz(rng), "by": rng.choice(["key", "pos", "pos"]),
         "v": r2(rng.uniform(0.2, 1.5)) * rng.choice([-1.0, 1.0]), "flip": rng.random() < 0.5,
         "vec": [r2(rng.uniform(-1, 1)), r2(rng.uniform(-1, 1)), r2(rng.uniform(-1.2, 0.2))],
         "how": ref(rng), "form": rng.random() < 0.5}
    if kind in ("readd_edge", "set_edge") and rng.random() < 0.3:
        o["plane"] = [[0.0, r2(rng.uniform(-1, 3)), 0.0], [0.0, 1.0, 0.0]]
    if kind in ("grow", "new_trail"):
        o["n"] = rng.choice([1, 1, 2])
    if kind == "add_node":
        o["key"] = rng.choice([None, None, rng.randrange(0, 60)])
    if kind == "move" and rng.random() < 0.3:
        o["tiny"] = rng.choice([0.0001, 0.001, 0.01, 0.00001])
    return o


def op_build(rng):
    return {"op": "build", "slot": ref(rng), "aux": rng.random() < 0.3}


def op_shift(rng):
    return {"op": "shift", "slot": ref(rng), "a": ref(rng), "k": rng.choice([0, 1, 1, 2, 3]),
            "how": rng.choice(["method", "method", "component"]), "bad": rng.random() < 0.08, "b": ref(rng)}


def op_query(rng, abort=0.0):
    o = {"op": "query", "slot": ref(rng), "how": rng.choice(["repr", "all", "all", "draw", "components", "data"]), "a": ref(rng)}
    if rng.random() < abort:
        o["abort"] = abort_of(rng)
    return o


def op_copy(rng, abort=0.0):
    o = {"op": "copy", "slot": ref(rng), "form": rng.random() < 0.2}
    if rng.random() < abort:
        o["abort"] = abort_of(rng)
    return o


def op_save(rng, fault=0.0, abort=0.0):
    o = {"op": "save", "slot": ref(rng), "form": rng.random() < 0.25, "file": rng.randrange(3),
         "how": rng.choice(["json", "json", "pretty", "component", "string", "dump", "dumps"])}
    if rng.random() < fault:
        kind = rng.choice(DISK_W)
        o["fault"] = {"kind": kind, "frac": round(rng.random(), 3)}
    elif rng.random() < abort:
        o["abort"] = abort_of(rng)
    return o


def op_load(rng, fault=0.0):
    o = {"op": "load", "file": rng.randrange(3), "how": rng.choice(["json", "json", "component", "load"])}
    if rng.random() < fault:
        o["fault"] = {"kind": rng.choice(DISK_R), "at": round(rng.random(), 3)}
    return o


def op_item(rng):
    """Round trip of a parameter, constraint or form-giving element through JSON."""
    return {"op": "item", "slot": ref(rng), "what": rng.choice(["param", "con", "con"]), "spec": rng.choice([param_spec, con_spec])(rng),
            "p": param_spec(rng), "c": con_spec(rng), "how": rng.choice(["json", "string", "dump", "dumps"]), "fault": None}


BOUNDS = [None, None, 0.3, 0.5, 1.0, -0.4, 0.05, 0.0]


def bound(rng):
    b, c = rng.choice(BOUNDS), r2(rng.uniform(0.02, 1.2))
    return c if rng.random() < 0.3 else b


def param_spec(rng):
    return {"t": rng.choice(["trail", "trail", "dev", "dev", "ox", "oy", "oz", "qx", "qy", "qz"]), "a": ref(rng),
            "lo": bound(rng), "up": bound(rng)}


def con_spec(rng):
    t = rng.choice(["point", "point", "line", "plane", "poly", "dir", "len", "force", "react"])
    return {"t": t, "a": ref(rng), "w": rng.choice([1.0, 1.0, 0.5, 2.0, 10.0] * 4 + [r2(rng.uniform(0.05, 5.0))] * 5 + [0.0]),
            "d": [r2(rng.uniform(-0.6, 0.6)) for _ in range(9)], "f": r2(rng.uniform(0.5, 1.5))}


def settings(rng):
    return {"alg": rng.choice(ALGS), "grad": rng.choice(["AD", "AD", "FD"]), "iters": rng.choice([1, 2, 3, 5, 8, 12, 20, 30]),
            "eps": rng.choice([1e-6, 1e-6, 1e-3, 1e-12, 0.0]), "kappa": rng.choice([1e-8, 1e-8, 1e-4, 0.0]),
            "tmax": rng.choice([100, 60, 40]), "eta": rng.choice([1e-6, 1e-6, 1e-4])}


def op_opt(rng, fault=0.0, clock=0.0, abort=0.0):
    o = {"op": "opt", "opt": rng.randrange(2), "slot": ref(rng), "mask": rng.choice([None, None, "forced", "failure"])}
    o.update(settings(rng))
    p = rng.random()
    if p < fault:
        o["fault"] = {"kind": rng.choice(SOLVER_FAULTS), "at": rng.choice([1, 1, 2, 2, 3, 4, 6, 9]), "when": rng.choice(["pre", "post"])}
    elif p < fault + abort:
        o["abort"] = abort_of(rng)
    o["dt"] = rng.choice([0.0, 0.01, 0.5, 3.0])
    if rng.random() < 0.12:
        o["verbose"] = True
    if rng.random() < clock:
        clock_plan(rng, o)
    return o


def clock_plan(rng, o):
    """The wall clock is stepped or slewed at some evaluations."""
    cl = {}
    for _ in range(rng.choice([1, 1, 2, 3])):
        at = str(rng.choice([1, 1, 2, 3, 5, 8]))
        cl.setdefault(at, []).append(rng.choice([["jump", rng.choice([-3600.0, -5.0, -0.5, 0.5, 7.0, 3600.0, 86400.0])],
                                                 ["slew", rng.choice([0.5, 0.9, 1.1, 2.0, 0.0])]]))
    o["clock"] = cl
    if o["dt"] == 0.0:
        o["dt"] = 0.25


def op_optreg(rng):
    k = rng.choice(["opt_new", "opt_param", "opt_param", "opt_param", "opt_con", "opt_con", "opt_con", "opt_del_param", "opt_del_con",
                    "opt_bad"])
    return {"op": k, "opt": rng.randrange(2), "slot": ref(rng), "p": param_spec(rng), "c": con_spec(rng), "a": ref(rng),
            "which": rng.choice(["param", "con", "empty"])}


def op_problem(rng):
    """A fresh optimizer with a complete problem."""
    return {"op": "problem", "opt": rng.randrange(2), "slot": ref(rng),
            "ps": [param_spec(rng) for _ in range(rng.choice([1, 2, 2, 3, 4]))],
            "cs": [con_spec(rng) for _ in range(rng.choice([1, 1, 2, 3]))]}


def net_fault(rng, kinds):
    k = rng.choice(kinds)
    f = {"kind": k}
    if k == "duplicate":
        f["second"] = rng.random() < 0.5
    if k == "delay":
        f["dt"] = rng.choice([0.1, 5.0, 120.0])
    if k == "alien":
        f["text"] = rng.choice(["null", "[]", "{}", '{"error": null}', "0", '"solved"', "[[], [], 0.0]"])
    if k in ("truncated", "torn"):
        f["at"] = round(rng.uniform(0.05, 0.97), 3)
    if k == "server_crash_mid":
        f["events"] = int(10 ** rng.uniform(0.5, 4.0))
    return f


def op_remote(rng, fault=0.0, hard=0.3, clock=0.0):
    o = {"op": "remote", "opt": rng.randrange(2), "slot": ref(rng), "how": rng.choice(["component", "component", "component", "client", "client2"]),
         "none": rng.random() < 0.3, "defaults": rng.random() < 0.15, "bad": None, "items": rng.random() < 0.4}
    o.update(settings(rng))
    if rng.random() < 0.2:
        o["tmax"] = rng.choice([3, 5, 8, 15])
    o["mask"] = rng.choice([None, None, "forced", "failure"])
    o["faults"] = []
    o["start"] = []
    if rng.random() < fault:
        if rng.random() < hard:
            o["faults"] = [net_fault(rng, NET_HARD) for _ in range(rng.choice([1, 1, 2]))]
        else:
            o["faults"] = [net_fault(rng, NET_BENIGN + NET_RETRY) for _ in range(rng.choice([1, 1, 2, 3]))]
        if rng.random() < 0.25:
            o["start"] = [{"kind": rng.choice(["slow_start", "slow_start", "spawn_fail", "dies_at_start"]), "pings": rng.choice([1, 5, 40])}]
    if rng.random() < 0.12:
        o["bad"] = rng.choice(["nopath", "badkey", "diverge", "alg", "noparam"])
    if rng.random() < 0.15:
        o["fault"] = {"kind": rng.choice(["value", "zerodiv", "memory"]), "at": rng.choice([1, 2, 3]), "when": rng.choice(["pre", "post"])}
    o["dt"] = rng.choice([0.0, 0.1])
    if rng.random() < clock:
        clock_plan(rng, o)
    return o


def op_proxy(rng):
    o = {"op": "proxy", "what": rng.choice(["start", "start", "start", "stop", "stop", "kill", "kill", "restart", "both"])}
    if rng.random() < 0.15:
        o["start"] = [{"kind": rng.choice(["slow_start", "spawn_fail", "dies_at_start"]), "pings": rng.choice([1, 20])}]
    return o


def op_recover(rng):
    return {"op": "recover", "opt": rng.randrange(2), "slot": ref(rng), "iters": 5}


# weights per property: (new, edit, build, shift, solve, query, copy, save, load, item, optreg, problem, opt, proxy, remote)
NAMES = ["new", "edit", "build", "shift", "solve", "query", "copy", "save", "load", "item", "optreg", "problem", "opt",
         "proxy", "remote"]
PROFILES = {
    "C01": dict(new=2, edit=4, build=3, shift=2, solve=9, copy=1, save=1, load=1, problem=1, opt=2, remote=1, proxy=.4),
    "C02": dict(new=2, edit=5, build=3, shift=2, solve=9, copy=1, save=1, load=1, problem=1, opt=1.5, remote=.6, proxy=.2),
    "C03": dict(new=3, edit=3, build=2, shift=2, solve=12, copy=.5, save=.3, load=.3),
    "C04": dict(new=2, edit=2, build=1.5, shift=1, solve=8, query=4, copy=3, save=3, load=1),
    "C05": dict(new=3, edit=1, build=1, shift=1, solve=12, copy=.5, problem=1, opt=1.5),
    "C06": dict(new=2, edit=9, build=9, shift=4, solve=1, copy=1, save=1, load=1.5, query=.5),
    "C07": dict(new=2, edit=16, build=3, shift=.5, solve=.5, copy=1, save=.7, load=1, query=1),
    "C08": dict(new=2, edit=4, build=2, shift=2, solve=3, copy=.7, save=7, load=8, item=3, problem=.7, opt=.8),
    "C11": dict(new=1, edit=1, build=.5, shift=.7, problem=3, optreg=2, opt=8, solve=.4, copy=.3),
    "C12": dict(new=1, edit=1, build=.5, problem=3, optreg=1.5, opt=9, solve=.7, copy=.3, shift=.3),
    "C13": dict(new=1, edit=.7, build=.4, problem=2, optreg=8, opt=8, copy=.3),
    "C14": dict(new=1.5, edit=6, build=2.5, shift=3, solve=4, copy=5, save=1.5, load=2, query=2, problem=1, opt=1.5, remote=1,
                proxy=.3),
    "C15": dict(new=1, problem=3, optreg=1, opt=7, remote=3, proxy=.5),
    "C09": dict(new=1, edit=1, build=.5, shift=.5, problem=4, optreg=2, proxy=2, remote=9, opt=.5),
    "C10": dict(new=1, edit=.5, problem=3, optreg=1, proxy=3, remote=9),
}
RATES = {
    "C01": dict(abort=.1, build=.05, disk=.1, solver=.1, net=.3),
    "C02": dict(abort=.1, build=.05, disk=.1, solver=.1, net=.3),
    "C03": dict(abort=.1),
    "C04": dict(abort=.6, disk=.4),
    "C05": dict(abort=.1, solver=.1),
    "C06": dict(build=.15),
    "C07": dict(abort=.0),
    "C08": dict(disk=.35, diskr=.25, abort=.1, solver=.05),
    "C11": dict(solver=.12, clock=.1, abort=.03),
    "C12": dict(solver=.5, abort=.25),
    "C13": dict(solver=.12, abort=.05),
    "C14": dict(abort=.12, build=.1, disk=.1, solver=.12, net=.2),
    "C15": dict(clock=.85, solver=.08),
    "C09": dict(net=.7, hard=.12),
    "C10": dict(net=.75, hard=.75),
}
LENGTH = {"C09": (4, 9), "C10": (4, 10), "C11": (4, 9), "C12": (4, 9), "C13": (6, 16), "C15": (3, 8)}


MUTATES = {"shift", "build", "move", "readd_node", "del_node", "del_edge", "grow", "new_trail", "add_dev", "readd_edge",
           "load", "support", "set_edge", "aux_settings"}


def motifs(rng, ops, R):
    """Use, change, use again: the same diagram is used right before and after it is changed."""
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        at = [i for i, o in enumerate(ops) if o["op"] in MUTATES and "slot" in o]
        if not at:
            return
        i = rng.choice(at)
        x = ops[i]
        use = [o for o in ops if o["op"] in ("solve", "opt", "query", "save") and "abort" not in o]
        use = dict(rng.choice(use), slot=x["slot"]) if use and rng.random() < 0.5 else dict(op_solve(rng), slot=x["slot"])
        use.pop("cb", None)
        if use["op"] == "solve":
            use.update(tmax=100, kmax=None)
        new = [use]
        if x["op"] == "shift" and rng.random() < 0.7:
            new = [dict(x, k=rng.choice([2, 3]), how="method", bad=False), use]
            x.update(k=rng.choice([0, 0, 1]), how="method", bad=False)
        elif x["op"] not in ("shift", "build") and rng.random() < 0.5:
            new = [{"op": "build", "slot": x["slot"], "aux": False}, use]
        tail = [dict(use)]
        if x["op"] in ("grow", "new_trail", "del_node", "del_edge", "readd_edge", "support", "add_dev") or rng.random() < 0.2:
            tail = [{"op": "build", "slot": x["slot"], "aux": False}] + tail
        ops[i:i + 1] = new + [x] + tail


def cut(rng, ops, o, rate):
    """Append a build or shift, sometimes interrupted and then mostly built anew."""
    ops.append(o)
    if rng.random() < rate:
        o["abort"] = abort_of(rng)
        if rng.random() < 0.8:
            ops.append({"op": "build", "slot": o["slot"], "aux": False})


def plan(seed, prof):
    rng = random.Random("%s/%s" % (prof, seed))
    PRECISE[0] = rng.random() < 0.25
    w = dict(PROFILES[prof])
    # swarm: some runs leave out some kinds of operation
    for k in list(w):
        if k != "new" and rng.random() < 0.15:
            w[k] = w[k] * 0.2
    R = RATES[prof]
    if rng.random() < 0.25:
        R = {}                          # a fault-free configuration
    optimizing = w.get("opt", 0) + w.get("remote", 0) > 4
    ops = []
    if rng.random() < (0.0 if optimizing else 0.12):
        ops.append({"op": "empty", "tol": rng.choice(TOLS)})
    if optimizing:
        ops.append({"op": "new", "spec": spec(rng, small=rng.random() < 0.6, wild=False), "route": rng.choice(["keys", "lines", "component"]),
                    "build": True, "aux": False})
        ops.append(op_problem(rng))
    else:
        ops.append({"op": "new", "spec": spec(rng), "route": rng.choice(["keys", "lines", "component"]), "build": True, "aux": False}
                   if rng.random() < 0.8 else op_new(rng))
    lo, hi = LENGTH.get(prof, (6, 26))
    names = [k for k in NAMES if w.get(k)]
    weights = [w[k] for k in names]
    for _ in range(rng.randint(lo, hi)):
        k = rng.choices(names, weights)[0]
        if k == "new":
            ops.append(op_new(rng, small=optimizing, wild=False if optimizing else None))
        elif k == "edit":
            ops.append(op_edit(rng, prof == "C14"))
        elif k == "build":
            cut(rng, ops, op_build(rng), R.get("build", 0))
        elif k == "shift":
            cut(rng, ops, op_shift(rng), R.get("build", 0))
        elif k == "solve":
            o = op_solve(rng, R.get("abort", 0))
            if prof == "C05" and rng.random() < 0.7:
                o["cb"] = {"kind": rng.choice(["nested", "nested", "observe"]), "at": rng.choice([1, 2, 3, 7, 20])}
            ops.append(o)
        elif k == "query":
            ops.append(op_query(rng, R.get("abort", 0)))
        elif k == "copy":
            ops.append(op_copy(rng, R.get("abort", 0)))
        elif k == "save":
            ops.append(op_save(rng, R.get("disk", 0), R.get("abort", 0)))
        elif k == "load":
            ops.append(op_load(rng, R.get("diskr", 0)))
        elif k == "item":
            ops.append(op_item(rng))
        elif k == "optreg":
            ops.append(op_optreg(rng))
        elif k == "problem":
            ops.append(op_problem(rng))
        elif k == "opt":
            ops.append(op_opt(rng, R.get("solver", 0), R.get("clock", 0), R.get("abort", 0)))
        elif k == "proxy":
            ops.append(op_proxy(rng))
        elif k == "remote":
            ops.append(op_remote(rng, R.get("net", 0), R.get("hard", .3), R.get("clock", 0)))
    motifs(rng, ops, R)
    for o in ops:
        if o["op"] == "new" and o.get("route") == "component" and rng.random() < 0.25:
            o["twice"] = True
    if w.get("remote", 0) > 2:
        ops.append(op_recover(rng))
    return {"v": 1, "kind": "session", "profile": prof, "seed": seed, "ops": ops}


# ------------------------------------------------------------------------------
# concurrent callers
# ------------------------------------------------------------------------------

def conc_plan(seed, prof, areas=()):
    """areas: where in the code state outlives a call; the search looks there first."""
    rng = random.Random("conc/%s/%s" % (prof, seed))
    PRECISE[0] = rng.random() < 0.25
    nth = rng.choice([2, 2, 2, 3])
    shared = {"op": "new", "spec": spec(rng, small=rng.random() < 0.5), "route": "keys", "build": True, "aux": False}
    threads = []
    theme = rng.choice([None, None, None, "opt", "own"])
    if areas and rng.random() < 0.6:
        theme = rng.choice([t for a, t in (("optimization", "opt"), ("diagrams", "own"), ("equilibrium", "shared"), ("equilibrium", "own"),
                                           ("equilibrium", "opt"), ("self.diagrams", "shared"),
                                           ("self.equilibrium", "shared")) if a in areas] or [theme])
    alike = rng.choice([1, 1, 2, 3]) if theme == "opt" and rng.random() < 0.7 else 0
    for i in range(nth):
        ops = []
        mode = rng.choice(["shared", "shared", "own", "mixed", "opt"])
        if theme and rng.random() < 0.9:
            mode = theme
        if mode != "shared":
            ops.append({"op": "new", "spec": spec(rng, small=True, wild=False), "route": rng.choice(["keys", "lines", "component"]),
                        "build": True, "aux": False})
        if mode == "opt":
            ops.append(dict(op_problem(rng), slot=1, opt=0))
            if alike:                   # problems of the same size
                ops[-1]["ps"] = [param_spec(rng) for _ in range(alike)]
        for _ in range(rng.choice([1, 1, 2, 2, 3])):
            o = rng.choice([op_solve, op_solve, op_solve, op_query, op_copy])(rng)
            if mode == "opt" and rng.random() < 0.7:
                o = op_opt(rng, 0.15)
                o["iters"] = rng.choice([1, 2, 3])
                o["opt"] = 0
                o["dt"] = 0.0
            if mode in ("own", "mixed") and rng.random() < 0.4:
                o = rng.choice([op_edit, op_build, op_shift])(rng)
                if o["op"] == "shift":
                    o["how"] = "method"
            if o["op"] == "query" and o.get("how") == "draw":
                o["how"] = "all"
            if o.get("cb", {}).get("kind") == "nested":
                o["cb"]["kind"] = "count"
            o["slot"] = 0 if mode == "shared" or (mode == "mixed" and rng.random() < 0.5 and o["op"] in ("solve", "query", "copy")) else 1
            ops.append(o)
        threads.append(ops)
    style = rng.choice(["fine", "coarse", "mixed", "one"])
    quanta = []
    if style == "one":                  # one preemption at a random place, others fill the gap
        n = rng.randint(1, 4)
        for _ in range(n):
            quanta.append([rng.randrange(8), int(10 ** rng.uniform(0, 3.7))])
    else:
        hi = {"fine": 1.0, "coarse": 3.3, "mixed": 2.6}[style]
        for _ in range(rng.randint(10, 300)):
            quanta.append([rng.randrange(8), int(10 ** rng.uniform(0, hi))])
    hot = rng.choice([False, True, True, "wide"] + ["wide"] * 4 * any(a.startswith("self.") for a in areas))     # rather switch where statements touch state that outlives a call
    return {"v": 1, "kind": "conc", "hot": hot, "profile": prof, "seed": seed, "shared": shared, "threads": threads, "quanta": quanta}
