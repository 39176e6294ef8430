"""Executes a plan against the real code and judges every step against the model."""
import copy
import itertools
import json
import math
import os
import sys

from . import model as M
from . import seams
from . import trace
from .seams import SimCrash, Interrupt, AllocFail

MAX_SLOTS = 5


class Skip(Exception):
    """The operation does not apply in the current state."""


class CallbackFailed(Exception):
    """Raised by a user's callback."""


class Slot(object):
    RAW = False                 # also remember what the diagram would save

    def __init__(self, d, m, snap):
        self.d = d
        self.m = m              # None for forms
        self.snap = snap
        self.gone = []          # positions that held a node once
        self.id = None
        self.sick = False       # already known not to be what it should be

    @property
    def snap(self):
        return self._snap

    @snap.setter
    def snap(self, o):
        self._snap = o
        self.raw = M.raw(self.d) if Slot.RAW and o is not None else None


class Opt(object):
    """An optimizer and what is registered in it."""

    def __init__(self, o, slot):
        self.o = o
        self.slot = slot
        self.ps = []            # [pkey, resolved spec, object]
        self.cs = []
        self.np = 0
        self.nc = 0
        self.faulted = False


def outcome_of(fn):
    """(value, None) or (None, exception)."""
    try:
        return fn(), None
    except (Skip, GeneratorExit):
        raise
    except BaseException as e:      # noqa: B902 - injected ones included
        return None, e


def err(e):
    return "%s: %s" % (type(e).__name__, str(e)[:160])


class Session(object):
    def __init__(self, plan=None, root=None, flags=(), concurrent=False, prop=None):
        self.prop = prop            # the property this run is for
        Slot.RAW = prop in ("C04", "C14")
        self.T = []
        self.F = []
        self.opts = {}
        self.files = {}             # what a load will read: a string or a file
        self.disk = {}              # what the files may hold
        self.viol = []
        self.out = []
        self.root = root
        self.flags = set(flags)
        self.conc = concurrent
        self.i = -1
        self.probes = {}
        self.nid = 0
        self.clients = {}
        self.aborted = False
        self.progress = None

    # -- bookkeeping -----------------------------------------------------------
    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def bad(self, kind, tags, msg):
        self.viol.append({"op": self.i, "kind": kind, "tags": sorted(tags), "msg": msg})

    def topo(self, r):
        if not self.T:
            raise Skip("no topology")
        if self.conc and r and len(self.T) < 2:
            raise Skip("no topology of its own")
        return self.T[r % len(self.T)]

    def form(self, r):
        if not self.F:
            raise Skip("no form")
        return self.F[r % len(self.F)]

    def keep(self, lst, s):
        self.nid += 1
        s.id = self.nid
        lst.append(s)
        if len(lst) > MAX_SLOTS:
            lst.pop(1 if self.conc else 0)
        return s

    def drop(self, s):
        if s in self.T:
            self.T.remove(s)
        if s in self.F:
            self.F.remove(s)

    def sicken(self, s):
        """The diagram is not what it should be. If that is another property's violation, keep
        using it: what follows may violate this property as well."""
        if self.prop is None or self.conc or self.prop in self.viol[-1]["tags"]:
            self.drop(s)
        else:
            s.sick = True

    # -- running ---------------------------------------------------------------
    def run(self, ops):
        for i, op in enumerate(ops):
            self.i = i
            self.step(op)
        return self

    def step(self, op):
        if self.progress is not None:
            self.progress.set(self.i, op["op"])
        f = getattr(self, "do_" + op["op"])
        nv = len(self.viol)
        try:
            r = f(op)
            self.probe("op." + op["op"])
        except Skip as e:
            r = "skip: %s" % e
            self.probe("skip." + op["op"])
        self.out.append([op["op"], r])
        seams.W.log(self.i, op["op"], json.dumps(r, sort_keys=True, default=repr)[:400])
        if len(self.viol) > nv:
            seams.W.log("VIOLATION", self.viol[-1]["kind"])

    def frame(self, read=(), tags=("C04",), touched=()):
        """Every diagram not touched by the operation is as it was."""
        if self.conc:
            return
        for s in list(self.T) + list(self.F):
            if s in touched:
                continue
            o, e = outcome_of(lambda: M.observe(s.d))
            why = err(e) if e else M.diff(s.snap, o)
            if not why and s.raw is not None and s.raw != M.raw(s.d):
                why = "what it would save is different"
            if why:
                t = tags if s in read else ("C14",)
                self.bad("input-changed" if s in read else "other-changed", t,
                         "diagram #%s changed: %s" % (s.id, why))
                if e:
                    self.drop(s)
                else:
                    self.sicken(s)
                    s.snap = o

    def check(self, s, tags, trails=True):
        """The diagram of a slot is what its model says."""
        raw = M.raw(s.d) if self.prop == "C04" else None
        o, e = outcome_of(lambda: M.observe(s.d))
        if e:
            self.bad("unreadable", tags, "diagram cannot be read: %s" % err(e))
            self.drop(s)
            return None
        if raw is not None and raw != M.raw(s.d):
            self.bad("reading-changed", ("C04",), "reading the diagram changed what it saves")
        if s.sick:
            s.snap = o
            return o
        why = M.check_edits(s.m, o)
        if why:
            self.bad("edits", tags, why)
        else:
            why, e = outcome_of(lambda: M.check_lookup(s.m, s.d, self.absent(s)))
            if e:
                why = err(e)
            if why:
                self.bad("lookup", ("C07",) if "C06" in tags else tags, why)
        if not why and s.m.built:
            why = M.check_trails(s.m, o)
            if why:
                self.bad("trails", ("C06",) if "C07" in tags else tags, why)
        if not why:
            if (o["aux_length"], o["aux_vector"]) != (s.m.aux_length, s.m.aux_vector):
                why = "auxiliary trail settings are %r %r" % (o["aux_length"], o["aux_vector"])
                self.bad("edits", tags, why)
        if why:
            self.sicken(s)
        s.snap = o
        return o

    def absent(self, s):
        return [p for p in s.gone if not s.m.at(p) and s.m.cell(p) not in s.m.taint]

    def abort(self, spec, fn):
        """Run fn, cutting it short at a fraction of its statements. (value, exc, fired)."""
        if spec is None or self.conc:
            v, e = outcome_of(fn)
            return v, e, False
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            n = 0
            try:
                os.close(r)
                with seams.quiet():
                    n = trace.count_events_safe(fn)
            except BaseException:       # noqa: B902
                pass
            finally:
                os.write(w, str(n).encode())
                os._exit(0)
        os.close(w)
        data = b""
        while True:
            b = os.read(r, 64)
            if not b:
                break
            data += b
        os.close(r)
        os.waitpid(pid, 0)
        n = int(data or b"0")
        if n == 0:
            v, e = outcome_of(fn)
            return v, e, False
        at = min(n, max(1, int(math.ceil(spec["frac"] * n))))
        exc = {"interrupt": Interrupt, "memory": AllocFail}[spec["exc"]]
        where = []
        v, e = outcome_of(lambda: trace.run_abort(fn, at, exc, where))
        fired = bool(where)
        if fired:
            seams.W.fire("abort." + spec["exc"])
            self.probe("abort@" + where[0].split(":")[0])
        return v, e, fired

    # -- making diagrams -------------------------------------------------------
    def do_empty(self, op):
        from compas_cem.diagrams import TopologyDiagram
        d = TopologyDiagram()
        d.tol = op["tol"]
        s = Slot(d, M.Topo(op["tol"]), None)
        s.snap = M.observe(d)
        self.keep(self.T, s)
        self.frame(touched=[s])
        return "ok"

    def elements(self, m, op):
        """Realise the spec in the model; return the calls that realise it for real."""
        sp, route = op["spec"], op["route"]
        pos = {k: [float(c) for c in p] for k, p in sp["nodes"]}
        cells = [m.cell(p) for p in pos.values()]
        if len(set(cells)) != len(cells):
            raise Skip("coincident nodes")
        edges = [e for e in sp["edges"] if e["u"] in pos and e["v"] in pos]
        if route == "component":
            edges = [e for e in edges if e["type"] == "trail"] + [e for e in edges if e["type"] != "trail"]
        key = {}
        if route == "keys":
            for k, p in sp["nodes"]:
                key[k] = m.put_node(k, p)
        else:
            for e in edges:
                for k in (e["u"], e["v"]):
                    if k not in key:
                        key[k] = m.put_node(None, pos[k])
        for e in edges:
            m.put_edge(key[e["u"]], key[e["v"]], edge_attrs(e))
        loads = [(k, [float(c) for c in q]) for k, q in sp["loads"] if k in key]
        sups = [k for k in sp["supports"] if k in key]
        for k, q in loads:
            m.loads[key[k]] = q
        for k in sups:
            m.supports.add(key[k])
        return pos, key, edges, loads, sups

    def do_new(self, op):
        from compas_cem.diagrams import TopologyDiagram
        from compas_cem.elements import Node, TrailEdge, DeviationEdge
        from compas_cem.loads import NodeLoad
        from compas_cem.supports import NodeSupport
        sp, route = op["spec"], op["route"]
        tol = sp["tol"] if route != "component" else "3f"
        m = M.Topo(tol)
        pos, key, edges, loads, sups = self.elements(m, op)

        if route == "component":
            return self.new_component(op, m, pos, key, edges, loads, sups)

        def make():
            d = TopologyDiagram()
            d.tol = tol
            if route == "keys":
                for k, p in sp["nodes"]:
                    d.add_node(Node(k, list(p)))
            for e in edges:
                if route == "keys":
                    u, v = e["u"], e["v"]
                    if e["type"] == "trail":
                        d.add_edge(TrailEdge(u, v, length=e["length"], plane=plane_obj(e.get("plane"), e["u"])))
                    else:
                        d.add_edge(DeviationEdge(u, v, force=e["force"]))
                else:
                    line = (list(pos[e["u"]]), list(pos[e["v"]]))
                    if e["type"] == "trail":
                        d.add_edge(TrailEdge.from_line(line, length=e["length"], plane=plane_obj(e.get("plane"), e["u"])))
                    else:
                        d.add_edge(DeviationEdge.from_line(line, force=e["force"]))
            for k, q in loads:
                d.add_load(NodeLoad(k, list(q)) if route == "keys" else NodeLoad.from_point_and_vector(list(pos[k]), list(q)))
            for k in sups:
                d.add_support(NodeSupport(k) if route == "keys" else NodeSupport.from_point(list(pos[k])))
            return d

        d, e = outcome_of(make)
        if e:
            self.bad("assembly-failed", ("C07",), "assembling raised %s" % err(e))
            return "failed"
        s = Slot(d, m, None)
        self.keep(self.T, s)
        if self.check(s, ("C07",)) is None:
            return "bad"
        self.frame(touched=[s])
        if op.get("build") and s in self.T:
            return self.build(s, op.get("aux", False))
        return self.brief(s)

    def new_component(self, op, m, pos, key, edges, loads, sups):
        def make():
            comp = seams.component
            tr, de, lo, su = [], [], [], []
            for e in edges:
                line = (list(pos[e["u"]]), list(pos[e["v"]]))
                if e["type"] == "trail":
                    tr.append(comp("CompasCem_EdgeTrail").RunScript(line, e["length"], e.get("plane")))
                else:
                    de.append(comp("CompasCem_EdgeDeviation").RunScript(line, e["force"]))
            for k, q in loads:
                lo.append(comp("CompasCem_NodeLoad").RunScript(list(pos[k]), list(q)))
            for k in sups:
                su.append(comp("CompasCem_NodeSupport").RunScript(list(pos[k])))
            if op.get("none"):
                tr.append(None)
            with quiet_unless(self.conc):
                if op.get("twice"):         # the same elements go into another diagram first
                    first.append(comp("CompasCem_TopologyDiagram").RunScript(tr, de, lo, su, op.get("aux", False)))
                return comp("CompasCem_TopologyDiagram").RunScript(tr, de, lo, su, op.get("aux", False))
        first = []
        has_tr = any(e["type"] == "trail" for e in edges)
        has_de = any(e["type"] != "trail" for e in edges)
        aux = op.get("aux", False)
        builds = (has_tr and sups) or (has_de and aux)
        verdict, want, lone = self.expect(m, aux) if builds else ("none", None, None)
        if verdict == "ill":
            raise Skip("structure without a defined set of trails")
        d, e = outcome_of(make)
        if verdict == "incomplete":
            if e is None:
                self.bad("incomplete-accepted", ("C06",), "component built trails of an incomplete structure")
            return "incomplete"
        if e:
            self.bad("assembly-failed", ("C07", "C06") if builds else ("C07",), "component raised %s" % err(e))
            return "failed"
        s = Slot(d, m, None)
        self.keep(self.T, s)
        if builds and not self.adopt_trails(s, verdict, want):
            return "bad"
        self.check(s, ("C07",))
        for d in first:
            t = Slot(d, s.m.copy(), None)
            t.sick = s.sick
            self.keep(self.T, t)
            self.check(t, ("C07", "C14"))
        self.frame(touched=[s])
        return self.brief(s)

    def brief(self, s):
        if not self.conc:
            return "ok"
        return digest(M.observe(s.d))

    # -- edits -----------------------------------------------------------------
    def node_of(self, s, r, clean=False):
        keys = sorted(s.m.nodes)
        if clean:
            keys = [k for k in keys if s.m.cell(s.m.nodes[k]) not in s.m.taint]
        if not keys:
            raise Skip("no node")
        return keys[r % len(keys)]

    def edge_at(self, s, r, t=None):
        es = sorted(s.m.edges) if t is None else sorted(s.m.of_type(t))
        if not es:
            raise Skip("no edge")
        return es[r % len(es)]

    def free(self, s, xyz):
        if s.m.at(xyz) or s.m.cell(xyz) in s.m.taint:
            raise Skip("position is taken")
        if s.m.tie(xyz):
            raise Skip("between two cells")
        return [float(c) for c in xyz]

    def by(self, s, k, how, jitter=True):
        """A key or a position that designates node k."""
        if how == "key" or s.m.cell(s.m.nodes[k]) in s.m.taint:
            return k, "key"
        p = list(s.m.nodes[k])
        if jitter and all(c == round(c, 2) for c in p):
            eps = 0.3 * 10.0 ** (-M.TOL_DECIMALS[s.m.tol])
            p[k % 3] += eps if k % 2 else -eps
        return p, "pos"

    def edit(self, s, fn, apply_, tags=("C07",), expect=None):
        """Perform an accepted edit for real and on the model, then compare."""
        v, e = outcome_of(fn)
        if e:
            self.bad("edit-failed", tags, "edit raised %s" % err(e))
            self.drop(s)
            return "failed"
        r = apply_(v)
        if r:
            self.bad("edit-result", tags, r)
        self.check(s, tags)
        self.frame(touched=[s])
        return self.brief(s)

    def do_add_node(self, op):
        from compas_cem.elements import Node
        s = self.topo(op["slot"])
        if self.prop == "C07" and op["b"] % 6 == 0 and s.m.nodes:       # where a node is already
            p = list(s.m.nodes[self.node_of(s, op["a"], clean=True)])
            self.probe("add.twice")
        else:
            p = self.free(s, op["xyz"])
        key = op.get("key")
        if key is not None and key in s.m.nodes:
            raise Skip("key exists")

        def apply_(k):
            if key is not None and k != key:
                return "add_node(%r) returned %r" % (key, k)
            if k in s.m.nodes:
                return "add_node returned the key %r of an existing node" % k
            s.m.put_node(k, p)
        return self.edit(s, lambda: s.d.add_node(Node(key, list(p))), apply_)

    def moved(self, s, k, p):
        s.gone.append(list(s.m.nodes[k]))
        s.m.put_node(k, p)

    def do_move(self, op):
        s = self.topo(op["slot"])
        k = self.node_of(s, op["a"], clean=True)
        p = [float(c) for c in op["xyz"]]
        if op.get("tiny"):
            p = list(s.m.nodes[k])
            p[op["b"] % 3] = round(p[op["b"] % 3] + op["tiny"], 9)
            if s.m.tie(p):
                raise Skip("between two cells")
        if s.m.cell(p) != s.m.cell(s.m.nodes[k]):
            p = self.free(s, p)
        how = op["how"] % 3
        if how == 2 and k in s.m.trails and s.m.built and not self.conc:
            return self.move_component(s, k, p)
        if how == 0:
            fn = lambda: s.d.node_xyz(k, list(p))
        else:
            fn = lambda: s.d.update_node_xyz(k, list(p))
        return self.edit(s, fn, lambda v: self.moved(s, k, p))

    def move_component(self, s, k, p):
        d, e = outcome_of(lambda: seams.component("CompasCem_OriginNodesMove").RunScript(s.d, [k], [list(p)]))
        if e or d is None:
            self.bad("edit-failed", ("C07", "C14"), "OriginNodesMove failed: %s" % (err(e) if e else "no output"))
            return "failed"
        t = Slot(d, s.m.copy(), None)
        t.gone, t.sick = list(s.gone), s.sick
        self.keep(self.T, t)
        self.moved(t, k, p)
        self.check(t, ("C07", "C14"))
        self.frame(read=[s], tags=("C14", "C04"), touched=[t])
        return "ok"

    def do_readd_node(self, op):
        from compas_cem.elements import Node
        s = self.topo(op["slot"])
        k = self.node_of(s, op["a"], clean=True)
        p = s.m.nodes[k] if op["how"] % 3 == 0 else self.free(s, op["xyz"])
        p = list(p)

        def apply_(v):
            self.moved(s, k, p)
            if v != k:
                return "re-adding node %r returned %r" % (k, v)
        return self.edit(s, lambda: s.d.add_node(Node(k, list(p))), apply_)

    def do_del_node(self, op):
        s = self.topo(op["slot"])
        k = self.node_of(s, op["a"], clean=True)
        if len(s.m.nodes) < 4 and op["b"] % 4:
            raise Skip("keep small diagrams")

        def apply_(v):
            s.gone.append(list(s.m.nodes[k]))
            s.m.del_node(k)
        return self.edit(s, lambda: s.d.delete_node(k), apply_)

    def do_del_edge(self, op):
        s = self.topo(op["slot"])
        e = self.edge_at(s, op["a"])
        return self.edit(s, lambda: s.d.delete_edge(e[0], e[1]), lambda v: s.m.del_edge(*e))

    def add_edge(self, s, u, v, attrs, how):
        """Add an edge between two existing nodes or positions; returns (call, apply)."""
        from compas_cem.elements import TrailEdge, DeviationEdge
        (a, ha), (b, hb) = u, v
        if attrs["type"] == "trail":
            e = TrailEdge(a, b, length=attrs["length"], plane=plane_obj(attrs.get("plane"), how))
        else:
            e = DeviationEdge(a, b, force=attrs["force"])
        return s.d.add_edge(e)

    def do_grow(self, op):
        """Prolong a trail at its origin."""
        verdict, trails, _ = self.topo(op["slot"]).m.find_trails()
        s = self.topo(op["slot"])
        if verdict != "ok":
            raise Skip("no trails")
        t = sorted(trails)[op["a"] % len(trails)]
        p = self.free(s, op["xyz"])
        L = op["v"]
        end = self.by(s, t, op["by"], jitter=False)
        by_pos = end[1] == "pos"
        from compas_cem.elements import Node
        new_key = [None]

        def fn():
            if by_pos:
                a = (p, "pos")
            else:
                new_key[0] = s.d.add_node(Node(None, list(p)))
                a = (new_key[0], "key")
            u, v = (a, end) if op["flip"] else (end, a)
            return self.add_edge(s, u, v, {"type": "trail", "length": L}, op["how"])

        def apply_(e):
            k = s.m.put_node(None, p)
            if new_key[0] is not None and new_key[0] != k:
                return "add_node returned %r" % (new_key[0],)
            want = (k, t) if op["flip"] else (t, k)
            s.m.put_edge(want[0], want[1], edge_attrs({"type": "trail", "length": L}))
            if tuple(e) != want:
                return "add_edge returned %r, not %r" % (e, want)
        return self.edit(s, fn, apply_)

    def do_new_trail(self, op):
        from compas_cem.elements import TrailEdge
        from compas_cem.supports import NodeSupport
        s = self.topo(op["slot"])
        n = 1 + op.get("n", 1)
        ps = [self.free(s, [round(op["xyz"][0] + 0.35 * i, 2), round(op["xyz"][1] + 0.9 * i, 2), op["xyz"][2]]) for i in range(n)]

        def fn():
            for a, b in zip(ps, ps[1:]):
                pair = (a, b) if op["flip"] else (b, a)
                s.d.add_edge(TrailEdge.from_line((list(pair[0]), list(pair[1])), length=op["v"]))
            s.d.add_support(NodeSupport.from_point(list(ps[-1])))

        def apply_(v):
            for a, b in zip(ps, ps[1:]):
                pair = (a, b) if op["flip"] else (b, a)
                ks = []
                for q in pair:
                    at = s.m.at(q)
                    ks.append(at[0] if at else s.m.put_node(None, q))
                s.m.put_edge(ks[0], ks[1], edge_attrs({"type": "trail", "length": op["v"]}))
            s.m.supports.add(s.m.at(ps[-1])[0])
        return self.edit(s, fn, apply_)

    def do_add_dev(self, op):
        s = self.topo(op["slot"])
        u, v = self.node_of(s, op["a"]), self.node_of(s, op["b"])
        if u == v or s.m.edge_of(u, v):
            raise Skip("edge exists")
        f = round(0.3 * op["v"], 3) if op["how"] % 4 else 0.0
        a, b = self.by(s, u, op["by"]), self.by(s, v, op["by"] if op["how"] % 2 else "key")

        def apply_(e):
            s.m.put_edge(u, v, edge_attrs({"type": "deviation", "force": f}))
            if tuple(e) != (u, v):
                return "add_edge returned %r, not %r" % (e, (u, v))
        return self.edit(s, lambda: self.add_edge(s, a, b, {"type": "deviation", "force": f}, 0), apply_)

    def do_edge_newpos(self, op):
        s = self.topo(op["slot"])
        u = self.node_of(s, op["a"])
        p = self.free(s, op["xyz"])
        a = self.by(s, u, op["by"])
        f = op["v"]

        def apply_(e):
            k = s.m.put_node(None, p)
            s.m.put_edge(u, k, edge_attrs({"type": "deviation", "force": f}))
            if tuple(e) != (u, k):
                return "add_edge returned %r, not %r" % (e, (u, k))
        return self.edit(s, lambda: self.add_edge(s, a, (list(p), "pos"), {"type": "deviation", "force": f}, 0), apply_)

    def do_readd_edge(self, op):
        s = self.topo(op["slot"])
        e = self.edge_at(s, op["a"])
        a = dict(s.m.edges[e])
        if a["type"] == "trail":
            new = {"type": "trail", "length": op["v"], "plane": op.get("plane")}
        else:
            new = {"type": "deviation", "force": round(0.3 * op["v"], 3)}
        u, v = self.by(s, e[0], op["by"]), self.by(s, e[1], op["by"])

        def apply_(r):
            s.m.put_edge(e[0], e[1], edge_attrs(new))
            if tuple(r) != e:
                return "re-adding edge %r returned %r" % (e, r)
        return self.edit(s, lambda: self.add_edge(s, u, v, new, op["how"]), apply_)

    def do_set_edge(self, op):
        s = self.topo(op["slot"])
        e = self.edge_at(s, op["a"])
        t = s.m.edges[e]["type"]
        if t == "trail" and op.get("plane") and op["how"] % 2:
            return self.edit(s, lambda: s.d.edge_attribute(e, "plane", plane_obj(op["plane"], op["how"])),
                             lambda v: s.m.edges[e].update(plane=op["plane"]))
        name = "length" if t == "trail" else "force"
        val = op["v"] if t == "trail" else round(0.3 * op["v"], 3)
        return self.edit(s, lambda: s.d.edge_attribute(e, name, val), lambda v: s.m.edges[e].update({name: val}))

    def do_load(self, op):
        if "file" in op:
            return self.load_file(op)
        from compas_cem.loads import NodeLoad
        s = self.topo(op["slot"])
        k = self.node_of(s, op["a"])
        q = [float(c) for c in op["vec"]] if op["how"] % 6 else [0.0, 0.0, 0.0]
        if op["how"] % 6 == 1 and s.m.built and k not in s.m.trails:
            q = [c * 4e-7 for c in q]
        v, how = self.by(s, k, op["by"])
        fn = lambda: s.d.add_load(NodeLoad(v, list(q)) if how == "key" else NodeLoad.from_point_and_vector(v, list(q)))
        return self.edit(s, fn, lambda r: s.m.loads.__setitem__(k, q))

    def do_support(self, op):
        from compas_cem.supports import NodeSupport
        s = self.topo(op["slot"])
        deg = {k: 0 for k in s.m.nodes}
        for u, v in s.m.of_type("trail"):
            deg[u] += 1
            deg[v] += 1
        free = [k for k in sorted(s.m.nodes) if deg[k] == 1 and k not in s.m.supports and k not in s.m.trails]
        k = free[op["a"] % len(free)] if free and op["how"] % 8 else self.node_of(s, op["a"])
        if k not in s.m.supports and op["how"] % 8 and not free:
            raise Skip("no free end")
        v, how = self.by(s, k, op["by"])
        fn = lambda: s.d.add_support(NodeSupport(v) if how == "key" else NodeSupport.from_point(v))

        def apply_(r):
            if k not in s.m.supports:
                s.m.supports.add(k)
                s.m.built = False
        return self.edit(s, fn, apply_)

    def do_reject(self, op):
        """An edit that names something missing."""
        from compas_cem.loads import NodeLoad
        from compas_cem.supports import NodeSupport
        s = self.topo(op["slot"])
        gone = self.absent(s)
        p = gone[op["b"] % len(gone)] if gone and op["how"] % 3 else self.free(s, op["xyz"])
        key = s.m.max_key + 7 + op["a"] % 50
        kind = op["a"] % 6
        fn = [lambda: s.d.add_load(NodeLoad.from_point_and_vector(list(p), [0.0, 0.0, -1.0])),
              lambda: s.d.add_support(NodeSupport.from_point(list(p))),
              lambda: s.d.add_load(NodeLoad(key, [0.0, 0.0, -1.0])),
              lambda: s.d.add_support(NodeSupport(key)),
              lambda: s.d.add_load(NodeLoad.from_point_and_vector(list(p), [0.0, 0.0, -1.0])),
              lambda: s.d.add_support(NodeSupport.from_point(list(p)))][kind]
        v, e = outcome_of(fn)
        if e is None:
            self.bad("reject-accepted", ("C07",), "an edit at a missing %s was accepted" % ("key" if kind in (2, 3) else "position"))
        self.probe("rejected")
        self.check(s, ("C07",))
        self.frame(touched=[s])
        return "rejected"

    def do_aux_settings(self, op):
        s = self.topo(op["slot"])
        if op["how"] % 2:
            v = op["v"]

            def fn():
                s.d.auxiliary_trail_length = v

            def apply_(r):
                s.m.aux_length = v
        else:
            vec = [float(c) for c in op["vec"]]
            if M.norm(vec) < 0.1:
                raise Skip("no direction")

            def fn():
                s.d.auxiliary_trail_vector = list(vec)

            def apply_(r):
                s.m.aux_vector = vec
        return self.edit(s, fn, apply_)

    def do_poke(self, op):
        """Change a diagram in place, then see that nothing else moved."""
        s = self.form(op["slot"]) if op["form"] and self.F else self.topo(op["slot"])
        kind = op["how"] % 3
        if s.m is None:
            nodes, edges = sorted(s.snap["nodes"]), sorted(s.snap["edges"])
            if kind == 0 and nodes:
                k = nodes[op["a"] % len(nodes)]
                s.d.node_attributes(k, ["x", "qz", "rx"], [9.5, -7.0, 3.0])
            elif edges:
                e = edges[op["a"] % len(edges)]
                s.d.edge_attribute(e, "force", 77.0)
                p = s.d.edge_attribute(e, "plane")
                if isinstance(p, list):
                    p[0][0] = 55.0
            s.snap = M.observe(s.d)
        else:
            if kind == 0:
                s.d.auxiliary_trail_vector[0] = 3.5
                s.m.aux_vector = [3.5] + list(s.m.aux_vector[1:])
            elif kind == 1:
                with_p = [e for e in sorted(s.m.edges) if s.m.edges[e].get("plane")]
                if not with_p:
                    raise Skip("no plane")
                e = with_p[op["a"] % len(with_p)]
                p = s.d.edge_attribute(e, "plane")
                p[0][1] = 1.25
                pl = s.m.edges[e]["plane"]
                s.m.edges[e]["plane"] = [[pl[0][0], 1.25, pl[0][2]], list(pl[1])]
            else:
                k = self.node_of(s, op["a"])
                s.d.node_attribute(k, "qz", -2.5)
                q = s.m.loads.get(k, [0.0, 0.0, 0.0])
                s.m.loads[k] = [q[0], q[1], -2.5]
            self.check(s, ("C14",))
        self.frame(touched=[s])
        return "ok"

    # -- trails ----------------------------------------------------------------
    def expect(self, m, aux):
        """(verdict, trails or unassigned nodes, lone supports) of a build."""
        verdict, x, lone = m.find_trails()
        if verdict == "incomplete" and aux:
            adj = {k for e in m.of_type("trail") for k in e}
            todo = {n for n in x if n not in m.supports}
            if any(n in adj for n in todo) or not m.nodes:
                return "ill", None, None
            if lone or not todo:
                return "incomplete", x, lone
            return "aux", todo, lone
        return verdict, x, lone

    def adopt_trails(self, s, verdict, want):
        """Bring the model up to date after a successful build."""
        m = s.m
        if verdict == "aux":
            o, e = outcome_of(lambda: M.observe(s.d))
            if e:
                self.bad("unreadable", ("C06",), err(e))
                self.drop(s)
                return False
            new = set(o["nodes"]) - set(m.nodes)
            why = None
            unit = M.mul(m.aux_vector, 1.0 / M.norm(m.aux_vector))
            for n in sorted(want):
                p = M.add(m.nodes[n], M.mul(unit, m.aux_length))
                ends = [b if a == n else a for a, b in o["edges"] if n in (a, b) and (b if a == n else a) in new]
                if len(ends) != 1:
                    why = "unassigned node %r got %d auxiliary trails" % (n, len(ends))
                    break
                k = ends[0]
                q = o["nodes"][k]["xyz"]
                if M.dist(p, q) > 1e-9:
                    why = "the auxiliary trail of node %r ends at %r, not %r" % (n, q, p)
                    break
                m.put_node(k, q)
                e = (n, k) if (n, k) in o["edges"] else (k, n)
                m.put_edge(e[0], e[1], edge_attrs({"type": "trail", "length": m.aux_length}))
                m.supports.add(k)
                m.aux[n] = e
                new.discard(k)
            if not why and new:
                why = "nodes %r appeared" % sorted(new)
            if why:
                self.bad("aux", ("C06",), why)
                self.drop(s)
                return False
            verdict, want, _ = m.find_trails()
            if verdict != "ok":
                self.drop(s)
                raise Skip("auxiliary trails merged")
        m.set_trails(want)
        return True

    def do_build(self, op):
        return self.build(self.topo(op["slot"]), op.get("aux", False), op.get("abort"))

    def cut_short(self, s, aux=False):
        """After an interrupted build or shift: the structure stands, its trails have to be built again."""
        s.m.built = False
        self.probe("build.cut")
        if aux:                         # auxiliary trails may have been added before
            self.drop(s)
        else:
            self.check(s, ("C06",))
        self.frame(touched=[s])
        return "aborted"

    def build(self, s, aux, abort=None):
        m = s.m
        verdict, want, lone = self.expect(m, aux)
        if verdict == "ill":
            raise Skip("structure without a defined set of trails")
        with quiet_unless(self.conc):
            v, e, fired = self.abort(abort, lambda: s.d.build_trails(auxiliary_trails=aux) if aux else s.d.build_trails())
        if fired and e is not None:
            return self.cut_short(s, aux)
        if verdict == "incomplete":
            if e is None:
                self.bad("incomplete-accepted", ("C06",), "trails of an incomplete structure were built without an error")
            self.probe("build.rejected")
            m.built = False
            o, e2 = outcome_of(lambda: M.observe(s.d))
            if e2:
                self.bad("unreadable", ("C06",), err(e2))
                self.drop(s)
                return "bad"
            if aux:                     # auxiliary trails may have been added before the rejection
                if not set(m.supports) <= set(o["supports"]):
                    self.bad("lost", ("C06",), "a rejected build lost supports %r" % sorted(set(m.supports) - set(o["supports"])))
                self.drop(s)
            else:
                self.check(s, ("C06",))
                if s in self.T and self.aux_of(m, o["aux"]) != self.aux_of(m, m.aux):
                    self.bad("lost", ("C06",), "a rejected build changed the auxiliary trails to %r" % o["aux"])
                    self.drop(s)
            self.frame(touched=[s])
            return "rejected"
        if e:
            self.bad("build-failed", ("C06",), "building trails raised %s" % err(e))
            self.drop(s)
            return "failed"
        if self.adopt_trails(s, verdict, want):
            self.check(s, ("C06",))
        self.frame(touched=[s])
        return self.brief(s)

    @staticmethod
    def aux_of(m, aux):
        return {k: list(e) for k, e in aux.items() if tuple(e) in m.edges}

    def do_shift(self, op):
        s = self.topo(op["slot"])
        if not s.m.built:
            raise Skip("no trails")
        keys = sorted(s.m.trails)
        if op.get("bad"):
            others = [k for k in sorted(s.m.nodes) if k not in s.m.trails]
            if not others:
                raise Skip("all origins")
            k = others[op["a"] % len(others)]
            v, e = outcome_of(lambda: s.d.shift_trail(k, op["k"]))
            if e is None:
                self.bad("bad-shift", ("C06",), "shifting the trail of node %r, which is no origin, was accepted" % k)
            self.check(s, ("C06",))
            return "rejected"
        k = keys[op["a"] % len(keys)]
        if op["how"] == "component":
            ks = [k]
            if op["b"] % 3 == 0 and len(keys) > 1:
                ks = [k, keys[(op["a"] + 1) % len(keys)]]
            seqs = [op["k"]] if op["b"] % 2 else [op["k"] + i for i in range(len(ks))]
            d, e, fired = self.abort(op.get("abort"), lambda: seams.component("CompasCem_TrailsShift").RunScript(s.d, list(ks), list(seqs)))
            if fired and e is not None:
                self.frame(read=[s], tags=("C14", "C04"))
                return "aborted"
            if e or d is None:
                self.bad("shift-failed", ("C06",), "TrailsShift failed: %s" % (err(e) if e else "no output"))
                return "failed"
            t = Slot(d, s.m.copy(), None)
            t.gone, t.sick = list(s.gone), s.sick
            self.keep(self.T, t)
            for i, kk in enumerate(ks):
                t.m.shift(kk, seqs[min(i, len(seqs) - 1)])
            self.check(t, ("C06", "C14"))
            self.frame(read=[s], tags=("C14", "C04"), touched=[t])
            return "ok"
        v, e, fired = self.abort(op.get("abort"), lambda: s.d.shift_trail(k, op["k"]))
        if fired and e is not None:
            return self.cut_short(s)
        if e:
            self.bad("shift-failed", ("C06",), "shift_trail raised %s" % err(e))
            self.drop(s)
            return "failed"
        s.m.shift(k, op["k"])
        self.check(s, ("C06",))
        self.frame(touched=[s])
        return self.brief(s)

    # -- form finding ----------------------------------------------------------
    def do_solve(self, op):
        s = self.topo(op["slot"])
        m = s.m
        if not m.built:
            raise Skip("no current trails")
        if op.get("abort") and "no-abort" in self.flags:
            return "left out"
        route = op["route"]
        if self.conc and route == "component":
            route = "plain"
        kmax = op.get("kmax") if route != "numpy" else None
        tmax, eta = op["tmax"], op["eta"]
        indirect = any(not m.direct(e) for e in m.of_type("deviation"))
        if tmax == 1 and indirect:
            tmax = 2
        verdict, lo, hi, per, deg = M.ref_verdict(m, route, kmax, tmax, eta)
        if tmax == 1 and not deg:
            verdict, lo, hi = "ok", 1, 1
        if deg == "dev":
            raise Skip("coincident nodes joined by a deviation edge")
        cb = op.get("cb") if route != "component" else None
        calls = [0]
        inner = []
        alone = None
        from compas_cem.equilibrium import static_equilibrium, static_equilibrium_numpy
        if cb and cb["kind"] == "nested":
            t = self.T[(op["slot"] + 1) % len(self.T)]
            if not t.m.built:
                t = s
            solver = static_equilibrium if op["tmax"] % 2 else static_equilibrium_numpy
            nested = lambda: M.observe(solver(t.d, tmax=100, eta=1e-4))
            alone = outcome_of(nested)
        E = len(m.of_type("trail"))

        def callback(*a, **k):
            calls[0] += 1
            if calls[0] > (tmax + 2) * max(E, 1):
                raise CallbackFailed("runaway")
            if cb and calls[0] == cb["at"]:
                if cb["kind"] == "fail":
                    raise CallbackFailed("user callback failed")
                if cb["kind"] == "nested":
                    inner.append(outcome_of(nested))
                    if isinstance(inner[-1][1], (Interrupt, AllocFail)):
                        raise inner.pop()[1]
                if cb["kind"] == "observe":
                    inner.append(M.diff(s.snap, M.observe(s.d)))
        kw = {"tmax": tmax, "eta": eta}
        use_cb = route != "component" and not self.conc or cb
        if use_cb and route != "component":
            kw["callback"] = callback
        if op.get("verbose") and route != "component":
            kw["verbose"] = True
        if route == "component":
            fn = lambda: seams.component("CompasCem_FormFinding").RunScript(s.d, kmax, tmax, eta)
        elif route == "numpy":
            fn = lambda: static_equilibrium_numpy(s.d, **kw)
        else:
            fn = lambda: static_equilibrium(s.d, kmax=kmax, **kw)
        state = calls, inner
        with quiet_unless(self.conc):
            if op.get("abort"):
                def fn2():
                    state[0][0] = 0
                    del state[1][:]
                    return fn()
                f, e, fired = self.abort(op["abort"], fn2)
            else:
                f, e = outcome_of(fn)
                fired = False
        tag_in = ("C04", "C14") if route == "component" else ("C04",)
        if fired and e is not None or isinstance(e, CallbackFailed) and str(e) != "runaway":
            self.aborted = True
            if not fired:
                seams.W.fire("callback.raised")
            self.frame(read=[s], tags=tag_in)
            return "aborted"
        self.frame(read=[s], tags=tag_in)
        if cb and cb["kind"] == "observe" and inner and inner[0]:
            self.bad("intermediate", ("C04", "C05"), "a caller looking at the topology during a solve sees %s" % inner[0])
        if cb and cb["kind"] == "nested" and inner:
            a, b = alone, inner[0]
            why = None
            if (a[1] is None) != (b[1] is None):
                why = "%s, alone %s" % (err(b[1]) if b[1] else "returned", err(a[1]) if a[1] else "returned")
            elif a[1] is None:
                why = M.diff(a[0], b[0])
            if why:
                self.bad("nested", ("C05",), "a solve called from a callback differs from the same solve alone: %s" % why)
            seams.W.fire("nested.solve")
        if calls[0] > tmax * per:
            self.bad("over-budget", ("C03",), "%d trail-edge updates exceed %d sweeps of %d" % (calls[0], tmax, per))
        if e is not None:
            if verdict == "ok":
                self.bad("rejected", ("C03",), "a structure that settles after %d sweeps (budget %d, eta %g, %s route) was rejected: %s"
                         % (hi, tmax, eta, route, err(e)))
            self.probe("solve.raised." + verdict)
            return "raised"
        if verdict == "raise":
            self.bad("divergence-returned", ("C03",), "movement above eta=%g after %d sweeps, but a form was returned (%s route)"
                     % (eta, tmax, route))
            return "returned"
        if use_cb and route != "component" and verdict == "ok" and per and not (lo * per <= calls[0] <= hi * per):
            self.bad("sweeps", ("C03",), "%s updates of %d trail edges; settles after %d to %d sweeps" % (calls[0], per, lo, hi))
        self.probe("solve.ok." + verdict)
        return self.got_form(f, m, eta, kmax, s)

    def got_form(self, f, m, eta, kmax=None, src=None, extra=(), form_cls="FormDiagram", soft=False):
        """Judge a returned form and keep it."""
        o, e = outcome_of(lambda: M.observe(f))
        if e:
            self.bad("form-unreadable", ("C01", "C02") + extra, "the returned form cannot be read: %s" % err(e))
            return "bad"
        if o["cls"] != form_cls:
            self.bad("form-class", ("C02",) + extra, "a %s was returned" % o["cls"])
            return "bad"
        odd = M.not_numbers(o)
        if odd:
            self.bad("not-finite", ("C01", "C02", "C03") + extra, "the returned form holds %s" % odd)
            return "bad"
        why = M.check_design(m, o, eta, kmax)
        if why:
            self.bad("design", ("C02",) + extra, why)
        why2 = M.check_balance(m, o, eta, kmax)
        if why2:
            self.bad("balance", ("C01",) + extra, why2)
        if not why and not why2:
            self.keep(self.F, Slot(f, None, o))
        return digest(o) if self.conc else "ok"

    # -- reading ---------------------------------------------------------------
    def do_query(self, op):
        s = self.topo(op["slot"])
        if op.get("abort") and "no-abort" in self.flags:
            return "left out"
        how = op["how"]
        if self.conc and how in ("draw", "components"):
            how = "all"
        if how == "repr":
            fn = lambda: (repr(s.d), str(s.d), [repr(f.d) for f in self.F[:1]])
        elif how == "all":
            fn = lambda: digest(M.observe(s.d))
        elif how == "data":
            fn = lambda: len(repr(s.d.data))
        elif how == "draw":
            if not s.m.built:
                raise Skip("no trails")
            fn = lambda: self.draw(s, op)
        else:
            return self.query_components(s, op)
        with quiet_unless(self.conc):
            v, e, fired = self.abort(op.get("abort"), fn)
        if e is not None and not fired:
            self.bad("query-failed", ("C04",), "%s raised %s" % (how, err(e)))
        self.frame(read=[s] + self.F[:1], tags=("C04",))
        return v if self.conc else "ok"

    def draw(self, s, op):
        from compas_cem.plotters import Plotter
        import matplotlib.pyplot as plt
        if op["a"] % 4 > 1:
            for f in self.F[:1]:
                seams.component("CompasCem_ArtistForm").RunScript(f.d, None, None, None, None)
            return seams.component("CompasCem_ArtistTopology").RunScript(s.d, None, None, None, None)
        p = Plotter(figsize=(3, 2), dpi=30)
        try:
            if op["a"] % 2 and self.F:
                p.add(self.F[op["a"] % len(self.F)].d, loadscale=0.5, reactionscale=0.5, edgetext="forcelength", show_edgetext=True)
            else:
                p.add(s.d)
        finally:
            plt.close("all")

    def query_components(self, s, op):
        comp = seams.component
        m = s.m
        k = self.node_of(s, op["a"])
        p, how = self.by(s, k, "pos")
        if how == "pos":
            v, e = outcome_of(lambda: comp("CompasCem_SearchNodeKey").RunScript(s.d, list(p)))
            if e or v != k:
                self.bad("search", ("C07",), "SearchNodeKey at the position of node %r gives %r" % (k, err(e) if e else v))
        edges = [e for e in sorted(m.edges) if all(m.cell(m.nodes[n]) not in m.taint for n in e)]
        if edges:
            u, w = edges[op["a"] % len(edges)]
            v, e = outcome_of(lambda: comp("CompasCem_SearchEdgeKey").RunScript(s.d, (list(m.nodes[u]), list(m.nodes[w]))))
            if e or [tuple(x) for x in v] != [(u, w)]:
                self.bad("search", ("C07",), "SearchEdgeKey along edge %r gives %r" % ((u, w), err(e) if e else v))
        gone = self.absent(s)
        if gone:
            v, e = outcome_of(lambda: comp("CompasCem_SearchNodeKey").RunScript(s.d, list(gone[-1])))
            if e is None and v is not None:
                self.bad("search", ("C07",), "SearchNodeKey at %r, where no node is, gives %r" % (gone[-1], v))
        if m.built:
            v, e = outcome_of(lambda: comp("CompasCem_DisassembleTopology").RunScript(s.d))
            if e:
                self.bad("query-failed", ("C04",), "DisassembleTopology raised %s" % err(e))
        for f in self.F[:2]:
            for name in ("ResultsEdges", "ResultsSupportNodes"):
                v, e = outcome_of(lambda: comp("CompasCem_" + name).RunScript(f.d, None))
                if e:
                    self.bad("query-failed", ("C04",), "%s raised %s" % (name, err(e)))
                elif name == "ResultsEdges":
                    es = list(f.snap["edges"].values())
                    if [M.num(x) for x in v[0]] != [a["length"] for a in es] or [M.num(x) for x in v[1]] != [a["force"] for a in es]:
                        self.bad("results", ("C02",), "ResultsEdges reports other values than the form holds")
                elif not e:
                    want = [f.snap["nodes"][n]["reaction"] for n in f.snap["nodes"] if f.snap["nodes"][n]["support"]]
                    if [M.vec(x) for x in v] != want:
                        self.bad("results", ("C01",), "ResultsSupportNodes reports other reactions than the form holds")
            v, e = outcome_of(lambda: comp("CompasCem_DisassembleForm").RunScript(f.d))
            if e:
                self.bad("query-failed", ("C04",), "DisassembleForm raised %s" % err(e))
        self.frame(read=[s] + self.F[:2], tags=("C04", "C14"))
        return "ok"

    def do_copy(self, op):
        s = self.form(op["slot"]) if op.get("form") and self.F else self.topo(op["slot"])
        if op.get("abort") and "no-abort" in self.flags:
            return "left out"
        d, e, fired = self.abort(op.get("abort"), lambda: s.d.copy())
        if e is not None:
            if not fired:
                self.bad("copy-failed", ("C14",), "copy raised %s" % err(e))
            self.frame(read=[s], tags=("C04",))
            return "aborted"
        o, e = outcome_of(lambda: M.observe(d))
        why = err(e) if e else M.diff(s.snap, o)
        if why:
            self.bad("copy-differs", ("C14",), "the copy differs from its source: %s" % why)
            return "bad"
        t = Slot(d, s.m.copy() if s.m else None, o)
        t.sick = s.sick
        t.gone = list(s.gone)
        if self.conc:
            return digest(o)
        self.keep(self.T if s.m else self.F, t)
        self.frame(read=[s], tags=("C04",), touched=[t])
        if t.m and t in self.T:
            self.check(t, ("C14",))
        return "ok"

    # -- storage ---------------------------------------------------------------
    def do_save(self, op):
        import compas
        s = self.form(op["slot"]) if op.get("form") and self.F else self.topo(op["slot"])
        if "no-abort" in self.flags and op.get("abort"):
            return "left out"
        how = op["how"]
        key = op["file"]
        if how == "pickle":
            how = "json"
        old = self.disk.get(key)
        rec = {"snap": s.snap, "m": s.m.copy() if s.m else None, "gone": list(s.gone), "copy": None, "sick": s.sick}
        if "json-as-copy" in self.flags:
            rec["copy"] = s.d.copy()
        if how in ("string", "dumps"):
            fn = (lambda: s.d.to_jsonstring()) if how == "string" else (lambda: compas.json_dumps(s.d))
            txt, e, fired = self.abort(op.get("abort"), fn)
            if e is not None:
                if not fired:
                    self.bad("save-failed", ("C08",), "%s raised %s" % (how, err(e)))
            else:
                self.files[key] = {"kind": "str", "how": how, "txt": txt, "cands": [rec], "must": True}
            self.frame(read=[s], tags=("C04", "C08"))
            return "ok" if e is None else "aborted"
        path = os.path.join(self.root, "design%d.json" % key)
        fns = {"json": lambda: s.d.to_json(path),
               "pretty": lambda: s.d.to_json(path, pretty=True),
               "component": lambda: seams.component("CompasCem_JSONExportDiagram").RunScript(s.d, path),
               "dump": lambda: compas.json_dump(s.d, path)}
        fault = op.get("fault")
        if "json-as-copy" in self.flags:
            fault = None
        W = seams.W
        before = dict(W.fired)
        if fault:
            size = len(s.d.to_jsonstring())
            W.disk.fault = {"kind": fault["kind"], "bytes": int(fault["frac"] * size)}
        v, e, fired = self.abort(op.get("abort"), fns[how])
        W.disk.fault = None
        hit = fault and W.fired.get("disk." + fault["kind"], 0) > before.get("disk." + fault["kind"], 0)
        cands = [c for c in (old or {"cands": []})["cands"]] if old else []
        if e is None and not (hit and fault["kind"] == "lost"):
            if hit:
                self.bad("save-swallowed", ("C08",), "the save returned normally although storage reported %s" % fault["kind"])
            self.files[key] = {"kind": "file", "how": how, "path": path, "cands": [rec], "must": not hit}
        else:
            if e is not None and not hit and not fired:
                self.bad("save-failed", ("C08",), "saving (%s) raised %s" % (how, err(e)))
            self.files[key] = {"kind": "file", "how": how, "path": path, "cands": cands + [rec], "must": False}
        self.disk[key] = self.files[key]
        self.frame(read=[s], tags=("C04", "C08", "C14") if how == "component" else ("C04", "C08"))
        return "ok" if e is None else "failed"

    def load_file(self, op):
        import compas
        from compas_cem.diagrams import TopologyDiagram, FormDiagram
        f = self.files.get(op["file"])
        if not f:
            raise Skip("no file")
        last = f["cands"][-1]
        if len({c["m"] is None for c in f["cands"]}) > 1:
            raise Skip("a topology or a form")     # nobody knows which class to load
        cls = TopologyDiagram if last["m"] is not None else FormDiagram
        if f["must"] and "json-as-copy" in self.flags:
            return self.loaded(last["copy"].copy(), last, soft=True)
        W = seams.W
        before = dict(W.fired)
        fault = op.get("fault")
        if f["kind"] == "str":
            fn = (lambda: cls.from_jsonstring(f["txt"])) if f["how"] == "string" else (lambda: compas.json_loads(f["txt"]))
            fault = None
        else:
            how = "load" if f["how"] == "dump" else ("json" if op["how"] == "load" else op["how"])
            name = "CompasCem_JSONImportTopology" if cls is TopologyDiagram else "CompasCem_JSONImportForm"
            fn = {"json": lambda: cls.from_json(f["path"]),
                  "load": lambda: compas.json_load(f["path"]),
                  "component": lambda: seams.component(name).RunScript(f["path"])}[how]
            if fault:
                W.disk.fault = dict(fault)
        d, e = outcome_of(fn)
        W.disk.fault = None
        hit = fault and W.fired.get("disk." + fault["kind"], 0) > before.get("disk." + fault["kind"], 0)
        if e is not None:
            if f["must"] and not hit:
                self.bad("load-failed", ("C08",), "loading a completely saved design raised %s" % err(e))
            self.frame()
            return "raised"
        if isinstance(d, dict) and not f["must"]:
            return "other format"       # an earlier save in the other format survived
        o, e = outcome_of(lambda: M.observe(d))
        if e:
            self.bad("load-differs", ("C08",), "the loaded design cannot be read: %s" % err(e))
            return "bad"
        whys = []
        for c in reversed(f["cands"]):
            why = M.diff_close(c["snap"], o, 1e-13, 0.0)      # plane normals are normalised again
            if not why:
                return self.loaded(d, c)
            whys.append(why)
        self.bad("load-differs", ("C08",), "the loaded design is none that was saved: %s" % whys[0])
        return "bad"

    def loaded(self, d, c, soft=False):
        t = Slot(d, c["m"].copy() if c["m"] else None, M.observe(d))
        t.gone, t.sick = list(c["gone"]), c.get("sick", False)
        self.keep(self.T if c["m"] else self.F, t)
        if t.m:
            self.check(t, ("C08",))
        self.frame(touched=[t])
        self.probe("loaded")
        return "ok"

    def do_item(self, op):
        """Round trip of parameters and constraints."""
        import compas
        s = self.topo(op["slot"])
        if not s.m.built:
            raise Skip("no trails")
        r = self.ref_form(s)
        if op["what"] == "param":
            spec = self.resolve_param(s, op["p"])
            x = make_param(spec)
        else:
            spec = self.resolve_con(s, op["c"], r)
            x = make_con(spec)
        how = op["how"]
        if how == "string":
            y, e = outcome_of(lambda: type(x).from_jsonstring(x.to_jsonstring()))
        elif how == "dumps":
            y, e = outcome_of(lambda: compas.json_loads(compas.json_dumps([x]))[0])
        else:
            path = os.path.join(self.root, "item.json")

            def fn():
                if how == "json":
                    x.to_json(path)
                    return type(x).from_json(path)
                compas.json_dump([x], path)
                return compas.json_load(path)[0]
            y, e = outcome_of(fn)
        if e:
            self.bad("item-failed", ("C08",), "round trip of %r raised %s" % (x, err(e)))
            return "failed"
        why = same_item(x, y)
        if not why and op["what"] == "param":
            a, b = [[p.start_value(s.d), p.bound_low(s.d), p.bound_up(s.d)] for p in (x, y)]
            why = a != b and "start and bounds %r, not %r" % (b, a)
        if why:
            self.bad("item-differs", ("C08",), "%r came back as %r: %s" % (x, y, why))
            return "bad"
        self.frame(read=[s])
        return "ok"

    # -- optimization ----------------------------------------------------------
    def ref_form(self, s):
        v, lo, hi, per, deg = M.ref_verdict(s.m, "numpy", None, 100, 1e-6)
        if v != "ok":
            raise Skip("does not settle")
        return M.ref_run(s.m, None, 100, list(s.m.trails)).pos

    def resolve_param(self, s, p):
        m = s.m
        t = p["t"]
        if t in ("trail", "dev"):
            es = sorted(m.of_type("trail" if t == "trail" else "deviation"))
            es = [e for e in es if not m.edges[e].get("plane")]
            if not es:
                raise Skip("no edge")
            key = es[p["a"] % len(es)]
        elif t[0] == "o":
            ks = sorted(m.trails)
            key = ks[p["a"] % len(ks)]
        else:
            ks = sorted(m.nodes)
            key = ks[p["a"] % len(ks)]
        return {"t": t, "key": key, "lo": p["lo"], "up": p["up"]}

    def resolve_con(self, s, c, pos):
        m = s.m
        t, a, d = c["t"], c["a"], c["d"]
        nodes = sorted(m.nodes)
        dig = 3 if all(round(x, 6) == x for x in d) else 17
        if t in ("point", "line", "plane", "poly"):
            key = nodes[a % len(nodes)]
            p = pos[key]
            q = [round(p[i] + d[i], dig) for i in range(3)]
            if t == "point":
                target = q
            elif t == "line":
                target = [q, [round(q[0] + 1.0, dig), round(q[1] + d[3], dig), round(q[2] + d[4], dig)]]
            elif t == "plane":
                target = [q, NORMALS[int(abs(d[3]) * 100) % len(NORMALS)]]
            else:
                target = [q, [round(q[0] + 1.0, dig), round(q[1] + d[3], dig), q[2]],
                          [round(q[0] + 1.0, dig), round(q[1] + 1.5 + d[4], dig), round(q[2] + d[5], dig)]]
                more = int(abs(d[6]) * 100) % 7
                if more == 6:
                    del target[2]
                elif more == 5:
                    target.append(list(q))
                else:
                    for j in range(more):
                        b = target[-1]
                        target.append([round(b[0] - 1.0 + d[7], dig), round(b[1] + (-1) ** j * 0.8, dig), round(b[2] + d[8], dig)])
        elif t in ("dir", "len"):
            es = sorted(m.edges) if t == "dir" else sorted(m.of_type("deviation"))
            es = [e for e in es if M.dist(pos[e[0]], pos[e[1]]) > 0.05]
            if not es:
                raise Skip("no edge")
            key = es[a % len(es)]
            if t == "dir":
                v = M.sub(pos[key[1]], pos[key[0]])
                target = [round(v[i] + d[i], dig) for i in range(3)]
                if M.norm(target) < 0.1:
                    raise Skip("no direction")
            else:
                target = round(M.dist(pos[key[0]], pos[key[1]]) * c["f"], dig)
        elif t == "force":
            es = sorted(m.of_type("trail"))
            key = es[a % len(es)]
            target = round(c["f"] * (1.0 if m.edges[key]["length"] > 0 else -1.0), dig)
        else:
            ks = sorted(m.supports)
            key = ks[a % len(ks)]
            target = [round(2 * x, dig) for x in d[:3]]
            if M.norm(target) < 0.05:
                raise Skip("no vector")
        return {"t": t, "key": key, "target": target, "w": c["w"]}

    def entry(self, i):
        if i not in self.opts:
            if not self.opts:
                raise Skip("no optimizer")
            i = sorted(self.opts)[0]
        return self.opts[i]

    def fits(self, x, s):
        """Do all registered items designate something in this topology?"""
        m = s.m
        if not m.built:
            return False
        for _, p, _ in x.ps:
            if p["t"] in ("trail", "dev"):
                if p["key"] not in m.edges or m.edges[p["key"]]["type"] != ("trail" if p["t"] == "trail" else "deviation"):
                    return False
            elif p["key"] not in (m.trails if p["t"][0] == "o" else m.nodes):
                return False
        for _, c, _ in x.cs:
            k = c["key"]
            if c["t"] in ("dir", "len") and (k not in m.edges):
                return False
            if c["t"] == "force" and (k not in m.edges or m.edges[k]["type"] != "trail"):
                return False
            if c["t"] == "react" and k not in m.supports:
                return False
            if c["t"] in ("point", "line", "plane", "poly") and k not in m.nodes:
                return False
        return True

    def do_opt_new(self, op):
        from compas_cem.optimization import Optimizer
        s = self.topo(op["slot"])
        self.opts[op["opt"]] = Opt(Optimizer(), s)
        return "ok"

    def do_problem(self, op):
        from compas_cem.optimization import Optimizer
        s = self.topo(op["slot"])
        if not s.m.built:
            good = [t for t in self.T if t.m.built]
            if not good:
                raise Skip("no trails")
            s = good[op["slot"] % len(good)]
        pos = self.ref_form(s)
        x = Opt(Optimizer(), s)
        for p in op["ps"]:
            try:
                self.register(x, "param", self.resolve_param(s, p))
            except Skip:
                pass
        for c in op["cs"]:
            try:
                self.register(x, "con", self.resolve_con(s, c, pos))
            except Skip:
                pass
        self.opts[op["opt"]] = x
        return "%d %d" % (len(x.ps), len(x.cs))

    def register(self, x, what, spec):
        if what == "param":
            if any((p["t"], p["key"]) == (spec["t"], spec["key"]) for _, p, _ in x.ps) or len(x.ps) >= 5:
                raise Skip("already a parameter")
            obj = make_param(spec)
            x.o.add_parameter(obj)
            x.ps.append([self.new_key(x.o.parameters, x.ps), spec, obj])
        else:
            if len(x.cs) >= 4:
                raise Skip("enough constraints")
            obj = make_con(spec)
            x.o.add_constraint(obj)
            x.cs.append([self.new_key(x.o.constraints, x.cs), spec, obj])
        self.check_registry(x)

    @staticmethod
    def new_key(d, known):
        new = [k for k in d if k not in [a[0] for a in known]]
        return new[0] if len(new) == 1 else None

    def check_registry(self, x):
        o = x.o
        for name, d, known in (("parameters", o.parameters, x.ps), ("constraints", o.constraints, x.cs)):
            if list(d) != [a[0] for a in known] or any(d[k] is not obj for k, _, obj in known if k in d):
                self.bad("registry", ("C13", "C12") if x.faulted else ("C13",), "the optimizer holds %s %r; registered: %r" %
                         (name, {k: repr(v) for k, v in d.items()}, [(a[0], repr(a[2])) for a in known]))
                for i in [i for i, y in self.opts.items() if y is x]:
                    del self.opts[i]
                raise Skip("registry is wrong")
            for k, spec, obj in known:
                why = changed_item(spec, obj)
                if why:
                    self.bad("registry", ("C13", "C12", "C09"), "registered item %r changed: %s" % (obj, why))
                    for i in [i for i, y in self.opts.items() if y is x]:
                        del self.opts[i]
                    raise Skip("registry is wrong")
        if (o.number_of_parameters(), o.number_of_constraints()) != (len(x.ps), len(x.cs)):
            self.bad("registry", ("C13",), "the optimizer's counters disagree with what is registered")

    def do_opt_param(self, op):
        x = self.entry(op["opt"])
        if x.slot not in self.T or not x.slot.m.built:
            raise Skip("no topology")
        self.register(x, "param", self.resolve_param(x.slot, op["p"]))
        return "ok"

    def do_opt_con(self, op):
        x = self.entry(op["opt"])
        if x.slot not in self.T or not x.slot.m.built:
            raise Skip("no topology")
        spec = self.resolve_con(x.slot, op["c"], self.ref_form(x.slot))
        if x.cs and op["c"]["a"] % 4 == 0:                      # the same once more
            spec = copy.deepcopy(x.cs[op["c"]["a"] // 4 % len(x.cs)][1])
            self.probe("opt.again")
        self.register(x, "con", spec)
        return "ok"

    def do_opt_del_param(self, op):
        x = self.entry(op["opt"])
        if not x.ps:
            raise Skip("nothing to remove")
        i = op["a"] % len(x.ps)
        v, e = outcome_of(lambda: x.o.remove_parameter(x.ps[i][0]))
        if e:
            self.bad("remove", ("C13",), "removing a parameter raised %s" % err(e))
        del x.ps[i]
        self.check_registry(x)
        return "ok"

    def do_opt_del_con(self, op):
        x = self.entry(op["opt"])
        if not x.cs:
            raise Skip("nothing to remove")
        i = op["a"] % len(x.cs)
        v, e = outcome_of(lambda: x.o.remove_constraint(x.cs[i][0]))
        if e:
            self.bad("remove", ("C13",), "removing a constraint raised %s" % err(e))
        del x.cs[i]
        self.check_registry(x)
        return "ok"

    def do_opt_bad(self, op):
        """Removing what is not there, or solving without a problem."""
        x = self.entry(op["opt"])
        w = op["which"]
        if w == "param":
            known = [a[0] for a in x.ps]
            k = next(k for k in ([op["a"] % 3] if op["a"] % 3 not in known else []) + [99 + op["a"] % 7] if k not in known)
            v, e = outcome_of(lambda: x.o.remove_parameter(k))
        elif w == "con":
            known = [a[0] for a in x.cs]
            k = next(k for k in ([op["a"] % 3] if op["a"] % 3 not in known else []) + [99 + op["a"] % 7] if k not in known)
            v, e = outcome_of(lambda: x.o.remove_constraint(k))
        else:
            s = x.slot
            if s not in self.T or not s.m.built:
                raise Skip("no topology")
            again = []
            if x.ps and x.cs:           # take one half of the problem away for a moment
                half, gone = ("con", x.cs) if op["a"] % 2 else ("param", x.ps)
                while gone:
                    again.append((half, gone[0][1]))
                    v, e = outcome_of(lambda: (x.o.remove_constraint if half == "con" else x.o.remove_parameter)(gone[0][0]))
                    if e:
                        self.bad("remove", ("C13",), "removing a registered item raised %s" % err(e))
                    del gone[0]
                    self.check_registry(x)
            with quiet_unless(self.conc):
                v, e = outcome_of(lambda: x.o.solve(s.d, iters=2))
            for half, spec in again:
                self.register(x, half, spec)
        if e is None:
            self.bad("bad-accepted", ("C13",), "%s was accepted" % {"param": "removing an unknown parameter", "con": "removing an unknown constraint",
                                                                   "empty": "solving with nothing registered"}[w])
        self.check_registry(x)
        self.frame(read=[x.slot], tags=("C13",))
        return "rejected"

    def pick_topo(self, x, r):
        good = [t for t in self.T if self.fits(x, t)]
        if not good:
            raise Skip("no topology fits the problem")
        if x.slot in good and r % 3:
            return x.slot
        return good[r % len(good)]

    def result_of(self, opt, form, e):
        """What an optimization produced, in comparable form."""
        if e is not None:
            return {"error": type(e).__name__}
        return {"x": M.vec(opt.x_opt), "penalty": M.num(opt.penalty), "evals": M.num(opt.evals), "status": opt.status,
                "gnorm": M.num(opt.gradient_norm), "form": plain(M.observe(form))}

    def fresh(self, x, d, kw, mask=None):
        """The same items in a fresh optimizer on another topology object."""
        from compas_cem.optimization import Optimizer
        W = seams.W
        keep, W.solver = W.solver, seams.SolverCtl()
        W.solver.mask = mask
        try:
            o = Optimizer()
            for _, spec, _ in x.ps:
                o.add_parameter(make_param(spec))
            for _, spec, _ in x.cs:
                o.add_constraint(make_con(spec))
            with quiet_unless(self.conc):
                f, e = outcome_of(lambda: o.solve(d, **kw))
            return o, f, e, self.result_of(o, f, e)
        finally:
            W.solver = keep

    def do_opt(self, op):
        x = self.entry(op["opt"])
        if not x.ps or not x.cs:
            raise Skip("nothing registered")
        if (op.get("fault") or op.get("abort")) and "no-opt-fault" in self.flags:
            return "left out"
        s = self.pick_topo(x, op["slot"])
        m = s.m
        v = M.ref_verdict(m, "numpy", None, op["tmax"], op["eta"])
        if v[0] != "ok" or v[2] > 25:
            raise Skip("does not settle soon")
        kw = {"algorithm": op["alg"], "grad": op["grad"], "iters": op["iters"], "eps": op["eps"], "kappa": op["kappa"],
              "tmax": op["tmax"], "eta": op["eta"]}
        start = [self.value(m, p) for _, p, _ in x.ps]
        bounds = [(v - abs(p["lo"]) if p["lo"] is not None else -math.inf, v + abs(p["up"]) if p["up"] is not None else math.inf)
                  for v, (_, p, _) in zip(start, x.ps)]
        twin = None
        if not self.conc:
            td, e = outcome_of(lambda: s.d.copy())
            if e:
                raise Skip("copy failed")
            _, _, te, twin = self.fresh(x, td, kw, op.get("mask"))
            if te is not None and not isinstance(te, (ValueError, ZeroDivisionError, RuntimeError, FloatingPointError, OverflowError)) \
                    and not (op.get("mask") == "forced" and type(te).__name__ == "ForcedStop") or te is not None and "nlopt" in str(te):
                self.bad("opt-failed", ("C13", "C11"), "a fresh optimizer raised %s" % err(te))
            self.frame()
        W = seams.W
        ctl = W.solver = seams.SolverCtl()
        ctl.eval_dt = op.get("dt", 0.0)
        ctl.aside_dt = ctl.eval_dt if self.prop == "C15" else 0.0
        ctl.fault = dict(op["fault"]) if op.get("fault") else None
        ctl.mask = op.get("mask")
        ctl.clock = {int(k): v for k, v in op.get("clock", {}).items()}
        with quiet_unless(self.conc):
            f, e, fired = self.abort(op.get("abort"), lambda: x.o.solve(s.d, verbose=bool(op.get("verbose")), **kw))
        hit = bool(op.get("fault")) and ctl.fault is None
        ctl.fault, ctl.clock = None, {}
        W.rate = 1.0
        raised = ctl.raised
        broke = bool(hit or fired or raised)
        base = ("C12",) if broke else ("C11",)
        # the topology's parameters and everything else
        if not self.after_opt(x, s, base, bounds):
            return "bad"
        if self.check(s, base) is None or s not in self.T:
            return "bad"
        self.frame(touched=[s])
        was = x.faulted
        x.faulted = x.faulted or broke
        self.check_registry(x)
        if broke and e is None and raised not in ("RuntimeError", "RoundoffLimited"):
            # (the compiled solver itself turns some errors of an evaluation into its own RuntimeError)
            self.bad("swallowed", ("C12",), "an optimization hit by %s returned normally" %
                     (raised or (op["fault"]["kind"] if hit else op["abort"]["exc"])))
        if raised == "RuntimeError" and e is None:
            self.probe("opt.breakdown")
        if e is not None and broke:
            self.probe("opt.cut")
            return "raised"
        res, e2 = outcome_of(lambda: self.result_of(x.o, f, e))
        if e2:
            self.bad("opt-result", base, "the result cannot be read: %s" % err(e2))
            return "bad"
        if twin is not None and not hit and not fired:
            why = M.diff(twin, res)
            if why:
                self.bad("twin", ("C12", "C13") if was else ("C13",), "the optimizer's result differs from a fresh optimizer's: %s" % why)
        if e is not None:
            self.probe("opt.raised")
            return "raised"
        self.probe("opt.ok." + op["alg"])
        self.judge_opt(x, s, f, res, op, bounds, base, broke)
        if not self.conc and ctl.spans and not broke and e is None:
            span = sum(b - a for a, b in ctl.spans)
            t = x.o.time_opt
            if not isinstance(t, (int, float)) or t < 0 or abs(t - span) > 1e-3 + 1e-6 * span:
                self.bad("time", ("C15",), "time_opt is %r; the solver ran for %.6f s" % (t, span))
            self.probe("timed")
        return digest(res) if self.conc else "ok"

    def value(self, m, p):
        t, k = p["t"], p["key"]
        if t == "trail":
            return m.edges[k]["length"]
        if t == "dev":
            return m.edges[k]["force"]
        i = "xyz".index(t[1])
        return m.nodes[k][i] if t[0] == "o" else m.loads.get(k, [0.0, 0.0, 0.0])[i]

    def after_opt(self, x, s, tags, bounds):
        """Take over the parameter values from the topology; they must be sane."""
        m = s.m
        for (_, p, _), (lo, hi) in zip(x.ps, bounds):
            t, k = p["t"], p["key"]
            if t in ("trail", "dev"):
                raw = s.d.edge_attribute(k, "length" if t == "trail" else "force")
            else:
                raw = s.d.node_attribute(k, t[1] if t[0] == "o" else t)
            v = M.num(raw)
            if type(raw).__name__ not in ("float", "float64", "int", "float32") or not isinstance(v, float) or math.isinf(v):
                self.bad("param-value", tags, "parameter %s of %r holds %r of type %s" % (t, k, v, type(raw).__name__))
                self.drop(s)
                return False
            slack = 1e-9 * (1.0 + abs(v))
            if not (lo - slack <= v <= hi + slack):
                self.bad("bounds", tags, "parameter %s of %r is %r, outside [%r, %r]" % (t, k, v, lo, hi))
                self.drop(s)
                return False
            if t == "trail":
                m.edges[k]["length"] = v
            elif t == "dev":
                m.edges[k]["force"] = v
            elif t[0] == "o":
                q = list(m.nodes[k])
                q["xyz".index(t[1])] = v
                if q != m.nodes[k]:
                    m.taint.add(m.cell(m.nodes[k]))
                    m.nodes[k] = q
                    m.taint.add(m.cell(q))
            else:
                q = list(m.loads.get(k, [0.0, 0.0, 0.0]))
                q["xyz".index(t[1])] = v
                m.loads[k] = q
        return True

    def judge_opt(self, x, s, f, res, op, bounds, base, broke):
        m = s.m
        now = [self.value(m, p) for _, p, _ in x.ps]
        cls = ("C12", "C11") if broke else ("C11",)
        o = M.observe(f)
        if broke and res["x"] is None and res["penalty"] is None:
            pass                        # a breakdown that claims no results
        else:
            if res["x"] is None or len(res["x"]) != len(now) or any(not M.close(a, b, 1e-12, 1e-12) for a, b in zip(res["x"], now)):
                self.bad("x_opt", cls, "x_opt is %r, the topology holds %r" % (res["x"], now))
            each = [M.penalty(c, o) for _, c, _ in x.cs]
            want = sum(each)
            if not isinstance(res["penalty"], float) or not M.close(res["penalty"], want, 1e-6, 1e-9):
                some = [sum(q) for n in range(len(each) if len(each) < 11 else 0) for q in itertools.combinations(each, n)]
                if isinstance(res["penalty"], float) and any(M.close(res["penalty"], q, 1e-6, 1e-9) for q in some):
                    cls += ("C13",)                             # another problem was solved
                self.bad("penalty", cls, "penalty is %r, the constraints measure %r on the returned form" % (res["penalty"], want))
            if not broke and (not isinstance(res["evals"], float) or res["evals"] < 1 or not isinstance(res["status"], str)):
                self.bad("stats", cls, "evals %r, status %r" % (res["evals"], res["status"]))
        self.got_form(f, m, op["eta"], None, s, extra=cls)
        v = M.ref_verdict(m, "numpy", None, op["tmax"], op["eta"])
        if v[0] == "raise":
            self.bad("divergence-returned", ("C03", "C11"), "the topology does not settle, but a form was returned")

    # -- remote ----------------------------------------------------------------
    def do_proxy(self, op):
        net = seams.W.net
        net.faults = []
        net.start_faults = [dict(f) for f in op.get("start", [])]
        comp = seams.component("CompasCem_Proxy")
        what = op["what"]
        if what == "kill":
            run = net.running(7123)
            if not run:
                raise Skip("no server")
            run[0].alive = False
            seams.W.fire("proc.killed")
            return "killed"
        if what in ("stop", "restart", "both"):
            with quiet_unless(False):
                v, e = outcome_of(lambda: comp.RunScript(what == "both", True))
            fault = bool(op.get("start")) and not net.start_faults
            if e is not None and not fault:
                self.bad("stop-failed", ("C10",), "stopping the server raised %s" % err(e))
            if e is None and net.running(7123):
                self.bad("not-stopped", ("C10",), "the persistent server still runs after it was stopped")
            if e is None and "proxy_cem" in seams.STICKY:
                self.bad("not-stopped", ("C10",), "a stopped server is still registered")
                seams.STICKY.clear()
            for p in net.running(7123):
                if e is not None:
                    p.alive = False
        if what in ("start", "restart"):
            was = net.running(7123)
            had = "proxy_cem" in seams.STICKY
            with quiet_unless(False):
                v, e = outcome_of(lambda: comp.RunScript(True, False))
            fault = bool(op.get("start"))
            if e is not None:
                if not fault:
                    self.bad("start-failed", ("C10",), "starting the server raised %s" % err(e))
                for p in net.running(7123):
                    if p not in was:
                        p.alive = False         # left over by a failed start inside compas
            else:
                if len(net.running(7123)) != 1 or "proxy_cem" not in seams.STICKY:
                    self.bad("start-failed", ("C10",), "%d servers run after a start" % len(net.running(7123)))
                if was and net.running(7123)[0] is not was[0]:
                    self.bad("start-replaced", ("C10",), "starting replaced the running server")
            self.probe("proxy.start")
        net.start_faults = []
        self.frame()
        return "ok"

    def do_remote(self, op):
        x = self.entry(op["opt"])
        if not x.ps or not x.cs:
            raise Skip("nothing registered")
        s = self.pick_topo(x, op["slot"])
        m = s.m
        W = seams.W
        net = W.net
        alg = op["alg"]
        tmax, eta = op["tmax"], op["eta"]
        kw = {"algorithm": alg, "iters": op["iters"], "eps": op["eps"], "kappa": op["kappa"], "tmax": tmax, "eta": eta}
        args = dict(kw)
        if op["how"] == "component":        # what the component takes as not given
            kw.update(eps=op["eps"] or 1e-6, kappa=op["kappa"] or 1e-8)
        bad = op.get("bad")
        if op.get("defaults") and op["how"] == "component":
            kw = {"algorithm": "SLSQP", "iters": 100, "eps": 1e-6, "kappa": 1e-8, "tmax": 100, "eta": 1e-6}
            args = {k: None for k in kw}
            args["iters"] = kw["iters"] = 15
        v = M.ref_verdict(m, "numpy", None, kw["tmax"], kw["eta"])
        if v[0] != "ok" or v[2] > 25:
            raise Skip("does not settle soon")
        if bad == "alg":
            kw["algorithm"] = args["algorithm"] = "NO-SUCH"
        if bad == "diverge":
            kw["tmax"] = args["tmax"] = 2
            kw["eta"] = args["eta"] = 1e-12
        start = [self.value(m, p) for _, p, _ in x.ps]
        bounds = [(v - abs(p["lo"]) if p["lo"] is not None else -math.inf, v + abs(p["up"]) if p["up"] is not None else math.inf)
                  for v, (_, p, _) in zip(start, x.ps)]
        # the same problem in this process
        td, e = outcome_of(lambda: s.d.copy())
        if e:
            raise Skip("copy failed")
        lo, lf, le, local = self.fresh(x, td, kw, op.get("mask"))
        if le is None:
            local["topology"] = plain(M.observe(td))
        params = [make_param(p) for _, p, _ in x.ps]
        cons = [make_con(c) for _, c, _ in x.cs]
        if op.get("items") and op["how"] == "component":
            made, e = outcome_of(lambda: ([via_component(p) for _, p, _ in x.ps], [via_component(c) for _, c, _ in x.cs]))
            if e:
                self.bad("component-item", ("C09",), "making the problem by components raised %s" % err(e))
                return "failed"
            for a, b in zip(params + cons, made[0] + made[1]):
                why = "no output" if b is None else same_item(a, b)
                if not why and a in params:
                    u, v = [[q.start_value(td), q.bound_low(td), q.bound_up(td)] for q in (a, b)]
                    why = le is None and u != v and "start and bounds %r, not %r" % (v, u)
                if why:
                    self.bad("component-item", ("C09",), "component for %r gave %r: %s" % (a, b, why))
                    return "bad"
            params, cons = made
            self.probe("remote.items")
        if bad == "badkey":
            params[0] = make_param(dict(x.ps[0][1], key=(9990, 9991) if isinstance(x.ps[0][1]["key"], tuple) else 9990))
        if bad == "noparam":
            params = []
        call_p, call_c = list(params), list(cons)
        if op.get("none") and op["how"] == "component":
            call_p.insert(0, None)
            call_c.append(None)
        net.faults = [dict(f) for f in op.get("faults", [])]
        net.start_faults = [dict(f) for f in op.get("start", [])]
        ctl = W.solver = seams.SolverCtl()
        ctl.eval_dt = op.get("dt", 0.0)
        ctl.aside_dt = ctl.eval_dt if self.prop == "C15" else 0.0
        ctl.fault = dict(op["fault"]) if op.get("fault") else None
        ctl.mask = op.get("mask")
        ctl.clock = {int(k): v for k, v in op.get("clock", {}).items()}
        was = net.running(7123)
        sticky = seams.STICKY.get("proxy_cem")
        fired0 = dict(W.fired)
        if op["how"] == "component":
            fn = lambda: seams.component("CompasCem_ConstrainedFormFinding").RunScript(
                True, s.d, call_c, call_p, args["algorithm"], args["iters"], args["eps"], args["kappa"], args["tmax"], args["eta"])
        else:
            from compas.rpc import Proxy

            def fn():
                c = self.clients.get(op["how"])
                if c is None:
                    c = self.clients[op["how"]] = Proxy("compas_cem.optimization", port=7123)
                return c.solve_proxy(topology=s.d, constraints=cons, parameters=params, algorithm=kw["algorithm"], iters=kw["iters"],
                                     eps=kw["eps"], kappa=kw["kappa"], tmax=kw["tmax"], eta=kw["eta"])
            if not was or op["how"] not in self.clients:
                if not was:
                    self.clients.clear()
        with quiet_unless(False):
            v, e = outcome_of(fn)
        ctl.fault, ctl.clock = None, {}
        W.rate = 1.0
        net.faults, net.start_faults = [], []
        got = {k: W.fired[k] - fired0.get(k, 0) for k in W.fired if W.fired[k] > fired0.get(k, 0)
               and not k.startswith("clock.")}
        hard = [k for k in got if k not in ("net.duplicate", "net.duplicate_late", "net.delay", "net.late_duplicate", "proc.slow_start")]
        # C14/C09: inputs untouched
        for obj, (_, spec, _) in list(zip(params, x.ps)) + list(zip(cons, x.cs)):
            if bad == "badkey" and obj is params[0]:
                continue
            why = changed_item(spec, obj)
            if why:
                self.bad("client-changed", ("C09", "C14") if op["how"] == "component" else ("C09",), "%r of the client changed: %s" % (obj, why))
        self.frame(read=[s], tags=("C09", "C14", "C04"))
        # C10: processes
        if net.running(1753):
            if not any(k.startswith("proc.") and k != "proc.slow_start" for k in got):
                self.bad("leak", ("C10",), "a server started for one request still runs (%s)" % (err(e) if e else "request succeeded"))
            for p in net.running(1753):
                p.alive = False
        crashed = any(k in ("net.crash_before", "net.crash_after", "net.server_crash_mid") for k in got)
        now = net.running(7123)
        if was and not crashed and was != now:
            self.bad("persistent-stopped", ("C10",), "the persistent server was stopped by a request")
        if op["how"] == "component" and not was and now:
            self.bad("leak", ("C10",), "a request left a server running on the persistent port")
        if op["how"] == "component" and seams.STICKY.get("proxy_cem") is not sticky:
            self.bad("sticky", ("C10",), "a request changed the registered server")
        # outcome
        if bad == "noparam" and op["how"] == "component":
            if v is not None:
                self.bad("noparam", ("C10",), "a request without parameters gave %r" % (v,))
            return "nothing"
        ends = ctl.outcomes
        must_fail = le is not None or bad in ("badkey", "noparam") or \
            bool(ends) and all(x not in (None, "RuntimeError", "RoundoffLimited") for x in ends)
        if any(k.startswith("solver.") for k in got):
            hard.append("solver")
        stale = op["how"] == "component" and sticky is not None and not was
        if e is not None:
            self.probe("remote.raised")
            if not hard and not must_fail and not stale and not (op["how"] != "component" and not was):
                self.bad("remote-failed", ("C09", "C10"), "a remote solve that succeeds in-process raised %s" % err(e))
            return "raised"
        if must_fail and "solver" in hard and "RuntimeError" in ends and isinstance(v, (list, tuple)) and len(v) == 7 and \
                v[2] is None and v[4] is None:
            self.probe("remote.breakdown")      # the injected breakdown came before what fails in-process
            return "breakdown"
        if must_fail:
            self.bad("fabricated", ("C10", "C09") if le is not None else ("C10",), "a request that cannot be solved returned %s" % (type(v).__name__))
            return "returned"
        if not isinstance(v, (list, tuple)) or len(v) != 7:
            self.bad("fabricated", ("C10", "C09"), "the answer is %r" % (type(v).__name__,))
            return "returned"
        self.probe("remote.ok")
        t2, f2, obj, gn, ev, dur, st = v
        remote, e2 = outcome_of(lambda: {"x": None, "penalty": M.num(obj), "evals": M.num(ev), "status": st, "gnorm": M.num(gn),
                                         "form": plain(M.observe(f2)), "topology": plain(M.observe(t2))})
        if e2:
            self.bad("remote-differs", ("C09", "C10"), "the answer cannot be read: %s" % err(e2))
            return "bad"
        local["x"] = None
        if "solver" in hard and "RuntimeError" in ends and obj is None and ev is None:
            self.probe("remote.breakdown")      # a breakdown that claims no results
            return "breakdown"
        why = M.diff_close(local, remote, 1e-9, 1e-9)
        if why:
            self.bad("remote-differs", ("C09",) + (("C10",) if hard else ()), "the answer differs from solving in-process: %s" % why)
            return "bad"
        span = [b - a for a, b in ctl.spans]
        odd = [k for k in got if k not in ("net.delay", "proc.slow_start")]
        if span and not odd and not any(ends) and (not isinstance(dur, (int, float)) or dur < 0 or abs(dur - span[-1]) > 1e-3):
            self.bad("time", ("C15",), "the reported duration is %r; the solver ran for %.6f s" % (dur, span[-1]))
        if span and not odd:
            self.probe("timed")
        # the answer as designs of their own
        t = Slot(t2, m.copy(), None)
        t.gone, t.sick = list(s.gone), s.sick
        self.keep(self.T, t)
        if self.after_opt(x, t, ("C11", "C09"), bounds) and self.check(t, ("C09", "C11")) and t in self.T:
            n = len(self.F)
            self.got_form(f2, t.m, kw["eta"], None, t, extra=("C09", "C11"))
        self.frame(touched=[t])
        return "ok"

    def do_recover(self, op):
        """Faults have ceased: the (re)started service answers."""
        net = seams.W.net
        net.faults, net.start_faults = [], []
        try:
            x = self.entry(op["opt"])
            if not x.ps or not x.cs:
                raise Skip("nothing registered")
            s = self.pick_topo(x, 1)
        except Skip:
            raise
        net.flush_delayed()
        if "proxy_cem" in seams.STICKY:
            n = len(self.viol)
            self.do_proxy({"what": "start"})
            if len(self.viol) > n:
                return "bad"
        self.probe("recovered")
        r = self.do_remote({"op": "remote", "opt": op["opt"], "slot": 1, "how": "component", "none": False, "defaults": False, "bad": None,
                            "alg": "SLSQP", "iters": op["iters"], "eps": 1e-6, "kappa": 1e-8, "tmax": 100, "eta": 1e-6,
                            "faults": [], "start": [], "dt": 0.0})
        return r


# ------------------------------------------------------------------------------
# helpers
# ------------------------------------------------------------------------------

def edge_attrs(e):
    if e["type"] == "trail":
        p = e.get("plane")
        return {"type": "trail", "length": e["length"], "plane": [[float(c) for c in q] for q in p] if p else None}
    return {"type": "deviation", "force": e["force"]}


def plane_obj(p, how):
    """A plane as users pass it: a compas object, a list or a tuple."""
    if not p:
        return None
    from compas.geometry import Plane
    p = [[float(c) for c in q] for q in p]
    if how % 3 == 0:
        return Plane(*p)
    if how % 3 == 1:
        return p
    return Plane(*p)


# directions that stay the same to the last bit however often they are normalised, as they are by every
# transfer of a plane; otherwise a convergence test next to its threshold could fall either way
NORMALS = [[0.0, 1.0, 0.0], [0.36, 0.48, 0.8], [0.72, 0.96, 1.6], [-0.48, 0.8, 0.36], [0.0, 1.2, -1.6], [0.6, 0.8, 0.0],
           [0.28, 0.96, 0.0], [0.24, 0.3, -0.32], [0.0, 0.0, 2.0]]

PARAM = {"trail": "TrailEdgeParameter", "dev": "DeviationEdgeParameter", "ox": "OriginNodeXParameter", "oy": "OriginNodeYParameter",
         "oz": "OriginNodeZParameter", "qx": "NodeLoadXParameter", "qy": "NodeLoadYParameter", "qz": "NodeLoadZParameter"}
CON = {"point": "PointConstraint", "line": "LineConstraint", "plane": "PlaneConstraint", "poly": "PolylineConstraint",
       "dir": "EdgeDirectionConstraint", "len": "DeviationEdgeLengthConstraint", "force": "TrailEdgeForceConstraint",
       "react": "ReactionForceConstraint"}


def make_param(p):
    import compas_cem.optimization as opt
    k = p["key"]
    return getattr(opt, PARAM[p["t"]])(tuple(k) if isinstance(k, (list, tuple)) else k, p["lo"], p["up"])


def target_obj(c):
    from compas.geometry import Point, Line, Plane, Polyline, Vector
    t, g = c["t"], c["target"]
    return {"point": lambda: Point(*g), "line": lambda: Line(*g), "plane": lambda: Plane(*g), "poly": lambda: Polyline(g),
            "dir": lambda: Vector(*g), "react": lambda: Vector(*g), "len": lambda: g, "force": lambda: g}[t]()


def make_con(c):
    import compas_cem.optimization as opt
    k = c["key"]
    return getattr(opt, CON[c["t"]])(tuple(k) if isinstance(k, (list, tuple)) else k, target_obj(c), c["w"])


PARAM_COMP = {"trail": "TrailEdge", "dev": "DeviationEdge", "ox": "NodeOriginX", "oy": "NodeOriginY", "oz": "NodeOriginZ",
              "qx": "NodeLoadX", "qy": "NodeLoadY", "qz": "NodeLoadZ"}
CON_COMP = {"point": "NodePoint", "line": "NodeLine", "plane": "NodePlane", "poly": "NodePolyline", "dir": "EdgeDirection",
            "len": "DeviationEdgeLength", "force": "TrailEdgeForce", "react": "ReactionForce"}


def via_component(spec):
    """The item as its Grasshopper component makes it."""
    if "lo" in spec:
        return seams.component("CompasCem_Parameter" + PARAM_COMP[spec["t"]]).RunScript(spec["key"], spec["lo"], spec["up"])
    if not spec["w"]:
        return make_con(spec)           # components take no weight for a weight of one
    w = None if spec["w"] == 1.0 else spec["w"]
    return seams.component("CompasCem_Constraint" + CON_COMP[spec["t"]]).RunScript(spec["key"], spec["target"], w)


def said(obj):
    """What a parameter or constraint says, through its public interface."""
    import compas
    r = [type(obj).__name__, repr(obj.key()), json.loads(compas.json_dumps(obj.data))]
    if hasattr(obj, "weight"):
        r.append(float(obj.weight))
    if hasattr(obj, "attr_name"):
        r.append(obj.attr_name())
    if hasattr(obj, "target"):
        for p in ([0.3, 0.7, -1.1], [-2.0, 0.1, 5.0]):
            t = obj.target(p)
            r.append([float(c) for c in t] if hasattr(t, "__len__") else float(t))
    return r


ATTR = {"trail": "length", "dev": "force", "ox": "x", "oy": "y", "oz": "z", "qx": "qx", "qy": "qy", "qz": "qz"}


def changed_item(spec, obj):
    """Does a parameter or constraint object still say what its spec says?"""
    a, b = said(obj), said(make_param(spec) if "lo" in spec else make_con(spec))
    if a != b:
        return "%r, not %r" % (a, b)
    if obj.key() != spec["key"]:
        return "key %r" % (obj.key(),)
    if "lo" in spec and obj.attr_name() != ATTR[spec["t"]]:
        return "attribute %r" % obj.attr_name()
    return None


def same_item(x, y):
    a, b = said(x), said(y)
    return M.diff_close(a, b, 1e-14, 1e-15) and "%r, not %r" % (b, a)


def plain(o):
    """An observation without what legitimately differs between equal designs."""
    o = dict(o)
    o.pop("gkeys", None)
    return o


def digest(o):
    import hashlib
    return hashlib.sha1(repr(order(o)).encode()).hexdigest()[:16]


def order(o):
    if isinstance(o, dict):
        return sorted(((repr(k), order(v)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return [order(v) for v in o]
    return o


class quiet_unless(object):
    """Swallow prints (not in concurrent runs, where the runner already redirects stdout)."""

    def __init__(self, conc):
        self.conc = conc

    def __enter__(self):
        if not self.conc:
            import io
            self.out = sys.stdout
            sys.stdout = io.StringIO()

    def __exit__(self, *a):
        if not self.conc:
            sys.stdout = self.out
        return False
