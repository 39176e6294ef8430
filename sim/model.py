"""Reference model of a topology diagram, observation of real diagrams, and oracles.

Nothing in this file calls the code under test except ``observe`` and ``build_fresh``,
which use only its public interface.
"""
import copy
import itertools
import math
import random

TOL_DECIMALS = {"2f": 2, "3f": 3, "4f": 4, "6f": 6}


# ------------------------------------------------------------------------------
# vectors
# ------------------------------------------------------------------------------

def sub(a, b):
    return [a[0] - b[0], a[1] - b[1], a[2] - b[2]]


def add(a, b):
    return [a[0] + b[0], a[1] + b[1], a[2] + b[2]]


def mul(a, s):
    return [a[0] * s, a[1] * s, a[2] * s]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def norm(a):
    return math.sqrt(dot(a, a))


def dist(a, b):
    return norm(sub(a, b))


# ------------------------------------------------------------------------------
# model
# ------------------------------------------------------------------------------

class Topo(object):
    """What the accepted edits describe."""

    def __init__(self, tol="3f"):
        self.tol = tol
        self.nodes = {}         # key -> xyz
        self.edges = {}         # (u, v) -> {"type", "length"|"force", "plane"}
        self.loads = {}         # key -> vector
        self.supports = set()
        self.max_key = -1
        self.taint = set()      # cells that were ever shared
        self.built = False
        self.trails = {}
        self.seq = {}
        self.aux = {}
        self.aux_length = -1.0
        self.aux_vector = [1.0, 1.0, 1.0]
        self.stale_k = False    # sequences were assigned at some time

    def copy(self):
        return copy.deepcopy(self)

    # -- cells
    def cell(self, xyz):
        s = 10.0 ** TOL_DECIMALS[self.tol]
        return tuple(int(math.floor(c * s + 0.5)) for c in xyz)

    def tie(self, xyz):
        """Half-way between two cells: which one it belongs to is up to floating-point."""
        s = 10.0 ** TOL_DECIMALS[self.tol]
        return any(abs(c * s - math.floor(c * s) - 0.5) < 1e-6 for c in xyz)

    def at(self, xyz):
        c = self.cell(xyz)
        return [k for k, p in self.nodes.items() if self.cell(p) == c]

    # -- edits
    def put_node(self, key, xyz):
        xyz = [float(c) for c in xyz]
        if key is None:
            key = self.max_key + 1
        others = [k for k in self.at(xyz) if k != key]
        if others:
            self.taint.add(self.cell(xyz))
        fresh = key not in self.nodes
        self.nodes[key] = xyz
        self.max_key = max(self.max_key, key)
        if fresh:
            self.built = False
        return key

    def del_node(self, key):
        del self.nodes[key]
        for e in [e for e in self.edges if key in e]:
            del self.edges[e]
        self.loads.pop(key, None)
        self.supports.discard(key)
        self.seq.pop(key, None)
        self.built = False

    def put_edge(self, u, v, attrs):
        if (u, v) in self.edges:
            old = self.edges[(u, v)]
            if old["type"] != attrs["type"]:
                self.built = False
            old.update(attrs)
        else:
            self.edges[(u, v)] = dict(attrs)
            self.built = False

    def del_edge(self, u, v):
        del self.edges[(u, v)]
        self.built = False

    def edge_of(self, u, v):
        if (u, v) in self.edges:
            return (u, v)
        if (v, u) in self.edges:
            return (v, u)
        return None

    def of_type(self, t):
        return [e for e, a in self.edges.items() if a["type"] == t]

    # -- trails
    def find_trails(self):
        """("ok", trails) | ("incomplete", unassigned, lone supports) | ("ill", None)."""
        adj = {k: [] for k in self.nodes}
        for (u, v), a in self.edges.items():
            if a["type"] == "trail":
                adj[u].append(v)
                adj[v].append(u)
        if any(len(set(n)) > 2 or len(n) != len(set(n)) for n in adj.values()):
            return "ill", None, None
        trails = {}
        seen = set()
        lone = set()
        for s in self.supports:
            if len(adj[s]) > 1:
                return "ill", None, None
            if not adj[s]:
                lone.add(s)
                continue
            path = [s]
            prev = None
            while True:
                nxt = [n for n in adj[path[-1]] if n != prev]
                if not nxt:
                    break
                prev = path[-1]
                path.append(nxt[0])
            if path[-1] in self.supports:
                return "ill", None, None
            path.reverse()
            trails[path[0]] = tuple(path)
            seen.update(path)
        unassigned = set(self.nodes) - seen
        if unassigned or not trails:
            return "incomplete", unassigned, lone
        return "ok", trails, lone

    def set_trails(self, trails):
        self.trails = dict(trails)
        self.seq = {}
        for t in trails.values():
            for i, n in enumerate(t):
                self.seq[n] = i
        self.built = True

    def shift(self, key, k):
        for i, n in enumerate(self.trails[key]):
            self.seq[n] = k + i

    def direct(self, e):
        return self.seq[e[0]] == self.seq[e[1]]


# ------------------------------------------------------------------------------
# observation
# ------------------------------------------------------------------------------

def num(x):
    """Normalise a number; anything that is not a number becomes a marker string."""
    if x is None or isinstance(x, str):
        return x
    try:
        f = float(x)
    except Exception:
        return "<%s>" % type(x).__name__
    if f != f:
        return "nan"
    return f


def vec(v):
    if v is None:
        return None
    try:
        return [num(c) for c in v]
    except TypeError:
        return "<%s>" % type(v).__name__


def plane_of(p):
    if not p:
        return None
    try:
        return [vec(list(q)) for q in p]
    except Exception:
        return "<%s>" % type(p).__name__


def observe_nodes_edges(d):
    nodes = {}
    for n in d.nodes():
        nodes[n] = {"xyz": vec(d.node_coordinates(n)),
                    "load": vec(d.node_load(n)),
                    "reaction": vec(d.reaction_force(n)),
                    "support": bool(d.is_node_support(n)),
                    "loaded": bool(d.is_node_loaded(n)),
                    "get": vec(d.node_xyz(n))}
        if hasattr(d, "node_sequence"):
            nodes[n]["origin"] = bool(d.is_node_origin(n))
            try:
                nodes[n]["k"] = num(d.node_sequence(n))
            except ValueError:
                nodes[n]["k"] = None
    edges = {}
    for e in d.edges():
        edges[tuple(e)] = {"type": d.edge_attribute(e, "type"),
                           "length": num(d.edge_attribute(e, "length")),
                           "force": num(d.edge_attribute(e, "force")),
                           "plane": plane_of(d.edge_attribute(e, "plane")),
                           "at_support": bool(d.is_edge_supported(e))}
    return nodes, edges


def raw(d):
    """What a diagram would save."""
    return repr(d.data)


def observe(d):
    """Everything a user can see of a diagram, through its public queries."""
    nodes, edges = observe_nodes_edges(d)
    o = {"cls": type(d).__name__, "name": d.name, "tol": d.tol, "nodes": nodes, "edges": edges,
         "supports": sorted(d.support_nodes()),
         "loaded": sorted(d.loaded_nodes()),
         "n_nodes": d.number_of_nodes(), "n_edges": d.number_of_edges(),
         "n_supports": d.number_of_support_nodes(), "n_loaded": d.number_of_loaded_nodes(),
         "gkeys": dict(sorted(d.gkey_node.items())),
         "attrs": {k: repr(v) for k, v in d.attributes.items() if not k.startswith("_") and k not in ("gkey_node", "tol", "name")},
         "adj": {n: sorted(d.neighbors(n)) for n in nodes}}
    if hasattr(d, "trails"):
        o["trails"] = {_k(k): [_k(n) for n in t] for k, t in d.trails(keys=True)}
        o["trail_values"] = sorted([_k(n) for n in t] for t in d.trails())
        o["aux"] = {_k(k): [_k(n) for n in t] for k, t in d.auxiliary_trails(keys=True)}
        o["origins"] = sorted(d.origin_nodes())
        o["trail_edges"] = sorted(d.trail_edges())
        o["deviation_edges"] = sorted(d.deviation_edges())
        o["aux_edges"] = sorted(d.auxiliary_trail_edges())
        o["aux_length"] = num(d.auxiliary_trail_length)
        o["aux_vector"] = vec(d.auxiliary_trail_vector)
        o["counts"] = [d.number_of_trails(), d.number_of_auxiliary_trails(),
                       d.number_of_trail_edges(), d.number_of_deviation_edges()]
        o["has_trails"] = bool(d.has_trails())
        o["at_node"] = {n: [sorted(d.connected_trail_edges(n)), sorted(d.connected_deviation_edges(n))] for n in nodes}
        try:
            o["direct"] = sorted(d.direct_deviation_edges())
            o["indirect"] = sorted(d.indirect_deviation_edges())
            o["counts2"] = [d.number_of_direct_deviation_edges(), d.number_of_indirect_deviation_edges()]
        except ValueError:
            o["direct"] = o["indirect"] = "unassigned"
        try:
            o["sequences"] = {k: sorted(s) for k, s in d.sequences(keys=True)}
            o["sequence_values"] = [sorted(s) for s in d.sequences()]
            o["sequence_last"] = num(d.sequence_last())
            o["n_sequences"] = num(d.number_of_sequences())
        except (ValueError, TypeError):
            o["sequences"] = "unassigned"
        try:
            o["trail_get"] = {n: [_k(x) for x in d.trail(n)] for n in o["trails"]}
            o["trails_sequences"] = {_k(k): {num(a): _k(b) for a, b in m.items()}
                                     for k, m in d.trails_sequences().items()}
        except (KeyError, ValueError) as e:
            o["trail_get"] = type(e).__name__
    return o


def _k(x):
    return x


def diff(a, b, path=""):
    """First difference between two observations, or None. Exact."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b:
                return "%s: %r disappeared" % (path, k)
        for k in b:
            if k not in a:
                return "%s: %r appeared" % (path, k)
        for k in a:
            r = diff(a[k], b[k], "%s/%s" % (path, k))
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s: %r became %r" % (path, a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, "%s[%d]" % (path, i))
            if r:
                return r
        return None
    if a != b:
        return "%s: %r became %r" % (path, a, b)
    return None


def close(a, b, rel=1e-9, abs_=1e-9):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a == b
    return a == b or abs(a - b) <= abs_ + rel * max(abs(a), abs(b))


def diff_close(a, b, rel, abs_, path=""):
    """As diff, with a tolerance on numbers."""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(map(repr, a)) != set(map(repr, b)):
            return "%s: keys %r vs %r" % (path, list(a), list(b))
        for k in a:
            r = diff_close(a[k], b[k], rel, abs_, "%s/%s" % (path, k))
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s: %r vs %r" % (path, a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff_close(x, y, rel, abs_, "%s[%d]" % (path, i))
            if r:
                return r
        return None
    if isinstance(a, float) or isinstance(b, float):
        return None if close(a, b, rel, abs_) else "%s: %r vs %r" % (path, a, b)
    return None if a == b else "%s: %r vs %r" % (path, a, b)


# ------------------------------------------------------------------------------
# oracle: the diagram is what the edits describe (C07), with its trails (C06)
# ------------------------------------------------------------------------------

def same_plane(a, b):
    """The same plane, whatever the length of its normal."""
    if not a or not b or isinstance(a, str) or isinstance(b, str):
        return a == b
    if a[0] != b[0] or len(b) != 2:
        return False
    na, nb = norm(a[1]), norm(b[1])
    if not na or not nb:
        return a[1] == b[1]
    return dist(mul(a[1], 1 / na), mul(b[1], 1 / nb)) < 1e-12


def check_edits(m, o):
    """Compare structure, attributes, loads and supports with the model. Returns message or None."""
    if set(m.nodes) != set(o["nodes"]):
        return "nodes: model %r, diagram %r" % (sorted(m.nodes), sorted(o["nodes"]))
    if set(m.edges) != set(o["edges"]):
        return "edges: model %r, diagram %r" % (sorted(m.edges), sorted(o["edges"]))
    for n, xyz in m.nodes.items():
        if o["nodes"][n]["xyz"] != xyz:
            return "node %r is at %r, not at %r" % (n, o["nodes"][n]["xyz"], xyz)
        q = m.loads.get(n, [0.0, 0.0, 0.0])
        if o["nodes"][n]["load"] != q:
            return "node %r carries load %r, not %r" % (n, o["nodes"][n]["load"], q)
    for e, a in m.edges.items():
        b = o["edges"][e]
        if a["type"] != b["type"]:
            return "edge %r is a %r edge, not %r" % (e, b["type"], a["type"])
        name = "length" if a["type"] == "trail" else "force"
        if a[name] != b[name]:
            return "edge %r has %s %r, not %r" % (e, name, b[name], a[name])
        if a["type"] == "trail" and not same_plane(a.get("plane"), b["plane"]):
            return "edge %r has plane %r, not %r" % (e, b["plane"], a.get("plane"))
    if sorted(m.supports) != o["supports"]:
        return "supports: model %r, diagram %r" % (sorted(m.supports), o["supports"])
    loaded = sorted(n for n, q in m.loads.items() if norm(q) > 1e-6)
    if loaded != o["loaded"]:
        return "loaded nodes: model %r, diagram %r" % (loaded, o["loaded"])
    if (o["n_nodes"], o["n_edges"], o["n_supports"], o["n_loaded"]) != \
            (len(m.nodes), len(m.edges), len(m.supports), len(loaded)):
        return "counters disagree with the collections"
    if "trail_edges" in o:
        if o["trail_edges"] != sorted(m.of_type("trail")) or o["deviation_edges"] != sorted(m.of_type("deviation")):
            return "trail/deviation edge collections disagree with the edges"
    for n in m.nodes:
        adj = sorted({v if u == n else u for u, v in m.edges if n in (u, v)})
        if o["adj"][n] != adj:
            return "node %r has neighbours %r, not %r" % (n, o["adj"][n], adj)
    return None


def check_lookup(m, d, extra=()):
    """Position look-up on the real diagram."""
    for n, xyz in m.nodes.items():
        if m.tie(xyz):
            continue
        cell = m.cell(xyz)
        found = d.node_key(xyz)
        if cell in m.taint:
            if found is not None and found not in m.at(xyz):
                return "position %r of node %r finds node %r" % (xyz, n, found)
            continue
        if found != n:
            return "position %r of node %r finds %r" % (xyz, n, found)
        if not d.node_exists(xyz):
            return "node_exists(%r) is false for node %r" % (xyz, n)
    for xyz in extra:
        if m.tie(xyz):
            continue
        here = m.at(xyz)
        found = d.node_key(xyz)
        if not here and found is not None:
            return "position %r holds no node but finds %r" % (xyz, found)
        if not here and d.node_exists(xyz):
            return "node_exists(%r) is true where no node is" % (xyz,)
    return None


def check_trails(m, o):
    """Trails, sequences, origins and direct/indirect edges of a built model."""
    trails = {k: list(t) for k, t in m.trails.items()}
    if o["trails"] != trails:
        return "trails are %r, not %r" % (o["trails"], trails)
    if o["trail_values"] != sorted(trails.values()):
        return "trails() yields %r" % (o["trail_values"],)
    if o["trail_get"] != trails:
        return "trail(key) gives %r, not %r" % (o["trail_get"], trails)
    if o["origins"] != sorted(trails):
        return "origin nodes are %r, not %r" % (o["origins"], sorted(trails))
    if o["supports"] != sorted(t[-1] for t in trails.values()):
        return "supports are %r" % (o["supports"],)
    for n in m.nodes:
        if o["nodes"][n]["origin"] != (n in trails) or o["nodes"][n]["support"] != (n in m.supports):
            return "node %r is reported as origin: %r, support: %r" % (n, o["nodes"][n]["origin"], o["nodes"][n]["support"])
        if o["nodes"][n]["k"] != m.seq[n]:
            return "node %r is in sequence %r, not %r" % (n, o["nodes"][n]["k"], m.seq[n])
    last = max(m.seq.values())
    seqs = {k: sorted(n for n in m.nodes if m.seq[n] == k) for k in range(last + 1)}
    if o["sequences"] != seqs:
        return "sequences are %r, not %r" % (o["sequences"], seqs)
    if o["sequence_values"] != [seqs[k] for k in range(last + 1)] or o["sequence_last"] != last or \
            o["n_sequences"] != last + 1:
        return "sequence queries disagree"
    if o["trails_sequences"] != {k: {float(m.seq[n]): n for n in t} for k, t in trails.items()}:
        return "trails_sequences is %r" % (o["trails_sequences"],)
    dev = m.of_type("deviation")
    if o["direct"] != sorted(e for e in dev if m.direct(e)) or o["indirect"] != sorted(e for e in dev if not m.direct(e)):
        return "direct/indirect deviation edges are %r / %r" % (o["direct"], o["indirect"])
    if o["counts2"] != [len(o["direct"]), len(o["indirect"])]:
        return "deviation edge counters disagree"
    if o["counts"] != [len(trails), len(o["aux"]), len(m.of_type("trail")), len(dev)] or not o["has_trails"]:
        return "counters are %r" % (o["counts"],)
    return check_aux(m, o)


def check_aux(m, o):
    aux = {k: list(e) for k, e in m.aux.items() if tuple(e) in m.edges}
    got = {k: list(e) for k, e in o["aux"].items() if tuple(e) in m.edges}
    if got != aux:
        return "auxiliary trails are %r, not %r" % (got, aux)
    if o["aux_edges"] != sorted(tuple(e) for e in aux.values()):
        return "auxiliary trail edges are %r, not %r" % (o["aux_edges"], sorted(aux.values()))
    return None


# ------------------------------------------------------------------------------
# oracle: equilibrium (C01) and design data (C02)
# ------------------------------------------------------------------------------

def check_balance(m, o, eta, klast=None):
    """Static equilibrium of every solved node of a form observation."""
    nodes, edges = o["nodes"], o["edges"]
    for n, a in nodes.items():
        for v in list(a["xyz"]) + list(a["reaction"]) + list(a["load"]):
            if not isinstance(v, float) or v in (float("inf"), float("-inf")):
                return "node %r has a value that is not a finite number: %r" % (n, a)
    inc = {n: [] for n in nodes}
    for (u, v), a in edges.items():
        f, L = a["force"], a["length"]
        if not isinstance(f, float) or not isinstance(L, float):
            return "edge %r has force %r and length %r" % ((u, v), f, L)
        d = dist(nodes[u]["xyz"], nodes[v]["xyz"])
        if abs(abs(L) - d) > 1e-9 * (1.0 + d):
            return "edge %r reports length %r but its nodes are %r apart" % ((u, v), L, d)
        if f and L and (f > 0) != (L > 0):
            return "edge %r reports length %r but carries force %r" % ((u, v), L, f)
        inc[u].append((v, f, d))
        inc[v].append((u, f, d))
    last = max(m.seq.values())
    if klast is None or klast > last:
        klast = last
    for n, a in nodes.items():
        k = m.seq[n]
        if k > klast:
            if a["reaction"] != [0.0, 0.0, 0.0]:
                return "node %r past the last solved sequence has reaction %r" % (n, a["reaction"])
            if a["xyz"] != m.nodes[n]:
                return "node %r past the last solved sequence moved to %r" % (n, a["xyz"])
            continue
        r = add(a["load"], a["reaction"])
        mag = norm(a["load"]) + norm(a["reaction"])
        slack = 0.0
        for other, f, d in inc[n]:
            mag += abs(f)
            if d > 1e-12:
                r = add(r, mul(sub(nodes[other]["xyz"], a["xyz"]), f / d))
                slack += abs(f) / d
            else:
                slack += abs(f) / max(eta, 1e-12)
        tol = 1e-9 * (1.0 + mag) + 4.0 * eta * slack
        if norm(r) > tol:
            return "node %r is out of balance by %.3g (tolerance %.3g)" % (n, norm(r), tol)
        free = n not in m.supports and k != klast if klast < last else n not in m.supports
        if free and a["reaction"] != [0.0, 0.0, 0.0]:
            return "node %r is no support but has reaction %r" % (n, a["reaction"])
    return None


def check_design(m, o, eta, klast=None):
    """The form realises the model's data. Returns message or None."""
    nodes, edges = o["nodes"], o["edges"]
    if set(nodes) != set(m.nodes):
        return "form nodes %r, topology nodes %r" % (sorted(nodes), sorted(m.nodes))
    if set(edges) != set(m.edges):
        return "form edges %r, topology edges %r" % (sorted(edges), sorted(m.edges))
    if o["supports"] != sorted(m.supports):
        return "form supports %r, topology supports %r" % (o["supports"], sorted(m.supports))
    for n in m.nodes:
        q = m.loads.get(n, [0.0, 0.0, 0.0])
        if nodes[n]["load"] != q:
            return "node %r carries load %r, prescribed %r" % (n, nodes[n]["load"], q)
    for n in m.trails:
        if nodes[n]["xyz"] != m.nodes[n]:
            return "origin node %r moved to %r from %r" % (n, nodes[n]["xyz"], m.nodes[n])
    last = max(m.seq.values())
    if klast is None or klast > last:
        klast = last
    for e, a in m.edges.items():
        b = edges[e]
        if a["type"] != b["type"]:
            return "edge %r is a %r edge" % (e, b["type"])
        if a["type"] == "deviation":
            if b["force"] != a["force"]:
                return "deviation edge %r carries %r, prescribed %r" % (e, b["force"], a["force"])
            continue
        u, v = e
        if m.seq[u] > m.seq[v]:
            u, v = v, u
        if m.seq[u] >= klast:
            continue
        d = dist(nodes[u]["xyz"], nodes[v]["xyz"])
        f = b["force"]
        if abs(f) < 1e-7:
            continue            # no direction to follow
        L = a["length"]
        ok_len = abs(d - abs(L)) <= 1e-9 * (1.0 + abs(L)) and (L == 0 or (f > 0) == (L > 0))
        plane = a.get("plane")
        if plane:
            po, pn = plane
            off = dot(pn, sub(nodes[v]["xyz"], po))
            if abs(off) <= 1e-7 * (1.0 + norm(nodes[v]["xyz"]) + norm(po)) * (1.0 + norm(pn)):
                continue
            cosn = dot(pn, mul(sub(nodes[v]["xyz"], nodes[u]["xyz"]), 1.0 / d)) if d > 1e-12 else 0.0
            here = dot(pn, sub(nodes[u]["xyz"], po))
            if ok_len and (abs(cosn) < 1e-5 or abs(here) < 1e-7):
                continue        # the plane cannot be reached: the length holds instead
            return "trail edge %r ends %.3g off its plane" % (e, off)
        if not ok_len:
            return "trail edge %r has length %.9g and force %.3g, prescribed length %.9g" % (e, d, f, L)
    return None


# ------------------------------------------------------------------------------
# reference form finding (only for: must it converge, and in how many sweeps?)
# ------------------------------------------------------------------------------

class RefRun(object):
    pass


def not_numbers(o):
    """Something in the numeric state of an observed form that is not a finite number, or None."""
    for n, a in o["nodes"].items():
        for k in ("xyz", "load", "reaction"):
            v = a.get(k)
            if v is not None and any(not isinstance(c, (int, float)) or c != c or abs(c) == math.inf for c in v):
                return "%s %r at node %r" % (k, v, n)
    for e, a in o["edges"].items():
        for k in ("force", "length"):
            c = a.get(k)
            if not isinstance(c, (int, float)) or c != c or abs(c) == math.inf:
                return "%s %r at edge %r" % (k, c, e)
    return None


def ref_run(m, kmax, tmax, order):
    """Movement per sweep (sum and root-sum-of-squares) of a plain re-implementation."""
    last = max(m.seq.values())
    klast = last if kmax is None else min(last, kmax)
    pos = {n: list(p) for n, p in m.nodes.items()}
    res = {n: [0.0, 0.0, 0.0] for n in m.nodes}
    at = {k: {m.seq[n]: (n, t[i + 1] if i + 1 < len(t) else None)
              for i, n in enumerate(t)} for k, t in m.trails.items()}
    devs = {n: [] for n in m.nodes}
    for e, a in m.edges.items():
        if a["type"] == "deviation":
            d = m.direct(e)
            devs[e[0]].append((e[1], a["force"], d))
            devs[e[1]].append((e[0], a["force"], d))
    out = RefRun()
    out.sum, out.fro = [], []
    out.degenerate = None
    out.edges_per_sweep = 0
    for t in range(tmax):
        old = dict(pos)
        cnt = 0
        for k in range(klast + 1):
            for key in order:
                if k not in at[key]:
                    continue
                n, nxt = at[key][k]
                r = sub(res[n], m.loads.get(n, [0.0, 0.0, 0.0]))
                for other, f, direct in devs[n]:
                    if not direct and t == 0:
                        continue
                    v = sub(pos[other], pos[n])
                    L = norm(v)
                    if L < 1e-9:
                        out.degenerate = "dev"
                        continue
                    r = sub(r, mul(v, f / L))
                if nxt is None or n in m.supports or k == kmax:
                    continue
                e = m.edge_of(n, nxt)
                a = m.edges[e]
                R = norm(r)
                if R < 1e-7:
                    out.degenerate = out.degenerate or "other"
                    u = [0.0, 0.0, 0.0] if R == 0 else mul(r, 1.0 / R)
                else:
                    u = mul(r, 1.0 / R)
                length = a["length"]
                if a.get("plane"):
                    po, pn = a["plane"]
                    c = dot(pn, u)
                    if abs(c) < 1e-4:
                        out.degenerate = out.degenerate or "other"
                    else:
                        pl = dot(pn, sub(po, pos[n])) / c
                        if abs(pl) < 1e-9:
                            out.degenerate = out.degenerate or "other"
                        else:
                            length = pl
                pos[nxt] = add(pos[n], mul(u, length))
                res[nxt] = r
                cnt += 1
        out.edges_per_sweep = cnt
        if t:
            ds = [dist(old[n], pos[n]) for n in pos]
            if any(d != d or d > 1e12 for d in ds):
                out.degenerate = out.degenerate or "other"
                break
            out.sum.append(sum(ds))
            out.fro.append(math.sqrt(sum(d * d for d in ds)))
            if out.sum[-1] < 1e-14 and t > 3:
                break
    out.pos = pos
    return out


def ref_verdict(m, route, kmax, tmax, eta):
    """("ok"|"raise"|"any", smallest and largest number of sweeps, trail edges per sweep).

    The order in which trails are visited within a sequence is left open by the method; it
    matters for structures with indirect deviation edges, where only clear-cut verdicts count.
    """
    base = list(m.trails)
    orders = [base, base[::-1]]
    if len(base) > 2:
        orders += [sorted(base), base[1:] + base[:1], base[::2] + base[1::2]]
    if len(base) > 2 and any(not m.direct(e) for e in m.of_type("deviation")):
        more = list(itertools.permutations(sorted(base))) if len(base) < 5 else []
        if not more:
            rng = random.Random(len(base))
            more = [rng.sample(sorted(base), len(base)) for _ in range(30)]
        orders += [list(o) for o in more]
    verdicts, series = [], []
    for order in orders:
        r = ref_run(m, kmax, tmax, order)
        if r.degenerate:
            return "any", None, None, r.edges_per_sweep, r.degenerate
        seq = r.sum if route != "numpy" else r.fro
        if len(series) == 5 and all(abs(x - y) <= 1e-9 + 1e-9 * abs(x) for b in series[1:] + [seq] for x, y in zip(series[0], b)):
            break                       # the order does not matter
        series.append(seq)
        hi = eta * (1 + 1e-3) + 1e-12
        lo = eta * (1 - 1e-3) - 1e-12
        t1 = next((i for i, d in enumerate(seq) if d < hi), None)
        t2 = next((i for i, d in enumerate(seq) if d < lo), None)
        if t1 is None:
            if len(seq) < tmax - 1:
                return "any", None, None, r.edges_per_sweep, None
            verdicts.append(("raise", min(seq) if seq else None))
        elif t2 is None:
            return "any", None, None, r.edges_per_sweep, None
        else:
            verdicts.append(("ok", t1 + 2, t2 + 2))
        if len({v[0] for v in verdicts}) > 1:
            break
    n = r.edges_per_sweep
    any_ = ("any", None, None, n, None)
    if len({v[0] for v in verdicts}) > 1:
        return any_
    a = series[0]
    spread = any(abs(x - y) > 1e-9 + 1e-9 * abs(x) for b in series[1:] for x, y in zip(a, b))
    if verdicts[0][0] == "raise":
        if spread and any(v[1] is not None and v[1] < 10 * eta for v in verdicts):
            return any_
        return "raise", None, None, n, None
    lo, hi = min(v[1] for v in verdicts), max(v[2] for v in verdicts)
    if spread:
        lo, hi = max(2, lo - 3), hi + 3
        if len(base) > 4:
            lo, hi = max(2, lo // 2), hi * 2
        if hi > tmax:
            return any_
    return "ok", lo, hi, n, None


# ------------------------------------------------------------------------------
# oracle: penalties of constraints on a form observation (C11)
# ------------------------------------------------------------------------------

def penalty(c, o):
    """Independent weighted squared violation of one resolved constraint spec."""
    t, key, target, w = c["t"], c["key"], c["target"], c["w"]
    nodes, edges = o["nodes"], o["edges"]
    if t == "point":
        p = nodes[key]["xyz"]
        return w * dist(p, target) ** 2
    if t == "line":
        p = nodes[key]["xyz"]
        a, b = target
        ab = sub(b, a)
        s = dot(sub(p, a), ab) / dot(ab, ab)
        return w * dist(p, add(a, mul(ab, s))) ** 2
    if t == "plane":
        p = nodes[key]["xyz"]
        po, pn = target
        h = dot(sub(p, po), pn) / norm(pn)
        return w * h * h
    if t == "poly":
        p = nodes[key]["xyz"]
        best = None
        for a, b in zip(target, target[1:]):
            ab = sub(b, a)
            s = min(1.0, max(0.0, dot(sub(p, a), ab) / dot(ab, ab)))
            d = dist(p, add(a, mul(ab, s)))
            best = d if best is None else min(best, d)
        return w * best * best
    if t == "dir":
        u, v = key
        e = sub(nodes[v]["xyz"], nodes[u]["xyz"])
        e = mul(e, 1.0 / norm(e))
        d = mul(target, 1.0 / norm(target))
        if dot(d, e) < 0:
            d = mul(d, -1.0)
        return w * dist(d, e) ** 2
    if t == "len":
        u, v = key
        return w * (dist(nodes[u]["xyz"], nodes[v]["xyz"]) - target) ** 2
    if t == "force":
        return w * (edges[tuple(key)]["force"] - target) ** 2
    if t == "react":
        return w * dist(nodes[key]["reaction"], target) ** 2
    raise KeyError(t)
