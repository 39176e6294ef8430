"""Seams: everything nondeterministic or faulty that compas_cem can reach.

All patches are applied to the *dependencies* (time, uuid, nlopt, open, xmlrpc,
Popen, Grasshopper modules) before compas_cem is imported, so the code in /repo
runs unmodified.
"""
import builtins
import contextlib
import errno
import functools
import io
import math
import os
import random
import sys
import time as _time
import types
import uuid as _uuid

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG = os.path.join(SRC, "compas_cem") + os.sep

# real functions kept for the harness itself
REAL = types.SimpleNamespace(
    time=_time.time, monotonic=_time.monotonic, perf_counter=_time.perf_counter,
    sleep=_time.sleep, open=builtins.open)


class SimCrash(BaseException):
    """The simulated process dies here (power cut, kill -9)."""


class Interrupt(KeyboardInterrupt):
    """Injected Ctrl-C."""


class AllocFail(MemoryError):
    """Injected failing allocation."""


# ------------------------------------------------------------------------------
# World: the per-run simulator state. One instance per forked child.
# ------------------------------------------------------------------------------

class World(object):
    def __init__(self):
        self.reset()

    def reset(self):
        self.wall = 1.6e9
        self.mono = 1000.0
        self.rate = 1.0             # slew of the wall clock against true time
        self.uuid = 0
        self.fired = {}             # fault kind -> count
        self.events = []            # event log (strings)
        self.solvers = {None: SolverCtl()}
        self.disk = Disk()
        self.net = None             # set by sim.net
        self.clock_plan = None      # list of [after_eval, wall_delta, rate]
        self.sim_start = self.mono

    # the solver controls belong to the running caller
    @property
    def solver(self):
        t = caller()
        if t not in self.solvers:
            self.solvers[t] = SolverCtl()
        return self.solvers[t]

    @solver.setter
    def solver(self, ctl):
        self.solvers[caller()] = ctl

    def log(self, *parts):
        self.events.append(" ".join(str(p) for p in parts))

    def fire(self, kind, n=1):
        self.fired[kind] = self.fired.get(kind, 0) + n

    # -- clock
    def advance(self, dt):
        self.mono += dt
        self.wall += dt * self.rate

    def jump(self, dt):
        self.wall += dt


class SolverCtl(object):
    """What the shim around the compiled solver does in the current solve."""

    def __init__(self):
        self.eval_dt = 0.0
        self.fault = None           # {"kind":..., "at": k, "when": "pre"|"post"}
        self.clock = {}             # eval index -> [(kind, value)]
        self.evals = 0
        self.spans = []             # (mono at entry, mono at exit) per optimize()
        self.raised = None          # what the solver raised, if anything
        self.outcomes = []          # the same, per optimize()
        self.mask = None            # how a failed evaluation is reported: None, "forced", "failure"
        self.hook = None            # called at each evaluation (scheduling)
        self.inside = 0             # solver calls under way
        self.aside_dt = 0.0         # what a copy or an evaluation outside of the solver takes


W = None  # the World


def caller():
    """The simulated caller that is running, None outside concurrent runs."""
    from . import trace
    return trace.ACTIVE.cur if trace.ACTIVE is not None else None


# ------------------------------------------------------------------------------
# clock
# ------------------------------------------------------------------------------

def _install_clock():
    def time():
        W.advance(1e-7)
        return W.wall

    def monotonic():
        W.advance(1e-7)
        return W.mono

    def sleep(dt):
        W.advance(max(dt, 0.0))
        if W.net is not None:
            W.net.on_time()

    _time.time = time
    _time.monotonic = monotonic
    _time.perf_counter = monotonic
    _time.time_ns = lambda: int(time() * 1e9)
    _time.monotonic_ns = lambda: int(monotonic() * 1e9)
    _time.perf_counter_ns = lambda: int(monotonic() * 1e9)
    _time.sleep = sleep

    # CPU clocks run slower than true time: the process does not have a core to itself
    def cpu():
        W.advance(1e-7)
        return 0.25 * (W.mono - 900.0)

    def clock_gettime(clk):
        if clk == _time.CLOCK_REALTIME:
            return time()
        if clk in (_time.CLOCK_PROCESS_CPUTIME_ID, _time.CLOCK_THREAD_CPUTIME_ID):
            return cpu()
        return monotonic()

    _time.process_time = _time.thread_time = cpu
    _time.process_time_ns = _time.thread_time_ns = lambda: int(cpu() * 1e9)
    _time.clock_gettime = clock_gettime
    _time.clock_gettime_ns = lambda clk: int(clock_gettime(clk) * 1e9)
    import timeit
    timeit.default_timer = monotonic

    import datetime as _dt
    real = _dt.datetime

    class SimDatetime(real):
        @classmethod
        def now(cls, tz=None):
            return real.fromtimestamp(time(), tz)

        @classmethod
        def utcnow(cls):
            return real.fromtimestamp(time(), _dt.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return real.fromtimestamp(time())

    SimDatetime.__name__ = SimDatetime.__qualname__ = "datetime"
    _dt.datetime = SimDatetime


# ------------------------------------------------------------------------------
# identity and randomness
# ------------------------------------------------------------------------------

def _install_random():
    def uuid4():
        W.uuid += 1
        return _uuid.UUID(int=(W.uuid * 0x9E3779B97F4A7C15F39CC0605CEDC835) % (1 << 128), version=4)

    _uuid.uuid4 = uuid4
    random.seed(12345)


# ------------------------------------------------------------------------------
# the compiled numerical solver
# ------------------------------------------------------------------------------

SOLVER_FAULTS = ("value", "zerodiv", "interrupt", "memory", "runtime", "roundoff", "linalg")


def _solver_exception(kind):
    import nlopt
    import numpy
    return {
        "value": lambda: ValueError("injected: evaluation failed"),
        "zerodiv": lambda: ZeroDivisionError("injected: evaluation failed"),
        "interrupt": lambda: Interrupt("injected"),
        "memory": lambda: AllocFail("injected"),
        "runtime": lambda: RuntimeError("injected: nlopt failure"),
        "roundoff": lambda: nlopt.RoundoffLimited("injected: roundoff-limited"),
        "linalg": lambda: numpy.linalg.LinAlgError("injected: evaluation failed"),
    }[kind]()


def _install_solver():
    import nlopt
    real = nlopt.opt

    class opt(real):
        _forced = None
        _failed = None

        def set_min_objective(self, f):
            ctl_of = lambda: W.solver

            def evaluate(x, grad):
                ctl = ctl_of()
                ctl.evals += 1
                n = ctl.evals
                if ctl.eval_dt:
                    W.advance(ctl.eval_dt)
                for kind, value in ctl.clock.get(n, ()):
                    if kind == "jump":
                        W.jump(value)
                        W.fire("clock.step")
                    else:
                        W.rate = value
                        W.fire("clock.slew")
                fault = ctl.fault
                hit = fault is not None and fault["at"] == n
                fx = None
                if not (hit and fault["when"] == "pre"):
                    if ctl.hook:
                        ctl.hook()
                    fx = f(x, grad)
                if hit:
                    ctl.fault = None
                    W.fire("solver." + fault["kind"])
                    if fault["kind"] == "roundoff":
                        self._forced = -4
                    raise _solver_exception(fault["kind"])
                return fx

            def shim(x, grad):
                # An exception must not cross the compiled solver: the binding leaves it pending and
                # some algorithms call the objective again in that state, with arbitrary outcome.
                if self._failed is not None:
                    return math.inf
                try:
                    return evaluate(x, grad)
                except BaseException as e:      # noqa: B902 - raised again by optimize()
                    self._failed = e
                    self.force_stop()
                    return math.inf

            return real.set_min_objective(self, shim)

        def optimize(self, x):
            ctl = W.solver
            a = W.mono
            self._failed = None
            ctl.inside += 1
            try:
                try:
                    r = real.optimize(self, x)
                except BaseException as e:      # noqa: B902
                    if self._failed is None:
                        raise
                if self._failed is not None:
                    # what the compiled solver makes of a failed evaluation
                    e, self._failed = self._failed, None
                    name = self.get_algorithm_name()
                    luksan = ("BFGS" in name or "Newton" in name or "variable-metric" in name) and not own(e)
                    if luksan and ctl.mask == "forced":
                        raise nlopt.ForcedStop("NLopt forced stop")
                    if luksan and ctl.mask == "failure":
                        raise RuntimeError("nlopt failure")
                    raise e
                ctl.outcomes.append(None)
                return r
            except BaseException as e:          # noqa: B902 - recorded and passed on
                ctl.raised = type(e).__name__
                ctl.outcomes.append(ctl.raised)
                raise
            finally:
                ctl.inside -= 1
                ctl.spans.append((a, W.mono))

        def last_optimize_result(self):
            if self._forced is not None:
                return self._forced
            return real.last_optimize_result(self)

    def own(e):
        return isinstance(e, nlopt.RoundoffLimited) or isinstance(e, RuntimeError) and "nlopt failure" in str(e)

    nlopt.opt = opt


# ------------------------------------------------------------------------------
# disk
# ------------------------------------------------------------------------------

class Disk(object):
    """A directory whose files are written through a fault-injecting layer.

    ``fault`` applies to the next file operation of the matching mode:
    kinds (write): open_w, eio_w, enospc, short, crash_w, lost
    kinds (read): open_r, eio_r, short_r
    ``at`` is a fraction of the content.
    """

    def __init__(self):
        self.root = None
        self.fault = None
        self.last_write = None      # (path, complete?)

    def owns(self, path):
        if self.root is None:
            return False
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return False
        return isinstance(p, str) and p.startswith(self.root + os.sep)


class _WriteFile(io.StringIO):
    """Buffers text; pushes it to the real file on flush/close subject to the fault."""

    def __init__(self, path, limit, fault, mode):
        super().__init__()
        self._path = path
        self._limit = limit
        self._fault = fault
        self._n = 0
        self._done = False
        self._binary = "b" in mode
        with REAL.open(path, "a" if "a" in mode else "w"):
            pass

    def write(self, s):
        if isinstance(s, (bytes, bytearray)):
            s = bytes(s).decode("utf-8", "surrogateescape")
        if self._limit is not None and self._n + len(s) > self._limit:
            keep = max(self._limit - self._n, 0)
            super().write(s[:keep])
            self._n += keep
            kind = self._fault["kind"]
            self._limit = None
            W.disk.fault = None
            W.fire("disk." + kind)
            if kind == "enospc":
                raise OSError(errno.ENOSPC, "No space left on device (injected)")
            if kind == "eio_w":
                raise OSError(errno.EIO, "Input/output error (injected)")
            if kind == "crash_w":
                self._push()
                raise SimCrash("crash during write")
            self._lost = True
        if getattr(self, "_lost", False):
            return len(s)
        self._n += len(s)
        return super().write(s)

    def _push(self):
        with REAL.open(self._path, "w", encoding="utf-8", errors="surrogateescape") as f:
            f.write(self.getvalue())

    def flush(self):
        if not self.closed:
            self._push()

    def close(self):
        if not self._done and not self.closed:
            self._done = True
            self._push()
        super().close()

    def fileno(self):
        raise OSError("simulated file")


class _ReadFile(object):
    pass


def _sim_open(file, mode="r", *args, **kwargs):
    if W is None or not W.disk.owns(file):
        return REAL.open(file, mode, *args, **kwargs)
    path = os.path.abspath(os.fspath(file))
    fault = W.disk.fault
    writing = any(c in mode for c in "wax+")
    if writing:
        if fault and fault["kind"] == "open_w":
            W.disk.fault = None
            W.fire("disk.open_w")
            raise OSError(errno.EACCES, "Permission denied (injected)", path)
        limit = None
        if fault and fault["kind"] in ("eio_w", "enospc", "crash_w", "lost"):
            limit = int(fault["bytes"])
        return _WriteFile(path, limit, fault, mode)
    if fault and fault["kind"] == "open_r":
        W.disk.fault = None
        W.fire("disk.open_r")
        raise OSError(errno.EIO, "Input/output error (injected)", path)
    with REAL.open(path, "rb") as f:
        content = f.read()
    if fault and fault["kind"] in ("eio_r", "short_r"):
        W.disk.fault = None
        W.fire("disk." + fault["kind"])
        if fault["kind"] == "eio_r":
            class Bad(io.StringIO):
                def read(self, *a):
                    raise OSError(errno.EIO, "Input/output error (injected)")
                readline = read
            return Bad("")
        content = content[:int(fault["at"] * len(content.rstrip()))]
    if "b" in mode:
        return io.BytesIO(content)
    return io.StringIO(content.decode("utf-8", "replace"))


def _install_disk():
    builtins.open = _sim_open
    io.open = _sim_open


# ------------------------------------------------------------------------------
# Grasshopper and Rhino
# ------------------------------------------------------------------------------

STICKY = {}


def _install_gh():
    def mod(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        sys.modules[name] = m
        return m

    class executingcomponent(object):
        Message = None

    mod("ghpythonlib")
    mod("ghpythonlib.componentbase", executingcomponent=executingcomponent)
    mod("scriptcontext", sticky=STICKY)
    mod("rhinoscriptsyntax", AddPoint=lambda *a: tuple(a), CreateColor=lambda c: tuple(c))

    class _Geo(object):
        def __init__(self, g):
            self._g = g

        @classmethod
        def from_geometry(cls, g):
            return cls(g)

    import compas.geometry as cg

    class RhinoPoint(_Geo):
        def to_compas(self):
            return cg.Point(*self._g)

    class RhinoVector(_Geo):
        def to_compas(self):
            return cg.Vector(*self._g)

    class RhinoLine(_Geo):
        def to_compas(self):
            return cg.Line(*self._g)

    class RhinoPlane(_Geo):
        def to_compas(self):
            return cg.Plane(*self._g)

    class RhinoPolyline(_Geo):
        def to_compas(self):
            return cg.Polyline(self._g)

    # artists of Grasshopper: what is drawn is handed back
    class NetworkArtist(object):
        def __init__(self, network, *args, **kwargs):
            self.network = network

    def draw(items, *args, **kwargs):
        return [dict(i) for i in items]

    mod("compas_ghpython", draw_points=draw, draw_lines=draw, draw_polylines=draw)
    mod("compas_ghpython.artists", NetworkArtist=NetworkArtist)
    mod("compas_rhino")
    mod("compas_rhino.geometry", RhinoPoint=RhinoPoint, RhinoVector=RhinoVector,
        RhinoLine=RhinoLine, RhinoPlane=RhinoPlane, RhinoPolyline=RhinoPolyline)


_components = {}
_placed = {}        # the components on the canvas; each keeps its script's state between solutions


def component(name):
    """The instance of a Grasshopper component. As in Grasshopper, its script runs once, RunScript often."""
    if name in _placed:
        return _placed[name]
    code = _components.get(name)
    path = os.path.join(PKG, "ghpython", "components", name, "code.py")
    if code is None:
        with REAL.open(path) as f:
            code = compile(f.read(), path, "exec")
        _components[name] = code
    ns = {"__name__": "gh_" + name, "__file__": path}
    if "Artist" in name:
        import compas_cem.ghpython as gh
        from compas_cem.ghpython import artists
        for n in artists.__all__:
            setattr(gh, n, getattr(artists, n))
    exec(code, ns)
    base = sys.modules["ghpythonlib.componentbase"].executingcomponent
    classes = [v for v in ns.values() if isinstance(v, type) and issubclass(v, base) and v is not base]
    _placed[name] = classes[0]()
    return _placed[name]


def clear_canvas():
    STICKY.clear()
    _placed.clear()


# ------------------------------------------------------------------------------
# time that passes around the solver, not in it
# ------------------------------------------------------------------------------

def _aside(cls, name):
    f = getattr(cls, name, None)
    if not isinstance(f, types.FunctionType):
        return

    @functools.wraps(f)
    def slow(*args, **kwargs):
        ctl = W.solver
        if ctl is not None and ctl.aside_dt and not ctl.inside:
            W.advance(ctl.aside_dt)
            W.fire("clock.aside")
        return f(*args, **kwargs)

    setattr(cls, name, slow)


def _install_aside():
    import compas_cem.optimization as o
    import compas_cem.diagrams as d
    seen = set()
    for c in list(vars(o).values()) + [d.TopologyDiagram]:
        for k in getattr(c, "__mro__", ()) if isinstance(c, type) else ():
            if k in seen or not (k.__module__ or "").startswith("compas"):
                continue
            seen.add(k)
            if "penalty" in vars(k):
                _aside(k, "penalty")
    _aside(d.TopologyDiagram, "copy")


# ------------------------------------------------------------------------------
# boot
# ------------------------------------------------------------------------------

def boot():
    """Install all seams, then import compas_cem from the working tree."""
    global W
    sys.dont_write_bytecode = True
    os.environ.setdefault("MPLBACKEND", "Agg")
    if sys.path[0] != SRC:
        sys.path.insert(0, SRC)
    import warnings
    warnings.simplefilter("ignore")
    import numpy  # noqa: F401
    import scipy  # noqa: F401
    import scipy.spatial  # noqa: F401
    import autograd.numpy  # noqa: F401
    import compas  # noqa: F401
    import compas.geometry  # noqa: F401
    W = World()
    _install_clock()
    _install_random()
    _install_solver()
    _install_gh()
    from . import trace
    trace.install_locks()
    from . import net
    net.install()
    import compas_cem
    import compas_cem.diagrams  # noqa: F401
    import compas_cem.elements  # noqa: F401
    import compas_cem.equilibrium  # noqa: F401
    import compas_cem.loads  # noqa: F401
    import compas_cem.optimization  # noqa: F401
    import compas_cem.supports  # noqa: F401
    if not os.path.abspath(compas_cem.__file__).startswith(PKG):
        raise RuntimeError("compas_cem is not imported from %s: %s" % (PKG, compas_cem.__file__))
    _install_aside()
    _install_disk()
    return W


@contextlib.contextmanager
def quiet():
    out = sys.stdout
    sys.stdout = io.StringIO()
    try:
        yield
    finally:
        sys.stdout = out
