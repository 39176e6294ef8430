"""Statement-level control: abort injection and the thread scheduler.

Yield points are the line events of frames whose code lives in /repo/src/compas_cem.
"""
import sys
import threading

from . import seams

PKG = seams.PKG


def _is_pkg(code, _cache={}):
    fn = code.co_filename
    r = _cache.get(fn)
    if r is None:
        r = _cache[fn] = fn.startswith(PKG)
    return r


def count_events_safe(fn):
    """Run fn (which may raise) and count its line events inside the library."""
    n = [0]

    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
        return local

    def glob(frame, event, arg):
        if _is_pkg(frame.f_code):
            return local
        return None

    sys.settrace(glob)
    try:
        fn()
    except BaseException:       # noqa: B902 - only the count matters
        pass
    finally:
        sys.settrace(None)
    return n[0]


def run_abort(fn, at, exc, where=None):
    """Run fn; raise exc at the at-th line event inside the library (1-based)."""
    n = [0]

    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
            if n[0] == at:
                if where is not None:
                    where.append("%s:%d" % (frame.f_code.co_filename[len(PKG):], frame.f_lineno))
                raise exc("injected")
        return local

    def glob(frame, event, arg):
        if n[0] < at and _is_pkg(frame.f_code):
            return local
        return None

    sys.settrace(glob)
    try:
        return fn()
    finally:
        sys.settrace(None)


def _outlives(x):
    """Could x carry state from one call to another?"""
    import types
    return not (x is None or callable(x) or isinstance(x, (types.ModuleType, str, bytes, int, float, tuple, frozenset)))


def _stores(code):
    """Names a code object binds with "global"."""
    import dis
    return {i.argval for i in dis.get_instructions(code) if i.opname == "STORE_GLOBAL"}


def _shared(_memo=[]):
    """(names of class attributes that hold mutable objects, code of functions with a mutable default, rebound globals)."""
    if not _memo:
        import types
        names, codes, stored = set(), set(), set()
        box = (list, dict, set, bytearray)

        def function(f):
            f = getattr(f, "__func__", f)
            f = getattr(f, "fget", f)
            if isinstance(f, types.FunctionType) and _is_pkg(f.__code__):
                stored.update(_stores(f.__code__))
                if any(isinstance(d, box) for d in (f.__defaults__ or ()) + tuple((f.__kwdefaults__ or {}).values())):
                    codes.add(f.__code__)

        for m in list(sys.modules.values()):
            fn = getattr(m, "__file__", None)
            if not isinstance(fn, str) or not fn.startswith(PKG):
                continue
            for x in list(vars(m).values()):
                function(x)
                if isinstance(x, type) and str(getattr(x, "__module__", "")).startswith("compas_cem"):
                    for k, v in list(vars(x).items()):
                        function(v)
                        if isinstance(v, box) and not k.startswith("__"):
                            names.add(k)
        _memo.append((names, codes, stored))
    return _memo[0]


def hot_lines(code, glob, wide=False, _cache={}):
    """Lines of a function that touch state which outlives a call: names bound by "global", mutable module-level objects,
    attributes of functions, classes and modules, mutable class attributes; all lines of a function with a mutable default.
    wide: also what a method stores in its object."""
    r = _cache.get((code, wide))
    if r is None:
        import dis
        import types
        names, codes, stored = _shared()
        r = set()
        line = None
        last = None                 # the object the previous instruction loaded, if it is a global
        own = False                 # the previous instruction loaded self
        for ins in dis.get_instructions(code):
            if ins.starts_line:
                line = ins.positions.lineno if ins.positions else line
            if code in codes and ("default", code.co_name) not in DULL:
                r.add(line)
            if ins.opname == "STORE_GLOBAL":
                r.add(line)
            elif ins.opname == "LOAD_GLOBAL":
                last = glob.get(ins.argval)
                if ins.argval in stored or (ins.argval in glob and not ins.argval.startswith("__") and _outlives(last)):
                    r.add(line)
                continue
            elif ins.opname in ("STORE_ATTR", "DELETE_ATTR") and (own or isinstance(last, (types.FunctionType, type, types.ModuleType))):
                r.add(line)
            elif ins.opname in ("LOAD_ATTR", "LOAD_METHOD"):
                if ins.argval in names or (isinstance(last, types.FunctionType) and not ins.argval.startswith("__")):
                    r.add(line)
            last = None
            own = wide and ins.opname == "LOAD_FAST" and ins.argval == "self" and code.co_name != "__init__"
        _cache[code, wide] = r
    return r


def _codes(code):
    import types
    yield code
    for k in code.co_consts:
        if isinstance(k, types.CodeType):
            for c in _codes(k):
                yield c


def hot_areas(_memo=[]):
    """The subpackages in which some statement touches state that outlives a call, plotting aside;
    and those in which a method stores something in its diagram, setters aside."""
    if not _memo:
        import types
        areas = set()
        for m in list(sys.modules.values()):
            fn = getattr(m, "__file__", None)
            if not isinstance(fn, str) or not fn.startswith(PKG):
                continue
            for x in list(vars(m).values()):
                for f in list(vars(x).values()) if isinstance(x, type) else [x]:
                    f = getattr(f, "__func__", f)
                    f = getattr(f, "fget", f)
                    if isinstance(f, types.FunctionType) and _is_pkg(f.__code__):
                        area = f.__code__.co_filename[len(PKG):].strip("/").split("/")[0]
                        for c in _codes(f.__code__):
                            if hot_lines(c, f.__globals__):
                                areas.add(area)
                            if area in ("diagrams", "equilibrium") and hot_lines(c, f.__globals__, True):
                                areas.add("self." + area)
        _memo.append(frozenset(areas - {"plotters"}))
    return _memo[0]


DULL = {("default", "__init__")}    # Node(key, xyz=[...]) reads its default only


COLD = 20000        # ... and end after this many others

ACTIVE = None       # the scheduler of the current concurrent run


class SimLock(object):
    """A lock created by library code: blocking hands control to the scheduler."""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            if ACTIVE is None or not ACTIVE.give_way():
                raise RuntimeError("deadlock: nobody can release this lock")
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if not self.count:
            self.owner = None

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


def install_locks():
    real_lock, real_rlock = threading.Lock, threading.RLock

    def made_by_library():
        return sys._getframe(2).f_code.co_filename.startswith(PKG)

    def Lock():
        return SimLock(False) if made_by_library() else real_lock()

    def RLock():
        return SimLock(True) if made_by_library() else real_rlock()

    threading.Lock, threading.RLock = Lock, RLock


class Scheduler(object):
    """Real threads, released one at a time; the plan decides who runs for how long.

    quanta: list of [choice, n]: the choice-th live thread (mod the number of live
    threads) runs for n line events. After the list is used up, threads run to
    completion one after another.
    """

    def __init__(self, quanta, hot=False):
        # once one has been met, quanta count only the statements that touch module-level state
        self.hot = hot
        self.warm = None
        self.quanta = [list(q) for q in quanta]
        self.threads = []
        self.sems = []
        self.live = []
        self.cur = None
        self.budget = None
        self.steps = 0
        self.switches = []          # (thread, events run)
        self.done = threading.Semaphore(0)
        self.errors = {}
        self.ran = 0
        self.points = set()         # functions in which a thread was preempted
        self.blocked = 0
        self.touched = {}

    def _pick(self):
        """Choose the next thread and its budget; called by the thread giving up control."""
        if not self.live:
            self.done.release()
            return
        if self.quanta:
            c, n = self.quanta.pop(0)
            tid = self.live[c % len(self.live)]
            self.budget = max(1, int(n))
            if self.warm is not None:
                self._heat()
        else:
            tid = self.live[0]
            self.budget = None
        self.cur = tid
        self.ran = 0
        self.sems[tid].release()

    def _heat(self):
        """Count such statements from now on; switch at the last one or some lines after it."""
        self.warm, self.lag, self.budget = 1 + self.budget % 7, self.budget * 5 % 29 if self.budget % 2 else 0, COLD

    def _yield_point(self, tid, frame):
        self.steps += 1
        self.ran += 1
        if self.hot and self.budget is not None:
            h = hot_lines(frame.f_code, frame.f_globals, self.hot == "wide")
            if h:
                last = self.touched.get(tid)
                self.touched[tid] = frame.f_lineno in h
                # right before and right after such a statement
                if frame.f_lineno in h or last:
                    if self.warm is None:
                        self._heat()
                    self.warm -= 1
                    if self.warm == 0:
                        self.budget = self.ran + self.lag
        if self.budget is not None and self.ran >= self.budget:
            self.switches.append((tid, self.ran))
            if len(self.live) > 1:
                self.points.add("%s:%s" % (frame.f_code.co_filename[len(PKG):], frame.f_code.co_name))
            self._pick()
            self.sems[tid].acquire()

    def give_way(self):
        """The running thread cannot go on: let another one run. False if there is none."""
        others = [t for t in self.live if t != self.cur]
        if not others:
            return False
        tid = self.cur
        self.switches.append((tid, self.ran))
        self.blocked += 1
        if self.blocked > 100000:
            return False
        self.cur = others[self.blocked % len(others)]
        self.budget = 20
        self.ran = 0
        self.sems[self.cur].release()
        self.sems[tid].acquire()
        return True

    def _body(self, tid, fn):
        self.sems[tid].acquire()

        def local(frame, event, arg):
            if event == "line":
                self._yield_point(tid, frame)
            return local

        def glob(frame, event, arg):
            if _is_pkg(frame.f_code):
                return local
            return None

        sys.settrace(glob)
        try:
            fn()
        except BaseException as e:      # noqa: B902 - reported to the caller
            self.errors[tid] = e
        finally:
            sys.settrace(None)
            self.switches.append((tid, self.ran))
            self.live.remove(tid)
            self._pick()

    def run(self, fns):
        self.sems = [threading.Semaphore(0) for _ in fns]
        self.live = list(range(len(fns)))
        for i, fn in enumerate(fns):
            t = threading.Thread(target=self._body, args=(i, fn), daemon=True)
            self.threads.append(t)
        for t in self.threads:
            t.start()
        self._pick()
        self.done.acquire()
        for t in self.threads:
            t.join(60)
