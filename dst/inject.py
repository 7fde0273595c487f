"""Fault injection and scheduling points inside the code under test (sys.monitoring)."""
import dis
import random
import sys
import threading

from . import sut

TOOL = 3
mon = sys.monitoring


class UserError(Exception):
    """raised by user-supplied functions"""


class CallTimeout(Exception):
    """raised asynchronously, as a signal-based timeout does"""


class SimAbort(BaseException):
    """unwinds parked threads when a simulated run is given up"""


class SimDeadlock(Exception):
    pass


class HarnessError(Exception):
    pass


def make_exc(kind):
    if kind == "KeyboardInterrupt":
        return KeyboardInterrupt()
    if kind == "CallTimeout":
        return CallTimeout("simulated timeout")
    if kind == "SystemExit":
        return SystemExit(143)
    if kind == "MemoryError":
        return MemoryError()
    if kind == "oom":
        import jax

        return jax.errors.JaxRuntimeError(
            "RESOURCE_EXHAUSTED: Out of memory allocating 8192 bytes. (simulated)"
        )
    if kind == "device":
        import jax

        return jax.errors.JaxRuntimeError("INTERNAL: simulated device failure")
    if kind == "UserError":
        return UserError("simulated failure of a user-supplied function")
    if kind == "FloatingPointError":
        return FloatingPointError("invalid value (simulated)")
    raise KeyError(kind)


_lines = {}


def line_of(code, offset):
    tab = _lines.get(code)
    if tab is None:
        tab = []
        for s, e, l in code.co_lines():
            tab.append((s, e, l))
        _lines[code] = tab
    for s, e, l in tab:
        if s <= offset < e:
            return l
    return None


_NUMERIC = ("jax", "jaxlib", "numpy", "scipy", sut.PKG)
_NOT_FAILING = ("__exit__", "__enter__", "update", "release", "__del__")


def _is_numeric(fn):
    name = getattr(fn, "__name__", "") or ""
    if name in _NOT_FAILING:
        return False
    m = getattr(fn, "__module__", None) or type(fn).__module__ or ""
    if not isinstance(m, str):
        m = type(fn).__module__
    m = m.split(".")[0]
    return m in _NUMERIC


class Injector:
    """One exception, at the k-th new line (or call site) the SUT reaches."""

    def __init__(self, fault):
        self.fault = fault
        self.kind = fault["kind"]
        self.k = fault["k"]
        self.within = fault.get("within")
        self.all = fault.get("all")  # count every line executed, not every new one
        self.exc = None
        self.count = 0
        self.where = None
        self.seen = set()
        self.tid = threading.get_ident()

    def line(self, code, line):
        if self.where is not None or threading.get_ident() != self.tid:
            return
        if not self.all and (code, line) in self.seen:
            return
        self.seen.add((code, line))
        if self.within and not code.co_filename.endswith(self.within):
            return
        if sut.is_uninterruptible(code, line):
            return
        self.count += 1
        if self.count == self.k:
            self.where = "%s:%d" % (code.co_qualname, line)
            self.exc = make_exc(self.fault["exc"])
            raise self.exc

    def call(self, code, offset, fn, arg0):
        if self.where is not None or threading.get_ident() != self.tid:
            return
        if (code, offset) in self.seen:
            return
        self.seen.add((code, offset))
        if self.within and not code.co_filename.endswith(self.within):
            return
        if not _is_numeric(fn):
            return
        line = line_of(code, offset)
        if line is None or sut.is_uninterruptible(code, line):
            return
        self.count += 1
        if self.count == self.k:
            self.where = "%s:%s:call %s" % (code.co_qualname, line, getattr(fn, "__name__", "?"))
            self.exc = make_exc(self.fault["exc"])
            raise self.exc

    def user(self, stage):
        if self.where is not None:
            return
        self.count += 1
        if self.count == self.k:
            self.where = "user:" + stage
            self.exc = make_exc(self.fault["exc"])
            raise self.exc


class Nest:
    """At the given places (counted new lines, or calls of functions the user supplied),
    other calls run to completion in the same thread."""

    def __init__(self, points, action):
        self.at = {}
        for j, p in enumerate(points):
            self.at.setdefault((p["kind"], p["k"]), j)
        self.action = action
        self.n = {"line": 0, "user": 0}
        self.seen = set()
        self.busy = False
        self.tid = threading.get_ident()

    def _reach(self, kind, where):
        self.n[kind] += 1
        j = self.at.get((kind, self.n[kind]))
        if j is not None:
            self.busy = True
            try:
                self.action(j, where)
            finally:
                self.busy = False

    def line(self, code, line):
        if self.busy or (code, line) in self.seen or threading.get_ident() != self.tid:
            return
        self.seen.add((code, line))
        self._reach("line", "%s:%d" % (code.co_qualname, line))

    def user(self, stage):
        if not self.busy and threading.get_ident() == self.tid:
            self._reach("user", "user:" + stage)


_active = {"line": None, "call": None, "instr": None}


def _cb_line(code, line):
    f = _active["line"]
    if f is not None:
        f(code, line)


def _cb_call(code, offset, fn, arg0):
    f = _active["call"]
    if f is not None:
        f(code, offset, fn, arg0)


def _cb_instr(code, offset):
    f = _active["instr"]
    if f is not None:
        f(code, offset)


def init():
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, "dst")
    E = mon.events
    mon.register_callback(TOOL, E.LINE, _cb_line)
    mon.register_callback(TOOL, E.CALL, _cb_call)
    mon.register_callback(TOOL, E.INSTRUCTION, _cb_instr)


def savers():
    """code that walks through an object while it is saved or copied, not the library's own"""
    import copy

    from jax._src.array import ArrayImpl

    fs = [copy.deepcopy, copy._deepcopy_dict, copy._deepcopy_list, copy._deepcopy_tuple, copy._reconstruct,
          vars(ArrayImpl).get("__reduce__"), vars(ArrayImpl).get("__deepcopy__")]
    return [f.__code__ for f in fs if hasattr(f, "__code__")]


class monitored:
    """Deliver events of the SUT's code to the given functions."""

    def __init__(self, line=None, call=None, instr=None, extra=()):
        self.f = {"line": line, "call": call, "instr": instr}
        self.extra = extra

    def __enter__(self):
        E = mon.events
        ev = 0
        if self.f["line"]:
            ev |= E.LINE
        if self.f["call"]:
            ev |= E.CALL
        if self.f["instr"]:
            ev |= E.INSTRUCTION
        self.codes = list(sut.all_codes()) + list(self.extra)
        for c in self.codes:
            mon.set_local_events(TOOL, c, ev)
        _active.update(self.f)

    def __exit__(self, *a):
        for k in _active:
            _active[k] = None
        for c in self.codes:
            mon.set_local_events(TOOL, c, 0)
        return False


# --------------------------------------------------------------- scheduling


_EFFECT_OPS = {"STORE_GLOBAL", "STORE_ATTR", "STORE_SUBSCR", "STORE_SLICE", "DELETE_GLOBAL", "DELETE_ATTR", "DELETE_SUBSCR", "STORE_DEREF"}
_EFFECT_METHODS = {"append", "update", "pop", "setdefault", "extend", "clear", "insert", "add", "remove", "popitem", "discard",
                   "setattr", "delattr", "__setitem__", "__setattr__", "next", "send", "acquire", "release", "set", "move_to_end", "cache_clear"}
_effects = {}


def effects(code):
    """lines (and instruction offsets) of a function that may write to something which
    outlives the line: where it is worth letting another thread in"""
    r = _effects.get(code)
    if r is None:
        import dis

        lines, offs = set(), set()
        for ins in dis.get_instructions(code):
            if ins.opname in _EFFECT_OPS or (ins.opname in ("LOAD_ATTR", "LOAD_GLOBAL", "LOAD_METHOD") and ins.argval in _EFFECT_METHODS):
                offs.add(ins.offset)
                if ins.positions is not None and ins.positions.lineno:
                    lines.add(ins.positions.lineno)
        r = _effects[code] = (lines, offs)
    return r


class Scheduler:
    """Real threads, exactly one of which runs: the others are parked at a line (or
    bytecode instruction) of the SUT.  Who runs next is decided here only."""

    def __init__(self, n, spec, timeout=240):
        self.n = n
        self.spec = spec
        self.rng = random.Random(spec.get("seed", 0))
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.done_sem = threading.Semaphore(0)
        self.state = ["ready"] * n  # ready | blocked | done
        self.waiting = [None] * n
        self.current = None
        self.ev = 0
        self.switches = []  # [event number, thread] preemptions taken
        self.handoffs = []  # thread chosen when the running one blocks or ends
        self.abort = False
        self.deadlock = None
        self.tid = {}
        self.timeout = timeout
        self.trace_hash = 0
        k = spec["kind"]
        if k == "list":
            self.plan = {int(e): t for e, t in spec["switches"]}
            self.hplan = list(spec.get("handoffs", []))
        elif k == "pct":
            self.prio = list(range(n))
            self.rng.shuffle(self.prio)
            self.change = set(spec["points"])
        elif k == "stores":
            # switch just before and just after writes, at some of the places that write
            self.after = [False] * n
            self.on = {}
        elif k == "solo":
            # run one thread to a point, let another run to its end, then resume
            self.points = dict((int(a), b) for a, b in spec["points"])

    def me(self):
        return self.tid.get(threading.get_ident())

    def runnable(self, but=None):
        return [i for i in range(self.n) if self.state[i] == "ready" and i != but]

    # called by the running thread at each point of the SUT
    def point(self, *_):
        me = self.me()
        if me is None or me != self.current:
            return
        if self.abort:
            raise SimAbort()
        self.ev += 1
        k = self.spec["kind"]
        hot = False
        if k == "stores" and len(_) == 2:
            place = _[1] in effects(_[0])[1 if self.spec.get("gran") == "instr" else 0]
            hot = self.after[me] or place
            key = (_[0].co_qualname, _[1]) if place else self.after[me]
            self.after[me] = key if place else False
        others = self.runnable(but=me)
        if not others:
            return
        nxt = None
        if k == "list":
            t = self.plan.get(self.ev)
            if t is not None and t in others:
                nxt = t
        elif k == "random":
            if self.rng.random() < self.spec["p"]:
                nxt = self.rng.choice(others)
        elif k == "stores":
            if hot:
                on = self.on.get(key)
                if on is None:
                    on = self.on[key] = self.rng.random() < self.spec["places"]
                if on and self.rng.random() < self.spec["p"]:
                    nxt = self.rng.choice(others)
        elif k == "pct":
            if self.ev in self.change:
                self.prio[me] = min(self.prio) - 1
            best = max(others, key=lambda i: self.prio[i])
            if self.prio[best] > self.prio[me]:
                nxt = best
        elif k == "solo":
            if self.ev in self.points:
                nxt = others[self.points[self.ev] % len(others)]
        if nxt is not None:
            self.switches.append([self.ev, nxt])
            self._switch(me, nxt)

    def _switch(self, me, nxt):
        self.current = nxt
        self.sem[nxt].release()
        self.sem[me].acquire()
        if self.abort:
            raise SimAbort()

    def _choose(self, cands):
        if self.spec["kind"] == "list" and self.hplan:
            t = self.hplan.pop(0)
            if t in cands:
                self.handoffs.append(t)
                return t
        t = self.rng.choice(cands) if self.spec["kind"] in ("random",) else cands[0]
        self.handoffs.append(t)
        return t

    def block(self, what):
        """the running thread waits for `what`"""
        me = self.me()
        self.state[me] = "blocked"
        self.waiting[me] = what
        cands = self.runnable()
        if not cands:
            self.state[me] = "ready"
            self.deadlock = [
                (i, getattr(w, "label", "?")) for i, w in enumerate(self.waiting) if w is not None
            ]
            self.abort = True
            raise SimAbort()
        self._switch(me, self._choose(cands))

    def unblock(self, what):
        for i in range(self.n):
            if self.waiting[i] is what:
                self.waiting[i] = None
                self.state[i] = "ready"

    def run(self, bodies):
        threads = []

        def wrap(i):
            self.tid[threading.get_ident()] = i
            self.sem[i].acquire()
            try:
                if not self.abort:
                    bodies[i]()
            except SimAbort:
                pass
            finally:
                self.state[i] = "done"
                self.waiting[i] = None
                cands = self.runnable()
                if self.abort:
                    left = [j for j in range(self.n) if self.state[j] != "done"]
                    if left:
                        self.current = left[0]
                        self.sem[left[0]].release()
                    else:
                        self.done_sem.release()
                elif cands:
                    nxt = self._choose(cands)
                    self.current = nxt
                    self.sem[nxt].release()
                elif any(s == "blocked" for s in self.state):
                    self.deadlock = [
                        (j, getattr(w, "label", "?")) for j, w in enumerate(self.waiting) if w is not None
                    ]
                    self.abort = True
                    j = self.state.index("blocked")
                    self.current = j
                    self.sem[j].release()
                else:
                    self.done_sem.release()

        for i in range(self.n):
            t = threading.Thread(target=wrap, args=(i,), daemon=True)
            threads.append(t)
            t.start()
        first = self._choose(self.runnable())
        self.current = first
        self.sem[first].release()
        if not self.done_sem.acquire(timeout=self.timeout):
            self.abort = True
            raise HarnessError("threads did not finish within %ds" % self.timeout)
        for t in threads:
            t.join(10)


_sched = None


def set_sched(s):
    global _sched
    _sched = s


class SimLock:
    """threading.Lock as seen by the SUT: waiting goes through the scheduler."""

    reentrant = False
    label = "lock"

    def __init__(self):
        self.owner = None
        self.depth = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while self.owner is not None:
            if self.reentrant and self.owner == me:
                self.depth += 1
                return True
            if not blocking:
                return False
            s = _sched
            if s is None or s.me() is None:
                if timeout is not None and timeout >= 0:
                    return False
                raise SimDeadlock("lock is held for ever")
            s.block(self)
        self.owner = me
        self.depth = 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        if self.reentrant and self.owner != threading.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None
            if _sched is not None:
                _sched.unblock(self)

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def __reduce_ex__(self, p):
        raise TypeError("cannot pickle '_thread.%s' object" % ("RLock" if self.reentrant else "lock"))


class SimRLock(SimLock):
    reentrant = True
    label = "rlock"


class JitProxy:
    """A function the SUT compiled: JAX lets one thread trace a function for given
    argument types, the others wait for it; that wait goes through the scheduler."""

    def __init__(self, fn, wrapped):
        import functools

        self.fn = fn
        self.lock = SimRLock()
        self.lock.label = "jit:" + getattr(wrapped, "__name__", "?")
        try:
            functools.update_wrapper(self, wrapped)
        except Exception:
            pass

    def __call__(self, *a, **k):
        s = _sched
        if s is None or s.me() is None:
            return self.fn(*a, **k)
        self.lock.acquire()
        try:
            return self.fn(*a, **k)
        finally:
            self.lock.release()

    def __getattr__(self, n):
        return getattr(self.fn, n)

    def __get__(self, obj, typ=None):
        if obj is None:
            return self
        import functools

        return functools.partial(self, obj)


class seams:
    """jax.jit and threading locks, for callers inside the SUT only."""

    def __init__(self, jit):
        self.with_jit = jit

    def __enter__(self):
        import jax

        self.saved = (jax.jit, threading.Lock, threading.RLock)
        ojit, olock, orlock = self.saved

        def caller():
            return sut.in_sut(sys._getframe(2).f_globals.get("__name__"))

        def jit(*a, **k):
            r = ojit(*a, **k)
            if not caller():
                return r
            if a and callable(a[0]):
                return JitProxy(r, a[0])
            return lambda f: JitProxy(r(f), f)

        def lock():
            return SimLock() if caller() else olock()

        def rlock():
            return SimRLock() if caller() else orlock()

        if self.with_jit:
            jax.jit = jit
        threading.Lock, threading.RLock = lock, rlock
        return self

    def __exit__(self, *a):
        import jax

        jax.jit, threading.Lock, threading.RLock = self.saved
        return False
