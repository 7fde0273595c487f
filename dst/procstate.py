"""Process-wide state other code depends on, before and after."""
import builtins
import gc
import importlib
import locale
import logging
import os
import random
import signal
import sys
import threading
import types
import warnings

import numpy as onp

_NAMESPACES = [
    "numpy", "numpy.linalg", "numpy.random", "numpy.fft", "math", "builtins", "functools", "copy",
    "pickle", "random", "time", "operator", "itertools", "json",
    "jax", "jax.numpy", "jax.numpy.linalg", "jax.lax", "jax.scipy", "jax.scipy.linalg",
    "jax.tree_util", "jax.random", "jax.nn", "jax.core", "jax.experimental.ode", "jax.tree", "jax.dtypes",
    "scipy", "scipy.linalg", "scipy.special", "scipy.integrate", "scipy.interpolate",
]


def _classes():
    import jax
    from jax._src.array import ArrayImpl

    return {"ArrayImpl": ArrayImpl, "jax.Array": jax.Array, "Tracer": jax.core.Tracer}


def _namespaces():
    out = {}
    for n in _NAMESPACES:
        try:
            out[n] = importlib.import_module(n)
        except Exception:
            pass
    return out


def _jax_config():
    import jax

    out = {}
    for n, h in jax.config._value_holders.items():
        try:
            out[n] = repr(h.value)
        except Exception as e:
            out[n] = "!" + type(e).__name__
        try:
            out["global:" + n] = repr(h.get_global())
        except Exception:
            pass
    return out


_loggers = []


def _scalars():
    from jax._src import core as jcore

    um = os.umask(0o22)
    os.umask(um)
    st = onp.random.get_state()
    d = {
        "numpy error handling": repr(onp.geterr()) + repr(onp.geterrcall()),
        "numpy printing": repr(sorted(onp.get_printoptions().items(), key=str)),
        "numpy buffer size": onp.getbufsize(),
        "numpy global random state": repr((st[0], hash(st[1].tobytes()), st[2:])),
        "python random state": hash(random.getstate()),
        "warning filters": repr(warnings.filters),
        "warnings.showwarning": id(warnings.showwarning),
        "environment": repr(sorted(os.environ.items())),
        "working directory": os.getcwd(),
        "signal handlers": repr([(s, signal.getsignal(s)) for s in sorted(signal.valid_signals())]),
        "interval timer": repr(signal.getitimer(signal.ITIMER_REAL)[1]),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "sys.excepthook": id(sys.excepthook),
        "sys.displayhook": id(sys.displayhook),
        "trace function": repr(sys.gettrace()),
        "profile function": repr(sys.getprofile()),
        "stdout": id(sys.stdout),
        "stderr": id(sys.stderr),
        "thread count": threading.active_count(),
        "locale": repr(locale.setlocale(locale.LC_ALL, None)),
        "gc thresholds": repr(gc.get_threshold()),
        "gc enabled": gc.isenabled(),
        "umask": um,
        "root log level": repr((logging.root.level, len(logging.root.handlers), logging.root.disabled, logging.root.manager.disable)),
        "jax log level": repr((logging.getLogger("jax").level, len(logging.getLogger("jax").handlers))),
        "sys.path": repr(sys.path),
        "import hooks": repr([id(x) for x in sys.meta_path]),
        "jax trace state": "clean" if jcore.trace_state_clean() else "inside a trace",
        "files in the working directory": repr(sorted(os.listdir("."))),
        "open files": len(os.listdir("/proc/self/fd")) if os.path.isdir("/proc/self/fd") else 0,
    }
    if not _loggers:
        _loggers.extend(sorted(n for n in logging.root.manager.loggerDict if n.split(".")[0] in ("jax", "jaxlib", "numpy", "scipy", "py", "absl")))
    d["filters of other people's loggers"] = repr([(n, len(l.filters), l.propagate, l.disabled) for n in ["root"] + _loggers
                                                   for l in [logging.root if n == "root" else logging.getLogger(n)] if l.filters or not l.propagate or l.disabled])
    import copyreg
    import decimal
    import faulthandler
    import resource
    import socket
    import time
    import tracemalloc

    d["decimal context"] = repr(decimal.getcontext())
    d["threading.excepthook"] = id(threading.excepthook)
    d["sys.unraisablehook"] = id(sys.unraisablehook)
    d["stdin"] = id(sys.stdin)
    d["gc callbacks"] = len(gc.callbacks)
    d["gc debugging"] = gc.get_debug()
    d["gc frozen objects"] = gc.get_freeze_count() > 0
    d["resource limits"] = repr([resource.getrlimit(getattr(resource, n)) for n in sorted(dir(resource)) if n.startswith("RLIMIT_")])
    d["fault handler"] = faulthandler.is_enabled()
    d["memory tracing"] = tracemalloc.is_tracing()
    d["thread stack size"] = threading.stack_size()
    d["integer digits limit"] = sys.get_int_max_str_digits()
    d["cpu affinity"] = repr(sorted(os.sched_getaffinity(0)))
    d["priority"] = os.nice(0)
    d["time zone"] = repr((time.tzname, time.timezone))
    d["logging classes"] = repr((id(logging.getLoggerClass()), logging.raiseExceptions))
    d["socket timeout"] = repr(socket.getdefaulttimeout())
    d["thread hooks"] = repr((threading.gettrace(), threading.getprofile()))
    d["pickling of other people's types"] = repr(sorted("%s.%s" % (k.__module__, k.__qualname__) for k in copyreg.dispatch_table if not sut_owned(k)))
    d["exit handlers of the library"] = _exits["n"]
    try:
        from jax._src import monitoring

        d["jax event listeners"] = repr([sum(sut_owned_fn(f) for f in getattr(monitoring, n)) for n in sorted(dir(monitoring)) if n.endswith("_listeners") and isinstance(getattr(monitoring, n), list)])
    except ImportError:
        pass
    return d


_exits = {"n": 0}


def sut_owned(k):
    from . import sut

    return sut.in_sut(getattr(k, "__module__", None))


def sut_owned_fn(f):
    return sut_owned(getattr(f, "func", f))


def watch_exits():
    """count what the library itself leaves to be run at exit (JAX registers its own)"""
    import atexit

    from . import sut

    real = atexit.register
    if getattr(real, "dst", False):
        return

    def register(f, *a, **k):
        if sut.in_sut(sys._getframe(1).f_globals.get("__name__")):
            _exits["n"] += 1
            return f
        return real(f, *a, **k)

    register.dst = True
    atexit.register = register


def _value(v):
    """identity of functions and objects, plus content of plain data"""
    if isinstance(v, (int, float, str, bytes, tuple, bool)) or v is None:
        return repr(v)[:200]
    return id(v)


class settings:
    """The user's own choices, while a run lasts."""

    def __init__(self, chosen):
        self.chosen = chosen or {}

    def __enter__(self):
        import contextlib
        import decimal

        import jax

        self.undo = contextlib.ExitStack()
        for k, v in self.chosen.items():
            if k.startswith("np:"):
                old = onp.seterr(**{k[3:]: v})
                self.undo.callback(onp.seterr, **old)
            elif k.startswith("print:"):
                old = onp.get_printoptions()
                onp.set_printoptions(**{k[6:]: v})
                self.undo.callback(onp.set_printoptions, **{k[6:]: old[k[6:]]})
            elif k == "warnings":
                self.undo.enter_context(warnings.catch_warnings())
                a, _, c = v.partition(":")
                warnings.simplefilter(a, getattr(builtins, c or "UserWarning"), append=True)
            elif k == "random":
                self.undo.callback(random.setstate, random.getstate())
                random.seed(v)
            elif k == "np.random":
                self.undo.callback(onp.random.set_state, onp.random.get_state())
                onp.random.seed(v)
            elif k == "environ":
                if v not in os.environ:
                    os.environ[v] = "0"
                    self.undo.callback(os.environ.pop, v, None)
            elif k == "recursionlimit":
                self.undo.callback(sys.setrecursionlimit, sys.getrecursionlimit())
                sys.setrecursionlimit(v)
            elif k == "switchinterval":
                self.undo.callback(sys.setswitchinterval, sys.getswitchinterval())
                sys.setswitchinterval(v)
            elif k == "decimal":
                self.undo.callback(setattr, decimal.getcontext(), "prec", decimal.getcontext().prec)
                decimal.getcontext().prec = v
            elif k == "gc":
                self.undo.callback(gc.set_threshold, *gc.get_threshold())
                gc.set_threshold(v)
            elif k in jax.config._value_holders:
                old = jax.config._value_holders[k].get_global()
                try:
                    jax.config.update(k, v)
                except Exception:  # not a value of this version of JAX
                    continue
                self.undo.callback(jax.config.update, k, old)
        return self

    def __exit__(self, *a):
        self.undo.close()


class Baseline:
    def __init__(self, compiled=False):
        from . import sut

        sut.install()
        sut.purge()
        self.sut = sut
        watch_exits()
        self.ns = _namespaces()
        self.cls = _classes()
        self.spaces = {n: dict(vars(m)) for n, m in self.ns.items()}
        self.spaces.update({n: dict(vars(c)) for n, c in self.cls.items()})
        self.config = _jax_config()
        self.scalars = _scalars()
        self.others = None
        if compiled:  # somebody else's compiled function (making one starts JAX)
            import jax

            self.others = jax.jit(lambda x: x + 1)
            self.others(onp.float32(1.0))
            self.n_compiled = self.others._cache_size()

    def differences(self):
        out = []
        if self.others is not None and self.others._cache_size() < self.n_compiled:
            out.append("what others have compiled in this process was thrown away")
        now = _jax_config()
        for k, v in self.config.items():
            if now.get(k) != v:
                out.append("JAX setting %s is %s instead of %s" % (k, now.get(k), v))
        s = _scalars()
        for k, v in self.scalars.items():
            if s[k] != v:
                out.append("%s changed: %s instead of %s" % (k, str(s[k])[:150], str(v)[:150]))
        for n, before in self.spaces.items():
            obj = self.ns.get(n) or self.cls.get(n)
            cur = vars(obj)
            for a, v in before.items():
                if a in ("__warningregistry__", "_") or a.startswith("_abc"):
                    continue
                if a not in cur:
                    out.append("%s.%s removed" % (n, a))
                elif cur[a] is not v and not (_value(cur[a]) == _value(v) and type(cur[a]) is type(v)):
                    if isinstance(cur[a], types.ModuleType) or a.startswith("__"):
                        continue
                    out.append("%s.%s replaced" % (n, a))
            for a in set(cur) - set(before):
                v = cur[a]
                mod = getattr(v, "__module__", None)
                if self.sut.in_sut(mod) or self.sut.in_sut(type(v).__module__):
                    out.append("%s.%s added by the library" % (n, a))
        return out

    def restore(self):
        """so that one run's damage does not reach the next"""
        import jax

        for n, before in self.spaces.items():
            obj = self.ns.get(n) or self.cls.get(n)
            for a, v in before.items():
                try:
                    if vars(obj).get(a) is not v and not isinstance(v, types.ModuleType) and not a.startswith("__"):
                        setattr(obj, a, v)
                except Exception:
                    pass
