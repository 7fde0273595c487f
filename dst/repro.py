"""The surroundings a process may find itself in (C13)."""
import random
import sys


def variants(seed, n):
    """n environments, as different from each other as deployments are."""
    R = random.Random("variants%d" % seed)
    out = []
    for i in range(n):
        out.append({
            "hashseed": R.randrange(1, 2**31), "tz": R.choice(["UTC", "Asia/Tokyo", "America/New_York", "Europe/Paris", "XXX-7:33"]),
            "lang": R.choice(["C", "C.UTF-8", "POSIX"]), "clock": R.choice([0, 1, -1]) * R.uniform(1e5, 1e9),
            "rng": R.randrange(2**31), "churn": R.randrange(0, 60000), "dir": "d%d" % R.randrange(10**6),
            "user": R.choice(["root", "alice", "bob"]), "env": "V%d" % R.randrange(10**6), "argv": R.randrange(10**6),
            "umask": R.choice([0o22, 0o77, 0o2]), "gc": R.choice([0, 200, 700, 5000]), "cpus": R.choice([1, 2, 5, 16, 64]),
            "pace": R.choice([0.0, 0.0, 1e-3, 2.0, 7.0, 3600.0]), "answer": R.choice(["0", "1", "2", "3", "5", "16", "64"]), "asks": R.random() < 0.7,
            "finds": R.random() < 0.5,
        })
    # two of the processes may find what the other left in the user's home and scratch directories
    if n > 2 and R.random() < 0.5:
        out[1]["home"] = out[2]["home"] = "shared"
    return out


def environment(v):
    return {"PYTHONHASHSEED": str(v["hashseed"]), "TZ": v["tz"], "LANG": v["lang"], "LC_ALL": v["lang"],
            "USER": v["user"], "LOGNAME": v["user"], v["env"]: "1",
            "COLUMNS": str((7, 40, 80, 300)[v["rng"] % 4]), "LINES": str(10 + v["rng"] % 60), "TERM": ("dumb", "xterm")[v["rng"] % 2]}


def surroundings(v):
    """What the library itself (not the numerical libraries under it) learns when it asks
    the system about its surroundings."""
    import builtins
    import functools
    import os
    import platform
    import socket

    from . import sut

    def asked():
        f = sys._getframe(2)
        for _ in range(6):
            if f is None:
                return False
            n = f.f_globals.get("__name__", "")
            if sut.in_sut(n):
                return True
            if not n.startswith(("os", "posixpath", "genericpath", "collections.abc", "_collections_abc", "dst.repro", "pathlib",
                                 "multiprocessing", "platform", "socket", "getpass", "tempfile", "io", "configparser", "json", "shutil")):
                return False
            f = f.f_back
        return False

    def fake(obj, name, value):
        real = getattr(obj, name)

        @functools.wraps(real)
        def call(*a, **k):
            return value if asked() else real(*a, **k)
        setattr(obj, name, call)

    for obj, name, value in ((os, "cpu_count", v["cpus"]), (os, "getpid", 100 + v["argv"] % 30000), (os, "getppid", 7 + v["argv"] % 99),
                             (os, "getloadavg", (v["cpus"] / 3, 1.0, 1.0)), (os, "sched_getaffinity", set(range(v["cpus"]))),
                             (os, "process_cpu_count", v["cpus"]), (socket, "gethostname", v["user"] + "-host"), (platform, "node", v["user"] + "-host")):
        if hasattr(obj, name):
            fake(obj, name, value)
    if v.get("finds"):  # files the library looks for are there, and hold something
        stat, access, opn = os.stat, os.access, builtins.open
        there = os.path.join(os.environ.get("TMPDIR", "/tmp"), "dst-found-%d" % os.getpid())
        with opn(there, "w") as f:
            f.write(v["answer"] + "\n")

        def foreign(path):
            try:
                p = os.path.abspath(os.fspath(path))
            except Exception:
                return False
            return isinstance(p, str) and not p.startswith((sys.prefix, sys.base_prefix, sut.REPO)) and asked2()

        def asked2():
            sys_getframe = sys._getframe
            f = sys_getframe(3)
            for _ in range(8):
                if f is None:
                    return False
                n = f.f_globals.get("__name__", "")
                if sut.in_sut(n):
                    return True
                if not n.startswith(("os", "posixpath", "genericpath", "pathlib", "io", "configparser", "json", "dst.repro", "codecs")):
                    return False
                f = f.f_back
            return False

        def fstat(path, *a, **k):
            try:
                return stat(path, *a, **k)
            except FileNotFoundError:
                if foreign(path):
                    return stat(there)
                raise

        def faccess(path, *a, **k):
            return access(path, *a, **k) or foreign(path)

        def fopen(file, mode="r", *a, **k):
            try:
                return opn(file, mode, *a, **k)
            except FileNotFoundError:
                if "r" in str(mode) and foreign(file):
                    return opn(there, mode, *a, **k)
                raise

        os.stat, os.access, builtins.open = fstat, faccess, fopen
    if not v["asks"]:
        return
    E = type(os.environ)
    get, has = E.__getitem__, E.__contains__
    keep = ("HOME", "PATH", "TMPDIR", "TMP", "TEMP", "XDG_CACHE_HOME", "XDG_CONFIG_HOME", "USERPROFILE", "PYTHONPATH")

    def getitem(self, key):
        if key not in keep and asked():
            return v["answer"]
        return get(self, key)

    def contains(self, key):
        if key not in keep and asked():
            return True
        return has(self, key)

    E.__getitem__, E.__contains__ = getitem, contains


_kept = []


def perturb(v):
    import datetime
    import os
    import time

    import numpy as onp

    random.seed(v["rng"])
    onp.random.seed(v["rng"] % (2**32))
    R = random.Random(v["rng"])
    for _ in range(v["churn"]):  # move every later address
        _kept.append(bytearray(R.randrange(1, 600)))
    del _kept[:: 3]
    os.umask(v["umask"])
    if v.get("gc"):
        import gc

        gc.set_threshold(v["gc"], 5, 5)
        gc.disable = lambda: None
    surroundings(v)
    sys.argv.append(str(v["argv"]))
    off = v["clock"]
    took = [0.0]  # on a slow machine, or one that sleeps, time passes between two looks at the clock

    def looked():
        from . import sut

        for d in (2, 3):
            try:
                n = sys._getframe(d).f_globals.get("__name__", "")
            except ValueError:
                break
            if sut.in_sut(n):
                took[0] += v.get("pace", 0.0)
                return took[0]
        return 0.0

    def clock(name, unit):
        real = getattr(time, name)
        d = off if name.startswith("time") or off > 0 else 0.0
        if unit == 1:
            setattr(time, name, lambda: real() + d + looked())
        else:
            setattr(time, name, lambda: real() + int((d + looked()) * unit))

    for name, unit in (("time", 1), ("time_ns", 10**9), ("monotonic", 1), ("monotonic_ns", 10**9),
                       ("perf_counter", 1), ("perf_counter_ns", 10**9)):
        clock(name, unit)
    for name in ("process_time", "thread_time"):
        clock(name, 1)

    rdt = datetime.datetime

    class dt(rdt):
        @classmethod
        def now(cls, tz=None):
            return rdt.now(tz) + datetime.timedelta(seconds=off)

        @classmethod
        def utcnow(cls):
            return rdt.utcnow() + datetime.timedelta(seconds=off)

    datetime.datetime = dt
