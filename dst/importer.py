"""Imports of the library in processes that have never had it, nor started JAX (C14).

One server per simulating process imports the numerical libraries and nothing more; for
every scenario it forks a child, which is the simulated process."""
import builtins
import importlib
import json
import os
import pickle
import select
import signal
import struct
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))


def modules():
    """every module of the tree under test"""
    from . import sut

    base = os.path.join(sut.REPO, sut.PKG)
    out = [sut.PKG]
    for d, ds, fs in os.walk(base):
        ds[:] = sorted(x for x in ds if not x.startswith(("__", ".")))
        rel = [sut.PKG] + [p for p in os.path.relpath(d, base).split(os.sep) if p != "."]
        if "__init__.py" in fs and len(rel) > 1:
            out.append(".".join(rel))
        out += [".".join(rel + [f[:-3]]) for f in sorted(fs) if f.endswith(".py") and not f.startswith("_")]
    return out


def _files():
    from . import sut

    base = os.path.join(sut.REPO, sut.PKG)
    for d, ds, fs in os.walk(base):
        ds[:] = sorted(x for x in ds if not x.startswith(("__", ".")))
        for f in sorted(fs):
            if f.endswith(".py"):
                yield os.path.join(d, f)


def length(path):
    """how many lines importing this file runs, at least"""
    import ast
    import warnings

    n, todo = 1, []
    try:
        with open(path) as f, warnings.catch_warnings():
            warnings.simplefilter("ignore")
            todo = [ast.parse(f.read())]
    except SyntaxError:
        pass
    while todo:
        for x in todo.pop().body:
            n += 1 + len(getattr(x, "decorator_list", ()))
            if isinstance(x, ast.ClassDef):
                todo.append(x)
    return n


def _started():
    """has JAX started a back-end?"""
    from jax._src import xla_bridge

    return bool(xla_bridge.backends_are_initialized())


class _Imports:
    """the k-th import of something else by the library fails"""

    def __init__(self, k, exc):
        self.k, self.exc, self.n, self.where = k, exc, 0, None

    def __enter__(self):
        from . import sut

        self.real = builtins.__import__

        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            if globals is not None and sut.in_sut(globals.get("__name__")) and level == 0 and not sut.in_sut(name):
                self.n += 1
                if self.n == self.k:
                    self.where = "import %s" % name
                    if self.exc == "ImportError":
                        raise ImportError("simulated: cannot load %s" % name)
                    from . import inject

                    raise inject.make_exc(self.exc)
            return self.real(name, globals, locals, fromlist, level)

        builtins.__import__ = imp
        return self

    def __exit__(self, *a):
        builtins.__import__ = self.real
        return False


def _public(mod):
    from . import sut

    return sorted(n + _kind(v) for n, v in vars(mod).items() if not n.startswith("_")
                  and (sut.in_sut(getattr(v, "__module__", None)) or (mod.__name__ == sut.PKG and n in _EXPORTED)))


def _kind(v):
    """whether the instances of a class are trees to JAX"""
    from jax import tree_util

    if not isinstance(v, type):
        return ""
    try:
        o = object.__new__(v)
    except TypeError:
        return ""
    try:
        return " (leaf)" if [x is o for x in tree_util.tree_leaves(o)] == [True] else " (tree)"
    except Exception:
        return " (tree)"


# modules the package offers under these names; other submodules are reached by importing
# them (Python itself does not bind a submodule on its package again when the import of
# the package is retried)
_EXPORTED = ("cl", "background", "bias", "likelihood", "power", "probes", "redshift", "transfer", "sparse")


def scenario(s):
    from . import inject, oracle, procstate, sut, world

    import jax

    inject.init()
    sut.install()
    for f in _files():  # compiled, not executed
        rel = os.path.relpath(f, sut.REPO)[:-3].split(os.sep)
        if rel[-1] == "__init__":
            rel.pop()
        try:
            sut._Loader(".".join(rel), f).get_code(".".join(rel))
        except SyntaxError:
            pass
    out = {"attempts": [], "bad": [], "where": []}

    def bad(kind, what):
        out["bad"].append([kind, what])

    assert not _started(), "the simulated process had started a back-end already"
    for n, v in s["before"]:
        jax.config.update(n, v)
    base = procstate.Baseline()
    assert not _started()

    def state(when):
        if _started():
            bad("import-not-inert", "a JAX back-end was started by importing (%s)" % when)
            return False
        for d in base.differences():
            bad("process-state", "%s: %s" % (when, d))
        return not out["bad"]

    def attempt(a):
        try:
            for m in a["names"]:
                importlib.import_module(m)
            return "ok"
        except (inject.SimAbort, inject.HarnessError):
            raise
        except BaseException as e:
            return "%s: %s" % (type(e).__name__, str(e)[:200])

    def faulty(a, box):
        f = a.get("fault")
        if f is None:
            box.append((attempt(a), None))
        elif f["kind"] == "import":
            with _Imports(f["k"], f["exc"]) as im:
                r = attempt(a)
            box.append((r, im.where))
        else:
            inj = inject.Injector(f)
            with inject.monitored(**{f["kind"]: getattr(inj, f["kind"])}):
                r = attempt(a)
            box.append((r, inj.where))

    for j, a in enumerate(s["attempts"]):
        box = []
        if a.get("thread"):
            t = threading.Thread(target=faulty, args=(a, box))
            t.start()
            t.join()
        else:
            faulty(a, box)
        r, where = box[0]
        if where:
            out["where"].append(where)
            out["attempts"].append([a["fault"]["kind"] + ":" + a["fault"]["exc"], r.split(":")[0]])
        else:
            out["attempts"].append(["none", r.split(":")[0]])
            if r != "ok":
                bad("import-failed", "attempt %d, importing %s: %s" % (j, ", ".join(a["names"]), r))
        if not state("attempt %d" % j) or out["bad"]:
            return out
    # what the caller now holds is the library, all of it
    jc = importlib.import_module(sut.PKG)
    for m in s["complete"]:
        try:
            importlib.import_module(m)
        except BaseException as e:
            bad("import-failed", "importing %s: %s: %s" % (m, type(e).__name__, str(e)[:200]))
            return out
    out["public"] = {m: _public(sys.modules[m]) for m in s["complete"]}
    if not state("after importing every module"):
        return out
    # the application now makes its choices
    for n, v in s["after"]:
        try:
            jax.config.update(n, v)
        except Exception as e:
            bad("import-not-inert", "%s can no longer be chosen: %s" % (n, e))
            return out
    for n, v in s["after"]:
        if n == "jax_num_cpu_devices" and len(jax.devices("cpu")) != v:
            bad("import-not-inert", "%d devices instead of the %d chosen" % (len(jax.devices("cpu")), v))
    for m in sut.MODULES:
        parts = m.split(".")
        for i in range(len(parts)):
            try:
                x = importlib.import_module(".".join([sut.PKG] + parts[:i + 1]))
            except ModuleNotFoundError:
                break
            up = sys.modules[".".join([sut.PKG] + parts[:i])]
            if not hasattr(up, parts[i]) and not (i == 0 and parts[0] in _EXPORTED):
                setattr(up, parts[i], x)
    w = world.World(jc)
    out["answers"] = []
    for q in s["qs"]:
        try:
            out["answers"].append({"v": oracle.flat(w.run_query(q, lambda spec: w.build(spec)))})
        except Exception as e:
            out["answers"].append({"exc": type(e).__name__, "msg": str(e)[:300]})
    return out


def _child(req, wfd):
    try:
        ans = scenario(req)
    except BaseException as e:
        import traceback

        ans = {"harness": "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])}
    b = pickle.dumps(ans)
    with os.fdopen(wfd, "wb") as f:
        f.write(struct.pack("<Q", len(b)) + b)
    os._exit(0)


def serve():
    inp, outp = sys.stdin.buffer, os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    sys.path.insert(0, os.path.dirname(HERE))
    from dst import common, oracle, procstate, world  # noqa: F401

    common.setup_jax()
    import jax

    jax.config.update("jax_enable_x64", False)
    procstate._namespaces()
    assert not _started()
    while True:
        h = inp.read(8)
        if len(h) < 8:
            return
        (n,) = struct.unpack("<Q", h)
        req = pickle.loads(inp.read(n))
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            _child(req, w)
        os.close(w)
        data = b""
        end = time.monotonic() + 120
        while True:
            if not select.select([r], [], [], max(0.0, end - time.monotonic()))[0]:
                os.kill(pid, signal.SIGKILL)
                data = b""
                break
            b = os.read(r, 1 << 20)
            if not b:
                break
            data += b
        os.close(r)
        _, st = os.waitpid(pid, 0)
        if not data:
            body = pickle.dumps({"died": "the simulated process ended with status %d" % st})
            data = struct.pack("<Q", len(body)) + body
        outp.write(data)
        outp.flush()


class Importer:
    """client"""

    proc = None
    _clean = None

    @classmethod
    def undisturbed(cls):
        if cls._clean is None:
            cls._clean = cls.call({"before": [], "after": [], "attempts": [{"names": ["jax_cosmo"]}], "complete": modules(), "qs": []})
        return cls._clean

    @classmethod
    def call(cls, req):
        if cls.proc is None:
            cls.proc = subprocess.Popen([sys.executable, "-m", "dst.importer"], cwd=os.path.dirname(HERE), env=dict(os.environ),
                                        stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        b = pickle.dumps(req)
        cls.proc.stdin.write(struct.pack("<Q", len(b)) + b)
        cls.proc.stdin.flush()
        h = cls.proc.stdout.read(8)
        if len(h) < 8:
            cls.proc = None
            raise RuntimeError("import server died")
        (n,) = struct.unpack("<Q", h)
        return pickle.loads(cls.proc.stdout.read(n))


if __name__ == "__main__":
    serve()
