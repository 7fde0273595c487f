"""Loading of the system under test, and the seams the simulator owns.

Every simulated run imports jax_cosmo afresh, so that module state (memo tables,
compiled kernels, whatever a change may add) starts as in a new process.  Code
objects are compiled once per process, so that sys.monitoring events set on them
keep their meaning from run to run.
"""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

REPO = os.environ.get("DST_REPO", "/repo")
PKG = "jax_cosmo"

_code_cache = {}
_excluded_cache = {}


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.path
        if path not in _code_cache:
            with open(path, "rb") as f:
                src = f.read()
            _code_cache[path] = compile(src, path, "exec", dont_inherit=True)
            _excluded_cache[path] = _uninterruptible_lines(src, path)
        return _code_cache[path]


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + "."):
            return None
        rel = name.split(".")
        base = os.path.join(REPO, *rel)
        init = os.path.join(base, "__init__.py")
        if os.path.exists(init):
            return importlib.util.spec_from_file_location(
                name, init, loader=_Loader(name, init), submodule_search_locations=[base]
            )
        if os.path.exists(base + ".py"):
            return importlib.util.spec_from_file_location(
                name, base + ".py", loader=_Loader(name, base + ".py")
            )
        return None


def _uninterruptible_lines(src, path):
    """Lines where a real asynchronous exception cannot be delivered between an
    acquisition and its protection (with/try headers), or where it would be aimed at
    clean-up code itself (finally/except bodies)."""
    out = set()
    try:
        tree = ast.parse(src)
    except SyntaxError:
        return out
    for node in ast.walk(tree):
        if isinstance(node, (ast.With, ast.AsyncWith)):
            first = node.body[0].lineno
            out.update(range(node.lineno, first))
            out.add(node.lineno)
            for it in node.items:
                out.update(range(it.context_expr.lineno, (it.context_expr.end_lineno or it.context_expr.lineno) + 1))
        elif isinstance(node, ast.Try):
            out.add(node.lineno)
            for st in node.finalbody:
                out.update(range(st.lineno, st.end_lineno + 1))
            for h in node.handlers:
                out.update(range(h.lineno, h.end_lineno + 1))
        elif isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)) and node.name in (
            "__exit__", "__del__", "close", "release",
        ):
            out.update(range(node.lineno, node.end_lineno + 1))
    return out


def is_uninterruptible(code, line):
    s = _excluded_cache.get(code.co_filename)
    return s is not None and line in s


def all_codes():
    """All code objects of the SUT, in a stable order."""
    out = []

    def walk(c):
        out.append(c)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                walk(k)

    for p in sorted(_code_cache):
        walk(_code_cache[p])
    return out


_finder = None


def install():
    global _finder
    if _finder is None:
        _finder = _Finder()
        sys.meta_path.insert(0, _finder)


def purge():
    for m in [m for m in sys.modules if m == PKG or m.startswith(PKG + ".")]:
        del sys.modules[m]


MODULES = [
    "angular_cl", "background", "bias", "likelihood", "power", "probes", "redshift",
    "transfer", "core", "parameters", "sparse", "constants", "utils", "jax_utils",
    "scipy.integrate", "scipy.interpolate", "scipy.ode",
]


class NeedsNewProcess(Exception):
    """this process has had the package, which cannot be loaded a second time in it"""


_loads = 0


def load():
    """Import a new copy of the package and return it."""
    global _loads
    install()
    purge()
    import importlib

    _loads += 1
    try:
        jc = importlib.import_module(PKG)
    except Exception as e:
        if _loads > 1:
            raise NeedsNewProcess("%s: %s" % (type(e).__name__, e)) from e
        raise
    for m in MODULES:
        try:
            importlib.import_module(PKG + "." + m)
        except ModuleNotFoundError:
            pass
    f = getattr(jc, "__file__", "") or ""
    if not os.path.realpath(f).startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("loaded the wrong jax_cosmo: %r" % f)
    return jc


def in_sut(modname):
    return isinstance(modname, str) and (modname == PKG or modname.startswith(PKG + "."))
