"""Retention: what a long session keeps."""
import gc
import types
import weakref

import numpy as onp

from . import sut


def _closure_size(roots):
    """Entries and bytes reachable from roots, staying out of the numerical libraries."""
    seen, stack, entries, nbytes = set(), list(roots), 0, 0
    while stack:
        o = stack.pop()
        i = id(o)
        if i in seen:
            continue
        seen.add(i)
        if isinstance(o, types.ModuleType):
            if sut.in_sut(o.__name__):
                stack.append(vars(o))
            continue
        if isinstance(o, type):
            if sut.in_sut(o.__module__):
                stack.append(dict(vars(o)))
            continue
        if isinstance(o, types.FunctionType):
            if sut.in_sut(o.__module__):
                stack += [o.__dict__, o.__defaults__, o.__kwdefaults__, o.__closure__]
            continue
        if isinstance(o, types.CodeType):
            continue
        m = type(o).__module__ or ""
        if isinstance(o, onp.ndarray):
            entries += 1
            nbytes += o.nbytes
            if o.base is not None:
                stack.append(o.base)
            continue
        if hasattr(o, "aval") and hasattr(o, "dtype"):
            entries += 1
            nbytes += getattr(o, "nbytes", 0) or 0
            continue
        if isinstance(o, dict):
            entries += len(o)
            if o.get("__name__") and not sut.in_sut(o.get("__name__")) and "__builtins__" in o:
                continue
            stack += list(o.keys()) + list(o.values())
            continue
        if isinstance(o, (list, tuple, set, frozenset)):
            entries += len(o)
            stack += list(o)
            continue
        if isinstance(o, (str, bytes, int, float, bool)) or o is None:
            if isinstance(o, (str, bytes)):
                nbytes += len(o)
            continue
        if m.startswith(("jaxlib", "jax._src")) or m == "jax":
            continue
        stack += gc.get_referents(o)
    return entries, nbytes


def _live():
    import jax

    n, b = 0, 0
    for a in jax.live_arrays():
        n += 1
        b += a.nbytes
    return n, b


def _tracers():
    import jax

    T = jax.core.Tracer
    n = 0
    for o in gc.get_objects():
        try:
            if issubclass(type(o), T):
                n += 1
        except Exception:
            pass
    return n


def _classes():
    return sum(1 for o in gc.get_objects() if isinstance(o, type) and sut.in_sut(getattr(o, "__module__", None)))


def _drop_jax_finalizers():
    """JAX itself keeps every trace that was abandoned (a finalizer of each captured
    constant holds it): not the library's doing, and it would drown what is."""
    import jax

    if not jax._src.core.trace_state_clean():
        return
    for f in list(weakref.finalize._registry):
        i = weakref.finalize._registry.get(f)
        s = getattr(getattr(i, "func", None), "__self__", None)
        if type(s).__name__ == "DynamicJaxprTrace":
            f.detach()


def measure(run):
    _drop_jax_finalizers()
    gc.collect()
    gc.collect()
    roots = [m for n, m in __import__("sys").modules.items() if sut.in_sut(n)]
    roots += list(run.world.objs.values())
    e, b = _closure_size(roots)
    n, nb = _live()
    return {"entries": e, "bytes": b, "live_arrays": n, "live_bytes": nb, "tracers": _tracers(), "classes": _classes()}


def run(R, i, s):
    """Blocks of the same queries at new abscissae (or on new short-lived objects):
    after the first blocks, what is retained must stop growing."""
    series = []
    refs = []
    for blk in range(s["blocks"]):
        for rep in range(s["reps"]):
            for j, st in enumerate(s["body"]):
                st = shift(st, blk * s["reps"] + rep + 1)
                if st["op"] == "temp":
                    # a short-lived object: made, asked, dropped
                    name = st["name"]
                    R.specs[name] = st["spec"]
                    R.world.objs[name] = R.world.build(st["spec"])
                    refs.append((weakref.ref(R.world.objs[name]), st["spec"]["k"]))
                    for q in st["qs"]:
                        one(R, i, q, st)
                        if R.violations:
                            return
                    R.world.objs.pop(name)
                else:
                    one(R, i, st["q"], st)
                if R.violations:
                    return
        if hasattr(R, "plan_history"):
            R.plan_history.clear()
        series.append(measure(R))
        R.stat("memory-blocks")
    R.log.append([i, "memory", [[m[x] - series[0][x] for x in ("entries", "live_arrays", "tracers")] for m in series]])
    alive = [k for r, k in refs if r() is not None]
    R.stat("objects-dropped", len(refs))
    if alive:
        R.violate("not-freed", i, "%d of %d dropped objects are still alive (%s)" % (
            len(alive), len(refs), sorted(set(alive))))
        return
    for what in ("entries", "bytes", "live_arrays", "live_bytes", "tracers", "classes"):
        x = [m[what] for m in series]
        tail = x[1:]
        if len(tail) >= 3 and all(b > a for a, b in zip(tail, tail[1:])):
            R.violate("unbounded", i, "retained %s grows in every block: %s" % (what, x))
            return


def one(R, i, q, st):
    arrs = R.arrays(q, st.get("conv", "jnp"))
    if st.get("fault"):
        R.faulted(i, st, q, st.get("ctx", []), arrs, st["fault"])
    else:
        out, raw = R.ask(q, st.get("ctx", []), arrs)
        R.stat("answers-unchecked")
        if out.exc:
            R.violate("raised", i, "%s raised %s: %s" % (q["q"], out.exc, out.msg), tb=out.tb)
    R.stat("memory-queries")


def shift(st, n):
    """the same step at new abscissae"""

    def walk(v, key=None):
        if isinstance(v, dict):
            return {k: walk(x, k) for k, x in v.items()}
        if isinstance(v, list):
            return [walk(x, key) for x in v]
        if isinstance(v, float) and key in ("a", "kk", "z", "x", "v", "chi", "ell"):
            return v * (1.0 + 1e-3 * n) if key not in ("a",) else v * (1.0 - 1e-3 * n)
        if isinstance(v, float) and key in ("Omega_c", "R", "sig"):
            return v * (1.0 + 1e-4 * n)
        return v

    return walk(st)
