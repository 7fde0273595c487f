"""Ways an object is carried: each returns an object that must be the same."""
import copy
import pickle

import numpy as onp


def _arrays(t):
    import jax
    import jax.numpy as jnp

    return jax.tree_util.tree_map(lambda x: jnp.asarray(x, dtype=float), t)


def transport(name, o, other=None):
    import jax
    import jax.numpy as jnp

    o = _transport(name, o, other)
    # JAX hands scalars that went through some transformations back as literals of a
    # private kind, which JAX itself cannot unpickle; users never keep those for long
    if any(type(x).__name__ == "TypedNdArray" for x in jax.tree_util.tree_leaves(o)):
        o = jax.tree_util.tree_map(lambda x: jnp.asarray(x) if type(x).__name__ == "TypedNdArray" else x, o)
    return o


def _numbers(o, by=0.0):
    """The numeric parameters of an object, not its options, each in its place"""
    from . import world

    if type(o).__name__ == "Cosmology" or type(o).__name__ == "InterpolatedUnivariateSpline":
        return world.describe(o, lambda v: onp.asarray(v, dtype=onp.float64) + by)
    if hasattr(o, "params") and hasattr(o, "config"):
        d = {"type": type(o).__name__, "params": [_numbers(x, by) for x in o.params]}
        if hasattr(o, "_gals_per_arcmin2"):
            d["gals"] = onp.asarray(o.gals_per_arcmin2, dtype=onp.float64) + by
        return d
    if isinstance(o, (list, tuple)):
        return [_numbers(x, by) for x in o]
    return world.describe(o, lambda v: onp.asarray(v, dtype=onp.float64) + by)


def _close(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(_close(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(_close(x, y) for x, y in zip(a, b))
    if isinstance(a, (onp.ndarray, onp.generic)) and isinstance(b, (onp.ndarray, onp.generic)):
        return a.shape == b.shape and bool(onp.allclose(a, b, rtol=1e-5, atol=1e-6))
    return type(a) is type(b) and (a is b or a == b)


def _transport(name, o, other=None):
    import jax
    import jax.numpy as jnp
    from jax import lax

    tu = jax.tree_util
    if name == "flatten":
        leaves, td = tu.tree_flatten(o)
        return tu.tree_unflatten(td, leaves)
    if name == "tree_map":
        return tu.tree_map(lambda x: x, o)
    if name == "tree_map2":
        return tu.tree_map(lambda x, y: 0.5 * (x + y), o, o)
    if name == "scale":  # away and back
        p = tu.tree_map(lambda x: 2.0 * x, o)
        return tu.tree_map(lambda x: 0.5 * x, p)
    if name == "moved":  # batched with an object of other parameters, and unbatched
        p = tu.tree_map(lambda x: jnp.asarray(x, dtype=float) + 0.25, o)
        want, got = _numbers(o, 0.25), _numbers(p)
        assert _close(want, got), "moving every parameter by 0.25 gives %s, not %s" % (got, want)
        st = tu.tree_map(lambda x, y: jnp.stack([jnp.asarray(x, dtype=float), y]), o, p)
        st = jax.vmap(lambda o: o)(st)
        q = tu.tree_map(lambda x: x[1], st)
        assert _close(want, _numbers(q)), "the other object of the batch has %s, not %s" % (_numbers(q), want)
        return tu.tree_map(lambda x: x[0], st)
    if name == "batch_one":  # a batch of one object
        st = tu.tree_map(lambda x: jnp.asarray(x)[None], o)
        st = tu.tree_unflatten(tu.tree_structure(st), tu.tree_leaves(st))
        return tu.tree_map(lambda x: x[0], st)
    if name == "batch_none":  # a batch of no object, and one put into it
        e = tu.tree_map(lambda x: jnp.asarray(x)[None][:0], o)
        st = tu.tree_map(lambda e, x: jnp.concatenate([e, jnp.asarray(x)[None]]), e, o)
        return tu.tree_map(lambda x: x[-1], st)
    if name == "grid":  # a two-dimensional batch
        st = tu.tree_map(lambda x: jnp.stack([jnp.stack([jnp.asarray(x)] * 2)]), o)
        st = jax.vmap(jax.vmap(lambda o: o))(st)
        return tu.tree_map(lambda x: x[0, 1], st)
    if name == "placeholder":  # taken apart, structure kept with placeholders, rebuilt
        leaves, td = tu.tree_flatten(o)
        hollow = tu.tree_unflatten(td, [object() for _ in leaves])
        td2 = tu.tree_structure(hollow)
        return tu.tree_unflatten(td2, leaves)
    if name == "with_path":
        kl, td = tu.tree_flatten_with_path(o)
        return tu.tree_unflatten(td, [v for _, v in kl])
    if name == "jit":
        return jax.jit(lambda o: o)(o)
    if name == "jit_pair":
        return jax.jit(lambda t: {"x": (t["x"][1], t["x"][0])})({"x": (1.0, o)})["x"][0]
    if name == "jit_nested":
        return jax.jit(lambda o: jax.jit(lambda p: p)(o))(o)
    if name == "vmap_out":
        p = jax.vmap(lambda t: tu.tree_map(lambda x: x + 0.0 * t, o))(jnp.arange(3.0))
        return tu.tree_map(lambda x: x[1], p)
    if name == "vmap_in":
        st = tu.tree_map(lambda x: jnp.stack([jnp.asarray(x)] * 2), o)
        p = jax.vmap(lambda o: o)(st)
        return tu.tree_map(lambda x: x[0], p)
    if name == "stack":
        st = tu.tree_map(lambda x, y: jnp.stack([jnp.asarray(x), jnp.asarray(y)]), o, o)
        return tu.tree_map(lambda x: x[1], st)
    if name == "scan":
        p, _ = lax.scan(lambda c, t: (c, t), _arrays(o), jnp.arange(2.0))
        return p
    if name == "scan_out":
        _, ps = lax.scan(lambda c, t: (c, o), 0.0, jnp.arange(2.0))
        return tu.tree_map(lambda x: x[1], ps)
    if name == "fori":
        return lax.fori_loop(0, 2, lambda i, c: c, _arrays(o))
    if name == "while":
        return lax.while_loop(lambda c: c[0] < 2, lambda c: (c[0] + 1, c[1]), (0, _arrays(o)))[1]
    if name == "cond":
        a = _arrays(o)
        return lax.cond(jnp.asarray(True), lambda o: o, lambda o: tu.tree_map(jnp.zeros_like, o), a)
    if name == "checkpoint":
        return jax.checkpoint(lambda o: o)(o)
    if name == "device_put":
        return jax.device_put(o)
    if name == "device_get":
        return jax.device_get(jax.device_put(o))
    if name == "block":
        return jax.block_until_ready(o)
    if name == "jvp":
        a = _arrays(o)
        return jax.jvp(lambda o: o, (a,), (a,))[1]
    if name == "vjp":
        a = _arrays(o)
        out, f = jax.vjp(lambda o: o, a)
        return f(a)[0]
    if name == "grad":  # derivative of 1/2 |leaves|^2 is the object itself
        a = _arrays(o)
        return jax.grad(lambda o: sum(0.5 * jnp.sum(x**2) for x in tu.tree_leaves(o)))(a)
    if name == "linearize":
        a = _arrays(o)
        return jax.linearize(lambda o: o, a)[0]
    if name == "ravel":
        from jax.flatten_util import ravel_pytree

        v, un = ravel_pytree(o)
        return un(v)
    if name == "eval_shape":
        s = jax.eval_shape(lambda o: o, o)
        return tu.tree_map(lambda s, x: jnp.asarray(x, dtype=s.dtype), s, o)
    if name == "optstep":  # an optimiser update of size zero
        g = tu.tree_map(lambda x: jnp.zeros_like(jnp.asarray(x, dtype=float)), o)
        return tu.tree_map(lambda p, g: p - 0.1 * g, o, g)
    if name == "partial":
        return tu.Partial(lambda o: o, o).args[0]
    if name == "copy":
        return copy.copy(o)
    if name == "deepcopy":
        return copy.deepcopy(o)
    if name == "pickle":
        return pickle.loads(pickle.dumps(o))
    if name == "pickle5":
        return pickle.loads(pickle.dumps(o, protocol=5))
    raise KeyError(name)


ALL = ["flatten", "moved", "batch_one", "batch_none", "grid", "moved", "tree_map", "tree_map2", "scale", "placeholder", "with_path", "jit", "jit_pair",
       "jit_nested", "vmap_out", "vmap_in", "stack", "scan", "scan_out", "fori", "while", "cond",
       "checkpoint", "device_put", "device_get", "block", "jvp", "vjp", "grad", "linearize",
       "ravel", "eval_shape", "optstep", "partial", "copy", "deepcopy", "pickle", "pickle5"]
