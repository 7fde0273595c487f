"""JAX transformation contexts a query may fall in.

A query is a function G(arrs, objs) -> list of arrays; a layer turns such a function
into another one that must return the same values.  Layers that abandon a trace do so
first and then ask again.
"""
import numpy as onp


class Abandon(Exception):
    pass


def _stack2(t):
    import jax
    import jax.numpy as jnp

    return jax.tree_util.tree_map(lambda x: jnp.stack([jnp.asarray(x), jnp.asarray(x)]), t)


def _arrays(t):
    import jax
    import jax.numpy as jnp

    return jax.tree_util.tree_map(lambda x: jnp.asarray(x, dtype=float) if _isnum(x) else x, t)


def _isnum(x):
    return isinstance(x, (int, float, onp.ndarray, onp.generic)) or hasattr(x, "dtype")


def _total(out):
    import jax.numpy as jnp

    s = 0.0
    for o in out:
        o = jnp.asarray(o, dtype=float)
        s = s + jnp.sum(jnp.where(jnp.isfinite(o), o, 0.0))
    return s


def layer(name, G):
    import jax
    import jax.extend
    import jax.numpy as jnp
    from jax import lax

    if name == "jit":  # arrays traced, objects captured
        return lambda a, o: jax.jit(lambda a: G(a, o))(a)
    if name == "jit_closed":  # everything captured
        return lambda a, o: jax.jit(lambda: G(a, o))()
    if name == "jit_obj":
        return lambda a, o: jax.jit(G)(a, o)
    if name == "vmap":
        return lambda a, o: [x[1] for x in jax.vmap(lambda a: G(a, o))(_stack2(a))] if a else G(a, o)
    if name == "vmap_dummy":
        def f(a, o):
            def one(t):
                return [jnp.asarray(x, dtype=float) + 0.0 * t for x in G(a, o)]
            return [x[0] for x in jax.vmap(one)(jnp.arange(2.0))]
        return f
    if name == "vmap_obj":
        return lambda a, o: [x[1] for x in jax.vmap(lambda o: G(a, o))(_stack2(o))] if o else G(a, o)
    if name == "scan":
        def f(a, o):
            _, ys = lax.scan(lambda c, t: (c + t, G(a, o)), 0.0, jnp.arange(2.0))
            return [y[-1] for y in ys]
        return f
    if name == "scan_x":
        def f(a, o):
            if not a:
                return G(a, o)
            _, ys = lax.scan(lambda c, x: (c, G(x, o)), 0.0, _stack2(a))
            return [y[-1] for y in ys]
        return f
    if name == "scan_obj":
        def f(a, o):
            o = _arrays(o)
            _, ys = lax.scan(lambda c, t: (c, G(a, c)), o, jnp.arange(2.0))
            return [y[-1] for y in ys]
        return f
    if name == "map":
        return lambda a, o: [y[1] for y in lax.map(lambda t: G(a, o), jnp.arange(2.0))]
    if name == "cond":
        return lambda a, o: lax.cond(jnp.asarray(True), lambda a: G(a, o), lambda a: G(a, o), a)
    if name == "cond_obj":
        return lambda a, o: lax.cond(jnp.asarray(False), G, G, a, _arrays(o))
    if name == "switch":
        def f(a, o):
            br = [lambda a: [0.0 * x for x in G(a, o)], lambda a: [1.0 * x for x in G(a, o)]]
            return lax.switch(jnp.asarray(1), br, a)
        return f
    if name == "checkpoint":
        return lambda a, o: jax.checkpoint(lambda a: G(a, o))(a)
    if name == "jvp":
        def f(a, o):
            if not a:
                return G(a, o)
            a = _arrays(a)
            z = jax.tree_util.tree_map(jnp.ones_like, a)
            return jax.jvp(lambda a: G(a, o), (a,), (z,))[0]
        return f
    if name == "vjp":
        return lambda a, o: jax.vjp(lambda a: [jnp.asarray(x, dtype=float) for x in G(a, o)], _arrays(a))[0] if a else G(a, o)
    if name == "linearize":
        return lambda a, o: jax.linearize(lambda a: [jnp.asarray(x, dtype=float) for x in G(a, o)], _arrays(a))[0] if a else G(a, o)
    if name == "grad":
        def f(a, o):
            if not a:
                return G(a, o)

            def h(a):
                out = G(a, o)
                return _total(out), out
            return jax.value_and_grad(h, has_aux=True)(_arrays(a))[0][1]
        return f
    if name == "grad_obj":
        def f(a, o):
            if not o:
                return G(a, o)

            def h(o):
                out = G(a, o)
                return _total(out), out
            return jax.value_and_grad(h, has_aux=True)(_arrays(o))[0][1]
        return f
    if name == "jvp_obj":
        def f(a, o):
            if not o:
                return G(a, o)
            o = _arrays(o)
            z = jax.tree_util.tree_map(jnp.ones_like, o)
            return jax.jvp(lambda o: G(a, o), (o,), (z,))[0]
        return f
    if name == "disable_jit":
        def f(a, o):
            with jax.disable_jit():
                return G(a, o)
        return f
    if name == "jaxpr":
        def f(a, o):
            cj = jax.make_jaxpr(lambda a: G(a, o))(a)
            return jax.extend.core.jaxpr_as_fun(cj)(*jax.tree_util.tree_leaves(a))
        return f
    if name == "aot":
        return lambda a, o: jax.jit(lambda a: G(a, o)).lower(a).compile()(a)
    if name == "eval_shape":  # abstract only, then ask
        def f(a, o):
            jax.eval_shape(lambda a: G(a, o), a)
            return G(a, o)
        return f
    if name == "eval_shape_obj":
        def f(a, o):
            jax.eval_shape(G, a, o)
            return G(a, o)
        return f
    if name == "lower_only":
        def f(a, o):
            jax.jit(lambda a: G(a, o)).lower(a)
            return G(a, o)
        return f
    if name == "abandon":  # the user's transformed function fails after the query
        def f(a, o):
            def bad(a):
                G(a, o)
                raise Abandon()
            try:
                jax.jit(bad)(a)
            except Abandon:
                pass
            return G(a, o)
        return f
    if name == "abandon_grad":
        def f(a, o):
            def bad(a):
                _total(G(a, o))
                raise Abandon()
            try:
                jax.grad(bad)(_arrays(a))
            except Abandon:
                pass
            return G(a, o)
        return f
    if name == "abandon_scan":
        def f(a, o):
            def bad(c, t):
                G(a, o)
                raise Abandon()
            try:
                lax.scan(bad, 0.0, jnp.arange(2.0))
            except Abandon:
                pass
            return G(a, o)
        return f
    if name == "twice":
        def f(a, o):
            G(a, o)
            return G(a, o)
        return f
    raise KeyError(name)


PLAIN = ["jit", "jit_closed", "vmap", "vmap_dummy", "scan", "scan_x", "map", "cond", "switch",
         "checkpoint", "jvp", "vjp", "linearize", "grad", "jaxpr", "aot", "eval_shape",
         "lower_only", "abandon", "abandon_grad", "abandon_scan", "twice"]
OBJ = ["jit_obj", "vmap_obj", "scan_obj", "cond_obj", "grad_obj", "jvp_obj", "eval_shape_obj"]
SLOW = ["disable_jit"]


def apply_layers(layers, G):
    for n in layers:
        G = layer(n, G)
    return G
