"""Derivatives of programs against finite differences of pristine answers."""
import numpy as onp

from . import contexts, world
from .engine import Outcome, _flatlist, short_tb


def weights(shape, seed):
    return onp.random.RandomState(seed % (2**31)).uniform(0.5, 1.5, size=shape)


def set_path(spec, path, field, v):
    """the closed spec with one parameter replaced"""
    import copy

    spec = copy.deepcopy(spec)
    node = spec
    for p in [x for x in path.split("/") if x]:
        if p.startswith("bins"):
            node = node["bins"][int(p[4:])]
        elif p.startswith("bias") and p[4:].isdigit():
            node = node["bias"][int(p[4:])]
        elif p.startswith("ia") and p[2:].isdigit():
            node = node["ia"][int(p[2:])]
        else:
            node = node[p]
    node[field] = tilt(node[field], v) if isinstance(node[field], list) else v
    return spec


def _walk(node, path):
    for p in [x for x in path.split("/") if x]:
        node = node["bins"][int(p[4:])] if p.startswith("bins") else node[p]
    return node


def tilt(x, t):
    """a list of numbers, moved by one parameter, differently at each place"""
    return [v * (1.0 + (t - 1.0) * (0.4 + 0.6 * j / len(x))) for j, v in enumerate(x)]


def run_program(R, i, s):
    import jax
    import jax.numpy as jnp

    params = s["params"]  # [{"obj":..., "path":..., "field":..., "v":..., "scale":...}] or abscissae
    theta0 = onp.array([p["v"] for p in params])
    scale = onp.array([p["scale"] for p in params])
    v = onp.array(s["dir"]) * scale
    inner = s["inner"]  # name -> spec, built inside the program from theta
    terms = s["terms"]  # [{"q":..., "seed":..., "layers":[...]}]

    # -- reference: the program's terms, one pristine process per answer
    def closed(q, th):
        specs = dict(R.specs)
        specs.update(inner)
        for p, t in zip(params, th):
            if p.get("obj"):
                base = world.resolve(specs[p["obj"]], specs)
                specs[p["obj"]] = set_path(base, p["path"], p["field"], float(t))
        return world.resolve(q, specs)

    def qat(j, th):
        import copy

        q = copy.deepcopy(terms[j]["q"])
        for p, t in zip(params, th):
            if p.get("arg") and p["term"] == j:
                q[p["arg"]] = [x * float(t) for x in q[p["arg"]]] if isinstance(q[p["arg"]], list) else q[p["arg"]] * float(t)
        return closed(q, th)

    def F(th):
        tot = 0.0
        mag = 0.0
        for j, t in enumerate(terms):
            a = R.oracle.query(qat(j, th))
            if "exc" in a:
                return None, None
            for m, x in enumerate(a["v"]):
                if not onp.isfinite(x).all():
                    return None, None
                w = weights(x.shape, t["seed"] + m)
                n = t.get("norm", 1.0)
                tot += float((w * x).sum()) * n
                mag += float(onp.abs(w * x).sum()) * abs(n)
        return tot, mag

    # -- the program itself
    def build_inner(th):
        objs = {}
        for n, sp in inner.items():
            sp = world.resolve(sp, {k: x for k, x in R.specs.items()})
            R.world.overrides = {}
            for jj, p in enumerate(params):
                if p.get("obj") == n:
                    base = _walk(sp, p["path"])[p["field"]]
                    R.world.overrides[(p["path"], p["field"])] = jnp.stack(tilt(base, th[jj])) if isinstance(base, list) else th[jj]
            try:
                objs[n] = R.world.build(sp)
            finally:
                R.world.overrides = {}
        return objs

    def f(th):
        objs = dict(R.world.objs)
        objs.update(build_inner(th))
        tot = 0.0
        for j, t in enumerate(terms):
            q = t["q"]
            arrs = R.arrays(q, "jnp")
            q = dict(q)
            for jj, p in enumerate(params):
                if p.get("arg") and p["term"] == j and not isinstance(q[p["arg"]], list):
                    q[p["arg"]] = q[p["arg"]] * th[jj]
            G, _ = _closure(R, q, objs)
            for jj, p in enumerate(params):
                if p.get("arg") and p["term"] == j and isinstance(q[p["arg"]], list):
                    arrs[p["arg"]] = arrs[p["arg"]] * th[jj]
            names = sorted(set(world.refs_of(q)))
            Fq = contexts.apply_layers(t.get("layers", []), G)
            out = Fq(arrs, {n: objs[n] for n in names})
            for m, x in enumerate(out):
                w = weights(jnp.shape(x), t["seed"] + m)
                tot = tot + jnp.sum(w * x) * t.get("norm", 1.0)
        return tot

    mode = s["mode"]
    th = jnp.asarray(theta0)
    try:
        if mode == "grad":
            g = jax.grad(f)(th)
        elif mode == "jitgrad":
            g = jax.jit(jax.grad(f))(th)
        elif mode == "gradjit":
            g = jax.grad(jax.jit(f))(th)
        elif mode == "jacfwd":
            g = jax.jacfwd(f)(th)
        elif mode == "jacrev":
            g = jax.jacrev(f)(th)
        elif mode == "value_and_grad":
            g = jax.value_and_grad(f)(th)[1]
        elif mode == "vmapgrad":
            g = jax.vmap(jax.grad(f))(jnp.stack([th, th]))[1]
        elif mode == "checkpoint":
            g = jax.grad(jax.checkpoint(f))(th)
        elif mode == "linearize":
            _, lin = jax.linearize(f, th)
            g = jnp.stack([lin(e) for e in jnp.eye(len(th))])
        elif mode == "jitjvp":
            jv = jax.jit(lambda t, d: jax.jvp(f, (t,), (d,))[1])
            g = jnp.stack([jv(th, e) for e in jnp.eye(len(th))])
        elif mode == "gradgrad":  # gradient obtained while differentiating again
            g = jax.jacfwd(f)(th)
            h = jax.grad(lambda t: jnp.vdot(jnp.asarray(v), jax.grad(f)(t)))(th)
            del h
        else:
            raise KeyError(mode)
        g = onp.asarray(g, dtype=float)
        exc = None
    except Exception as e:
        exc = e
    R.stat("mode:" + mode)
    R.log.append([i, "program", mode, "!" + type(exc).__name__ if exc is not None else
                  Outcome(v=[g]).digest()])

    h = s.get("h", 3e-4)
    D = []
    mag = 0.0
    for hh in (h, h / 2):
        a, ma = F(theta0 + hh * v)
        b, mb = F(theta0 - hh * v)
        if a is None or b is None:
            R.stat("derivative-skipped-nonfinite")
            return
        D.append((a - b) / (2 * hh))
        mag = max(mag, ma, mb)
    # one-sided slopes: how much a kink of the interpolated tables may matter here
    f0, _ = F(theta0)
    fp, _ = F(theta0 + h / 2 * v)
    fm, _ = F(theta0 - h / 2 * v)
    right, left = (fp - f0) / (h / 2), (f0 - fm) / (h / 2)
    if exc is not None:
        R.violate("raised", i, "%s of a program raised %s: %s" % (mode, type(exc).__name__, str(exc)[:300]), tb=short_tb(exc))
        return
    rich = (4 * D[1] - D[0]) / 3
    err = abs(D[1] - D[0])
    ad = float(onp.dot(g, v))
    size = max(abs(rich), float(onp.sum(onp.abs(onp.nan_to_num(g) * v))))
    noise = 1e-11 * mag / h
    if not onp.isfinite(g).all():
        R.violate("wrong-derivative", i, "%s gives %s; rate of change is %.8g (params %s)" % (
            mode, g.tolist(), rich, [p.get("field") or p.get("arg") for p in params]))
        return
    tol = 2e-4 * size + 3 * err + 0.75 * abs(right - left) + noise
    R.stat("derivatives-checked")
    if tol > 0.05 * size + 10 * noise:
        R.stat("derivative-skipped-kink")
        return
    if abs(ad - rich) > tol:
        R.violate("wrong-derivative", i, "%s gives %.10g along %s, rate of change is %.10g +- %.2g (params %s, terms %s)" % (
            mode, ad, [round(float(x), 4) for x in s["dir"]], rich, tol,
            [p.get("field") or p.get("arg") for p in params], [t["q"]["q"] for t in terms]))


def _closure(R, q, objs):
    def G(arrs, objs):
        import jax.numpy as jnp

        r = R.world.run_query(
            q, lambda sp: objs[sp["ref"]] if "ref" in sp else R.world.build(sp),
            lambda x, nm: arrs[nm] if nm in arrs else jnp.asarray(onp.array(x, dtype=onp.float64)))
        return _flatlist(r)

    return G, objs
