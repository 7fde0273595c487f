"""Objects and queries, described as plain data.

A spec is JSON.  `{"ref": name}` inside a spec stands for a named object of the
run; resolving it gives the closed spec the oracle works from.
"""
import random
import threading

import numpy as onp

# ---------------------------------------------------------------- building


def _num(v, how):
    """A parameter value in one of the representations users pass."""
    import jax.numpy as jnp

    if how == "np":
        return onp.float64(v)
    if how == "np0":
        return onp.array(v, dtype=onp.float64)
    if how == "jnp":
        return jnp.asarray(float(v))
    if how == "int" and v == int(v):  # as in w0=-1, wa=0, Omega_k=0
        return int(v)
    return float(v)


COSMO_PARAMS = ["Omega_c", "Omega_b", "h", "n_s", "sigma8", "Omega_k", "w0", "wa"]


class World:
    """A copy of the package, the objects made with it and the user's own functions."""

    def __init__(self, jc, hook=None):
        self.jc = jc
        self.objs = {}
        self.hook = hook  # called (name, stage) when a user-supplied function runs
        self._fns = {}
        self._own = threading.local()
        self._user_nz = None
        self.release = None
        self.given = None  # arrays and lists made for a call and handed to it: [(thing, copy)]
        self.overrides = {}  # (objname, path) -> value, used for differentiation

    # -- user-supplied code ------------------------------------------------
    def user_nz(self):
        if self._user_nz is None:
            import jax.numpy as jnp
            from jax.tree_util import register_pytree_node_class

            base = self.jc.redshift.redshift_distribution
            world = self

            @register_pytree_node_class
            class lognormal_nz(base):
                def __init__(self, *args, cut=True, **kwargs):
                    super().__init__(*args, cut=cut, **kwargs)

                def pz_fn(self, z):
                    if world.hook:
                        world.hook("pz_fn")
                    mu, s = self.params
                    zz = jnp.maximum(z, 1e-6)
                    p = jnp.exp(-((jnp.log(zz) - mu) ** 2) / (2 * s**2)) / zz
                    return p * zz / (zz + 0.3) if self.config["cut"] else p

            @register_pytree_node_class
            class mixture_nz(base):
                """parameters of its own in a dictionary and a list"""

                def pz_fn(self, z):
                    if world.hook:
                        world.hook("pz_fn")
                    p, (f, g) = self.params
                    zz = jnp.maximum(z, 1e-6)
                    return sum(w * jnp.exp(-((jnp.log(zz) - m) ** 2) / (2 * p["s"] ** 2)) / zz
                               for w, m in ((f, p["mu"]), (g, p["mu"] + 0.5)))

            # importable, as a class of the user's own program is
            @register_pytree_node_class
            class evolving_bias(self.jc.jax_utils.container):
                """asks the library about the cosmology it is given"""

                def __init__(self, *args, far=1, **kwargs):
                    super().__init__(*args, far=far, **kwargs)

                def __call__(self, cosmo, z):
                    if world.hook:
                        world.hook("bias")
                    b, s = self.params
                    a = jnp.atleast_1d(world.jc.utils.z2a(z))
                    D = world.jc.background.growth_factor(cosmo, a)
                    x = world.jc.background.radial_comoving_distance(cosmo, a)
                    return b / D ** s * (1 + 1e-5 * x * self.config["far"])

            # importable, as a class of the user's own program is
            import sys
            import types

            mod = types.ModuleType("dst_user_program")
            for c in (lognormal_nz, mixture_nz, evolving_bias):
                c.__module__, c.__qualname__ = mod.__name__, c.__name__
                setattr(mod, c.__name__, c)
            sys.modules[mod.__name__] = mod
            self._user_nz, self._user_mix, self._user_bias = lognormal_nz, mixture_nz, evolving_bias
        return self._user_nz

    def user_bias(self):
        self.user_nz()
        return self._user_bias

    def transfer(self, name):
        """A transfer function by name; a new function object when name ends with '!'"""
        if name.startswith("mut:"):  # a user's object which the user changes between calls (each thread its own)
            f = getattr(self._own, "transfer", None)
            if f is None:
                f = self._own.transfer = self._make_transfer("mut")
            f.width = float(name[4:])
            return f
        if not name.endswith("!") and name in self._fns:
            return self._fns[name]
        key, name = name, name.rstrip("!")
        f = self._make_transfer(name)
        self._fns[key] = f
        return f

    def _make_transfer(self, name):
        import jax.numpy as jnp

        jc, hook = self.jc, lambda s: self.hook(s) if self.hook else None
        if name == "EH":
            return jc.transfer.Eisenstein_Hu
        if name == "EHnw":
            def eh_nw(cosmo, k, **kw):
                hook("transfer")
                return jc.transfer.Eisenstein_Hu(cosmo, k, type="eisenhu")
            return eh_nw
        if name.startswith("bbks"):
            amp = {"bbks": 0.1, "bbks2": 0.2, "bbksw": 0.1}[name]

            def bbks(cosmo, k, width=1.0, **kw):
                hook("transfer")
                return 1.0 / (1.0 + (k / (amp * width * cosmo.Omega_m * cosmo.h)) ** 2)
            return bbks
        if name == "mut":
            class Bbks:
                width = 1.0

                def __call__(self, cosmo, k, **kw):
                    hook("transfer")
                    return 1.0 / (1.0 + (k / (0.1 * self.width * cosmo.Omega_m * cosmo.h)) ** 2)
            return Bbks()
        if name == "reent":
            # user code that asks the library again, about the same object
            def reent(cosmo, k, **kw):
                hook("transfer")
                g = jc.background.growth_factor(cosmo, jnp.array([0.5, 0.8]))
                x = jc.background.radial_comoving_distance(cosmo, jnp.array([0.6]))
                s = 0.1 * cosmo.Omega_m * cosmo.h * (1 + 0.1 * g[0] + 1e-5 * x[0])
                return 1.0 / (1.0 + (k / s) ** 2)
            return reent
        raise KeyError(name)

    def crossed(self, other, power=False):
        """A user's transfer function which asks the library about another object"""
        import jax.numpy as jnp

        jc, hook, bbks = self.jc, lambda s: self.hook(s) if self.hook else None, self.transfer("bbks")

        def crossed(cosmo, k, **kw):
            hook("transfer")
            if power:
                p = jc.power.linear_matter_power(other, jnp.array([0.1]), transfer_fn=bbks)
                w = 0.1 + 1e-5 * jnp.reshape(p, ())
            else:
                g = jc.background.growth_rate(other, jnp.array([0.5, 0.8]))
                x = jc.background.radial_comoving_distance(other, jnp.array([0.6]))
                w = 0.1 + 0.01 * g[0] + 1e-6 * x[0]
            return 1.0 / (1.0 + (k / (w * cosmo.Omega_m * cosmo.h)) ** 2)
        return crossed

    def held(self, q, role, fn):
        """The user's function, or an object that is the same at every call but acts otherwise"""
        if not q.get("mut"):
            return fn
        if q["mut"] == "module":  # a function of a module, which uses the module's variables
            f = getattr(self._own, role + "_module", None)
            if f is None:
                space = {}
                exec("def %s(*a):\n    return settings(*a)\n" % role, space)
                f = space[role]
                setattr(self._own, role + "_module", f)
            f.__globals__["settings"] = fn
            return f
        f = getattr(self._own, role, None)
        if f is None:
            class Held:
                def __call__(self, *a):
                    return self.fn(*a)

            f = Held()
            setattr(self._own, role, f)
        f.fn = fn
        return f

    def nonlinear(self, name):
        if name.startswith("mutn:"):
            f = getattr(self._own, "prescription", None)
            if f is None:
                hook = lambda s: self.hook(s) if self.hook else None

                class Boost:
                    amp = 1.0

                    def __call__(self, cosmo, k, a, transfer_fn):
                        hook("nonlinear")
                        return self.amp * cosmo.sigma8**2 * k**cosmo.n_s * transfer_fn(cosmo, k) ** 2

                f = self._own.prescription = Boost()
            f.amp = float(name[5:])
            return f
        if not name.endswith("!") and name in self._fns:
            return self._fns[name]
        key, name = name, name.rstrip("!")
        f = self._make_nonlinear(name)
        self._fns[key] = f
        return f

    def _make_nonlinear(self, name):
        import jax.numpy as jnp

        jc, hook = self.jc, lambda s: self.hook(s) if self.hook else None
        if name == "halofit":
            return jc.power.halofit
        if name == "linear":
            return jc.power.linear
        if name == "smith":
            def smith(cosmo, k, a, transfer_fn):
                hook("nonlinear")
                return jc.power.halofit(cosmo, k, a, transfer_fn, prescription="smith2003")
            return smith
        if name == "triv":
            def triv(cosmo, k, a, transfer_fn):
                hook("nonlinear")
                return cosmo.sigma8**2 * k**cosmo.n_s * transfer_fn(cosmo, k) ** 2
            return triv
        if name == "trivg":
            # re-enters the library for the growth
            def trivg(cosmo, k, a, transfer_fn):
                hook("nonlinear")
                g = jc.background.growth_factor(cosmo, jnp.atleast_1d(a))
                return cosmo.sigma8**2 * k**cosmo.n_s * transfer_fn(cosmo, k) ** 2 * g**2
            return trivg
        raise KeyError(name)

    # -- objects -----------------------------------------------------------
    def make(self, cls, *a, **kw):
        if self.release is not None and self.release[0] is cls:
            self.release[1].clear()  # frees the address the new object should get
        return cls(*a, **kw)

    def build(self, spec, path=""):
        if isinstance(spec, dict) and "ref" in spec:
            return self.objs[spec["ref"]]
        k = spec["k"]
        how = spec.get("how", "float")
        jc = self.jc

        same = {}

        def p(name):
            o = self.overrides.get((path, name))
            if o is None:
                o = _num(spec[name], how)
                if spec.get("shared"):  # equal numbers are one and the same object
                    o = same.setdefault(spec[name], o)
            return o

        if k == "cosmo":
            kw = {n: p(n) for n in COSMO_PARAMS}
            if spec.get("gamma") is not None:
                kw["gamma"] = p("gamma")
            if spec.get("planck") is not None:
                kw = {n: v for n, v in kw.items() if n in spec["planck"] or n == "gamma"}
                return self.make(jc.Planck15, **kw)
            return self.make(jc.Cosmology, **kw)
        nzkw = {}
        if "gals" in spec:
            nzkw["gals_per_arcmin2"] = p("gals")
        if "zmax" in spec:
            nzkw["zmax"] = spec["zmax"]
        if k == "smail":
            return self.make(jc.redshift.smail_nz, p("a"), p("b"), p("z0"), **nzkw)
        if k == "usernz":
            cls = self.user_nz()
            if "mix" in spec:
                return self.make(self._user_mix, {"mu": p("mu"), "s": p("s")}, [p("mix"), _num(0.4, how)], **nzkw)
            if "cut" in spec:
                nzkw["cut"] = spec["cut"]
            return self.make(cls, p("mu"), p("s"), **nzkw)
        if k == "delta":
            return self.make(jc.redshift.delta_nz, p("z0"), **nzkw)
        if k == "kde":
            import jax.numpy as jnp

            arr = onp.asarray if how == "np" else jnp.asarray
            if "ncat" in spec:
                rs = onp.random.RandomState(spec["cseed"])
                z, w = onp.abs(rs.normal(0.8, 0.35, spec["ncat"])) + 0.03, rs.uniform(0.2, 1.0, spec["ncat"])
            else:
                z, w = onp.array(spec["zcat"]), onp.array(spec["w"])
            z, w = arr(z), arr(w)
            o = self.overrides.get((path, "zcat"))
            ow = self.overrides.get((path, "w"))
            return self.make(jc.redshift.kde_nz, z if o is None else o, w if ow is None else ow, bw=spec["bw"], **nzkw)
        if k == "shift":
            return self.make(jc.redshift.systematic_shift, self.build(spec["parent"], path + "/parent"), p("bias"), **nzkw
            )
        if k == "b_const":
            return self.make(jc.bias.constant_linear_bias, p("b"))
        if k == "b_user":
            return self.make(self.user_bias(), p("b"), p("s"), **({"far": spec["far"]} if "far" in spec else {}))
        if k == "b_inv":
            return self.make(jc.bias.inverse_growth_linear_bias, p("b"))
        if k == "b_des":
            return self.make(jc.bias.des_y1_ia_bias, p("A"), p("eta"), p("z0"))
        if k == "wl":
            bins = [self.build(s, path + "/bins%d" % i) for i, s in enumerate(spec["bins"])]
            kw = {}
            if spec.get("ia") is not None:
                kw["ia_bias"] = self._many(spec["ia"], path + "/ia")
            if spec.get("m") is not None:
                m = spec["m"]
                o = self.overrides.get((path, "m"))
                kw["multiplicative_bias"] = (
                    o if o is not None else [_num(x, how) for x in m] if isinstance(m, list) else _num(m, how)
                )
            if spec.get("sigma_e") is not None:
                s = spec["sigma_e"]
                kw["sigma_e"] = list(s) if isinstance(s, list) else s
            return self.make(jc.probes.WeakLensing, bins, **kw)
        if k == "nc":
            bins = [self.build(s, path + "/bins%d" % i) for i, s in enumerate(spec["bins"])]
            kw = {"has_rsd": True} if spec.get("has_rsd") else {}
            return self.make(jc.probes.NumberCounts, bins, self._many(spec["bias"], path + "/bias"), **kw)
        if k == "spline":
            import jax.numpy as jnp

            arr = onp.asarray if how == "np" else jnp.asarray
            from_mod = self.jc.scipy.interpolate.InterpolatedUnivariateSpline
            o = self.overrides.get((path, "y"))
            y = arr(onp.array(spec["y"])) if o is None else o
            x = arr(onp.array(spec["x"]))
            if self.given is not None:
                self.given += [(v, v.copy()) for v in (x, y) if isinstance(v, onp.ndarray)]
            return self.make(
                from_mod, x, y, k=spec["deg"],
                endpoints=spec.get("endpoints", "not-a-knot"),
            )
        raise KeyError(k)

    def _many(self, s, path):
        if isinstance(s, list):
            return [self.build(x, path + str(i)) for i, x in enumerate(s)]
        return self.build(s, path)

    # -- queries -----------------------------------------------------------
    def run_query(self, q, get, conv=None):
        try:
            return self._run_query(q, get, conv)
        finally:
            if q.get("mut"):
                for role in ("integrand", "rhs"):
                    if hasattr(self._own, role):
                        getattr(self._own, role).fn = None
                    if hasattr(self._own, role + "_module"):
                        getattr(self._own, role + "_module").__globals__.pop("settings", None)

    def _run_query(self, q, get, conv=None):
        """Ask query q. get(objref) gives the object; conv turns a list of numbers into
        the array passed by the user (identity of the array type)."""
        import jax.numpy as jnp

        jc = self.jc
        A = conv or (lambda v, nm: jnp.asarray(onp.array(v, dtype=onp.float64)))
        n = q["q"]
        bk = jc.background

        def c():
            return get(q["c"])

        def arr(nm):
            return A(q[nm], nm)

        def own(v):
            """an array or list which the caller made for this call, in his representation"""
            if self.given is None:
                return v
            if isinstance(v, list):
                self.given.append((v, list(v)))
                return v
            style = getattr(conv, "style", None)
            if style in ("np", "npro"):
                try:
                    v = onp.array(v)
                except Exception:  # traced
                    return v
                if style == "npro":
                    v.setflags(write=False)
                self.given.append((v, v.copy()))
            return v

        if n in ("w", "f_de", "Esqr", "H", "Omega_m_a", "Omega_de_a", "dchioverda",
                 "transverse_comoving_distance", "angular_diameter_distance",
                 "growth_factor", "growth_rate"):
            return getattr(bk, n)(c(), arr("a"))
        if n == "chi":
            kw = {}
            if "steps" in q:
                kw["steps"] = q["steps"]
            if "log10_amin" in q:
                kw["log10_amin"] = q["log10_amin"]
            return bk.radial_comoving_distance(c(), arr("a"), **kw)
        if n == "a_of_chi":
            return bk.a_of_chi(c(), arr("chi"))
        if n == "EH":
            return jc.transfer.Eisenstein_Hu(c(), arr("kk"), type=q.get("type", "eisenhu_osc"))
        if n == "primordial":
            return jc.power.primordial_matter_power(c(), arr("kk"))
        if n == "sigmasqr":
            kw = {x: q[x] for x in ("kmin", "kmax") if x in q}
            T = self.crossed(get(q["other"])) if "other" in q else self.transfer(q["T"].rstrip("-"))
            return jc.power.sigmasqr(c(), q["R"], T, **kw)
        if n == "linear":
            kw = dict(q.get("kw") or {})
            if "other" in q:
                kw["transfer_fn"] = self.crossed(get(q["other"]), q["T"] == "crossp")
            elif "T" in q and q["T"] != "EH-":  # EH-: not given, that is the default
                kw["transfer_fn"] = self.transfer(q["T"])
            if "a" in q:
                kw["a"] = arr("a")
            return jc.power.linear_matter_power(c(), arr("kk"), **kw)
        if n == "nonlinear":
            kw = {}
            if "T" in q and q["T"] != "EH-":  # EH-: not given, that is the default
                kw["transfer_fn"] = self.transfer(q["T"])
            if "NL" in q and q["NL"] != "halofit-":
                kw["nonlinear_fn"] = self.nonlinear(q["NL"])
            return jc.power.nonlinear_matter_power(c(), arr("kk"), arr("a"), **kw)
        if n == "cosmo_attrs":
            o = c()
            return [o.Omega, o.Omega_b, o.Omega_c, o.Omega_m, o.Omega_de, o.Omega_k,
                    jnp.sqrt(jnp.abs(o.Omega_k)), o.h, o.w0, o.wa, o.n_s, o.sigma8]
        if n == "str":
            import re

            t = [str(c()), repr(c())]
            return [onp.array([float(x) for y in t for x in re.findall(r"[-+]?[0-9.]+(?:e[-+]?[0-9]+)?", y.replace("sigma8:", ""))]),
                    onp.array([hash_of(re.sub(r"[-+]?[0-9.]+(e[-+]?[0-9]+)?", "#", y)) for y in t])]
        if n == "cosmo_k":
            return [jnp.asarray(get(q["c"]).k, dtype=float), get(q["c"]).sqrtk]
        if n == "nz":
            return get(q["o"])(arr("z"))
        if n == "pz":
            return get(q["o"]).pz_fn(arr("z"))
        if n == "nz_attrs":
            o = get(q["o"])
            return [o.zmax, o.gals_per_arcmin2, o.gals_per_steradian]
        if n == "bias":
            return get(q["o"])(c(), arr("z"))
        if n == "kernel":
            return get(q["o"]).kernel(c(), arr("z"), q["ell"])
        if n == "noise":
            return get(q["o"]).noise()
        if n == "probe_attrs":
            o = get(q["o"])
            return [o.n_tracers, o.zmax]
        if n == "cl":
            return jc.cl.angular_cl(c(), arr("ell"), own([get(o) for o in q["ps"]]), **self._clkw(q))
        if n == "noise_cl":
            return jc.cl.noise_cl(arr("ell"), own([get(o) for o in q["ps"]]))
        if n == "cov":
            ell = arr("ell")
            ps = own([get(o) for o in q["ps"]])
            nt = sum(p.n_tracers for p in ps)
            m = nt * (nt + 1) // 2
            sig = A(q["sig"][:1] * m, "sig")[:, None] * (1.0 + ell[None, :] / 500.0) * (
                1.0 + 0.1 * jnp.arange(m)[:, None]
            )
            noise = jc.cl.noise_cl(ell, ps)
            # the sum must be a JAX array, the library takes it apart in a loop
            if self.given is not None:
                try:
                    jc.cl.gaussian_cl_covariance(ell, ps, own(sig), own(noise))
                except Exception:
                    pass  # refused, but the arrays are the caller's
            sig, noise = (own(sig), noise) if len(q["ell"]) % 2 else (sig, own(noise))
            return jc.cl.gaussian_cl_covariance(
                ell, ps, sig, noise, f_sky=q.get("f_sky", 0.25), sparse=q.get("sparse", True),
            )
        if n == "covmean":
            kw = self._clkw(q)
            mu, C = jc.cl.gaussian_cl_covariance_and_mean(
                c(), arr("ell"), own([get(o) for o in q["ps"]]), f_sky=q.get("f_sky", 0.25),
                sparse=q.get("sparse", False), **kw
            )
            return [mu, C]
        if n == "like":
            kw = self._clkw(q)
            mu, C = jc.cl.gaussian_cl_covariance_and_mean(
                c(), arr("ell"), own([get(o) for o in q["ps"]]), sparse=q.get("sparse", True), **kw
            )
            return jc.likelihood.gaussian_log_likelihood(
                own(1.03 * mu), own(mu), own(C), include_logdet=q.get("logdet", True),
                inverse_method=q.get("inv", "inverse"),
            )
        if n == "spline":
            o = get(q["o"])
            op = q.get("op", "call")
            if op == "call":
                return o(arr("x"))
            if op == "deriv":
                return o.derivative(arr("x"), n=q.get("n", 1))
            if op == "anti":
                return o.antiderivative(arr("x"))
            return o.integral(q["lo"], q["hi"])
        if n == "sparse":
            S = own(self._sparse(q))
            v = arr("v")
            op = q["op"]
            if op == "dot":
                return jc.sparse.dot(S, v)
            if op == "vdot":
                return jc.sparse.dot(v, S)
            if op == "inv":
                return jc.sparse.inv(S)
            if op == "slogdet":
                return list(jc.sparse.slogdet(S))
            if op == "det":
                return jc.sparse.det(S)
            if op == "dense":
                return jc.sparse.to_dense(S)
            if op == "quad":
                X = jnp.stack([v, v[::-1]])
                return jc.sparse.dot(own(X), S, own(X.T))
            raise KeyError(op)
        if n == "loglike":
            S = self._sparse(q)
            v = arr("v")
            C = S if q.get("sparse", True) else jc.sparse.to_dense(S)
            return jc.likelihood.gaussian_log_likelihood(
                v, own(1.1 * v + 0.01), own(C), include_logdet=q.get("logdet", True),
                inverse_method=q.get("inv", "inverse"),
            )
        if n in ("z2a", "a2z"):
            return getattr(jc.utils, n)(arr("z"))
        if n == "romb_c":  # the user's integrand asks the library
            hook = self.hook
            o = c()

            def f(x):
                if hook:
                    hook("integrand")
                return jnp.reshape(getattr(bk, q["fn"])(o, jnp.atleast_1d(x)), jnp.shape(x)) * (1 + q["p"] * x)

            return jc.scipy.integrate.romb(self.held(q, "integrand", f), q["lo"], q["hi"], divmax=5)
        if n == "simps_c":
            hook = self.hook
            o = c()

            def f(x):
                if hook:
                    hook("integrand")
                return jnp.reshape(getattr(bk, q["fn"])(o, jnp.atleast_1d(x)), jnp.shape(x)) * (1 + q["p"] * x)

            return jc.scipy.integrate.simps(self.held(q, "integrand", f), q["lo"], q["hi"], q.get("N", 32))
        if n in ("ode_c", "ode"):
            hook = self.hook
            o = c() if n == "ode_c" else None

            def rhs(y, x):
                if hook:
                    hook("rhs")
                if o is None:
                    return -q["p"] * y + jnp.sin(x)
                return -y * getattr(bk, q["fn"])(o, jnp.atleast_1d(x)) * q["p"]

            return jc.scipy.ode.odeint(self.held(q, "rhs", rhs), jnp.ones(2) if o is None else jnp.ones(1), arr("a"))
        if n == "romb" and q.get("args"):
            hook = self.hook

            def fa(x, p, s):
                if hook:
                    hook("integrand")
                return jnp.exp(-p * x) * (s + x**2)

            r, e = jc.scipy.integrate.romb(self.held(q, "integrand", fa), q["lo"], q["hi"], args=(q["p"], 1.5), divmax=q.get("divmax", 6), return_error=True)
            return [r, r + e]  # the error estimate alone is rounding noise
        if n == "romb":
            p = q["p"]
            hook = self.hook

            def f(x):
                if hook:
                    hook("integrand")
                return jnp.exp(-p * x) * (1 + x**2)

            return jc.scipy.integrate.romb(self.held(q, "integrand", f), q["lo"], q["hi"], divmax=q.get("divmax", 6))
        if n == "simps":
            p = q["p"]
            hook = self.hook

            def f(x):
                if hook:
                    hook("integrand")
                return jnp.exp(-p * x) * (1 + x**2)

            return jc.scipy.integrate.simps(self.held(q, "integrand", f), q["lo"], q["hi"], q.get("N", 64))
        if n == "interp":
            return jc.scipy.interpolate.interp(
                arr("x"), jnp.asarray(arr("xp")), jnp.asarray(arr("fp")))
        raise KeyError(n)

    def _sparse(self, q):
        import jax.numpy as jnp

        nb, nd, s = q["nb"], q["nd"], q["s"]
        i = onp.arange(nb)
        d = onp.arange(nd)
        B = jnp.exp(-onp.abs(i[:, None] - i[None, :]) * (0.5 + s))[:, :, None] * (
            1.0 + 0.1 * s * d[None, None, :]
        )
        B = B + (onp.eye(nb) * (1 + s))[:, :, None]
        return jnp.asarray(B)

    def _clkw(self, q):
        kw = {}
        if "T" in q and q["T"] != "EH-":
            kw["transfer_fn"] = self.transfer(q["T"])
        if "NL" in q and q["NL"] != "halofit-":
            kw["nonlinear_fn"] = self.nonlinear(q["NL"])
        return kw


def hash_of(t):
    import hashlib

    return float(int(hashlib.sha1(t.encode()).hexdigest()[:10], 16))


ARRAY_ARGS = ("a", "chi", "kk", "z", "ell", "x", "v", "xp", "fp")


def refs_of(x):
    """Names of the objects a query or spec mentions, in order."""
    out = []

    def walk(v):
        if isinstance(v, dict):
            if set(v) == {"ref"}:
                out.append(v["ref"])
            else:
                for k in sorted(v):
                    walk(v[k])
        elif isinstance(v, list):
            for y in v:
                walk(y)

    walk(x)
    return out


def resolve(x, specs):
    """Replace references by the specs they stand for (recursively)."""
    if isinstance(x, dict):
        if set(x) == {"ref"}:
            return resolve(specs[x["ref"]], specs)
        return {k: resolve(v, specs) for k, v in x.items()}
    if isinstance(x, list):
        return [resolve(v, specs) for v in x]
    return x


_FIXED = {"k", "q", "T", "NL", "kw", "type", "steps", "log10_amin", "N", "n", "nb", "nd", "deg", "divmax", "ncat", "cseed",
          "fn", "op", "inv", "sparse", "logdet", "endpoints", "planck"}


def nudged(x, by, seed, path=""):
    """A resolved spec or query in which every number is multiplied by almost 1 + by"""
    if isinstance(x, dict):
        return {k: v if k in _FIXED else nudged(v, by, seed, path + "/" + k) for k, v in x.items()}
    if isinstance(x, list):
        return [nudged(v, by, seed, path + "/%d" % i) for i, v in enumerate(x)]
    if isinstance(x, float):
        u = random.Random("%s %s" % (seed, path)).uniform(0.5, 1.5)
        return x * (1.0 + by * u)
    return x


# ---------------------------------------------------------------- describing


def describe(o, leaf=None):
    """Public content of an object: kind, parameters in their roles, options."""
    leaf = leaf or (lambda v: v)
    t = type(o).__name__
    if t == "Cosmology":
        d = {n: leaf(getattr(o, n)) for n in COSMO_PARAMS}
        d["gamma"] = None if o.gamma is None else leaf(o.gamma)
        return {"type": t, **d}
    if hasattr(o, "params") and hasattr(o, "config"):
        d = {"type": t, "params": [describe(x, leaf) for x in o.params],
             "config": {k: describe(v, leaf) for k, v in sorted(o.config.items())}}
        if hasattr(o, "_gals_per_arcmin2"):
            d["gals"] = leaf(o.gals_per_arcmin2)
        return d
    if t == "InterpolatedUnivariateSpline":
        return {"type": t, "k": o.k}
    if isinstance(o, (list, tuple)):
        return [describe(x, leaf) for x in o]
    if isinstance(o, dict):
        return {k: describe(v, leaf) for k, v in sorted(o.items())}
    if isinstance(o, (str, bool)) or o is None:
        return o
    return leaf(o)
