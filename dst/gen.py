"""Plans, drawn from one integer each."""
import copy
import json
import os
import random

from . import contexts, sut, transports, world
from .common import SETTINGS

# ------------------------------------------------------------------ material


def r4(x):
    return float("%.4g" % x)


PLANCK = {"Omega_c": 0.2589, "Omega_b": 0.04860, "Omega_k": 0.0, "h": 0.6774, "n_s": 0.9667, "sigma8": 0.8159, "w0": -1.0, "wa": 0.0}


def twins(R, base, lo, hi):
    """abscissae that agree with `base` in length, ends, sum or contents, but not in value"""
    out = [base]
    n = len(base)
    if n > 2:
        t = list(base)
        j = R.randrange(1, n - 1)
        t[j] = r4(t[j - 1] + (t[j + 1] - t[j - 1]) * R.uniform(0.2, 0.8))
        out.append(t)
        out.append(base[::-1])
        if n > 3:
            d = 0.3 * min(b - a for a, b in zip(base, base[1:]))
            t = list(base)
            t[1] += d
            t[2] -= d
            out.append(t)
    else:
        out.append([r4(min(hi, v * 1.03)) if v * 1.03 < hi else r4(v * 0.96) for v in base])
    out.append([r4(lo + (hi - lo) * R.random()) for _ in base])
    out.append([v * (1.0 - R.choice([4e-6, 2e-7])) for v in base])  # all but equal
    return out


def near(R, s, f):
    """change the number s[f] so little that a tolerance may take it for the same"""
    s[f] = s[f] * (1.0 + R.choice([4e-6, 2e-7])) if s[f] else 1e-7


class Pool:
    """Values shared by the plans of one batch, so that pristine answers are shared too."""

    def __init__(self, seed):
        R = random.Random("pool%d" % seed)
        self.cosmos = [self._cosmo(R, i) for i in range(9)]

        def fam(n, lo, hi, sizes, f=lambda x: x):
            out = []
            for j in range(n):
                k = sizes[j % len(sizes)]
                base = sorted(r4(f(R.uniform(lo, hi))) for _ in range(k))
                out.append(twins(R, base, f(lo), f(hi)))
            return out

        self.fA = fam(4, 0.12, 0.97, [3, 1, 4, 3])
        self.fK = fam(3, -2.7, 0.6, [3, 1, 3], lambda x: 10**x)
        self.fZ = fam(4, 0.05, 1.9, [4, 3, 4, 3])
        self.fELL = fam(2, 10, 1500, [3, 3])
        self.fX = fam(3, 50, 3500, [3, 1, 3])
        # the far ends of the tables
        self.wide = {"A": [[0.0025, 0.012, 0.06], [0.0025, 0.012, 0.061], [1.0, 0.5]], "Z": [[0.0, 0.002, 3.4, 7.5], [0.0, 0.002, 3.5, 7.5]],
                     "K": [[1e-4, 18.0, 60.0], [1e-4, 19.0, 60.0]], "ELL": [[2.0, 3000.0, 6000.0], [2.0, 3100.0, 6000.0]], "X": [[0.5, 5200.0, 6500.0], [0.5, 5300.0, 6500.0]]}
        # longer than anything a test uses
        self.long = {"A": [r4(0.1 + 0.85 * j / 299) for j in range(300)], "Z": [r4(0.02 + 1.9 * j / 199) for j in range(200)],
                     "K": [r4(10 ** (-3 + 4 * j / 149)) for j in range(150)], "X": [r4(30 + 3600 * j / 299) for j in range(300)],
                     "ELL": [r4(10 * 1.12**j) for j in range(40)]}
        self.nzs = [self._nz(R, (k,)) for k in ("smail", "smail", "smail", "kde", "shift", "shift_kde", "usernz", "smail", "kde", "usernz")]
        self.nzs.append({"k": "kde", "ncat": R.choice([1500, 3000]), "cseed": R.randrange(10**6), "bw": 0.15, "zmax": 3.0, "gals": 2.0})
        self.focus(None)

    def focus(self, R, wide=True):
        """a view on few families, so that queries of one plan are near misses of each other"""
        P = self if R is None else copy.copy(self)
        for n in ("A", "K", "Z", "ELL", "X"):
            f = getattr(self, "f" + n)
            if R is not None:
                f = R.sample(f, min(len(f), 2))
            v = [x for g in f for x in g]
            if R is not None and R.random() < 0.12:
                v.append(self.long[n])
            if R is not None and wide and R.random() < 0.15:
                f = f[:1] + [self.wide[n]]
                v = [x for g in f for x in g]
            setattr(P, n, v)
            setattr(P, "fam_" + n, f)
        return P

    def _cosmo(self, R, i=0):
        c = {
            "k": "cosmo", "Omega_c": r4(R.uniform(0.17, 0.35)), "Omega_b": r4(R.uniform(0.03, 0.06)),
            "h": r4(R.uniform(0.6, 0.8)), "n_s": r4(R.uniform(0.9, 1.05)),
            "sigma8": r4(R.uniform(0.7, 0.95)),
            "Omega_k": [0.0, r4(R.uniform(0.02, 0.08)), r4(R.uniform(-0.08, -0.02))][i % 3],
            "w0": -1.0 if R.random() < 0.4 else r4(R.uniform(-1.2, -0.8)),
            "wa": 0.0 if R.random() < 0.4 else r4(R.uniform(-0.3, 0.2)),
        }
        if i in (1, 3, 8):
            c["gamma"] = r4(R.uniform(0.48, 0.62))
        if i == 6:  # the default cosmology, some of its parameters overridden
            c["planck"] = sorted(R.sample(["Omega_c", "h", "sigma8", "w0"], R.choice([0, 1, 2])))
            for f, v in PLANCK.items():
                if f not in c["planck"]:
                    c[f] = v
        return c

    def _nz(self, R, kinds=("smail", "smail", "smail", "kde", "shift", "shift_kde", "usernz")):
        k = R.choice(kinds)
        base = {"zmax": R.choice([2.0, 3.0, 3.0, 4.0, 10.0]), "gals": r4(R.uniform(0.5, 12))}
        if R.random() < 0.25:
            base.pop("gals")
        if k == "smail":
            return {"k": "smail", "a": r4(R.uniform(1.1, 2.4)), "b": r4(R.choice([R.uniform(1, 2), R.uniform(0.75, 1)])),
                    "z0": r4(R.uniform(0.2, 0.9)), **base}
        if k == "kde":
            n = R.choice([6, 9, 14])
            return {"k": "kde", "zcat": [r4(abs(R.gauss(0.8, 0.3)) + 0.05) for _ in range(n)],
                    "w": [r4(R.uniform(0.2, 1)) for _ in range(n)], "bw": R.choice([0.1, 0.15, 0.2]), **base}
        if k == "shift":
            return {"k": "shift", "parent": self._nz(R, ("smail",)), "bias": r4(R.uniform(-0.08, 0.1)), **base}
        if k == "shift_kde":
            return {"k": "shift", "parent": self._nz(R, ("kde", "usernz")), "bias": r4(R.uniform(-0.05, 0.1)), **base}
        if k == "usernz":
            return {"k": "usernz", "mu": r4(R.uniform(-0.7, 0.1)), "s": r4(R.uniform(0.3, 0.6)), **base,
                    **R.choice([{}, {"cut": False}, {"cut": True}, {"mix": r4(R.uniform(0.2, 0.8))}])}
        raise KeyError(k)


USERFN = ["radial_comoving_distance", "growth_factor", "growth_rate", "Esqr", "transverse_comoving_distance", "dchioverda"]


class Gen:
    def __init__(self, seed, prop, pool, tier="quick"):
        self.R = random.Random("%s/%d" % (prop, seed))
        self.seed = seed
        self.pool = pool.focus(self.R, wide=prop != "C07")
        self.prop = prop
        self.tier = tier
        self.specs = {}
        self.steps = []
        self.n = 0
        self.floats = False
        self.star = self.kind = None
        self.budget = 10.0 if tier == "quick" else 18.0

    # ---- objects
    def name(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def how(self):
        if self.floats:  # JAX itself refuses NumPy and 64-bit parameters across precision switches
            return "float"
        return self.R.choice(["float", "float", "np", "np0", "jnp", "jnp"])

    def emit(self, **s):
        self.steps.append(s)
        return s

    def new(self, spec, p="o"):
        n = self.name(p)
        self.specs[n] = spec
        self.emit(op="new", name=n, spec=spec)
        return n

    def cosmo_spec(self):
        c = dict(self.R.choice(self.pool.cosmos))
        c["how"] = self.how()
        if c["how"] == "float" and self.R.random() < 0.35:
            c["how"] = "int"
        if "planck" not in c:
            self.share(c, [("Omega_c", "Omega_b", 0.15), ("n_s", "sigma8", 0.93)])
        return c

    def share(self, s, pairs):
        """now and then one number, the very same object, is given for two parameters"""
        if self.R.random() < 0.07:
            a, b, v = self.R.choice(pairs)
            s[a] = s[b] = v
            s["shared"] = True

    def nz_spec(self, delta=False):
        R = self.R
        if delta and R.random() < 0.5:
            return {"k": "delta", "z0": R.choice([0.5, 0.8, 1.1]), "zmax": R.choice([2.0, 3.0]), "gals": R.choice([1.0, 4.0])}
        s = dict(R.choice(self.pool.nzs))
        s["how"] = self.how()
        if s["k"] == "smail":
            self.share(s, [("a", "b", 1.5), ("a", "z0", 0.9)])
        elif s["k"] == "usernz" and "mix" not in s:
            self.share(s, [("mu", "s", 0.5)])
        return s

    def bias_spec(self):
        R = self.R
        k = R.choice(["b_const", "b_inv", "b_des", "b_des", "b_user"])
        if k == "b_user":
            s = {"k": k, "b": R.choice([0.9, 1.2, 1.7]), "s": R.choice([0.5, 1.0]), "how": self.how(), **R.choice([{}, {"far": 0}, {"far": 2}])}
            self.share(s, [("b", "s", 0.8)])
            return s
        if k == "b_des":
            s = {"k": k, "A": R.choice([0.5, 1.0, 1.4]), "eta": R.choice([-0.5, 0.3, 1.0]), "z0": R.choice([0.5, 0.62]), "how": self.how()}
            for _ in range(2):
                self.share(s, [("A", "eta", 0.8), ("A", "z0", 0.7), ("eta", "z0", 0.6)])
            return s
        return {"k": k, "b": R.choice([0.9, 1.2, 1.7, 2.3]), "how": self.how()}

    def probe_spec(self, bins, biases):
        """bins, biases: lists of references or specs"""
        R = self.R
        nb = R.choice([1, 1, 2, 2, 3]) if len(bins) else 1
        bs = [R.choice(bins) for _ in range(nb)]
        isdelta = any(self._kind(b) == "delta" for b in bs)
        if isdelta or R.random() < 0.5:
            s = {"k": "wl", "bins": bs, "how": self.how()}
            if not isdelta and R.random() < 0.6:
                s["ia"] = R.choice(biases) if R.random() < 0.6 else [R.choice(biases) for _ in bs]
            if R.random() < 0.6:
                s["m"] = R.choice([0.02, -0.05, 0.1, 0.0]) if R.random() < 0.5 else [R.choice([0.01, 0.03, -0.02]) for _ in bs]
            if R.random() < 0.6:
                s["sigma_e"] = R.choice([0.2, 0.3, 0.0]) if R.random() < 0.5 else [R.choice([0.21, 0.26, 0.31, 0.0]) for _ in bs]
            return s
        return {"k": "nc", "bins": bs, "bias": R.choice(biases) if R.random() < 0.6 else [R.choice(biases) for _ in bs],
                "has_rsd": R.random() < 0.2, "how": self.how()}

    def _kind(self, x):
        return (self.specs[x["ref"]] if "ref" in x else x)["k"]

    def spline_spec(self):
        R = self.R
        n = R.choice([5, 7, 9])
        x = [0.0]
        for _ in range(n - 1):
            x.append(r4(x[-1] + R.uniform(0.1, 0.4)))
        deg = R.choice([1, 2, 3])
        return {"k": "spline", "x": x, "y": [r4(R.uniform(-1, 1)) for _ in range(n)], "deg": deg,
                "endpoints": R.choice(["not-a-knot", "natural"]) if deg == 3 else "not-a-knot",
                "how": "np" if self.floats else R.choice(["np", "jnp"])}

    def sibling(self, spec):
        """the same but for one parameter or option"""
        R = self.R
        self.field = None
        s = copy.deepcopy(spec)
        k = s["k"]
        if R.random() < 0.15:
            fs = [f for f in ("Omega_c", "h", "n_s", "sigma8", "Omega_k", "w0", "wa", "gamma", "a", "b", "z0", "bw", "bias", "mu", "A")
                  if isinstance(s.get(f), float)]
            if fs:
                self.field = f = R.choice(fs)
                near(R, s, f)
                if "planck" in s:
                    s["planck"] = sorted({f, *s["planck"]})
                return s
        if k == "cosmo":
            f = R.choice(["Omega_c", "Omega_b", "h", "n_s", "sigma8", "Omega_k", "w0", "wa", "gamma"])
            self.field = f
            if f == "gamma":
                if s.get("gamma") is None:
                    s["gamma"] = 0.55
                elif R.random() < 0.5:
                    s["gamma"] = None
                else:
                    s["gamma"] = r4(s["gamma"] + 0.03)
            else:
                s[f] = r4(s[f] + R.choice([0.01, -0.01, 0.02]))
                if "planck" in s:
                    s["planck"] = sorted({f, *s["planck"]})
        elif k in ("smail", "kde", "shift", "usernz", "delta"):
            f = R.choice({"smail": ["a", "b", "z0", "zmax", "gals"], "kde": ["bw", "zmax", "gals", "zcat", "w"] if "zcat" in s else ["bw", "cseed", "gals"],
                          "shift": ["bias", "zmax", "gals", "parent"], "usernz": ["mu", "s", "zmax"],
                          "delta": ["z0", "gals", "zmax"]}[k])
            self.field = f
            if f == "zmax":
                s["zmax"] = (s.get("zmax") or 10.0) + R.choice([0.5, 1.0])
            elif f == "gals":
                s["gals"] = r4(s.get("gals", 1.0) * 1.7)
            elif f == "cseed":
                s["cseed"] += 1
            elif isinstance(s[f], list) and R.random() < 0.5:
                s[f] = s[f][1:] + s[f][:1]  # the same values, otherwise paired
            elif f == "parent":
                s["parent"] = self.sibling(s["parent"])
            elif isinstance(s[f], list):
                s[f] = [r4(v * 1.1) for v in s[f]]
            else:
                s[f] = r4(s[f] * 1.1 + 0.01)
        elif k in ("b_const", "b_inv", "b_user"):
            s["b"] = r4(s["b"] + 0.3)
        elif k == "b_des":
            f = R.choice(["A", "eta", "z0"])
            s[f] = r4(s[f] + 0.2)
        elif k == "wl":
            f = R.choice(["m", "sigma_e", "ia", "bins", "bin"])
            self.field = f
            nb = len(s["bins"])
            if f == "bin":
                self._other_bin(s)
            elif f == "m":
                s["m"] = R.choice([0.07, [0.04 + 0.01 * i for i in range(nb)], None])
            elif f == "sigma_e":
                s["sigma_e"] = R.choice([0.33, [0.2 + 0.05 * i for i in range(nb)], None])
            elif f == "ia":
                if any(self._kind(b) == "delta" for b in s["bins"]):
                    s["m"] = 0.07
                else:
                    s["ia"] = None if s.get("ia") is not None else {"k": "b_const", "b": 1.1}
            elif nb > 1:
                s["bins"] = s["bins"][::-1]
            else:
                s["bins"] = s["bins"] * 2
                for f in ("m", "sigma_e", "ia"):
                    if isinstance(s.get(f), list):
                        s[f] = s[f] * 2
        elif k == "nc":
            self.field = f = R.choice(["bias", "bias", "bin"])
            if f == "bin":
                self._other_bin(s)
            elif isinstance(s["bias"], list):
                s["bias"] = s["bias"][::-1] if R.random() < 0.5 else s["bias"][0]
            else:
                s["bias"] = [s["bias"]] * (len(s["bins"]) - 1) + [{"k": "b_const", "b": 1.35}]
        elif k == "spline":
            f = R.choice(["y", "endpoints", "deg"])
            if f == "y":
                s["y"] = [r4(v + 0.1 * (i % 2)) for i, v in enumerate(s["y"])]
            elif f == "deg" and len(s["x"]) > 4:
                s["deg"] = {1: 2, 2: 3, 3: 1}[s["deg"]]
                if s["deg"] != 3:
                    s["endpoints"] = "not-a-knot"
            elif s["deg"] == 3:
                s["endpoints"] = "natural" if s["endpoints"] == "not-a-knot" else "not-a-knot"
            else:
                s["y"] = [r4(v * 1.2) for v in s["y"]]
        return s

    def _other_bin(self, s):
        i = self.R.randrange(len(s["bins"]))
        b = s["bins"][i]
        s["bins"][i] = self.sibling(self.specs[b["ref"]] if "ref" in b else b)

    def sensitive(self, name, field, cheap=False):
        """a query on this object whose answer depends on the parameter the sibling differs in"""
        R = self.R
        k = self.specs[name]["k"]
        if k == "cosmo":
            want = {"n_s": ("linear", "linear", "linear", "primordial", "sigmasqr", "cosmo_k"), "sigma8": ("linear", "nonlinear", "cl"),
                    "h": ("EH", "linear", "linear", "sigmasqr", "cosmo_k", "H"), "Omega_b": ("EH", "linear", "linear", "sigmasqr", "cosmo_attrs"),
                    "gamma": ("growth_factor", "growth_rate", "linear", "cosmo_attrs"),
                    "Omega_k": ("chi", "transverse_comoving_distance", "angular_diameter_distance", "Esqr", "a_of_chi", "kernel"),
                    "w0": ("chi", "growth_factor", "w", "f_de", "kernel", "a_of_chi"), "wa": ("chi", "growth_factor", "w", "f_de", "a_of_chi"),
                    "Omega_c": ("chi", "growth_factor", "linear", "kernel", "a_of_chi", "nonlinear", "cl")}[field]
        elif k in ("wl", "nc"):
            want = {"sigma_e": ("noise", "noise_cl", "cov"), "m": ("kernel", "cl"), "ia": ("kernel", "cl"), "bias": ("kernel", "cl")}.get(
                field, ("kernel", "cl", "noise", "probe_attrs"))
        elif k in ("smail", "kde", "shift", "usernz"):
            want = ("nz_attrs", "nz") if field in ("gals", "zmax") else ("nz", "nz", "pz")
        else:
            return None
        w = R.choice(want)
        for _ in range(80):
            b = self.budget
            if k == "cosmo":
                q = self.q_cl(name, [R.choice(self.probes)]) if w == "cl" and self.probes else \
                    self.q_probe(name, R.choice(self.probes)) if w == "kernel" and self.probes else self.q_cosmo(name)
            elif k in ("wl", "nc"):
                c = R.choice(self.cosmos)
                q = self.q_cl(c, [name]) if w in ("cl", "noise_cl", "cov") else self.q_probe(c, name)
            else:
                q = self.q_nz(name)
            if q["q"] == w:
                return q
            self.budget = b
        return None

    def variant(self, spec):
        """another object with the same structure and options: only numbers differ"""
        R = self.R
        s = copy.deepcopy(spec)
        k = s["k"]
        num = {"cosmo": ["Omega_c", "Omega_b", "h", "n_s", "sigma8", "Omega_k", "w0", "wa"] + (["gamma"] if s.get("gamma") is not None else []),
               "smail": ["a", "b", "z0"], "shift": ["bias"], "usernz": ["mu", "s"], "b_const": ["b"], "b_inv": ["b"], "b_user": ["b", "s"],
               "b_des": ["A", "eta", "z0"]}.get(k)
        if k == "cosmo" and "planck" in s:
            return None
        if k in ("wl", "nc"):
            bins = []
            for b in s["bins"]:
                v = self.variant(self.specs[b["ref"]] if "ref" in b else b)
                if v is None:
                    return None
                bins.append(v)
            s["bins"] = bins
            return s
        if k == "spline":
            s["y"] = [r4(v + 0.1 * (i % 2)) for i, v in enumerate(s["y"])]
            return s
        if num is None:
            return None
        for f in R.sample(num, R.choice([1, len(num)])):
            s[f] = r4(s[f] * 1.04 + 0.004)
        if "gals" in s and R.random() < 0.5:
            s["gals"] = r4(s["gals"] * 1.3)
        return s

    # ---- a set of objects
    def cast(self, ncosmo=(1, 2), nnz=(1, 3), nprobe=(0, 2), nbias=(0, 2), spline=0.25, delta=True, star=0.35):
        R = self.R
        self.cosmos = [self.new(self.cosmo_spec(), "c") for _ in range(R.randint(*ncosmo))]
        self.nzs = [self.new(self.nz_spec(), "n") for _ in range(R.randint(*nnz))]
        self.deltas = []
        self.biases = [self.new(self.bias_spec(), "b") for _ in range(R.randint(*nbias))]
        self.probes = []
        np_ = R.randint(*nprobe)
        if np_:
            if delta and R.random() < 0.3:
                self.deltas = [self.new({"k": "delta", "z0": R.choice([0.5, 0.8, 1.1]), "zmax": R.choice([2.0, 3.0]),
                                         "gals": R.choice([1.0, 4.0])}, "d")]
            bl = [{"ref": b} for b in self.biases] or [self.bias_spec() for _ in range(2)]
            for _ in range(np_):
                bins = [{"ref": n} for n in (self.nzs if R.random() < 0.5 else R.sample(self.nzs, R.randint(min(1, len(self.nzs)), len(self.nzs))))]
                if R.random() < 0.4:
                    bins += [{"ref": n} for n in self.deltas]
                if not bins:
                    bins = [self.nz_spec()]
                self.probes.append(self.new(self.probe_spec(bins, bl), "p"))
        self.splines = [self.new(self.spline_spec(), "s")] if R.random() < spline else []
        # some histories are mostly about one object
        self.star = None
        if R.random() < star:
            kinds = [l for l in (self.cosmos, self.nzs + self.deltas, self.biases, self.probes, self.splines, self.splines) if l]
            self.star = R.choice(R.choice(kinds))
        # some are mostly about one function
        self.kind = self.some_kind() if R.random() < star * 0.8 else None

    def some_kind(self):
        b = self.budget
        g = [x for x, n in (("cosmo", 3), ("nz", 1 if self.nzs else 0), ("probe", 1 if self.probes else 0), ("cl", 1 if self.probes else 0),
                            ("bias", 1 if self.biases else 0), ("spline", 1 if self.splines else 0), ("free", 1)) for _ in range(n)]
        q = self._query(group=self.R.choice(g))
        self.budget = b
        return q["q"]

    # ---- queries
    def q_cosmo(self, c, cheap=False, opts=True):
        R, P = self.R, self.pool
        ref = {"ref": c}
        kinds = ["w", "f_de", "Esqr", "H", "Omega_m_a", "Omega_de_a", "dchioverda", "transverse_comoving_distance",
                 "angular_diameter_distance", "growth_factor", "growth_rate", "growth_factor", "growth_rate",
                 "chi", "chi", "chi", "a_of_chi", "a_of_chi", "attrs", "EH", "primordial", "romb_c", "ode_c"]
        if not cheap:
            kinds += ["sigmasqr", "linear", "linear", "nonlinear"]
        k = R.choice(kinds)
        if k == "chi":
            q = {"q": "chi", "c": ref, "a": R.choice(P.A)}
            if opts and R.random() < 0.25:
                q["steps"] = R.choice([16, 64, 128, 300])
            if opts and R.random() < 0.15:
                q["log10_amin"] = R.choice([-2, -2.5])
            return q
        if k == "a_of_chi":
            return {"q": k, "c": ref, "chi": R.choice(P.X)}
        if k == "attrs":
            return {"q": R.choice(["cosmo_attrs", "cosmo_k", "str"]), "c": ref}
        if k == "romb_c":
            return self.mut({"q": R.choice(["romb_c", "simps_c"]), "c": ref, "fn": R.choice(USERFN), "p": R.choice([0.2, 0.7]), "lo": 0.3, "hi": R.choice([0.8, 0.9])})
        if k == "ode_c":
            return self.mut({"q": k, "c": ref, "fn": R.choice(["growth_factor", "Omega_m_a", "growth_rate"]), "p": R.choice([0.2, 0.7]), "a": [0.3, 0.5, 0.65, 0.9]})
        if k == "EH":
            return {"q": k, "c": ref, "kk": R.choice(P.K), "type": R.choice(["eisenhu", "eisenhu_osc"])}
        if k == "primordial":
            return {"q": k, "c": ref, "kk": R.choice(P.K)}
        if k == "sigmasqr":
            return self.cost(0.5, {"q": k, "c": ref, "R": R.choice([8.0, 5.0, 12.0]), "T": self.T(), **self.kr()})
        if k == "linear":
            return self.q_linear(c)
        if k == "nonlinear":
            nl = R.choice(["linear", "triv", "trivg", "halofit", "halofit-", "smith", "smith"])
            T = self.T()
            if nl in ("halofit", "halofit-", "smith") and T.startswith("EH"):
                T = "bbks"
            return self.cost({"halofit": 2.5, "halofit-": 2.5, "smith": 2.5, "linear": 0.6}.get(nl, 0.1),
                             {"q": "nonlinear", "c": ref, "kk": R.choice(P.K), "a": [R.choice([0.5, 0.7, 0.9])], "T": T, "NL": nl})
        return {"q": k, "c": ref, "a": R.choice(P.A)}

    def kr(self):
        return self.R.choice([{}, {}, {"kmin": 0.001}, {"kmax": 100.0}])

    def q_linear(self, c):
        R, P = self.R, self.pool
        T = self.T()
        q = {"q": "linear", "c": {"ref": c}, "kk": R.choice(P.K), "T": T}
        if len(self.cosmos) > 1 and R.random() < 0.12:
            T = q["T"] = "cross"
            q["other"] = {"ref": R.choice([x for x in self.cosmos if x != c] or [c])}
        if R.random() < 0.6:
            q["a"] = [R.choice([0.4, 0.6, 0.85])]
        if T.startswith("bbks") and R.random() < 0.25:
            q["kw"] = {"width": R.choice([0.8, 1.2])}
        elif T in ("EH", "EH-") and R.random() < 0.4:
            q["kw"] = {"type": "eisenhu"}
        return self.cost(2.0 if T.startswith("EH") else 0.5, q)

    def T(self):
        return self.R.choice(["bbks", "bbks", "bbks", "bbks2", "bbks!", "reent", "reent", "mut:0.8", "mut:1.3", self.R.choice(["EH", "EH-"]) if self.R.random() < 0.4 else "bbks2",
                              "EHnw" if self.R.random() < 0.2 else "bbks"])

    def cost(self, c, q):
        """keep the plan affordable: an expensive query is replaced once the budget is spent"""
        self.budget -= c
        if self.budget < 0 and c > 0.3:
            return {"q": "growth_factor", "c": q["c"], "a": self.R.choice(self.pool.A)}
        return q

    def q_nz(self, n):
        R = self.R
        if self.specs[n]["k"] == "delta":
            return {"q": "nz_attrs", "o": {"ref": n}}
        k = R.choice(["nz", "nz", "nz", "pz", "nz_attrs"])
        q = {"q": k, "o": {"ref": n}}
        if k != "nz_attrs":
            q["z"] = R.choice(self.pool.Z)
        return q

    def q_probe(self, c, p):
        R = self.R
        k = R.choice(["kernel", "kernel", "kernel", "noise", "probe_attrs"])
        q = {"q": k, "o": {"ref": p}}
        if k == "kernel":
            q.update(c={"ref": c}, z=R.choice(self.pool.Z), ell=R.choice([20.0, 100.0, 700.0]))
            self.budget -= 0.3
        return q

    def q_cl(self, c, ps):
        R = self.R
        k = R.choice(["cl", "cl", "cl", "noise_cl", "cov", "covmean", "like"])
        q = {"q": k, "ps": [{"ref": p} for p in ps], "ell": R.choice(self.pool.ELL)}
        if k == "cov":
            q.update(sig=[1e-7], sparse=R.random() < 0.5, f_sky=R.choice([0.25, 0.4]))
        if k in ("cl", "covmean", "like"):
            nl = R.choice(["triv", "triv", "trivg", "linear", R.choice(["mutn:0.8", "mutn:1.3"])])
            q.update(c={"ref": c}, T=R.choice(["bbks", "bbks2", "reent"]), NL=nl)
            if k == "covmean":
                q.update(sparse=R.random() < 0.5, f_sky=R.choice([0.25, 0.4]))
            if k == "like":
                # (without noise the covariance of like tracers is singular)
                if len(ps) > 1 or any(self._ntr(p) > 2 or 0.0 in _aslist(self.specs[p].get("sigma_e")) for p in ps):
                    q["q"] = "cl"
                    q.pop("sparse", None)
                else:
                    q.update(sparse=True, logdet=R.random() < 0.6)
            self.budget -= 0.8 if nl == "linear" else 0.5
            if self.budget < 0:
                return {"q": "noise_cl", "ps": q["ps"], "ell": q["ell"]}
        return q

    def _ntr(self, p):
        return len(self.specs[p]["bins"])

    def q_spline(self, s):
        R = self.R
        op = R.choice(["call", "call", "deriv", "anti", "integral"])
        q = {"q": "spline", "o": {"ref": s}, "op": op}
        xs = self.specs[s]["x"]
        if op == "integral":
            q["lo"], q["hi"] = R.choice([(0.1, 0.4), (0.5, 0.2)])
        else:
            q["x"] = [r4(0.13 + 0.21 * xs[-1] * j) for j in range(R.choice([1, 3]))]
        if op == "deriv":
            q["n"] = R.randint(0, self.specs[s]["deg"])
        return q

    def q_bias(self, c, b):
        return {"q": "bias", "o": {"ref": b}, "c": {"ref": c}, "z": self.R.choice(self.pool.Z)}

    def q_free(self):
        """queries that mention no object, only functions the process keeps"""
        R = self.R
        k = R.choice(["sparse", "sparse", "loglike", "romb", "simps", "interp", "z2a", "ode"])
        if k == "z2a":
            return {"q": R.choice(["z2a", "a2z"]), "z": R.choice(self.pool.Z)}
        if k == "ode":
            return self.mut({"q": "ode", "p": R.choice([0.4, 1.1]), "a": R.choice([[0.1, 0.3, 0.6, 1.0], [0.1, 0.4, 0.6, 1.0], [0.2, 0.5, 0.9]])})
        if k in ("sparse", "loglike"):
            nb, nd = R.choice([(2, 3), (3, 3), (2, 4)])
            q = {"q": k, "nb": nb, "nd": nd, "s": R.choice([0.0, 0.3, 1.0]),
                 "v": [r4(R.uniform(0.1, 1)) for _ in range(nb * nd)] if R.random() < 0.5 else [0.5 + 0.1 * j for j in range(nb * nd)]}
            if k == "sparse":
                q["op"] = R.choice(["dot", "vdot", "inv", "slogdet", "det", "dense", "quad"])
            else:
                q.update(sparse=R.random() < 0.5, logdet=R.random() < 0.5, inv=R.choice(["inverse", "cholesky"]))
            return q
        if k == "interp":
            return {"q": k, "x": [0.15, 0.62, 0.9], "xp": [0.0, 0.25, 0.5, 0.75, 1.0], "fp": [R.choice([0.1, 1.0]), 0.3, 0.2, 0.9, 0.4]}
        q = {"q": k, "p": R.choice([0.5, 1.5]), "lo": 0.0, "hi": R.choice([1.0, 2.0])}
        if k == "romb":
            q["divmax"] = R.choice([4, 6, 7])
            if R.random() < 0.3:
                q["args"] = True
        else:
            q["N"] = R.choice([32, 64])
        return self.mut(q)

    def mut(self, q):
        """the user passes one object, which he changes between the calls"""
        if self.R.random() < 0.4:
            q["mut"] = self.R.choice(["object", "module"])
        return q

    def query(self, cheap=False, opts=True):
        """any query on the cast"""
        R = self.R
        if self.star and R.random() < 0.6:
            return self.about(self.star, cheap)
        if self.kind and R.random() < 0.7:
            q = self.of_kind(self.kind)
            if q:
                return q
        return self._query(cheap, opts)

    def of_kind(self, kind):
        for _ in range(60):
            b = self.budget
            q = self._query()
            if q["q"] == kind:
                return q
            self.budget = b
        return None

    def _query(self, cheap=False, opts=True, group=None):
        R = self.R
        c = R.choice(self.cosmos)
        w = [("cosmo", 6), ("nz", 3 if self.nzs else 0), ("probe", 3 if self.probes else 0),
             ("bias", 1 if self.biases else 0), ("spline", 1.2 if self.splines else 0),
             ("cl", 2 if self.probes and not cheap else 0), ("free", 0.7)]
        k = group or R.choices([x for x, _ in w], [y for _, y in w])[0]
        if k == "cosmo":
            return self.q_cosmo(c, cheap, opts)
        if k == "nz":
            return self.q_nz(R.choice(self.nzs + self.deltas))
        if k == "probe":
            return self.q_probe(c, R.choice(self.probes))
        if k == "bias":
            return self.q_bias(c, R.choice(self.biases))
        if k == "spline":
            return self.q_spline(R.choice(self.splines))
        if k == "cl":
            ps = [R.choice(self.probes)]
            if len(self.probes) > 1 and R.random() < 0.5:
                ps = list(self.probes)
                R.shuffle(ps)
            if sum(self._ntr(p) for p in ps) > 4:
                ps = ps[:1]
            return self.q_cl(c, ps)
        return self.q_free()

    def plain(self, q):
        """what q asks, or a part of it, with nothing chosen"""
        R = self.R
        k = q["q"]
        if k in ("linear", "nonlinear", "sigmasqr", "cl", "covmean", "like") and self.budget > 0:
            self.budget -= 1.5
            kk = q.get("kk") if k in ("linear",) and R.random() < 0.5 else R.choice(self.pool.K)
            return {"q": "linear", "c": q["c"], "kk": kk, "a": R.choice([[1.0], [0.7]]), "T": "EH-"}
        if k == "chi":
            return {"q": "chi", "c": q["c"], "a": q["a"]}
        if k == "EH" and q.get("type"):
            return {x: y for x, y in q.items() if x != "type"}
        return self.vary(q)

    def vary(self, q):
        """the same query but for one argument or option"""
        R = self.R
        q = copy.deepcopy(q)
        k = q["q"]
        opts = [n for n in ("a", "kk", "z", "ell", "chi", "x", "v") if isinstance(q.get(n), list)]
        opts += [n for n in ("T", "NL", "type", "steps", "log10_amin", "R", "kmin", "kmax", "sparse", "logdet", "f_sky", "fn", "p", "hi",
                             "divmax", "N", "s", "op", "n", "inv", "sig") if n in q]
        if k == "chi":
            opts += ["steps", "steps", "log10_amin"]
        elif k == "linear":
            opts += ["kw", "kw", "kw", "T"]
        elif k == "sigmasqr":
            opts += ["kmin", "kmax", "R", "T"]
        elif k == "nonlinear":
            opts += ["NL", "NL"]
        elif k in ("cl", "noise_cl", "covmean", "cov") and len(q["ps"]) > 1:
            opts += ["ps"]
        elif k in ("growth_factor", "growth_rate", "H", "Esqr", "w", "f_de", "transverse_comoving_distance", "angular_diameter_distance"):
            opts += ["fname"] if R.random() < 0.3 else []
        if not opts:
            return q
        f = R.choice(opts)
        P = self.pool
        if f in ("a", "kk", "z", "ell", "chi", "x", "v"):
            v = q[f] if isinstance(q[f], list) else [q[f]]
            if not isinstance(q[f], list):
                q[f] = R.choice([20.0, 100.0, 700.0])
                return q
            fam = [t for n in "A K Z ELL X".split() for g in getattr(P, "fam_" + n) if v in g for t in g]
            if k in ("ode", "ode_c"):
                q[f] = v[:1] + [r4(x - 0.03) for x in v[1:-1]] + v[-1:]
            elif fam and len(v) > 1:
                q[f] = R.choice(fam)
            elif len(v) > 2 and R.random() < 0.5:
                q[f] = v[:1] + [r4(x * 0.99) for x in v[1:-1]] + v[-1:]
            else:
                q[f] = [r4(x * 0.97) for x in v]
        elif f == "T":
            q["T"] = {"mut:0.8": "mut:1.3", "mut:1.3": "mut:0.8"}.get(q["T"]) or R.choice([t for t in ("bbks", "bbks2", "bbks!", "reent", "mut:1.3") if t != q["T"]] if not q["T"].startswith("EH") else [t for t in ("EH", "EHnw", "EH-") if t != q["T"]])
            if not q["T"].startswith("bbks"):
                q.pop("kw", None)
        elif f == "NL":
            q["NL"] = {"halofit": "smith", "smith": "halofit", "linear": "triv", "triv": "trivg", "trivg": "triv", "mutn:0.8": "mutn:1.3", "mutn:1.3": "mutn:0.8"}[q["NL"].rstrip("!-")]
        elif f == "kw":
            if q["T"].startswith("EH"):
                if q["T"] in ("EH", "EH-"):
                    q["kw"] = R.choice([{"type": "eisenhu"}, {"type": "eisenhu_osc"}])
            elif q["T"].startswith("bbks"):
                if q.get("kw") and R.random() < 0.5:
                    q.pop("kw")
                else:
                    q["kw"] = {"width": R.choice([0.8, 1.2, 1.5])}
        elif f == "type":
            q["type"] = "eisenhu" if q["type"] == "eisenhu_osc" else "eisenhu_osc"
        elif f == "steps":
            q["steps"] = R.choice([x for x in (16, 64, 128, 300) if x != q.get("steps")])
        elif f == "log10_amin":
            if f in q and R.random() < 0.5:
                q.pop(f)
            else:
                q[f] = R.choice([-2, -2.5])
        elif f in ("kmin", "kmax"):
            if f in q:
                q.pop(f)
            else:
                q[f] = {"kmin": 0.001, "kmax": 100.0}[f]
        elif f == "R":
            q[f] = R.choice([5.0, 8.0, 12.0])
        elif f in ("sparse", "logdet"):
            if k != "like" or f == "logdet":
                q[f] = not q[f]
        elif f == "f_sky":
            q[f] = 0.4 if q[f] == 0.25 else 0.25
        elif f == "fn":
            q[f] = R.choice(USERFN if k != "ode_c" else ["growth_factor", "Omega_m_a", "growth_rate"])
        elif f == "p":
            q[f] = r4(q[f] + 0.3)
        elif f == "hi":
            q[f] = r4(q[f] * 0.9)
        elif f == "divmax":
            q[f] = R.choice([4, 5, 6, 7])
        elif f == "N":
            q[f] = R.choice([32, 64, 128])
        elif f == "s":
            q[f] = R.choice([0.0, 0.3, 1.0])
        elif f == "inv":
            q[f] = "cholesky" if q[f] == "inverse" else "inverse"
        elif f == "sig":
            q[f] = [r4(q[f][0] * 1.5)]
        elif f == "op" and k == "spline":
            q["op"] = R.choice(["call", "deriv", "anti", "integral"])
            if q["op"] == "integral":
                q.pop("x", None)
                q.pop("n", None)
                q["lo"], q["hi"] = R.choice([(0.1, 0.4), (0.5, 0.2)])
            else:
                for f in ("lo", "hi"):
                    q.pop(f, None)
                q.setdefault("x", [0.13, 0.41])
                if q["op"] == "deriv":
                    q["n"] = R.randint(0, self.specs[q["o"]["ref"]]["deg"]) if "ref" in q["o"] else 1
        elif f == "n" and "ref" in q.get("o", {}):
            q[f] = R.randint(0, self.specs[q["o"]["ref"]]["deg"])
        elif f == "op" and k == "sparse":
            q[f] = R.choice(["dot", "vdot", "inv", "slogdet", "det", "dense", "quad"])
        elif f == "ps":
            q["ps"] = q["ps"][::-1]
            if "ell" in q:
                pass
        elif f == "fname":
            q["q"] = R.choice(["growth_factor", "growth_rate", "H", "Esqr", "w", "f_de", "transverse_comoving_distance", "angular_diameter_distance"])
        return q

    def again(self, hist, cheap=False):
        """the next query of a history: new, a repetition or a near miss of an earlier one"""
        R = self.R
        r = R.random()
        if hist and r < 0.18:
            return R.choice(hist)
        if hist and r < 0.55:
            b = R.choice(hist[-4:])
            q = self.vary(b)
            c = COST.get(q["q"], 0) * (3 if q.get("T", "").startswith("EH") and q["q"] != "cl" else 1) + (2.0 if q.get("NL") in ("halofit", "halofit-", "smith") else 0)
            if c < 0.3 or self.budget - c > -3:
                self.budget -= 0.7 * c
                return q
        return self.query(cheap)

    def about(self, name, cheap=False):
        """a query that mentions this object"""
        R = self.R
        k = self.specs[name]["k"]
        c = R.choice(self.cosmos) if self.cosmos else None
        if k == "cosmo":
            return self.q_cosmo(name, cheap)
        if k in ("wl", "nc"):
            return self.q_probe(c, name) if cheap or R.random() < 0.6 else self.q_cl(c, [name])
        if k == "spline":
            return self.q_spline(name)
        if k.startswith("b_"):
            return self.q_bias(c, name)
        return self.q_nz(name)

    def ask(self, q, **kw):
        return self.emit(op="query", q=q, **kw)

    def layers(self, q, slow=False, n=None):
        R = self.R
        n = n or R.choice([1, 1, 1, 2, 2, 3])
        pool = list(contexts.PLAIN) + list(contexts.OBJ)
        L = [R.choice(pool) for _ in range(n)]
        if slow and R.random() < 0.03 and q["q"] in ("chi", "growth_factor", "nz", "H", "spline"):
            L = ["disable_jit"]
        return fit_layers(q, L)


COST = {"linear": 0.5, "sigmasqr": 0.5, "nonlinear": 0.4, "cl": 0.6, "covmean": 0.7, "like": 0.8, "kernel": 0.3, "noise_cl": 0.1, "cov": 0.2}

_NO_DIFF = {"probe_attrs", "noise_cl"}
_HEAVY = {"linear", "nonlinear", "sigmasqr", "cl", "covmean", "like"}


def _aslist(x):
    return x if isinstance(x, list) else [x]


def fit_layers(q, L):
    """drop the layers a query cannot meaningfully take"""
    out = []
    seen_obj = False
    if q["q"] == "str":
        return out
    for l in L:
        if q["q"] in ("sparse",) and q.get("op") in ("det", "slogdet", "inv") and l in ("vjp", "grad", "linearize", "abandon_grad"):
            continue
        if l in ("scan_obj", "cond_obj", "vmap_obj", "grad_obj", "jvp_obj") and seen_obj:
            continue
        if l in contexts.OBJ:
            seen_obj = True
        if q["q"] in _HEAVY and len(out) >= 1:
            continue
        out.append(l)
    if "aot" in out:  # a compiled computation cannot be transformed further
        out = [l for l in out if l != "aot"] + ["aot"]
    return out


def fault(R, q, kinds=("line", "line", "call", "user")):
    est = {"linear": 60, "nonlinear": 110, "sigmasqr": 50, "cl": 150, "covmean": 190, "like": 210, "kernel": 60,
           "growth_factor": 25, "growth_rate": 22, "chi": 25, "a_of_chi": 22, "nz": 22, "cov": 35, "noise_cl": 18,
           "transverse_comoving_distance": 35, "angular_diameter_distance": 38, "EH": 45, "spline": 16, "bias": 20,
           "romb": 30, "romb_c": 45, "simps_c": 22, "ode_c": 30, "ode": 8, "simps": 8, "sparse": 20, "loglike": 30}.get(q["q"], 8)
    k = R.choice(kinds)
    if k == "user" and not (not q.get("T", "EH").startswith("EH") or q.get("T") == "EHnw" or q.get("NL") or q["q"] in ("romb", "simps", "nz", "kernel", "pz", "cl", "romb_c", "simps_c", "ode", "ode_c", "bias")):
        k = "line"
    if k == "user":
        return {"kind": "user", "k": R.choice([1, 1, 2, 3, 5, 8]), "exc": R.choice(["UserError", "UserError", "MemoryError", "KeyboardInterrupt", "FloatingPointError"])}
    if k == "call":
        return {"kind": "call", "k": 1 + int(est * 1.2 * R.random()), "exc": R.choice(["oom", "oom", "MemoryError", "device", "FloatingPointError"])}
    if q["q"] in _HEAVY and R.random() < 0.25:
        return {"kind": "line", "all": True, "k": 1 + int(est * 30 * R.random() ** 2), "exc": R.choice(["KeyboardInterrupt", "CallTimeout", "MemoryError"])}
    return {"kind": "line", "k": 1 + int(est * R.random() ** 1.2), "exc": R.choice(["KeyboardInterrupt", "KeyboardInterrupt", "CallTimeout", "SystemExit", "MemoryError"])}


INVALID = [
    lambda g, c: {"q": "EH", "c": {"ref": c}, "kk": [0.1, 1.0], "type": "nonsense"},
    lambda g, c: {"q": "linear", "c": {"ref": c}, "kk": [0.1], "T": "EH", "kw": {"type": "nonsense"}},
    lambda g, c: {"q": "linear", "c": {"ref": c}, "kk": [0.1], "T": "EH", "kw": {"bogus": 1}},
    lambda g, c: {"q": "romb", "p": 1.0, "lo": 0.0, "hi": "x"},
    lambda g, c: {"q": "simps", "p": 1.0, "lo": 0.0, "hi": 1.0, "N": 33},
    lambda g, c: {"q": "chi", "c": {"ref": c}, "a": [0.5], "steps": "many"},
    lambda g, c: {"q": "chi", "c": {"ref": c}, "a": [0.5], "log10_amin": "x"},
    lambda g, c: {"q": "sparse", "op": "dot", "nb": 2, "nd": 3, "s": 0.3, "v": [1.0, 2.0]},
    lambda g, c: {"q": "loglike", "nb": 2, "nd": 3, "s": 0.3, "v": [1.0, 2.0, 0.5, 0.2, 0.1, 0.4], "sparse": False, "inv": "nonsense"},
    lambda g, c: {"q": "growth_factor", "c": {"ref": c}, "a": [[0.5, 0.6], [0.7, 0.8, 0.9]]} if False else {"q": "growth_factor", "c": {"ref": c}, "a": 0.5},
]


# ------------------------------------------------------------------- plans


def plan_C01(g):
    R = g.R
    g.cast(nprobe=(0, 2))
    n = R.randint(10, 24)
    hist = []
    if R.random() < 0.2:  # a history around one expensive query
        c = {"ref": g.cosmos[0]}
        T = R.choice(["bbks", "bbks2"])
        q = R.choice([{"q": "nonlinear", "c": c, "kk": R.choice(g.pool.K), "a": [0.7], "T": T, "NL": R.choice(["smith", "halofit"])},
                      {"q": "linear", "c": c, "kk": R.choice(g.pool.K), "a": [0.7], "T": "EH", "kw": {"type": "eisenhu"}}])
        hist.append(q)
        g.ask(q)
        for _ in range(2):
            q = g.vary(q)
            g.ask(q)
            hist.append(q)
        g.budget -= 6
    elif R.random() < 0.22:  # functions of the user's which he changes between the calls
        c = {"ref": g.cosmos[0]}
        kind = lambda: R.choice(["object", "module"])
        qs = [R.choice([{"q": "linear", "c": c, "kk": R.choice(g.pool.K), "a": [0.7], "T": "mut:0.8"}, {"q": "sigmasqr", "c": c, "R": 8.0, "T": "mut:0.8"},
                        {"q": "nonlinear", "c": c, "kk": R.choice(g.pool.K), "a": [0.7], "T": "bbks", "NL": "mutn:0.8"},
                        {"q": "nonlinear", "c": c, "kk": R.choice(g.pool.K), "a": [0.7], "T": "mut:0.8", "NL": "triv"}])]
        qs += R.sample([{"q": R.choice(["romb_c", "simps_c"]), "c": c, "fn": R.choice(USERFN), "p": 0.2, "lo": 0.3, "hi": 0.9, "mut": kind()},
                        {"q": R.choice(["romb", "simps"]), "p": 0.5, "lo": 0.0, "hi": 1.0, "mut": kind()},
                        {"q": "ode", "p": 0.7, "a": R.choice([[0.1, 0.3, 0.6, 1.0], [0.2, 0.3, 0.5, 0.9]]), "mut": kind()},
                        {"q": "ode", "p": 0.4, "a": [0.1, 0.3, 0.6, 1.0], "mut": "module"}], R.choice([2, 3, 4]))
        for q in qs[R.random() < 0.5:]:
            if q["q"] == "romb":
                q["divmax"] = 6
            elif q["q"] == "simps":
                q["N"] = 32
            for turn in range(R.choice([2, 2, 3])):
                g.ask(q)
                hist.append(q)
                q = dict(q)
                if "T" in q:
                    q["T"] = {"mut:0.8": "mut:1.3", "mut:1.3": "mut:0.8"}.get(q["T"], q["T"])
                    q["NL"] = {"mutn:0.8": "mutn:1.3", "mutn:1.3": "mutn:0.8"}.get(q.get("NL"), q.get("NL"))
                    if q["NL"] is None:
                        del q["NL"]
                else:
                    q["p"] = r4((0.9 if q["q"] != "romb" else 1.1) - q["p"])
    for _ in range(n):
        q = g.again(hist)
        hist.append(q)
        g.ask(q, conv=R.choice(["jnp", "jnp", "np"]))
    return {}


def plan_C02(g):
    R = g.R
    g.cast(ncosmo=(1, 2), nnz=(1, 2), nprobe=(0, 1), nbias=(0, 1), spline=0.4)
    g.budget = 6
    hist = []
    for _ in range(R.randint(5, 11)):
        q = g.again(hist, cheap=R.random() < 0.5)
        hist.append(q)
        L = g.layers(q, slow=True) if R.random() < 0.72 else []
        if q["q"] in _HEAVY and L:
            g.budget -= 1.5
        g.ask(q, ctx=L)
        if L and R.random() < 0.4:
            g.ask(q)  # the same again, outside
    for o in g.cosmos + g.nzs:
        g.ask(g.about(o, cheap=True))
    return {}


def heavy(g, c):
    """a whole computation with the library's own functions"""
    R = g.R
    q = R.choice(["nonlinear", "nonlinear", "cl", "covmean", "linear", "sigmasqr"])
    T = R.choice(["EH", "bbks", "bbks2", "bbks"])
    NL = R.choice(["halofit", "halofit", "smith", "linear"])
    if q in ("cl", "covmean") and g.probes:
        return {"q": q, "ps": [{"ref": p} for p in R.sample(g.probes, min(len(g.probes), R.choice([1, 2])))], "c": {"ref": c},
                "ell": R.choice(g.pool.ELL), "T": T, "NL": NL, **({"sparse": True} if q != "cl" else {})}
    if q == "sigmasqr":
        return {"q": q, "c": {"ref": c}, "R": R.choice([8.0, 3.0]), "T": T}
    if q == "linear":
        return {"q": q, "c": {"ref": c}, "kk": R.choice(g.pool.K), "a": [0.6], "T": T}
    return {"q": "nonlinear", "c": {"ref": c}, "kk": R.choice(g.pool.K), "a": [R.choice([0.5, 0.7, 1.0])], "T": T, "NL": NL}


def plan_C03(g):
    R = g.R
    g.cast(ncosmo=(1, 2), nnz=(1, 2), nprobe=(0, 2), nbias=(0, 1))
    if R.random() < 0.45:
        # long computations cut short; then the things they were about, one by one
        for _ in range(R.choice([1, 2, 2, 3])):
            c = R.choice(g.cosmos)
            q = heavy(g, c)
            f = fault(R, q, ("line", "line", "line", "call"))
            f["k"] = 1 + int(f["k"] * 0.9)
            g.ask(q, fault=f)
            for r in sorted({c} | {p["ref"] for p in q.get("ps", [])}):
                for _ in range(R.choice([1, 2])):
                    g.ask(g.about(r, cheap=True))
        if R.random() < 0.6:
            g.ask({"q": R.choice(["growth_factor", "growth_rate"]), "c": {"ref": c}, "a": R.choice(g.pool.A)})
        g.budget -= 2
    for _ in range(R.randint(3, 7)):
        if R.random() < 0.12:
            g.ask(R.choice(INVALID)(g, R.choice(g.cosmos)))
        q = g.query(cheap=R.random() < 0.4)
        L = g.layers(q, n=1) if R.random() < 0.2 else []
        if R.random() < 0.85:
            for _ in range(R.choice([1, 1, 1, 2])):
                g.ask(q, ctx=L, fault=fault(R, q))
            if R.random() < 0.5:
                g.ask(g.plain(q) if R.random() < 0.3 else g.vary(q) if R.random() < 0.4 else g.query(cheap=True))
        g.ask(q, ctx=L if R.random() < 0.3 else [])
        if R.random() < 0.3:
            g.ask(g.vary(q))
    if R.random() < 0.45:
        # whatever was cut short, other threads find nothing held
        ths = []
        for _ in range(R.choice([1, 2])):
            ths.append([{"q": g.about(R.choice(g.cosmos + g.nzs + g.probes), cheap=True)} for _ in range(R.choice([1, 2, 3]))])
            if R.random() < 0.5:
                ths[-1].insert(0, {"q": q})
        if R.random() < 0.5:  # failing in one thread while another one waits
            k = R.randrange(len(ths))
            ths[k].insert(0, {"q": q, "fault": fault(R, q, ("line",))})
        g.emit(op="threads", threads=ths, sched=sched_spec(R, len(ths)))
    for o in g.cosmos + g.nzs + g.probes:
        if R.random() < 0.7:
            g.ask(g.about(o, cheap=True))
    return {}


def sched_spec(R, n):
    k = R.choice(["random", "random", "pct", "pct", "solo", "solo", "stores", "stores", "stores", "stores"])
    s = {"kind": k, "seed": R.randrange(10**6), "gran": "instr" if R.random() < 0.2 else "line"}
    m = 5 if s["gran"] == "instr" else 1
    if k == "stores":
        s["places"], s["p"] = R.choice([0.3, 0.6, 1.0]), R.choice([0.3, 0.6, 0.9])
    elif k == "random":
        s["p"] = R.choice([0.02, 0.08, 0.2, 0.5]) / m
    elif k == "pct":
        s["points"] = sorted({1 + int(10 ** R.uniform(0, 2.6)) * m for _ in range(R.choice([1, 2, 3, 5]))})
    else:
        s["points"] = sorted([1 + int(10 ** R.uniform(0, 2.4)) * m, R.randrange(3)] for _ in range(R.choice([1, 1, 2, 3])))
    return s


def plan_C04(g):
    R = g.R
    g.cast(ncosmo=(1, 2), nnz=(1, 2), nprobe=R.choice([(0, 1), (0, 1), (2, 2)]), nbias=(0, 1), delta=False, spline=0.5)
    g.budget = 4
    roles = [l for l in (g.cosmos, g.nzs, g.probes, g.biases, g.splines) if l]
    objs = g.cosmos + g.nzs + g.probes + g.biases + g.splines
    for scene in range(R.choice([1, 1, 2])):
        warm = g.query(cheap=True) if R.random() < 0.35 else None
        nt = R.choice([2, 2, 2, 2, 3, 4])
        hot = R.choice(R.choice(roles)) if R.random() < 0.6 else None
        same = g.some_kind() if R.random() < 0.4 else None
        hist = [(same and g.of_kind(same)) or g.about(hot, cheap=R.random() < 0.7) if hot else g.query(cheap=R.random() < 0.7)]
        ths = []
        for t in range(nt):
            ops = []
            for _ in range(R.choice([1, 1, 2, 3])):
                r = R.random()
                if same and r < 0.7:
                    q = (r < 0.5 and g.of_kind(same)) or g.vary(hist[0])
                elif r < 0.35:
                    q = R.choice(hist)
                elif r < 0.65:
                    q = g.vary(R.choice(hist))
                elif r < 0.85 and hot:
                    q = g.about(hot, cheap=True)
                else:
                    q = g.query(cheap=R.random() < 0.8)
                hist.append(q)
                op = {"q": q}
                if R.random() < 0.12 and q["q"] not in _HEAVY:
                    op["ctx"] = g.layers(q, n=1)
                if R.random() < 0.08:
                    op["fault"] = dict(fault(R, q, ("line",)), exc="CallTimeout")
                ops.append(op)
            ths.append(ops)
        if g.probes and R.random() < 0.15:
            # the same computation, at the same time, for objects that differ
            p, c = R.choice(g.probes), R.choice(g.cosmos)
            q = g.q_probe(c, p)
            for _ in range(20):
                x = g.q_cl(c, [p])
                if R.random() < 0.8 and x["q"] in ("cl", "covmean"):
                    q = x
                    break
            if R.random() < 0.6:
                n, sp = p, copy.deepcopy(g.specs[p])
                zm = R.choice([1.2, 1.7, 6.0])
                sp["bins"] = [dict(copy.deepcopy(g.specs[b["ref"]] if "ref" in b else b), zmax=zm) for b in sp["bins"]]
            else:
                n = R.choice([r for r in world.refs_of(q)])
                sp = g.sibling(g.specs[n])
            m = g.new(sp, n[0])
            hist = [q]
            ths = [[{"q": q}], [{"q": swap(q, n, m)}]]
            nt, warm = 2, None
        elif len(g.cosmos) > 1 and R.random() < 0.12:
            # each about one object, asking about the other meanwhile
            c, d = R.sample(g.cosmos, 2)
            q = {"q": "linear", "c": {"ref": c}, "kk": R.choice(g.pool.K), "T": R.choice(["cross", "crossp", "crossp"]), "other": {"ref": d}}
            hist, nt, warm = [q], 2, None
            ths = [[{"q": q}], [{"q": dict(q, c={"ref": d}, other={"ref": c})}]]
        elif R.random() < 0.12:
            # functions which are about no object, with other arguments in every thread
            q = g.q_free()
            while q["q"] in ("z2a", "a2z") or q.get("op") == "dense" and R.random() < 0.7:
                q = g.q_free()
            if "v" in q:
                if q["q"] == "sparse":
                    q["op"] = R.choice([q["op"], "slogdet", "slogdet", "inv", "det"])
                else:
                    q["logdet"] = R.random() < 0.7
                other = dict(q, s=R.choice([x for x in (0.0, 0.3, 1.0, 0.7) if x != q["s"]]))
            else:
                other = g.vary(q)
            hist, nt, warm = [q], 2, q if R.random() < 0.3 else None
            ths = [[{"q": q} for _ in range(R.choice([1, 2, 2]))], [{"q": other}] + [{"q": R.choice([q, other])} for _ in range(R.choice([0, 1, 1]))]]
        elif R.random() < 0.18:
            # one object asked for many variants of one computation by every caller
            c = R.choice(g.cosmos)
            k = R.choice(["chi", "chi", "other", "other"])
            b = R.choice([g.q_cosmo(c, cheap=True, opts=False), g.q_cosmo(c, opts=False)]) if k == "other" else {"q": "chi", "c": {"ref": c}, "a": R.choice(g.pool.A)}

            def variant():
                if k == "other":
                    return g.vary(b)
                q = dict(b)
                if R.random() < 0.75:
                    q["steps"] = R.choice([16, 64, 128, 300])
                if R.random() < 0.4:
                    q["log10_amin"] = R.choice([-2, -2.5])
                return q
            nt = 2
            ths = [[{"q": variant()} for _ in range(R.choice([1, 2]))], [{"q": variant()} for _ in range(R.choice([2, 3, 4]))]]
            hist, warm = [ths[0][0]["q"]], (variant() if R.random() < 0.4 else None)
        heavy = any(o["q"]["q"] in _HEAVY for t in ths for o in t)
        for rep in range(R.choice([1, 2]) if heavy else R.choice([3, 5, 7])):
            # the same callers, new objects, another schedule
            if rep or scene:
                g.emit(op="rebuild")
            if warm:
                g.ask(warm)
            g.emit(op="threads", threads=ths, sched=sched_spec(R, nt))
            o = R.choice(objs)
            g.ask(g.about(o, cheap=True) if R.random() < 0.5 else hist[0])
    return {}


def plan_C05(g):
    R = g.R
    g.cast(ncosmo=(1, 2), nnz=(1, 2), nprobe=(1, 2), nbias=(1, 2), spline=0.5)
    g.budget = 5
    allobj = g.cosmos + g.nzs + g.deltas + g.biases + g.probes + g.splines
    for _ in range(R.randint(4, 9)):
        n = R.choice(allobj)
        if R.random() < 0.3:
            g.ask(g.about(n, cheap=True))
        if R.random() < 0.2:
            # a batch of different objects of one structure
            sp = g.variant(g.specs[n])
            if sp:
                m = g.new(sp, n[0])
                q = g.about(n, cheap=True)
                if q["q"] not in ("str",):
                    g.emit(op="batch", names=[n, m], q=q, how=R.choice(["vmap", "scan", "unstack", "jit_unstack", "map"]))
                    continue
        how = [R.choice(transports.ALL) for _ in range(R.choice([1, 1, 2, 3]))]
        g.emit(op="transport", name=n, how=how)
        g.ask(g.about(n, cheap=R.random() < 0.7), ctx=g.layers({"q": "x"}, n=1) if R.random() < 0.0 else [])
        if R.random() < 0.35:
            q = g.about(n, cheap=True)
            g.ask(q, ctx=fit_layers(q, [R.choice(contexts.OBJ)]))
    return {}


def plan_C06(g):
    R = g.R
    g.cast(ncosmo=(1, 1), nnz=(1, 2), nprobe=(0, 1), nbias=(0, 1), spline=0.3)
    if R.random() < 0.35:  # numbers that can be compared and hashed
        for n in g.cosmos:
            g.specs[n]["how"] = "float"
    g.budget = 6
    roles = {"c": list(g.cosmos), "n": list(g.nzs), "b": list(g.biases), "p": list(g.probes), "s": list(g.splines)}
    uf = []
    hist = []
    for _ in range(R.randint(5, 11)):
        act = R.choices(["sibling", "reborn", "drop", "ask", "ujit", "again"], [3, 2, 1, 4, 3, 2])[0]
        live = [n for l in roles.values() for n in l]
        if act == "sibling":
            n = R.choice(live) if R.random() < 0.5 else R.choice(R.choice([l for l in roles.values() if l]))
            m = g.new(g.sibling(g.specs[n]), n[0])
            field = g.field
            roles[n[0]].append(m)
            sync(g, roles)
            q = (g.sensitive(n, field) if field and R.random() < 0.7 else None) or g.about(n, cheap=R.random() < 0.7)
            for x in R.sample([n, m], 2):
                g.ask(swap(q, n, x))
            if R.random() < 0.5:
                g.ask(swap(q, n, n))
        elif act == "reborn":
            n = R.choice(live)
            if used_by(g, n, live):
                continue
            sp = g.sibling(g.specs[n])
            q = (g.sensitive(n, g.field) if g.field and R.random() < 0.6 else None) or g.about(n, cheap=R.random() < 0.7)
            g.ask(q)
            hist = [h for h in hist if n not in refs(h)]
            g.specs[n] = sp
            g.emit(op="reborn", name=n, spec=sp, gc=R.random() < 0.3)
            g.ask(fix_spline(g, q, n))
        elif act == "drop":
            n = R.choice(live)
            if used_by(g, n, live) or len(roles[n[0]]) < 2:
                continue
            hist = [q for q in hist if n not in refs(q)]
            roles[n[0]].remove(n)
            sync(g, roles)
            g.emit(op="drop", name=n)
            if g.star == n:
                g.star = None
            if R.random() < 0.5:
                g.emit(op="gc")
        elif act == "ask":
            q = g.again(hist, cheap=R.random() < 0.6)
            hist.append(q)
            g.ask(q)
        elif act == "ujit":
            n = R.choice(live)
            q = g.about(n, cheap=True)
            if q["q"] == "str":
                continue
            slots = sorted(set(refs(q)))
            fid = "f%d" % len(uf)
            uf.append((fid, q, slots))
            wrap = R.choice(["jit", "jit", "vmap", "grad", "checkpoint"])
            if q["q"] in ("probe_attrs", "nz_attrs"):
                wrap = "jit"
            g.emit(op="ujit", id=fid, q=q, slots=slots, wrap=wrap)
            sp = g.sibling(g.specs[n])
            if sp["k"] == "spline":
                sp = dict(g.specs[n], y=[r4(v * 1.3) for v in g.specs[n]["y"]])
            m = g.new(sp, n[0])
            roles[n[0]].append(m)
            sync(g, roles)
            g.emit(op="ujit", id=fid, q=swap(q, n, m), slots=[m if x == n else x for x in slots], wrap=wrap)
            g.emit(op="ujit", id=fid, q=q, slots=slots, wrap=wrap)
        elif act == "again":
            n = R.choice(live)
            g.ask(g.about(n, cheap=True))
    return {}


def fix_spline(g, q, n):
    if q["q"] == "spline" and q.get("op") == "deriv":
        q = dict(q, n=min(q["n"], g.specs[n]["deg"]))
    return q


def sync(g, roles):
    g.cosmos, g.nzs, g.biases, g.probes, g.splines = roles["c"], roles["n"], roles["b"], roles["p"], roles["s"]


def refs(x):
    from .world import refs_of

    return refs_of(x)


def used_by(g, n, live):
    return any(n in refs(g.specs[m]) for m in g.specs if m != n)


def swap(q, a, b):
    if isinstance(q, dict):
        if q == {"ref": a}:
            return {"ref": b}
        return {k: swap(v, a, b) for k, v in q.items()}
    if isinstance(q, list):
        return [swap(v, a, b) for v in q]
    return q


GRADQ = ["H", "Esqr", "Omega_m_a", "Omega_de_a", "f_de", "w", "dchioverda", "chi", "chi", "transverse_comoving_distance",
         "angular_diameter_distance", "growth_factor", "growth_factor", "growth_rate", "growth_rate", "a_of_chi"]


def plan_C07(g):
    R = g.R
    g.cast(ncosmo=(1, 1), nnz=(1, 2), nprobe=(0, 1), nbias=(0, 1), spline=0.15, delta=False)
    g.budget = 3
    outer_c = g.cosmos[0]
    for _ in range(R.choice([0, 0, 1, 2, 3])):
        g.ask(g.query(cheap=True))
    # objects built inside the program, from its argument
    inner, params = {}, []
    c = dict(R.choice(g.pool.cosmos))
    c.pop("planck", None)
    inner["ci"] = c
    sc = {"Omega_c": 0.3, "Omega_b": 0.05, "h": 0.7, "n_s": 1.0, "sigma8": 0.8, "Omega_k": 0.3, "w0": 1.0, "wa": 0.5, "gamma": 0.5}
    fields = [f for f in sc if f != "gamma" or c.get("gamma") is not None]
    for f in R.sample(fields, R.choice([1, 2, 2, 3])):
        params.append({"obj": "ci", "path": "", "field": f, "v": c[f], "scale": sc[f]})
    g.specs["ci"] = c
    NZF = {"smail": ["a", "b", "z0"], "shift": ["bias"], "usernz": ["mu", "s"], "kde": ["zcat", "w"]}

    def nzparam(obj, path, nz):
        f = R.choice(NZF[nz["k"]])
        if nz["k"] == "shift" and R.random() < 0.5 and nz["parent"]["k"] in NZF:
            return nzparam(obj, path + "/parent", nz["parent"])
        lst = isinstance(nz[f], list)
        return {"obj": obj, "path": path, "field": f, "v": 1.0 if lst else nz[f], "scale": 0.3}

    def bias_of(obj, path):
        b = R.choice([{"k": "b_const", "b": 1.4}, {"k": "b_inv", "b": 1.3}, {"k": "b_user", "b": 1.2, "s": 0.7},
                      {"k": "b_des", "A": 1.0, "eta": 0.4, "z0": 0.6}, {"k": "b_des", "A": 0.8, "eta": -0.6, "z0": 0.5},
                      {"k": "b_des", "A": 1.1, "eta": 5e-4, "z0": 0.62}, {"k": "b_des", "A": 1.3, "eta": R.choice([0.0, 5e-4, -5e-4, 1.0, 2.0]), "z0": R.choice([0.0, 0.62])}])
        if b["k"] == "b_des" and R.random() < 0.2:  # pivoting where it is asked
            b["z0"] = R.choice(R.choice(g.pool.Z))
        fs = [x for x in b if x != "k"]
        for f in R.sample(fs, min(len(fs), R.choice([1, 1, 2]))):
            params.append({"obj": obj, "path": path, "field": f, "v": b[f], "scale": 0.5})
        return b

    if R.random() < 0.6:
        nz = [n for n in g.pool.nzs if n["k"] in ("smail", "shift", "usernz") or "zcat" in n]
        nz = dict(R.choice([n for n in nz if n["k"] == "kde"] if R.random() < 0.2 else nz))
        inner["ni"] = nz
        g.specs["ni"] = nz
        params.append(nzparam("ni", "", nz))
        if "gals" in nz and R.random() < 0.25:
            params.append({"obj": "ni", "path": "", "field": "gals", "v": nz["gals"], "scale": 1.0})
        if R.random() < 0.6:
            p = {"k": R.choice(["nc", "wl"]), "bins": [dict(nz)]}
            if p["k"] == "nc":
                p["bias"] = bias_of("pi", "/bias")
            else:
                p["m"] = R.choice([0.05, 0.05, 0.0, -0.02])
                if R.random() < 0.6:
                    p["ia"] = bias_of("pi", "/ia")
                params.append({"obj": "pi", "path": "", "field": "m", "v": p["m"], "scale": 1.0})
            params.append(nzparam("pi", "/bins0", nz))
            if "gals" in nz and R.random() < 0.5:
                params.append({"obj": "pi", "path": "/bins0", "field": "gals", "v": nz["gals"], "scale": 1.0})
            inner["pi"] = p
            g.specs["pi"] = p
    if R.random() < 0.35:
        inner["bi"] = bias_of("bi", "")
        g.specs["bi"] = inner["bi"]
    if R.random() < 0.2:
        inner["si"] = sp = g.spline_spec()
        g.specs["si"] = sp
        params.append({"obj": "si", "path": "", "field": "y", "v": 1.0, "scale": 0.5})
    terms = []
    first = [k for k, p in (("probe", "pi" in inner), ("nonlin", 1), ("lin", 1)) if p and R.random() < 0.25]
    for j in range(R.choice([1, 2, 2, 3, 4])):
        cc = "ci" if R.random() < 0.75 else outer_c
        k = first.pop() if first else R.choices(["bg", "lin", "nz", "probe", "cl", "bias", "outer", "spline", "free", "user", "nonlin", "noise", "like"],
                      [6, 0.8, 2 if "ni" in inner else 0.5, 2 if "pi" in inner else 0.3, 0.5 if "pi" in inner else 0,
                       3 if "bi" in inner else 0.4, 0.4, 2 if "si" in inner else 0, 0.7, 0.7, 0.6,
                       1.2 if "pi" in inner else 0, 0.3 if "pi" in inner else 0])[0]
        if k == "lin" and g.budget > 0:
            q = {"q": R.choice(["linear", "sigmasqr", "EH", "EH", "EH", "primordial"]), "c": {"ref": cc}, "T": R.choice(["bbks", "bbks2", "reent"])}
            if q["q"] == "linear":
                q.update(kk=R.choice(g.pool.K), a=[0.6])
            elif q["q"] == "sigmasqr":
                q.update(R=8.0)
            else:
                q.update(kk=R.choice(g.pool.K), type=R.choice(["eisenhu", "eisenhu_osc"]))
            g.budget -= 2 if "R" in q or "a" in q else 0
        elif k == "nonlin" and g.budget > 2:
            q = {"q": "nonlinear", "c": {"ref": cc}, "kk": R.choice(g.pool.fK[0]), "a": [0.7], "T": "bbks", "NL": R.choice(["halofit", "smith", "linear", "trivg"])}
            g.budget -= 4
        elif k == "nz":
            q = {"q": R.choice(["nz", "pz"]), "o": {"ref": "ni" if "ni" in inner else R.choice(g.nzs)}, "z": R.choice(g.pool.Z)}
        elif k == "probe" and (g.probes or "pi" in inner):
            q = {"q": "kernel", "o": {"ref": "pi" if "pi" in inner else R.choice(g.probes)}, "c": {"ref": cc}, "z": R.choice(g.pool.Z), "ell": 120.0}
        elif k == "cl" and g.budget > 0:
            q = {"q": "cl", "ps": [{"ref": "pi"}], "c": {"ref": cc}, "ell": g.pool.ELL[0], "T": "bbks", "NL": R.choice(["triv", "trivg"])}
            g.budget -= 1.5
        elif k == "noise":
            q = R.choice([{"q": "noise_cl", "ps": [{"ref": "pi"}], "ell": g.pool.ELL[0]}, {"q": "noise", "o": {"ref": "pi"}}, {"q": "nz_attrs", "o": {"ref": "ni"}},
                          {"q": "cov", "ps": [{"ref": "pi"}], "ell": g.pool.ELL[0], "sig": [1e-7], "sparse": R.random() < 0.5, "f_sky": 0.25}])
        elif k == "like" and g.budget > 1:
            q = {"q": R.choice(["covmean", "like", "like"]), "ps": [{"ref": "pi"}], "c": {"ref": cc}, "ell": g.pool.ELL[0], "T": "bbks", "NL": R.choice(["triv", "trivg"]),
                 "sparse": True}
            if q["q"] == "like":
                q["logdet"] = R.random() < 0.6
            g.budget -= 2
        elif k == "bias":
            o = {"ref": "bi"} if "bi" in inner else {"ref": R.choice(g.biases)} if g.biases else {"k": "b_inv", "b": 1.3}
            q = {"q": "bias", "o": o, "c": {"ref": cc}, "z": R.choice(g.pool.Z)}
        elif k == "outer" and g.splines:
            q = {"q": "spline", "o": {"ref": g.splines[0]}, "op": R.choice(["call", "anti"]), "x": [0.23, 0.41]}
        elif k == "spline" and "si" in inner:
            q = {"q": "spline", "o": {"ref": "si"}, "op": R.choice(["call", "call", "anti", "integral"] + (["deriv"] if inner["si"]["deg"] > 1 else [])), "x": [0.23, 0.41, 0.77]}
            if q["op"] == "deriv":
                q["n"] = 1
            if q["op"] == "integral":
                q.update(lo=0.1, hi=0.6)
                q.pop("x")
        elif k == "free":
            q = R.choice([{"q": "romb", "p": 0.8, "lo": 0.1, "hi": 1.3, "divmax": 6}, {"q": "simps", "p": 0.8, "lo": 0.1, "hi": 1.3, "N": 32},
                          {"q": "sparse", "op": R.choice(["dot", "vdot", "quad", "inv", "slogdet", "det", "dense"]), "nb": 2, "nd": 3, "s": 0.4, "v": [0.5, 0.7, 0.2, 0.9, 0.4, 0.6]},
                          {"q": "loglike", "nb": 2, "nd": 3, "s": 0.4, "v": [0.5, 0.7, 0.2, 0.9, 0.4, 0.6], "sparse": R.random() < 0.6,
                           "logdet": R.random() < 0.6, "inv": R.choice(["inverse", "cholesky"])},
                          {"q": "ode", "p": 0.7, "a": [0.1, 0.3, 0.6, 1.0]}])
            q = dict(q)
        elif k == "user":
            q = R.choice([{"q": "romb_c", "c": {"ref": cc}, "fn": R.choice(USERFN), "p": 0.4, "lo": 0.3, "hi": 0.9},
                          {"q": "simps_c", "c": {"ref": cc}, "fn": R.choice(USERFN), "p": 0.4, "lo": 0.3, "hi": 0.9},
                          {"q": "ode_c", "c": {"ref": cc}, "fn": R.choice(["growth_factor", "Omega_m_a"]), "p": 0.4, "a": [0.3, 0.5, 0.65, 0.9]}])
        else:
            n = R.choice(GRADQ)
            q = {"q": n, "c": {"ref": cc}, ("chi" if n == "a_of_chi" else "a"): R.choice(g.pool.X if n == "a_of_chi" else g.pool.A)}
            if n == "chi" and R.random() < 0.2:
                q["steps"] = 64
        t = {"q": q, "seed": R.randrange(10**6), "norm": 1.0}
        if R.random() < 0.35:
            t["layers"] = fit_layers(q, [R.choice(["jit", "jit_closed", "checkpoint", "vmap", "scan", "cond", "jit_obj", "scan_x",
                                                   "twice", "eval_shape", "abandon", "map", "scan_obj", "vmap_obj"])])
        arg = next((x for x in ("a", "z", "kk", "chi", "x", "v") if x in q), None)
        sarg = next((x for x in ("R", "s", "p", "hi") if isinstance(q.get(x), float)), None)
        if sarg and (arg is None or R.random() < 0.5):
            arg = sarg
            t.pop("layers", None)
        terms.append(t)
        if arg and R.random() < (0.8 if q["q"] in ("romb", "simps", "sparse", "loglike", "ode", "kernel") else 0.3) and not (set(t.get("layers", [])) & {"jit_closed"}):
            params.append({"arg": arg, "term": j, "v": 1.0, "scale": 0.3})
    norm = {"chi": 1e-3, "transverse_comoving_distance": 1e-3, "angular_diameter_distance": 1e-3, "H": 1e-2, "dchioverda": 1e-3, "a_of_chi": 1.0,
            "linear": 1e-2, "kernel": 1.0, "cl": 1e4, "sigmasqr": 10.0, "noise_cl": 1e8, "noise": 1e8, "nz_attrs": 1e-7, "cov": 1e10, "covmean": 1e4}
    for t in terms:
        t["norm"] = norm.get(t["q"]["q"], 1.0)
    if len(terms) > 1 and R.random() < 0.4:
        R.shuffle(params)
    order = list(params)
    mode = R.choice(["grad", "grad", "jitgrad", "gradjit", "jacfwd", "jacrev", "value_and_grad", "vmapgrad", "checkpoint",
                     "linearize", "jitjvp", "gradgrad"])
    if any(t["q"]["q"] in _HEAVY for t in terms) and mode in ("gradgrad", "linearize", "jitjvp"):
        mode = "grad"
    g.emit(op="program", params=order, inner=inner, terms=terms, mode=mode, dir=[r4(R.choice([-1, 1]) * R.uniform(0.5, 1)) for _ in order])
    # afterwards, the captured objects still answer
    for o in [outer_c] + g.nzs[:1]:
        g.ask(g.about(o, cheap=True))
    return {}


def plan_C08(g):
    R = g.R
    g.cast(ncosmo=(1, 2), nnz=(1, 2), nprobe=(0, 2), nbias=(0, 2), spline=0.4)
    g.budget = 5
    objs = g.cosmos + g.nzs + g.biases + g.probes + g.splines
    snaps = {}
    for _ in range(R.randint(3, 8)):
        n = R.choice(objs)
        a = R.choices(["ask", "trace", "fault", "transport", "threads", "snap", "copy", "restore"], [2, 2, 1.5, 1, 2, 3, 2, 1])[0]
        if a == "ask":
            g.ask(g.about(n, cheap=R.random() < 0.7))
        elif a == "trace":
            q = g.about(n, cheap=True)
            g.ask(q, ctx=g.layers(q))
        elif a == "fault":
            q = g.about(n, cheap=True)
            g.ask(q, fault=fault(R, q))
        elif a == "transport":
            g.emit(op="transport", name=n, how=[R.choice(transports.ALL)])
        elif a == "threads":
            q = g.about(n, cheap=True)
            to = g.name("k")
            snaps[to] = n
            g.specs[to] = g.specs[n]
            if R.random() < 0.5:
                # saved while others fill it: the saver waits at one of its own lines
                if R.random() < 0.3:
                    n = R.choice(g.cosmos)
                    snaps[to], g.specs[to] = n, g.specs[n]
                other = [g.about(n, cheap=True) for _ in range(R.choice([1, 2, 3]))]
                if n in g.cosmos and R.random() < 0.6:
                    # one table is there and another is made meanwhile
                    pair = [{"q": k, "c": {"ref": n}, "a": R.choice(g.pool.A)} for k in R.sample(["chi", R.choice(["growth_factor", "growth_rate"])], 2)]
                    g.ask(pair[0])
                    other[0] = pair[1]
                elif R.random() < 0.6:
                    g.ask(g.about(n, cheap=True))
                snap = {"op": "snapshot", "name": n, "to": to, "how": R.choice(["pickle", "pickle", "deepcopy"])}
                g.emit(op="threads", threads=[[snap] if R.random() < 0.7 else [{"q": q}, snap], [{"q": x} for x in other]],
                       sched=sched_spec(R, 2) if R.random() < 0.4 else {"kind": "solo", "seed": 1, "gran": "line", "points": [[int(40 ** R.random()) if R.random() < (0.85 if snap["how"] == "pickle" else 0.3) else R.randint(40, 450), 0]]})
                if snap["how"] == "deepcopy":
                    g.ask(g.about(to, cheap=True))
                    del snaps[to]
                continue
            g.emit(op="threads", threads=[[{"q": q}, {"q": g.about(n, cheap=True)}],
                                          [{"op": "snapshot", "name": n, "to": to, "how": "pickle"}]],
                   sched=sched_spec(R, 2) if R.random() < 0.5 else {"kind": "solo", "seed": 1, "gran": "line", "points": [[R.randint(1, 60), 0]]})
        elif a == "snap":
            to = g.name("k")
            snaps[to] = n
            g.specs[to] = g.specs[n]
            g.emit(op="snapshot", name=n, to=to, how="pickle", protocol=R.choice([2, 3, 4, 5]))
        elif a == "copy":
            to = g.name(n[0])
            g.specs[to] = g.specs[n]
            g.emit(op="snapshot", name=n, to=to, how="deepcopy")
            if R.random() < 0.35:
                # what its owner does to one of the two is nothing to the other
                a, b = R.choice([(n, to), (to, n)])
                if b == n and (used_by(g, n, objs) or refs(g.specs[n])):
                    a, b = n, to
                g.emit(op="mutate", name=b, other=a, seed=R.randrange(1000))
                g.ask(swap(g.about(a, cheap=True), a, a))
                if b == n:
                    objs.remove(n)
                    for l in (g.cosmos, g.nzs, g.biases, g.probes, g.splines):
                        if n in l:
                            l[l.index(n)] = to
                    objs.append(to)
                    snaps = {k: to if v == n else v for k, v in snaps.items()}
                continue
            # independence: use one, then the other
            q = g.about(to, cheap=True)
            if R.random() < 0.5:
                g.ask(q, **({"fault": fault(R, q)} if R.random() < 0.3 else {"ctx": g.layers(q, n=1)} if R.random() < 0.3 else {}))
            g.ask(swap(g.about(n, cheap=True), n, n))
            g.ask(q)
        elif a == "restore" and snaps:
            k = R.choice(sorted(snaps))
            to = g.name(snaps[k][0])
            g.specs[to] = g.specs[k]
            g.emit(op="restore", **{"from": k, "to": to})
            g.ask(g.about(to, cheap=True))
            g.ask(g.about(snaps[k], cheap=True))
    if not snaps:
        n = R.choice(objs)
        snaps["k0"] = n
        g.specs["k0"] = g.specs[n]
        g.emit(op="snapshot", name=n, to="k0", how="pickle")
    qs = []
    for k in sorted(snaps):
        for _ in range(R.choice([1, 2])):
            q = g.about(k, cheap=True)
            # other objects in the restarted process are built anew
            q = inline(q, g, keep={k})
            qs.append(q)
    pre = [inline(g.query(cheap=True), g, keep=()) for _ in range(R.choice([0, 1, 2, 3]))]
    if R.random() < 0.6:  # and has already asked the same of near relatives
        for q in R.sample(qs, min(len(qs), R.choice([1, 2, 3]))):
            near = {k: g.sibling(g.specs[k]) for k in sorted(set(refs(q)))}
            if any(sp["k"] == "spline" for sp in near.values()):
                continue
            pre.insert(0, inline(world.resolve(q, {**g.specs, **near}), g, keep=()))
    g.emit(op="crash", qs=qs, prelude=pre)
    for o in g.cosmos[:1]:
        g.ask(g.about(o, cheap=True))
    return {}


def inline(q, g, keep):
    from .world import resolve

    if isinstance(q, dict):
        if set(q) == {"ref"}:
            return q if q["ref"] in keep else resolve(q, g.specs)
        return {k: inline(v, g, keep) for k, v in q.items()}
    if isinstance(q, list):
        return [inline(v, g, keep) for v in q]
    return q


def plan_C09(g):
    R = g.R
    g.cast(ncosmo=(1, 2), nnz=(1, 2), nprobe=(0, 2), nbias=(0, 2), spline=0.35)
    g.budget = 6
    hist = []
    for _ in range(R.randint(8, 16)):
        q = g.again(hist, cheap=R.random() < 0.6)
        if R.random() < 0.2:
            # what takes more than one array
            q = g.of_kind(R.choice(["cov", "cov", "loglike", "sparse", "interp", "noise_cl", "spline"])) or q
        hist.append(q)
        kw = {"conv": R.choice(["np", "np", "npro", "jnp"])}
        if kw["conv"] == "np" and R.random() < 0.6:
            kw["buf"] = True  # the caller keeps one array per shape and overwrites it
        if R.random() < 0.8:
            kw["then"] = R.choice(["delete", "delete_results", "delete_all", "scribble"])
        if R.random() < 0.12:
            kw.pop("then", None)
            kw["fault"] = fault(R, q)
        elif R.random() < 0.15:
            kw["ctx"] = g.layers(q, n=1)
            kw.pop("then", None)
        g.ask(q, **kw)
        if R.random() < 0.3 and "fault" not in kw:
            g.ask(q, conv=kw["conv"], **({"buf": True} if "buf" in kw else {}))
        names = [n for n in ("a", "kk", "z", "ell", "chi", "x", "v") if isinstance(q.get(n), list)]
        if names and R.random() < 0.3 and COST.get(q["q"], 0) < 1.5:
            # one array object, which comes back with other contents
            for f in [1.0] + R.sample([0.97, 0.9, 0.85], R.choice([1, 2])):
                q2 = dict(q)
                for n in names:
                    if R.random() < 0.8:
                        q2[n] = [r4(x * f) for x in q[n]] if q["q"] not in ("ode", "ode_c") else q[n]
                g.ask(q2, conv="np", buf=True)
    return {"check_inputs": True}


def plan_C10(g):
    R = g.R
    g.cast(ncosmo=(1, 2), nnz=(1, 2), nprobe=(0, 2), nbias=(0, 1), spline=0.4)
    g.budget = 6
    allobj = g.cosmos + g.nzs + g.probes + g.splines
    hist = []
    for _ in range(R.randint(4, 9)):
        a = R.choices(["ask", "fault", "trace", "transport", "invalid", "snap"], [3, 4, 2, 1, 1, 0.5])[0]
        q = g.again(hist, cheap=R.random() < 0.5)
        hist.append(q)
        if a == "ask":
            g.ask(q)
        elif a == "fault":
            g.ask(q, fault=fault(R, q))
        elif a == "trace":
            g.ask(q, ctx=g.layers(q, n=R.choice([1, 2])))
        elif a == "transport":
            g.emit(op="transport", name=R.choice(allobj), how=[R.choice(transports.ALL)])
        elif a == "invalid":
            g.ask(R.choice(INVALID)(g, R.choice(g.cosmos)))
        else:
            g.emit(op="snapshot", name=R.choice(allobj), to=g.name("k"), how=R.choice(["pickle", "deepcopy"]))
    return {"guard": True, "x64": R.random() < 0.8,
            "settings": {k: R.choice(SETTINGS[k]) for k in R.sample(sorted(SETTINGS), R.choice([0, 3, 6, 10]))}}


def plan_C11(g):
    R = g.R
    g.cast(ncosmo=(1, 1), nnz=(1, 1), nprobe=(0, 1), nbias=(0, 1), spline=0.3, delta=False)
    g.budget = 1.2 if R.random() < 0.6 else 0.0
    body = []
    for _ in range(R.randint(2, 4)):
        a = R.choices(["ask", "fault", "trace", "temp"], [3, 1.5, 1, 2])[0]
        heavy = g.budget > 0 and not any(b.get("q", {}).get("q") in _HEAVY for b in body) and g.of_kind(R.choice(
            ["linear", "linear", "sigmasqr", "cl", "nonlinear", "kernel", "cov", "covmean"] if g.probes else ["linear", "sigmasqr", "nonlinear"]))
        if heavy and R.random() < 0.7:
            if heavy.get("T", "").startswith("EH"):
                heavy["T"] = "bbks!"
                heavy.pop("kw", None)
            if heavy.get("NL") in ("halofit", "halofit-", "smith"):
                heavy["NL"] = "triv"
            if R.random() < 0.3 and "T" in heavy:
                heavy["T"] = "bbks!"
            q = heavy
        else:
            q = fixed(g, g.query(cheap=True, opts=False))
        if q["q"] == "spline" and q.get("op") == "integral":
            q = {"q": "growth_rate", "c": {"ref": g.cosmos[0]}, "a": [0.3, 0.6]}
        st = {"op": "ask", "q": q, "conv": R.choice(["np", "jnp"])}
        if a == "fault":
            st["fault"] = fault(R, q)
        elif a == "trace":
            st["ctx"] = fit_layers(q, [R.choice(["jit", "vmap", "grad", "checkpoint", "eval_shape", "abandon", "scan", "cond", "jit_closed", "jit_obj"])])
        elif a == "temp":
            tn = g.name(R.choice("ccnnbps"))
            sp = {"c": g.cosmo_spec, "n": g.nz_spec, "b": g.bias_spec, "s": g.spline_spec,
                  "p": lambda: g.probe_spec([{"ref": n} for n in g.nzs], [{"ref": b} for b in g.biases] or [g.bias_spec()])}[tn[0]]()
            g.specs[tn] = sp
            if g.probes and R.random() < 0.3 and tn[0] == "c":
                qs = [{"q": "kernel", "o": {"ref": g.probes[0]}, "c": {"ref": tn}, "z": R.choice(g.pool.Z), "ell": 100.0}]
            else:
                qs = [fixed(g, g.about(tn, cheap=R.random() < 0.7)) for _ in range(R.choice([1, 2]))]
            qs = [x for x in qs if x["q"] not in ("covmean", "like", "nonlinear") and not (x["q"] == "spline" and x.get("op") == "integral")]
            st = {"op": "temp", "name": tn, "spec": sp, "qs": qs or [fixed(g, g.about(tn, cheap=True))]}
            if R.random() < 0.2:
                st["fault"] = fault(R, st["qs"][0], ("line", "call"))
        body.append(st)
    if R.random() < 0.3:
        c = g.cosmos[0]
        body.append({"op": "ask", "q": {"q": "chi", "c": {"ref": c}, "a": [0.3, 0.7], "steps": 64}})
    g.emit(op="memory", body=body, blocks=5, reps=R.choice([2, 3]))
    for o in g.cosmos + g.nzs:
        g.ask(g.about(o, cheap=True))
    return {}


def fixed(g, q):
    return q


F32_OK = {"chi", "growth_factor", "growth_rate", "H", "Esqr", "Omega_m_a", "Omega_de_a", "w", "dchioverda", "a_of_chi",
          "transverse_comoving_distance", "angular_diameter_distance", "nz", "kernel", "noise", "bias", "cosmo_attrs",
          "nz_attrs", "probe_attrs", "spline", "primordial", "cl", "linear", "noise_cl", "sigmasqr", "EH", "nonlinear"}


def f32ok(q):
    if q["q"] not in F32_OK:
        return False
    if q["q"] == "spline" and q.get("op") == "deriv":
        return False
    if q.get("NL") in ("halofit", "halofit-", "smith"):
        return False
    return True


def plan_C12(g):
    R = g.R
    start = R.random() < 0.4
    g.floats = True
    g.pool = copy.copy(g.pool)
    g.pool.nzs = [n for n in g.pool.nzs if "kde" not in json.dumps(n)]
    g.cast(ncosmo=(1, 1), nnz=(1, 1), nprobe=(0, 1), nbias=(0, 1), spline=0)
    g.budget = 6

    def q1(cheap=True, any_=False):
        """with `any_`, also queries that single precision cannot answer well: they must not fail"""
        for _ in range(40):
            q = g.again(hist, cheap=cheap)
            if f32ok(q) or any_:
                hist.append(q)
                return q
        return {"q": "H", "c": {"ref": g.cosmos[0]}, "a": [0.5]}

    def put(q, **kw):
        g.ask(q, **({} if f32ok(q) else {"loose": True}), **kw)

    hist = []
    on = start
    theme = None
    if R.random() < 0.4:  # one kind of question, in either precision
        for _ in range(20):
            g.budget = 6
            theme = g.of_kind(R.choice(["linear", "nonlinear", "nonlinear", "nonlinear", "sigmasqr", "cl", "kernel", "covmean", "EH"])) or theme
            if theme and not theme.get("T", "").startswith("EH"):
                break
        if theme and theme["q"] == "nonlinear" and R.random() < 0.6:
            theme["NL"] = R.choice(["halofit", "smith"])
        if theme:
            g.budget = 3
            start = on = False
            put(theme)
            hist.append(theme)
    for _ in range(R.randint(2, 5) if theme else R.randint(5, 10)):
        a = R.choices(["flip", "scope", "ask", "new", "sibling", "trace", "fault", "threads"], [3, 1.5, 4, 2, 2, 1.5, 1, 0.7])[0]
        if a == "flip":
            on = not on
            g.emit(op="x64", on=on)
        elif a == "scope":
            g.emit(op="query_x64", on=R.random() < 0.5, q=q1())
        elif a == "ask":
            put(q1(R.random() < 0.7, R.random() < 0.4))
        elif a == "new":
            g.cosmos.append(g.new(g.cosmo_spec(), "c"))
            g.nzs.append(g.new(g.nz_spec(), "n"))
            put(g.about(g.cosmos[-1], cheap=R.random() < 0.6))
            g.ask({"q": "nz", "o": {"ref": g.nzs[-1]}, "z": R.choice(g.pool.Z)})
        elif a == "sibling":
            # the twin of an object used at the other precision
            n = R.choice(g.cosmos)
            on = not on
            g.emit(op="x64", on=on)
            m = g.new(dict(g.specs[n]), "c")
            g.cosmos.append(m)
            q = g.about(n, cheap=R.random() < 0.6)
            put(q)
            put(swap(q, n, m))
        elif a == "threads":
            # callers that each choose their own precision, on shared objects
            ths = []
            for t in range(2):
                ths.append([{"q": q1(), "x64": R.random() < 0.5} for _ in range(R.choice([1, 2]))])
            g.emit(op="threads", threads=ths, sched=sched_spec(R, 2))
        elif a == "trace":
            q = q1()
            g.ask(q, ctx=g.layers(q, n=1))
        elif a == "fault":
            q = q1()
            g.ask(q, fault=fault(R, q))
    if not on:
        g.emit(op="x64", on=True)
    # made and first used in double precision: the same queries as before, and others
    c = g.new(g.cosmo_spec() if R.random() < 0.6 else dict(g.specs[g.cosmos[0]]), "c")
    olds = sorted(set(g.cosmos))
    g.cosmos = [c]
    ren = {}
    for l in (g.nzs, g.biases, g.probes):
        for n in list(l)[:1]:
            sp = copy.deepcopy(g.specs[n])
            for o, m in ren.items():
                sp = swap(sp, o, m)
            if set(refs(sp)) - set(ren.values()):
                sp = inline(sp, g, keep=set(ren.values()))
            ren[n] = g.new(sp, n[0])
    g.nzs, g.biases, g.probes = ([ren[n] for n in l[:1]] for l in (g.nzs, g.biases, g.probes))
    g.deltas = []
    again = []
    for q in hist:
        for o in olds:
            q = swap(q, o, c)
        for o, m in ren.items():
            q = swap(q, o, m)
        if all(n in (c, *ren.values()) for n in refs(q)):
            again.append(q)
    first = again[:1] if theme and hist and again else []
    again = again[len(first):]
    R.shuffle(again)
    for q in first + again[:2 if first else 4]:
        g.ask(q)
    for _ in range(1 if theme else 2):
        g.ask(g.query(cheap=R.random() < 0.6))
    if R.random() < 0.25 and not theme:
        g.ask({"q": "nonlinear", "c": {"ref": c}, "kk": R.choice(g.pool.K), "a": [0.7], "T": R.choice(["bbks", "bbks2"]), "NL": R.choice(["halofit", "smith"])})
    # does the answer carry the digits of its input?
    last = [s for s in g.steps if s["op"] == "query" and not s.get("fault") and s["q"]["q"] not in ("str", "romb", "like", "cosmo_k", "probe_attrs")]
    for s in last[-R.choice([2, 3, 4]):]:
        g.emit(op="precise", q=s["q"], seed=R.randrange(10**6))
    return {"mode": "precision", "x64": start}


def plan_C13(g):
    R = g.R
    g.cast(ncosmo=(1, 2), nnz=(1, 2), nprobe=(0, 2), nbias=(0, 1), spline=0.4)
    g.budget = 3
    hist = []
    for _ in range(R.randint(5, 10)):
        q = g.again(hist, cheap=R.random() < 0.6)
        if R.random() < 0.1:
            q = R.choice([{"q": "romb", "p": 0.8, "lo": 0.1, "hi": 1.3, "divmax": 6}, {"q": "romb", "p": 1.1, "lo": 0.0, "hi": 0.9, "divmax": 7}])
        hist.append(q)
        L = g.layers(q, n=1) if R.random() < 0.25 else []
        kw = {"fault": fault(R, q, ("line", "call"))} if R.random() < 0.1 else {}
        g.ask(q, ctx=L, **kw)
        if R.random() < 0.15:
            g.emit(op="transport", name=R.choice(g.cosmos + g.nzs + g.probes), how=[R.choice(transports.ALL)])
    if R.random() < 0.4:
        g.ask({"q": "str", "c": {"ref": R.choice(g.cosmos)}})
    return {"repro": True}


def plan_C14(g):
    from . import importer

    R = g.R
    mods = importer.modules()
    files = list(importer._files())
    # every line of every file gets its turn before any comes twice
    targets = [("/" + os.path.relpath(p, sut.REPO), n + 1) for p in files for n in range(importer.length(p))]
    random.Random(7).shuffle(targets)
    turn = g.seed * 5
    for _ in range(R.choice([3, 5, 8])):
        atts = []
        for j in range(R.choice([1, 1, 2, 3])):
            names = [R.choice(mods) for _ in range(R.choice([1, 1, 2]))] if R.random() < 0.6 else ["jax_cosmo"]
            k = R.choice(["line", "line", "line", "line", "import", "import", "call"])
            if k == "line":
                f = {"kind": k, "k": 1 + int(330 * R.random() ** R.choice([1.0, 1.6])), "exc": R.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "SystemExit", "CallTimeout"])}
            elif k == "import":
                f = {"kind": k, "k": R.randint(1, 55), "exc": R.choice(["ImportError", "ImportError", "MemoryError", "KeyboardInterrupt"])}
            else:
                f = {"kind": k, "k": R.randint(1, 40), "exc": R.choice(["MemoryError", "oom"])}
            if k == "line" and R.random() < 0.85:
                f["within"], f["k"] = targets[turn % len(targets)]
                turn += 1
                mod = f["within"][1:].removesuffix(".py").removesuffix("/__init__").replace("/", ".")
                if mod in mods and R.random() < 0.9:
                    names = [mod]  # some are not imported by the package itself
            elif k == "call" and R.random() < 0.6:  # early or late in one file
                f["within"] = "/" + os.path.relpath(R.choice(files), sut.REPO)
                f["k"] = R.randint(1, 8)
            atts.append({"names": names, "fault": f, "thread": R.random() < 0.25})
        again = [n for a in atts for n in a["names"] if R.random() < 0.85]
        atts.append({"names": list(dict.fromkeys(again + R.sample(mods, R.choice([1, 2, 4])))), "thread": R.random() < 0.2})
        before, after = [], []
        r = R.random()
        if r < 0.35:
            after.append(["jax_enable_x64", True])
        elif r < 0.5:
            before.append(["jax_enable_x64", True])
        if R.random() < 0.4:
            after.append(["jax_num_cpu_devices", R.choice([2, 3])])
        qs = []
        for _ in range(R.choice([0, 0, 0, 0, 0, 1, 1, 2])):
            x = Gen(R.randrange(10**9), g.prop, g.pool)
            x.floats = True
            x.cast(ncosmo=(1, 1), nnz=(1, 1), nprobe=(0, 1), nbias=(0, 1))
            x.budget = 0.6
            q = x.query(cheap=R.random() < 0.8)
            if q["q"] in ("str", "romb"):
                continue
            qs.append(world.resolve(q, x.specs))
        g.emit(op="imports", before=before, after=after, attempts=atts, complete=R.sample(mods, 5), qs=qs)
    return {}


def plan_C15(g):
    R = g.R
    g.cast(ncosmo=(1, 2), nnz=(1, 2), nprobe=(0, 2), nbias=(0, 1), delta=False, spline=0.4)
    g.budget = 4
    objs = g.cosmos + g.nzs + g.probes + g.biases + g.splines
    for scene in range(R.choice([2, 3, 4])):
        if scene and R.random() < 0.7:
            g.emit(op="rebuild")
        hist = []
        for _ in range(R.choice([0, 0, 1, 2])):
            q = g.query(cheap=True)
            hist.append(q)
            g.ask(q)
        outer = g.query(cheap=R.random() < 0.5)
        if R.random() < 0.3:  # calls a function of the user's
            c = {"ref": R.choice(g.cosmos)}
            outer = R.choice([
                {"q": "linear", "c": c, "kk": R.choice(g.pool.K), "a": R.choice([[0.6], [1.0]]), "T": R.choice(["bbks", "bbks2", "reent"])},
                {"q": "sigmasqr", "c": c, "R": R.choice([5.0, 8.0]), "T": R.choice(["bbks", "bbks2"])},
                {"q": "romb_c", "c": c, "fn": R.choice(USERFN), "p": R.choice([0.2, 0.7]), "lo": 0.3, "hi": 0.9},
                {"q": "simps_c", "c": c, "fn": R.choice(USERFN), "p": R.choice([0.2, 0.7]), "lo": 0.3, "hi": 0.9},
                {"q": "romb", "p": 0.8, "lo": 0.1, "hi": 1.3, "divmax": 6}, {"q": "simps", "p": 0.8, "lo": 0.1, "hi": 1.3, "N": 32},
                {"q": "ode", "p": 0.7, "a": [0.1, 0.3, 0.6, 1.0]}])
        outer = dict(outer)
        L = g.layers(outer, n=1) if R.random() < 0.15 else []
        refs = [n for n in world.refs_of(outer)] or objs
        pts = []
        for _ in range(R.choice([1, 1, 2, 3])):
            f = fault(R, outer, ("line", "line", "user", "user"))
            ops = []
            for _ in range(R.choice([1, 1, 2, 3])):
                r = R.random()
                if r < 0.1 and g.cosmos:
                    o = R.choice(refs if R.random() < 0.7 else objs)
                    if g.specs[o]["k"] != "spline":
                        ops.append({"snap": o, "to": g.name("s"), "how": R.choice(["pickle", "deepcopy"])})
                        continue
                if r < 0.25:
                    iq = dict(outer)
                elif r < 0.5:
                    iq = g.vary(outer)
                elif r < 0.8:
                    iq = g.about(R.choice(refs), cheap=True)
                else:
                    iq = g.query(cheap=True)
                op = {"q": iq, "concrete": R.random() < 0.6}
                if R.random() < 0.1 and iq["q"] not in _HEAVY:
                    op["ctx"] = [l for l in g.layers(iq, n=1) if l != "aot"]  # not inside another trace
                ops.append(op)
            pts.append({"kind": f["kind"], "k": f["k"], "ops": ops})
        for q in [outer] + [op["q"] for p in pts for op in p["ops"] if "q" in op]:
            if str(q.get("T", "")).startswith("mut"):
                q["T"] = "bbks"  # not while it is being used
            if str(q.get("NL", "")).startswith("mut"):
                q["NL"] = "triv"
            q.pop("mut", None)
        g.emit(op="nested", q=outer, ctx=L, points=pts)
        for p in pts:
            for op in p["ops"]:
                if "snap" in op:
                    g.specs[op["to"]] = g.specs[op["snap"]]
                    g.ask(g.about(op["to"], cheap=True))
        g.ask(R.choice([outer, g.vary(outer), g.about(R.choice(refs), cheap=True)]))
        if R.random() < 0.5:
            g.ask(g.about(R.choice(objs), cheap=True))
    return {}


PLANS = {n[5:]: f for n, f in globals().items() if n.startswith("plan_C")}


def make(prop, seed, pool, tier="quick"):
    g = Gen(seed, prop, pool, tier)
    extra = PLANS[prop](g)
    return {"prop": prop, "seed": seed, "steps": g.steps, "x64": True, **extra}
