From ab136ddd2a54bc3986a630fea3d81e90afc18f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:43 +0000
Subject: [PATCH 01/11] fix: rebuild gamma cosmologies from their pytree leaves

---
 jax_cosmo/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cosmo/core.py b/jax_cosmo/core.py
index 4ff49d6..a6a34f1 100644
--- a/jax_cosmo/core.py
+++ b/jax_cosmo/core.py
@@ -120,7 +120,7 @@ class Cosmology:
     def tree_unflatten(cls, aux_data, children):
         # Retrieve base parameters
         Omega_c, Omega_b, h, n_s, sigma8, Omega_k, w0, wa = children[:8]
-        children = list(children[8:]).reverse()
+        children = list(reversed(children[8:]))
 
         # We extract the remaining parameters in reverse order from how they
         # were inserted
-- 
2.43.0


From 768a80b0356df8dc924009d4a989e98d2a8fc6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:43 +0000
Subject: [PATCH 02/11] fix: keep the roles of WeakLensing parameters when
 rebuilding from a pytree

---
 jax_cosmo/probes.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/jax_cosmo/probes.py b/jax_cosmo/probes.py
index fab6880..2a4b629 100644
--- a/jax_cosmo/probes.py
+++ b/jax_cosmo/probes.py
@@ -169,6 +169,14 @@ class WeakLensing(container):
             kwargs["ia_enabled"] = ia_enabled
         super(WeakLensing, self).__init__(*args, sigma_e=sigma_e, **kwargs)
 
+    @classmethod
+    def tree_unflatten(cls, aux_data, children):
+        # The parameters are not stored in the order of the constructor arguments
+        redshift_bins, multiplicative_bias, *ia_bias = children
+        return cls(
+            redshift_bins, *ia_bias, multiplicative_bias=multiplicative_bias, **aux_data
+        )
+
     @property
     def n_tracers(self):
         """
-- 
2.43.0


From ca12740a7f8b97a853f8ea1bd681fc03f6e6a7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:43 +0000
Subject: [PATCH 03/11] fix: rebuild splines whose pytree leaves are batched or
 placeholders

---
 jax_cosmo/scipy/interpolate.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jax_cosmo/scipy/interpolate.py b/jax_cosmo/scipy/interpolate.py
index 585fabc..58ca8a1 100644
--- a/jax_cosmo/scipy/interpolate.py
+++ b/jax_cosmo/scipy/interpolate.py
@@ -239,8 +239,12 @@ class InterpolatedUnivariateSpline(object):
 
     @classmethod
     def tree_unflatten(cls, aux_data, children):
-        x, y, coefficients = children
-        return cls(x, y, coefficients=coefficients, **aux_data)
+        # The leaves may be batched, or not be arrays at all, so they must not go
+        # through the validation of the constructor
+        spline = object.__new__(cls)
+        spline._x, spline._y, spline._coefficients = children
+        spline._endpoints, spline.k = aux_data["endpoints"], aux_data["k"]
+        return spline
 
     def __call__(self, x):
         """Evaluation of the spline.
-- 
2.43.0


From c02972cbee67f1581da78f3222897be494d1697d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:43 +0000
Subject: [PATCH 04/11] fix: derivatives of the transverse distance in a flat
 universe

---
 jax_cosmo/background.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/jax_cosmo/background.py b/jax_cosmo/background.py
index ba7566c..7de62cc 100644
--- a/jax_cosmo/background.py
+++ b/jax_cosmo/background.py
@@ -327,15 +327,19 @@ def transverse_comoving_distance(cosmo, a):
         \right.
     """
     index = cosmo.k + 1
+    # The square root is not differentiable in a flat universe
+    sqrtk = np.sqrt(np.where(cosmo.Omega_k == 0, 1.0, np.abs(cosmo.Omega_k)))
 
     def open_universe(chi):
-        return const.rh / cosmo.sqrtk * np.sinh(cosmo.sqrtk * chi / const.rh)
+        return const.rh / sqrtk * np.sinh(sqrtk * chi / const.rh)
 
     def flat_universe(chi):
-        return chi
+        # Second order in the curvature, so that the derivatives are right as well
+        x = cosmo.Omega_k * (chi / const.rh) ** 2
+        return chi * (1.0 + x / 6.0 + x**2 / 120.0)
 
     def close_universe(chi):
-        return const.rh / cosmo.sqrtk * np.sin(cosmo.sqrtk * chi / const.rh)
+        return const.rh / sqrtk * np.sin(sqrtk * chi / const.rh)
 
     branches = (open_universe, flat_universe, close_universe)
 
-- 
2.43.0


From 1543e16d3015b4161794ec6de8b87873654732fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:43 +0000
Subject: [PATCH 05/11] fix: finite derivatives of smail distributions at z=0

---
 jax_cosmo/redshift.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jax_cosmo/redshift.py b/jax_cosmo/redshift.py
index c7fb4b2..e78e831 100644
--- a/jax_cosmo/redshift.py
+++ b/jax_cosmo/redshift.py
@@ -75,7 +75,10 @@ class smail_nz(redshift_distribution):
 
     def pz_fn(self, z):
         a, b, z0 = self.params
-        return z**a * np.exp(-((z / z0) ** b))
+        # The derivatives of the powers can be singular at z=0
+        at_zero, z = z == 0, np.where(z == 0, 1.0, z)
+        pz = z**a * np.exp(-((z / z0) ** b))
+        return np.where(at_zero, np.power(0.0, a), pz)
 
 
 @register_pytree_node_class
-- 
2.43.0


From fd625aa988a8fe788ca0b457f7d309c5252cd40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:43 +0000
Subject: [PATCH 06/11] fix: sign of the log determinant in the Gaussian log
 likelihood

---
 jax_cosmo/likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cosmo/likelihood.py b/jax_cosmo/likelihood.py
index 25ae649..d8fd02f 100644
--- a/jax_cosmo/likelihood.py
+++ b/jax_cosmo/likelihood.py
@@ -58,4 +58,4 @@ def gaussian_log_likelihood(data, mu, C, include_logdet=True, inverse_method="in
             _, logdet = sparse.slogdet(C)
         else:
             _, logdet = np.linalg.slogdet(C)
-        return -0.5 * (rT_Cinv_r - logdet)
+        return -0.5 * (rT_Cinv_r + logdet)
-- 
2.43.0


From 6f1dbd280b691fcf70f6e75a66baf860ad822d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:49 +0000
Subject: [PATCH 07/11] fix: do not leave tracers of finished transformations
 on user objects

---
 jax_cosmo/background.py | 62 +++++++++++++++++++++--------------------
 jax_cosmo/jax_utils.py  | 42 ++++++++++++++++++++++++++++
 jax_cosmo/redshift.py   | 10 +++++--
 3 files changed, 81 insertions(+), 33 deletions(-)

diff --git a/jax_cosmo/background.py b/jax_cosmo/background.py
index 7de62cc..3566e05 100644
--- a/jax_cosmo/background.py
+++ b/jax_cosmo/background.py
@@ -3,6 +3,7 @@ import jax.numpy as np
 from jax import lax
 
 import jax_cosmo.constants as const
+from jax_cosmo.jax_utils import memoize
 from jax_cosmo.scipy.interpolate import interp
 from jax_cosmo.scipy.ode import odeint
 
@@ -219,8 +220,17 @@ def radial_comoving_distance(cosmo, a, log10_amin=-3, steps=256):
 
         \chi(a) =  R_H \int_a^1 \frac{da^\prime}{{a^\prime}^2 E(a^\prime)}
     """
-    # Check if distances have already been computed
-    if not "background.radial_comoving_distance" in cosmo._workspace.keys():
+    cache = _distance_table(cosmo, log10_amin, steps)
+
+    a = np.atleast_1d(a)
+    # Return the results as an interpolation of the table
+    return np.clip(interp(a, cache["a"], cache["chi"]), 0.0)
+
+
+def _distance_table(cosmo, log10_amin=-3, steps=256):
+    """Tabulates the radial comoving distance, unless already done"""
+
+    def tabulate():
         # Compute tabulated array
         atab = np.logspace(log10_amin, 0.0, steps)
 
@@ -232,14 +242,9 @@ def radial_comoving_distance(cosmo, a, log10_amin=-3, steps=256):
         # np.clip(- 3000*np.log(atab), 0, 10000)#odeint(dchioverdlna, 0., np.log(atab), cosmo)
         chitab = chitab[-1] - chitab
 
-        cache = {"a": atab, "chi": chitab}
-        cosmo._workspace["background.radial_comoving_distance"] = cache
-    else:
-        cache = cosmo._workspace["background.radial_comoving_distance"]
+        return {"a": atab, "chi": chitab}
 
-    a = np.atleast_1d(a)
-    # Return the results as an interpolation of the table
-    return np.clip(interp(a, cache["a"], cache["chi"]), 0.0)
+    return memoize(cosmo, "background.radial_comoving_distance", tabulate)
 
 
 def a_of_chi(cosmo, chi):
@@ -259,10 +264,7 @@ def a_of_chi(cosmo, chi):
     a : array-like
       Scale factors corresponding to requested distances
     """
-    # Check if distances have already been computed, force computation otherwise
-    if not "background.radial_comoving_distance" in cosmo._workspace.keys():
-        radial_comoving_distance(cosmo, 1.0)
-    cache = cosmo._workspace["background.radial_comoving_distance"]
+    cache = _distance_table(cosmo)
     chi = np.atleast_1d(chi)
     return interp(chi, cache["chi"], cache["a"])
 
@@ -461,8 +463,14 @@ def _growth_factor_ODE(cosmo, a, log10_amin=-3, steps=128, eps=1e-4):
     D:  ndarray, or float if input scalar
         Growth factor computed at requested scale factor
     """
-    # Check if growth has already been computed
-    if not "background.growth_factor" in cosmo._workspace.keys():
+    cache = _growth_table(cosmo, log10_amin, steps)
+    return np.clip(interp(a, cache["a"], cache["g"]), 0.0, 1.0)
+
+
+def _growth_table(cosmo, log10_amin=-3, steps=128):
+    """Tabulates the solution of the growth ODE, unless already done"""
+
+    def tabulate():
         # Compute tabulated array
         atab = np.logspace(log10_amin, 0.0, steps)
 
@@ -485,11 +493,9 @@ def _growth_factor_ODE(cosmo, a, log10_amin=-3, steps=128, eps=1e-4):
         # To transform from dD/da to dlnD/dlna: dlnD/dlna = a / D dD/da
         ftab = y[:, 1] / y1[-1] * atab / gtab
 
-        cache = {"a": atab, "g": gtab, "f": ftab}
-        cosmo._workspace["background.growth_factor"] = cache
-    else:
-        cache = cosmo._workspace["background.growth_factor"]
-    return np.clip(interp(a, cache["a"], cache["g"]), 0.0, 1.0)
+        return {"a": atab, "g": gtab, "f": ftab}
+
+    return memoize(cosmo, "background.growth_factor", tabulate)
 
 
 def _growth_rate_ODE(cosmo, a):
@@ -509,10 +515,7 @@ def _growth_rate_ODE(cosmo, a):
     f:  ndarray, or float if input scalar
         Growth rate computed at requested scale factor
     """
-    # Check if growth has already been computed, if not, compute it
-    if not "background.growth_factor" in cosmo._workspace.keys():
-        _growth_factor_ODE(cosmo, np.atleast_1d(1.0))
-    cache = cosmo._workspace["background.growth_factor"]
+    cache = _growth_table(cosmo)
     return interp(a, cache["a"], cache["f"])
 
 
@@ -534,8 +537,8 @@ def _growth_factor_gamma(cosmo, a, log10_amin=-3, steps=128):
         Growth factor computed at requested scale factor
 
     """
-    # Check if growth has already been computed, if not, compute it
-    if not "background.growth_factor" in cosmo._workspace.keys():
+
+    def tabulate():
         # Compute tabulated array
         atab = np.logspace(log10_amin, 0.0, steps)
 
@@ -545,10 +548,9 @@ def _growth_factor_gamma(cosmo, a, log10_amin=-3, steps=128):
 
         gtab = np.exp(odeint(integrand, np.log(atab[0]), np.log(atab)))
         gtab = gtab / gtab[-1]  # Normalize to a=1.
-        cache = {"a": atab, "g": gtab}
-        cosmo._workspace["background.growth_factor"] = cache
-    else:
-        cache = cosmo._workspace["background.growth_factor"]
+        return {"a": atab, "g": gtab}
+
+    cache = memoize(cosmo, "background.growth_factor", tabulate)
     return np.clip(interp(a, cache["a"], cache["g"]), 0.0, 1.0)
 
 
diff --git a/jax_cosmo/jax_utils.py b/jax_cosmo/jax_utils.py
index 63a240c..7ab78b4 100644
--- a/jax_cosmo/jax_utils.py
+++ b/jax_cosmo/jax_utils.py
@@ -1,6 +1,48 @@
+import jax
 import jax.numpy as np
 
 
+def _tracers(obj):
+    """JAX tracers among the parameters of obj"""
+    leaves = list(vars(obj).values()) + jax.tree_util.tree_leaves(obj.tree_flatten()[0])
+    return [x for x in leaves if isinstance(x, jax.core.Tracer)]
+
+
+def outlived_by(value, obj):
+    """Whether value, computed from obj, remains usable for as long as obj is.
+
+    This is not so if it was computed while tracing a transformation that began
+    after obj was built: obj must not memoise such a value.
+    """
+    traces = set()
+    for x in _tracers(obj):
+        trace = x._trace
+        while trace is not None:
+            traces.add(id(trace))
+            trace = getattr(trace, "parent_trace", None)
+    leaves = jax.tree_util.tree_leaves(value)
+    return all(
+        id(x._trace) in traces for x in leaves if isinstance(x, jax.core.Tracer)
+    )
+
+
+def memoize(cosmo, name, fn):
+    """Returns fn(), computed at the first call only if possible, where fn depends
+    on the parameters of cosmo only.
+    """
+    if name in cosmo._workspace.keys():
+        return cosmo._workspace[name]
+    if _tracers(cosmo):
+        value = fn()
+    else:
+        # Nothing to trace, even if the call happens inside of a transformation
+        with jax.ensure_compile_time_eval():
+            value = fn()
+    if outlived_by(value, cosmo):
+        cosmo._workspace[name] = value
+    return value
+
+
 class container(object):
     """
     Generic structure to trace a parameterized  function
diff --git a/jax_cosmo/redshift.py b/jax_cosmo/redshift.py
index e78e831..518b3c4 100644
--- a/jax_cosmo/redshift.py
+++ b/jax_cosmo/redshift.py
@@ -6,6 +6,7 @@ import jax.numpy as np
 from jax.tree_util import register_pytree_node_class
 
 from jax_cosmo.jax_utils import container
+from jax_cosmo.jax_utils import outlived_by
 from jax_cosmo.scipy.integrate import simps
 
 steradian_to_arcmin2 = 11818102.86004228
@@ -27,9 +28,12 @@ class redshift_distribution(container):
 
     def __call__(self, z):
         """Computes the normalized n(z)"""
-        if self._norm is None:
-            self._norm = simps(lambda t: self.pz_fn(t), 0.0, self.config["zmax"], 256)
-        return self.pz_fn(z) / self._norm
+        norm = self._norm
+        if norm is None:
+            norm = simps(lambda t: self.pz_fn(t), 0.0, self.config["zmax"], 256)
+            if outlived_by(norm, self):
+                self._norm = norm
+        return self.pz_fn(z) / norm
 
     @property
     def zmax(self):
-- 
2.43.0


From b8dbc98ce299a21be38bde52208e422995abba70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:49 +0000
Subject: [PATCH 08/11] fix: recompute memoised tables when another resolution
 is asked for

---
 jax_cosmo/background.py |  9 ++++++---
 jax_cosmo/jax_utils.py  | 11 ++++++-----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/jax_cosmo/background.py b/jax_cosmo/background.py
index 3566e05..1f02f2e 100644
--- a/jax_cosmo/background.py
+++ b/jax_cosmo/background.py
@@ -244,7 +244,8 @@ def _distance_table(cosmo, log10_amin=-3, steps=256):
 
         return {"a": atab, "chi": chitab}
 
-    return memoize(cosmo, "background.radial_comoving_distance", tabulate)
+    args = (log10_amin, steps)
+    return memoize(cosmo, "background.radial_comoving_distance", tabulate, args)
 
 
 def a_of_chi(cosmo, chi):
@@ -495,7 +496,8 @@ def _growth_table(cosmo, log10_amin=-3, steps=128):
 
         return {"a": atab, "g": gtab, "f": ftab}
 
-    return memoize(cosmo, "background.growth_factor", tabulate)
+    args = (log10_amin, steps)
+    return memoize(cosmo, "background.growth_factor", tabulate, args)
 
 
 def _growth_rate_ODE(cosmo, a):
@@ -550,7 +552,8 @@ def _growth_factor_gamma(cosmo, a, log10_amin=-3, steps=128):
         gtab = gtab / gtab[-1]  # Normalize to a=1.
         return {"a": atab, "g": gtab}
 
-    cache = memoize(cosmo, "background.growth_factor", tabulate)
+    args = (log10_amin, steps)
+    cache = memoize(cosmo, "background.growth_factor", tabulate, args)
     return np.clip(interp(a, cache["a"], cache["g"]), 0.0, 1.0)
 
 
diff --git a/jax_cosmo/jax_utils.py b/jax_cosmo/jax_utils.py
index 7ab78b4..0a79536 100644
--- a/jax_cosmo/jax_utils.py
+++ b/jax_cosmo/jax_utils.py
@@ -26,12 +26,13 @@ def outlived_by(value, obj):
     )
 
 
-def memoize(cosmo, name, fn):
+def memoize(cosmo, name, fn, args):
     """Returns fn(), computed at the first call only if possible, where fn depends
-    on the parameters of cosmo only.
+    on the parameters of cosmo and on args only.
     """
-    if name in cosmo._workspace.keys():
-        return cosmo._workspace[name]
+    cached_args, value = cosmo._workspace.get(name, (None, None))
+    if cached_args == args:
+        return value
     if _tracers(cosmo):
         value = fn()
     else:
@@ -39,7 +40,7 @@ def memoize(cosmo, name, fn):
         with jax.ensure_compile_time_eval():
             value = fn()
     if outlived_by(value, cosmo):
-        cosmo._workspace[name] = value
+        cosmo._workspace[name] = (args, value)
     return value
 
 
-- 
2.43.0


From d40271e05834157ed96376ffae0b0683165a6c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:09 +0000
Subject: [PATCH 09/11] fix: likelihood of NumPy data with a traced covariance

---
 jax_cosmo/likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_cosmo/likelihood.py b/jax_cosmo/likelihood.py
index d8fd02f..34ae1ff 100644
--- a/jax_cosmo/likelihood.py
+++ b/jax_cosmo/likelihood.py
@@ -49,7 +49,7 @@ def gaussian_log_likelihood(data, mu, C, include_logdet=True, inverse_method="in
             y = sp.linalg.cho_solve(sp.linalg.cho_factor(C, lower=True), r)
         else:
             raise NotImplementedError
-        rT_Cinv_r = r.dot(y)
+        rT_Cinv_r = np.dot(r, y)
 
     if not include_logdet:
         return -0.5 * rT_Cinv_r
-- 
2.43.0


From 83458313929a78d1dfabf1fd719cbcbe359606a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:33 +0000
Subject: [PATCH 10/11] fix: save and copy cosmologies while other threads
 query them

---
 jax_cosmo/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jax_cosmo/core.py b/jax_cosmo/core.py
index a6a34f1..36e7e2a 100644
--- a/jax_cosmo/core.py
+++ b/jax_cosmo/core.py
@@ -95,6 +95,12 @@ class Cosmology:
     def __repr__(self):
         return self.__str__()
 
+    def __getstate__(self):
+        # Other threads may add to the workspace while it is saved or copied
+        state = self.__dict__.copy()
+        state["_workspace"] = self._workspace.copy()
+        return state
+
     # Operations for flattening/unflattening representation
     def tree_flatten(self):
         params = (
-- 
2.43.0


From ada4a3da53839858004d459b0323eb9a07f2f40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:27 +0000
Subject: [PATCH 11/11] fix: integrate splines between traced bounds

---
 jax_cosmo/scipy/interpolate.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/jax_cosmo/scipy/interpolate.py b/jax_cosmo/scipy/interpolate.py
index 58ca8a1..0206ea0 100644
--- a/jax_cosmo/scipy/interpolate.py
+++ b/jax_cosmo/scipy/interpolate.py
@@ -438,10 +438,6 @@ class InterpolatedUnivariateSpline(object):
         ig : array_like
             Definite integral of the piecewise polynomial over [a, b]
         """
-        # Swap integration bounds if needed
-        sign = 1
-        if b < a:
-            a, b = b, a
-            sign = -1
+        # The bounds may be traced, and come in either order
         xs = np.array([a, b])
-        return sign * np.diff(self.antiderivative(xs))
+        return np.diff(self.antiderivative(xs))
-- 
2.43.0

