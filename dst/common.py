import os
import sys


def setup_env():
    """Environment of every simulating process: called before JAX is imported."""
    os.environ.setdefault("JAX_PLATFORMS", "cpu")
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    sys.dont_write_bytecode = True
    os.environ.setdefault("XLA_FLAGS", "--xla_cpu_multi_thread_eigen=false --xla_backend_optimization_level=1")
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")


def setup_jax():
    setup_env()
    import warnings

    warnings.simplefilter("ignore")
    import jax

    d = os.environ.get("DST_CACHE")
    if d:
        os.makedirs(d, exist_ok=True)
        jax.config.update("jax_compilation_cache_dir", d)
        jax.config.update("jax_persistent_cache_min_compile_time_secs", 0.0)
        jax.config.update("jax_persistent_cache_min_entry_size_bytes", -1)
        _atomic_cache_writes()
    jax.config.update("jax_cpu_enable_async_dispatch", False)
    jax.config.update("jax_enable_x64", True)
    import pkg_resources  # noqa: F401  (its own import-time effects are not the SUT's)
    import jax.numpy, jax.scipy, jax.scipy.linalg, jax.experimental.ode  # noqa
    import jax.flatten_util  # noqa


def _atomic_cache_writes():
    """The compilation cache of a check is shared by its simulating processes."""
    from jax._src import lru_cache

    n = [0]

    def put(self, key, value):
        path = self.path / (key + lru_cache._CACHE_SUFFIX)
        if path.exists():
            return
        n[0] += 1
        tmp = self.path / ("%s.%d.%d.tmp" % (key[:20], os.getpid(), n[0]))
        tmp.write_bytes(value)
        os.replace(tmp, path)

    lru_cache.LRUCache.put = put


# What a user may have set up before: a change of a setting is visible only where it was not
# at the value it is changed to.
SETTINGS = {
    "jax_numpy_rank_promotion": ["warn"], "jax_default_matmul_precision": ["highest", "float32"],
    "jax_traceback_filtering": ["off", "tracebackhide"], "jax_debug_key_reuse": [True], "jax_softmax_custom_jvp": [True],
    "jax_hlo_source_file_canonicalization_regex": ["x"], 
    "jax_default_prng_impl": ["rbg"], "jax_threefry_partitionable": [False],
    "jax_include_full_tracebacks_in_locations": [False], "jax_optimization_level": ["O1"],
    "np:divide": ["ignore"], "np:over": ["ignore"], "np:invalid": ["ignore"], "np:under": ["warn"], "print:precision": [5],
    "print:suppress": [True], "print:threshold": [50], "warnings": ["always", "default", "error:ResourceWarning"],
    "random": [5, 7], "np.random": [5, 7], "environ": ["JAX_COSMO", "XLA_PYTHON_CLIENT_PREALLOCATE", "TZ"], "recursionlimit": [3000],
    "switchinterval": [0.003], "decimal": [40], "gc": [500],
}
