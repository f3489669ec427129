"""Environment of the processes that import jax (set before the import)."""
import os


def worker_env(x64):
    e = dict(os.environ)
    e.update(JAX_PLATFORMS="cpu", JAX_ENABLE_X64="1" if x64 else "0", PYTHONDONTWRITEBYTECODE="1",
             OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
             JAX_TRACEBACK_FILTERING="off", PYTHONHASHSEED="0",
             XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
             TF_CPP_MIN_LOG_LEVEL="3")
    for k in ("JAX_DISABLE_JIT", "JAX_DEBUG_NANS", "JAX_ENABLE_CUSTOM_PRNG"):
        e.pop(k, None)
    return e
