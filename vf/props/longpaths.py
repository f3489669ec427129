"""Paths of thousands of steps: every step gets its own randomness (used by several properties)."""
import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.lib import Sub, arr, jax, jnp, key, lru, mean_cov_test, require
from vf.props.common import family

from bayesian_sde_solver.sde_solver import sde_solver
from bayesian_sde_solver.sde_solvers import diag_15_scheme, euler_maruyama, hypoelliptic_diffusion_15_scheme
from bayesian_sde_solver.ssm_parabola import ssm_parabola_ode_solver

NF = 4


@lru
def _keys_run(which, N, d, fam):
    def ode_int(k, init, vector_field, T):
        x, _ = init
        return x + T * vector_field(x, 0.0), jnp.asarray(k, jnp.uint32)

    def step(k, init, drift, diffusion, T):
        kk = jnp.asarray(k, jnp.uint32).astype(jnp.float64)
        return jnp.concatenate([init[:-2] + T * drift(init, 0.0)[:-2], kk]), 0.0, 0.0

    @jax.jit
    def run(k, x0, delta):
        if which == "sde":
            out = sde_solver(key=k, drift=lambda x, t: -x, sigma=lambda x, t: jnp.eye(d), x0=(x0, jnp.zeros(2, jnp.uint32)),
                             bm=lambda: family(fam, d, NF), delta=delta, N=N, ode_int=ode_int)
            return out[1][1], out[2], out[3]
        out = ssm_parabola_ode_solver(key=k, drift=lambda x, t: -x, sigma=lambda x, t: jnp.eye(d + 2),
                                      x0=jnp.concatenate([x0, jnp.zeros(2)]), delta=delta, N=N, solver=step)
        return out[1][:, d:].astype(jnp.uint32), jnp.zeros((N, d)), jnp.zeros((N, d))
    return run


# ---- long paths: no repetition anywhere along thousands of steps -----------------------

LONG = [257, 600, 1025, 2100, 4097, 5000, 9001]


@lru
def _long_run(which, N, d):
    run = _keys_run(which, N, d, "approx") if which in ("sde", "ssm") else None
    if run is not None:
        return lambda k, h: run(k, np.zeros(d), h)
    I = jnp.eye(d)

    def f(k, h):
        if which == "em":
            s = euler_maruyama(k, jnp.zeros(d), lambda x, t: 0 * x, lambda x, t: I, h, N)[1]
        elif which == "diag15":
            s = diag_15_scheme(k, jnp.zeros(d), lambda x: 0 * x, lambda x: I, h, N)[1]
        else:
            s = hypoelliptic_diffusion_15_scheme(k, jnp.zeros(d + 1), lambda x: (0 * x).at[0].set(jnp.sum(x[1:])), lambda x: jnp.eye(d + 1).at[0, 0].set(0.0), h, N)[1][:, 1:]
        return None, jnp.diff(s, axis=0), None
    return jax.jit(f)


@st.composite
def long_case(draw, confs):
    which, N, d = draw(st.sampled_from(confs))
    return {"which": which, "N": N, "d": d, "seed": draw(gen.seeds), "h": draw(gen.logstep(-8, 0))}


def check_long(c):
    w, N, d, h = c["which"], c["N"], c["d"], c["h"]
    ks, a, b = _long_run(w, N, d)(key(c["seed"]), h)
    if ks is not None:
        ks = arr(ks, (N + 1, 2), "recorded keys")[1:].astype(np.uint64)
        require(len(np.unique(ks[:, 0] * 2 ** 32 + ks[:, 1])) == N, "two steps of a long path receive the same sampling key")
    if w != "ssm":
        z = [arr(a, (N, d), "increments") / np.sqrt(h)]
        if b is not None:
            z.append(arr(b, (N, d), "second coefficients") / np.sqrt(h / 2))
        z = np.stack(z, 1).reshape(N, -1)
        # double-precision normals do not repeat by chance; increments read off a trajectory are rounded at 1e-13 of its size
        for j in range(z.shape[1]):
            v = np.sort(z[:, j])
            close_ = np.sum(np.diff(v) < 1e-10)
            require(close_ <= 3, f"{int(close_)} increments of a long path are repeated (component {j})")
        n = N - 1
        for lag in (1, 2, 3, 16, 64, 128, 250, N // 2):
            cor = z[lag:].T @ z[:-lag] / (N - lag)
            require(bool(np.all(np.abs(cor) < 7.5 / np.sqrt(N - lag))), f"increments {lag} steps apart are correlated: {cor.tolist()}")
        mean_cov_test(z, np.zeros(z.shape[1]), np.eye(z.shape[1]), f"increments of a long path ({w})")
    return {"nontrivial": True, "labels": [w, f"N={N}"]}


def long_sub(which, quick, shards=1, sizes=LONG):
    confs = [(w, N, d) for N in sizes for w in which for d in (1, 2)]
    return Sub("long_paths", lambda i, n: long_case(confs[i::n]), check_long, quick=quick, thorough=5 * quick, shards=shards,
               rule=f"paths of {min(sizes)}-{max(sizes)} steps: keys and increments never repeat, increments are standardised and uncorrelated at several lags")
