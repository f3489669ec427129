"""C20: calibration of the prior scale."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, ref
from vf.lib import F, S, Sub, arr, arrs, close, close_cov, jax, jnp, key, lru, require, tup
from vf.props.c17 import bounded

from bayesian_sde_solver.ode_solvers import ekf, ekf0, ekf0_2, ekf1, ekf1_2
from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function
from bayesian_sde_solver.ode_solvers.probnum.calibration import mle_diffusion

META = {"assumptions": ["innovation covariances are symmetric positive definite"]}
_mle = jax.jit(mle_diffusion)


@st.composite
def mle_case(draw):
    d, N = draw(st.sampled_from([1, 2, 3, 4, 8])), draw(st.sampled_from([1, 2, 5, 9, 30]))
    return {"d": d, "N": N, "z": [draw(gen.vec(d, -9, 9)) for _ in range(N)], "S": [draw(gen.mat(d, d)) for _ in range(N)],
            "M": draw(gen.mat(d, d, -1, 1)), "sc": draw(gen.logstep(-10, 10)), "perm": draw(st.permutations(range(N))),
            "units": [draw(gen.logstep(-24, 24)) for _ in range(d)]}


def check_mle(c):
    d, N = c["d"], c["N"]
    z = np.array(c["z"]).reshape(N, d)
    Sm = np.array([np.array(G).reshape(d, d) @ np.array(G).reshape(d, d).T + 0.2 * np.eye(d) for G in c["S"]])
    got = float(arr(_mle(z, Sm), (), "estimate"))
    want = sum(v @ np.linalg.solve(P, v) for v, P in zip(z, Sm)) / (N * d)
    tol = 1e-9 * (1 + want)
    require(abs(got - want) <= tol, f"estimate {got}, expected {want}")
    s = c["sc"]
    require(abs(float(_mle(z * s, Sm)) - s * s * want) <= 1e-9 * s * s * (1e-3 + want), "estimate does not scale with the square of the innovations")
    require(abs(float(_mle(z, Sm * s)) - want / s) <= 1e-9 * (1e-3 + want) / s, "estimate does not scale with the inverse of the covariances")
    # invariance under a change of units of the observation
    M = np.array(c["M"]).reshape(d, d) + 2.0 * d * np.eye(d)
    require(abs(float(_mle(z @ M.T, M @ Sm @ M.T)) - want) <= 1e-7 * (1 + want), "estimate depends on the basis of the observations")
    u = np.array(c["units"])
    require(abs(float(_mle(z * u, Sm * np.outer(u, u))) - want) <= 1e-7 * (1 + want), f"estimate depends on the units of the components ({u.tolist()})")
    p = list(c["perm"])
    require(abs(float(_mle(z[p], Sm[p])) - want) <= tol, "estimate depends on the order of the observations")
    # it maximizes the Gaussian likelihood of z_n ~ N(0, s S_n)
    if want > 1e-3:
        ll = lambda s2: -0.5 * sum(v @ np.linalg.solve(P, v) / s2 for v, P in zip(z, Sm)) - 0.5 * N * d * np.log(s2)
        require(ll(got) >= max(ll(got * 1.02), ll(got / 1.02)), "the estimate does not maximize the likelihood")
    return {"nontrivial": bool(np.any(z)), "labels": [f"d={d}", f"N={N}"]}


# ---- scaling the prior -------------------------------------------------------------------------------
SOL = {"ekf0": ekf0, "ekf1": ekf1, "ekf0_2": ekf0_2, "ekf1_2": ekf1_2}


@lru
def _scaled(sol, q, d, N, sqrt):
    zero = "0" in sol

    @jax.jit
    def f(p, x, P0, h, c):
        vf = lambda z, t: F(p, z, t)
        out = []
        for s in (1.0, c):
            pr = IOUP_transition_function(0.0, s, q, h, d)
            if sol.endswith("2"):
                a, b = SOL[sol](None, (x, x, P0 * s ** 2), vf, h, N, sqrt=sqrt, prior=pr, return_all=True)
                out.append((b[1], b[2], b[3], b[4]))
            else:
                n = q + 1
                m0 = jnp.stack([x, vf(x, 0.0)] + [jnp.zeros(d)] * (n - 2), axis=1).ravel()
                st_, Sg, z = ekf((m0, jnp.zeros((n * d, n * d))), vf, h, N, sqrt=sqrt, EKF0=zero, prior=pr, return_all=True, n_states=n)
                m, P = st_
                out.append((m, P @ P.T if sqrt else P, Sg, z))
        return out
    return f


@st.composite
def scaled_case(draw, confs):
    sol, q, d, N, sqrt = draw(st.sampled_from(confs))
    return {"sol": sol, "q": q, "d": d, "N": N, "sqrt": sqrt, "f": draw(gen.field(d)), "x": draw(gen.vec(d)), "P": draw(gen.mat(d, d, -1, 1)),
            "rank": draw(st.sampled_from([0, d])), "h": draw(gen.logstep(-6, -1)), "c": draw(gen.logstep(-6, 6))}


def check_scaled(c):
    """Scaling the prior (and the initial uncertainty) by c leaves the mean and the innovations, scales every
    covariance by c^2, hence the estimate by 1 / c^2."""
    G = np.array(c["P"])[:, :c["rank"]]
    (m0, P0, S0, z0), (m1, P1, S1, z1) = _scaled(c["sol"], c["q"], c["d"], c["N"], c["sqrt"])(arrs(c["f"]), np.array(c["x"]), G @ G.T, c["h"], c["c"])
    m0 = arr(m0, None, "mean")
    if not bounded(m0):
        return {"nontrivial": False, "labels": ["large"]}
    w = f"{c['sol']} (q = {c['q']}, square root {c['sqrt']})"
    big = 1 + np.max(np.abs(m0))
    k = c["c"] ** 2
    close(m1, m0, f"mean of {w} with a scaled prior", 1e-7, 1e-9, big)
    P0, S0, z0 = np.asarray(P0), np.asarray(S0), np.asarray(z0)
    close_cov(np.asarray(P1) / k, P0, f"covariance of {w} with a scaled prior", 1e-6, 1e-12, 1e-3 * np.sqrt(np.max(np.diag(P0))))
    close_cov(np.asarray(S1) / k, S0, f"innovation covariance of {w} with a scaled prior", 1e-6, 1e-14)
    close(z1, z0, f"innovation of {w} with a scaled prior", 1e-7, 1e-9, big)
    e0, e1 = float(_mle(z0[None], S0[None])), float(_mle(np.asarray(z1)[None], np.asarray(S1)[None]))
    require(abs(e1 * k - e0) <= 1e-5 * e0 + 1e-9 * big ** 2 / np.min(np.diag(S0)), f"estimate {e0} becomes {e1} with the prior scaled by {c['c']}")
    return {"nontrivial": c["c"] != 1.0, "labels": [c["sol"], f"q={c['q']}"]}


# ---- the estimate finds the scale: a step of the prior itself observed -------------------------------

@st.composite
def recover_case(draw):
    return {"d": draw(st.sampled_from([1, 2])), "sig2": draw(gen.logstep(-6, 6)), "seed": draw(gen.seeds), "S": draw(gen.mat(2, 2))}


def check_recover(c):
    d, n = c["d"], 20000
    G = np.array(c["S"])[:d, :d]
    Sm = G @ G.T + 0.3 * np.eye(d)
    L = np.linalg.cholesky(Sm)
    z = np.asarray(jax.random.normal(key(c["seed"]), (n, d))) @ L.T * np.sqrt(c["sig2"])
    got = float(_mle(z, np.broadcast_to(Sm, (n, d, d))))
    tol = 7.5 * np.sqrt(2 / (n * d))
    require(abs(got / c["sig2"] - 1) < tol, f"estimate {got} of a scale {c['sig2']} from {n} observations")
    return {"nontrivial": True}


CONF = [(s, q, d, N, sq) for s in ("ekf0", "ekf1") for q in (1, 2) for d, N in ((1, 3), (2, 2)) for sq in (False, True)]
CONF += [(s, 1, d, N, sq) for s in ("ekf0_2", "ekf1_2") for d, N in ((1, 3), (2, 2), (3, 1)) for sq in (False, True)]
SUBS = [
    Sub("mle", lambda i, n: mle_case(), check_mle, quick=120, thorough=2000, shards=2, thorough_shards=4,
        rule="1-30 innovations in dimension 1-8: value, scaling, change of basis, order, maximum of the likelihood; non-trivial: non-zero innovations"),
    Sub("recover", lambda i, n: recover_case(), check_recover, quick=25, thorough=250, rule="20000 innovations of a known scale"),
    Sub("prior_scale", lambda i, n: gen.starting(scaled_case(CONF[i::n]), "x"), check_scaled, quick=40, thorough=700, shards=4, thorough_shards=4,
        rule="four filters with a prior scaled by 2^-6..2^6: means fixed, covariances and estimate scale; non-trivial: scale other than one"),
]
