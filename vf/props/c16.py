"""C16: the square-root flag changes the arithmetic, not the result."""
import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.lib import F, S, Sub, arr, arrs, close, close_cov, jax, jnp, key, lru, require, tup
from vf.props.c17 import bounded

from bayesian_sde_solver.ode_solvers import ekf0, ekf0_2, ekf1, ekf1_2
from bayesian_sde_solver.ode_solvers.probnum import (IOUP_transition_function, get_independently_factorized_prior,
                                                     matern_transition_function, pad_prior)
from bayesian_sde_solver.ssm_parabola import ekf0_marginal_parabola, ekf1_marginal_parabola

META = {"assumptions": ["compared: means and covariances (posterior samples are equal in law only)"]}

SOL = {"ekf0": ekf0, "ekf1": ekf1, "ekf0_2": ekf0_2, "ekf1_2": ekf1_2, "ssm0": ekf0_marginal_parabola, "ssm1": ekf1_marginal_parabola}


def prior(kind, h, d, sig):
    if kind == "default":
        return None
    if kind == "mixed-padded":      # one coordinate of order 1 padded to order 2, the others of order 2
        one = pad_prior(IOUP_transition_function(0.0, sig, 1, h, 1), 2)
        two = IOUP_transition_function(0.0, sig, 2, h, 1)
        return get_independently_factorized_prior([one if i == 0 else two for i in range(d)])
    if kind == "matern":
        return matern_transition_function(1, sig, 0.9, h, d)
    if kind == "padded":
        return get_independently_factorized_prior([pad_prior(matern_transition_function(1, sig, 0.9, h, 1), 3) for _ in range(d)])
    return IOUP_transition_function(0.0, sig, int(kind[-1]), h, d)


@lru
def _run(sol, kind, d, N, noisy):
    @jax.jit
    def f(p, s, x, P, h, sig, R):
        vf = lambda z, t: F(p, z, t)
        R_ = R if noisy else None
        out = []
        for sq in (False, True):
            if sol.startswith("ssm"):
                pr = prior(kind, h, 1, sig)
                out.append(SOL[sol](None, x, h * N, vf, lambda z, t: S(s, z, t), h, N, sqrt=sq, prior=pr, noise=R_))
            elif sol.endswith("2"):
                a, b = SOL[sol](None, (x, x, P), vf, h, N, sqrt=sq, prior=prior(kind, h, d, sig), noise=R_, return_all=True)
                out.append((b[1], b[4], a[2], b[2], b[3]))
            else:
                out.append((SOL[sol](None, x, vf, h, N, sqrt=sq, prior=prior(kind, h, d, sig), noise=R_),))
        return out
    return f


@st.composite
def case(draw, confs):
    sol, kind, d, N, noisy = draw(st.sampled_from(confs))
    return gen.spread(draw, {"sol": sol, "kind": kind, "d": d, "N": N, "noisy": noisy, "f": draw(gen.field(d)), "s": draw(gen.diffusion(d, d)), "x": draw(gen.vec(d)),
            "P": draw(gen.mat(d, d, -1, 1)), "rank": draw(st.sampled_from([0, 1, d])), "h": draw(gen.logstep(-9, -1)), "sig": draw(gen.num(0.2, 3)),
            "R": draw(gen.mat(d, d, -0.4, 0.4)), "rR": draw(st.sampled_from([1, d]))}, "x")


def check(c):
    d = c["d"]
    G = np.array(c["P"])[:, :c["rank"]]
    Rg = np.array(c["R"])[:, :c["rR"]]
    R = Rg @ Rg.T
    out = _run(c["sol"], c["kind"], d, c["N"], c["noisy"])(arrs(c["f"]), arrs(c["s"]), np.array(c["x"]), G @ G.T, c["h"], c["sig"], R)
    a, b = out
    m = np.asarray(a[0])
    if np.all(np.isfinite(m)) and np.max(np.abs(m)) > 1e3:
        return {"nontrivial": False, "labels": ["large"]}
    w = f"{c['sol']} ({c['kind']}{', noise' if c['noisy'] else ''})"
    big = 1 + max(np.max(np.abs(np.asarray(x))) for x in a[:2])
    for i, (x, y) in enumerate(zip(a, b)):
        x = arr(x, None, w + ", square root off")
        y = arr(y, x.shape, w + ", square root on")
        if x.ndim == 1:
            close(y, x, f"result {i} of {w}: square root on against off", 1e-6, 1e-8, big)
        else:
            close_cov(y, x, f"covariance {i} of {w}: square root on against off", 1e-5, 1e-11, 1e-2 * np.sqrt(np.max(np.abs(np.diag(x)))))
    return {"nontrivial": True, "labels": [c["sol"], c["kind"], f"noise={c['noisy']}", f"rank={c['rank']}"]}


CONF = [(s, k, d, N, nz) for s in ("ekf0", "ekf1") for k in ("default", "ibm2", "ibm3", "matern", "padded", "mixed-padded") for d, N in ((1, 3), (2, 2)) for nz in (False, True)]
CONF += [(s, k, d, N, nz) for s in ("ekf0_2", "ekf1_2", "ssm0", "ssm1") for k in ("default", "ibm1", "matern") for d, N in ((1, 3), (2, 2)) for nz in (False, True)]


# ---- a long run: the square-root form stays a covariance -------------------------------------------

@lru
def _long(sol, d, N):
    @jax.jit
    def f(p, x, h):
        def go(sq):
            def body(st_, _):
                st_ = SOL[sol](None, st_, lambda z, t: F(p, z, t), h, 1, sqrt=sq)
                return st_, (st_[1], st_[2])
            return jax.lax.scan(body, (x, x, jnp.zeros((d, d))), None, length=N)[1]
        return go(False), go(True)
    return f


@st.composite
def long_case(draw):
    d = draw(st.sampled_from([1, 2]))
    return {"d": d, "sol": draw(st.sampled_from(["ekf0_2", "ekf1_2"])), "N": 60, "f": draw(gen.field(d, 0.8)), "x": draw(gen.vec(d, -1, 1)), "h": draw(gen.logstep(-12, -4))}


def check_long(c):
    d, N = c["d"], c["N"]
    (m0, P0), (m1, P1) = _long(c["sol"], d, N)(arrs(c["f"]), np.array(c["x"]), c["h"])
    m0, m1 = np.asarray(m0), arr(m1, (N, d), "means")
    if np.max(np.abs(m0)) > 1e3:
        return {"nontrivial": False}
    P0, P1 = arr(P0, (N, d, d), "covariances"), arr(P1, (N, d, d), "covariances")
    close(m1, m0, "means along 60 chained steps, square root on against off", 1e-7, 1e-9, 1 + np.max(np.abs(m0)))
    for k in (0, N // 2, N - 1):
        close_cov(P1[k], P0[k], f"covariance after {k + 1} chained steps", 1e-5, 1e-18, 1e-2 * np.sqrt(np.max(np.abs(np.diag(P0[k])))))
        require(bool(np.all(np.diag(P1[k]) >= 0)), "negative variance")
    return {"nontrivial": True, "labels": [c["sol"]]}


SUBS = [
    Sub("flag", lambda i, n: case(CONF[i::n]), check, quick=28, thorough=700, shards=7, thorough_shards=8,
        rule="six filters, six priors (with dead states), 1-2 coordinates, no / singular / regular noise, singular initial covariances: every deterministic "
             "output with the flag on and off"),
    Sub("chained", lambda i, n: long_case(), check_long, quick=25, thorough=300, shards=1, rule="60 chained steps of the algorithm 3 filters, both settings"),
]
