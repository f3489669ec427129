"""C24: one step of the filter that carries the Brownian coefficients in its state (algorithm 4)."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, ref
from vf.lib import F, Fjac, Fn, S, Sn, Sub, arr, arrs, close, jax, jnp, key, lru, mean_cov_test, tup
from vf.props.c17 import bounded

from bayesian_sde_solver.ode_solvers import ekf0, ekf1
from bayesian_sde_solver.ode_solvers.probnum import matern_transition_function
from bayesian_sde_solver.ssm_parabola import ekf0_marginal_parabola, ekf1_marginal_parabola

META = {"assumptions": ["square diffusion matrices, priors with two states per coordinate, the same for every coordinate",
                        "the coefficients returned are the increment w ~ N(0, delta) and the second coefficient i ~ N(0, delta / 2) of the parabola"]}
SOL = {"ssm0": ekf0_marginal_parabola, "ssm1": ekf1_marginal_parabola}
ODE = {"ssm0": ekf0, "ssm1": ekf1}


@lru
def _mean(sol, d, N, sqrt, default, noisy):
    @jax.jit
    def f(p, s, x, delta, h, xi, Q, A, R):
        return SOL[sol](None, x, delta, lambda z, t: F(p, z, t), lambda z, t: S(s, z, t), h, N, sqrt=sqrt,
                        prior=None if default else (xi, Q, A), noise=R if noisy else None)
    return f


@st.composite
def case(draw, confs):
    sol, d, N, sqrt, kind, noisy = draw(st.sampled_from(confs))
    c = gen.spread(draw, {"sol": sol, "d": d, "N": N, "sqrt": sqrt, "kind": kind, "noisy": noisy, "f": draw(gen.field(d)), "s": draw(gen.diffusion(d, d)),
         "x": draw(gen.vec(d)), "h": draw(gen.logstep(-7, -1)), "sig": draw(gen.num(0.1, 4)), "part": draw(st.sampled_from([1.0, 1.0, 2.0, 1.25]))}, "x")
    if kind == "general":
        c.update(xi=draw(gen.vec(2, -0.3, 0.3)), A=draw(gen.mat(2, 2, -0.3, 0.3)), Q=draw(gen.mat(2, 2, -0.5, 0.5)))
    if noisy:
        c["R"] = draw(gen.mat(d, d, -0.3, 0.3))
    return c


def build(c):
    d, h = c["d"], c["h"]
    if c["kind"] == "general":
        G = np.array(c["Q"])
        pr = (np.array(c["xi"]), G @ G.T + 0.05 * np.eye(2), np.array(c["A"]) + np.eye(2))
    elif c["kind"] == "matern":
        pr = tuple(np.asarray(v) for v in matern_transition_function(1, c["sig"], 0.8, h, 1))
    else:
        pr = ref.ibm_prior(1, h, 1, c["sig"] if c["kind"] == "ibm" else 1.0)
    R = np.zeros((d, d))
    if c["noisy"]:
        G = np.array(c["R"])
        R = G @ G.T
    return pr, R


def check(c):
    d, N, h = c["d"], c["N"], c["h"]
    p, s, x = arrs(c["f"]), arrs(c["s"]), np.array(c["x"])
    delta = c["part"] * N * h       # the filter may be stopped inside the step
    pr, R = build(c)
    m, P, z, S_ = ref.ssm_filter(p, s, x, delta, pr, R, h, N, c["sol"] == "ssm0")
    if not bounded(m) or np.linalg.cond(S_) > 1e9:
        return {"nontrivial": False, "labels": ["large"]}
    out = tup(_mean(c["sol"], d, N, c["sqrt"], c["kind"] == "default", c["noisy"])(p, s, x, delta, h, *pr, R), 3, "marginal parabola filter")
    sc = 1 + np.max(np.abs(m))
    w = f"{c['sol']} ({c['kind']}, square root {c['sqrt']})"
    close(out[0], m[::4], f"position of {w}", 1e-6, 1e-8, sc)
    close(out[1], m[2::4], f"Brownian increment of {w}", 1e-6, 1e-8, sc)
    close(out[2], m[3::4], f"second coefficient of {w}", 1e-6, 1e-8, sc)
    return {"nontrivial": bool(np.any(np.abs(m[2::4]) > 1e-6)), "labels": [c["sol"], c["kind"], f"d={d}", f"N={N}", f"noise={c['noisy']}", f"sqrt={c['sqrt']}"]}


# ---- without diffusion it is the ODE filter, and the coefficients keep their prior law -----------
B = 12000


@lru
def _quiet(sol, d, N, sqrt):
    @jax.jit
    def f(k, p, x, h, sig):
        pr = ref_prior(h, sig)
        vf = lambda z, t: F(p, z, t)
        run = lambda q: SOL[sol](q, x, N * h, vf, lambda z, t: jnp.zeros((d, d)), h, N, sqrt=sqrt, prior=pr)
        xi, Q, A = pr
        full = (jnp.tile(xi, d), jnp.kron(jnp.eye(d), Q), jnp.kron(jnp.eye(d), A))
        ode = ODE[sol](None, x, vf, h, N, sqrt=sqrt, prior=full)
        return run(None), ode, jax.vmap(run)(jax.random.split(k, B))
    return f


def ref_prior(h, sig):
    return (jnp.zeros(2), sig ** 2 * jnp.array([[h ** 3 / 3, h ** 2 / 2], [h ** 2 / 2, h]]), jnp.array([[1, h], [0, 1.0]]))


@st.composite
def quiet_case(draw, confs):
    sol, d, N, sqrt = draw(st.sampled_from(confs))
    return gen.spread(draw, {"sol": sol, "d": d, "N": N, "sqrt": sqrt, "f": draw(gen.field(d)), "x": draw(gen.vec(d)), "h": draw(gen.logstep(-7, -1)),
            "sig": draw(gen.num(0.3, 3)), "seed": draw(gen.seeds)}, "x")


def check_quiet(c):
    d, N, h = c["d"], c["N"], c["h"]
    p, x = arrs(c["f"]), np.array(c["x"])
    m, P, _, _ = ref.alg2(p, x, ref.ibm_prior(1, h, d, c["sig"]), np.zeros((d, d)), h, N, 2, c["sol"] == "ssm0")
    if not bounded(m):
        return {"nontrivial": False, "labels": ["large"]}
    mean, ode, smp = _quiet(c["sol"], d, N, c["sqrt"])(key(c["seed"]), p, x, h, c["sig"])
    sc = 1 + np.max(np.abs(m))
    close(mean[0], arr(ode, (d,), "ODE filter"), "mean without diffusion against the ODE filter", 1e-8, 1e-10, sc)
    close(mean[1], np.zeros(d), "mean Brownian increment without diffusion", 0, 1e-9)
    close(mean[2], np.zeros(d), "mean second coefficient without diffusion", 0, 1e-9)
    delta = N * h
    u = np.concatenate([arr(smp[1], (B, d), "increments") / np.sqrt(delta), arr(smp[2], (B, d), "second coefficients") / np.sqrt(delta / 2),
                        (arr(smp[0], (B, d), "positions") - m[::2])], axis=1)
    C = np.eye(3 * d)
    C[2 * d:, 2 * d:] = P[::2, ::2]
    mean_cov_test(u, np.zeros(3 * d), C, "without diffusion: standardized coefficients and position", extra_mean=1e-7 * sc, extra_cov=1e-9)
    return {"nontrivial": True, "labels": [c["sol"], f"d={d}", f"N={N}", f"sqrt={c['sqrt']}"]}


CONF = [(s, d, N, sq, k, nz) for s in SOL for d, N in ((1, 1), (1, 3), (2, 1), (2, 2), (3, 1), (2, 5), (4, 2), (7, 1)) for sq in (False, True)
        for k in ("default", "ibm", "matern", "general") for nz in (False, True)]
QC = [(s, d, N, sq) for s in SOL for d, N in ((1, 1), (2, 2), (1, 4)) for sq in (False, True)]
SUBS = [
    Sub("algorithm4", lambda i, n: case(CONF[i::n]), check, quick=60, thorough=1200, shards=7, thorough_shards=8, weight=2,
        rule="both linearizations, 1-3 coordinates, 1-5 inner steps (also stopped inside the step), four kinds of priors, noise, both square-root "
             "settings, nonlinear time-dependent drift and diffusion: position and coefficients against the independent filter; non-trivial: the data "
             "move the increment"),
    Sub("no_diffusion", lambda i, n: quiet_case(QC[i::n]), check_quiet, quick=12, thorough=150, shards=1, thorough_shards=4,
        rule=f"zero diffusion: the ODE filter of the same order, and {B} samples in which the coefficients keep their prior law; every bounded case counts"),
]
