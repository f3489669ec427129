"""C17: filters with a fresh prior (algorithm 2) against an independent filter."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, ref
from vf.lib import F, Sub, arr, arrs, close, close_cov, jax, jnp, lru, require, tup

from bayesian_sde_solver.ode_solvers import ekf, ekf0, ekf1
from bayesian_sde_solver.ode_solvers.probnum import matern_transition_function

META = {"assumptions": ["any prior (increment, covariance, matrix) of n x d states may be passed; the innovation covariance is non-singular",
                        "states are interlaced coordinate by coordinate, as the prior functions of the package lay them out"]}

SOL = {"ekf0": ekf0, "ekf1": ekf1}


@lru
def _run(sol, n, d, N, sqrt, default, noisy):
    @jax.jit
    def f(p, x, h, xi, Q, A, R):
        return SOL[sol](None, x, lambda z, t: F(p, z, t), h, N, sqrt=sqrt, prior=None if default else (xi, Q, A), noise=R if noisy else None)
    return f


@lru
def _full(zero, n, d, N, sqrt, default, noisy, ret):
    @jax.jit
    def f(p, m, P, h, xi, Q, A, R):
        # settings equal to the documented defaults are left out
        kw = {"sqrt": sqrt, "EKF0": zero, "return_all": ret, "n_states": n, "prior": None if default else (xi, Q, A), "noise": R if noisy else None}
        dflt = {"sqrt": False, "EKF0": False, "return_all": False, "n_states": 2}
        return ekf((m, P), lambda z, t: F(p, z, t), h, N, **{k: v for k, v in kw.items() if v is not None and not (k in dflt and v == dflt[k])})
    return f


STEPS = [1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 15, 16]


@st.composite
def case(draw, confs, full=False):
    sol, n, d, N, sqrt, kind, noisy = draw(st.sampled_from(confs))
    D = n * d
    if not full and N <= 20:
        N = draw(st.sampled_from(STEPS))
    c = gen.spread(draw, {"sol": sol, "n": n, "d": d, "N": N, "sqrt": sqrt, "kind": kind, "noisy": noisy, "f": draw(gen.field(d)), "x": draw(gen.vec(d)),
         "h": draw(gen.logstep(-7, -1)), "sig": draw(gen.num(0.1, 4))}, "x")
    if 6 < N <= 20:
        c.update(f=draw(gen.stable_field(d)), h=c["h"] / 4)
    if N > 20:
        c.update(f=draw(gen.stable_field(d)), h=draw(gen.logstep(-9, -4)))
    if kind == "general":
        c.update(xi=draw(gen.vec(D, -0.3, 0.3)), A=draw(gen.mat(D, D, -0.3, 0.3) if N <= 6 else gen.mat(D, D, -0.5 / N, 0.5 / N)), Q=draw(gen.mat(D, D, -0.5, 0.5)))
    if noisy:
        c["R"] = draw(gen.mat(d, d, -0.3, 0.3))
    if full:
        c.update(m=draw(gen.vec(D)), P=draw(gen.mat(D, D, -0.5, 0.5)), rank=draw(st.integers(0, D)))
    return c


def build(c):
    n, d, h = c["n"], c["d"], c["h"]
    D = n * d
    if c["kind"] == "general":     # coordinates may be coupled
        A = np.array(c["A"]) + np.eye(D)
        G = np.array(c["Q"])
        pr = (np.array(c["xi"]), G @ G.T + 0.05 * np.eye(D), A)
    elif c["kind"] == "matern":
        q = n - 1
        pr = tuple(np.asarray(v) for v in matern_transition_function(1, c["sig"], 0.8, h, d)) if q == 1 else None
    elif c["kind"] == "padded":   # order 1 prior of which the last states are dead
        _, Q, A = ref.ibm_prior(1, h, 1, c["sig"])
        k = n - 2
        pr = (np.zeros(D), np.kron(np.eye(d), np.pad(Q, ((0, k), (0, k)))), np.kron(np.eye(d), np.pad(A, ((0, k), (0, k)))))
    else:
        pr = ref.ibm_prior(n - 1, h, d, c["sig"] if c["kind"] == "ibm" else 1.0)
    R = np.zeros((d, d))
    if c["noisy"]:
        G = np.array(c["R"])
        R = G @ G.T
    return pr, R


def bounded(m):
    return np.all(np.isfinite(m)) and np.max(np.abs(m)) < 1e3


def check(c):
    n, d, N, h = c["n"], c["d"], c["N"], c["h"]
    p, x = arrs(c["f"]), np.array(c["x"])
    pr, R = build(c)
    zero = c["sol"] == "ekf0"
    m, P, z, S = ref.alg2(p, x, pr, R, h, N, n, zero)
    if not bounded(m):
        return {"nontrivial": False, "labels": ["large"]}
    got = _run(c["sol"], n, d, N, c["sqrt"], c["kind"] == "default", c["noisy"])(p, x, h, *pr, R)
    close(got, m[::n], f"mean of {c['sol']} ({c['kind']}, {n} states, square root {c['sqrt']})", 1e-7, 1e-9, 1 + np.max(np.abs(m)))
    return {"nontrivial": bool(np.any(np.abs(m[::n] - x) > 1e-6)), "labels": [c["sol"], c["kind"], f"n={n}", f"N={N}", f"noise={c['noisy']}", f"sqrt={c['sqrt']}"]}


def check_full(c):
    """The filter itself: mean, covariance, last innovation and its covariance, from any initial law."""
    n, d, N, h = c["n"], c["d"], c["N"], c["h"]
    D = n * d
    p = arrs(c["f"])
    pr, R = build(c)
    zero = c["sol"] == "ekf0"
    G = np.array(c["P"])[:, :c["rank"]]
    P0, cP = G @ G.T, np.pad(G, ((0, 0), (0, D - c["rank"])))
    m0 = np.array(c["m"])
    from vf.lib import Fjac, Fn
    m, P, z, S = ref.ode_filter(m0, P0, pr, R, Fn(p), Fjac(p), h, N, n, zero)
    if not bounded(m) or np.linalg.cond(S) > 1e9:
        return {"nontrivial": False, "labels": ["large"]}
    for ret in (False, True):
        out = _full(zero, n, d, N, c["sqrt"], c["kind"] == "default", c["noisy"], ret)(p, m0, cP if c["sqrt"] else P0, h, *pr, R)
        x = out
        if ret:
            x, S1, z1 = tup(out, 3, "filter with innovations")
            close(z1, z, "last innovation", 1e-6, 1e-8, 1 + np.max(np.abs(m)))
            close_cov(S1, S, "last innovation covariance", 1e-6, 1e-12, 1e-3 * np.sqrt(np.max(np.diag(S))))
        m1, P1 = tup(x, 2, "filtered state")
        P1 = arr(P1, (D, D), "filtered covariance")
        close(m1, m, f"filtered mean ({c['kind']}, square root {c['sqrt']})", 1e-6, 1e-8, 1 + np.max(np.abs(m)))
        close_cov(P1 @ P1.T if c["sqrt"] else P1, P, f"filtered covariance ({c['kind']}, square root {c['sqrt']})", 1e-6, 1e-10, 1e-3 * np.sqrt(np.max(np.diag(P))))
    return {"nontrivial": c["rank"] > 0, "labels": [c["sol"], c["kind"], f"n={n}", f"rank={c['rank']}"]}


CONF = [(s, n, d, N, sq, k, nz) for s in SOL for n, d, N in ((2, 1, 3), (2, 2, 1), (2, 2, 4), (2, 3, 2), (3, 1, 3), (3, 2, 2), (4, 2, 2), (4, 1, 3), (5, 2, 1), (2, 5, 2), (3, 4, 1), (2, 9, 1), (3, 7, 2))
        for sq in (False, True) for k in ("default", "ibm", "general", "matern", "padded") for nz in (False, True)
        if not (k in ("default", "matern") and n != 2) and not (k == "padded" and n == 2)]
CONF += [(s, n, d, N, sq, k, nz) for s in SOL for n, d, N in ((2, 1, 40), (2, 2, 70), (3, 1, 130), (2, 1, 300)) for sq in (False, True)
         for k in ("default", "ibm") for nz in (False, True) if not (k == "default" and n != 2)]
FCONF = [(s, n, d, N, sq, k, nz) for s in SOL for n, d, N in ((2, 1, 2), (2, 2, 3), (3, 2, 2), (4, 1, 2)) for sq in (False, True)
         for k in ("default", "ibm", "general") for nz in (False, True)]
SUBS = [
    Sub("algorithm2", lambda i, n: case(CONF[i::n]), check, quick=110, thorough=1500, shards=6, thorough_shards=8, weight=2,
        rule="ekf0/ekf1 means: 2-5 states, 1-5 coordinates, 1-300 steps, default / integrated / Matern / padded / arbitrary coupled priors, with and without "
             "noise, both square-root settings, nonlinear time-dependent fields; non-trivial: the state moves"),
    Sub("filter", lambda i, n: case(FCONF[i::n], True), check_full, quick=70, thorough=1200, shards=2, thorough_shards=6,
        rule="the filter itself from any initial mean and (singular) covariance: mean, covariance, innovation; non-trivial: non-zero initial covariance"),
]
