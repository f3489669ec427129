"""C26: the test equations and the moments they declare."""
import numpy as np
import scipy.integrate as si
import scipy.linalg as sl
from hypothesis import strategies as st

from vf import gen
from vf.lib import Sub, Violation, arr, close, jax, jnp, key, lru, mean_cov_test, require, tup

import bayesian_sde_solver.utils.ivp as ivp

META = {"assumptions": ["parameter values are those of the catalogue (FitzHugh-Nagumo with gamma 1.5, sigma 0.3, epsilon 0.1, alpha 0.8, s 0; ...)",
                        "'up to order n' moments agree with the exact ones up to O(t^(n+1)) (variance entries of the smooth coordinate: to leading order)"]}


def _v(*e):
    return np.array(e, float)


# name -> (x0, drift(x), sigma(x)) in numpy, autonomous
def fhn_f(x):
    return _v((x[0] - x[0] ** 3 - x[1]) / 0.1, 1.5 * x[0] - x[1] + 0.8)


def syn_f(x):
    return _v((-50 * (x[0] + 70) - x[1] * x[0] - x[2] * (x[0] + 80) - 0.6) / 20, -(x[1] - 17.8) / 0.5, -(x[2] - 9.4))


def syn_s(x):
    s = np.zeros((3, 3))
    s[1, 0], s[2, 1] = 0.1 * np.sqrt(x[1]), 0.1 * np.sqrt(x[2])
    return s


DEF = {
    "fhn": (_v(0, 0), fhn_f, lambda x: _v([0], [0.3])),
    "square_matrix_fhn": (_v(0, 0), fhn_f, lambda x: _v([0, 0], [0.3, 0])),
    "ibm": (_v(1, 1), lambda x: _v(x[1], 0), lambda x: _v([0], [1])),
    "square_matrix_ibm": (_v(1, 1), lambda x: _v(x[1], 0), lambda x: _v([0, 0], [1, 0])),
    "double_ibm": (_v(0, 0, 1), lambda x: _v(x[1], x[2], 0), lambda x: _v([0], [0], [1])),
    "harmonic_oscillator": (_v(1, 1), lambda x: _v(x[1], -0.1 * x[0] - 0.1 * x[1]), lambda x: _v([0], [1])),
    "harmonic_oscillator_square": (_v(1, 1), lambda x: _v(x[1], -x[0] - x[1]), lambda x: _v([0, 0], [2, 0])),
    "gbm": (_v(1), lambda x: x, lambda x: np.diag(x)),
    "synaptic_conductance": (_v(-60, 10, 10), syn_f, syn_s),
    "synaptic_conductance_reduced": (_v(10, 10), lambda x: _v(-(x[0] - 17.8) / 0.5, -(x[1] - 9.4)), lambda x: np.diag(0.1 * np.sqrt(x))),
}
NO_TIME = {"harmonic_oscillator_square", "synaptic_conductance", "synaptic_conductance_reduced"}
POS = {"synaptic_conductance": [1, 2], "synaptic_conductance_reduced": [0, 1]}


@lru
def load(name):
    return getattr(ivp, name)()


def call(fn, name, x, t):
    return fn(jnp.asarray(x)) if name in NO_TIME else fn(jnp.asarray(x), t)


@st.composite
def def_case(draw, names):
    n = draw(st.sampled_from(names))
    d = len(DEF[n][0])
    x = draw(gen.vec(d, -3, 3))
    for i in POS.get(n, []):
        x[i] = abs(x[i]) * 5 + 0.1
    return {"name": n, "x": x, "t": draw(gen.num(0, 5)), "scale": draw(st.sampled_from([1.0, 1.0, 10.0]))}


def check_def(c):
    n, t = c["name"], c["t"]
    x = np.array(c["x"]) * c["scale"]
    x0, f, s = load(n)[:3]
    want = DEF[n]
    close(x0, want[0], f"{n}: initial value", 1e-12, 0)
    for y in (x, want[0]):
        wf, ws = want[1](y), want[2](y)
        close(call(f, n, y, t), wf, f"{n}: drift at {y}", 1e-10, 1e-10)
        close(call(s, n, y, t), ws, f"{n}: diffusion at {y}", 1e-10, 1e-12)
    if n.startswith("square_matrix_"):     # the square version is the same equation in law
        m = n.removeprefix("square_matrix_")
        S, S0 = np.asarray(call(s, n, x, t)), np.asarray(call(load(m)[2], m, x, t))
        require(S.shape[0] == S.shape[1], f"{n}: diffusion is not square: {S.shape}")
        close(S @ S.T, S0 @ S0.T, f"{n}: covariance against {m}", 1e-12)
        close(call(f, n, x, t), np.asarray(call(load(m)[1], m, x, t)), f"{n}: drift against {m}", 1e-12)
    return {"nontrivial": bool(np.any(x)), "labels": [n]}


# ---- exact moments ---------------------------------------------------------------------------------
LIN = {"ibm": 1, "square_matrix_ibm": 1, "double_ibm": 1, "harmonic_oscillator": 1, "harmonic_oscillator_square": 1}


def lin_moments(n, t):
    """Exact mean and covariance of the linear equations, by block exponentials."""
    x0, f, s = DEF[n]
    d = len(x0)
    M = np.column_stack([f(e) - f(np.zeros(d)) for e in np.eye(d)])
    S = s(x0)
    Z = sl.expm(np.block([[-M * t, S @ S.T * t], [np.zeros((d, d)), M.T * t]]))
    return sl.expm(M * t) @ x0, Z[d:, d:].T @ Z[:d, d:]


@st.composite
def mom_case(draw, names):
    return {"name": draw(st.sampled_from(names)), "t": draw(gen.logstep(-10, 1))}


def check_exact(c):
    n, t = c["name"], c["t"]
    if n == "gbm":
        r = load(n)
        mean = jnp.asarray(r[3](t))
        close(mean, _v(np.exp(t)), "gbm: mean", 1e-10)
        close(r[4](t), _v((np.exp(t) - 1) * np.exp(2 * t)), "gbm: variance", 1e-9)
        return {"labels": [n]}
    m, P = lin_moments(n, t)
    r = load(n)
    sd = np.sqrt(np.diag(P))
    if n.startswith("harmonic"):
        close(r[3](t), m, f"{n}: mean at {t}", 1e-10)
        var = r[4](t)          # trapezoidal rule with 1000 points
        close(var, P, f"{n}: variance at {t}", 1e-5, 0, np.outer(sd, sd))
    else:
        close(r[3](t), P, f"{n}: variance at {t}", 1e-10, 0, np.outer(sd, sd))
    return {"labels": [n]}


# ---- local expansions ----------------------------------------------------------------------------------

def jac(f, x):
    """Complex step."""
    d = len(x)
    return np.column_stack([(f(x + 1e-4 * e) * 8 - f(x - 1e-4 * e) * 8 - f(x + 2e-4 * e) + f(x - 2e-4 * e)) / 12e-4 for e in np.eye(d)])


def second(f, x, S):
    """1/2 tr(S S' Hess f), by central differences along the columns of S."""
    out = np.zeros(len(f(x)))
    for v in S.T:
        if np.any(v):
            e = v / np.linalg.norm(v) * 1e-3
            out += 0.5 * (f(x + e) - 2 * f(x) + f(x - e)) / 1e-6 * (v @ v)
    return out


def check_order2(c):
    """x0 + t L x + t^2 / 2 L L x at x0, by the generator of the equation."""
    n, t = c["name"], c["t"]
    x0, f, s = DEF[n]
    Lf = jac(f, x0) @ f(x0) + second(f, x0, s(x0))
    want = x0 + t * f(x0) + t * t / 2 * Lf
    got = load(n)[3](t)
    sc = np.abs(t * f(x0)) + t * t / 2 * np.abs(Lf)
    close(np.asarray(got) - x0, want - x0, f"{n}: mean up to order 2 at {t}", 1e-5, 1e-12 * (1 + np.abs(x0)), sc)
    return {"labels": [n]}


def moment_ode(n, t):
    """Mean and covariance at t of the equation linearised along its mean (exact up to higher orders at these states)."""
    x0, f, s = DEF[n]
    d = len(x0)

    def rhs(_, y):
        m, P = y[:d], y[d:].reshape(d, d)
        J, S = jac(f, m), s(m)
        return np.r_[f(m), (J @ P + P @ J.T + S @ S.T).ravel()]
    y = si.solve_ivp(rhs, (0, t), np.r_[x0, np.zeros(d * d)], rtol=1e-11, atol=1e-30, method="DOP853").y[:, -1]
    return y[:d], y[d:].reshape(d, d)


def check_variance(c):
    """Relative error of each declared entry vanishes as fast as its order says."""
    n, t = c["name"], c["t"]
    if n == "synaptic_conductance":
        got = lambda t: np.asarray(load(n)[4](t)).reshape(1, 1)
        rate, exp = np.array([[3]]), lambda t: moment_ode(n, t)[1][:1, :1]
        lead = np.array([[1]])
    elif n == "harmonic_oscillator_square":
        # entries t^3/3 - ..., t^2/2 - gamma t^3/2, t - gamma t^2 + (2 gamma^2 - D) t^3 / 3: error of order 4
        got, exp = (lambda t: np.asarray(load(n)[5](t))), (lambda t: lin_moments(n, t)[1])
        rate, lead = np.array([[3, 2], [2, 1]]), np.array([[1, 2], [2, 3]])
    else:     # entries in t^3, t^2 to leading order, t - t^2
        got, exp = (lambda t: np.asarray(load(n)[4](t))), (lambda t: moment_ode(n, t)[1])
        rate, lead = np.array([[3, 2], [2, 1]]), np.array([[1, 1], [1, 2]])
    a, b = got(t), exp(t)
    if a.shape != b.shape:
        raise Violation(f"{n}: variance of shape {a.shape}, expected {b.shape}")
    rel = np.abs(a - b) / t ** rate / (np.abs(b) / t ** rate)
    lim = 40.0 * t ** lead if "fhn" in n else 8.0 * t ** lead
    if np.any(rel > lim + 1e-7):
        raise Violation(f"{n}: variance at {t}: {a.tolist()}, exact {b.tolist()}: relative errors {rel.tolist()} above {lim.tolist()}")
    return {"labels": [n]}


@st.composite
def small_case(draw, names):
    return {"name": draw(st.sampled_from(names)), "t": draw(gen.logstep(-14, -7))}


# ---- random linear equations ------------------------------------------------------------------------------

@st.composite
def rnd_case(draw, dims):
    d = draw(st.sampled_from(dims))
    seed, seed2 = draw(gen.seed_pairs())
    return {"d": d, "seed": seed, "seed2": seed2, "a": draw(gen.mat(d, d)), "b": draw(gen.mat(d, d)), "x": draw(gen.vec(d)),
            "y": draw(gen.vec(d)), "l": draw(gen.num(-3, 3)), "t": draw(gen.num(0, 4))}


def check_rnd(c):
    d, t = c["d"], c["t"]
    a, b, x, y = (np.array(c[k]) for k in ("a", "b", "x", "y"))
    k = key(c["seed"])
    x0, f, s = tup(ivp.random_linear_sde(k, d), 3, "random_linear_sde")
    close(x0, np.ones(d), "initial value", 1e-12)
    M = np.column_stack([arr(f(jnp.asarray(e), t), (d,), "drift") for e in np.eye(d)])
    G = arr(s(jnp.asarray(x), t), (d, d), "diffusion")
    close(f(jnp.asarray(x + c["l"] * y), t), M @ (x + c["l"] * y), "drift: linear in the state", 1e-9)
    close(f(jnp.asarray(x), 0.0), M @ x, "drift: constant in time", 1e-9)
    close(s(jnp.asarray(y), 0.0), G, "diffusion: constant", 1e-12)
    _, f1, s1 = ivp.random_linear_sde(k, d, std1=jnp.asarray(a), std2=jnp.asarray(b))
    close(f1(jnp.asarray(x), t), a @ M @ x, "drift with std1", 1e-9)
    close(s1(jnp.asarray(x), t), b @ G, "diffusion with std2", 1e-9)
    _, f2, s2 = ivp.random_linear_sde(k, dim=d)
    close(f2(jnp.asarray(x), t), M @ x, "drift for the same key", 1e-12)
    if c["seed"] != c["seed2"]:
        _, f3, s3 = ivp.random_linear_sde(key(c["seed2"]), d)
        M3 = np.column_stack([np.asarray(f3(jnp.asarray(e), t)) for e in np.eye(d)])
        require(not np.any(np.isclose(M, M3, rtol=1e-12)), "two keys give the same drift")
    return {"nontrivial": d > 1, "labels": [f"d={d}"]}


BL = 20000


@lru
def _entries(d):
    def one(k):
        _, f, s = ivp.random_linear_sde(k, d)
        return jax.vmap(lambda e: f(e, 0.0))(jnp.eye(d)).ravel(), s(jnp.zeros(d), 0.0).ravel()
    return jax.jit(lambda k: jax.vmap(one)(jax.random.split(k, BL)))


def check_entries(c):
    M, G = _entries(c["d"])(key(c["seed"]))
    n = c["d"] ** 2
    mean_cov_test(arr(M, (BL, n)), np.zeros(n), np.eye(n), "entries of the drift matrix over keys")
    mean_cov_test(arr(G, (BL, n)), np.zeros(n), np.eye(n), "entries of the diffusion matrix over keys")
    return {"labels": [f"d={c['d']}"]}


ORDER2 = ["fhn", "square_matrix_fhn", "synaptic_conductance", "synaptic_conductance_reduced"]
SUBS = [
    Sub("definitions", lambda i, n: def_case(sorted(DEF)[i::n]), check_def, quick=120, thorough=1500, shards=1, thorough_shards=2,
        rule="drift, diffusion and initial value of the ten equations at generated states and times against the published equations; square "
             "versions against the plain ones; non-trivial: non-zero state"),
    Sub("exact_moments", lambda i, n: mom_case((sorted(LIN) + ["gbm"])[i::n]), check_exact, quick=60, thorough=600, shards=1, thorough_shards=1,
        rule="means and variances of the linear equations and of geometric Brownian motion at generated times in [2^-10, 2] against matrix exponentials; every case counts"),
    Sub("order2_means", lambda i, n: mom_case(ORDER2[i::n]), check_order2, quick=60, thorough=600, shards=1, thorough_shards=1,
        rule="declared second-order means against the generator applied twice; every case counts"),
    Sub("local_variances", lambda i, n: small_case((["fhn", "square_matrix_fhn", "synaptic_conductance", "harmonic_oscillator_square"])[i::n]), check_variance,
        quick=40, thorough=400, shards=1, thorough_shards=1,
        rule="declared local variances against the moment equations at times in [2^-14, 2^-7], error within the declared order; every case counts"),
    Sub("random_linear", lambda i, n: rnd_case([1, 2, 3, 4, 7]), check_rnd, quick=60, thorough=800, shards=1, thorough_shards=1,
        rule="linearity, time-invariance, scaling matrices, dependence on the key; non-trivial: dimension above one"),
    Sub("random_linear_law", lambda i, n: rnd_case([1, 2, 3]), check_entries, quick=4, thorough=40, shards=1, thorough_shards=1,
        rule=f"entries over {BL} keys are standard normal and uncorrelated; every case counts"),
]
