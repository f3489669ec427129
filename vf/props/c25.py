"""C25: the path solver of the marginalised parabola composes its step solver over successive steps."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, ref
from vf.lib import F, Fn, S, Sn, Sub, arr, arrs, close, jax, jnp, key, lru, mean_cov_test, require, tup
from vf.props.c17 import bounded
from vf.props.longpaths import long_sub

from bayesian_sde_solver.ssm_parabola import ekf0_marginal_parabola, ekf1_marginal_parabola, ssm_parabola_ode_solver

META = {"assumptions": ["solver(key, init=, drift=, diffusion=, T=) returns the next state first, as every caller defines it"]}
SOL = {"ssm0": ekf0_marginal_parabola, "ssm1": ekf1_marginal_parabola}


@lru
def _run(d, N, kind, M):
    def solver(k, init, drift, diffusion, T):
        if kind in SOL:
            return SOL[kind](None, init, T, drift, diffusion, T / M, M)
        if kind == "keyed":        # reports what it was given through the state
            u = jax.random.uniform(k, (d,))
            return init + T * drift(init, T / 3) + u, u
        x = init + T * drift(init, 0.0) + T * diffusion(init, T / 2) @ jnp.arange(1.0, d + 1)
        x = x + T ** 2 * drift(x, T)
        return x, jnp.zeros(d), jnp.zeros(d)
    return jax.jit(lambda k, f, s, x0, delta: ssm_parabola_ode_solver(key=k, drift=lambda x, t: F(f, x, t), sigma=lambda x, t: S(s, x, t),
                                                                      x0=x0, delta=delta, N=N, solver=solver))


@st.composite
def case(draw, confs):
    d, N, kind, M = draw(st.sampled_from(confs))
    return {"d": d, "N": N, "kind": kind, "M": M, "f": draw(gen.field(d)), "s": draw(gen.diffusion(d, d)), "x0": draw(gen.vec(d)),
            "delta": draw(gen.logstep(-8, -2)), "seed": draw(gen.seeds)}


def shift(p, t0, drift=True):
    """The same field seen from time t0."""
    q = {k: np.array(v, float) for k, v in arrs(p).items()}
    q["p"] = q["p"] + q["w"] * t0
    if drift:
        q["b"] = q["b"] + q["e"] * t0
    return q


def check(c):
    d, N, kind, delta = c["d"], c["N"], c["kind"], c["delta"]
    f, s, x0 = arrs(c["f"]), arrs(c["s"]), np.array(c["x0"])
    ts, traj = tup(_run(d, N, kind, c["M"])(key(c["seed"]), f, s, x0, delta), 2, "path solver")
    close(ts, np.arange(N + 1) * delta, "time grid", 1e-13, 0)
    traj = arr(traj, (N + 1, d), "trajectory", finite=False)
    fn, sn = Fn(f), Sn(s)
    xs, us = [x0], []
    with np.errstate(all="ignore"):
        for k in range(N):
            t0, x = k * delta, xs[-1]
            if not bounded(x):
                return {"nontrivial": False, "labels": ["large"]}
            if kind in SOL:
                pr = ref.ibm_prior(1, delta / c["M"], 1)
                m = ref.ssm_filter(shift(f, t0), shift(s, t0, False), x, delta, pr, np.zeros((d, d)), delta / c["M"], c["M"], kind == "ssm0")[0]
                x = m[::4]
            elif kind == "keyed":
                y = traj[k] + delta * fn(traj[k], t0 + delta / 3)
                us.append(traj[k + 1] - y)
                x = traj[k + 1]
            else:
                x = x + delta * fn(x, t0) + delta * sn(x, t0 + delta / 2) @ np.arange(1.0, d + 1)
                x = x + delta ** 2 * fn(x, t0 + delta)
            xs.append(x)
    xs = np.array(xs)
    sc = 1 + np.max(np.abs(xs))
    if sc > 1e3:
        return {"nontrivial": False, "labels": ["large"]}
    require(np.array_equal(traj[0], x0), "the trajectory does not start at x0")
    close(traj, xs, "trajectory", 1e-7 if kind in SOL else 1e-10, 0, sc)
    if us:
        u = np.array(us)
        require(np.all(u > -1e-6) and np.all(u < 1 + 1e-6), f"the step solver did not get its drift shifted to the step: {u}")
        require(len(np.unique(np.round(u, 9))) == u.size, f"two steps were given the same key: {u}")
    return {"nontrivial": N > 1, "labels": [kind, f"N={N}", f"d={d}"]}


# ---- law over keys, linear equations ----------------------------------------------------------------
B = 12000


@lru
def _law(d, N, kind, M, sqrt):
    def solver(k, init, drift, diffusion, T):
        return SOL[kind](k, init, T, drift, diffusion, T / M, M, sqrt=sqrt)
    one = lambda k, A, b, G, x0, delta: ssm_parabola_ode_solver(k, lambda x, t: A @ x + b * jnp.sin(2 * t), lambda x, t: G * (1 + t), x0, delta, N, solver)[1]
    return jax.jit(lambda k, *a: jax.vmap(lambda q: one(q, *a))(jax.random.split(k, B)))


@st.composite
def law_case(draw, confs):
    d, N, kind, M, sqrt = draw(st.sampled_from(confs))
    return {"d": d, "N": N, "kind": kind, "M": M, "sqrt": sqrt, "A": draw(gen.mat(d, d, -1, 1)), "b": draw(gen.vec(d)), "G": draw(gen.mat(d, d, -1, 1)),
            "x0": draw(gen.vec(d)), "delta": draw(gen.logstep(-6, -1)), "seed": draw(gen.seeds)}


def check_law(c):
    """Each step returns a draw of a Gaussian whose mean is affine in the state and whose covariance does not
    depend on it: the grid values are jointly Gaussian."""
    d, N, M, delta, zero = c["d"], c["N"], c["M"], c["delta"], c["kind"] == "ssm0"
    A, b, G, x0 = (np.array(c[k]) for k in ("A", "b", "G", "x0"))
    x = arr(_law(d, N, c["kind"], M, c["sqrt"])(key(c["seed"]), A, b, G, x0, delta), (B, N + 1, d), "trajectories")
    Z, Zm = np.zeros(d), np.zeros((d, d))
    # sin(2 t) through the generic field: c * sin(w t + p) with C = 0; the diffusion G (1 + t) through its own time dependence
    h = delta / M

    def step(y, t0):
        f = {"b": Z, "A": A, "c": b, "C": Zm, "w": np.full(d, 2.0), "p": np.full(d, 2 * t0), "g": Z, "e": Z}
        return lin_filter(f, lambda t: G * (1 + t0 + t), y, delta, h, M, zero)
    mean, cov = [x0], [[Zm]]
    C = np.zeros(((N + 1) * d, (N + 1) * d))
    means = [x0]
    for k in range(N):
        m0, P = step(means[-1], k * delta)
        Phi = np.column_stack([step(means[-1] + e, k * delta)[0] - m0 for e in np.eye(d)])
        i, j = slice(k * d, (k + 1) * d), slice((k + 1) * d, (k + 2) * d)
        C[j, :(k + 1) * d] = Phi @ C[i, :(k + 1) * d]
        C[:(k + 1) * d, j] = C[j, :(k + 1) * d].T
        C[j, j] = Phi @ C[i, i] @ Phi.T + P
        means.append(m0)
    mean_cov_test(x.reshape(B, -1), np.concatenate(means), C, f"law of the trajectory ({c['kind']}, square root {c['sqrt']})", extra_mean=1e-8, extra_cov=1e-10)
    return {"nontrivial": N > 1, "labels": [c["kind"], f"N={N}", f"d={d}"]}


def lin_filter(f, g, x, delta, h, N, zero):
    """ref.ssm_filter for a drift of gen.field form and a diffusion g(t) of time only."""
    d = len(x)
    T = np.zeros((4 * d, 2 * d))
    T[1::4, :d], T[1::4, d:] = g(0.0) / delta, np.sqrt(6) * g(0.0) / delta
    T[2::4, :d], T[3::4, d:] = np.eye(d), np.eye(d)
    P = T @ np.diag(np.r_[np.full(d, delta), np.full(d, delta / 2)]) @ T.T
    m = ref.interlace([x, Fn(f)(x, 0.0), np.zeros(d), np.zeros(d)])
    xi1, Q1, A1 = ref.ibm_prior(1, h, 1)
    A = np.kron(np.eye(d), np.block([[A1, np.zeros((2, 2))], [np.zeros((2, 2)), np.eye(2)]]))
    Q = np.kron(np.eye(d), np.block([[Q1, np.zeros((2, 2))], [np.zeros((2, 4))]]))
    I = np.eye(4 * d)
    sel = lambda t: (I[2::4] + np.sqrt(6) * (1 - 2 * t / delta) * I[3::4]) / delta
    obs = lambda m, t: m[1::4] - Fn(f)(m[::4], t) - g(t) @ sel(t) @ m
    jac = lambda m, t: I[1::4] - g(t) @ sel(t) - (0 if zero else f["A"] @ I[::4])
    for k in range(1, N + 1):
        m, P, _, _ = ref.ekf_step(m, P, A, Q, np.zeros(4 * d), np.zeros((d, d)), obs, jac, k * h)
    return m[::4], P[::4, ::4]


CONF = [(d, N, k, M) for d in (1, 2, 3) for N in (1, 2, 6) for k, M in (("plain", 1), ("keyed", 1))]
CONF += [(5, 3, "plain", 1), (9, 2, "plain", 1), (2, 40, "plain", 1), (1, 150, "plain", 1), (2, 25, "keyed", 1), (4, 2, "ssm1", 1), (3, 2, "ssm0", 2)]
CONF += [(d, N, k, M) for d in (1, 2) for N in (1, 3) for k in SOL for M in (1, 3)]
LC = [(d, N, k, M, sq) for d, N, M in ((1, 2, 1), (2, 3, 1), (1, 4, 2)) for k in SOL for sq in (False, True)]
SUBS = [
    Sub("composition", lambda i, n: gen.starting(case(CONF[i::n]), "x0"), check, quick=60, thorough=1000, shards=5, thorough_shards=8,
        rule="trajectories against a step-by-step loop with the fields shifted to each step: two probing step solvers and both filters; the keys of "
             "the steps differ; non-trivial: several steps"),
    Sub("law", lambda i, n: law_case(LC[i::n]), check_law, quick=6, thorough=100, shards=3, thorough_shards=6,
        rule=f"linear time-dependent equations, {B} keys per case: joint mean and covariance of the grid values; non-trivial: several steps"),
    long_sub(("ssm",), 8),
]
