"""C23: the hypoelliptic scheme: second-order mean, and a Gaussian noise whose smooth component is the
time integral of the rough ones to leading order."""
import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.lib import (F, Fjac, Fn, S, Sn, Sub, arr, arrs, close, jax, jnp, key, lru, mean_cov_test, normality_test,
                    require, tup)
from vf.props.common import stepwise
from vf.props.longpaths import long_sub

from bayesian_sde_solver.sde_solvers import hypoelliptic_diffusion_15_scheme

META = {"assumptions": ["the first coordinate is noise-free and is driven by the rough ones (its drift has a non-zero derivative along their noise); "
                        "the noise of the rough coordinates is not degenerate",
                        "the draws depend on the key, the step, the number of steps and the local covariance only"]}


def noise(s, x, d, xp=jnp):
    """Square diffusion matrix with a zero first row; rough block diagonally dominant, hence regular."""
    G = 0.3 * S(s, x, 0.0, xp)
    r = xp.arange(d)
    G = G * (0.5 / (0.5 + xp.sum(xp.abs(G), axis=1)))[:, None]            # rows of absolute sum below one half
    # rough coordinate i is driven by component i of the noise (the last one is kept free of the first coordinate)
    M = xp.eye(d) + G
    return xp.where((r > 0)[:, None], M, 0.0)


def drift(f, q, x, xp=jnp):
    """Smooth coordinate: g(x_0) + nonlinear in the rough ones with a derivative along them bounded below."""
    y = F(f, x, 0.0, xp)
    e = xp.zeros(len(x))
    up = xp.asarray(q["sgn"]) * xp.sum(x[1:] * (3.0 + xp.asarray(q["c"])))
    if xp is np:
        e[0] = up
    else:
        e = e.at[0].set(up)
    return y + e


def djac(f, q, x):
    J = Fjac(f)(x, 0.0)
    J[0, 1:] += q["sgn"] * (3.0 + q["c"])
    return J


def hess(p, x):
    """H[i, j, k] of gen.field at t = 0."""
    s = np.sin(p["C"] @ x + p["p"])
    H = -(p["c"] * s)[:, None, None] * p["C"][:, :, None] * p["C"][:, None, :]
    d = len(x)
    H[np.arange(d), np.arange(d), np.arange(d)] += 2 * p["g"]
    return H


def mean1(f, q, s, x, h, d):
    a, J = drift(f, q, x, np), djac(f, q, x)
    G = noise(s, x, d, np)
    return x + h * a + h * h / 2 * (J @ a + 0.5 * np.einsum("ijk,jk->i", hess(f, x), G @ G.T))


def cov1(f, q, s, x, h, d):
    u = djac(f, q, x)[0, 1:]
    G = noise(s, x, d, np)[1:]
    GG = G @ G.T
    C = np.zeros((d, d))
    C[0, 0] = u @ GG @ u * h ** 3 / 3
    C[0, 1:] = C[1:, 0] = u @ GG * h * h / 2
    C[1:, 1:] = GG * h
    return C


@lru
def _run(d, N, B):
    def one(k, x, f, q, s, h):
        return hypoelliptic_diffusion_15_scheme(k, x, lambda x: drift(f, q, x), lambda x: noise(s, x, d), h, N)
    if B:
        return jax.jit(lambda k, *a: jax.vmap(lambda z: one(z, *a)[1])(jax.random.split(k, B)))
    return jax.jit(one)


@lru
def _linear(d, N):
    """Reference equation with the given constant covariance structure: x_0' = u.x_rough, constant noise G."""
    def one(k, u, G, h):
        L = jnp.zeros((d, d)).at[0, 1:].set(u)
        return hypoelliptic_diffusion_15_scheme(k, jnp.zeros(d), lambda x: L @ x, lambda x: G, h, N)[1]
    return jax.jit(one)


def eps(k, u, G, h, d, N):
    L = np.zeros((d, d))
    L[0, 1:] = u
    y = arr(_linear(d, N)(k, np.array(u), np.array(G), h), (N + 1, d), "linear equation")
    return y[1:] - y[:-1] @ (np.eye(d) + h * L + h * h / 2 * L @ L).T


@st.composite
def one_case(draw, confs):
    d, N = draw(st.sampled_from(confs))
    f = draw(gen.field(d, 0.7, time=False))
    s = draw(gen.diffusion(d, d, 0.7, time=False))
    if N > 1:      # constant noise, smooth drift affine in the rough coordinates: the covariance is the same at every step
        f["c"][0] = 0.0
        s["S1"] = [[0.0] * d] * d
        s["V"] = [[[0.0] * d] * d] * d
    return {"d": d, "N": N, "h": draw(gen.logstep(-9, -2)), "f": f, "s": s,
            "q": {"c": draw(gen.vec(d - 1, -1, 1)), "sgn": draw(st.sampled_from([-1.0, 1.0]))}, "x0": draw(gen.vec(d)), "seed": draw(gen.seeds)}


def parts(c):
    return arrs(c["f"]), {"c": np.array(c["q"]["c"]), "sgn": c["q"]["sgn"]}, arrs(c["s"]), np.array(c["x0"]), c["h"], c["d"], c["N"]


def check_rec(c):
    f, q, s, x0, h, d, N = parts(c)
    k = key(c["seed"])
    r = tup(_run(d, N, 0)(k, x0, f, q, s, h), 2)
    close(r[0], np.arange(N + 1) * h, "time grid", 1e-12)
    G = noise(s, x0, d, np)
    e = eps(k, djac(f, q, x0)[0, 1:], G, h, d, N)
    got = arr(r[1], (N + 1, d), "trajectory", finite=False)
    want, n = stepwise(got, x0, lambda i, x: mean1(f, q, s, x, h, d) + e[i])
    close(got[:n], want, "trajectory, step by step", 1e-8, scale=1 + np.max(np.abs(want)))
    return {"nontrivial": n > 1, "labels": [f"d={d}", f"N={N}"]}


B = 20000


def check_law(c):
    f, q, s, x0, h, d, N = parts(c)
    x = arr(_run(d, 1, B)(key(c["seed"]), x0, f, q, s, h), (B, 2, d), "trajectories")
    require(np.all(x[:, 0] == x0), "the trajectory does not start at x0")
    sc = np.r_[h ** 1.5, np.full(d - 1, np.sqrt(h))]
    m, C = mean1(f, q, s, x0, h, d), cov1(f, q, s, x0, h, d)
    u = (x[:, 1] - m) / sc
    C = C / np.outer(sc, sc)
    mean_cov_test(u, np.zeros(d), C, "first step, centred and scaled")
    for j in range(d):
        normality_test(u[:, j] / np.sqrt(C[j, j]), f"first step, coordinate {j}")
    return {"nontrivial": True, "labels": [f"d={d}"]}


@lru
def _two(d):
    def one(k, f, q, s, x, h):
        return hypoelliptic_diffusion_15_scheme(k, x, lambda x: drift(f, q, x), lambda x: noise(s, x, d), h, 3)[1]
    return jax.jit(lambda k, *a: jax.vmap(lambda z: one(z, *a))(jax.random.split(k, B)))


def check_steps(c):
    """Later steps: noise with the local covariance of the state the step starts from, independent of the past."""
    f, q, s, x0, h, d, N = parts(c)
    x = arr(_two(d)(key(c["seed"]), f, q, s, x0, h), (B, 4, d), "trajectories")
    us = []
    for i in range(3):
        z = x[:, i]
        n = min(B, 4000)
        u = np.empty((n, d))
        for b in range(n):
            L = np.linalg.cholesky(cov1(f, q, s, z[b], h, d))
            u[b] = np.linalg.solve(L, x[b, i + 1] - mean1(f, q, s, z[b], h, d))
        us.append(u)
    u = np.concatenate(us, axis=1)
    mean_cov_test(u, np.zeros(3 * d), np.eye(3 * d), "whitened residuals of three steps")
    return {"nontrivial": True, "labels": [f"d={d}"]}


RC = [(d, N) for d in (2, 3) for N in (1, 1, 2, 6)] + [(4, 1), (5, 2), (8, 1), (2, 40)]
SUBS = [
    Sub("recursion", lambda i, n: one_case(RC[i::n]), check_rec, quick=80, thorough=1500, shards=3, thorough_shards=6,
        rule="the trajectory against x + h f + h^2/2 (J f + 1/2 tr(SS' H)) + noise in numpy with analytic derivatives; the noise is recovered from a "
             "linear equation of the same local covariance and key; non-trivial: at least one step before divergence"),
    Sub("law", lambda i, n: one_case([(2, 1), (3, 1)][i::n]), check_law, quick=10, thorough=200, shards=2, thorough_shards=2,
        rule=f"mean, covariance (h^3/3, h^2/2, h structure) and normality of one step over {B} keys; every case counts"),
    Sub("steps", lambda i, n: one_case([(2, 1), (3, 1)][i::n]), check_steps, quick=4, thorough=60, shards=2, thorough_shards=2,
        rule="residuals of three successive steps whitened by the local covariance are jointly standard normal; every case counts"),
    long_sub(("hypo",), 8),
]
