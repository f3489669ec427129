"""C11: integrated Brownian motion / Ornstein-Uhlenbeck transition."""
import numpy as np
import scipy.linalg as sl
from hypothesis import strategies as st

from vf import gen
from vf.lib import Sub, arr, close, is_psd, jax, lru, require, tup

from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function

META = {"assumptions": ["for a mean-reverting prior (theta > 0) the covariance is documented as leading order in the step"]}

QS = [1, 2, 3, 4, 1, 2, 5, 7]


def van_loan(Fm, L, dt):
    """exp(F dt) and int_0^dt exp(F s) L L' exp(F' s) ds."""
    n = len(Fm)
    M = np.block([[-Fm, L @ L.T], [np.zeros((n, n)), Fm.T]]) * dt
    E = sl.expm(M)
    A = E[n:, n:].T
    return A, A @ E[:n, n:]


@lru
def _run(q, dim):
    return jax.jit(lambda theta, sigma, dt: IOUP_transition_function(theta, sigma, q, dt, dim))


def get(c, dt=None, theta=None, sigma=None):
    n = (c["q"] + 1) * c["dim"]
    m, Q, A = tup(_run(c["q"], c["dim"])(c["theta"] if theta is None else theta, c["sigma"] if sigma is None else sigma,
                                         c["dt"] if dt is None else dt), 3, "IOUP transition")
    return arr(m, (n,), "mean increment"), arr(Q, (n, n), "covariance"), arr(A, (n, n), "matrix")


@st.composite
def case(draw, qs):
    q = draw(st.sampled_from(qs))
    th = draw(st.one_of(st.just(0.0), st.just(0.0), gen.num(0.0, 4.0), gen.logstep(-36, 2)))
    return {"q": q, "dim": draw(st.sampled_from((1, 2, 3, 6, 9))), "theta": th, "sigma": draw(gen.num(-3, 3)),
            "dt": draw(gen.logstep(-14, 2)), "dt2": draw(gen.logstep(-14, 2))}


def weights(q, dt):
    return dt ** (q + 0.5 - np.arange(q + 1))


def check(c):
    q, dim, th, sg, dt, dt2 = (c[k] for k in ("q", "dim", "theta", "sigma", "dt", "dt2"))
    m, Q, A = get(c)
    n = q + 1
    close(m, np.zeros(n * dim), "mean increment", 0, 0)
    # in units of dt, where nothing cancels: entries of A carry the unit dt^(j - i)
    Fu, Lu = np.diag(np.ones(q), 1), np.zeros((n, 1))
    Fu[q, q], Lu[q] = -th * dt, 1.0
    wA = dt ** np.maximum(np.arange(n)[None, :] - np.arange(n)[:, None], 0).astype(float)
    A1 = wA * sl.expm(Fu)
    err = np.abs(A - np.kron(np.eye(dim), A1))
    lim = np.kron(np.eye(dim), 1e-8 * np.maximum(wA, np.abs(A1))) + 0.0
    require(bool(np.all(err <= lim)), f"matrix: {A.tolist()} expected {np.kron(np.eye(dim), A1).tolist()}")
    # covariance: exact for theta = 0
    i = np.arange(n)
    f = np.array([float(np.prod(np.arange(1, q - a + 1))) for a in i])
    Q0 = sg ** 2 * dt ** (2 * q + 1.0 - i[:, None] - i[None, :]) / ((2 * q + 1 - i[:, None] - i[None, :]) * f[:, None] * f[None, :])
    s = np.abs(sg) * weights(q, dt)
    sc = np.kron(np.eye(dim), np.outer(s, s))
    if th == 0.0:
        require(bool(np.all(np.abs(Q - np.kron(np.eye(dim), Q0)) <= 1e-9 * sc)), f"covariance: {Q.tolist()} expected {np.kron(np.eye(dim), Q0).tolist()}")
        # Chapman-Kolmogorov
        _, Q2, A2 = get(c, dt=dt2)
        _, Q3, A3 = get(c, dt=dt + dt2)
        s3 = np.abs(sg) * weights(q, dt + dt2)
        sc3 = np.outer(np.tile(s3, dim), np.tile(s3, dim))
        require(bool(np.all(np.abs(Q3 - (A2 @ Q @ A2.T + Q2)) <= 1e-8 * sc3)), "covariance over two steps is not the composition")
        w3 = (dt + dt2) ** np.maximum(np.tile(i, dim)[None, :] - np.tile(i, dim)[:, None], 0).astype(float)
        require(bool(np.all(np.abs(A3 - A2 @ A) <= 1e-8 * w3 + 1e-300)), "matrix over two steps is not the product")
    else:
        Qe = np.outer(s, s) * van_loan(Fu, Lu, 1.0)[1]
        # leading order: the exact covariance is smaller by a relative O(theta dt)
        tol = 1e-7 + 1.0 * th * dt
        require(bool(np.all(np.abs(Q - np.kron(np.eye(dim), Qe)) <= tol * sc + 1e-300)),
                f"covariance: {Q.tolist()} expected {np.kron(np.eye(dim), Qe).tolist()} up to a relative {tol:.3g}")
        _, Qb, _ = get(c, dt=dt)
        _, Q2, A2 = get(c, dt=dt2)
        _, _, A3 = get(c, dt=dt + dt2)
        w3 = (dt + dt2) ** np.maximum(np.tile(i, dim)[None, :] - np.tile(i, dim)[:, None], 0).astype(float)
        require(bool(np.all(np.abs(A3 - A2 @ A) <= 1e-8 * w3 + 1e-300)), "matrix over two steps is not the product")
    require(np.allclose(Q, Q.T, rtol=1e-12, atol=0), "covariance is not symmetric")
    if sg != 0:
        require(is_psd(Q[:n, :n], 1e-8), "covariance is not positive semi-definite")
        _, Qs, As = get(c, sigma=2.5 * sg)
        require(np.allclose(Qs, 6.25 * Q, rtol=1e-10, atol=0), "covariance does not scale with the square of the magnitude")
        require(np.array_equal(As, A), "matrix depends on the magnitude")
    return {"nontrivial": sg != 0, "labels": [f"q={q}", f"dim={dim}", "theta" if th else "ibm"]}


SUBS = [Sub("ioup", lambda i, n: case(QS[i::n]), check, quick=110, thorough=2500, shards=4,
            rule="q = 1..7, 1-9 coordinates, steps over 16 octaves, magnitudes of both signs, mean reversion 0 or 2^-36..4; exact formulae, matrix exponential and "
                 "composition of two steps; non-trivial: non-zero magnitude")]
