"""C12: Matern prior."""
import numpy as np
import scipy.linalg as sl
import scipy.special as sp
from hypothesis import strategies as st

from vf import gen
from vf.lib import Sub, arr, close, is_psd, jax, lru, require, tup
from vf.props.c11 import van_loan

from bayesian_sde_solver.ode_solvers.probnum import matern_transition_function

META = {"assumptions": ["the numerically integrated transition is the trapezoid rule on 10000 points: relative 1e-5 and its leading error; the closed form 1e-9"]}


@lru
def _run(k, dim, mc):
    return jax.jit(lambda mag, length, dt: matern_transition_function(k, mag, length, dt, dim, mc))


def get(k, mc, dim, mag, length, dt):
    n = (k + 1) * dim
    m, Q, A = tup(_run(k, dim, mc)(mag, length, dt), 3, "Matern transition")
    return arr(m, (n,), "mean increment"), arr(Q, (n, n), "covariance"), arr(A, (n, n), "matrix")


def companion(k, lam):
    """dX = F X dt + L dW with characteristic polynomial (s + lam)^(k + 1); state i is in units of 1 / (unit of time)^i."""
    co = np.poly(-lam * np.ones(k + 1))     # s^(k+1) + ... + lam^(k+1)
    Fm = np.diag(np.ones(k), 1)
    Fm[k] = -co[1:][::-1]
    return Fm


def matern(nu, r):
    """Correlation at distance r in units of the length scale."""
    x = np.sqrt(2 * nu) * r
    return np.where(x < 1e-12, 1.0, 2 ** (1 - nu) / sp.gamma(nu) * x ** nu * sp.kv(nu, np.maximum(x, 1e-12)))


def units(k, lam, dt):
    """Unit of time in which nothing is small or large: the step, or 1 / lam for longer steps; unit of each state for unit noise."""
    T = min(dt, 1 / lam)
    return T, T ** (-1.0 * np.arange(k + 1)), T ** (2.0 * k + 1)


def quadrature(k, lam, dt):
    """Leading error of the trapezoid rule on 10000 points over [0, dt] (Euler-Maclaurin), with a margin."""
    F1, L1 = companion(k, lam), np.zeros((k + 1, 1))
    L1[k] = 1.0

    def slope(s):
        v = sl.expm(F1 * s) @ L1
        return F1 @ v @ v.T + v @ v.T @ F1.T
    return 4 * (dt / 9999) ** 2 / 12 * (np.abs(slope(0.0)) + np.abs(slope(dt)))


@st.composite
def case(draw, confs):
    k, mc = draw(st.sampled_from(confs))
    return {"k": k, "mc": mc, "dim": draw(st.sampled_from([1, 2, 3, 7])), "mag": draw(gen.num(-3, 3)), "length": draw(gen.logstep(-2, 3)),
            "dt": draw(gen.logstep(-12, draw(st.sampled_from([3, 12])) if k == 1 and not mc else 1))}


def check(c):
    k, dim, mag, ell, dt = (c[n] for n in ("k", "dim", "mag", "length", "dt"))
    n = k + 1
    nu = k + 0.5
    lam = np.sqrt(2 * nu) / ell
    m, Q, A = get(k, c["mc"], dim, mag, ell, dt)
    closed = k == 1 and not c["mc"]
    x = lam * dt
    if not closed and x > 40:
        return {"nontrivial": False, "labels": ["step of many length scales"]}
    close(m, np.zeros(n * dim), "mean increment", 0, 0)
    one = lambda M: [M[i * n:(i + 1) * n, i * n:(i + 1) * n] for i in range(dim)]
    for M, w in ((Q, "covariance"), (A, "matrix")):
        B = M.copy()
        for i in range(dim):
            B[i * n:(i + 1) * n, i * n:(i + 1) * n] = 0
        require(not B.any(), f"{w}: coordinates are coupled")
        require(all(np.array_equal(b, one(M)[0]) for b in one(M)), f"{w}: coordinates differ")
    Q, A = one(Q)[0], one(A)[0]
    T, U, v2 = units(k, lam, dt)
    F1, h = companion(k, lam * T), dt / T
    Ae = sl.expm(F1 * h)
    Ag = A / U[:, None] * U[None, :]
    close(Ag, Ae, "matrix exp(F h), in units of the step (of 1 / lambda when that is shorter)", 1e-8, 1e-10)
    L1 = np.zeros((n, 1))
    L1[k] = 1.0
    # reference by Gauss-Legendre
    Qe = np.zeros((n, n))
    nodes, ws = np.polynomial.legendre.leggauss(40)
    Pinf = sl.solve_continuous_lyapunov(companion(k, 1.0), -L1 @ L1.T)      # in units of 1 / lam
    if x > 30:
        Qe = Pinf - Ae @ Pinf @ Ae.T        # Ae is of order exp(-30) or less
    else:
        for lo, hi in zip(np.linspace(0, h, 9)[:-1], np.linspace(0, h, 9)[1:]):
            for z, w in zip(nodes, ws):
                s = (hi + lo) / 2 + (hi - lo) / 2 * z
                v = sl.expm(F1 * s) @ L1
                Qe += (hi - lo) / 2 * w * v @ v.T
    un = np.outer(U, U) * v2 * mag ** 2
    s = np.sqrt(np.diag(Qe))
    rt, quad = (1e-9, 0.0) if closed else (1e-5, quadrature(k, lam * T, h))
    require(bool(np.all(np.abs(Q - Qe * un) <= (rt * np.outer(s, s) + quad) * un + 1e-300)),
            f"covariance: {Q.tolist()} expected {(Qe * un).tolist()}")
    if mag:
        require(is_psd(Q, 1e-7), "covariance is not positive semi-definite")
        # the stationary process has the Matern correlation function
        R = lam ** np.arange(n)
        Ar = A / R[:, None] * R[None, :]
        corr = (Ar @ Pinf)[0, 0] / Pinf[0, 0]
        require(abs(corr - matern(nu, dt / ell)) < 1e-7, f"correlation {corr} at distance {dt / ell} length scales, expected {matern(nu, dt / ell)}")
        Qr = Q / np.outer(R, R) * lam ** (2 * k + 1.0) / mag ** 2
        sc = np.sqrt(np.outer(np.diag(Pinf), np.diag(Pinf)))
        require(bool(np.all(np.abs(Ar @ Pinf @ Ar.T + Qr - Pinf) <= (1e-7 if closed else 2e-5) * sc + (0 if closed else quadrature(k, 1.0, x)))),
                "the stationary law is not preserved by one step")
    return {"nontrivial": bool(mag) and x > 1e-6, "labels": [f"k={k}{'' if closed or k != 1 else ' integrated'}", f"dim={dim}"]}


@st.composite
def pair_case(draw):
    return {"dim": draw(st.sampled_from([1, 2, 3, 7])), "mag": draw(gen.num(0.01, 3)), "length": draw(gen.logstep(-2, 3)), "dt": draw(gen.logstep(-12, 2)),
            "dt2": draw(gen.logstep(-12, draw(st.sampled_from([2, 12]))))}


def check_pair(c):
    """Closed form against numerical integration; two steps compose."""
    lam = np.sqrt(3) / c["length"]
    a = get(1, False, c["dim"], c["mag"], c["length"], c["dt"])
    if lam * c["dt"] < 40:
        b = get(1, True, c["dim"], c["mag"], c["length"], c["dt"])
        U = np.tile(lam ** np.arange(2), c["dim"])
        close(a[2] / U[:, None] * U, b[2] / U[:, None] * U, "closed-form matrix against the integrated one", 1e-8, 1e-10)
        s = np.sqrt(np.diag(a[1]))
        un = np.outer(U, U) * lam ** -3.0 * c["mag"] ** 2
        quad = np.kron(np.eye(c["dim"]), quadrature(1, 1.0, lam * c["dt"])) * un
        require(bool(np.all(np.abs(a[1] - b[1]) <= 1e-5 * np.outer(s, s) + quad)), f"closed-form covariance {a[1].tolist()} against the integrated one {b[1].tolist()}")
    a2 = get(1, False, c["dim"], c["mag"], c["length"], c["dt2"])
    a3 = get(1, False, c["dim"], c["mag"], c["length"], c["dt"] + c["dt2"])
    s = np.sqrt(np.diag(a3[1]))
    require(bool(np.all(np.abs(a2[2] @ a[1] @ a2[2].T + a2[1] - a3[1]) <= 1e-8 * np.outer(s, s))), "covariance over two steps is not the composition")
    U = np.tile(lam ** np.arange(2), c["dim"])
    close((a2[2] @ a[2]) / U[:, None] * U, a3[2] / U[:, None] * U, "matrix over two steps", 1e-8, 1e-10)
    return {"nontrivial": True, "labels": [f"dim={c['dim']}"]}


CONF = [(1, False), (2, False), (1, True), (3, False), (0, False), (4, False), (6, False)]
SUBS = [
    Sub("closed", lambda i, n: case([(1, False)]), check, quick=150, thorough=600, shards=1, thorough_shards=2,
        rule="closed-form Matern 3/2: exponential of the companion matrix, Gauss-Legendre covariance, Matern correlation, stationarity; magnitudes of both "
             "signs, lengths 1/4..8, steps over 24 octaves; non-trivial: non-zero magnitude"),
    Sub("generic", lambda i, n: case(CONF[1:]), check, quick=20, thorough=300, shards=4, thorough_shards=4, weight=2,
        rule="the same for k = 0, 2, 3, 4, 6 and for the integrated k = 1"),
    Sub("consistency", lambda i, n: pair_case(), check_pair, quick=60, thorough=400, shards=1, thorough_shards=2,
        rule="closed form against numerical integration and composition of two steps"),
]
