"""C15: the (extended) Kalman filter computes Gaussian conditionals."""
import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.lib import Sub, arr, arrs, close, close_cov, jax, jnp, lru, require, tup

import bayesian_sde_solver.ode_solvers.probnum  # noqa: F401
from bayesian_sde_solver.ode_solvers.probnum import ekf

META = {"assumptions": ["the innovation covariance is non-singular (singular priors and zero observation noise are generated, singular innovations are not)",
                        "ekf(init, observation, A, Q, xi, R, params=, lower_sqrt=, return_UC=) as the solvers call it"]}


def psd(G, rank):
    G = np.array(G)
    return G[:, :rank] @ G[:, :rank].T, np.pad(G[:, :rank], ((0, 0), (0, len(G) - rank)))


@lru
def _one(n, k, sqrt, ret):
    return jax.jit(lambda m, P, A, Q, xi, H, d, R: ekf((m, P), lambda x, t: H @ x + t * d, A, Q, xi, R, params=(jnp.array([0.5]),), lower_sqrt=sqrt, return_UC=ret))


# units of the components, powers of two
UNITS = st.one_of(st.just(0), st.just(0), st.integers(-30, 30))


@st.composite
def one_case(draw, shapes):
    n, k = draw(st.sampled_from(shapes))
    return {"n": n, "k": k, "m": draw(gen.vec(n, -5, 5)), "P": draw(gen.mat(n, n)), "rP": draw(st.sampled_from([0, 1, n, n, n])),
            "A": draw(gen.mat(n, n)), "Q": draw(gen.mat(n, n)), "rQ": draw(st.integers(0, n)), "xi": draw(gen.vec(n)),
            "c": draw(gen.vec(k)), "H": draw(gen.mat(k, n)), "R": draw(gen.mat(k, k)), "rR": draw(st.sampled_from([0, k, k])),
            "sc": draw(gen.logstep(-10, 6)),
            "u": draw(st.lists(UNITS, min_size=k, max_size=k)), "v": draw(st.lists(UNITS, min_size=n, max_size=n))}


def check_one(c):
    n, k = c["n"], c["k"]
    m, A, xi, d, H = (np.array(c[q]) for q in ("m", "A", "xi", "c", "H"))
    A = A.reshape(n, n)
    H = H.reshape(k, n)
    s = np.sqrt(c["sc"])
    P, cP = psd(c["P"], c["rP"])
    Q, cQ = psd(c["Q"], c["rQ"])
    R, cR = psd(c["R"], c["rR"])
    P, cP, Q, cQ, R, cR = P * s ** 2, cP * s, Q * s ** 2, cQ * s, R * s ** 2, cR * s
    lab = [f"{n}/{k}"]
    # prediction, then one update on the observation H x + d = 0
    scale = np.trace(np.abs(A) @ np.abs(P) @ np.abs(A).T) + np.trace(Q) + 1e-30
    mp, Pp = A @ m + xi, A @ P @ A.T + Q
    z = H @ mp + d
    S = H @ Pp @ H.T + R
    ev = np.linalg.eigvalsh(S)
    if ev[0] < 1e-5 * max(ev[-1], 1e-300) or ev[-1] < 1e-6 * max(c["sc"], scale):
        return {"nontrivial": False, "labels": lab + ["singular innovation"]}
    K = np.linalg.solve(S, H @ Pp).T
    me, Pe = mp - K @ z, Pp - K @ H @ Pp
    cond = max(ev[-1], scale) / ev[0]
    # the same problem with every component of the state and of the observation in its own unit
    u, v = 2.0 ** np.array(c.get("u") or [0] * k), 2.0 ** np.array(c.get("v") or [0] * n)
    uu, vv = np.outer(u, u), np.outer(v, v)
    for sq, p, q, r in ((False, P * vv, Q * vv, R * uu), (True, cP * v[:, None], cQ * v[:, None], cR * u[:, None])):
        for ret in (True, False):
            x = _one(n, k, sq, ret)(m * v, p, A * v[:, None] / v, q, xi * v, H * u[:, None] / v, 2 * d * u, r)
            if ret:
                x, S1, z1 = tup(x, 3, "filter with innovations")
                z1, S1 = np.asarray(z1) / u, arr(S1, (k, k), "innovation covariance") / uu
                close(z1, z, f"innovation (square root {sq})", 1e-11, 1e-11, 1 + np.abs(z) + np.abs(H) @ np.abs(mp))
                close(arr(S1, (k, k), "innovation covariance"), S, f"innovation covariance (square root {sq})", 1e-10, 1e-25, np.trace(S) + scale)
            m1, P1 = tup(x, 2, "filtered state")
            P1 = arr(P1, (n, n), "filtered covariance") / (v[:, None] if sq else vv)
            m1 = arr(m1, (n,), "filtered mean") / v
            close(m1, me, f"filtered mean (square root {sq})", 1e-11 * cond, 1e-11, 1 + np.abs(mp) + np.abs(K) @ np.abs(z))
            close(P1 @ P1.T if sq else P1, Pe, f"filtered covariance (square root {sq})", 1e-11 * cond, 1e-25, scale)
    return {"nontrivial": bool(np.any(Pp)), "labels": lab + [f"rank P={c['rP']}", f"rank Q={c['rQ']}", f"noise={c['rR'] > 0}"]}


# ---- whole filter, affine observations: batch conditioning --------------------------------------

@lru
def _ekf_lin(n, k, N, sqrt, ret):
    @jax.jit
    def f(m0, P0, A, Q, xi, R, H0, H1, d0, d1, ts):
        obs = lambda x, t: (H0 + t * H1) @ x + d0 + jnp.sin(3 * t) * d1
        return ekf((m0, P0), obs, A, Q, xi, R, params=(ts,), lower_sqrt=sqrt, return_UC=ret)
    return f


@st.composite
def lin_case(draw, confs):
    n, k, N = draw(st.sampled_from(confs))
    return {"n": n, "k": k, "N": N, "m": draw(gen.vec(n)), "P": draw(gen.mat(n, n)), "rP": draw(st.sampled_from([0, n, n])),
            "A": draw(gen.mat(n, n, -1, 1)), "Q": draw(gen.mat(n, n)), "xi": draw(gen.vec(n)), "R": draw(gen.mat(k, k)), "rR": draw(st.sampled_from([0, k])),
            "H0": draw(gen.mat(k, n)), "H1": draw(gen.mat(k, n, -0.5, 0.5)), "d0": draw(gen.vec(k)), "d1": draw(gen.vec(k)), "dt": draw(gen.num(0.05, 0.8))}


def check_lin(c):
    n, k, N = c["n"], c["k"], c["N"]
    m0, xi, d0, d1 = (np.array(c[q]) for q in ("m", "xi", "d0", "d1"))
    A, H0, H1 = np.array(c["A"]).reshape(n, n), np.array(c["H0"]).reshape(k, n), np.array(c["H1"]).reshape(k, n)
    P0, cP = psd(c["P"], c["rP"])
    Q, cQ = psd(c["Q"], n)
    Q, cQ = Q + 0.05 * np.eye(n), np.linalg.cholesky(Q + 0.05 * np.eye(n))
    R, cR = psd(c["R"], c["rR"])
    ts = c["dt"] * np.arange(1, N + 1)
    # joint law of (x_N, y_1..y_N) as affine images of independent (x_0, w_1..w_N, r_1..r_N)
    dims = [n] + [n] * N + [k] * N
    off = np.cumsum([0] + dims)
    tot = off[-1]
    C = np.zeros((tot, tot))
    C[:n, :n] = P0
    for i in range(N):
        C[off[1 + i]:off[2 + i], off[1 + i]:off[2 + i]] = Q
        C[off[1 + N + i]:off[2 + N + i], off[1 + N + i]:off[2 + N + i]] = R
    X, mx = np.zeros((n, tot)), m0
    X[:, :n] = np.eye(n)
    Y, my = [], []
    for i in range(N):
        X, mx = A @ X, A @ mx + xi
        X[:, off[1 + i]:off[2 + i]] += np.eye(n)
        H = H0 + ts[i] * H1
        y = H @ X
        y[:, off[1 + N + i]:off[2 + N + i]] += np.eye(k)
        Y.append(y)
        my.append(H @ mx + d0 + np.sin(3 * ts[i]) * d1)
    Yf, mf = np.vstack(Y), np.concatenate(my)
    Sy = Yf @ C @ Yf.T
    ev = np.linalg.eigvalsh(Sy)
    # innovation covariances, one by one
    Sprev = Sy[:-k, :-k]
    if ev[0] < 1e-6 * ev[-1] or ev[0] < 1e-8:
        return {"nontrivial": False, "labels": ["ill conditioned"]}
    cond = ev[-1] / ev[0]
    G = X @ C @ Yf.T
    mean = mx - G @ np.linalg.solve(Sy, mf)
    cov = X @ C @ X.T - G @ np.linalg.solve(Sy, G.T)
    Gl = Sy[-k:, :-k]
    z = my[-1] - (Gl @ np.linalg.solve(Sprev, mf[:-k]) if N > 1 else 0)
    S = Sy[-k:, -k:] - (Gl @ np.linalg.solve(Sprev, Gl.T) if N > 1 else 0)
    big = np.max(np.abs(mx)) + np.linalg.norm(G) * np.linalg.norm(mf) / ev[0] ** 0.5 + 1
    for sq, p, q, r in ((False, P0, Q, R), (True, cP, cQ, cR)):
        for ret in (False, True):
            out = _ekf_lin(n, k, N, sq, ret)(m0, p, A, q, xi, r, H0, H1, d0, d1, ts)
            x = out
            if ret:
                x, S1, z1 = tup(out, 3, "filter with innovations")
                close(z1, z, f"last innovation (square root {sq})", 1e-11 * cond, 1e-10, big)
                close(S1, S, f"last innovation covariance (square root {sq})", 1e-11 * cond, 1e-11, np.trace(Sy))
            m1, P1 = tup(x, 2, "filtered state")
            P1 = arr(P1, (n, n), "filtered covariance")
            close(m1, mean, f"filtered mean against batch conditioning (square root {sq})", 1e-11 * cond, 1e-10, big)
            close(P1 @ P1.T if sq else P1, cov, f"filtered covariance against batch conditioning (square root {sq})", 1e-11 * cond, 1e-11, np.trace(X @ C @ X.T))
    return {"nontrivial": N > 1, "labels": [f"{n}/{k}/{N}", f"noise={c['rR'] > 0}", f"P0={c['rP'] > 0}"]}


# ---- nonlinear observations: linearization at the predicted mean -----------------------------------

@lru
def _ekf_non(n, k, N, sqrt):
    @jax.jit
    def f(m0, P0, A, Q, xi, R, H, U, w, d, ts):
        obs = lambda x, t: H @ x + jnp.sin(U @ x + w * t) + d
        return ekf((m0, P0), obs, A, Q, xi, R, params=(ts,), lower_sqrt=sqrt, return_UC=True)
    return f


@st.composite
def non_case(draw, confs):
    c = draw(lin_case(confs))
    c["U"] = draw(gen.mat(c["k"], c["n"]))
    return c


def check_non(c):
    n, k, N = c["n"], c["k"], c["N"]
    m, xi, d, w = (np.array(c[q]) for q in ("m", "xi", "d0", "d1"))
    A, H0, U = np.array(c["A"]).reshape(n, n), np.array(c["H0"]).reshape(k, n), np.array(c["U"]).reshape(k, n)
    if N > 20:      # long runs of a stable system
        A, U = 0.9 * A / max(1.0, np.linalg.norm(A, 2)), 0.1 * U
    P, cP = psd(c["P"], c["rP"])
    Q = psd(c["Q"], n)[0] + 0.05 * np.eye(n)
    R = psd(c["R"], k)[0] + 0.05 * np.eye(k)
    ts = c["dt"] * np.arange(1, N + 1)
    args = (np.array(c["m"]), A, xi, H0, U, w, d, ts)
    z = S = None
    P00 = P
    for t in ts:
        m, P = A @ m + xi, A @ P @ A.T + Q
        z = H0 @ m + np.sin(U @ m + w * t) + d
        J = H0 + np.cos(U @ m + w * t)[:, None] * U
        S = J @ P @ J.T + R
        K = np.linalg.solve(S, J @ P).T
        m, P = m - K @ z, P - K @ J @ P
        P = (P + P.T) / 2
    for sq, p, q, r in ((False, P00, Q, R), (True, cP, np.linalg.cholesky(Q), np.linalg.cholesky(R))):
        x, S1, z1 = tup(_ekf_non(n, k, N, sq)(args[0], p, A, q, xi, r, H0, U, w, d, ts), 3, "filter")
        m1, P1 = tup(x, 2, "filtered state")
        P1 = arr(P1, (n, n), "filtered covariance")
        close(m1, m, f"filtered mean (square root {sq})", 1e-7, 1e-8, 1 + np.max(np.abs(m)))
        close(P1 @ P1.T if sq else P1, P, f"filtered covariance (square root {sq})", 1e-7, 1e-9, np.trace(P))
        close(z1, z, "last innovation", 1e-7, 1e-8, 1 + np.max(np.abs(z)))
        close(S1, S, "last innovation covariance", 1e-7, 1e-9, np.trace(S))
    return {"nontrivial": True, "labels": [f"{n}/{k}/{N}"]}


SH = [(1, 1), (2, 1), (2, 2), (3, 1), (4, 2), (6, 3), (3, 3), (10, 5)]
LC = [(1, 1, 1), (2, 1, 3), (2, 2, 2), (4, 2, 3), (3, 1, 4), (4, 2, 1), (9, 3, 2)]
NC = [(2, 1, 3), (4, 2, 3), (2, 2, 2), (3, 1, 1), (2, 1, 70), (3, 2, 160), (1, 1, 300), (8, 4, 5)]
SUBS = [
    Sub("steps", lambda i, n: one_case(SH[i::n]), check_one, quick=220, thorough=1500, shards=3,
        rule="one step of the filter, initial and process covariances of every rank, zero or full-rank noise, scales over 16 octaves, components in units of 2^-30 to 2^30, both square-root settings; "
             "non-trivial: well-conditioned innovation and non-zero predicted covariance"),
    Sub("linear", lambda i, n: lin_case(LC[i::n]), check_lin, quick=150, thorough=1200, shards=3,
        rule="whole filter with affine time-dependent observations against batch Gaussian conditioning, 1-4 steps; non-trivial: several well-conditioned steps"),
    Sub("nonlinear", lambda i, n: non_case(NC[i::n]), check_non, quick=150, thorough=1200, shards=2,
        rule="nonlinear time-dependent observations against a numpy extended Kalman filter with analytic Jacobians, 1-300 steps"),
]
