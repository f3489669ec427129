"""C13: transition of a linear time-invariant prior; padding; independent factors."""
import numpy as np
import scipy.linalg as sl
from hypothesis import strategies as st

from vf import gen
from vf.lib import Sub, arr, close, jax, jnp, lru, require, tup

from bayesian_sde_solver.ode_solvers.probnum import get_independently_factorized_prior, pad_prior, transition_function

META = {"assumptions": ["the integrals are trapezoid rules on n_linspace points (default 10000): compared at the accuracy of that rule"]}


@lru
def _run(n, r, npts):
    if npts is None:
        return jax.jit(lambda F, u, L, h: transition_function(F, u, L, h))
    return jax.jit(lambda F, u, L, h: transition_function(F, u, L, h, n_linspace=npts))


def exact(F, u, L, h):
    n = len(F)
    # expm of [[F, u], [0, 0]] gives int exp(F s) u ds
    E = sl.expm(np.block([[F, u[:, None]], [np.zeros((1, n + 1))]]) * h)
    M = sl.expm(np.block([[-F, L @ L.T], [np.zeros((n, n)), F.T]]) * h)
    A = E[:n, :n]
    return E[:n, n], A @ M[:n, n:], A


@st.composite
def case(draw, shapes):
    n, r, npts = draw(st.sampled_from(shapes))
    kind = draw(st.sampled_from(("general",) * 4 + ("singular", "near", "near", "chain", "tiny", "defective")))
    eps = 2.0 ** -draw(st.integers(6, 50))
    F = np.array(draw(gen.mat(n, n)))
    G = np.array(draw(gen.mat(n, n)))
    if kind == "singular":          # a state that nothing acts on
        F[-1] = 0.0
    elif kind == "near":            # invertible, barely
        F[-1] = eps * G[-1]
        if draw(st.booleans()):
            F = np.triu(F, 1) + eps * np.diag(np.diag(G))
    elif kind == "chain":           # integrators, with a weak mean reversion
        F = np.eye(n, k=1) - eps * np.diag(np.r_[np.zeros(n - 1), 1.0])
    elif kind == "tiny":
        F = eps * F
    elif kind == "defective":       # (nearly) equal eigenvalues, not diagonalisable
        F = np.triu(F, 1) + F[0, 0] * np.eye(n) + eps * np.diag(np.diag(G)) * draw(st.integers(0, 1))
    return {"n": n, "r": r, "npts": npts, "kind": kind, "F": F.tolist(), "u": draw(gen.vec(n)), "L": draw(gen.mat(n, r)),
            "h": draw(gen.logstep(-10, 0))}


def check(c):
    n, h = c["n"], c["h"]
    F, u, L = np.array(c["F"]), np.array(c["u"]), np.array(c["L"])
    xi, Q, A = tup(_run(n, c["r"], c["npts"])(F, u, L, h), 3, "transition")
    xe, Qe, Ae = exact(F, u, L, h)
    g = np.exp(np.linalg.norm(F, 2) * h)
    N = c["npts"] or 10000
    x = np.linalg.norm(F, 2) * h
    trap = 4 * (x / (N - 1)) ** 2 + 1e-9        # second derivative of the integrand, relative
    close(A, Ae, "matrix", 0, 1e-9 * g)
    close(xi, xe, "mean increment", 0, trap * h * g * np.linalg.norm(u) + 1e-14)
    close(Q, Qe, "covariance", 0, trap * h * g ** 2 * np.linalg.norm(L) ** 2 + 1e-14 * h)
    require(np.allclose(Q, np.asarray(Q).T, atol=1e-12 * h * g ** 2 * (1 + np.linalg.norm(L) ** 2)), "covariance is not symmetric")
    return {"nontrivial": bool(np.any(F) and np.any(u) and np.any(L)), "labels": [f"n={n}", f"r={c['r']}", f"points={N}", c.get("kind", "general")]}


@st.composite
def pad_case(draw):
    n = draw(st.integers(1, 4))
    ts = [{"n": k, "xi": draw(gen.vec(k)), "Q": draw(gen.mat(k, k)), "A": draw(gen.mat(k, k))}
          for k in [n] + [draw(st.integers(1, 3)) for _ in range(draw(st.sampled_from((0, 1, 1, 2, 2, 3, 6))))]]
    return {"ts": ts, "q": n + draw(st.integers(0, 3))}


def check_pad(c):
    """The padded transition acts on the first states as before and leaves the others at zero; the
    factorized transition is the direct product."""
    ts = [tuple(np.array(t[k]) for k in ("xi", "Q", "A")) for t in c["ts"]]
    xi, Q, A = ts[0]
    n, q = len(xi), c["q"]
    px, pQ, pA = tup(pad_prior(ts[0], q), 3, "padded transition")
    for got, want, w in ((px, np.r_[xi, np.zeros(q + 1 - n)], "mean increment"), (pQ, np.pad(Q, ((0, q + 1 - n),) * 2), "covariance"),
                         (pA, np.pad(A, ((0, q + 1 - n),) * 2), "matrix")):
        close(got, want, "padded " + w, 0, 0)
    fx, fQ, fA = tup(get_independently_factorized_prior(tuple(ts)), 3, "factorized transition")
    close(fx, np.concatenate([t[0] for t in ts]), "factorized mean increment", 0, 0)
    close(fQ, sl.block_diag(*[t[1] for t in ts]), "factorized covariance", 0, 0)
    close(fA, sl.block_diag(*[t[2] for t in ts]), "factorized matrix", 0, 0)
    # padded factors
    m = max(len(t[0]) for t in ts)
    pads = [t if len(t[0]) == m else tuple(np.asarray(v) for v in pad_prior(t, m - 1)) for t in ts]
    _, gQ, gA = tup(get_independently_factorized_prior(pads), 3, "factorized transition")
    close(gQ, sl.block_diag(*[np.pad(t[1], ((0, m - len(t[0])),) * 2) for t in ts]), "covariance of padded factors", 0, 0)
    close(gA, sl.block_diag(*[np.pad(t[2], ((0, m - len(t[0])),) * 2) for t in ts]), "matrix of padded factors", 0, 0)
    return {"nontrivial": len(ts) > 1 and q >= n, "labels": [f"factors={len(ts)}", f"pad={q + 1 - n}"]}


@st.composite
def comp_case(draw):
    n = draw(st.integers(1, 3))
    return {"n": n, "F": draw(gen.mat(n, n, -1, 1)), "u": draw(gen.vec(n)), "L": draw(gen.mat(n, 1)), "h": draw(gen.logstep(-8, -1)), "k": draw(gen.logstep(-8, -1))}


def check_comp(c):
    """Chapman-Kolmogorov: a step of h and one of k are a step of h + k."""
    F, u, L, n = np.array(c["F"]), np.array(c["u"]), np.array(c["L"]), c["n"]
    f = _run(n, 1, 400)
    (x1, Q1, A1), (x2, Q2, A2), (x3, Q3, A3) = (tuple(arr(v, None, "transition") for v in tup(f(F, u, L, s), 3)) for s in (c["h"], c["k"], c["h"] + c["k"]))
    T = c["h"] + c["k"]
    g = np.exp(2 * np.linalg.norm(F, 2) * T)
    tol = (1e-4 * (np.linalg.norm(F, 2) * T) ** 2 + 1e-9) * g
    close(A3, A2 @ A1, "matrix over two steps", 0, 1e-9 * g)
    close(x3, A2 @ x1 + x2, "mean increment over two steps", 0, tol * T * np.linalg.norm(u) + 1e-14)
    close(Q3, A2 @ Q1 @ A2.T + Q2, "covariance over two steps", 0, tol * T * np.linalg.norm(L) ** 2 + 1e-14)
    return {"nontrivial": bool(np.any(F) and np.any(u) and np.any(L))}


SH = [(1, 1, None), (2, 1, None), (3, 2, None), (2, 1, 50), (3, 1, 200), (4, 3, 30), (2, 2, 11), (6, 2, 40), (5, 5, 90)]
SUBS = [
    Sub("transition", lambda i, n: case(SH[i::n]), check, quick=40, thorough=800, shards=3, thorough_shards=4, weight=2,
        rule="general F (1-6 states; also singular, nearly singular, tiny, nilpotent and defective ones), u and L with 1-3 columns, steps over 10 octaves, default and explicit quadrature; against block matrix exponentials; "
             "non-trivial: F, u and L non-zero"),
    Sub("composition", lambda i, n: comp_case(), check_comp, quick=60, thorough=1000, shards=1, rule="two successive steps against one; non-trivial: F, u and L non-zero"),
    Sub("pad_factor", lambda i, n: pad_case(), check_pad, quick=70, thorough=1500, shards=1,
        rule="padding by 1-4 states and products of 1-3 transitions of different orders, entry by entry; non-trivial: several factors"),
]
