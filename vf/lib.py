"""What the checks share: fields for the code (jax) and for the references
(numpy, with analytic derivatives), and comparisons."""
import functools
import sys

import numpy as np

from vf.core import REPO, Sub, Violation  # noqa: F401

if REPO not in sys.path:
    sys.path.insert(0, REPO)

import jax  # noqa: E402
import jax.numpy as jnp  # noqa: E402

lru = functools.lru_cache(maxsize=None)


def arrs(d):
    """The parameter dict as float arrays (pytree leaf = array)."""
    if isinstance(d, dict):
        return {k: arrs(v) for k, v in d.items()}
    return np.asarray(d, dtype=float)


# ---- fields: the same formula with xp = jax.numpy or numpy -------------------

def F(p, x, t, xp=jnp):
    return p["b"] + p["A"] @ x + p["c"] * xp.sin(p["C"] @ x + p["w"] * t + p["p"]) + p["g"] * x * x + p["e"] * t


def Fn(p):
    p = arrs(p)
    return lambda x, t: F(p, np.asarray(x, float), t, np)


def Fjac(p):
    """numpy Jacobian in x."""
    p = arrs(p)

    def jac(x, t):
        x = np.asarray(x, float)
        co = p["c"] * np.cos(p["C"] @ x + p["w"] * t + p["p"])
        return p["A"] + co[:, None] * p["C"] + np.diag(2 * p["g"] * x)
    return jac


def Fdt(p):
    p = arrs(p)

    def dt(x, t):
        x = np.asarray(x, float)
        return p["c"] * np.cos(p["C"] @ x + p["w"] * t + p["p"]) * p["w"] + p["e"]
    return dt


def S(p, x, t, xp=jnp):
    return p["S0"] + p["S1"] * xp.sin(p["u"] @ x + p["w"] * t + p["p"]) + xp.einsum("k,kij->ij", x, p["V"])


def Sn(p):
    p = arrs(p)
    return lambda x, t: S(p, np.asarray(x, float), t, np)


def Sjac(p):
    """numpy: J[i, j, k] = d S_ij / d x_k."""
    p = arrs(p)

    def jac(x, t):
        x = np.asarray(x, float)
        return (p["S1"][:, :, None] * np.cos(p["u"] @ x + p["w"] * t + p["p"]) * p["u"][None, None, :]
                + np.moveaxis(p["V"], 0, 2))
    return jac


# ---- comparisons --------------------------------------------------------------

def arr(x, shape=None, what="result", finite=True):
    """The output as a numpy array of the expected shape; anything else breaks the property."""
    try:
        a = np.asarray(x)
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{what}: not an array ({type(x).__name__}: {e})")
    if a.dtype == object or not (np.issubdtype(a.dtype, np.number) or a.dtype == bool):
        raise Violation(f"{what}: not numeric ({a.dtype})")
    if shape is not None and tuple(a.shape) != tuple(shape):
        raise Violation(f"{what}: shape {a.shape}, expected {tuple(shape)}")
    if finite and not np.all(np.isfinite(a)):
        raise Violation(f"{what}: not finite: {np.array2string(a.ravel()[:12])}")
    return a


def tup(x, n, what="result"):
    if not isinstance(x, (tuple, list)) or (n is not None and len(x) != n):
        raise Violation(f"{what}: expected {n} values, got {type(x).__name__} of {len(x) if hasattr(x, '__len__') else '?'}")
    return tuple(x)


def close(got, want, what, rtol=1e-8, atol=1e-10, scale=None):
    """|got - want| <= rtol * scale + atol, scale = max|want| unless given (broadcast)."""
    want = np.asarray(want, float)
    got = arr(got, want.shape, what)
    got = got.astype(float)
    sc = np.max(np.abs(want), initial=0.0) if scale is None else scale
    err = np.abs(got - want)
    tol = rtol * np.asarray(sc) + atol
    bad = err > tol
    if np.any(bad):
        i = np.unravel_index(np.argmax(np.where(bad, err / (tol + 1e-300), 0)), err.shape) if err.shape else ()
        raise Violation(f"{what}: {np.array2string(got, precision=9, threshold=40)} expected "
                        f"{np.array2string(want, precision=9, threshold=40)} (error {err[i]:.3g} at {i}, tolerance "
                        f"{np.broadcast_to(tol, err.shape)[i]:.3g})")
    return float(np.max(err, initial=0.0))


def close_cov(got, want, what, rtol=1e-7, atol=1e-12, extra=0.0):
    """Covariances, entry ij relative to sqrt(P_ii P_jj) (+ extra)."""
    want = np.asarray(want, float)
    s = np.sqrt(np.clip(np.diag(want), 0, None)) + extra
    return close(got, want, what, rtol, atol, np.outer(s, s))


def require(cond, message):
    if not cond:
        raise Violation(message)


def key(seed):
    return jnp.array([seed >> 32, seed & 0xffffffff], jnp.uint32)


def is_psd(P, tol=1e-9):
    P = np.asarray(P, float)
    s = np.sqrt(np.clip(np.diag(P), 1e-300, None))
    C = P / np.outer(s, s)
    C = np.where(np.isfinite(C), C, 0.0)
    return np.linalg.eigvalsh((C + C.T) / 2)[0] > -tol * len(P)


# ---- statistics ---------------------------------------------------------------

def mean_cov_test(x, mean, cov, what, z=7.5, extra_mean=0.0, extra_cov=0.0):
    """x: (n, d) samples supposed Gaussian (or with fourth moments not above three
    times Gaussian) with this mean and covariance."""
    x = np.asarray(x, float)
    n, d = x.shape
    arr(x, None, what)
    mean, cov = np.asarray(mean, float), np.asarray(cov, float)
    sd = np.sqrt(np.clip(np.diag(cov), 0, None))
    m = x.mean(0)
    tol = z * sd / np.sqrt(n) + extra_mean + 1e-9 * (np.abs(mean) + sd) + 1e-12 * np.max(sd, initial=0.0)
    bad = np.abs(m - mean) > tol
    if bad.any():
        raise Violation(f"{what}: mean {m} expected {mean} (tolerance {tol}, {n} samples)")
    xc = x - mean
    c = xc.T @ xc / n
    var = np.sqrt((np.outer(sd ** 2, sd ** 2) + cov ** 2) / n)
    tol = z * var + extra_cov + 1e-8 * np.outer(sd, sd) + 1e-12 * np.max(sd ** 2, initial=0.0) + 1e-18
    bad = np.abs(c - cov) > tol
    if bad.any():
        raise Violation(f"{what}: covariance {c.tolist()} expected {cov.tolist()} (tolerance {tol.tolist()}, {n} samples)")


def normality_test(x, what, z=7.5):
    """x: (n,) supposed standard normal: skewness, kurtosis and tails."""
    x = np.asarray(x, float)
    n = len(x)
    sk, ku = (x ** 3).mean(), (x ** 4).mean()
    if abs(sk) > z * np.sqrt(15 / n) or abs(ku - 3) > z * np.sqrt(96 / n):
        raise Violation(f"{what}: not normal (third moment {sk:.4f}, fourth {ku:.4f}, {n} samples)")
