"""Pieces shared by several properties."""
import numpy as np

from vf.lib import REPO, jax, jnp, lru  # noqa: F401

import bayesian_sde_solver.foster_polynomial as fp

FAMS = ["approx", "brownian", "fine"]


def family(name, d, N):
    """(sampler, evaluator) of one of the three families of the package."""
    if name == "approx":
        return fp.get_approx(dim=d)
    if name == "brownian":
        return fp.get_approx_and_brownian(dim=d, N=N)
    return fp.get_approx_fine(dim=d, N=N)


def n_extra(name):
    """How many fine-path coefficients follow the two of the parabola."""
    return {"approx": 0, "brownian": 1, "fine": 2}[name]


def rk4(vf, x, T, M, t0=0.0, xp=np):
    """Classical Runge-Kutta on [t0, t0 + T], M steps (numpy)."""
    h = T / M
    for i in range(M):
        t = t0 + i * h
        k1 = vf(x, t)
        k2 = vf(x + h / 2 * k1, t + h / 2)
        k3 = vf(x + h / 2 * k2, t + h / 2)
        k4 = vf(x + h * k3, t + h)
        x = x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    return x


def rk4_jax(vf, x, T, M):
    h = T / M

    def body(x, i):
        t = i * h
        k1 = vf(x, t)
        k2 = vf(x + h / 2 * k1, t + h / 2)
        k3 = vf(x + h / 2 * k2, t + h / 2)
        k4 = vf(x + h * k3, t + h)
        return x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4), None
    return jax.lax.scan(body, x, jnp.arange(M) * 1.0)[0]


def calm(want):
    """Number of leading grid points before the recursion explodes (rounding is then amplified without bound)."""
    bad = ~(np.max(np.abs(want), axis=1) < 1e3)
    return int(np.argmax(bad)) if bad.any() else len(want)


@np.errstate(all="ignore")
def stepwise(got, x0, step, bound=1e3):
    """The recursion taken one step at a time from the states the code returned, so that rounding is not amplified by
    the dynamics: want[0] = x0, want[k + 1] = step(k, got[k]).  Returns (want, n): n is the number of leading grid points
    worth comparing, the ones up to the first explosion."""
    got = np.asarray(got, float)
    want = [np.asarray(x0, float)]
    for k in range(len(got) - 1):
        if not np.max(np.abs(got[k])) < bound:
            break
        w = step(k, got[k])
        if not np.max(np.abs(w)) < bound:
            break
        want.append(w)
    return np.array(want), len(want)


def along_parabolas(f, s, x0, a, b, delta, n=8):
    """The random ODE x' = F(x, t) + S(x, t) (slope of the step's parabola), n Runge-Kutta steps per step (jax); with the initial value."""
    from vf.lib import F, S

    def body(x, inp):
        ak, bk, t0 = inp
        vf = lambda z, t: F(f, z, t + t0) + S(s, z, t + t0) @ ((ak + jnp.sqrt(6) * bk * (1 - 2 * t / delta)) / delta)
        x = rk4_jax(vf, x, delta, n)
        return x, x
    return jnp.concatenate([x0[None], jax.lax.scan(body, x0, (a, b, delta * jnp.arange(a.shape[0])))[1]])


def order_limit(f, s, size, T):
    """Scale of the error constant of a first-order method from the Lipschitz constant of the drift and the sizes."""
    g = np.linalg.norm(f["A"], 2) + np.linalg.norm(np.abs(f["c"])[:, None] * np.abs(f["C"]), 2)
    size = size + np.linalg.norm(s["S0"]) + np.linalg.norm(s["S1"])
    return 1.5 * T * np.exp(g * T) * (1 + g) * (1 + size)


def judge_order(e, lim, what):
    """Root-mean-square errors with 8 and 32 steps: order one divides by four; order 1/2, or a bias, leaves at least a half."""
    from vf.lib import Violation
    if e[1] > 0.42 * e[0] + 1e-3 * lim:
        raise Violation(f"root-mean-square pathwise error {e[0]:.4g} with 8 steps, {e[1]:.4g} with 32 ({what})")
    if e[1] > lim / 32:
        raise Violation(f"root-mean-square pathwise error {e[1]:.4g} with 32 steps, expected below {lim / 32:.4g} ({what})")
