"""C09: the Euler ODE solver is the explicit Euler recursion on the grid k h."""
import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.lib import F, Fn, Sub, arr, arrs, close, jax, jnp, lru
from vf.props.common import rk4

from bayesian_sde_solver.ode_solvers import euler

META = {"assumptions": ["solutions beyond 1e6 in size are not compared (short horizons make them rare)"]}
NS = [1, 2, 3, 5, 8, 13, 40, 200, 1000]


@lru
def _run(N):
    return jax.jit(lambda p, x, h: euler(x, lambda z, t: F(p, z, t), h, N))


@st.composite
def case(draw, ns):
    d = draw(st.sampled_from((1, 2, 3, 4, 5, 8, 12)))
    N = draw(st.sampled_from(ns))
    return gen.spread(draw, {"d": d, "N": N, "f": draw(gen.field(d) if N <= 40 else gen.stable_field(d)), "x": draw(gen.vec(d)), "h": draw(gen.logstep(-12, -1 if N <= 40 else -3))}, "x")


def ref(fn, x, h, N, t0=0.0):
    for k in range(N):
        x = x + h * fn(x, t0 + k * h)
    return x


def check(c):
    N, h, d = c["N"], c["h"], c["d"]
    f, x = arrs(c["f"]), np.array(c["x"])
    with np.errstate(over="ignore", invalid="ignore"):
        want = ref(Fn(f), x, h, N)
    if not np.all(np.isfinite(want)) or np.max(np.abs(want)) > 1e6:
        return {"nontrivial": False, "labels": ["blown up"]}
    close(_run(N)(f, x, h), want, "Euler", 1e-9, 0, 1 + np.max(np.abs(want)))
    return {"nontrivial": N > 1, "labels": [f"N={N}", f"d={d}"]}


@st.composite
def signed_case(draw, ns):
    """Integration forwards or backwards in time."""
    c = draw(case(ns))
    if draw(st.integers(0, 3)) == 0:
        c["h"] = -c["h"]
    return c


@st.composite
def split_case(draw, ns):
    c = draw(case([n for n in ns if n > 1]))
    c["k"] = draw(st.integers(1, c["N"] - 1))
    return c


@lru
def _shift(N):
    return jax.jit(lambda p, x, h, t0: euler(x, lambda z, t: F(p, z, t + t0), h, N))


def check_split(c):
    """N steps = k steps followed by N - k steps of the field shifted in time."""
    N, k, h = c["N"], c["k"], c["h"]
    f, x = arrs(c["f"]), np.array(c["x"])
    full = np.asarray(_shift(N)(f, x, h, 0.0))
    if not np.all(np.isfinite(full)) or np.max(np.abs(full)) > 1e6:
        return {"nontrivial": False}
    mid = arr(_shift(k)(f, x, h, 0.0), (c["d"],), "Euler")
    end = _shift(N - k)(f, mid, h, k * h)
    close(end, full, "two halves against the whole", 1e-8, 1e-9, 1 + np.max(np.abs(full)))
    return {"nontrivial": True}


def check_conv(c):
    """Error against the solution is at most C h, and is divided by about 4 when h is."""
    f, x = arrs(c["f"]), np.array(c["x"])
    T = 0.5
    ex = rk4(Fn(f), x, T, 200)
    if not np.all(np.isfinite(ex)) or np.max(np.abs(ex)) > 50:
        return {"nontrivial": False, "labels": ["large"]}
    e1, e2 = (np.max(np.abs(arr(_run(n)(f, x, T / n), ex.shape, "Euler") - ex)) for n in (40, 160))
    lim = 0.30 * e1 + 2e-3 * T / 160 * (1 + np.max(np.abs(ex)))
    if e2 > max(lim, 1e-9) and e1 < 0.2:
        from vf.lib import Violation
        raise Violation(f"error {e1:.3g} with 40 steps, {e2:.3g} with 160")
    return {"nontrivial": bool(e1 > 1e-6), "labels": ["converging"]}


@st.composite
def conv_case(draw):
    d = draw(st.integers(1, 3))
    return {"d": d, "f": draw(gen.field(d)), "x": draw(gen.vec(d, -1, 1))}


SUBS = [
    Sub("recursion", lambda i, n: signed_case(NS[i::n]), check, quick=150, thorough=3000, shards=2, thorough_shards=3,
        rule="smooth nonlinear time-dependent fields in dimension 1-5, 1-1000 steps of 2^-12..2^-1, some backwards in time; non-trivial: several steps"),
    Sub("splitting", lambda i, n: split_case(NS[:5]), check_split, quick=80, thorough=1500, shards=1,
        rule="a run cut at every possible step with the field shifted in time"),
    Sub("convergence", lambda i, n: conv_case(), check_conv, quick=120, thorough=2500, shards=1,
        rule="error against a Runge-Kutta reference over [0, 1/2] with 40 and 160 steps; non-trivial: error above 1e-6"),
]
