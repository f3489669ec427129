"""C02: the coarse parabola of a fine path has its increment and its time integral."""
import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.lib import Sub, arr, close, jax, jnp, key, lru, tup
from vf.props.common import family

META = {"assumptions": [
    "fine coefficients are normalised as their consumers use them: the Brownian family returns standard normal "
    "increments (to be scaled by sqrt(dt/N)), the fine-parabola family increments and space-time areas of sub-steps"]}

NS = {0: [1, 2, 3, 4, 5], 1: [7, 8, 10, 16, 33], 2: [50, 64, 100, 257, 1000, 2500, 6000]}


@lru
def _run(fam, d, N):
    sam, ev = family(fam, d, N)

    @jax.jit
    def f(seed, dt, us):
        co = sam(seed, dt)
        return co, jax.vmap(lambda u: ev(u * dt, dt, *co))(us)
    return f


@st.composite
def case(draw, fam, ns):
    return {"fam": fam, "d": draw(st.sampled_from([1, 2, 3, 3, 6, 9])), "N": draw(st.sampled_from(ns)),
            "seed": draw(gen.seeds), "dt": draw(gen.logstep(-18, 7))}


def merge(fam, co, dt, N):
    """Increment and time integral of the fine path, by composing its pieces in order."""
    fdt = dt / N
    if fam == "brownian":
        w = np.asarray(co[2]) * np.sqrt(fdt)      # increments of the fine path
        h = np.zeros_like(w)                       # piecewise linear
    else:
        w, h = np.asarray(co[2]), np.asarray(co[3])
    pos, integ = np.zeros(w.shape[1]), np.zeros(w.shape[1])
    for i in range(N):
        integ = integ + fdt * (pos + w[i] / 2 + h[i])
        pos = pos + w[i]
    return pos, integ


def check(c):
    fam, d, N, dt = c["fam"], c["d"], c["N"], c["dt"]
    us = np.linspace(0, 1, 9)
    co, vals = _run(fam, d, N)(key(c["seed"]), dt, us)
    co = tup(co, 3 if fam == "brownian" else 4, "coefficients")
    a, b = arr(co[0], (d,), "increment"), arr(co[1], (d,), "second coefficient")
    for e in co[2:]:
        arr(e, (N, d), "fine coefficients")
    pos, integ = merge(fam, co, dt, N)
    s = np.sqrt(dt)
    close(a, pos, "increment of the parabola against its fine path", 0, 1e-11 * s)
    close(dt * (a / 2 + b / np.sqrt(6)), integ, "time integral of the parabola against its fine path", 0, 1e-11 * s * dt)
    vals = arr(vals, (9, d), "parabola")
    simp = (vals[0::2][:-1] + 4 * vals[1::2] + vals[2::2]).sum(0) / 6 / 4 * dt
    close(simp, integ, "time integral of the evaluated parabola", 0, 1e-11 * s * dt)
    close(vals[-1], pos, "evaluated parabola at the end", 0, 1e-11 * s)
    return {"nontrivial": N > 1, "labels": [f"N={N}", f"d={d}"]}


def _strat(fam):
    return lambda i, n: case(fam, sorted(sum([NS[j] for j in range(3) if j % n == i], [])))


SUBS = [Sub(f, _strat(f), check, quick=70, thorough=2000, shards=3, thorough_shards=3,
            rule="keys, steps over 25 octaves, fine paths of 1 to 6000 pieces, dimensions 1-9; non-trivial: more than one piece")
        for f in ("brownian", "fine")]
