"""C21: Euler-Maruyama, given increments or keyed, is the Euler-Maruyama recursion on its grid."""
import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.lib import (F, Fn, S, Sn, Sub, arr, arrs, close, jax, jnp, key, lru, mean_cov_test, normality_test,
                    require, tup)

from vf.props.common import stepwise
from vf.props.longpaths import long_sub

from bayesian_sde_solver.sde_solvers import euler_maruyama, euler_maruyama_pathwise

META = {"assumptions": ["the keyed solver's increments are read from extra coordinates of the same run whose diffusion is the identity"]}


def recursion(got, f, s, x0, incs, h):
    return stepwise(got, x0, lambda k, x: x + h * f(x, k * h) + s(x, k * h) @ incs[k])


@lru
def _path(N, standard, kind):
    run = lambda w, x, f, s, h: euler_maruyama_pathwise(w, x, lambda x, t: F(f, x, t), lambda x, t: S(s, x, t), h, N, **({"standard": True} if standard else {}))     # scaled increments by default
    return jax.jit(run) if kind == "jit" else run


@st.composite
def path_case(draw, confs):
    d, m, N, kind = draw(st.sampled_from(confs))
    standard = draw(st.booleans())
    h = draw(gen.logstep(-12, -1 if N <= 40 else -3))
    short = N <= 40
    return gen.spread(draw, {"d": d, "m": m, "N": N, "kind": kind, "standard": standard, "h": h, "f": draw(gen.field(d, 0.8) if short else gen.stable_field(d)),
            "s": draw(gen.diffusion(d, m, 0.8) if short else gen.bounded_diffusion(d, m)), "x0": draw(gen.vec(d)),
            "incs": draw(gen.mat(N, m, -2, 2)) if short else draw(gen.seeds)}, "x0")


def check_path(c):
    N, d, m, h = c["N"], c["d"], c["m"], c["h"]
    unit = np.array(c["incs"]) if N <= 40 else np.random.default_rng(c["incs"]).normal(size=(N, m))   # N(0, I)-like
    given = unit if c["standard"] else unit * np.sqrt(h)
    arg = np.array(given)
    f, s = arrs(c["f"]), arrs(c["s"])
    r = tup(_path(N, c["standard"], c["kind"])(arg, np.array(c["x0"]), f, s, h), 2)
    require(np.array_equal(arg, given), "the increments given were changed in place")
    close(r[0], np.arange(N + 1) * h, "time grid", 1e-12)
    got = arr(r[1], (N + 1, d), "trajectory", finite=False)
    want, n = recursion(got, Fn(c["f"]), Sn(c["s"]), c["x0"], unit * np.sqrt(h), h)
    close(got[:n], want, "trajectory, step by step", 1e-10, scale=1 + np.max(np.abs(want)))
    return {"nontrivial": n > 2, "labels": [f"{d}x{m}", f"N={N}", f"standard={c['standard']}", c["kind"]]}


@lru
def _keyed(d, m, N, B):
    def one(k, x, f, s, h):
        drift = lambda x, t: jnp.concatenate([F(f, x[:d], t), jnp.zeros(m)])
        sig = lambda x, t: jnp.concatenate([S(s, x[:d], t), jnp.eye(m)])
        return euler_maruyama(k, jnp.concatenate([x, jnp.zeros(m)]), drift, sig, h, N)
    if B:
        return jax.jit(lambda k, x, f, s, h: jax.vmap(lambda q: one(q, x, f, s, h)[1])(jax.random.split(k, B)))
    return jax.jit(one)


@st.composite
def keyed_case(draw, confs):
    d, m, N = draw(st.sampled_from(confs))
    short = N <= 40
    return gen.spread(draw, {"d": d, "m": m, "N": N, "h": draw(gen.logstep(-12, -1 if short else -3)), "f": draw(gen.field(d, 0.8) if short else gen.stable_field(d)),
            "s": draw(gen.diffusion(d, m, 0.8) if short else gen.bounded_diffusion(d, m)),
            "x0": draw(gen.vec(d)), "seed": draw(gen.seeds)}, "x0")


def check_keyed(c):
    d, m, N, h = c["d"], c["m"], c["N"], c["h"]
    r = tup(_keyed(d, m, N, 0)(key(c["seed"]), np.array(c["x0"]), arrs(c["f"]), arrs(c["s"]), h), 2)
    close(r[0], np.arange(N + 1) * h, "time grid", 1e-12)
    x = arr(r[1], (N + 1, d + m), "trajectory", finite=False)
    incs = np.diff(x[:, d:], axis=0)
    want, n = recursion(x[:, :d], Fn(c["f"]), Sn(c["s"]), c["x0"], incs, h)
    close(x[:n, :d], want, "trajectory for its own increments, step by step", 1e-10, scale=1 + np.max(np.abs(want)) + np.max(np.abs(x[:, d:])))
    u = incs / np.sqrt(h)
    require(len(np.unique(np.round(u, 12))) == u.size, f"increments are repeated: {u}")
    require(np.max(np.abs(u)) < 9, f"increments over sqrt(h): {u}")
    return {"nontrivial": N > 1, "labels": [f"{d}x{m}", f"N={N}"]}


B = 20000


def check_law(c):
    d, m, N, h = c["d"], c["m"], c["N"], c["h"]
    x = arr(_keyed(d, m, N, B)(key(c["seed"]), np.array(c["x0"]), arrs(c["f"]), arrs(c["s"]), h), (B, N + 1, d + m), "trajectories")
    u = np.diff(x[:, :, d:], axis=1).reshape(B, N * m) / np.sqrt(h)
    mean_cov_test(u, np.zeros(N * m), np.eye(N * m), "increments over sqrt(h)")
    for j in range(N * m):
        normality_test(u[:, j], f"increment {j} over sqrt(h)")
    return {"nontrivial": N * m > 1, "labels": [f"{d}x{m}", f"N={N}"]}


PC = [(d, m, N, "jit") for d, m in ((1, 1), (2, 2), (3, 3), (2, 1), (1, 3), (3, 2)) for N in (1, 2, 7)] + [(2, 2, 5, "eager"), (3, 1, 4, "eager"), (2, 3, 40, "jit"), (5, 4, 3, "jit"), (9, 3, 2, "jit"), (2, 10, 2, "jit"), (1, 2, 300, "jit"), (2, 2, 1200, "jit")]
KC = [(d, m, N) for d, m in ((1, 1), (2, 2), (2, 1), (1, 3), (3, 2)) for N in (1, 2, 9)] + [(5, 4, 3), (1, 1, 300), (2, 2, 1300)]
LC = [(1, 1, 3), (2, 2, 3), (1, 3, 2), (2, 1, 4)]
SUBS = [
    Sub("pathwise", lambda i, n: path_case(PC[i::n]), check_path, quick=150, thorough=2500, shards=3, thorough_shards=8,
        rule="the trajectory against the recursion in numpy, d x m up to 5 x 4, 1-1200 steps, both meanings of the increments, eager and jitted; non-trivial: several steps"),
    Sub("keyed", lambda i, n: keyed_case(KC[i::n]), check_keyed, quick=80, thorough=1500, shards=2, thorough_shards=6,
        rule="the recursion on the increments the run itself drew; non-trivial: several steps"),
    Sub("law", lambda i, n: keyed_case(LC[i::n]), check_law, quick=8, thorough=100, shards=1, thorough_shards=4,
        rule=f"{B} trajectories per case: increments independent N(0, h) over time and components; non-trivial: more than one increment"),
    long_sub(("em",), 10),
]
