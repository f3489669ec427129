"""C31: shapes that a method does not support are refused, never answered."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, ref
from vf.lib import F, S, Sub, Violation, arr, arrs, jax, jnp, key

from bayesian_sde_solver.ode_solvers import ekf0, ekf0_2, ekf1, ekf1_2
from bayesian_sde_solver.ode_solvers.probnum import pad_prior
from bayesian_sde_solver.sde_solvers import diag_15_scheme
from bayesian_sde_solver.ssm_parabola import ekf0_marginal_parabola, ekf1_marginal_parabola, ssm_parabola_ode_solver

META = {"assumptions": ["any exception counts as a refusal; each refused call is accompanied by the accepted one that differs from it only in the shape"]}

SOL = {"ekf0": ekf0, "ekf1": ekf1, "ekf0_2": ekf0_2, "ekf1_2": ekf1_2, "ssm0": ekf0_marginal_parabola, "ssm1": ekf1_marginal_parabola}


def refused(call, what, jit):
    try:
        out = jax.jit(call)() if jit else call()
        out = [np.asarray(v) for v in jax.tree_util.tree_leaves(out)]
    except Exception:  # noqa: BLE001
        return
    raise Violation(f"{what}: accepted, returned {[v.shape for v in out]}, {out[0].ravel()[:4].tolist()}")


def accepted(call, what, jit):
    out = jax.jit(call)() if jit else call()
    for v in jax.tree_util.tree_leaves(out):
        arr(v, what=what)


# ---- observation noise of the wrong shape ----------------------------------------------------------

@st.composite
def noise_case(draw, sols):
    sol = draw(st.sampled_from(sols))
    d = draw(st.sampled_from([1, 2, 2, 3, 4]))
    shapes = [(1, 1), (d,), (1,), (), (d, 1), (1, d), (d + 1, d + 1), (2 * d, 2 * d), (d, d + 1), (1, d, d), (d, d, 1)]
    return {"sol": sol, "d": d, "shape": list(draw(st.sampled_from([s for s in shapes if s != (d, d)]))), "r": draw(gen.num(0.0, 2.0)), "f": draw(gen.field(d)),
            "s": draw(gen.diffusion(d, d)), "x": draw(gen.vec(d)), "h": draw(gen.logstep(-6, -1)), "N": draw(st.integers(1, 4)), "sqrt": draw(st.booleans()),
            "given": draw(st.booleans()), "key": draw(st.booleans()), "jit": draw(st.booleans())}


def check_noise(c):
    sol, d, h, N = c["sol"], c["d"], c["h"], c["N"]
    p, s, x = arrs(c["f"]), arrs(c["s"]), jnp.asarray(c["x"])
    k = key(1) if c["key"] else None
    vf = lambda z, t: F(p, z, t)

    def run(R):
        one = ref.ibm_prior(1, h, 1 if sol.startswith("ssm") else d)
        kw = dict(sqrt=c["sqrt"], noise=R, prior=tuple(jnp.asarray(v) for v in (one[0], one[1], one[2])) if c["given"] else None)
        if sol.startswith("ssm"):
            return SOL[sol](k, x, h * N, vf, lambda z, t: S(s, z, t), h, N, **kw)
        if sol.endswith("2"):
            return SOL[sol](k, (x, x, jnp.eye(d) * 0.1), vf, h, N, **kw)
        return SOL[sol](k, x, vf, h, N, **kw)
    sh = tuple(c["shape"])
    accepted(lambda: run(jnp.eye(d) * c["r"]), f"{sol} with noise of shape {(d, d)}", c["jit"])
    bad = jnp.eye(*sh) * c["r"] if len(sh) == 2 else jnp.full(sh, c["r"])
    refused(lambda: run(bad), f"{sol} in dimension {d} with observation noise of shape {sh}", c["jit"])
    return {"nontrivial": c["r"] > 0, "labels": [sol, f"{d}:{sh}"]}


# ---- diffusions that are not square ------------------------------------------------------------------

@st.composite
def square_case(draw, sols):
    sol = draw(st.sampled_from(sols))
    d = draw(st.sampled_from([1, 2, 2, 3, 4]))
    m = draw(st.sampled_from([m for m in (1, 2, 3, 4, 5) if m != d]))
    return {"sol": sol, "d": d, "m": m, "f": draw(gen.field(d)), "s": draw(gen.diffusion(d, m)), "q": draw(gen.diffusion(d, d)), "x": draw(gen.vec(d)),
            "h": draw(gen.logstep(-6, -2)), "N": draw(st.integers(1, 4)), "sqrt": draw(st.booleans()), "key": draw(st.booleans()), "jit": draw(st.booleans())}


def check_square(c):
    sol, d, m, h, N = c["sol"], c["d"], c["m"], c["h"], c["N"]
    p, x = arrs(c["f"]), jnp.asarray(c["x"])
    vf = lambda z, t: F(p, z, t)

    def run(s):
        if sol == "diag15":
            return diag_15_scheme(key(1), x * 0.1, lambda z: 0.1 * F(p, z, 0.0), lambda z: S(s, z, 0.0), h, N)[1]
        if sol.startswith("path"):
            step = lambda key, init, drift, diffusion, T: SOL["ssm" + sol[-1]](key, init, T, drift, diffusion, T / 2, 2, sqrt=c["sqrt"])
            return ssm_parabola_ode_solver(key(1), vf, lambda z, t: S(s, z, t), x, h, N, step)
        return SOL[sol](key(1) if c["key"] else None, x, h * N, vf, lambda z, t: S(s, z, t), h, N, sqrt=c["sqrt"])
    refused(lambda: run(arrs(c["s"])), f"{sol} with a diffusion of shape {(d, m)}", c["jit"])
    if sol != "diag15":
        accepted(lambda: run(arrs(c["q"])), f"{sol} with a square diffusion", c["jit"])
    return {"labels": [sol, f"{d}x{m}"]}


# ---- padding to an order that is not higher -----------------------------------------------------------

@st.composite
def pad_case(draw):
    n = draw(st.integers(1, 5))
    return {"n": n, "q": draw(st.integers(0, n - 1)), "xi": draw(gen.vec(n)), "Q": draw(gen.mat(n, n)), "A": draw(gen.mat(n, n)), "more": draw(st.integers(1, 3))}


def check_pad(c):
    pr = tuple(jnp.asarray(c[k]) for k in ("xi", "Q", "A"))
    accepted(lambda: pad_prior(pr, c["n"] - 1 + c["more"]), "padding", False)
    refused(lambda: pad_prior(pr, c["q"]), f"padding of {c['n']} states to order {c['q']}", False)
    return {"labels": [f"{c['n']}->{c['q'] + 1}"]}


SUBS = [
    Sub("noise", lambda i, n: noise_case(sorted(SOL)[i::n]), check_noise, quick=27, thorough=500, shards=3, thorough_shards=6,
        rule="six filtering solvers with an observation noise of eleven wrong shapes (scalars and shapes that broadcast included), compiled or not; non-trivial: non-zero noise"),
    Sub("square", lambda i, n: square_case(["ssm0", "ssm1", "diag15", "path0", "path1"][i::n]), check_square, quick=15, thorough=400, shards=2, thorough_shards=5,
        rule="methods for square diffusions with rectangular ones, fewer or more columns than rows; every case counts"),
    Sub("pad", lambda i, n: pad_case(), check_pad, quick=60, thorough=600, shards=1, thorough_shards=1,
        rule="padding a prior to an order not above its own; every case counts"),
]
