"""C05: the path solver is the sequential composition of ODE solves on successive steps."""
import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.lib import F, Fn, S, Sn, Sub, arr, arrs, close, jax, jnp, key, lru, tup
from vf.props.common import FAMS, family, n_extra, rk4, rk4_jax, stepwise

from bayesian_sde_solver.ode_solvers import euler
from bayesian_sde_solver.sde_solver import sde_solver

META = {"assumptions": ["ode_int(key, init=, vector_field=, T=) as every caller passes it",
                        "generated fields grow at most so fast that the solution stays bounded (others are skipped by construction: short horizon)"]}

CONF = [(d, m, N, fam, ode) for (d, m), Ns in (((1, 1), (1, 2, 5)), ((2, 2), (1, 2, 5, 17)), ((2, 1), (2, 5)), ((3, 2), (1, 2, 5)), ((1, 4), (3,)), ((5, 5), (4,)), ((4, 2), (3,)), ((9, 9), (2,)), ((2, 10), (2,))) for N in Ns for fam in FAMS
        for ode in ("rk4", "euler", "left", "tuple")]
NF = 3


@st.composite
def case(draw, confs):
    d, m, N, fam, ode = draw(st.sampled_from(confs))
    return gen.spread(draw, {"d": d, "m": m, "N": N, "fam": fam, "ode": ode, "f": draw(gen.field(d)), "s": draw(gen.diffusion(d, m)),
            "x0": draw(gen.vec(d)), "delta": draw(gen.logstep(-9, -2)), "seed": draw(gen.seeds)}, "x0")


@lru
def _run(d, m, N, fam, ode):
    def ode_int(k, init, vector_field, T):
        if ode == "rk4":
            return rk4_jax(vector_field, init, T, 4)
        if ode == "euler":
            return euler(init, vector_field, T / 3, 3)
        if ode == "left":
            return init + T * vector_field(init, 0.0) + T ** 2 * vector_field(init, T)
        x, n, P = init     # a state made of several parts
        return x + T * vector_field(x, T / 2), n + 1, P + jnp.outer(x, x)

    @jax.jit
    def run(k, f, s, x0, delta):
        init = x0 if ode != "tuple" else (x0, jnp.zeros(1), jnp.eye(d))
        return sde_solver(key=k, drift=lambda x, t: F(f, x, t), sigma=lambda x, t: S(s, x, t), x0=init,
                          bm=lambda: family(fam, m, NF), delta=delta, N=N, ode_int=ode_int)
    return run


def check(c):
    d, m, N, fam, ode, delta = (c[k] for k in ("d", "m", "N", "fam", "ode", "delta"))
    f, s, x0 = arrs(c["f"]), arrs(c["s"]), np.array(c["x0"])
    out = tup(_run(d, m, N, fam, ode)(key(c["seed"]), f, s, x0, delta), 4 + n_extra(fam), "sde_solver")
    ts, traj, a, b = out[:4]
    close(ts, np.arange(N + 1) * delta, "time grid", 1e-13, 0)
    a, b = arr(a, (N, m), "increments"), arr(b, (N, m), "second coefficients")
    for e in out[4:]:
        arr(e, (N, NF, m), "fine coefficients")
    fn, sn = Fn(f), Sn(s)
    got = traj
    if ode == "tuple":
        got, n, P = tup(traj, 3, "trajectory of a composite state")
        close(n, np.arange(N + 1.0)[:, None], "trajectory (second part of the state)", 1e-12, 0)
    got = arr(got, (N + 1, d), "trajectory", finite=False)

    def step(k, x):
        t0 = k * delta

        def vf(z, t):
            return fn(z, t + t0) + sn(z, t + t0) @ ((a[k] + np.sqrt(6) * b[k] * (1 - 2 * t / delta)) / delta)
        if ode == "rk4":
            x = rk4(vf, x, delta, 4)
        elif ode == "euler":
            for i in range(3):
                x = x + delta / 3 * vf(x, i * delta / 3)
        elif ode == "left":
            x = x + delta * vf(x, 0.0) + delta ** 2 * vf(x, delta)
        else:
            x = x + delta * vf(x, delta / 2)
        return x

    want, n = stepwise(got, x0, step)
    close(got[:n], want, "trajectory, step by step", 1e-10, 0, 1 + np.max(np.abs(want)))
    if ode == "tuple":
        P = arr(P, (N + 1, d, d), "trajectory (third part of the state)", finite=False)[:n]
        wP = np.eye(d) + np.concatenate([np.zeros((1, d, d)), np.cumsum(got[:n - 1, :, None] * got[:n - 1, None, :], axis=0)])
        close(P, wP, "trajectory (third part of the state)", 1e-10, 0, 1 + np.max(np.abs(wP)))
    return {"nontrivial": N > 1 and bool(np.any(a)), "labels": [fam, ode, f"N={N}", f"{d}x{m}"]}


LONG = [(d, m, N, fam, ode) for d, m in ((1, 1), (2, 2), (1, 2)) for N in (60, 129, 300, 1100, 2050) for fam in FAMS for ode in ("euler", "left", "tuple")]


@st.composite
def long_case(draw, confs):
    d, m, N, fam, ode = draw(st.sampled_from(confs))
    return {"d": d, "m": m, "N": N, "fam": fam, "ode": ode, "f": draw(gen.stable_field(d)), "s": draw(gen.bounded_diffusion(d, m)),
            "x0": draw(gen.vec(d)), "delta": draw(gen.logstep(-9, -3)), "seed": draw(gen.seeds)}


SUBS = [Sub("composition", lambda i, n: case(CONF[i::n]), check, quick=60, thorough=1200, shards=7, thorough_shards=8,
            rule="smooth time- and state-dependent drift and d x m diffusion, three path families, four step maps (one with a composite "
                 "state), 1-17 steps of 2^-9..2^-2; the trajectory is recomputed step by step from the returned path coefficients; "
                 "non-trivial: more than one step"),
        Sub("long", lambda i, n: long_case(LONG[i::n]), check, quick=12, thorough=150, shards=3, thorough_shards=8,
            rule="the same for 60-2050 steps (times up to 250) of dissipative fields with bounded time-dependent noise")]
