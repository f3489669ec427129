"""C30: paths of the marginalised-parabola method converge, at order one, to the solution along the parabolas they were drawn with."""
import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.lib import F, S, Sub, arr, arrs, jax, jnp, key, lru
from vf.props.common import along_parabolas, judge_order, order_limit

from bayesian_sde_solver.ssm_parabola import ekf0_marginal_parabola, ekf1_marginal_parabola, ssm_parabola_ode_solver

META = {"assumptions": ["additive (possibly time-dependent) noise, for which the method is of order one; the reference is the random ODE along the "
                        "returned parabolas, solved by Runge-Kutta"]}

SOL = {"ssm0": ekf0_marginal_parabola, "ssm1": ekf1_marginal_parabola}
NPATH = 300


@lru
def _paths(sol, d, N, M, sqrt):
    """The state carries the last coefficients beside the position, so that the path solver returns them."""
    def one(k, f, s, x0, T):
        delta = T / N

        def solver(key, init, drift, diffusion, T):
            ext = lambda z: jnp.concatenate([z, init[d:]])
            y, a, b = SOL[sol](key, init[:d], T, lambda z, t: drift(ext(z), t)[:d], lambda z, t: diffusion(ext(z), t)[:d], T / M, M, sqrt=sqrt)
            return jnp.concatenate([y, a, b]), a, b
        drift = lambda z, t: jnp.concatenate([F(f, z[:d], t), jnp.zeros(2 * d)])
        sigma = lambda z, t: jnp.concatenate([S(s, z[:d], t), jnp.zeros((2 * d, d))])
        ts, x = ssm_parabola_ode_solver(k, drift, sigma, jnp.concatenate([x0, jnp.zeros(2 * d)]), delta, N, solver)
        a, b = x[1:, d:2 * d], x[1:, 2 * d:]
        return x[:, :d], along_parabolas(f, s, x0, a, b, delta), a, b
    return jax.jit(lambda k, f, s, x0, T: jax.vmap(lambda q: one(q, f, s, x0, T))(jax.random.split(k, NPATH)))


@st.composite
def case(draw, confs):
    sol, d, M, sqrt = draw(st.sampled_from(confs))
    s = draw(gen.diffusion(d, d, state=False))
    return {"sol": sol, "d": d, "M": M, "sqrt": sqrt, "f": draw(gen.field(d, quad=False)), "s": s, "x0": draw(gen.vec(d, -1.5, 1.5)),
            "T": draw(st.sampled_from([0.5, 1.0, 1.0])), "seed": draw(gen.seeds)}


def check(c):
    d, T = c["d"], c["T"]
    f, s = arrs(c["f"]), arrs(c["s"])
    e = []
    for N in (8, 32):
        x, r, a, b = _paths(c["sol"], d, N, c["M"], c["sqrt"])(key(c["seed"]), f, s, np.array(c["x0"]), T)
        x, r = arr(x, (NPATH, N + 1, d), "trajectories"), arr(r, (NPATH, N + 1, d), "reference")
        e.append(np.sqrt(np.mean(np.sum((x[:, -1] - r[:, -1]) ** 2, -1))))
    judge_order(e, order_limit(f, s, np.max(np.abs(r)), T), f"{c['sol']}, {c['M']} inner steps, square root {c['sqrt']}")
    return {"nontrivial": bool(e[0] > 5e-3), "labels": [c["sol"], f"d={d}", f"M={c['M']}", f"sqrt={c['sqrt']}"]}


CONF = [(s, d, M, q) for s in SOL for d in (1, 2, 3) for M in (1, 2, 4) for q in (False, True)]
SUBS = [Sub("order", lambda i, n: case(CONF[i::n]), check, quick=9, thorough=120, shards=6, thorough_shards=8,
            rule=f"nonlinear time-dependent drifts with additive time-dependent square noise, both linearisations, 1-4 inner steps, both square-root settings, {NPATH} sampled "
                 "paths per case with 8 and 32 steps against the random ODE along the very parabolas returned; non-trivial: a visible error with 8 steps")]
