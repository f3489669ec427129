"""C10: the ODE solvers converge to the solution of the initial value problem at their order."""
import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.lib import F, Fn, Sub, Violation, arr, arrs, close, jax, jnp, lru, tup
from vf.props.common import rk4

from bayesian_sde_solver.ode_solvers import ekf0, ekf0_2, ekf1, ekf1_2, euler
from bayesian_sde_solver.ode_solvers.probnum import (IOUP_transition_function, get_independently_factorized_prior,
                                                     matern_transition_function, pad_prior)

META = {"assumptions": ["smooth fields, horizon at most 1; the mean of a filter with a q times integrated prior is of order q + 1 "
                        "(q = 1, 2, 3), Euler of order 1"]}

SOL = {"ekf0": ekf0, "ekf1": ekf1, "ekf0_2": ekf0_2, "ekf1_2": ekf1_2}
ORDER = {"default": 1, "ibm1": 1, "ou1": 1, "mat1": 1, "mixed": 1, "ibm2": 2, "mat2": 2, "ibm3": 3}


def prior(kind, h, d, sig, th):
    if kind == "default":
        return None
    if kind.startswith("ibm"):
        return IOUP_transition_function(0.0, sig, int(kind[3]), h, d)
    if kind == "ou1":
        return IOUP_transition_function(th, sig, 1, h, d)
    if kind == "mixed":
        one = IOUP_transition_function(0.0, sig, 1, h, 1)
        two = matern_transition_function(1, sig, 1.0, h, 1)
        return get_independently_factorized_prior([one if i % 2 == 0 else two for i in range(d)])
    return matern_transition_function(int(kind[3]), sig, 1.0, h, d)


@lru
def _run(sol, kind, sqrt, d, N):
    @jax.jit
    def f(p, x, T, sig, th):
        vf = lambda z, t: F(p, z, t)
        h = T / N
        pr = prior(kind, h, d, sig, th)
        if sol.endswith("2"):
            return SOL[sol](None, (x, x, jnp.zeros((d, d))), vf, h, N, sqrt=sqrt, prior=pr)[1]
        return SOL[sol](None, x, vf, h, N, sqrt=sqrt, prior=pr)
    return f


@st.composite
def case(draw, confs):
    sol, kind, sqrt, d = draw(st.sampled_from(confs))
    return {"sol": sol, "kind": kind, "sqrt": sqrt, "d": d, "f": draw(gen.field(d)), "x": draw(gen.vec(d, -1, 1)),
            "T": draw(gen.num(0.25, 0.75)), "sig": draw(gen.num(0.2, 3)), "th": draw(gen.num(0, 2))}


def check(c):
    sol, kind, d, T = c["sol"], c["kind"], c["d"], c["T"]
    p, x = arrs(c["f"]), np.array(c["x"])
    ex = rk4(Fn(p), x, T, 80)
    size = np.max(np.abs(ex))
    if not np.isfinite(size) or size > 20:
        return {"nontrivial": False, "labels": ["large"]}
    q = ORDER[kind]
    Ns = (8, 32)
    e = [np.max(np.abs(arr(_run(sol, kind, c["sqrt"], d, N)(p, x, T, c["sig"], c["th"]), (d,), sol) - ex)) for N in Ns]
    ratio = {1: 0.17, 2: 0.07, 3: 0.035}[q]        # expected 1/16, 1/64, 1/256
    h = T / 32
    floor = 1e-9 + {1: 0.1, 2: 0.1, 3: 0.3}[q] * h ** (q + 1) * (1 + size)
    lab = [sol, kind, f"sqrt={c['sqrt']}", f"d={d}"]
    if e[0] < 0.3 and e[1] > ratio * e[0] + floor:
        raise Violation(f"{sol} ({kind}): error {e[0]:.3g} with 8 steps and {e[1]:.3g} with 32, not of order {q + 1}")
    if e[1] > 0.3 + 0.1 * size:
        raise Violation(f"{sol} ({kind}): error {e[1]:.3g} with 32 steps")
    return {"nontrivial": bool(e[0] > floor), "labels": lab}


# ---- fields for which the answer is exact ---------------------------------------------------

@lru
def _poly(sol, q, sqrt, d, N):
    @jax.jit
    def f(co, x, T):
        vf = lambda z, t: sum(co[i] * t ** i for i in range(min(q, 2)))
        h = T / N
        pr = IOUP_transition_function(0.0, 1.0, q, h, d)
        if sol.endswith("2"):
            return SOL[sol](None, (x, x, jnp.zeros((d, d))), vf, h, N, sqrt=sqrt, prior=pr)[1]
        return SOL[sol](None, x, vf, h, N, sqrt=sqrt, prior=pr)
    return f


@st.composite
def poly_case(draw, confs):
    sol, q, sqrt, d, N = draw(st.sampled_from(confs))
    return {"sol": sol, "q": q, "sqrt": sqrt, "d": d, "N": N, "co": [draw(gen.vec(d)) for _ in range(min(q, 2))], "x": draw(gen.vec(d)),
            "T": draw(gen.logstep(-4, 2))}


def check_poly(c):
    """x' = polynomial in t of degree at most min(q - 1, 1) (the derivatives that are initialized exactly) and a q times integrated Brownian prior that starts on the
    solution: the filter reproduces the solution."""
    q, d, N, T = c["q"], c["d"], c["N"], c["T"]
    co, x = np.array(c["co"]), np.array(c["x"])
    want = x + sum(co[i] * T ** (i + 1) / (i + 1) for i in range(min(q, 2)))
    close(_poly(c["sol"], q, c["sqrt"], d, N)(co, x, T), want, f"{c['sol']} on a polynomial field", 1e-6, 1e-9,
          1 + np.max(np.abs(want)) + np.max(np.abs(co)) * T ** q)
    return {"nontrivial": bool(np.any(co)), "labels": [c["sol"], f"q={q}"]}


CONF = [(s, k, sq, d) for s in ("ekf0", "ekf1") for k in ORDER for sq in (False, True) for d in (1, 2)]
CONF = [c for i, c in enumerate(CONF) if not (c[1] == "mixed" and c[3] == 1)]
CONF += [(s, k, sq, 2) for s in ("ekf0_2", "ekf1_2") for k in ("default", "ou1", "mat1", "mixed") for sq in (False, True)]
# the generic Matern transition integrates numerically at trace time: keep few of them
PCONF = [(s, q, sq, d, N) for s in ("ekf0", "ekf1") for q in (1, 2, 3) for sq in (False, True) for d in (1, 2) for N in (1, 3)] + \
        [(s, 1, sq, 2, N) for s in ("ekf0_2", "ekf1_2") for sq in (False, True) for N in (1, 3)]


@lru
def _euler(N):
    return jax.jit(lambda p, x, T: euler(x, lambda z, t: F(p, z, t), T / N, N))


def check_euler(c):
    p, x, T = arrs(c["f"]), np.array(c["x"]), c["T"]
    ex = rk4(Fn(p), x, T, 80)
    size = np.max(np.abs(ex))
    if not np.isfinite(size) or size > 20:
        return {"nontrivial": False, "labels": ["large"]}
    e = [np.max(np.abs(arr(_euler(N)(p, x, T), ex.shape, "Euler") - ex)) for N in (16, 64)]
    if e[0] < 0.2 and e[1] > 0.32 * e[0] + 0.1 * (T / 64) * (1 + size) * 0.2:
        raise Violation(f"Euler: error {e[0]:.3g} with 16 steps and {e[1]:.3g} with 64")
    return {"nontrivial": bool(e[0] > 1e-5), "labels": ["euler"]}


@st.composite
def euler_case(draw):
    d = draw(st.integers(1, 3))
    return {"d": d, "f": draw(gen.field(d)), "x": draw(gen.vec(d, -1, 1)), "T": draw(gen.num(0.25, 0.75))}


SUBS = [
    Sub("order", lambda i, n: case(CONF[i::n]), check, quick=45, thorough=900, shards=6, thorough_shards=8, weight=2,
        rule="smooth nonlinear time-dependent fields, four filters, eight priors, both square-root settings; errors with 8 and 32 steps against "
             "Runge-Kutta; non-trivial: the error with 8 steps is above the floor"),
    Sub("polynomial", lambda i, n: poly_case(PCONF[i::n]), check_poly, quick=50, thorough=600, shards=2, thorough_shards=4,
        rule="fields polynomial in time, matching integrated prior, solution reproduced exactly; non-trivial: non-zero field"),
    Sub("euler", lambda i, n: euler_case(), check_euler, quick=80, thorough=1500, rule="Euler, 16 and 64 steps; non-trivial: error above 1e-5"),
]
