"""C07: the path solver follows the Ito solution driven by the Brownian path it drew."""
import numpy as np
import scipy.linalg as sl
from hypothesis import strategies as st

from vf import gen
from vf.lib import F, S, Sub, Violation, arr, arrs, close, jax, jnp, key, lru, require, tup
from vf.props.common import FAMS, along_parabolas, family, judge_order, n_extra, order_limit, rk4_jax

from bayesian_sde_solver.ito_stratonovich import to_stratonovich
from bayesian_sde_solver.ode_solvers import ekf0, ekf0_2, ekf1, ekf1_2, euler
from bayesian_sde_solver.sde_solver import sde_solver

META = {"assumptions": ["equations with a closed-form solution functional of the Brownian path (transformed Brownian motion) "
                        "or with additive noise and a linear drift (exact solution along the fine path)",
                        "rates are root-mean-square over 300 paths, compared at steps a factor of four apart"]}


# ---- multiplicative noise, commutative: X = phi(y0 + mu t + R W), solved exactly at the grid -------

TRANS = ["exp", "sinh", "cube", "tan"]


def phis(kind, al, xp):
    """phi, phi', phi'', phi^{-1}."""
    if kind == "exp":
        return (lambda y: xp.exp(y / al), lambda y: xp.exp(y / al) / al, lambda y: xp.exp(y / al) / al ** 2,
                lambda x: al * xp.log(x))
    if kind == "sinh":
        return (lambda y: al * xp.sinh(y / al), lambda y: xp.cosh(y / al), lambda y: xp.sinh(y / al) / al,
                lambda x: al * xp.arcsinh(x / al))
    if kind == "cube":      # (y + 6)^3: states stay far from zero on the horizons used
        return (lambda y: (y + 6) ** 3 / 108, lambda y: (y + 6) ** 2 / 36, lambda y: (y + 6) / 18,
                lambda x: (108 * x) ** (1 / 3) - 6)
    return (lambda y: xp.sinh(y) / xp.sqrt(1 + xp.sinh(y) ** 2),      # tanh
            lambda y: 1 / xp.cosh(y) ** 2, lambda y: -2 * xp.tanh(y) / xp.cosh(y) ** 2, lambda x: xp.arctanh(x))


@lru
def _lamperti(d, m, N, fam, kind, inner):
    @jax.jit
    def run(k, y0, mu, R, al, delta):
        ph, d1, d2, inv = phis(kind, al, jnp)

        def drift(x, t):           # Ito
            y = inv(x)
            return d1(y) * mu + 0.5 * d2(y) * jnp.sum(R * R, axis=1)

        def sigma(x, t):
            return d1(inv(x))[:, None] * R
        drift, sigma = to_stratonovich(drift, sigma)
        if inner == "rk4":
            ode = lambda k, init, vector_field, T: rk4_jax(vector_field, init, T, 16)
        else:
            sol = {"ekf0": ekf0, "ekf1": ekf1}.get(inner)
            if sol is None:
                ode = lambda k, init, vector_field, T: euler(init, vector_field, T / 400, 400)
            else:
                ode = lambda k, init, vector_field, T: sol(None, init, vector_field, T / 60, 60)
        return sde_solver(key=k, drift=drift, sigma=sigma, x0=ph(y0), bm=lambda: family(fam, m, 6), delta=delta, N=N, ode_int=ode)
    return run


@st.composite
def lam_case(draw, confs):
    d, m, N, fam, kind, inner = draw(st.sampled_from(confs))
    return {"d": d, "m": m, "N": N, "fam": fam, "kind": kind, "inner": inner, "y0": draw(gen.vec(d, -0.5, 0.5)),
            "mu": draw(gen.vec(d, -1, 1)), "R": draw(gen.mat(d, m, -1, 1)), "al": draw(gen.vec(d, 1.0, 2.0)),
            "delta": draw(gen.logstep(-8, -4)), "seed": draw(gen.seeds)}


def check_lam(c):
    d, m, N, delta = c["d"], c["m"], c["N"], c["delta"]
    y0, mu, R, al = (np.array(c[k]) for k in ("y0", "mu", "R", "al"))
    out = _lamperti(d, m, N, c["fam"], c["kind"], c["inner"])(key(c["seed"]), y0, mu, R, al, delta)
    ts, traj, a = out[0], out[1], arr(out[2], (N, m), "increments")
    W = np.concatenate([np.zeros((1, m)), np.cumsum(a, axis=0)])
    ph, d1, d2, inv = phis(c["kind"], al, np)
    y = y0 + mu * (np.arange(N + 1) * delta)[:, None] + W @ R.T
    want = ph(y)
    slope = 1 + np.max(np.abs(d1(y))) + np.max(np.abs(d2(y)))
    move = np.sum(np.abs(a) @ np.abs(R.T)) + np.sum(np.abs(np.asarray(out[3])) @ np.abs(R.T)) + np.sum(np.abs(mu)) * N * delta
    # rk4 with 16 sub-steps per step; Euler 400 sub-steps: (step variation)^2 / 400; EKF second order at 60
    tol = {"rk4": 2e-6, "euler": 2e-2, "ekf0": 8e-3, "ekf1": 8e-3}[c["inner"]]
    close(traj, want, f"solution on the grid against the transformed Brownian motion ({c['inner']})", 0, 1e-9 + tol * slope ** 3 * move * (1 + move) * np.max(np.abs(want)) / 1.0)
    return {"nontrivial": bool(np.any(R)), "labels": [c["kind"], c["inner"], c["fam"], f"{d}x{m}"]}


# ---- additive noise: strong order one of every solver with one inner step ----------------------------

NPATH = 300


@lru
def _additive(d, N, solver, fine):
    """N steps over [0, 1]; fine sub-increments per step of the driving path."""
    one2 = {"ekf0_2": ekf0_2, "ekf1_2": ekf1_2}
    sol = {"ekf0": ekf0, "ekf1": ekf1}

    def one(k, A, b, Sg, x0, sample):
        delta = 1.0 / N
        init = x0
        if solver == "euler":
            ode = lambda k, init, vector_field, T: euler(init, vector_field, T / (4 * N), 4 * N)   # a single Euler step does not see the path
        elif solver in sol:
            ode = lambda k, init, vector_field, T: sol[solver](k if sample else None, init, vector_field, T, 1, sqrt=False)
        else:
            ode = lambda k, init, vector_field, T: one2[solver](k if sample else None, init, vector_field, T, 1)
            init = (x0, x0, jnp.zeros((d, d)))
        out = sde_solver(key=k, drift=lambda x, t: A @ x + b * jnp.sin(3 * t), sigma=lambda x, t: Sg, x0=init,
                         bm=lambda: family("brownian", d, fine), delta=delta, N=N, ode_int=ode)
        traj = out[1] if solver not in one2 else out[1][1]
        return traj[-1], out[4].reshape(N * fine, d) * jnp.sqrt(delta / fine)

    def run(sample):
        return jax.jit(lambda k, A, b, Sg, x0: jax.vmap(lambda q: one(q, A, b, Sg, x0, sample))(jax.random.split(k, NPATH)))
    return {s: run(s) for s in (False, True)}


def exact_linear(A, b, Sg, x0, incs):
    """Solution at 1 of x' = A x + b sin 3t + Sg W' with W piecewise linear on a fine grid (exact per piece)."""
    n = incs.shape[1]
    d = len(x0)
    dt = 1.0 / n
    E = sl.expm(np.block([[A * dt, np.eye(d) * dt], [np.zeros((d, 2 * d))]]))
    P, I = E[:d, :d], E[:d, d:] / dt      # exp(A dt), (1/dt) int exp(A s) ds
    x = np.tile(x0, (incs.shape[0], 1))
    for j in range(n):
        f = b * (np.cos(3 * j * dt) - np.cos(3 * (j + 1) * dt)) / 3    # integral of the forcing
        x = x @ P.T + (f + incs[:, j] @ Sg.T) @ I.T
    return x


@st.composite
def add_case(draw, confs):
    d, solver = draw(st.sampled_from(confs))
    return {"d": d, "solver": solver, "A": draw(gen.mat(d, d, -1.5, 1.5)), "b": draw(gen.vec(d, -1, 1)),
            "S": draw(gen.mat(d, d, -1, 1)), "x0": draw(gen.vec(d, -1, 1)), "seed": draw(gen.seeds), "sample": draw(st.booleans())}


def check_add(c):
    d, sv = c["d"], c["solver"]
    A, b, Sg, x0 = (np.array(c[k]) for k in ("A", "b", "S", "x0"))
    errs = []
    sample = c["sample"] and sv in ("ekf0", "ekf1")
    for N in (8, 32):
        x, incs = _additive(d, N, sv, 256 // N)[sample](key(c["seed"]), A, b, Sg, x0)
        x, incs = arr(x, (NPATH, d), "solution"), arr(incs, (NPATH, 256, d), "increments")
        ex = exact_linear(A, b, Sg, x0, incs)
        errs.append(np.sqrt(np.mean(np.sum((x - ex) ** 2, axis=1))))
    sc = np.sqrt(np.sum(A ** 2)) * (np.sqrt(np.sum(Sg ** 2)) + np.sum(np.abs(b)) + np.sum(np.abs(x0))) + np.sum(np.abs(b))
    # order one: divided by four; order 1/2 (or a bias) would leave at least a half
    floor = 2e-3 * (sc + (1.0 if sample else 0))
    if errs[1] > 0.40 * errs[0] + floor:
        raise Violation(f"root-mean-square pathwise error {errs[0]:.4g} with 8 steps, {errs[1]:.4g} with 32 ({sv})")
    lim = 0.6 * np.exp(np.linalg.norm(A, 2)) * (sc * (1 + np.linalg.norm(A, 2)) + (1.0 if sample else 0)) / 4
    lim += 0.08 * np.sqrt(np.sum(Sg ** 2)) if sv == "euler" else 0.0    # sqrt(3) / 128: the path is seen through left-point sums
    if errs[1] > lim * 0.5:
        raise Violation(f"root-mean-square pathwise error {errs[1]:.4g} with 32 steps, expected below {lim * 0.5:.4g} ({sv})")
    return {"nontrivial": bool(errs[0] > 4 * floor), "labels": [sv, "sampled" if sample else "mean"]}


# ---- nonlinear drift, additive time-dependent noise: order one along the drawn parabolas --------------------

@lru
def _nonlinear(d, N, solver, M, fam):
    # not ekf1_2: with a nonlinear drift its accumulated covariance leaves a small bias of order zero, by the definition of the method
    one2 = {"ekf0_2": ekf0_2}
    sol = {"ekf0": ekf0, "ekf1": ekf1}

    def one(k, f, s, x0, sample, sqrt):
        delta = 1.0 / N
        if solver in sol:
            ode = lambda k, init, vector_field, T: sol[solver](k if sample else None, init, vector_field, T / M, M, sqrt=sqrt)
        else:
            ode = lambda k, init, vector_field, T: one2[solver](k if sample else None, init, vector_field, T / M, M, sqrt=sqrt)
        out = sde_solver(key=k, drift=lambda x, t: F(f, x, t), sigma=lambda x, t: S(s, x, t), x0=(x0, x0, jnp.zeros((d, d))) if solver in one2 else x0,
                         bm=lambda: family(fam, d, 4), delta=delta, N=N, ode_int=ode)
        traj = out[1][1] if solver in one2 else out[1]
        return traj[-1], along_parabolas(f, s, x0, out[2], out[3], delta)[-1]
    run = lambda sample, sqrt: jax.jit(lambda k, f, s, x0: jax.vmap(lambda q: one(q, f, s, x0, sample, sqrt))(jax.random.split(k, NPATH)))
    return {(a, b): run(a, b) for a in (False, True) for b in (False, True)}


@st.composite
def nonlin_case(draw, confs):
    d, solver, M, fam = draw(st.sampled_from(confs))
    return {"d": d, "solver": solver, "M": M, "fam": fam, "f": draw(gen.field(d, quad=False)), "s": draw(gen.diffusion(d, d, state=False)),
            "x0": draw(gen.vec(d, -1.5, 1.5)), "seed": draw(gen.seeds), "sample": draw(st.booleans()), "sqrt": draw(st.booleans())}


def check_nonlin(c):
    d, sv = c["d"], c["solver"]
    f, s = arrs(c["f"]), arrs(c["s"])
    e = []
    for N in (8, 32):
        x, r = _nonlinear(d, N, sv, c["M"], c["fam"])[c["sample"], c["sqrt"]](key(c["seed"]), f, s, np.array(c["x0"]))
        x, r = arr(x, (NPATH, d), "solution"), arr(r, (NPATH, d), "reference")
        e.append(np.sqrt(np.mean(np.sum((x - r) ** 2, -1))))
    judge_order(e, order_limit(f, s, np.max(np.abs(r)), 1.0) + (2.0 if c["sample"] else 0.0), f"{sv}, {c['M']} inner steps, {'sampled' if c['sample'] else 'mean'}, square root {c['sqrt']}")
    return {"nontrivial": bool(e[0] > 5e-3), "labels": [sv, f"M={c['M']}", "sampled" if c["sample"] else "mean", c["fam"]]}


# ---- equations whose solution is a function of the increments and areas ------------------------------------

@lru
def _areas(d, N, fam, inner):
    @jax.jit
    def run(k, A, b, Sg, x0, delta):
        drift, sigma = to_stratonovich(lambda x, t: A @ x + b * t, lambda x, t: Sg)
        if inner == "rk4":
            ode = lambda k, init, vector_field, T: rk4_jax(vector_field, init, T, 2)
        elif inner == "euler":
            ode = lambda k, init, vector_field, T: euler(init, vector_field, T / 500, 500)
        else:
            ode = lambda k, init, vector_field, T: {"ekf0": ekf0, "ekf1": ekf1}[inner](None, init, vector_field, T / 100, 100)
        return sde_solver(key=k, drift=drift, sigma=sigma, x0=x0, bm=lambda: family(fam, 2, 5), delta=delta, N=N, ode_int=ode)
    return run


@st.composite
def areas_case(draw, confs):
    d, N, fam, inner = draw(st.sampled_from(confs))
    return {"d": d, "N": N, "fam": fam, "inner": inner, "A": draw(gen.mat(d, d, -1, 1)), "B": draw(gen.mat(d, d, -1, 1)), "b": draw(gen.vec(d, -1, 1)),
            "S": draw(gen.mat(d, 2, -1, 1)), "x0": draw(gen.vec(d)), "delta": draw(gen.logstep(-6, 0)), "seed": draw(gen.seeds)}


def check_areas(c):
    """x' = A x + b t + S W' with A S inside the kernel of A: x(t) is explicit in W and its time integral."""
    d, N, fam, h = c["d"], c["N"], c["fam"], c["delta"]
    r = d // 2
    A = np.zeros((d, d))
    A[:r, r:] = (2 * np.array(c["A"]))[:r, r:]         # smooth coordinates read rough ones; A A = 0
    b, Sg, x0 = np.array(c["b"]), np.array(c["S"]), np.array(c["x0"])
    b[r:] = 0
    out = tup(_areas(d, N, fam, c["inner"])(key(c["seed"]), A, b, Sg, x0, h), 4 + n_extra(fam), "sde_solver")
    x, a, e = arr(out[1], (N + 1, d), "trajectory"), arr(out[2], (N, 2), "increments"), arr(out[3], (N, 2), "second coefficients")
    # time integral of the path over a step, from the fine path where there is one
    if fam == "approx":
        I = h * (a / 2 + e / np.sqrt(6))
    else:
        f = np.asarray(out[4]) * (np.sqrt(h / 5) if fam == "brownian" else 1.0)
        W = np.cumsum(f, axis=1) - f / 2 + (np.asarray(out[5]) if fam == "fine" else 0.0)
        I = h / 5 * W.sum(1)
    x1 = [x0]
    for k in range(N):
        t = k * h
        x1.append(x1[-1] + h * (A @ x1[-1]) + b * (t * h + h * h / 2) + Sg @ a[k] + A @ Sg @ I[k])
    x1 = np.array(x1)
    size = np.sum(np.abs(A)) * (np.max(np.abs(x1)) + np.sum(np.abs(Sg) @ np.abs(a).T) + np.sum(np.abs(Sg) @ np.abs(e).T)) + np.sum(np.abs(b)) * N * h
    tol = {"rk4": 1e-10, "euler": 8 / 500, "ekf0": 2e-3, "ekf1": 2e-3}[c["inner"]]
    noise = np.sum(np.abs(Sg) @ np.abs(e).T) if c["inner"] != "rk4" else 1.0
    close(x, x1, f"solution on the grid from increments and time integrals ({fam}, {c['inner']})", 0, 1e-10 + tol * (size * (1 + N * h) + noise))
    return {"nontrivial": bool(np.max(np.abs(A @ Sg)) > 0.1), "labels": [fam, c["inner"], f"d={d}", f"N={N}"]}


AR = [(d, N, fam, inner) for d in (2, 3, 4) for N in (1, 4) for fam in FAMS for inner in ("rk4", "rk4", "euler", "ekf0", "ekf1")]
LC = [(d, m, N, fam, kind, "rk4") for d, m in ((1, 1), (2, 2), (2, 1), (2, 3)) for N in (1, 4) for fam in FAMS for kind in TRANS]
LC2 = [(d, m, 3, "approx", kind, inner) for d, m in ((1, 1), (2, 2)) for kind in TRANS for inner in ("euler", "ekf0", "ekf1")]
AC = [(d, s) for d in (1, 2) for s in ("euler", "ekf0", "ekf1", "ekf0_2", "ekf1_2")]
NC = [(d, s, M, fam) for d in (1, 2, 3) for s in ("ekf0", "ekf1", "ekf0_2") for M, fam in ((1, "approx"), (3, "brownian"), (1, "fine"), (2, "approx"))]
SUBS = [
    Sub("transformed_bm", lambda i, n: lam_case(LC[i::n]), check_lam, quick=40, thorough=700, shards=4, thorough_shards=8,
        rule="X = phi(y0 + mu t + R W) with four nonlinear phi, d x m up to 2 x 3, three path families, through to_stratonovich and an accurate "
             "ODE integrator: exact on the grid for every path; non-trivial: non-zero noise"),
    Sub("transformed_bm_solvers", lambda i, n: lam_case(LC2[i::n]), check_lam, quick=25, thorough=400, shards=2, thorough_shards=4,
        rule="the same with the package's ODE solvers at a fine inner step"),
    Sub("areas", lambda i, n: areas_case(AR[i::n]), check_areas, quick=40, thorough=500, shards=3, thorough_shards=4,
        rule="integrated noise: coordinates driven by the others, additive two-component noise, three path families; the solution on the grid is explicit "
             "in the reported increments and the time integrals of the reported (fine) path; non-trivial: the integrals matter"),
    Sub("additive_order", lambda i, n: add_case(AC[i::n]), check_add, quick=10, thorough=200, shards=4, thorough_shards=6,
        rule=f"linear drift with a forcing and additive noise, {NPATH} paths per case, error against the exact solution along the fine path, 8 and 32 "
             "steps with one inner step each; non-trivial: the error with 8 steps is four times above the floor"),
    Sub("nonlinear_order", lambda i, n: nonlin_case(NC[i::n]), check_nonlin, quick=5, thorough=120, shards=6, thorough_shards=8,
        rule=f"nonlinear time-dependent drifts with additive time-dependent noise, three filters with 1-3 inner steps, means and samples, {NPATH} paths against "
             "the random ODE along the reported parabolas, 8 and 32 steps; non-trivial: a visible error with 8 steps"),
]
