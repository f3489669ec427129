"""C29: in single precision (the default of jax) results stay finite, symmetric positive and close to the exact ones."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, ref
from vf.lib import F, Fn, S, Sn, Sub, arr, arrs, close, close_cov, is_psd, jax, jnp, key, lru, require, tup
from vf.props.c17 import bounded
from vf.props.common import family

from bayesian_sde_solver.ode_solvers import ekf0, ekf0_2, ekf1, ekf1_2, euler
from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function, matern_transition_function
from bayesian_sde_solver.sde_solver import sde_solver
from bayesian_sde_solver.sde_solvers import euler_maruyama, euler_maruyama_pathwise
from bayesian_sde_solver.ssm_parabola import ekf0_marginal_parabola, ekf1_marginal_parabola, ssm_parabola_ode_solver

META = {"assumptions": ["tolerances are hundreds of single-precision rounding units of the state's scale, times the number of steps"]}
SOL = {"ekf0": ekf0, "ekf1": ekf1, "ekf0_2": ekf0_2, "ekf1_2": ekf1_2, "ssm0": ekf0_marginal_parabola, "ssm1": ekf1_marginal_parabola}
EPS = 1.2e-7


def f32(x):
    return jax.tree_util.tree_map(lambda v: np.asarray(v, np.float32), x)


def single(a, what):
    a = np.asarray(a)
    require(a.dtype == np.float32, f"{what}: computed in {a.dtype}")
    return a


# ---- filters ------------------------------------------------------------------------------------------

@lru
def _filt(sol, n, d, N, sqrt, noisy, given):
    @jax.jit
    def f(p, s, x, P, h, xi, Q, A, R):
        vf = lambda z, t: F(p, z, t)
        kw = dict(sqrt=sqrt, prior=(xi, Q, A) if given else None, noise=R if noisy else None)
        if sol.startswith("ssm"):
            return SOL[sol](None, x, h * N, vf, lambda z, t: S(s, z, t), h, N, **kw)
        if sol.endswith("2"):
            a, b = SOL[sol](None, (x, x, P), vf, h, N, return_all=True, **kw)
            return b[1], a[2]
        return (SOL[sol](None, x, vf, h, N, **kw),)
    return f


@st.composite
def filt_case(draw, confs):
    sol, n, d, N, sqrt, noisy, given = draw(st.sampled_from(confs))
    return {"sol": sol, "n": n, "d": d, "N": N, "sqrt": sqrt, "noisy": noisy, "given": given, "f": draw(gen.field(d)), "s": draw(gen.diffusion(d, d)),
            "x": draw(gen.vec(d)), "P": draw(gen.mat(d, d, -1, 1)), "rank": draw(st.integers(0, d)), "h": draw(gen.logstep(-10, -2)),
            "sig": draw(gen.num(0.3, 3)), "R": draw(gen.mat(d, d, -0.5, 0.5))}


def check_filt(c):
    sol, n, d, N, h = c["sol"], c["n"], c["d"], c["N"], c["h"]
    p, s, x = arrs(c["f"]), arrs(c["s"]), np.array(c["x"])
    G, Rg = np.array(c["P"])[:, :c["rank"]], np.array(c["R"])
    P0, R = G @ G.T, (Rg @ Rg.T if c["noisy"] else np.zeros((d, d)))
    sig = c["sig"] if c["given"] else 1.0
    zero = "0" in sol
    if sol.startswith("ssm"):
        pr = ref.ibm_prior(1, h, 1, sig)
        m, P, _, S_ = ref.ssm_filter(p, s, x, h * N, pr, R, h, N, zero)
    else:
        pr = ref.ibm_prior(n - 1, h, d, sig)
        if sol.endswith("2"):
            m, P, _, S_ = ref.alg3(p, x, P0, pr, R, h, N, zero)
        else:
            m, P, _, S_ = ref.alg2(p, x, pr, R, h, N, n, zero)
    if not bounded(m) or np.max(np.abs(m)) > 50 or np.linalg.cond(S_) > 1e3:
        return {"nontrivial": False, "labels": ["large or ill-conditioned"]}
    out = _filt(sol, n, d, N, c["sqrt"], c["noisy"], c["given"])(*f32((p, s, x, P0, h, *pr, R)))
    sc = 1 + np.max(np.abs(x)) + h * np.max(np.abs(m))
    # rounding of the velocity and of the gain enters a position times h
    tol = 400 * EPS * N * sc * (1 + np.linalg.cond(S_) / 20)
    w = f"{sol} in single precision (square root {c['sqrt']}, {n} states)"
    if sol.startswith("ssm"):
        big = sc + np.max(np.abs(m[2::4])) + np.max(np.abs(m[3::4]))
        close(single(out[0], w), m[::4], f"position of {w}", 0, tol * big)
        close(single(out[1], w), m[2::4], f"Brownian increment of {w}", 0, tol * big * 4)
        close(single(out[2], w), m[3::4], f"second coefficient of {w}", 0, tol * big * 4)
    elif sol.endswith("2"):
        got, Pg = tup(out, 2)
        close(single(got, w)[::2], m[::2], f"position of {w}", 0, tol)
        Pg = single(arr(Pg, (d, d), "covariance"), w)
        pos = P[::2, ::2]
        close_cov(Pg, pos, f"covariance of {w}", 2e-3, 1e-6 * (np.max(np.diag(P0), initial=0) + h ** 2), 0)
        require(np.all(np.abs(Pg - Pg.T) <= 1e-4 * np.max(np.abs(Pg))), f"covariance of {w} is not symmetric: {Pg}")
    else:
        close(single(out[0], w), m[::n], f"position of {w}", 0, tol)
    return {"nontrivial": bool(np.any(np.abs(m[::n if not sol.startswith('ssm') else 4] - x) > 1e-3)), "labels": [sol, f"n={n}", f"N={N}", f"sqrt={c['sqrt']}", f"noise={c['noisy']}"]}


# ---- priors -------------------------------------------------------------------------------------------

@lru
def _prior(kind, q):
    if kind == "matern":
        return jax.jit(lambda h, s, l: matern_transition_function(q, s, l, h, 1))
    return jax.jit(lambda h, s, l: IOUP_transition_function(0.0, s, q, h, 2))


@st.composite
def prior_case(draw, confs):
    kind, q = draw(st.sampled_from(confs))
    return {"kind": kind, "q": q, "h": draw(gen.logstep(-12, draw(st.sampled_from([0, 9])) if kind == "matern" else 0)), "sig": draw(gen.num(0.1, 4)), "l": draw(gen.num(0.2, 4))}


def check_prior(c):
    kind, q, h = c["kind"], c["q"], c["h"]
    xi, Q, A = _prior(kind, q)(*f32((h, c["sig"], c["l"])))
    n = (q + 1) * (1 if kind == "matern" else 2)
    Q, A = single(arr(Q, (n, n), "Q"), "Q"), single(arr(A, (n, n), "A"), "A")
    arr(xi, (n,), "increment")
    if kind == "matern":
        lam = np.sqrt(2 * q + 1) / c["l"]
        e = np.exp(-lam * h)
        Aw = e * np.array([[1 + lam * h, h], [-lam ** 2 * h, 1 - lam * h]])
        u, wts = np.polynomial.legendre.leggauss(40)
        hq = min(h, 30 / lam)       # the rest of the integral is of order exp(-60)
        u, wts = hq * (u + 1) / 2, wts * hq / 2
        q2 = c["sig"] ** 2      # the magnitude multiplies the white noise
        b = np.stack([np.exp(-lam * u) * u, np.exp(-lam * u) * (1 - lam * u)])
        Qw = q2 * (b * wts) @ b.T
    else:
        _, Qw, Aw = ref.ibm_prior(q, h, 2, c["sig"])
    close(A, Aw, f"{kind} transition in single precision", 1e-5 * (1 + (lam * h if kind == "matern" else 0)), 1e-30)
    close_cov(Q, Qw, f"{kind} covariance in single precision", 2e-4, 0)
    require(np.all(np.abs(Q - Q.T) <= 1e-5 * np.sqrt(np.outer(np.diag(Q), np.diag(Q)))), f"{kind} covariance is not symmetric")
    require(is_psd(Q, 1e-5), f"{kind} covariance in single precision is not positive: {Q.tolist()}")
    return {"nontrivial": h < 0.1, "labels": [kind, f"q={q}"]}


# ---- path solvers ------------------------------------------------------------------------------------------

@lru
def _path(kind, N, d, fam):
    def ode(k, init, vector_field, T):
        return euler(init, vector_field, T / 5, 5) if kind == "euler" else SOL[kind](None, init, vector_field, T / 2, 2)
    return jax.jit(lambda k, p, s, x, delta: sde_solver(k, lambda x, t: F(p, x, t), lambda x, t: S(s, x, t), x, lambda: family(fam, d, 4), delta, N, ode))


@st.composite
def path_case(draw, confs):
    kind, N, d, fam = draw(st.sampled_from(confs))
    return {"kind": kind, "N": N, "d": d, "fam": fam, "f": draw(gen.field(d, 0.7)), "s": draw(gen.diffusion(d, d, 0.7)), "x": draw(gen.vec(d)),
            "delta": draw(gen.logstep(-9, -4)), "seed": draw(gen.seeds)}


def check_path(c):
    N, d, delta, kind = c["N"], c["d"], c["delta"], c["kind"]
    p, s, x = arrs(c["f"]), arrs(c["s"]), np.array(c["x"])
    out = _path(kind, N, d, c["fam"])(key(c["seed"]), *f32((p, s, x, delta)))
    w = f"path solver in single precision ({kind})"
    a, b = single(arr(out[2], (N, d), "increments"), w).astype(float), np.asarray(out[3], float)
    f, g = Fn(p), Sn(s)
    xs = [x]
    for k in range(N):
        t0 = k * delta
        vf = lambda z, t: f(z, t + t0) + g(z, t + t0) @ (a[k] + np.sqrt(6) * b[k] * (1 - 2 * t / delta)) / delta
        z = xs[-1]
        if kind == "euler":
            for i in range(5):
                z = z + delta / 5 * vf(z, i * delta / 5)
        else:
            z = ekf_generic(vf, z, delta / 2, 2, kind == "ekf0", f, g, a[k], b[k], t0, delta, p, s)
        if not bounded(z) or np.max(np.abs(z)) > 30:
            return {"nontrivial": False, "labels": ["large"]}
        xs.append(z)
    xs = np.array(xs)
    got = single(arr(out[1], (N + 1, d), w), w)
    close(got, xs, w, 0, 300 * EPS * (10 + N) * (1 + np.max(np.abs(xs))) ** 2)
    close(single(out[0], "time grid"), np.arange(N + 1) * delta, "time grid", 1e-5, 0)
    return {"nontrivial": N > 1, "labels": [kind, f"N={N}", c["fam"]]}


def ekf_generic(vf, x, h, N, zero, f, g, a, b, t0, delta, p, s):
    """ref.alg2 with two states for an arbitrary numpy field (Jacobian by central differences)."""
    d = len(x)
    _, Q, A = ref.ibm_prior(1, h, d)
    I = np.eye(2 * d)
    E0, E1 = I[::2], I[1::2]

    def jac(m, t):
        if zero:
            return E1
        z = E0 @ m
        J = np.column_stack([(vf(z + 1e-5 * e, t) - vf(z - 1e-5 * e, t)) / 2e-5 for e in np.eye(d)])
        return E1 - J @ E0
    m, P = ref.interlace([x, vf(x, 0.0)]), np.zeros((2 * d, 2 * d))
    for k in range(1, N + 1):
        m, P, _, _ = ref.ekf_step(m, P, A, Q, np.zeros(2 * d), np.zeros((d, d)), lambda m, t: E1 @ m - vf(E0 @ m, t), jac, k * h)
    return m[::2]


# ---- parabolas ------------------------------------------------------------------------------------------------

@lru
def _par(fam, d):
    def one(k, delta, r):
        get, ev = family(fam, d, 4)
        c = get(k, delta)
        return c[0], c[1], ev(0.0 * delta, delta, *c), ev(delta, delta, *c), ev(r * delta, delta, *c)
    return jax.jit(one)


@st.composite
def par_case(draw, confs):
    fam, d = draw(st.sampled_from(confs))
    return {"fam": fam, "d": d, "delta": draw(gen.logstep(-20, 3)), "r": draw(gen.num(0, 1)), "seed": draw(gen.seeds)}


def check_par(c):
    d, delta = c["d"], c["delta"]
    a, b, z, e, m = (single(arr(v, (d,), "parabola"), "parabola").astype(float) for v in _par(c["fam"], d)(key(c["seed"]), *f32((delta, c["r"]))))
    sc = np.abs(a) + np.abs(b)
    close(z, 0 * z, "parabola at 0", 0, 0, 1)
    close(e, a, "parabola at delta", 0, 30 * EPS * sc)
    close(m, a * c["r"] + np.sqrt(6) * b * c["r"] * (1 - c["r"]), "parabola inside", 0, 60 * EPS * sc)
    require(np.all(np.abs(a) / np.sqrt(delta) < 8) and np.all(np.abs(b) / np.sqrt(delta / 2) < 8), f"coefficients out of scale: {a}, {b} for delta {delta}")
    return {"nontrivial": 0 < c["r"] < 1, "labels": [c["fam"], f"d={d}"]}

# ---- clocks ---------------------------------------------------------------------------------------------------

@lru
def _clock(which, N, M):
    """The state after each step is the time at which the field was evaluated."""
    def see(h):
        return lambda x, t: (t - x) / h
    zero = lambda x, t: jnp.zeros((1, 1))

    def ode(k, init, vector_field, T):
        return euler(init, lambda x, t: vector_field(x, t), T / M, M)

    def step(k, init, drift, diffusion, T):
        return euler(init, drift, T / M, M), 0.0, 0.0

    def run(k, h):
        x0 = jnp.zeros(1, jnp.float32)
        if which == "euler":       # every evaluation is kept in its own coordinate
            def vf(x, t):
                return jnp.concatenate([jnp.full(1, 1 / h), jnp.where(jnp.arange(N) == jnp.round(x[0]), t / h, 0.0)])     # x[0] counts the steps
            return None, euler(jnp.zeros(N + 1, jnp.float32), vf, h, N)[1:]
        if which == "em":
            ts, x = euler_maruyama(k, x0, see(h), zero, h, N)
        elif which == "emp":
            ts, x = euler_maruyama_pathwise(jax.random.normal(k, (N, 1)), x0, see(h), zero, h, N)
        elif which == "sde":
            ts, x = sde_solver(k, see(h / M), zero, x0, lambda: family("approx", 1, 4), h, N, ode)[:2]
        else:
            ts, x = ssm_parabola_ode_solver(k, see(h / M), zero, x0, h, N, step)
        return ts, x[1:, 0]
    return jax.jit(run)


@st.composite
def clock_case(draw, confs):
    which, N, M = draw(st.sampled_from(confs))
    return {"which": which, "N": N, "M": M, "h": draw(gen.logstep(-12, 2)), "seed": draw(gen.seeds)}


def check_clock(c):
    which, N, M = c["which"], c["N"], c["M"]
    h = float(np.float32(c["h"]))
    ts, x = _clock(which, N, M)(key(c["seed"]), np.float32(h))
    T = N * h
    if ts is not None:
        close(single(arr(ts, (N + 1,), "time grid"), "time grid"), np.arange(N + 1) * h, f"{which}: time grid", 0, 6 * EPS * T)
    want = np.arange(N) * h + (0 if which in ("em", "emp", "euler") else (M - 1) * h / M)
    close(single(arr(x, (N,), "clock"), "clock"), want, f"{which}: times of the evaluations over {N} steps", 0, (12 + 2 * M) * EPS * T)
    return {"nontrivial": N > 100, "labels": [which, f"N={N}"]}


CLK = [(w, N, M) for w in ("em", "emp", "sde", "ssm") for N, M in ((40, 1), (700, 2), (3000, 1), (9001, 1), (20000, 1))] + [("euler", N, 1) for N in (10, 300, 2000, 6000)]

FC = [(s, n, d, N, sq, nz, gv) for s in ("ekf0", "ekf1") for n, d, N in ((2, 1, 1), (2, 2, 6), (3, 2, 2)) for sq in (False, True) for nz in (False, True)
      for gv in ((True,) if n != 2 else (False, True))]
FC += [(s, 2, d, N, sq, nz, gv) for s in ("ekf0_2", "ekf1_2", "ssm0", "ssm1") for d, N in ((1, 3), (2, 1)) for sq in (False, True) for nz in (False, True) for gv in (False, True)]
PRC = [("matern", 1), ("ioup", 1), ("ioup", 2)]
PAC = [(k, N, d, f) for k in ("euler", "ekf0", "ekf1") for N, d in ((1, 1), (8, 2)) for f in ("approx", "brownian", "fine")]
SUBS = [
    Sub("filters", lambda i, n: gen.starting(filt_case(FC[i::n]), "x"), check_filt, quick=50, thorough=900, shards=6, thorough_shards=8, x64=False, weight=2,
        rule="six solvers with steps down to 2^-10 against the double-precision reference; non-trivial: the state moves by more than 1e-3"),
    Sub("priors", lambda i, n: prior_case(PRC[i::n]), check_prior, quick=80, thorough=800, shards=1, thorough_shards=3, x64=False,
        rule="Matern 3/2 (steps 2^-12 to 2^9) and integrated Brownian (2^-12 to 1) priors, entries relative to the standard deviations; non-trivial: step below 0.1"),
    Sub("paths", lambda i, n: gen.starting(path_case(PAC[i::n]), "x"), check_path, quick=30, thorough=500, shards=2, thorough_shards=4, x64=False,
        rule="the path solver with three ODE solvers against a double-precision loop on its coefficients; non-trivial: several steps"),
    Sub("parabolas", lambda i, n: par_case([(f, d) for f in ("approx", "brownian", "fine") for d in (1, 3)]), check_par, quick=60, thorough=800, shards=1,
        thorough_shards=2, x64=False, rule="end points and inside of the parabola for lengths 2^-20 to 8; non-trivial: strictly inside"),
    Sub("clocks", lambda i, n: clock_case(CLK[i::n]), check_clock, quick=40, thorough=400, shards=2, thorough_shards=4, x64=False,
        rule="times at which fields are evaluated, and returned grids, over 10 to 20000 steps of generated length (drift of the clock); non-trivial: more than 100 steps"),
]
