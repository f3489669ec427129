"""C32: derivatives of results (forward and reverse mode) against extrapolated central differences."""
import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.lib import F, S, Sub, arr, arrs, close, jax, jnp, key, lru, require, tup
from vf.props.c17 import bounded
from vf.props.c28 import KEYED, SOL, cov, keyed, kron, ibm, solve
from vf.props.common import family

from bayesian_sde_solver.foster_polynomial import get_approx, get_approx_and_brownian, get_approx_fine
from bayesian_sde_solver.ito_stratonovich import to_ito, to_stratonovich
from bayesian_sde_solver.ode_solvers import euler
from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function, interlace, interlace_matrix, matern_transition_function, transition_function
from bayesian_sde_solver.ode_solvers.probnum.calibration import mle_diffusion
from bayesian_sde_solver.sde_solver import sde_solver
from bayesian_sde_solver.ssm_parabola import ssm_parabola_ode_solver

META = {"assumptions": ["central differences at 2^-7, 2^-9 and 2^-11, extrapolated twice; the tolerance grows with what the extrapolations changed",
                        "without square roots (jax has no derivative of a singular QR factorisation and raises) and without posterior samples"]}


STEPS = (2.0 ** -7, 2.0 ** -9, 2.0 ** -11)


def directional(G):
    """G(theta) -> flat result. Forward derivative along v, reverse one along u, and extrapolated differences."""
    @jax.jit
    def run(theta, v, u):
        g = lambda e: G(jax.tree_util.tree_map(lambda a, b: a + e * b, theta, v))
        out, fwd = jax.jvp(G, (theta,), (v,))
        try:
            _, pull = jax.vjp(G, theta)
            (back,) = pull(u[: out.shape[0]])
        except ValueError as e:
            # a loop with a condition has no reverse mode in jax, which says so; how loops are written is not judged
            if "while_loop" not in str(e):
                raise
            return out, fwd, jnp.sum(u[: out.shape[0]] * fwd), [(g(h) - g(-h)) / (2 * h) for h in STEPS]
        rev = sum(jnp.sum(a * b) for a, b in zip(jax.tree_util.tree_leaves(back), jax.tree_util.tree_leaves(v)))
        d = [(g(h) - g(-h)) / (2 * h) for h in STEPS]
        return out, fwd, rev, d
    return run


def judge(r, u, what):
    out, fwd, rev, d = [np.asarray(a) for a in r[:3]] + [[np.asarray(a) for a in r[3]]]
    if not (bounded(out) and all(bounded(a) for a in d)):
        return False
    e1 = [(16 * b - a) / 15 for a, b in zip(d, d[1:])]
    e2 = (256 * e1[1] - e1[0]) / 255
    size = np.max(np.abs(e2)) + np.max(np.abs(out))
    gap = np.max(np.abs(e1[1] - e1[0]))
    tol = 1e-8 * (1 + size) + 10 * np.max(np.abs(e2 - e1[1])) + 0.2 * gap
    if gap > 1e-4 * (1 + size):
        return False            # the difference quotients have not converged
    err = np.abs(fwd - e2)
    require(bool(np.all(err <= tol)), f"{what}: derivative {fwd.tolist()} against differences {e2.tolist()} (tolerance {tol:.1e})")
    want = float(u[: len(out)] @ fwd)
    require(abs(rev - want) <= 1e-8 * (1 + np.sum(np.abs(u[: len(out)] * fwd))), f"{what}: reverse-mode derivative {float(rev)} against forward-mode {want}")
    return bool(np.max(np.abs(fwd)) > 1e-3)


def flat(t):
    return jnp.concatenate([jnp.ravel(a) for a in jax.tree_util.tree_leaves(t)])


def rand(seed, tree):
    """A random direction of the shape of the tree."""
    r = np.random.default_rng(seed)
    return jax.tree_util.tree_map(lambda a: r.standard_normal(np.shape(a)) / max(1.0, np.sqrt(np.size(a))), tree)


# ---- solvers ---------------------------------------------------------------------------------------------

@lru
def _solvers(sol, N, n, d, noisy):
    def G(th):
        f, g = (lambda x, t: F(th["f"], x, t)), (lambda x, t: S(th["s"], x, t))
        h, sig = jnp.exp(th["h"]), jnp.exp(th["sig"])
        R = th["r"] @ th["r"].T + 0.01 * jnp.eye(d) if noisy else None
        return flat(solve(sol, N, n, False, f, g, th["x"], th["P"] @ th["P"].T, h, sig, R, th["w"]))
    return directional(G)


@st.composite
def solver_case(draw, confs):
    sol, N, n, d, noisy = draw(st.sampled_from(confs))
    return {"sol": sol, "N": N, "n": n, "d": d, "noisy": noisy, "f": draw(gen.field(d)), "s": draw(gen.diffusion(d, d)), "x": draw(gen.vec(d)),
            "P": draw(gen.mat(d, d, -1, 1)), "h": draw(gen.logstep(-7, -1)), "sig": draw(gen.num(0.3, 3)), "r": draw(gen.mat(d, d, -0.7, 0.7)),
            "incs": draw(gen.mat(N, d, -1, 1)), "dir": draw(gen.seeds)}


def theta(c, *names):
    t = {"f": arrs(c["f"]), "s": arrs(c["s"]), "x": np.array(c["x"], float), "h": np.log(c["h"])}
    for k in names:
        t[k] = np.log(c["sig"]) if k == "sig" else np.array(c["incs"]) * np.sqrt(c["h"]) if k == "w" else np.array(c[k])
    return t


def check_solvers(c):
    th = theta(c, "P", "sig", "r", "w")
    u = np.random.default_rng(c["dir"] + 1).standard_normal(400)
    ok = judge(_solvers(c["sol"], c["N"], c["n"], c["d"], c["noisy"])(th, rand(c["dir"], th), u), u, f"{c['sol']}, {c['N']} steps")
    return {"nontrivial": ok, "labels": [c["sol"], f"d={c['d']}", f"n={c['n']}"]}


# ---- paths -----------------------------------------------------------------------------------------------

@lru
def _paths(sol, N, d, m, fam):
    def G(th, k):
        f, g = (lambda x, t: F(th["f"], x, t)), (lambda x, t: S(th["s"], x, t))
        h = jnp.exp(th["h"])
        if sol in KEYED:
            return flat(keyed(sol, N, k, f, g, th["x"], h))
        if sol.startswith("ssm"):
            ode = lambda k, init, drift, diffusion, T: SOL[sol](None, init, T, drift, diffusion, T / 2, 2, sqrt=False)
            return flat(ssm_parabola_ode_solver(k, f, g, th["x"], h, N, ode))
        if sol.endswith("2"):
            one = kron(ibm(1, h / 2, 1.0), d)
            ode = lambda k, init, vector_field, T: SOL[sol](None, init, vector_field, T / 2, 2, sqrt=False, prior=one)
            return flat(sde_solver(k, f, g, (th["x"], th["x"], jnp.zeros((d, d))), lambda: family(fam, m, 3), h, N, ode)[1:])
        ode = lambda k, init, vector_field, T: euler(init, vector_field, T / 3, 3) if sol == "euler" else SOL[sol](None, init, vector_field, T / 2, 2, sqrt=False)
        return flat(sde_solver(k, f, g, th["x"], lambda: family(fam, m, 3), h, N, ode)[1:])

    @jax.jit
    def run(th, v, u, k):
        return directional(lambda t: G(t, k))(th, v, u)
    return run


@st.composite
def path_case(draw, confs):
    sol, N, d, m, fam = draw(st.sampled_from(confs))
    return {"sol": sol, "N": N, "d": d, "m": m, "fam": fam, "f": draw(gen.field(d)), "s": draw(gen.diffusion(d, m)), "x": draw(gen.vec(d)), "h": draw(gen.logstep(-7, -1)),
            "seed": draw(gen.seeds), "dir": draw(gen.seeds)}


def check_paths(c):
    th = theta(c)
    u = np.random.default_rng(c["dir"] + 1).standard_normal(1000)
    ok = judge(_paths(c["sol"], c["N"], c["d"], c["m"], c["fam"])(th, rand(c["dir"], th), u, key(c["seed"])), u, f"path ({c['sol']}), {c['N']} steps")
    return {"nontrivial": ok, "labels": [c["sol"], f"{c['d']}x{c['m']}", f"N={c['N']}"]}


# ---- priors, calibration, conversion, parabolas ----------------------------------------------------------

@lru
def _parts(kind, q, d):
    if kind == "ioup":
        G = lambda t: flat(IOUP_transition_function(t["a"], jnp.exp(t["b"]), q, jnp.exp(t["c"]), d))
    elif kind == "matern":
        G = lambda t: flat(matern_transition_function(q, jnp.exp(t["a"]), jnp.exp(t["b"]), jnp.exp(t["c"]), d))
    elif kind == "generic":
        G = lambda t: flat(transition_function(t["A"], t["v"], t["B"], jnp.exp(t["c"])))
    elif kind == "mle":
        G = lambda t: flat(mle_diffusion(t["A"], jnp.stack([t["B"] @ t["B"].T + (1.0 + i) * jnp.eye(d) for i in range(d)])))
    elif kind == "interlace":
        G = lambda t: flat((interlace((t["v"], 2 * t["v"] + t["w"])), interlace_matrix(t["A"], t["B"], t["B"].T, t["A"] @ t["B"])))
    elif kind in ("strat", "ito"):
        def G(t):
            f, g = (to_stratonovich if kind == "strat" else to_ito)(lambda x, s: F(t["f"], x, s), lambda x, s: S(t["s"], x, s))
            return flat((f(t["v"], t["a"]), g(t["v"], t["a"])))
    else:
        def G(t):
            co, ev = {"approx": get_approx, "brownian": get_approx_and_brownian, "fine": get_approx_fine}[kind](**({"dim": d} if kind == "approx" else {"dim": d, "N": 4}))
            h = jnp.exp(t["c"])
            out = co(jax.random.PRNGKey(q), h)
            s = jax.nn.sigmoid(t["a"]) * h
            return flat((out, ev(s, h, *out), jax.jacfwd(lambda s: ev(s, h, *out))(s)))
    return directional(G)


@st.composite
def part_case(draw, confs):
    kind, q, d = draw(st.sampled_from(confs))
    c = {"kind": kind, "q": q, "d": d, "A": draw(gen.mat(d, d, -1, 1)), "B": draw(gen.mat(d, d, -1, 1)), "v": draw(gen.vec(d)), "w": draw(gen.vec(d)),
         "a": draw(gen.num(-1, 1)), "b": draw(gen.num(-1, 1)), "c": draw(gen.num(-3, 1)), "dir": draw(gen.seeds)}
    if kind in ("strat", "ito"):
        c["f"], c["s"] = draw(gen.field(d)), draw(gen.diffusion(d, q))
    return c


def check_parts(c):
    th = {k: arrs(c[k]) if k in "fs" else np.asarray(c[k], float) for k in "AvBwabcfs" if k in c}
    u = np.random.default_rng(c["dir"] + 1).standard_normal(2000)
    ok = judge(_parts(c["kind"], c["q"], c["d"])(th, rand(c["dir"], th), u), u, c["kind"])
    return {"nontrivial": ok, "labels": [c["kind"], f"q={c['q']}"]}


DET = ["euler", "ekf0", "ekf1", "ekf0_2", "ekf1_2", "ssm0", "ssm1", "em"]
SC = [(s, N, n, d, nz) for s in DET for N, d in ((1, 2), (5, 3)) for n in ((2, 3) if s in ("ekf0", "ekf1") else (2,))
      for nz in ((False, True) if s not in ("euler", "em") else (False,))]
PC = ([(s, N, d, m, f) for s in ("euler", "ekf0", "ekf1", "ekf0_2", "ekf1_2") for N, d, m, f in ((1, 2, 1, "approx"), (6, 2, 3, "brownian"), (3, 3, 2, "fine"))]
      + [(s, N, d, d, "") for s in ("ssm0", "ssm1") for N, d in ((1, 2), (5, 2))] + [(s, N, d, d, "") for s in ("em keyed", "diag15", "hypo") for N, d in ((1, 2), (6, 3))])
TC = ([("ioup", q, d) for q, d in ((1, 2), (2, 1), (4, 1))] + [("matern", q, d) for q, d in ((0, 1), (1, 2), (2, 1))] + [("generic", 0, 2), ("generic", 0, 3), ("mle", 0, 1), ("mle", 0, 3),
      ("interlace", 0, 3), ("strat", 1, 2), ("strat", 3, 2), ("ito", 2, 3)] + [(f, q, d) for f in ("approx", "brownian", "fine") for q, d in ((3, 1), (4, 3))])
SUBS = [
    Sub("solvers", lambda i, n: gen.starting(solver_case(SC[i::n]), "x"), check_solvers, quick=30, thorough=500, shards=4, thorough_shards=8, weight=2,
        rule="directional derivatives of all deterministic results with respect to the coefficients of the equation, the initial value and covariance, the step, the scale of the "
             "prior, the noise and the increments; non-trivial: converged difference quotients and a derivative above 1e-3"),
    Sub("paths", lambda i, n: gen.starting(path_case(PC[i::n]), "x"), check_paths, quick=24, thorough=400, shards=4, thorough_shards=8, weight=2,
        rule="the same for simulated paths and their coefficients with a given key (path solvers with every inner solver, the classical schemes)"),
    Sub("parts", lambda i, n: part_case(TC[i::n]), check_parts, quick=40, thorough=500, shards=2, thorough_shards=4,
        rule="the same for priors, calibration, interlacing, conversion of drifts, parabolas"),
]
