"""C28: symmetries: change of coordinates, decoupled systems, restart, change of time unit."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, ref
from vf.lib import F, S, Sub, arr, arrs, close, close_cov, jax, jnp, key, lru, tup
from vf.props.c17 import bounded
from vf.props.common import family

from bayesian_sde_solver.ode_solvers import ekf0, ekf0_2, ekf1, ekf1_2, euler
from bayesian_sde_solver.sde_solver import sde_solver
from bayesian_sde_solver.sde_solvers import diag_15_scheme, euler_maruyama, euler_maruyama_pathwise, hypoelliptic_diffusion_15_scheme
from bayesian_sde_solver.ssm_parabola import ekf0_marginal_parabola, ekf1_marginal_parabola

META = {"assumptions": ["priors are the same for every coordinate and independent; EKF0 (fresh prior, no noise) is equivariant under any invertible "
                        "map, the other filters under orthogonal ones"]}

SOL = {"ekf0": ekf0, "ekf1": ekf1, "ekf0_2": ekf0_2, "ekf1_2": ekf1_2, "ssm0": ekf0_marginal_parabola, "ssm1": ekf1_marginal_parabola}
DET = ["euler", "ekf0", "ekf1", "ekf0_2", "ekf1_2", "ssm0", "ssm1", "em"]


def kron(pr, d, scale=None):
    xi, Q, A = pr
    return jnp.tile(xi, d), jnp.kron(jnp.eye(d) if scale is None else jnp.diag(scale ** 2), Q), jnp.kron(jnp.eye(d), A)


def solve(sol, N, n, sqrt, vf, dif, x, P, h, sig, r, w, scale=None):
    """A dict of equivariant outputs: 'x' vectors of the state, 'P' covariances, 'w' Brownian vectors."""
    d = x.shape[0]
    one = ibm(n - 1, h, sig)
    R = r
    if sol == "euler":
        return {"x": euler(x, vf, h, N)}
    if sol == "em":
        return {"x": euler_maruyama_pathwise(w, x, vf, dif, h, N)[1][-1]}
    if sol.startswith("ssm"):
        y, a, b = SOL[sol](None, x, h * N, vf, dif, h, N, sqrt=sqrt, prior=one, noise=R)
        return {"x": y, "w": a, "w2": b}
    if sol.endswith("2"):
        a, b = SOL[sol](None, (x, x, P), vf, h, N, sqrt=sqrt, prior=kron(one, d, scale), noise=R, return_all=True)
        return {"x": b[1][::2], "x2": b[1][1::2], "P": a[2]}
    return {"x": SOL[sol](None, x, vf, h, N, sqrt=sqrt, prior=kron(one, d, scale), noise=R)}


def ibm(q, h, sig):
    if q == 1:
        return jnp.zeros(2), sig ** 2 * jnp.array([[h ** 3 / 3, h ** 2 / 2], [h ** 2 / 2, h]]), jnp.array([[1, h], [0, 1.0]])
    return (jnp.zeros(3), sig ** 2 * jnp.array([[h ** 5 / 20, h ** 4 / 8, h ** 3 / 6], [h ** 4 / 8, h ** 3 / 3, h ** 2 / 2], [h ** 3 / 6, h ** 2 / 2, h]]),
            jnp.array([[1, h, h * h / 2], [0, 1.0, h], [0, 0, 1.0]]))


def cov(G):
    G = np.array(G)
    return G @ G.T + 0.01 * np.eye(len(G))


def orth(seed, d):
    return np.linalg.qr(np.random.default_rng(seed).standard_normal((d, d)))[0]


# ---- change of coordinates ------------------------------------------------------------------------------

@lru
def _affine(sol, N, n, d, sqrt, noisy):
    @jax.jit
    def run(p, s, x, P, h, sig, r, w, T, U):
        Ti = jnp.linalg.inv(T)
        r = r if noisy else None
        a = solve(sol, N, n, sqrt, lambda x, t: F(p, x, t), lambda x, t: S(s, x, t), x, P, h, sig, r, w)
        b = solve(sol, N, n, sqrt, lambda y, t: T @ F(p, Ti @ y, t), lambda y, t: T @ S(s, Ti @ y, t) @ U.T, T @ x, T @ P @ T.T, h, sig,
                  T @ r @ T.T if noisy else None, w @ U.T)
        return a, b
    return run


@st.composite
def affine_case(draw, confs):
    sol, N, n, d, sqrt, noisy = draw(st.sampled_from(confs))
    return {"sol": sol, "N": N, "n": n, "d": d, "sqrt": sqrt, "noisy": noisy, "f": draw(gen.field(d)), "s": draw(gen.diffusion(d, d)), "x": draw(gen.vec(d)),
            "P": draw(gen.mat(d, d, -1, 1)), "h": draw(gen.logstep(-7, -1)), "sig": draw(gen.num(0.3, 3)), "r": draw(gen.mat(d, d, -0.7, 0.7)),
            "incs": draw(gen.mat(N, d, -1, 1)), "T": draw(st.integers(0, 10 ** 6)), "stretch": draw(gen.vec(d, -1, 1)), "perm": draw(st.booleans())}


def maps(c):
    d = c["d"]
    rng = np.random.default_rng(c["T"])
    if c["perm"]:
        T, U = np.eye(d)[rng.permutation(d)], np.eye(d)[rng.permutation(d)] * rng.choice([-1.0, 1.0], d)
    else:
        T, U = orth(c["T"], d), orth(c["T"] + 1, d)
    if c["sol"] in ("euler", "em") or (c["sol"] == "ekf0" and not c["noisy"]):
        T = T @ np.diag(np.exp(c["stretch"])) @ orth(c["T"] + 2, d)
    return T, U


def check_affine(c):
    d, sol = c["d"], c["sol"]
    G = np.array(c["P"])
    T, U = maps(c)
    w = np.array(c["incs"]) * np.sqrt(c["h"])
    a, b = _affine(sol, c["N"], c["n"], d, c["sqrt"], c["noisy"])(arrs(c["f"]), arrs(c["s"]), np.array(c["x"]), G @ G.T, c["h"], c["sig"], cov(c["r"]), w, T, U)
    if not all(bounded(np.asarray(v)) for v in a.values()):
        return {"nontrivial": False, "labels": ["large"]}
    for k, v in a.items():
        v = np.asarray(v)
        M = U if k[0] == "w" else T
        if k == "P":
            close_cov(b[k], T @ v @ T.T, f"{sol}: covariance in other coordinates", 1e-6, 1e-10, 1e-3)
        else:
            close(b[k], M @ v, f"{sol}: {k} in other coordinates", 1e-7, 1e-9, 1 + np.max(np.abs(v)) + np.max(np.abs(a["x"])))
    return {"nontrivial": bool(np.max(np.abs(T - np.eye(d))) > 0.1), "labels": [sol, f"d={d}", f"n={c['n']}", "permutation" if c["perm"] else "general"]}


# ---- decoupled systems ---------------------------------------------------------------------------------

@lru
def _block(sol, N, n, d1, d2, sqrt, noisy):
    @jax.jit
    def run(p1, p2, s1, s2, x, P1, P2, h, sig, r1, r2, w):
        z = lambda a, b: jnp.block([[a, jnp.zeros((d1, d2))], [jnp.zeros((d2, d1)), b]])
        r = z(r1, r2) if noisy else None
        r1, r2 = (r1, r2) if noisy else (None, None)
        f1, f2 = (lambda x, t: F(p1, x, t)), (lambda x, t: F(p2, x, t))
        g1, g2 = (lambda x, t: S(s1, x, t)), (lambda x, t: S(s2, x, t))
        a = solve(sol, N, n, sqrt, f1, g1, x[:d1], P1, h, sig, r1, w[:, :d1])
        b = solve(sol, N, n, sqrt, f2, g2, x[d1:], P2, h, sig, r2, w[:, d1:])
        c = solve(sol, N, n, sqrt, lambda x, t: jnp.concatenate([f1(x[:d1], t), f2(x[d1:], t)]), lambda x, t: z(g1(x[:d1], t), g2(x[d1:], t)),
                  x, z(P1, P2), h, sig, r, w)
        return a, b, c
    return run


@st.composite
def block_case(draw, confs):
    sol, N, n, d1, d2, sqrt, noisy = draw(st.sampled_from(confs))
    return {"sol": sol, "N": N, "n": n, "d1": d1, "d2": d2, "sqrt": sqrt, "noisy": noisy, "f1": draw(gen.field(d1)), "f2": draw(gen.field(d2)),
            "s1": draw(gen.diffusion(d1, d1)), "s2": draw(gen.diffusion(d2, d2)), "x": draw(gen.vec(d1 + d2)), "P1": draw(gen.mat(d1, d1, -1, 1)),
            "P2": draw(gen.mat(d2, d2, -1, 1)), "h": draw(gen.logstep(-7, -1)), "sig": draw(gen.num(0.3, 3)),
            "r1": draw(gen.mat(d1, d1, -0.7, 0.7)), "r2": draw(gen.mat(d2, d2, -0.7, 0.7)),
            "incs": draw(gen.mat(N, d1 + d2, -1, 1))}


def check_block(c):
    d1, d2, sol = c["d1"], c["d2"], c["sol"]
    G1, G2 = np.array(c["P1"]), np.array(c["P2"])
    a, b, u = _block(sol, c["N"], c["n"], d1, d2, c["sqrt"], c["noisy"])(
        arrs(c["f1"]), arrs(c["f2"]), arrs(c["s1"]), arrs(c["s2"]), np.array(c["x"]), G1 @ G1.T, G2 @ G2.T, c["h"], c["sig"], cov(c["r1"]), cov(c["r2"]),
        np.array(c["incs"]) * np.sqrt(c["h"]))
    if not all(bounded(np.asarray(v)) for q in (a, b) for v in q.values()):
        return {"nontrivial": False, "labels": ["large"]}
    for k in a:
        x, y = np.asarray(a[k]), np.asarray(b[k])
        if k == "P":
            W = np.zeros((d1 + d2,) * 2)
            W[:d1, :d1], W[d1:, d1:] = x, y
            close_cov(u[k], W, f"{sol}: covariance of two unrelated systems", 1e-6, 1e-10, 1e-3)
        else:
            W = np.r_[x, y]
            close(u[k], W, f"{sol}: {k} of two unrelated systems", 1e-7, 1e-9, 1 + np.max(np.abs(W)))
    return {"nontrivial": True, "labels": [sol, f"{d1}+{d2}", f"n={c['n']}"]}


# ---- restart: N + M steps are N steps and then M from there --------------------------------------------

@lru
def _restart(kind, N, M, d):
    def part(x, p, s, h, n, t0, w):
        f, g = (lambda x, t: F(p, x, t + t0)), (lambda x, t: S(s, x, t + t0))
        if kind == "euler":
            return euler(x, f, h, n)
        if kind == "em":
            return euler_maruyama_pathwise(w, x, f, g, h, n)[1]
        ode = lambda k, init, vector_field, T: SOL[kind](None, init, vector_field, T / 2, 2)
        z = lambda x, t: jnp.zeros((d, 1))
        return sde_solver(jax.random.PRNGKey(0), f, z, x, lambda: family("approx", 1, 1), h, n, ode)[1]

    @jax.jit
    def run(x, p, s, h, w):
        a = part(x, p, s, h, N + M, 0.0, w)
        b = part(x, p, s, h, N, 0.0, w[:N])
        c = part(b if kind == "euler" else b[-1], p, s, h, M, N * h, w[N:])
        return (a, c) if kind == "euler" else (a, jnp.concatenate([b, c[1:]]))
    return run


@st.composite
def restart_case(draw, confs):
    kind, N, M, d = draw(st.sampled_from(confs))
    return {"kind": kind, "N": N, "M": M, "d": d, "f": draw(gen.field(d)), "s": draw(gen.diffusion(d, d)), "x": draw(gen.vec(d)), "h": draw(gen.logstep(-8, -2)),
            "incs": draw(gen.mat(N + M, d, -1, 1))}


def check_restart(c):
    a, b = _restart(c["kind"], c["N"], c["M"], c["d"])(np.array(c["x"]), arrs(c["f"]), arrs(c["s"]), c["h"], np.array(c["incs"]) * np.sqrt(c["h"]))
    b = np.asarray(b)
    if not bounded(b):
        return {"nontrivial": False, "labels": ["large"]}
    close(a, b, f"{c['kind']}: {c['N'] + c['M']} steps against {c['N']} and then {c['M']}", 1e-8, 1e-10, 1 + np.max(np.abs(b)))
    return {"nontrivial": True, "labels": [c["kind"]]}


# ---- change of the unit of time -------------------------------------------------------------------------

@lru
def _clock(sol, N, n, d, sqrt):
    @jax.jit
    def run(p, s, x, P, h, sig, c, w):
        out = []
        for u in (1.0, c):
            vf, df = (lambda x, t: u * F(p, x, u * t)), (lambda x, t: jnp.sqrt(u) * S(s, x, u * t))
            # the prior is that of the q-th derivative's Brownian motion: in the new unit sigma is multiplied by c^(q + 1/2)
            out.append(solve(sol, N, n, sqrt, vf, df, x, P, h / u, sig * u ** (n - 0.5), None, w / jnp.sqrt(u)))
        return out
    return run


@st.composite
def clock_case(draw, confs):
    sol, N, n, d, sqrt = draw(st.sampled_from(confs))
    return {"sol": sol, "N": N, "n": n, "d": d, "sqrt": sqrt, "f": draw(gen.field(d)), "s": draw(gen.diffusion(d, d)), "x": draw(gen.vec(d)),
            "P": draw(gen.mat(d, d, -1, 1)), "h": draw(gen.logstep(-7, -1)), "sig": draw(gen.num(0.3, 3)), "c": draw(gen.logstep(-16, 16)),
            "incs": draw(gen.mat(N, d, -1, 1))}


def check_clock(c):
    G = np.array(c["P"])
    u = c["c"]
    a, b = _clock(c["sol"], c["N"], c["n"], c["d"], c["sqrt"])(arrs(c["f"]), arrs(c["s"]), np.array(c["x"]), G @ G.T, c["h"], c["sig"], u,
                                                              np.array(c["incs"]) * np.sqrt(c["h"]))
    if not all(bounded(np.asarray(v)) for v in a.values()):
        return {"nontrivial": False, "labels": ["large"]}
    for k, v in a.items():
        v = np.asarray(v) * {"x": 1.0, "x2": u, "P": 1.0, "w": u ** -0.5, "w2": u ** -0.5}[k]
        sc = (1 + np.max(np.abs(np.asarray(a["x"])))) * max(1.0, {"x2": u}.get(k, 1.0)) + np.max(np.abs(v))
        if k == "P":
            close_cov(b[k], v, f"{c['sol']}: covariance in another unit of time", 1e-6, 1e-10, 1e-3)
        else:
            close(b[k], v, f"{c['sol']}: {k} in another unit of time", 1e-7, 1e-9, sc)
    return {"nontrivial": abs(np.log(u)) > 0.1, "labels": [c["sol"], f"n={c['n']}"]}


# ---- the path solver in other coordinates (same key, hence the same path) -----------------------------------

@lru
def _path(kind, N, d, m, fam):
    def ode(k, init, vector_field, T):
        return euler(init, vector_field, T / 4, 4) if kind == "euler" else SOL[kind](None, init, vector_field, T / 2, 2)

    @jax.jit
    def run(k, p, s, x, delta, T):
        Ti = jnp.linalg.inv(T)
        bm = lambda: family(fam, m, 3)
        a = sde_solver(k, lambda x, t: F(p, x, t), lambda x, t: S(s, x, t), x, bm, delta, N, ode)
        b = sde_solver(k, lambda y, t: T @ F(p, Ti @ y, t), lambda y, t: T @ S(s, Ti @ y, t), T @ x, bm, delta, N, ode)
        # an inert component of the noise, and a sign change of the equation
        return a, b
    return run


@st.composite
def path_case(draw, confs):
    kind, N, d, m, fam = draw(st.sampled_from(confs))
    return {"sol": kind, "N": N, "d": d, "m": m, "fam": fam, "f": draw(gen.field(d)), "s": draw(gen.diffusion(d, m)), "x": draw(gen.vec(d)),
            "delta": draw(gen.logstep(-8, -3)), "seed": draw(gen.seeds), "T": draw(st.integers(0, 10 ** 6)), "stretch": draw(gen.vec(d, -1, 1)),
            "perm": draw(st.booleans()), "noisy": False}


def check_path(c):
    T, _ = maps(c)
    a, b = _path(c["sol"], c["N"], c["d"], c["m"], c["fam"])(key(c["seed"]), arrs(c["f"]), arrs(c["s"]), np.array(c["x"]), c["delta"], T)
    x = np.asarray(a[1])
    if not bounded(x):
        return {"nontrivial": False, "labels": ["large"]}
    close(b[1], x @ T.T, f"path in other coordinates ({c['sol']})", 1e-7, 1e-9, 1 + np.max(np.abs(x)))
    for u, v in zip(a[2:], b[2:]):
        close(v, np.asarray(u), "driving path in other coordinates", 1e-12, 0)
    return {"nontrivial": bool(np.max(np.abs(T - np.eye(c["d"]))) > 0.1), "labels": [c["sol"], f"{c['d']}x{c['m']}", c["fam"]]}


# ---- change of the units of the coordinates --------------------------------------------------------------

KEYED = ["em keyed", "diag15", "hypo", "path"]


def keyed(sol, N, k, f, g, x, h):
    d = x.shape[0]
    if sol == "em keyed":
        return {"x": euler_maruyama(k, x, f, g, h, N)[1]}
    if sol == "diag15":
        return {"x": diag_15_scheme(k, x, lambda x: f(x, 0.0), lambda x: jnp.diag(jnp.diagonal(g(x, 0.0))), h, N)[1]}
    if sol == "hypo":
        low = jnp.tril(jnp.ones((d, d)), -1).T + jnp.eye(d)
        return {"x": hypoelliptic_diffusion_15_scheme(k, x, lambda x: f(x, 0.0), lambda x: (g(x, 0.0) * low).at[0].set(0.0), h, N)[1]}
    return {"x": sde_solver(k, f, g, x, lambda: family("approx", d, 3), h, N, lambda k, init, vector_field, T: euler(init, vector_field, T / 3, 3))[1]}


@lru
def _units(sol, N, n, d, sqrt, noisy):
    @jax.jit
    def run(p, s, x, P, h, sig, r, w, u, k):
        out = []
        for v in (jnp.ones(d), u):
            f, g = (lambda y, t: v * F(p, y / v, t)), (lambda y, t: v[:, None] * S(s, y / v, t))
            if sol in KEYED:
                out.append(keyed(sol, N, k, f, g, v * x, h))
                continue
            R = r * jnp.outer(v, v) if noisy else None
            one = sol.startswith("ssm")     # one prior for all coordinates, and the same unit for all of them
            out.append(solve(sol, N, n, sqrt, f, g, v * x, P * jnp.outer(v, v), h, sig * (v[0] if one else 1.0), R, w, None if one else v))
        return out
    return run


@st.composite
def units_case(draw, confs):
    sol, N, n, d, sqrt, noisy = draw(st.sampled_from(confs))
    c = {"sol": sol, "N": N, "n": n, "d": d, "sqrt": sqrt, "noisy": noisy, "f": draw(gen.field(d)), "s": draw(gen.diffusion(d, d)), "x": draw(gen.vec(d)),
         "P": draw(gen.mat(d, d, -1, 1)), "h": draw(gen.logstep(-7, -1)), "sig": draw(gen.num(0.3, 3)), "r": draw(gen.mat(d, d, -0.7, 0.7)),
         "incs": draw(gen.mat(N, d, -1, 1)), "seed": draw(gen.seeds)}
    if sol.startswith("ssm") or draw(st.booleans()):
        c["u"] = [draw(st.integers(-40, 40))] * d
    else:
        c["u"] = draw(st.lists(st.integers(-25, 25), min_size=d, max_size=d))
    return c


def check_units(c):
    d, sol = c["d"], c["sol"]
    G = np.array(c["P"])
    u = 2.0 ** np.array(c["u"], float)
    w = np.array(c["incs"]) * np.sqrt(c["h"])
    a, b = _units(sol, c["N"], c["n"], d, c["sqrt"], c["noisy"])(arrs(c["f"]), arrs(c["s"]), np.array(c["x"]), G @ G.T, c["h"], c["sig"], cov(c["r"]), w, u,
                                                                  key(c["seed"]))
    if not all(bounded(np.asarray(v)) for v in a.values()):
        return {"nontrivial": False, "labels": ["large"]}
    for k, v in a.items():
        v, z = np.asarray(v), np.asarray(b[k])
        if k == "P":
            close_cov(z / np.outer(u, u), v, f"{sol}: covariance in other units", 1e-6, 1e-10, 1e-3)
        else:
            z = z if k[0] == "w" else z / u
            close(z, v, f"{sol}: {k} in other units", 1e-7, 1e-9, 1 + np.max(np.abs(v)) + np.max(np.abs(a["x"])))
    return {"nontrivial": bool(np.max(np.abs(c["u"])) > 3), "labels": [sol, f"d={d}", "one unit" if len(set(c["u"])) == 1 else "several units"]}


AC = [(s, N, n, d, sq, nz) for s in DET for N, d in ((1, 2), (3, 2), (2, 3), (1, 4), (6, 2), (1, 9)) for n in ((2, 3) if s in ("ekf0", "ekf1") else (2,))
      for sq in ((False, True) if s not in ("euler", "em") else (False,)) for nz in ((False, True) if s not in ("euler", "em") else (False,))]
BC = [(s, N, n, a, b, sq, nz) for s in DET for N, a, b in ((2, 1, 1), (3, 1, 2), (1, 2, 1), (2, 2, 3)) for n in ((2, 3) if s in ("ekf0", "ekf1") else (2,))
      for sq in ((False, True) if s not in ("euler", "em") else (False,)) for nz in ((False, True) if s not in ("euler", "em") else (False,))]
RC = [(k, N, M, 2) for k in ("euler", "em", "ekf0", "ekf1") for N, M in ((1, 1), (3, 2), (40, 25))]
CC = [(s, N, n, d, sq) for s in DET for N, d in ((1, 1), (3, 2)) for n in ((2, 3) if s in ("ekf0", "ekf1") else (2,))
      for sq in ((False, True) if s not in ("euler", "em") else (False,))]
PC = [(s, N, 2, m, f) for s in ("euler", "ekf0", "ekf1") for N, m in ((1, 2), (3, 1)) for f in ("approx", "brownian", "fine")]
UC = [(s, N, n, d, sq, nz) for s in DET for N, d in ((1, 2), (4, 3)) for n in ((2, 3) if s in ("ekf0", "ekf1") else (2,))
      for sq in ((False, True) if s not in ("euler", "em") else (False,)) for nz in ((False, True) if s not in ("euler", "em") else (False,))]
UC += [(s, N, 2, d, False, False) for s in KEYED for N, d in ((1, 3), (6, 2), (3, 4))]
SUBS = [
    Sub("coordinates", lambda i, n: gen.starting(affine_case(AC[i::n]), "x"), check_affine, quick=40, thorough=800, shards=4, thorough_shards=8, weight=2,
        rule="all deterministic solvers under invertible, orthogonal or permutation maps of the state (and of the Brownian motion); non-trivial: not the identity"),
    Sub("decoupled", lambda i, n: block_case(BC[i::n]), check_block, quick=40, thorough=800, shards=4, thorough_shards=8, weight=2,
        rule="two unrelated systems solved together and apart, 1-3 coordinates each; every bounded case counts"),
    Sub("restart", lambda i, n: gen.starting(restart_case(RC), "x"), check_restart, quick=40, thorough=600, shards=1, thorough_shards=2,
        rule="N + M steps against N and then M, time-dependent fields: Euler, Euler-Maruyama and the path solver without noise; every bounded case counts"),
    Sub("clock", lambda i, n: gen.starting(clock_case(CC[i::n]), "x"), check_clock, quick=40, thorough=700, shards=3, thorough_shards=6,
        rule="the same problem in another unit of time (factor 2^-16 to 2^16); non-trivial: factor away from one"),
    Sub("path", lambda i, n: gen.starting(path_case(PC[i::n]), "x"), check_path, quick=30, thorough=500, shards=2, thorough_shards=4,
        rule="the path solver with the same key in other coordinates; non-trivial: not the identity"),
    Sub("units", lambda i, n: gen.starting(units_case(UC[i::n]), "x"), check_units, quick=40, thorough=800, shards=4, thorough_shards=8, weight=2,
        rule="all solvers and schemes (keyed ones with the same key) with the coordinates in units of 2^-40 to 2^40, priors, noises and covariances transformed; "
             "non-trivial: some unit beyond 8 or 1/8"),
]
