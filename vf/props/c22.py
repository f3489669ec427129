"""C22: the diagonal-noise scheme is the strong Ito-Taylor scheme of order 1.5."""
import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.lib import (F, Fjac, Fn, Sub, Violation, arr, arrs, close, jax, jnp, key, lru, mean_cov_test, normality_test,
                    require, tup)

from vf.props.common import stepwise
from vf.props.longpaths import long_sub

from bayesian_sde_solver.sde_solvers import diag_15_scheme

META = {"assumptions": ["componentwise noise: coordinate i is driven by its own Brownian motion with a coefficient that depends on coordinate i only",
                        "the draws depend on the key, the step, the number of steps and the dimension only, not on the equation"]}


def sig(p, x, xp=jnp):
    """s_i(x_i)."""
    return p["a"] + p["b"] * xp.sin(p["c"] * x + p["p"]) + p["g"] * x


def dsig(p, x):
    return p["b"] * p["c"] * np.cos(p["c"] * x + p["p"]) + p["g"]


def ddsig(p, x):
    return -p["b"] * p["c"] ** 2 * np.sin(p["c"] * x + p["p"])


@st.composite
def sparams(draw, d):
    return {k: draw(gen.vec(d, -1.5, 1.5)) for k in ("a", "b", "c", "p")} | {"g": draw(gen.vec(d, -1, 1))}


def hess_diag_f(p, x):
    """H[i, j] = d2 f_i / dx_j^2 of gen.field at t = 0."""
    s = np.sin(p["C"] @ x + p["p"])
    return -(p["c"] * s)[:, None] * p["C"] ** 2 + np.diag(2 * p["g"])


@lru
def _run(d, N):
    return jax.jit(lambda k, x, f, s, h: diag_15_scheme(k, x, lambda x: F(f, x, 0.0), lambda x: jnp.diag(sig(s, x)), h, N))


ZF = lambda d: {k: np.zeros((d, d)) if k in "AC" else np.zeros(d) for k in ("b", "A", "c", "C", "w", "p", "g", "e")}
ONE = lambda d: {k: np.full(d, 1.0 if k == "a" else 0.0) for k in "abcpg"}


def draws(d, N, k, h):
    """eta (Brownian increments) and zeta (their time integrals), from two equations with the same key."""
    x0 = np.zeros(d)
    w = arr(_run(d, N)(k, x0, ZF(d), ONE(d), h)[1], (N + 1, d), "Brownian motion")
    eta = np.diff(w, axis=0)
    f = ZF(d)
    f["A"] = np.eye(d)
    y = arr(_run(d, N)(k, x0, f, ONE(d), h)[1], (N + 1, d), "linear equation")
    zeta = y[1:] - y[:-1] * (1 + h + h * h / 2) - eta
    return eta, zeta


def recursion(got, fp, sp, x0, eta, zeta, h):
    fp, sp = arrs(fp), arrs(sp)
    f, J = Fn(fp), Fjac(fp)

    def step(k, x):
        w, z = eta[k], zeta[k]
        a, s, s1, s2 = f(x, 0.0), sig(sp, x, np), dsig(sp, x), ddsig(sp, x)
        Ja = J(x, 0.0)
        return (x + a * h + s * w
                   + 0.5 * s * s1 * (w ** 2 - h)
                   + Ja @ (s * z)
                   + 0.5 * (Ja @ a + 0.5 * hess_diag_f(fp, x) @ s ** 2) * h ** 2
                   + (a * s1 + 0.5 * s ** 2 * s2) * (w * h - z)
                   + 0.5 * s * (s * s2 + s1 ** 2) * (w ** 2 / 3 - h) * w)
    return stepwise(got, x0, step)


@st.composite
def rec_case(draw, confs):
    d, N = draw(st.sampled_from(confs))
    return gen.spread(draw, {"d": d, "N": N, "h": draw(gen.logstep(-9, -1 if N < 10 else -3 if N < 50 else -6)), "f": draw(gen.field(d, 0.8, time=False)), "s": draw(sparams(d)),
            "x0": draw(gen.vec(d)), "seed": draw(gen.seeds)}, "x0")


def check_rec(c):
    d, N, h = c["d"], c["N"], c["h"]
    k = key(c["seed"])
    r = tup(_run(d, N)(k, np.array(c["x0"]), arrs(c["f"]), arrs(c["s"]), h), 2)
    close(r[0], np.arange(N + 1) * h, "time grid", 1e-12)
    eta, zeta = draws(d, N, k, h)
    got = arr(r[1], (N + 1, d), "trajectory", finite=False)
    want, n = recursion(got, c["f"], c["s"], c["x0"], eta, zeta, h)
    close(got[:n], want, "trajectory against the order 1.5 recursion, step by step", 1e-8, scale=1 + np.max(np.abs(want)))
    nt = np.any(np.abs(dsig(arrs(c["s"]), np.array(c["x0"]))) > 0.05)
    return {"nontrivial": bool(nt), "labels": [f"d={d}", f"N={N}"]}


B = 20000


@lru
def _law(d, N):
    def one(k, h, A):
        f = {q: jnp.asarray(v) for q, v in ZF(d).items()} | {"A": A}
        s = {q: jnp.asarray(v) for q, v in ONE(d).items()}
        return diag_15_scheme(k, jnp.zeros(d), lambda x: F(f, x, 0.0), lambda x: jnp.diag(sig(s, x)), h, N)[1]
    return jax.jit(lambda k, h, A: jax.vmap(lambda q: one(q, h, A))(jax.random.split(k, B)))


@st.composite
def law_case(draw, confs):
    d, N = draw(st.sampled_from(confs))
    return {"d": d, "N": N, "h": draw(gen.logstep(-9, 0)), "seed": draw(gen.seeds)}


def check_law(c):
    d, N, h = c["d"], c["N"], c["h"]
    k = key(c["seed"])
    w = arr(_law(d, N)(k, h, np.zeros((d, d))), (B, N + 1, d), "Brownian motion")
    eta = np.diff(w, axis=1)
    y = arr(_law(d, N)(k, h, np.eye(d)), (B, N + 1, d), "linear equation")
    zeta = y[:, 1:] - y[:, :-1] * (1 + h + h * h / 2) - eta
    u = np.stack([eta / np.sqrt(h), zeta / h ** 1.5], -1).reshape(B, N * d * 2)
    C = np.kron(np.eye(N * d), np.array([[1.0, 0.5], [0.5, 1 / 3]]))
    mean_cov_test(u, np.zeros(N * d * 2), C, "(increment, time integral) over (h^1/2, h^3/2)")
    for j in range(0, u.shape[1], 2):
        normality_test(u[:, j], f"increment {j // 2}")
        normality_test(u[:, j + 1] * np.sqrt(3), f"time integral {j // 2}")
    return {"nontrivial": N * d > 1, "labels": [f"d={d}", f"N={N}"]}


# ---- rate: X = phi(y0 + mu t + r W), known exactly from the Brownian motion -------------------------
NP = 400


def phi(kind, al, xp):
    if kind == "exp":
        return lambda y: xp.exp(y / al), lambda y: xp.exp(y / al) / al, lambda y: xp.exp(y / al) / al ** 2, lambda x: al * xp.log(x)
    return lambda y: al * xp.sinh(y / al), lambda y: xp.cosh(y / al), lambda y: xp.sinh(y / al) / al, lambda x: al * xp.arcsinh(x / al)


@lru
def _rate(d, N, kind):
    def one(k, y0, mu, r, al):
        p, d1, d2, inv = phi(kind, al, jnp)
        drift = lambda x: d1(inv(x)) * mu + 0.5 * d2(inv(x)) * r * r
        x = diag_15_scheme(k, p(y0), drift, lambda x: jnp.diag(d1(inv(x)) * r), 1.0 / N, N)[1]
        w = diag_15_scheme(k, jnp.zeros(d), lambda x: jnp.zeros(d), lambda x: jnp.eye(d), 1.0 / N, N)[1]
        return x[-1], w[-1]
    return jax.jit(lambda k, *a: jax.vmap(lambda q: one(q, *a))(jax.random.split(k, NP)))


@st.composite
def rate_case(draw, confs):
    d, kind = draw(st.sampled_from(confs))
    r = draw(st.lists(gen.num(0.3, 0.8), min_size=d, max_size=d))
    return {"d": d, "kind": kind, "y0": draw(gen.vec(d, -0.5, 0.5)), "mu": draw(gen.vec(d, -1, 1)), "r": r,
            "al": draw(gen.vec(d, 1.0, 1.6)), "seed": draw(gen.seeds)}


def check_rate(c):
    d = c["d"]
    a = [np.array(c[k]) for k in ("y0", "mu", "r", "al")]
    p = phi(c["kind"], a[3], np)[0]
    errs = []
    for N in (16, 64):
        x, w = _rate(d, N, c["kind"])(key(c["seed"]), *a)
        x, w = arr(x, (NP, d), "solution"), arr(w, (NP, d), "Brownian motion")
        errs.append(np.sqrt(np.mean((x - p(a[0] + a[1] + a[2] * w)) ** 2, axis=0)))
    # order 1.5 divides by eight, order one by four; one half by two
    ratio = errs[1] / errs[0]
    if np.any(ratio > 0.19):
        raise Violation(f"root-mean-square errors {errs[0]} with 16 steps, {errs[1]} with 64 ({c['kind']}): ratios {ratio}, order 1.5 gives 1/8")
    return {"nontrivial": bool(np.any(np.array(c["mu"]))), "labels": [c["kind"], f"d={d}"]}


RC = [(d, N) for d in (1, 2, 3) for N in (1, 2, 6)] + [(5, 2), (8, 1), (2, 40), (1, 300)]
LC = [(1, 3), (2, 2), (3, 1)]
QC = [(d, k) for d in (1, 2) for k in ("exp", "sinh")]
SUBS = [
    Sub("recursion", lambda i, n: rec_case(RC[i::n]), check_rec, quick=90, thorough=1500, shards=3, thorough_shards=6,
        rule="the trajectory against the Kloeden-Platen order 1.5 recursion (analytic derivatives) on the draws recovered from two other equations "
             "run with the same key; non-trivial: state-dependent noise"),
    Sub("law", lambda i, n: law_case(LC[i::n]), check_law, quick=8, thorough=100, shards=1, thorough_shards=3,
        rule=f"{B} runs per case: joint law of increments and their time integrals; non-trivial: more than one increment"),
    Sub("rate", lambda i, n: rate_case(QC[i::n]), check_rate, quick=10, thorough=150, shards=2, thorough_shards=4,
        rule=f"transformed Brownian motion, {NP} paths: error with 64 steps over error with 16; non-trivial: non-zero trend"),
    long_sub(("diag15",), 10),
]
