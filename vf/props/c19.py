"""C19: filters that carry their posterior (algorithm 3) against an independent filter."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, ref
from vf.lib import F, S, Sub, arr, arrs, close, close_cov, jax, jnp, key, lru, require, tup
from vf.props.common import family
from vf.props.c17 import bounded

from bayesian_sde_solver.ode_solvers import ekf0_2, ekf1_2
from bayesian_sde_solver.sde_solver import sde_solver

META = {"assumptions": ["two states per coordinate (as documented)", "with all results requested, the joint state comes as (sample, mean, covariance, "
                        "innovation covariance, innovation) of the last step, the order its users rely on"]}

SOL = {"ekf0_2": ekf0_2, "ekf1_2": ekf1_2}


@lru
def _run(sol, d, N, sqrt, default, noisy, ret):
    @jax.jit
    def f(k, p, s, m, P, h, xi, Q, A, R):
        return SOL[sol](k, (s, m, P), lambda z, t: F(p, z, t), h, N, sqrt=sqrt, prior=None if default else (xi, Q, A),
                        noise=R if noisy else None, return_all=ret)

    @jax.jit
    def g(p, s, m, P, h, xi, Q, A, R):
        return SOL[sol](None, (s, m, P), lambda z, t: F(p, z, t), h, N, sqrt=sqrt, prior=None if default else (xi, Q, A),
                        noise=R if noisy else None, return_all=ret)
    return f, g


@st.composite
def case(draw, confs):
    sol, d, N, sqrt, kind, noisy = draw(st.sampled_from(confs))
    D = 2 * d
    c = gen.spread(draw, {"sol": sol, "d": d, "N": N, "sqrt": sqrt, "kind": kind, "noisy": noisy, "f": draw(gen.field(d)), "m": draw(gen.vec(d)),
         "s": draw(gen.vec(d, -9, 9)), "s2": draw(gen.vec(d, -9, 9)), "P": draw(gen.mat(d, d, -1, 1)), "rank": draw(st.sampled_from([0, 1, d, d])),
         "h": draw(gen.logstep(-7, -1)), "sig": draw(gen.num(0.1, 4)), "seed": draw(gen.seeds), "seed2": draw(gen.seeds)}, "m")
    if kind == "general":
        c.update(xi=draw(gen.vec(D, -0.3, 0.3)), A=draw(gen.mat(D, D, -0.3, 0.3)), Q=draw(gen.mat(D, D, -0.5, 0.5)))
    if noisy:
        c["R"] = draw(gen.mat(d, d, -0.3, 0.3))
    return c


def build(c):
    from vf.props import c17
    return c17.build(dict(c, n=2))


def check(c):
    d, N, h, sq = c["d"], c["N"], c["h"], c["sqrt"]
    zero = c["sol"] == "ekf0_2"
    p, m0, s0 = arrs(c["f"]), np.array(c["m"]), np.array(c["s"])
    G = np.array(c["P"])[:, :c["rank"]]
    P0 = G @ G.T
    pr, R = build(c)
    m, P, z, S = ref.alg3(p, m0, P0, pr, R, h, N, zero)
    if not bounded(m) or np.linalg.cond(S) > 1e9:
        return {"nontrivial": False, "labels": ["large"]}
    w = f"{c['sol']} ({c['kind']}, square root {sq})"
    big = 1 + np.max(np.abs(m))
    ex = 1e-3 * np.sqrt(np.max(np.diag(P)))
    for ret in (False, True):
        f, g = _run(c["sol"], d, N, sq, c["kind"] == "default", c["noisy"], ret)
        args = (p, s0, m0, P0, h, *pr, R)
        out = g(*args)
        if ret:
            out, full = tup(out, 2, w)
            sf, mf, Pf, Sf, zf = tup(full, 5, w)
            close(mf, m, "mean of the joint state, " + w, 1e-6, 1e-8, big)
            close_cov(Pf, P, "covariance of the joint state, " + w, 1e-6, 1e-10, ex)
            close(zf, z, "last innovation, " + w, 1e-6, 1e-8, big)
            close_cov(Sf, S, "last innovation covariance, " + w, 1e-6, 1e-12, 1e-3 * np.sqrt(np.max(np.diag(S))))
            close(sf, m, "joint state without sampling, " + w, 1e-6, 1e-8, big)
        s1, m1, P1 = tup(out, 3, w)
        close(m1, m[::2], "mean, " + w, 1e-6, 1e-8, big)
        close_cov(P1, P[::2, ::2], "covariance, " + w, 1e-6, 1e-10, ex)
        close(s1, m[::2], "result without a key is the mean, " + w, 1e-6, 1e-8, big)
        # with a key: same law carried forward, whatever the incoming sample and the key
        a = tup(f(key(c["seed"]), *args), None)
        b = tup(f(key(c["seed2"]), p, np.array(c["s2"]), m0, P0, h, *pr, R), None)
        if ret:
            (sa, ma, Pa), fa = a
            (sb, mb, Pb), fb = b
            close(np.asarray(fa[0])[::2], arr(sa, (d,), "sample"), "joint sample against the returned sample", 0, 1e-12 * big)
        else:
            (sa, ma, Pa), (sb, mb, Pb) = tup(a, 3), tup(b, 3)
        arr(sa, (d,), "sample")
        for mm, PP, ww in ((ma, Pa, "key"), (mb, Pb, "key and incoming sample")):
            close(mm, m1, f"mean depends on the {ww}", 0, 1e-9 * big)
            close_cov(PP, P[::2, ::2], f"covariance depends on the {ww}", 1e-6, 1e-10, ex)
    return {"nontrivial": c["rank"] > 0, "labels": [c["sol"], c["kind"], f"N={N}", f"rank={c['rank']}", f"noise={c['noisy']}", f"sqrt={sq}"]}


# ---- chained over the steps of the path solver --------------------------------------------------

@lru
def _path(sol, d, m, N, M, sampled):
    @jax.jit
    def run(k, p, s, x0, delta):
        ode = lambda k, init, vector_field, T: SOL[sol](k if sampled else None, init, vector_field, T / M, M)
        return sde_solver(k, lambda x, t: F(p, x, t), lambda x, t: S(s, x, t), (x0, x0, jnp.zeros((d, d))), lambda: family("approx", m, 1), delta, N, ode)
    return run


@st.composite
def path_case(draw, confs):
    sol, d, m, N, M, sampled = draw(st.sampled_from(confs))
    return {"sol": sol, "d": d, "m": m, "N": N, "M": M, "sampled": sampled, "f": draw(gen.field(d, 0.7)), "s": draw(gen.diffusion(d, m, 0.7)), "x0": draw(gen.vec(d, -1, 1)),
            "delta": draw(gen.logstep(-7, -2)), "seed": draw(gen.seeds)}


def check_path(c):
    """Gaussian law transported along the random path: mean and covariance of step k start from those of step k - 1."""
    d, mm, N, M, delta = c["d"], c["m"], c["N"], c["M"], c["delta"]
    p, s, x0 = arrs(c["f"]), arrs(c["s"]), np.array(c["x0"])
    out = _path(c["sol"], d, mm, N, M, c["sampled"])(key(c["seed"]), p, s, x0, delta)
    ts, traj, a, b = tup(out, 4, "path")
    sam, mean, cov = tup(traj, 3, "trajectory")
    sam, mean, cov = arr(sam, (N + 1, d), "samples"), arr(mean, (N + 1, d), "means"), arr(cov, (N + 1, d, d), "covariances")
    a, b = np.asarray(a), np.asarray(b)
    from vf.lib import Fjac, Fn, Sjac, Sn
    f, J, sg, Js = Fn(p), Fjac(p), Sn(s), Sjac(s)
    m, P = x0, np.zeros((d, d))
    h = delta / M
    pr = ref.ibm_prior(1, h, d)
    zero = c["sol"] == "ekf0_2"
    close(mean[0], x0, "initial mean", 0, 0)
    close(cov[0], P, "initial covariance", 0, 0)
    for k in range(N):
        rate = lambda t: (a[k] + np.sqrt(6) * b[k] * (1 - 2 * t / delta)) / delta
        vf = lambda x, t: f(x, t + k * delta) + sg(x, t + k * delta) @ rate(t)
        jac = lambda x, t: J(x, t + k * delta) + np.einsum("ijl,j->il", Js(x, t + k * delta), rate(t))
        H = np.zeros((d, d)) if zero else jac(m, 0.0)
        PP = np.zeros((2 * d, 2 * d))
        PP[::2, ::2], PP[::2, 1::2], PP[1::2, ::2], PP[1::2, 1::2] = P, P @ H.T, H @ P, H @ P @ H.T
        m2, P2, _, _ = ref.ode_filter(ref.interlace([m, vf(m, 0.0)]), PP, pr, np.zeros((d, d)), vf, jac, h, M, 2, zero)
        m, P = m2[::2], P2[::2, ::2]
        if not bounded(m):
            return {"nontrivial": False, "labels": ["large"]}
        big = 1 + np.max(np.abs(m))
        close(mean[k + 1], m, f"mean after {k + 1} steps", 1e-6, 1e-8, big)
        close_cov(cov[k + 1], P, f"covariance after {k + 1} steps", 1e-5, 1e-12, 1e-3 * np.sqrt(np.max(np.diag(P))))
        if not c["sampled"]:
            close(sam[k + 1], m, "trajectory without sampling", 1e-6, 1e-8, big)
    return {"nontrivial": N > 1, "labels": [c["sol"], f"N={N}", "sampled" if c["sampled"] else "mean"]}


CONF = [(s, d, N, sq, k, nz) for s in SOL for d, N in ((1, 3), (2, 1), (2, 4), (3, 2), (5, 1), (8, 1)) for sq in (False, True) for k in ("default", "ibm", "general", "matern") for nz in (False, True)]
PC = [(s, d, m, N, M, sm) for s in SOL for d, m in ((1, 1), (2, 2), (2, 1)) for N, M in ((3, 2), (1, 4), (5, 1), (12, 1)) for sm in (False, True)]
SUBS = [
    Sub("algorithm3", lambda i, n: case(CONF[i::n]), check, quick=40, thorough=900, shards=6, thorough_shards=8, weight=2,
        rule="ekf0_2/ekf1_2 from a Gaussian with a covariance of any rank: means, covariances, joint state, innovations, default / integrated / Matern / "
             "arbitrary priors, noise, square-root settings; two keys and two incoming samples leave the carried law unchanged; non-trivial: non-zero covariance"),
    Sub("path", lambda i, n: gen.starting(path_case(PC[i::n]), "x0"), check_path, quick=30, thorough=600, shards=2, thorough_shards=4,
        rule="the law carried along 1-5 steps of the path solver, recomputed from the returned path coefficients; non-trivial: several steps"),
]
