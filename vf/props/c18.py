"""C18: a key makes the solvers return a draw of their Gaussian posterior; no key, its mean."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, ref
from vf.lib import F, Fjac, Fn, S, Sub, Violation, arr, arrs, close, jax, jnp, key, lru, mean_cov_test, normality_test, tup
from vf.props.c17 import bounded

from bayesian_sde_solver.ode_solvers import ekf0, ekf0_2, ekf1, ekf1_2
from bayesian_sde_solver.ssm_parabola import ekf0_marginal_parabola, ekf1_marginal_parabola

META = {"assumptions": ["reference law: the independent numpy filters", "statistical comparisons at 7.5 standard errors"]}
SOL = {"ekf0": ekf0, "ekf1": ekf1, "ekf0_2": ekf0_2, "ekf1_2": ekf1_2, "ssm0": ekf0_marginal_parabola, "ssm1": ekf1_marginal_parabola}
NS = 12000


@lru
def _run(sol, n, d, N, sqrt, noisy, given):
    @jax.jit
    def f(k, p, s, x, P, h, xi, Q, A, R):
        vf = lambda z, t: F(p, z, t)
        kw = dict(sqrt=sqrt, prior=(xi, Q, A) if given else None, noise=R if noisy else None)

        def one(q):
            if sol.startswith("ssm"):
                return jnp.concatenate(SOL[sol](q, x, h * N, vf, lambda z, t: S(s, z, t), h, N, **kw))
            if sol.endswith("2"):
                if sqrt == noisy:
                    return SOL[sol](q, (x + 1, x, P), vf, h, N, **kw)[0]
                a, b = SOL[sol](q, (x + 1, x, P), vf, h, N, return_all=True, **kw)
                return jnp.concatenate([a[0], b[0]])
            return SOL[sol](q, x, vf, h, N, **kw)
        return jax.vmap(one)(jax.random.split(k, NS)), one(None)
    return f


@st.composite
def case(draw, confs):
    sol, n, d, N, sqrt, noisy, given = draw(st.sampled_from(confs))
    return {"sol": sol, "n": n, "d": d, "N": N, "sqrt": sqrt, "noisy": noisy, "given": given, "f": draw(gen.field(d)), "s": draw(gen.diffusion(d, d)),
            "x": draw(gen.vec(d)), "P": draw(gen.mat(d, d, -1, 1)), "rank": draw(st.sampled_from([0, 1, d])), "h": draw(gen.logstep(-5, -1)),
            "sig": draw(gen.num(0.3, 3)), "R": draw(gen.mat(d, d, -0.5, 0.5)), "seed": draw(gen.seeds)}


def check(c):
    sol, n, d, N, h = c["sol"], c["n"], c["d"], c["N"], c["h"]
    p, s, x = arrs(c["f"]), arrs(c["s"]), np.array(c["x"])
    G = np.array(c["P"])[:, :c["rank"]]
    P0 = G @ G.T
    Rg = np.array(c["R"])
    R = Rg @ Rg.T if c["noisy"] else np.zeros((d, d))
    sig = c["sig"] if c["given"] else 1.0
    zero = "0" in sol
    if sol.startswith("ssm"):
        pr = ref.ibm_prior(1, h, 1, sig)
        m, P, _, _ = ref.ssm_filter(p, s, x, h * N, pr, R, h, N, zero)
        sel = np.r_[np.arange(0, 4 * d, 4), np.arange(2, 4 * d, 4), np.arange(3, 4 * d, 4)]
    else:
        pr = ref.ibm_prior(n - 1, h, d, sig)
        if sol.endswith("2"):
            m, P, _, _ = ref.alg3(p, x, P0, pr, R, h, N, zero)
            sel = np.arange(0, 2 * d, 2) if c["sqrt"] == c["noisy"] else np.r_[np.arange(0, 2 * d, 2), np.arange(2 * d)]
        else:
            m, P, _, _ = ref.alg2(p, x, pr, R, h, N, n, zero)
            sel = np.arange(0, n * d, n)
    if not bounded(m):
        return {"nontrivial": False, "labels": ["large"]}
    mean, cov = m[sel], P[np.ix_(sel, sel)]
    xs, nokey = _run(sol, n, d, N, c["sqrt"], c["noisy"], c["given"])(key(c["seed"]), p, s, x, P0, h, *pr, R)
    big = 1 + np.max(np.abs(m))
    w = f"{sol} ({n} states, square root {c['sqrt']})"
    close(nokey, mean, f"{w} without a key", 1e-6, 1e-8, big)
    xs = arr(xs, (NS, len(sel)), f"samples of {w}")
    mean_cov_test(xs, mean, cov, f"samples of {w}", extra_mean=1e-7 * big, extra_cov=1e-9)
    sd = np.sqrt(np.diag(cov))
    for i in range(d):
        if sd[i] > 1e-6:
            normality_test((xs[:, i] - mean[i]) / sd[i], f"samples of {w}")
    return {"nontrivial": bool(sd[0] > 1e-6), "labels": [sol, f"n={n}", f"sqrt={c['sqrt']}", f"noise={c['noisy']}"]}


# ---- along the path solver: each step samples its own Gaussian ------------------------------------
CONF = [(s, n, d, N, sq, nz, gv) for s in ("ekf0", "ekf1") for n, d, N in ((2, 1, 2), (2, 2, 1), (3, 2, 2), (4, 1, 3), (2, 5, 2)) for sq in (False, True)
        for nz in (False, True) for gv in ((True,) if n != 2 else (False, True))]
CONF += [(s, 2, d, N, sq, nz, gv) for s in ("ekf0_2", "ekf1_2", "ssm0", "ssm1") for d, N in ((1, 2), (2, 1), (3, 1), (1, 6)) for sq in (False, True) for nz in (False, True) for gv in (False, True)]
SUBS = [Sub("posterior_law", lambda i, n: gen.starting(case(CONF[i::n]), "x"), check, quick=18, thorough=250, shards=8, thorough_shards=8,
            rule=f"six solvers, {NS} keys per case: mean, covariance (also between positions, Brownian increments and second coefficients) and normality "
                 "against the reference posterior; without a key the mean; non-trivial: non-degenerate posterior")]
