"""C06: randomness discipline of the path solvers: fresh, independent streams per step and per purpose."""
import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.lib import Sub, arr, close, jax, jnp, key, lru, mean_cov_test, require, tup
from vf.props.common import FAMS, family, n_extra
from vf.props.c03 import uncorrelated
from vf.props.longpaths import NF, _keys_run, long_sub

from bayesian_sde_solver.ode_solvers import ekf0, ekf0_2, ekf1, ekf1_2
from bayesian_sde_solver.sde_solver import sde_solver
from bayesian_sde_solver.sde_solvers import diag_15_scheme, euler_maruyama, hypoelliptic_diffusion_15_scheme
from bayesian_sde_solver.ssm_parabola import ekf1_marginal_parabola as ssm_ekf1, ssm_parabola_ode_solver

META = {"assumptions": ["the keys handed to the step solvers are recorded by step solvers of the harness",
                        "raw uint32[2] keys, as everywhere in the package"]}

# ---- the keys each step receives ------------------------------------------------

@st.composite
def keys_case(draw, confs):
    which, N, d, fam = draw(st.sampled_from(confs))
    seed, seed2 = draw(gen.seed_pairs())
    return {"which": which, "N": N, "d": d, "fam": fam, "seed": seed, "seed2": seed2,
            "delta": draw(gen.logstep(-8, 2)), "x0": draw(gen.vec(d))}


def check_keys(c):
    N, d, fam, delta = c["N"], c["d"], c["fam"], c["delta"]
    run = _keys_run(c["which"], N, d, fam)
    k = key(c["seed"])
    ks, a, b = run(k, np.array(c["x0"]), delta)
    ks = arr(ks, (N + 1, 2), "recorded keys")[1:]
    keys_ = [tuple(int(v) for v in r) for r in ks]
    require(len(set(keys_)) == N, f"two steps receive the same sampling key: {keys_}")
    require(tuple(int(v) for v in np.asarray(k)) not in keys_, "a step receives the caller's own key")
    ks2, a2, b2 = run(k, np.array(c["x0"]), delta)
    require(np.array_equal(np.asarray(ks2)[1:], ks) and np.array_equal(np.asarray(a2), np.asarray(a)),
            "the same call gives another result")
    other = run(key(c["seed2"]), np.array(c["x0"]), delta)
    same = c["seed"] == c["seed2"]
    if not same:
        o = {tuple(int(v) for v in r) for r in np.asarray(other[0])[1:]}
        require(not o & set(keys_), "two callers' keys lead to the same step key")
    if c["which"] == "sde":
        a, b = arr(a, (N, d), "increments"), arr(b, (N, d), "coefficients")
        za, zb = np.sqrt(1 / delta) * a, np.sqrt(2 / delta) * b
        vals = np.round(np.r_[za.ravel(), zb.ravel()] if fam != "brownian" else za.ravel(), 12)
        require(len(set(vals.tolist())) == vals.size, "two Brownian coefficients of a path are equal")
        if not same:
            require(not np.any(np.isclose(np.asarray(other[1]), a, rtol=1e-12, atol=0)), "two callers' keys give the same increment")
        # the sampling keys must not regenerate the Brownian coefficients
        for i in range(N):
            kk = jnp.asarray(ks[i], jnp.uint32)
            z = np.asarray(_normals(d)(kk))
            for row in z:
                require(not np.any(np.all(np.isclose(za, row, rtol=1e-10, atol=0), axis=1))
                        and not np.any(np.all(np.isclose(zb, row, rtol=1e-10, atol=0), axis=1)),
                        "the sampling stream of a step reproduces its Brownian coefficients")
    return {"nontrivial": N > 1 and not same, "labels": [c["which"], f"N={N}"]}


@lru
def _normals(d):
    return jax.jit(lambda k: jnp.concatenate([jax.random.normal(k, (2, d)), jax.random.normal(k, (1, d)),
                                              jax.random.normal(k, (2 * d,)).reshape(2, d)]))


# ---- joint law over many paths: everything random in a path is independent -----------

NP = 6000


@lru
def _joint_run(N, d, fam):
    def ode_int(k, init, vector_field, T):
        return jax.random.normal(k, (d,))

    def one(k, delta):
        out = sde_solver(key=k, drift=lambda x, t: 0 * x, sigma=lambda x, t: jnp.eye(d), x0=jnp.zeros(d),
                         bm=lambda: family(fam, d, NF), delta=delta, N=N, ode_int=ode_int)
        return jnp.concatenate([out[1][1:].ravel(), (out[2] / jnp.sqrt(delta)).ravel(), (out[3] / jnp.sqrt(delta / 2)).ravel()])

    return jax.jit(lambda k, delta: jax.vmap(lambda q: one(q, delta))(jax.random.split(k, NP)))


@st.composite
def joint_case(draw, confs):
    N, d, fam = draw(st.sampled_from(confs))
    return {"N": N, "d": d, "fam": fam, "seed": draw(gen.seeds), "delta": draw(gen.logstep(-6, 2))}


def check_joint(c):
    N, d, fam = c["N"], c["d"], c["fam"]
    x = arr(_joint_run(N, d, fam)(key(c["seed"]), c["delta"]), (NP, 3 * N * d), "samples")
    C = np.eye(3 * N * d)
    if fam == "brownian":
        C[2 * N * d:, 2 * N * d:] *= 1 - 1 / NF ** 2
    mean_cov_test(x, np.zeros(3 * N * d), C, "joint law of sampling noise and Brownian coefficients over the steps")
    return {"nontrivial": N > 1, "labels": [fam, f"N={N}"]}


# ---- the classical schemes: increments of a path are independent -----------------------

@lru
def _scheme_run(which, N, d):
    I = jnp.eye(d)
    if which == "hypo":
        I = I.at[0, 0].set(0.0)

    def one(k, h):
        if which == "em":
            _, s = euler_maruyama(k, jnp.zeros(d), lambda x, t: 0 * x, lambda x, t: I, h, N)
        elif which == "diag15":
            _, s = diag_15_scheme(k, jnp.zeros(d), lambda x: 0 * x, lambda x: I, h, N)
        else:
            _, s = hypoelliptic_diffusion_15_scheme(k, jnp.zeros(d), lambda x: (0 * x).at[0].set(jnp.sum(x[1:])), lambda x: I, h, N)
            s = s[:, 1:]
        return jnp.diff(s, axis=0).ravel() / jnp.sqrt(h)
    return jax.jit(lambda k, h: jax.vmap(lambda q: one(q, h))(jax.random.split(k, NP)))


@st.composite
def scheme_case(draw, confs):
    which, N, d = draw(st.sampled_from(confs))
    return {"which": which, "N": N, "d": d, "seed": draw(gen.seeds), "h": draw(gen.logstep(-8, 1))}


def check_scheme(c):
    N, d = c["N"], c["d"]
    k = N * (d - (c["which"] == "hypo"))
    x = arr(_scheme_run(c["which"], N, d)(key(c["seed"]), c["h"]), (NP, k), "increments")
    mean_cov_test(x, np.zeros(k), np.eye(k), f"increments of successive steps ({c['which']})")
    return {"nontrivial": N > 1, "labels": [c["which"]]}


# ---- every bit of the caller's key matters -----------------------------------------------

WHO = ["em", "diag15", "hypo", "sde", "ssm", "ekf0", "ekf1", "ekf0_2", "ekf1_2", "ssm_step"]


@lru
def _caller(which, d, N):
    """Function of (key, x0, h) returning arrays of which every entry is random."""
    eye = jnp.eye(d)
    f = lambda x, t: -x + t
    s = lambda x, t: 1.5 * eye

    def run(k, x0, h):
        if which == "em":
            return euler_maruyama(k, x0, f, s, h, N)[1][1:]
        if which == "diag15":
            return diag_15_scheme(k, x0, lambda x: -x, lambda x: 1.5 * eye, h, N)[1][1:]
        if which == "hypo":
            x0 = jnp.concatenate([jnp.zeros(1), x0])
            return hypoelliptic_diffusion_15_scheme(k, x0, lambda x: (-x).at[0].set(jnp.sum(x[1:])),
                                                    lambda x: jnp.eye(d + 1).at[0, 0].set(0.0), h, N)[1][1:]
        if which in ("sde", "ekf0", "ekf1"):
            sol = {"ekf0": ekf0, "ekf1": ekf1}.get(which)
            ode = (lambda key, init, vector_field, T: init + T * vector_field(init, 0.0)) if sol is None else (
                lambda key, init, vector_field, T: sol(key, init=init, vector_field=vector_field, h=T, N=1))
            _, x, a, b = sde_solver(key=k, drift=f, sigma=s, x0=x0, bm=lambda: family("approx", d, 1), delta=h, N=N, ode_int=ode)
            return jnp.concatenate([x[1:], a, b])
        if which in ("ekf0_2", "ekf1_2"):
            sol = ekf0_2 if which == "ekf0_2" else ekf1_2
            _, x, a, b = sde_solver(key=k, drift=f, sigma=s, x0=(x0, x0, jnp.zeros((d, d))), bm=lambda: family("approx", d, 1), delta=h, N=N,
                                    ode_int=lambda key, init, vector_field, T: sol(key, init=init, vector_field=vector_field, h=T, N=1))
            return jnp.concatenate([x[0][1:], a, b])
        step = lambda key, init, drift, diffusion, T: ssm_ekf1(key, init=init, drift=drift, diffusion=diffusion, delta=T, h=T, N=1)
        if which == "ssm":
            return ssm_parabola_ode_solver(key=k, drift=f, sigma=s, x0=x0, delta=h, N=N, solver=step)[1][1:]
        return jnp.stack(step(k, x0, f, s, h))
    return jax.jit(run)


@st.composite
def caller_case(draw, confs):
    which, d, N = draw(st.sampled_from(confs))
    return {"which": which, "d": d, "N": N, "seeds": list(draw(gen.seed_pairs())), "x0": draw(gen.vec(d)), "h": draw(gen.logstep(-8, 0))}


def check_caller(c):
    run = _caller(c["which"], c["d"], c["N"])
    x0, h = np.array(c["x0"]), c["h"]
    a, a2, b = (np.asarray(run(key(s), x0, h)) for s in (c["seeds"][0], c["seeds"][0], c["seeds"][1]))
    require(np.array_equal(a, a2), "the same call gives another result")
    require(bool(np.all(np.isfinite(a))), "non-finite result")
    if c["seeds"][0] != c["seeds"][1]:
        same = np.isclose(a, b, rtol=1e-9, atol=1e-12)
        require(not np.any(same), f"two keys give the same random values: keys {c['seeds']}, {int(same.sum())} of {same.size} entries")
    return {"nontrivial": c["seeds"][0] != c["seeds"][1], "labels": [c["which"]]}


# ---- Brownian path and sampled solution ------------------------------------------------

@lru
def _corr_run(solver, N, d):
    sol = {"ekf0": ekf0, "ekf1": ekf1}[solver]

    def one(k, delta, which):
        ode = lambda k, init, vector_field, T: sol(k if which else None, init=init, vector_field=vector_field, h=T / 2, N=2)
        return sde_solver(key=k, drift=lambda x, t: -x, sigma=lambda x, t: jnp.eye(d), x0=jnp.ones(d),
                          bm=lambda: family("approx", d, 1), delta=delta, N=N, ode_int=ode)

    @jax.jit
    def run(k, delta):
        ks = jax.random.split(k, 3000)
        s = jax.vmap(lambda q: one(q, delta, True))(ks)
        m = jax.vmap(lambda q: one(q, delta, False))(ks)
        return s[1][:, 1:], m[1][:, 1:], s[2], m[2], s[3]
    return run


@st.composite
def corr_case(draw, confs):
    sol, N, d = draw(st.sampled_from(confs))
    return {"solver": sol, "N": N, "d": d, "seed": draw(gen.seeds), "delta": draw(gen.logstep(-5, 0))}


def check_corr(c):
    """The posterior-sampling noise is independent of the driving path, and does not change it."""
    N, d = c["N"], c["d"]
    s, m, a, a2, b = _corr_run(c["solver"], N, d)(key(c["seed"]), c["delta"])
    n = 3000
    s, m, a, a2, b = (arr(v, (n, N, d), "samples") for v in (s, m, a, a2, b))
    require(np.array_equal(a, a2), "sampling the posterior changes the driving Brownian path")
    e = (s - m)[:, 0].reshape(n, -1)
    sd = e.std(0)
    require(bool(np.all(sd > 0)), "no posterior sampling noise")
    e = e / sd
    for nm, v in (("increments", a / np.sqrt(c["delta"])), ("second coefficients", b / np.sqrt(c["delta"] / 2))):
        v = v.reshape(n, -1)
        cor = e.T @ v / n
        require(bool(np.all(np.abs(cor) < 7.5 / np.sqrt(n))), f"sampling noise correlated with the {nm} of the path: {cor.tolist()}")
    return {"nontrivial": True, "labels": [c["solver"]]}


# ---- many components ----------------------------------------------------------------------

NX = 2000


@lru
def _wide_run(which, d, N):
    """(key, h) -> (NX, N * entries) of standardised random numbers of NX paths, supposed independent standard normal."""
    eye = jnp.eye(d)
    zero = lambda x, *t: jnp.zeros(d)

    def one(k, h):
        if which == "em":
            return jnp.diff(euler_maruyama(k, jnp.ones(d), zero, lambda x, t: eye, h, N)[1], axis=0) / jnp.sqrt(h)
        if which == "diag15":
            return jnp.diff(diag_15_scheme(k, jnp.ones(d), zero, lambda x: eye, h, N)[1], axis=0) / jnp.sqrt(h)
        if which == "hypo":
            x = hypoelliptic_diffusion_15_scheme(k, jnp.ones(d + 1), lambda x: jnp.zeros(d + 1).at[0].set(jnp.sum(x[1:])),
                                                 lambda x: jnp.eye(d + 1).at[0, 0].set(0.0), h, N)[1]
            return jnp.diff(x[:, 1:], axis=0) / jnp.sqrt(h)
        if which == "sampled":
            ode = lambda key, init, vector_field, T: ekf0(key, init=init, vector_field=zero, h=T, N=1, noise=0.1 * eye) - init
        else:
            ode = lambda key, init, vector_field, T: init
        out = sde_solver(key=k, drift=zero, sigma=lambda x, t: eye, x0=jnp.zeros(d), bm=lambda: family("approx" if which == "sampled" else which, d, 2),
                         delta=h, N=N, ode_int=ode)
        if which == "sampled":
            return out[1][1:]
        return jnp.concatenate([out[2] / jnp.sqrt(h)] + ([out[3] / jnp.sqrt(h / 2)] if which == "approx" else []), axis=0)
    return jax.jit(lambda k, h: jax.vmap(lambda q: one(q, h))(jax.random.split(k, NX)).reshape((NX, -1)))


@st.composite
def wide_case(draw, confs):
    which, d, N = draw(st.sampled_from(confs))
    return {"which": which, "d": d, "N": N, "seed": draw(gen.seeds), "h": draw(gen.logstep(-8, 2))}


def check_wide(c):
    x = np.asarray(_wide_run(c["which"], c["d"], c["N"])(key(c["seed"]), c["h"]))
    x = arr(x, (NX, x.size // NX), "random numbers")
    if c["which"] == "sampled":
        sd = x.std(0)
        require(bool(np.all(sd > 0)), "no posterior sampling noise")
        x = x / sd.mean()
        x = x - x.mean(0)
    uncorrelated(x, f"random numbers of {c['N']} steps in {c['d']} components ({c['which']})")
    return {"nontrivial": True, "labels": [c["which"], f"d={c['d']}"]}


XC = [(w, d, N) for w in ("em", "diag15", "hypo", "sampled") + tuple(FAMS) for d, N in ((9, 3), (12, 5), (16, 2), (17, 3), (20, 2), (34, 2), (66, 2), (130, 1))
      if d < 40 or w not in ("sampled", "diag15")]
KC = [("sde", N, d, f) for N in (1, 2, 6) for d in (1, 2) for f in FAMS] + [("ssm", N, d, "approx") for N in (1, 3, 7) for d in (1, 2)]
JC = [(N, d, f) for N in (1, 2, 4) for d in (1, 2) for f in FAMS]
SC = [(w, N, d) for w in ("em", "diag15", "hypo") for N in (2, 5) for d in (2, 3)]
CC = [(s, N, d) for s in ("ekf0", "ekf1") for N in (1, 2) for d in (1, 2)]
WC = [(w, d, N) for w in WHO for d in (1, 2) for N in (1, 3)]
SUBS = [
    long_sub(("sde", "em", "diag15", "ssm", "hypo"), 12, 4),
    Sub("step_keys", lambda i, n: keys_case(KC[i::n]), check_keys, quick=50, thorough=800, shards=3,
        rule="both path solvers with step solvers that record the key they receive; 1-7 steps; non-trivial: several steps, two distinct caller keys"),
    Sub("caller_keys", lambda i, n: caller_case(WC[i::n]), check_caller, quick=80, thorough=2000, shards=2,
        rule="paths and steps drawn with two keys that differ in one word or one bit: no random value is shared; non-trivial: two keys"),
    Sub("joint_law", lambda i, n: joint_case(JC[i::n]), check_joint, quick=10, thorough=120, shards=2, thorough_shards=4,
        rule=f"{NP} paths per case; all random numbers of a path (path coefficients and sampling keys) are jointly independent; non-trivial: several steps"),
    Sub("schemes", lambda i, n: scheme_case(SC[i::n]), check_scheme, quick=14, thorough=160, shards=2, thorough_shards=3,
        rule=f"{NP} paths per case of the classical schemes; increments over steps and coordinates independent with the right law"),
    Sub("many_components", lambda i, n: wide_case(XC[i::n]), check_wide, quick=7, thorough=60, shards=3, thorough_shards=4,
        rule=f"paths with 9-130 components, {NX} paths: the random numbers of all components and steps (schemes, posterior sampling, path coefficients) are uncorrelated, "
             "of the right variance and never repeated; every case counts"),
    Sub("posterior_noise", lambda i, n: corr_case(CC[i::n]), check_corr, quick=8, thorough=80, shards=1, thorough_shards=2,
        rule="3000 paths per case solved with and without sampling; the noise is independent of the path and leaves it unchanged"),
]
