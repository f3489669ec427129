"""C08: every public function is a pure function of its arguments: no mutation, no memory, and the same
values eagerly, jitted and vectorized."""
import functools
import importlib
import sys

import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.lib import F, S, Sub, Violation, arr, arrs, jax, jnp, key, lru, require
from vf.props.common import FAMS, family

import bayesian_sde_solver.ode_solvers as odes
import bayesian_sde_solver.sde_solvers as sdes
import bayesian_sde_solver.ode_solvers.probnum as pn
from bayesian_sde_solver.ito_stratonovich import to_ito, to_stratonovich
from bayesian_sde_solver.ode_solvers.probnum.calibration import mle_diffusion
from bayesian_sde_solver.sde_solver import sde_solver
from bayesian_sde_solver.ssm_parabola import ekf0_marginal_parabola, ekf1_marginal_parabola, ssm_parabola_ode_solver

META = {"assumptions": ["numpy arrays and jax arrays are both accepted wherever the callers in the repository pass either"]}

D = 2
I2 = np.eye(D)


def _ops():
    """name -> (function of array arguments only, strategy-shapes of the arguments)."""
    o = {}
    fields = ("f",)
    vf = lambda f: (lambda x, t: F(f, x, t))
    dif = lambda s: (lambda x, t: S(s, x, t))
    for n in ("ekf0", "ekf1"):
        for sq in (False, True):
            o[f"{n}-{sq}"] = (lambda k, x, f, h, n=n, sq=sq: getattr(odes, n)(k, x, vf(f), h, 2, sqrt=sq), "kxfh")
            o[f"{n}-mean-{sq}"] = (lambda x, f, h, n=n, sq=sq: getattr(odes, n)(None, x, vf(f), h, 2, sqrt=sq), "xfh")
    for n in ("ekf0_2", "ekf1_2"):
        o[n] = (lambda k, x, y, P, f, h, n=n: getattr(odes, n)(k, (x, y, P @ P.T), vf(f), h, 2), "kxyPfh")
        o[n + "-all"] = (lambda x, y, P, f, h, n=n: getattr(odes, n)(None, (x, y, P @ P.T), vf(f), h, 2, sqrt=True, noise=I2 * .1, return_all=True), "xyPfh")
    o["euler"] = (lambda x, f, h: odes.euler(x, vf(f), h, 3), "xfh")
    o["em"] = (lambda k, x, f, s, h: sdes.euler_maruyama(k, x, vf(f), dif(s), h, 3), "kxfsh")
    for std in (False, True):
        o[f"em-path-{std}"] = (lambda w, x, f, s, h, std=std: sdes.euler_maruyama_pathwise(w, x, vf(f), dif(s), h, 3, standard=std), "wxfsh")
    o["diag15"] = (lambda k, x, f, h: sdes.diag_15_scheme(k, x, lambda z: F(f, z, 0.0), lambda z: jnp.diag(1 + 0.3 * jnp.sin(z)), h, 2), "kxfh")
    o["hypo15"] = (lambda k, x, f, h: sdes.hypoelliptic_diffusion_15_scheme(
        k, x, lambda z: F(f, z, 0.0).at[0].add(7 * z[1]), lambda z: jnp.array([[0., 0.], [1., 0.5]]), h, 2), "kxfh")
    for fam in ("approx", "brownian", "fine"):
        o["coeffs-" + fam] = (lambda k, h, fam=fam: family(fam, D, 3)[0](k, h), "kh")
        o["sde-" + fam] = (lambda k, x, f, s, h, fam=fam: sde_solver(
            k, vf(f), dif(s), x, lambda: family(fam, D, 3), h, 2, lambda k, init, vector_field, T: odes.ekf0(k, init, vector_field, T / 2, 2)), "kxfsh")
    o["eval"] = (lambda h, x, y: family("approx", D, 1)[1](h / 3, h, x, y), "hxy")
    o["strat"] = (lambda x, f, s: to_stratonovich(vf(f), dif(s))[0](x, 0.3), "xfs")
    o["ito"] = (lambda x, f, s: to_ito(vf(f), dif(s))[0](x, 0.3), "xfs")
    for n in ("ekf0_2", "ekf1_2"):
        o[n + "-mean"] = (lambda x, y, P, f, h, n=n: getattr(odes, n)(None, (x, y, P @ P.T), vf(f), h, 2), "xyPfh")
    for n, fn in (("ssm0", ekf0_marginal_parabola), ("ssm1", ekf1_marginal_parabola)):
        for sq in (False, True):
            o[f"{n}-mean-{sq}"] = (lambda x, f, s, h, fn=fn, sq=sq: fn(None, x, h, vf(f), dif(s), h / 2, 2, sqrt=sq), "xfsh")
    o["sde-mean"] = (lambda k, x, f, s, h: sde_solver(
        k, vf(f), dif(s), x, lambda: family("fine", D, 3), h, 2, lambda k, init, vector_field, T: odes.ekf1(None, init, vector_field, T / 2, 2)), "kxfsh")
    o["ssm-path-mean"] = (lambda k, x, f, s, h: ssm_parabola_ode_solver(
        k, vf(f), dif(s), x, h, 2, lambda k, init, drift, diffusion, T: ekf1_marginal_parabola(None, init, T, drift, diffusion, T, 1)), "kxfsh")
    o["ssm0"] = (lambda k, x, f, s, h: ekf0_marginal_parabola(k, x, h, vf(f), dif(s), h / 2, 2), "kxfsh")
    o["ssm1"] = (lambda k, x, f, s, h: ekf1_marginal_parabola(k, x, h, vf(f), dif(s), h / 2, 2, sqrt=True), "kxfsh")
    o["ssm-path"] = (lambda k, x, f, s, h: ssm_parabola_ode_solver(
        k, vf(f), dif(s), x, h, 2, lambda k, init, drift, diffusion, T: ekf0_marginal_parabola(k, init, T, drift, diffusion, T, 1)), "kxfsh")
    o["ioup"] = (lambda h: pn.IOUP_transition_function(0.5, 1.3, 2, h, 2), "h")
    o["matern32"] = (lambda h: pn.matern_transition_function(1, 1.3, 0.7, h, 2), "h")
    o["transition"] = (lambda P, x, h: pn.transition_function(P, x, P[:, :1], h, n_linspace=50), "Pxh")
    o["pad"] = (lambda x, P: pn.pad_prior((x, P, P), 3), "xP")
    o["factor"] = (lambda x, P, y: pn.get_independently_factorized_prior(((x, P, P), (y, P, P))), "xPy")
    o["interlace"] = (lambda x, y: pn.interlace((x, y)), "xy")
    o["interlace-m"] = (lambda P: pn.interlace_matrix(P, 2 * P, 3 * P, 4 * P), "P")
    o["mle"] = (lambda w, P: mle_diffusion(w, jnp.stack([P @ P.T + jnp.eye(D)] * 3)), "wP")
    return o


OPS = _ops()
NAMES = sorted(OPS)
# Posterior samples are mean + factor @ normals.  The factor of a singular covariance is only determined up to signs
# (or a choice of eigenvectors) that rounding decides, so the same key may give another draw of the same law under
# another compilation: for these only calls of the same mode are compared, the others by shape.
SAMPLED = {"ekf0-False", "ekf0-True", "ekf1-False", "ekf1-True", "ekf0_2", "ekf1_2", "sde-approx", "sde-brownian", "sde-fine",
           "ssm0", "ssm1", "ssm-path"}
assert SAMPLED <= set(NAMES)
ARG = {"k": gen.seeds, "x": gen.vec(D), "y": gen.vec(D), "P": gen.mat(D, D, -1, 1), "h": gen.logstep(-8, -3),
       "w": gen.mat(3, D), "f": gen.field(D), "s": gen.diffusion(D, D)}


@st.composite
def op_case(draw, names):
    n = draw(st.sampled_from(names))
    two = [{a: draw(ARG[a]) for a in OPS[n][1]} for _ in range(2)]
    return {"op": n, "args": two}


def make(n, args, numpy=True):
    out = []
    for a in OPS[n][1]:
        v = args[a]
        if a == "k":
            v = np.array(key(v)) if numpy else key(v)
        else:
            v = arrs(v)
        out.append(v)
    return out


def flat(x, what):
    leaves = jax.tree_util.tree_leaves(x)
    return [arr(v, None, what, finite=False) for v in leaves]


def same(a, b, what, rtol=1e-9):
    require(len(a) == len(b), f"{what}: {len(a)} against {len(b)} values")
    for x, y in zip(a, b):
        require(x.shape == y.shape, f"{what}: shape {x.shape} against {y.shape}")
        sc = max(1e-3, float(np.max(np.abs(y), initial=0.0)))
        if not np.allclose(x, y, rtol=0, atol=rtol * sc, equal_nan=True):
            raise Violation(f"{what}: {np.array2string(x, threshold=20)} against {np.array2string(y, threshold=20)}")


@lru
def _jit(n):
    return jax.jit(OPS[n][0])


@lru
def _vmap(n):
    return jax.jit(jax.vmap(OPS[n][0]))


def alike(n, a, b, what, rtol):
    if n not in SAMPLED:
        return same(a, b, what, rtol)
    require([x.shape for x in a] == [x.shape for x in b], f"{what}: shapes {[x.shape for x in a]} against {[x.shape for x in b]}")


def check_modes(c):
    n = c["op"]
    fn = OPS[n][0]
    a0, a1 = (make(n, c["args"][i]) for i in range(2))
    before = [np.array(v, copy=True) for v in jax.tree_util.tree_leaves((a0, a1))]
    jit0, jit1 = flat(_jit(n)(*a0), n), flat(_jit(n)(*a1), n)
    eager = flat(fn(*a0), n)                       # eagerly, numpy arguments
    for u, v in zip(before, jax.tree_util.tree_leaves((a0, a1))):
        require(np.array_equal(u, v), f"{n}: an argument was changed in place")
    again = flat(fn(*make(n, c["args"][0], numpy=False)), n)   # eagerly, fresh arguments
    same(again, eager, f"{n}: called a second time", 1e-12)
    alike(n, eager, jit0, f"{n}: eager against jitted", 1e-7)
    st_ = jax.tree_util.tree_map(lambda u, v: np.stack([u, v]), a0, a1)
    vm = flat(_vmap(n)(*st_), n)
    alike(n, [v[0] for v in vm], jit0, f"{n}: vectorized (first) against alone", 1e-7)
    alike(n, [v[1] for v in vm], jit1, f"{n}: vectorized (second) against alone", 1e-7)
    same(flat(_jit(n)(*a0), n), jit0, f"{n}: jitted a second time", 0.0)
    return {"nontrivial": c["args"][0] != c["args"][1], "labels": [n]}


@st.composite
def history_case(draw, names):
    pool = [draw(op_case(names)) for _ in range(draw(st.integers(1, 3)))]
    calls = draw(st.lists(st.tuples(st.integers(0, len(pool) - 1), st.integers(0, 1), st.sampled_from(["eager", "jit"])),
                          min_size=3, max_size=7))
    return {"pool": pool, "calls": [list(x) for x in calls]}


def check_history(c):
    """A sequence of calls of several functions: the same call always gives the same value,
    whatever was called before; arguments shared by calls are never changed."""
    shared = {(i, j): make(p["op"], p["args"][j]) for i, p in enumerate(c["pool"]) for j in range(2)}
    orig = {q: [np.array(v, copy=True) for v in jax.tree_util.tree_leaves(a)] for q, a in shared.items()}
    seen = {}
    rep = 0
    for i, j, mode in c["calls"]:
        n = c["pool"][i]["op"]
        r = flat((_jit(n) if mode == "jit" else OPS[n][0])(*shared[i, j]), n)
        rep += any(q[:2] == (i, j) for q in seen)
        same(r, seen.setdefault((i, j, mode if n in SAMPLED else ""), r), f"{n}: called again later in a history", 1e-7)
        for q, a in shared.items():
            for u, v in zip(orig[q], jax.tree_util.tree_leaves(a)):
                require(np.array_equal(u, v), f"{n}: changed an argument of {c['pool'][q[0]]['op']} in place")
    return {"nontrivial": rep > 0, "labels": [f"calls={len(c['calls'])}"]}


@st.composite
def all_case(draw, names):
    two = [{a: draw(ARG[a]) for a in sorted(ARG)} for _ in range(2)]
    return {"ops": list(names), "args": two}


def check_all(c):
    for n in c["ops"]:
        check_modes({"op": n, "args": c["args"]})
    return {"nontrivial": c["args"][0] != c["args"][1], "labels": ["operations " + str(len(c["ops"]))]}


# ---- variants: the same function with other settings in between, against a freshly imported package ----------

def fresh():
    """The modules of a new instance of the package, as in a new process; the one in use stays in sys.modules."""
    root = "bayesian_sde_solver"
    saved = {k: m for k, m in sys.modules.items() if k == root or k.startswith(root + ".")}
    for k in saved:
        del sys.modules[k]
    try:
        return modules()
    finally:
        for k in [k for k in sys.modules if k == root or k.startswith(root + ".")]:
            del sys.modules[k]
        sys.modules.update(saved)


def modules():
    im = lambda n: importlib.import_module("bayesian_sde_solver." + n)
    return {"fp": im("foster_polynomial"), "is": im("ito_stratonovich"), "sde": im("sde_solver"), "ode": im("ode_solvers"), "pn": im("ode_solvers.probnum"),
            "cal": im("ode_solvers.probnum.calibration"), "sch": im("sde_solvers"), "ssm": im("ssm_parabola"), "ivp": im("utils.ivp"), "ins": im("utils.insert")}


class Field:
    def __init__(self, fn, p):
        self.fn, self.p = fn, p

    def __call__(self, x, t):
        return self.fn(self.p, x, t)

    def method(self, x, t):
        return self.fn(self.p, x, t)


def _callable(fn, p, form):
    """The same field as a closure, a function with a default argument, a bound method, a callable object or a partial application."""
    if form == "default":
        return lambda x, t, p=p: F(p, x, t) if "b" in p else S(p, x, t)
    if form == "method":
        return Field(fn, p).method
    if form == "object":
        return Field(fn, p)
    if form == "partial":
        return functools.partial(fn, p)
    return lambda x, t: fn(p, x, t)


def _vf(c, name="f"):
    return _callable(F, arrs(c[name]), c["form"])


def _df(c):
    return _callable(S, arrs(c["s"]), c["form"])


def _prior(m, c):
    if c["prior"] == "none":
        return None
    if c["prior"] == "ioup":
        return m["pn"].IOUP_transition_function(c["theta"], c["sigma"], 1, c["h"], c["d"])
    return m["pn"].matern_transition_function(1, c["sigma"], c["length"], c["h"], c["d"])


def _noise(c):
    return None if c["noise"] is None else c["noise"] * np.eye(c["d"])


def _fam(m, c):
    d = c["d"]
    return {"approx": lambda: m["fp"].get_approx(dim=d), "brownian": lambda: m["fp"].get_approx_and_brownian(dim=d, N=c["n"]),
            "fine": lambda: m["fp"].get_approx_fine(dim=d, N=c["n"])}[c["fam"]]


def _key(c):
    return key(c["seed"])


def _x(c):
    return np.array(c["x"])


def _ode(m, c):
    if c["step"] == "euler":
        return lambda k, init, vector_field, T: m["ode"].euler(init, vector_field, T / c["N"], c["N"])
    f = getattr(m["ode"], c["step"])
    return lambda k, init, vector_field, T: f(None, init, vector_field, T / c["N"], c["N"], sqrt=c["sqrt"])


def _two(m, c, which):
    return getattr(m["ode"], which)(None, (_x(c), _x(c), c["P"] * np.eye(c["d"])), _vf(c), c["h"], c["N"], sqrt=c["sqrt"], prior=_prior(m, c),
                                    noise=_noise(c), return_all=c["all"])


def _ssm(m, c, which):
    one = dict(c, d=1)
    return getattr(m["ssm"], which)(None, _x(c), c["h"] * c["N"], _vf(c), _df(c), c["h"], c["N"], sqrt=c["sqrt"], prior=_prior(m, one), noise=_noise(c))


def _problem(m, c):
    out = getattr(m["ivp"], c["problem"])()
    x0, drift, sigma = out[:3]
    t = () if c["problem"] in ("synaptic_conductance", "synaptic_conductance_reduced", "harmonic_oscillator_square") else (0.3,)
    return x0, drift(x0 + 1, *t), sigma(x0 + 1, *t), [f(c["h"]) for f in out[3:]]


def _bm_eval(m, c):
    get, ev = _fam(m, c)()
    co = get(_key(c), c["h"])
    return co, ev(0.4 * c["h"], c["h"], *co)


def _diag(m, c):
    a = c["sigma"]
    return m["sch"].diag_15_scheme(_key(c), _x(c), lambda x: _vf(c)(x, 0.0), lambda x: jnp.diag(a + 0.3 * jnp.sin(x)), c["h"], c["N"])


def _hypo(m, c):
    a, d = c["sigma"], c["d"] + 1
    x = np.r_[_x(c), 0.5]
    p = arrs(c["f"])
    return m["sch"].hypoelliptic_diffusion_15_scheme(_key(c), x, lambda z: jnp.concatenate([F(p, z[:-1], 0.0) + 3 * z[1:], -z[-1:]]),
                                                     lambda z: jnp.zeros((d, d)).at[1:, 1:].set(a * jnp.eye(d - 1)), c["h"], c["N"])


def _linear_problem(m, c):
    x0, drift, sigma = m["ivp"].random_linear_sde(_key(c), c["d"]) if c["seed"] else m["ivp"].random_linear_sde(dim=c["d"])
    return x0, drift(x0, 0.0), sigma(x0, 0.0)


VOPS = {
    "ioup": lambda m, c: m["pn"].IOUP_transition_function(c["theta"], c["sigma"], c["q"], c["h"], c["d"]),
    "matern": lambda m, c: m["pn"].matern_transition_function(c["q"] - 1, c["sigma"], c["length"], c["h"], c["d"], mc=c["all"]),
    "lti": lambda m, c: m["pn"].transition_function(c["theta"] * np.eye(c["d"], k=1) - c["length"] * np.eye(c["d"]), _x(c), c["sigma"] * np.eye(c["d"])[:, :1], c["h"], n_linspace=c["n"] + 5),
    "pad": lambda m, c: m["pn"].pad_prior(m["pn"].IOUP_transition_function(c["theta"], c["sigma"], 1, c["h"], 1), c["q"] + 1),
    "factored": lambda m, c: m["pn"].get_independently_factorized_prior(tuple(m["pn"].IOUP_transition_function(0.0, c["sigma"] + i, 1, c["h"], 1) for i in range(c["d"]))),
    "bm": _bm_eval,
    "mle": lambda m, c: m["cal"].mle_diffusion(np.outer(np.arange(1, c["N"] + 1), _x(c)), np.stack([np.eye(c["d"]) * c["sigma"] + 0.1] * c["N"])),
    "strat": lambda m, c: m["is"].to_stratonovich(_vf(c), _df(c))[0](_x(c), c["h"]),
    "ito": lambda m, c: m["is"].to_ito(_vf(c), _df(c))[0](_x(c), c["h"]),
    "interlace": lambda m, c: (m["pn"].interlace((_x(c), 2 * _x(c), c["sigma"] * _x(c))), m["pn"].interlace_matrix(*(c["sigma"] * np.outer(_x(c), np.arange(c["d"]) + i) for i in range(4)))),
    "insert": lambda m, c: m["ins"].insert((np.outer(_x(c), _x(c)), np.ones((c["N"], c["d"]))) if c["all"] else np.ones((c["N"], c["d"])), 0, (_x(c), _x(c)) if c["all"] else _x(c), 0),
    "euler": lambda m, c: m["ode"].euler(_x(c), _vf(c), c["h"], c["N"]),
    "ekf0": lambda m, c: m["ode"].ekf0(None, _x(c), _vf(c), c["h"], c["N"], sqrt=c["sqrt"], prior=_prior(m, c), noise=_noise(c)),
    "ekf1": lambda m, c: m["ode"].ekf1(None, _x(c), _vf(c), c["h"], c["N"], sqrt=c["sqrt"], prior=_prior(m, c), noise=_noise(c)),
    "ekf1-key": lambda m, c: m["ode"].ekf1(_key(c), _x(c), _vf(c), c["h"], c["N"], sqrt=c["sqrt"], prior=_prior(m, c), noise=_noise(c)),
    "ekf0_2": lambda m, c: _two(m, c, "ekf0_2"),
    "ekf1_2": lambda m, c: _two(m, c, "ekf1_2"),
    "ssm0": lambda m, c: _ssm(m, c, "ekf0_marginal_parabola"),
    "ssm1": lambda m, c: _ssm(m, c, "ekf1_marginal_parabola"),
    "sde": lambda m, c: m["sde"].sde_solver(_key(c), _vf(c), _df(c), _x(c), _fam(m, c), c["h"], c["N"], _ode(m, c)),
    "ssm-path": lambda m, c: m["ssm"].ssm_parabola_ode_solver(
        _key(c), _vf(c), _df(c), _x(c), c["h"], c["N"],
        lambda k, init, drift, diffusion, T: m["ssm"].ekf0_marginal_parabola(None, init, T, drift, diffusion, T, 1, sqrt=c["sqrt"])),
    "em": lambda m, c: m["sch"].euler_maruyama(_key(c), _x(c), _vf(c), _df(c), c["h"], c["N"]),
    "em-path": lambda m, c: m["sch"].euler_maruyama_pathwise(np.outer(np.arange(c["N"]) - 1.0, _x(c)), _x(c), _vf(c), _df(c), c["h"], c["N"], standard=c["all"]),
    "diag15": _diag,
    "hypo15": _hypo,
    "problem": _problem,
    "linear-problem": _linear_problem,
}
HEAVY = ["ekf0", "ekf1", "ekf1-key", "ekf0_2", "ekf1_2", "ssm0", "ssm1", "sde", "ssm-path", "diag15", "hypo15"]
LIGHT = sorted(set(VOPS) - set(HEAVY))
POOL = {"theta": [0.0, 0.5, 2.0], "sigma": [1.0, 1.7], "length": [0.5, 1.25], "q": [1, 2, 3], "h": [0.25, 0.125], "n": [2, 3], "N": [1, 2, 3], "P": [0.0, 0.3],
        "seed": [0, 1, 2 ** 31], "sqrt": [False, True], "all": [False, True], "noise": [None, 0.1, 0.2], "prior": ["none", "ioup", "matern"],
        "fam": FAMS, "step": ["euler", "ekf0", "ekf1"],
        "form": ["closure", "default", "default", "method", "object", "partial"],
        "problem": ["fhn", "square_matrix_fhn", "ibm", "double_ibm", "square_matrix_ibm", "synaptic_conductance", "synaptic_conductance_reduced",
                    "harmonic_oscillator", "harmonic_oscillator_square", "gbm"]}


@st.composite
def variant_case(draw, names):
    ds = draw(st.sampled_from([(1, 2), (2, 3), (2, 2)]))
    base = {k: draw(st.sampled_from(v)) for k, v in POOL.items()}
    args = [{"f": draw(gen.field(d)), "s": draw(gen.diffusion(d, d)), "x": draw(gen.vec(d)), "d": d} for d in (ds + ds)[:3]]
    calls = []
    for i in range(draw(st.integers(3, 5))):
        c = dict(base)
        # what one call of the history changes: one to three settings, sometimes fields, state or dimension
        for k in draw(st.lists(st.sampled_from(sorted(POOL)), min_size=0 if i else 0, max_size=3, unique=True)):
            c[k] = draw(st.sampled_from(POOL[k]))
        c["arg"] = draw(st.integers(0, len(args) - 1))
        c["mix"] = draw(st.integers(0, len(args) - 1))
        calls.append(c)
    return {"ops": list(names), "args": args, "calls": calls}


def check_variants(c):
    out = {}
    for op in c["ops"]:
        out = check_variant({"op": op, "args": c["args"], "calls": c["calls"]})
    return {**out, "labels": c["ops"]}


def check_variant(c):
    fn = VOPS[c["op"]]
    mine = modules()
    seen = []
    for q in c["calls"]:
        a = c["args"][q["arg"]]
        b = c["args"][q["mix"]]
        call = {**q, **a}
        if b["d"] == a["d"]:
            call["s"] = b["s"]
        got = flat(fn(mine, dict(call)), c["op"])
        want = flat(fn(fresh(), dict(call)), c["op"])
        same(got, want, f"{c['op']} after {len(seen)} other calls against the same call in a new session", 1e-9)
        seen.append(call)
    return {"nontrivial": any(x != seen[0] for x in seen), "labels": [c["op"]]}


# ---- settings: no call leaves a trace in the process outside of its value ----------------------------------------

def snapshot():
    import os
    import random
    st = np.random.get_state()
    return {"jax settings": {k: v for k, v in jax.config.values.items()}, "numpy's random state": (st[0], st[1].tobytes(), st[2:]),
            "python's random state": random.getstate(), "numpy's error handling": np.geterr(), "numpy's print options": str(np.get_printoptions()),
            "recursion limit": sys.getrecursionlimit(), "environment": dict(os.environ), "working directory": os.getcwd(),
            "default type": str(jnp.zeros(1).dtype)}


PROBES = ["ioup", "bm", "em", "euler"]
WIDE = {**POOL, "q": [1, 2, 3, 4, 5, 6, 7, 8], "n": [2, 3, 60], "N": [1, 2, 3, 40], "h": [2.0, 0.25, 2.0 ** -12], "seed": [0, 1, 2 ** 31, 2 ** 32 - 1]}


@st.composite
def settings_case(draw, names):
    pick = lambda d: {**{k: draw(st.sampled_from(v)) for k, v in WIDE.items()}, "f": draw(gen.field(d)), "s": draw(gen.diffusion(d, d)), "x": draw(gen.vec(d)), "d": d}
    probe = pick(2)
    probe["q"] = min(probe["q"], 3)
    return {"probe": draw(st.sampled_from(PROBES)), "args": probe, "fresh": draw(st.integers(0, 3)) == 0,
            "calls": [[op, pick(draw(st.sampled_from([1, 2, 4, 7])))] for op in
                      draw(st.lists(st.sampled_from(names), min_size=3, max_size=5))]}


def check_settings(c):
    m = modules()
    bits = lambda: [np.asarray(v) for v in jax.tree_util.tree_leaves(VOPS[c["probe"]](m, dict(c["args"])))]
    p0, s0 = bits(), snapshot()
    for op, a in c["calls"]:
        a = dict(a)
        if op in ("matern", "pad"):
            a["q"] = min(a["q"], 4)
        VOPS[op](fresh() if c["fresh"] else m, a)
        s1 = snapshot()
        for k in s0:
            require(s0[k] == s1[k], f"{op} changed the {k}")
    for x, y in zip(p0, bits()):
        require(x.dtype == y.dtype and np.array_equal(x, y, equal_nan=True),
                f"{c['probe']} gives {y.dtype} {np.array2string(y, threshold=12)} after {[o for o, _ in c['calls']]}, {x.dtype} {np.array2string(x, threshold=12)} before")
    return {"nontrivial": True, "labels": ["calls " + str(len(c["calls"]))]}


RULE = "; the settings of jax and numpy, both random states, the environment and the type and bits of a probe call are as before; every case counts"
SUBS = [
    Sub("settings", lambda i, n: settings_case(sorted(VOPS)[i::n]), check_settings, quick=8, thorough=90, shards=4, thorough_shards=6,
        rule="3-5 calls with further settings (orders to 8, dimensions to 7) in double precision" + RULE),
    Sub("settings_single", lambda i, n: settings_case(sorted(VOPS)[i::n]), check_settings, quick=8, thorough=90, shards=4, thorough_shards=6, x64=False,
        rule="the same in single precision, jax's default" + RULE),
    Sub("modes", lambda i, n: all_case(NAMES[i::n]), check_all, quick=2, thorough=20, shards=7, thorough_shards=8, weight=2,
        rule=f"each of {len(NAMES)} public operations on two generated argument sets per case: eager, repeated, jitted and vectorized values agree, "
             "numpy arguments keep their contents; non-trivial: two distinct argument sets"),
    Sub("histories", lambda i, n: history_case(NAMES[i::n]), check_history, quick=9, thorough=120, shards=1, thorough_shards=4,
        rule="sequences of 3-7 calls of up to three operations with shared arguments; non-trivial: some call is repeated"),
    Sub("variants", lambda i, n: variant_case(HEAVY[i::n]), check_variants, quick=4, thorough=70, shards=11, thorough_shards=8,
        rule=f"histories of 3-5 calls of each of {len(HEAVY)} solvers that differ in a few settings, as below"),
    Sub("variants_light", lambda i, n: variant_case(LIGHT[i::n]), check_variants, quick=14, thorough=150, shards=5, thorough_shards=8,
        rule=f"histories of 3-5 calls of each of {len(LIGHT)} operations that differ in a few settings (orders, scales, steps, fields, dimensions, flags); each "
             "value equals that of the same call in a freshly imported package; non-trivial: two different calls"),
]
