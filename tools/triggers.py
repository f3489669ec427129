#!/usr/bin/env python3
"""Reach of the generators: wraps a function so that its result is off by 2 % when a condition on its inputs holds, and
runs a property's quick check against that tree.  Usage: triggers.py OUT [target-prefix ...]"""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "bayesian_sde_solver/"
ANY = ["True"]
XS = ["jnp.max(jnp.abs({x})) > 20", "jnp.max({x}) < 0", "jnp.max(jnp.abs({x})) < 1e-3", "jnp.max(jnp.abs({x})) == 0", "{x}[0] > {x}[-1] + 2"]
HS = ["{h} < 2. ** -8", "{h} > 0.3"]


def X(x="init", h="h", extra=()):
    return [e.format(x=x, h=h) for e in XS + HS] + list(extra)


NN = ["N == 1", "N > 30", "N > 250", "N % 7 == 0"]
D = ["init.shape[0] == 1", "init.shape[0] == 3", "init.shape[0] >= 4"]
# target: (file, function, property, conditions, what is off)
T = {
    "euler": (P + "ode_solvers/euler.py", "solver(init, vector_field, h, N)", "C09", X() + NN + D),
    "ekf0": (P + "ode_solvers/ekf0.py", "solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None)", "C17",
             X() + NN + D + ["noise is not None and prior is None", "noise is not None and sqrt", "prior is not None and prior[1].shape[0] // init.shape[0] == 5"]),
    "ekf1": (P + "ode_solvers/ekf1.py", "solver(key, init, vector_field, h, N, sqrt=True, prior=None, noise=None)", "C17",
             X() + NN + D + ["noise is not None and prior is None", "noise is not None and sqrt", "prior is not None and jnp.max(jnp.abs(prior[0])) > 0"]),
    "ekf0_2": (P + "ode_solvers/ekf0_2.py", "solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None, return_all=False)", "C19",
               X("init[1]") + ["N == 1", "N > 10", "init[1].shape[0] == 1", "init[1].shape[0] >= 4", "jnp.max(jnp.abs(init[2])) == 0", "jnp.max(jnp.abs(init[2])) > 2",
                "noise is not None and prior is None", "jnp.max(jnp.abs(init[0] - init[1])) > 2"]),
    "ekf1_2": (P + "ode_solvers/ekf1_2.py", "solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None, return_all=False)", "C19",
               X("init[1]") + ["N == 1", "N > 10", "init[1].shape[0] == 1", "init[1].shape[0] >= 4", "jnp.max(jnp.abs(init[2])) == 0", "jnp.max(jnp.abs(init[2])) > 2"]),
    "ssm0": (P + "ssm_parabola/ekf0.py", "solver(key, init, delta, drift, diffusion, h, N, sqrt=False, prior=None, noise=None)", "C24",
             X() + ["N == 1", "N > 4", "N > 20", "init.shape[0] == 1", "init.shape[0] >= 4", "noise is not None and sqrt", "delta > 1.5"]),
    "ssm1": (P + "ssm_parabola/ekf1.py", "solver(key, init, delta, drift, diffusion, h, N, sqrt=False, prior=None, noise=None)", "C24",
             X() + ["N == 1", "N > 4", "N > 20", "init.shape[0] == 1", "init.shape[0] >= 4", "noise is not None and sqrt", "delta < 0.02"]),
    "em": (P + "sde_solvers/euler_maruyama.py", "solver_pathwise(incs, init, drift, sigma, h, N, standard=False)", "C21",
           X() + NN + D + ["incs.shape[1] == 1", "incs.shape[1] > init.shape[0]", "jnp.max(jnp.abs(incs)) > 3", "jnp.min(incs) > 0"]),
    "emk": (P + "sde_solvers/euler_maruyama.py", "solver(key, init, drift, sigma, h, N)", "C21", X() + NN),
    "diag": (P + "sde_solvers/diag_15_scheme.py", "solver(key, init, drift, sigma, h, N)", "C22", X() + ["N == 1", "N > 30", "N > 250", "init.shape[0] == 3", "init.shape[0] >= 4"]),
    "hyp": (P + "sde_solvers/hypoelliptic_diffusion__diag_15_scheme.py", "solver(key, init, drift, sigma, h, N)", "C23",
            X() + ["N == 1", "N > 30", "N > 250", "init.shape[0] == 2", "init.shape[0] == 3"]),
    "path": (P + "sde_solver.py", "sde_solver(key, drift, sigma, x0, bm, delta, N, ode_int)", "C05",
             ["not isinstance(x0, tuple) and " + c for c in ["x0.shape[0] == 1", "x0.shape[0] >= 4", "x0.shape[0] == 3"]] + ["isinstance(x0, tuple)", "N == 1", "N > 30", "N > 250", "N > 1000", "delta < 2. ** -8", "delta > 0.2",
              "jnp.max(jnp.abs(jax.tree_util.tree_leaves(x0)[0])) > 20", "jnp.max(jax.tree_util.tree_leaves(x0)[0]) < 0", "jnp.max(jnp.abs(jax.tree_util.tree_leaves(x0)[0])) < 1e-3"]),
    "ssmpath": (P + "ssm_parabola/ssm_parabola_ode.py", "sde_solver(key, drift, sigma, x0, delta, N, solver)", "C25",
                X("x0", "delta") + NN + ["x0.shape[0] == 1", "x0.shape[0] == 3", "x0.shape[0] >= 4"]),
    "ioup": (P + "ode_solvers/probnum/IOUP.py", "transition_function(theta, sigma, q, dt, dim)", "C11",
             ["q == 1", "q == 4", "q >= 5", "dim == 1", "dim >= 4", "dim >= 6", "dt < 2. ** -9", "dt > 1", "dt > 4", "sigma > 3", "sigma < 0.2", "sigma > 20", "sigma == 0", "theta == 0", "theta > 1", "theta < 0"]),
    "matern": (P + "ode_solvers/probnum/matern.py", "transition_function(k, magnitude, length, dt, dim, mc=False)", "C12",
               ["k == 0", "k == 1", "k == 2", "k == 3", "dim == 1", "dim >= 3", "dim >= 5", "dt < 2. ** -9", "dt > 1", "dt > 10", "magnitude > 3", "magnitude < 0.3", "length > 3", "length < 0.3", "mc", "dt / length > 10"]),
    "lti": (P + "ode_solvers/probnum/transition_function.py", "transition_function(F, u, L, h, n_linspace=10000)", "C13",
            ["F.shape[0] == 1", "F.shape[0] >= 4", "F.shape[0] >= 5", "h < 2. ** -7", "h > 1", "jnp.max(jnp.abs(u)) == 0", "jnp.max(jnp.abs(F)) > 1.9", "n_linspace != 10000", "L.shape[1] > 1"]),
    "pad": (P + "ode_solvers/probnum/transition_function.py", "pad_prior(transition, q)", "C13", ["q == 0", "q >= 4", "q >= 6", "transition[0].shape[0] == 1", "transition[0].shape[0] >= 5"]),
    "fact": (P + "ode_solvers/probnum/transition_function.py", "get_independently_factorized_prior(transitions)", "C13",
             ["len(transitions) == 1", "len(transitions) >= 4", "len(transitions) >= 6", "transitions[0][0].shape[0] == 1", "transitions[0][0].shape[0] >= 4"]),
    "inter": (P + "ode_solvers/probnum/_utils.py", "interlace(arrays)", "C14", ["len(arrays) == 1", "len(arrays) >= 4", "len(arrays) >= 6", "arrays[0].shape[0] == 1", "arrays[0].shape[0] >= 5", "isinstance(arrays, list)"]),
    "interm": (P + "ode_solvers/probnum/_utils.py", "interlace_matrix(v, w, x, y)", "C14", ["v.shape[0] == 1", "v.shape[0] >= 4", "v.shape[0] >= 6"]),
    "mle": (P + "ode_solvers/probnum/calibration.py", "mle_diffusion(zs, Ss)", "C20", ["zs.shape[0] == 1", "zs.shape[0] > 20", "zs.shape[0] > 200", "zs.shape[1] == 1", "zs.shape[1] >= 4", "jnp.max(jnp.abs(Ss)) < 1e-3", "jnp.max(jnp.abs(zs)) > 20"]),
    "tostrat": (P + "ito_stratonovich.py", "drift_correction(diffusion, t, x)", "C04",
                ["jnp.max(jnp.abs(x)) > 20", "jnp.max(x) < 0", "jnp.max(jnp.abs(x)) < 1e-3", "jnp.asarray(t) > 5", "jnp.asarray(t) < 0", "jnp.asarray(t) == 0", "x.shape[0] == 1", "x.shape[0] >= 4", "x.shape[0] >= 6",
                 "diffusion(x, t).shape[1] == 1", "diffusion(x, t).shape[1] > x.shape[0]", "jnp.max(jnp.abs(diffusion(x, t))) > 10"]),
    "insert": (P + "utils/insert.py", "insert(x, pos, y, axis)", "C27", ["pos == 0", "pos > 3", "pos == -1", "axis == 1", "axis == -1", "isinstance(x, tuple) and len(x) == 1", "isinstance(x, tuple) and len(x) >= 4",
                                                                 "not isinstance(x, tuple) and x.ndim >= 3", "not isinstance(x, tuple) and x.shape[0] > 30"]),
}

# structure, units, signs, precision, keys: conditions of the bugs that were missed at first, for the targets above
XU = ["jnp.max(jnp.abs({x})) > 2. ** 20", "(jnp.max(jnp.abs({x})) > 0) & (jnp.max(jnp.abs({x})) < 2. ** -20)", "{x}.shape[0] >= 9", "{x}.dtype == jnp.float32",
      "{x}.dtype == jnp.float32 and N > 100", "jnp.all({x} == jnp.round({x}))"]
NU = ["N > 1000", "N & (N - 1) == 0 and N > 4", "N % 2 == 1 and N > 1"]
FU = ["jnp.all(vector_field({x}, 0.0) == 0)", "vector_field({x}, 0.0)[0] == 0", "jnp.all(vector_field({x}, 0.0) == vector_field({x}, 1.0))",
      "jnp.all(jnp.triu(jax.jacfwd(vector_field)({x}, 0.0), 1) == 0)"]
SU = ["jnp.all(drift({x}, 0.0) == 0)", "jnp.all(sigma({x}, 0.0) == 0)", "jnp.all(jnp.triu(sigma({x}, 0.0), 1) == 0)", "jnp.all(sigma({x}, 0.0) == sigma({x}, 1.0))",
      "jnp.any(jnp.all(sigma({x}, 0.0) == 0, 0))", "jnp.all(jnp.triu(jax.jacfwd(drift)({x}, 0.0), 1) == 0)"]
NZ = ["noise is not None and jnp.all(noise == 0)", "noise is not None and jnp.all(noise == jnp.diag(jnp.diagonal(noise)))", "noise is not None and jnp.max(jnp.abs(noise)) > 1",
      "noise is not None and (jnp.max(jnp.abs(noise)) > 0) & (jnp.max(jnp.abs(noise)) < 1e-6)"]
KEYS = ["key is not None and key[0] == 0", "key is not None and key[0] != 0", "key is not None and key[1] % 2 == 1"]


def U(x, *parts):
    return [e.format(x=x) for part in parts for e in part]


T2 = {"euler": U("init", XU, NU, FU, ["h < 0"]),
      "ekf0": U("init", XU, NU, FU, NZ, KEYS), "ekf1": U("init", XU, NU, FU, NZ, KEYS),
      "ekf0_2": U("init[1]", XU, NU, FU, NZ, KEYS, ["jnp.linalg.matrix_rank(init[2]) == 1", "jnp.all(init[2] == jnp.diag(jnp.diagonal(init[2])))"]),
      "ekf1_2": U("init[1]", XU, NU, FU, NZ, KEYS, ["jnp.linalg.matrix_rank(init[2]) == 1", "jnp.all(init[2] == jnp.diag(jnp.diagonal(init[2])))"]),
      "ssm0": [e.replace("sigma(", "diffusion(") for e in U("init", XU, SU, NZ, KEYS)], "ssm1": [e.replace("sigma(", "diffusion(") for e in U("init", XU, SU, NZ, KEYS)],
      "em": U("init", XU, NU, SU, ["h < 0", "standard", "jnp.max(jnp.abs(incs)) == 0"]), "emk": U("init", XU, NU, SU, KEYS),
      "diag": [e.replace("({x}, 0.0)", "({x})").replace("({x}, 1.0)", "({x})").format(x="init") for e in XU + NU + SU[:2]] + KEYS,
      "hyp": [e.format(x="init") for e in XU + NU] + KEYS,
      "path": ["not isinstance(x0, tuple) and " + e if "isinstance" not in e else e for e in U("x0", XU, NU, SU)] + KEYS,
      "ssmpath": U("x0", XU, NU, SU, KEYS)}


def wrap(text, sig, cond):
    name, rest = sig.split("(", 1)
    params = rest[:-1]
    names = [a.split("=")[0].strip() for a in params.split(",")]
    call = ", ".join(names)
    return text + f"""

import jax
import jax.numpy as jnp
_orig_{name} = {name}


def {name}({params}):
    out = _orig_{name}({call})
    c = {cond}
    return jax.tree_util.tree_map(lambda v: jnp.where(c, jnp.asarray(v) * 1.02 + 0.003, v) if jnp.issubdtype(jnp.asarray(v).dtype, jnp.floating) else v, out)
"""


def one(job):
    t, cond = job
    f, sig, prop = T[t][:3]
    tmp = tempfile.mkdtemp(prefix="trig")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", tmp + "/r"], check=True)
        p = tmp + "/r/" + f
        with open(p) as fh:
            s = fh.read()
        with open(p, "w") as fh:
            fh.write(wrap(s, sig, cond))
        r = subprocess.run(["/opt/venv/bin/python", "run.py", "check", prop, "--tier", "quick"], cwd=HERE, text=True, capture_output=True,
                           env=dict(os.environ, VERIF_REPO=tmp + "/r", VERIF_SEED="1"), timeout=1500)
        return t, prop, cond, {0: "MISSED", 1: "caught"}.get(r.returncode, f"error {r.returncode}"), (r.stdout + r.stderr)[-300:].replace("\n", " | ") if r.returncode > 1 else ""
    finally:
        shutil.rmtree(tmp)


def main():
    out, only = sys.argv[1], sys.argv[2:]
    table = {t: T[t][3] for t in T}
    if only and only[0] == "second":
        table, only = T2, only[1:]
    jobs = [(t, c) for t in table if not only or any(t.startswith(o) for o in only) for c in table[t]]
    print(len(jobs), "triggers", flush=True)
    with open(out, "a") as fh, ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as ex:
        for r in ex.map(one, jobs):
            fh.write("\t".join(r) + "\n")
            fh.flush()


main()
