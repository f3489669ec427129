"""C27: the progress bar and the insertion of the initial value do not change results, and the bar counts to the end."""
import numpy as np
import tqdm.std
from hypothesis import strategies as st
from jax.experimental import host_callback

from vf import gen
from vf.lib import Sub, Violation, arr, close, jax, jnp, key, lru, require, tup
from vf.props.common import family

from bayesian_sde_solver.sde_solver import sde_solver
from bayesian_sde_solver.ssm_parabola import ssm_parabola_ode_solver
from bayesian_sde_solver.utils import insert, progress_bar

META = {"assumptions": ["bars are tqdm bars; they are observed by recording tqdm's own constructor, update and close"]}


class Watch:
    """Record the bars made while it is active (their display is switched off)."""

    def __enter__(self):
        self.bars, w = {}, self
        T = tqdm.std.tqdm
        self.saved = {n: T.__dict__[n] for n in ("__init__", "update", "close")}
        orig = {n: getattr(T, n) for n in self.saved}

        def init(bar, *a, **k):
            k["disable"] = False
            k["file"] = open("/dev/null", "w")
            orig["__init__"](bar, *a, **k)
            w.bars[id(bar)] = {"bar": bar, "total": bar.total, "n": 0, "closed": 0, "over": 0}

        def update(bar, n=1):
            b = w.bars.get(id(bar))
            if b is not None:
                b["n"] += n
                b["over"] |= b["closed"] > 0 and n > 0
            return orig["update"](bar, n)

        def close(bar):
            b = w.bars.get(id(bar))
            if b is not None:
                b["closed"] += 1
            return orig["close"](bar)
        T.__init__, T.update, T.close = init, update, close
        return self

    def __exit__(self, *a):
        T = tqdm.std.tqdm
        for n, f in self.saved.items():
            setattr(T, n, f)

    def judge(self, N, runs=1):
        bars = list(self.bars.values())
        require(len(bars) == runs, f"{len(bars)} bars for {runs} runs of {N} iterations")
        for b in bars:
            require(b["total"] == N, f"bar of {b['total']} for {N} iterations")
            require(b["n"] == N, f"the bar counted {b['n']} of {N} iterations")
            require(b["closed"] > 0, f"the bar of {N} iterations was not closed")
            require(not b["over"], "the bar was moved after it was closed")


SIZES = [1, 2, 3, 19, 20, 21, 100, 999, 1000, 1001, 1003, 1500, 1999, 2000, 2001, 2003, 2999, 3001, 3500, 4007, 10007, 25013]


@lru
def _scan(N, shape, bar, message):
    def body(carry, x):
        i = x[0] if type(x) is tuple else x
        c, n = carry
        y = x[1] if type(x) is tuple else jnp.sin(1.0 * i)
        c = 0.9 * c + y
        return (c, n + i), {"c": c, "i": i} if shape == "dict" else (c if shape == "array" else (c, 2 * i))
    if bar:
        body = progress_bar(N, message=message)(body) if message else progress_bar(N)(body)

    def run(c0, ys):
        xs = jnp.arange(N) if shape == "array" else (jnp.arange(N), ys)
        return jax.lax.scan(body, (c0, 0), xs)
    return jax.jit(run) if shape != "eager" else run


@st.composite
def scan_case(draw, confs):
    N, shape = draw(st.sampled_from(confs))
    return {"N": N, "shape": shape, "c0": draw(gen.vec(2)), "seed": draw(st.integers(0, 2 ** 31 - 1)), "runs": draw(st.integers(1, 2)),
            "message": draw(st.sampled_from([None, "steps"]))}


def guarded(f, *a):
    """The value, once every callback has run; an exception in one of them is the bar's failure."""
    try:
        r = jax.block_until_ready(f(*a))
        host_callback.barrier_wait()
        return r
    except Exception as e:  # noqa: BLE001
        raise Violation(f"the run with a progress bar failed: {type(e).__name__}: {str(e)[:300]}") from e


def check_scan(c):
    N, sh = c["N"], c["shape"]
    ys = np.random.default_rng(c["seed"]).standard_normal((N, 2))
    c0 = np.array(c["c0"])
    plain = jax.tree_util.tree_leaves(_scan(N, sh, False, None)(c0, ys))
    f = _scan(N, sh, True, c["message"])
    host_callback.barrier_wait()
    with Watch() as w:
        for _ in range(c["runs"]):
            got = jax.tree_util.tree_leaves(guarded(f, c0, ys))
        w.judge(N, c["runs"])
    require(len(got) == len(plain), "a different structure with the progress bar")
    for a, b in zip(got, plain):
        close(a, np.asarray(b), "scan with a progress bar against without", 1e-12, 1e-300)
    return {"nontrivial": N > 1, "labels": [sh, "above 1000" if N > 1000 else "up to 1000", "remainder" if N > 1000 and N % (N // 1000) else "whole"]}


@lru
def _solver(N, which):
    if which == "ssm":
        step = lambda k, init, drift, diffusion, T: (init + T * drift(init, T / 2) + diffusion(init, 0.0) @ jnp.ones(1) * T, init)
        return jax.jit(lambda k, x, a, delta: ssm_parabola_ode_solver(k, lambda x, t: -a * x + jnp.sin(t), lambda x, t: jnp.array([[1 + t]]), x, delta, N, step))
    ode = lambda k, init, vector_field, T: init + T * vector_field(init, T / 2)
    wrap = jax.jit
    if which == "sde-vmap":      # one bar for a batch of paths; the second of them is looked at
        def wrap(f):
            g = jax.jit(jax.vmap(f, in_axes=(0, None, None, None)))
            return lambda k, *a: jax.tree_util.tree_map(lambda v: v[1], g(jnp.stack([k + 1, k, k + 2]), *a))
    return wrap(lambda k, x, a, delta: sde_solver(k, lambda x, t: -a * x + jnp.sin(t), lambda x, t: jnp.array([[1 + t]]), x,
                                                     lambda: family("approx", 1, 1), delta, N, ode))


@st.composite
def solver_case(draw, confs):
    N, which = draw(st.sampled_from(confs))
    return {"N": N, "which": which, "x": draw(gen.vec(1)), "a": draw(gen.num(0, 2)), "delta": draw(gen.logstep(-9, -6)), "seed": draw(gen.seeds)}


def check_solver(c):
    N, delta, a = c["N"], c["delta"], c["a"]
    f = _solver(N, c["which"])
    host_callback.barrier_wait()
    with Watch() as w:
        out = guarded(f, key(c["seed"]), np.array(c["x"]), a, delta)
        traj = arr(out[1], (N + 1, 1), "trajectory")
        w.judge(N)
    t = np.arange(N) * delta
    x = c["x"][0]
    want = [x]
    inc = np.asarray(out[2])[:, 0] if c["which"] != "ssm" else None
    for k in range(N):
        mid = t[k] + delta / 2
        n = x + delta * (-a * x + np.sin(mid))
        n += (1 + t[k]) * delta if inc is None else (1 + mid) * inc[k]     # the parabola's slope at the middle is a / delta
        x = n
        want.append(x)
    close(traj[:, 0], np.array(want), f"{N} steps of the path solver", 1e-9, 1e-9)
    close(out[0], np.arange(N + 1) * delta, "time grid", 1e-12)
    return {"nontrivial": N > 1000, "labels": [c["which"], f"N={N}"]}


# ---- insert ----------------------------------------------------------------------------------------------

@st.composite
def insert_case(draw):
    k = draw(st.integers(0, 5))        # 0: a bare array
    parts = []
    axis = draw(st.integers(0, 2))
    n = draw(st.sampled_from([1, 2, 3, 4, 17, 60]))
    for _ in range(max(k, 1)):
        shape = draw(st.lists(st.integers(1, 4), min_size=axis, max_size=axis)) + [n] + draw(st.lists(st.integers(1, 3), min_size=0, max_size=2))
        parts.append(shape)
    if draw(st.booleans()) and len({len(s) for s in parts}) == 1:
        axis -= len(parts[0])
    kinds = draw(st.lists(st.sampled_from(["float64", "float64", "float32", "int32", "bool", "int64"]), min_size=len(parts), max_size=len(parts)))
    return {"kinds": kinds, "tuple": k > 0, "shapes": parts, "axis": axis, "pos": draw(st.integers(-n, n)), "scalar": draw(st.sampled_from([False] * 5 + [True])),
            "seed": draw(st.integers(0, 10 ** 6)), "jit": draw(st.booleans())}


def check_insert(c):
    rng = np.random.default_rng(c["seed"])
    kinds = c.get("kinds") or ["float64"] * len(c["shapes"])
    draw = {"float64": lambda s: rng.standard_normal(s), "float32": lambda s: rng.standard_normal(s).astype(np.float32),
            "int32": lambda s: rng.integers(-9, 9, s).astype(np.int32), "int64": lambda s: rng.integers(-2 ** 40, 2 ** 40, s),
            "bool": lambda s: rng.integers(0, 2, s).astype(bool)}
    xs = [np.asarray(draw[k](s)) for k, s in zip(kinds, c["shapes"])]
    ys = [np.asarray(draw[k]([] if c["scalar"] else [n for i, n in enumerate(s) if i != c["axis"] % len(s)])) for k, s in zip(kinds, c["shapes"])]
    want = [np.insert(x, c["pos"], y, c["axis"]) for x, y in zip(xs, ys)]
    f = lambda x, y: insert(x, c["pos"], y, c["axis"])
    if c["jit"]:
        f = jax.jit(f)
    arg = (tuple(map(jnp.asarray, xs)), tuple(map(jnp.asarray, ys))) if c["tuple"] else (jnp.asarray(xs[0]), jnp.asarray(ys[0]))
    got = f(*arg)
    got = tup(got, len(xs), "insert of a tuple") if c["tuple"] else (got,)
    for g, w in zip(got, want):
        require(np.asarray(g).dtype == w.dtype, f"insert of {[str(x.dtype) for x in xs]} gives {np.asarray(g).dtype} for {w.dtype}")
        require(np.array_equal(np.asarray(g), w), f"insert of {[str(x.dtype) for x in xs]}: {np.asarray(g).tolist()} for {w.tolist()}")
    return {"nontrivial": c["tuple"], "labels": ["mixed types" if len(set(kinds)) > 1 else "one type", f"axis={c['axis']}", f"parts={len(xs) if c['tuple'] else 0}"]}


# ---- bars within bars, and derivatives ---------------------------------------------------------------------

@lru
def _nested(N, M, how, bar):
    wrap = (lambda n: progress_bar(n)) if bar else (lambda n: lambda f: f)

    def inner(carry, i):
        carry = 0.7 * carry + jnp.sin(carry + i)
        return carry, carry

    def outer(carry, i):
        if how == "solver":      # a path of M steps at each step of the loop
            ode = lambda k, init, vector_field, T: init + T * vector_field(init, T / 2)
            out = sde_solver(jax.random.PRNGKey(3), lambda x, t: -x + i, lambda x, t: jnp.eye(2), carry, lambda: family("approx", 2, 1), 0.01, M, ode)[1]
            return out[-1], out
        c, ys = jax.lax.scan(wrap(M)(inner), carry, jnp.arange(M))
        return c + 0.1 * i, ys
    return jax.jit(lambda c0: jax.lax.scan(wrap(N)(outer), c0, jnp.arange(N)))


@st.composite
def nested_case(draw, confs):
    N, M, how = draw(st.sampled_from(confs))
    return {"N": N, "M": M, "how": how, "c0": draw(gen.vec(2))}


def check_nested(c):
    N, M, how = c["N"], c["M"], c["how"]
    c0 = np.array(c["c0"])
    host_callback.barrier_wait()
    if how == "grad":
        def loss(bar):
            body = lambda x, i: (0.8 * jnp.tanh(x) + jnp.sin(1.0 * i) / (i + 1), x)
            body = progress_bar(N)(body) if bar else body
            return lambda x: (lambda r: jnp.sum(r[0] ** 2) + jnp.sum(r[1]))(jax.lax.scan(body, x, jnp.arange(N)))
        with Watch():
            f, g = guarded(jax.jit(jax.value_and_grad(loss(True))), c0)
            j = guarded(jax.jit(jax.jvp, static_argnums=0), loss(True), (c0,), (np.ones(2),))[1]
        f2, g2 = jax.value_and_grad(loss(False))(c0)
        close(f, np.asarray(f2), "value with a progress bar", 1e-12)
        close(g, np.asarray(g2), "gradient through a loop with a progress bar", 1e-10, 1e-12)
        close(j, np.asarray(g2).sum(), "directional derivative through a loop with a progress bar", 1e-9, 1e-10)
        return {"nontrivial": N > 1, "labels": [how]}
    with Watch() as w:
        got = jax.tree_util.tree_leaves(guarded(_nested(N, M, how, True), c0))
        sizes = sorted(b["total"] for b in w.bars.values())
        require(sizes == sorted([N] + [M] * N), f"bars of {sizes} for a loop of {N} within which {N} loops of {M}")
        for b in w.bars.values():
            require(b["n"] == b["total"] and b["closed"] > 0 and not b["over"],
                    f"a bar of {b['total']} iterations among nested ones counted {b['n']}" + ("" if b["closed"] else " and was not closed"))
    if how == "loops":
        for a, b in zip(got, jax.tree_util.tree_leaves(_nested(N, M, how, False)(c0))):
            close(a, np.asarray(b), "nested loops with progress bars against without", 1e-12, 1e-300)
    return {"nontrivial": N > 1, "labels": [how]}


NC = [(N, M, w) for N, M in ((1, 1), (2, 3), (3, 2), (5, 7), (2, 1003), (4, 4)) for w in ("loops", "solver")] + [(N, 0, "grad") for N in (1, 2, 9, 1003, 2500)]
SC = [(N, sh) for N in SIZES for sh in ("array", "tuple", "dict")]
VC = [(N, w) for N in (1, 3, 1001, 2003, 3500) for w in ("sde", "ssm", "sde-vmap")]
SUBS = [
    Sub("scan", lambda i, n: scan_case(SC[i::n]), check_scan, quick=30, thorough=250, shards=4, thorough_shards=6,
        rule="scans of 1..25013 iterations (with and without remainders) over arrays and tuples: same carry and outputs as without the bar, one bar per "
             "run that counts to exactly the number of iterations and is closed; non-trivial: several iterations"),
    Sub("solvers", lambda i, n: solver_case(VC[i::n]), check_solver, quick=12, thorough=100, shards=2, thorough_shards=4,
        rule="both path solvers with up to 3500 steps against a loop, and their bars; non-trivial: above 1000 steps"),
    Sub("nested", lambda i, n: nested_case(NC[i::n]), check_nested, quick=6, thorough=40, shards=2, thorough_shards=3,
        rule="loops with a bar within a loop with a bar (also a path solved at each step): every bar counts its own iterations and is closed, values as without; gradients and "
             "directional derivatives through a loop with a bar equal those without; non-trivial: several iterations"),
    Sub("insert", lambda i, n: insert_case(), check_insert, quick=25, thorough=200, shards=2, thorough_shards=3,
        rule="insertion into arrays and tuples of arrays at any position and axis (also counted from the end) against numpy; non-trivial: a tuple"),
]
