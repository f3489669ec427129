"""Generators (Hypothesis strategies) of JSON-able cases.

All numbers are drawn as integers on a grid so that cases shrink towards simple
ones and are written out exactly.
"""
import numpy as np
from hypothesis import strategies as st

GRID = 1000


def num(lo, hi, grid=GRID):
    """A number in [lo, hi] on a grid of 1/grid."""
    return st.integers(round(lo * grid), round(hi * grid)).map(lambda i: i / grid)


BIG = 30


def _many(shape, lo, hi):
    """Large arrays come from one drawn integer (and a share of zeros), so that big cases stay cheap to draw."""
    def build(s):
        r = np.random.default_rng(s >> 2)
        v = r.integers(round(lo * GRID), round(hi * GRID), size=shape, endpoint=True) / GRID
        return (v * (r.random(shape) >= (0.0, 0.0, 0.3, 0.8)[s & 3])).tolist()
    return st.integers(0, 2 ** 32 - 1).map(build)


def vec(n, lo=-2.0, hi=2.0):
    return st.lists(num(lo, hi), min_size=n, max_size=n) if n <= BIG else _many((n,), lo, hi)


def mat(n, m, lo=-2.0, hi=2.0):
    return st.lists(vec(m, lo, hi), min_size=n, max_size=n) if n * m <= BIG else _many((n, m), lo, hi)


def ten(n, m, k, lo=-1.0, hi=1.0):
    return st.lists(mat(m, k, lo, hi), min_size=n, max_size=n) if n * m * k <= 2 * BIG else _many((n, m, k), lo, hi)


# both words of a raw key: PRNGKey(seed) for 32-bit seeds, and what splitting a key gives
seeds = st.one_of(st.integers(0, 2 ** 32 - 1), st.integers(0, 2 ** 64 - 1))


@st.composite
def seed_pairs(draw):
    """Two seeds, often with one word of the key in common."""
    a = draw(seeds)
    how = draw(st.sampled_from(["any", "high", "low", "bit"]))
    if how == "any":
        return a, draw(seeds)
    if how == "bit":
        return a, a ^ (1 << draw(st.integers(0, 63)))
    w = draw(st.integers(0, 2 ** 32 - 1))
    return a, (w << 32 | a & 0xffffffff) if how == "high" else (a >> 32 << 32 | w)


def logstep(lo, hi):
    """Log-uniform positive number between 2**lo and 2**hi, lightly rounded."""
    return st.integers(lo * 64, hi * 64).map(lambda i: float(f"{2.0 ** (i / 64):.6g}"))


@st.composite
def field(draw, d, scale=1.0, quad=True, sin=True, time=True, lin=True):
    """Parameters of f(x, t) = b + A x + c * sin(C x + w t + p) + g * x**2 + e t."""
    z = [0.0] * d
    zz = [z] * d
    return {
        "b": draw(vec(d, -scale, scale)),
        "A": draw(mat(d, d, -scale, scale)) if lin else zz,
        "c": draw(vec(d, -scale, scale)) if sin else z,
        "C": draw(mat(d, d, -scale, scale)) if sin else zz,
        "w": draw(vec(d, -2 * scale, 2 * scale)) if sin and time else z,
        "p": draw(vec(d, -3.0, 3.0)) if sin else z,
        "g": draw(vec(d, -0.3 * scale, 0.3 * scale)) if quad else z,
        "e": draw(vec(d, -scale, scale)) if time else z,
    }


@st.composite
def diffusion(draw, d, m, scale=1.0, state=True, time=True):
    """Parameters of S(x, t) = S0 + S1 * sin(u.x + w t + p) + sum_k x_k V_k   (d x m)."""
    zz = [[0.0] * m for _ in range(d)]
    return {
        "S0": draw(mat(d, m, -scale, scale)),
        "S1": draw(mat(d, m, -scale, scale)) if (state or time) else zz,
        "u": draw(vec(d, -scale, scale)) if state else [0.0] * d,
        "w": draw(num(-2.0 * scale, 2.0 * scale)) if time else 0.0,
        "p": draw(num(-3.0, 3.0)),
        "V": draw(ten(d, d, m, -0.5 * scale, 0.5 * scale)) if state else [zz] * d,
    }


@st.composite
def stable_field(draw, d):
    """A field that pulls back to the origin, with bounded forcing: long integrations stay bounded."""
    f = draw(field(d, 0.3, quad=False))
    f["e"] = [0.0] * d
    f["A"] = [[f["A"][i][j] - (1.2 + 0.3 * d if i == j else 0.0) for j in range(d)] for i in range(d)]
    f["w"] = draw(vec(d, -2.0, 2.0))
    f["c"] = draw(vec(d, -1.0, 1.0))
    return f


@st.composite
def bounded_diffusion(draw, d, m):
    """A bounded diffusion (no part growing with the state)."""
    s = draw(diffusion(d, m, 0.5))
    s["V"] = [[[0.0] * m for _ in range(d)] for _ in range(d)]
    return s


def spread(draw, c, x="x0", f="f", s="s"):
    """Some cases start at the origin, very near it or far away (the quadratic part of the field is scaled down there);
    in others the fields have a structure at the starting point that they lose later (see `start`)."""
    m = draw(st.sampled_from((1.0,) * 9 + (0.0, 1e-4, 40.0) + ("start",) * 3))
    if m == "start":
        return start(draw, c, x, f, s)
    c[x] = [v * m for v in c[x]]
    if m > 1:
        c[f]["g"] = [v / m for v in c[f]["g"]]
    return c


SHAPES = ("zero", "diagonal", "symmetric", "identity", "triangular", "column", "row", "repeated")


def shaped(a, how):
    """A matrix with the structure named, from a generated one."""
    a = np.array(a)
    n = min(a.shape)
    if how == "zero":
        return 0 * a
    if how == "diagonal":
        return a * np.eye(*a.shape)
    if how == "symmetric" and a.shape[0] == a.shape[1]:
        return (a + a.T) / 2
    if how == "identity":
        return np.eye(*a.shape)
    if how == "triangular":
        return np.tril(a)
    if how == "column":
        a[:, 1:] = 0
    elif how == "row":
        a[1:] = 0
    elif how == "repeated":
        a[:] = a[:1, :1] if n == 1 else a[0]
    return a


def start(draw, c, x="x0", f="f", s="s"):
    """Start at the origin with fields that are special there at time zero (diffusion zero, diagonal, constant, ...; drift
    zero, or with a diagonal Jacobian, or without derivative in time), and generic elsewhere."""
    d = len(c[x])
    c[x] = [0.0] * d
    if f in c and draw(st.booleans()):
        p = c[f] = dict(c[f])
        p["p"] = [0.0] * d
        how = draw(st.sampled_from(("zero", "jacobian", "still", "zero jacobian")))
        if "zero" in how:
            p["b"] = [0.0] * d
        if "jacobian" in how:
            p["A"] = [[p["A"][i][j] if i == j else -p["c"][i] * p["C"][i][j] for j in range(d)] for i in range(d)]
        if how == "still":
            p["e"] = [-p["c"][i] * p["w"][i] for i in range(d)]
    if s in c and "S0" in c[s] and draw(st.integers(0, 2)):
        p = c[s] = dict(c[s])
        p["p"] = 0.0
        p["S0"] = shaped(p["S0"], draw(st.sampled_from(SHAPES))).tolist()
        if draw(st.booleans()):      # special at time zero whatever the state
            p["u"] = [0.0] * d
            p["V"] = (0 * np.array(p["V"])).tolist()
    return c


@st.composite
def starting(draw, strategy, x="x"):
    """Cases of the strategy; a share of them start where the fields have a special structure."""
    c = draw(strategy)
    return start(draw, c, x) if draw(st.integers(0, 4)) == 4 else c
