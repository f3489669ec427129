"""C04: Ito <-> Stratonovich."""
import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.lib import F, Fn, S, Sjac, Sn, Sub, arr, arrs, close, jax, jnp, lru, tup

from bayesian_sde_solver.ito_stratonovich import to_ito, to_stratonovich

META = {"assumptions": ["drift(x, t) and diffusion(x, t) differentiable in x (the generated fields are smooth)"]}


@st.composite
def case(draw, shapes):
    d, m = draw(st.sampled_from(shapes))
    kind = draw(st.sampled_from(["general", "general", "general", "additive", "diagonal", "linear"]))
    return gen.spread(draw, {"d": d, "m": m, "kind": kind, "f": draw(gen.field(d)), "s": draw(gen.diffusion(d, m, state=kind != "additive")),
                             "x": draw(gen.vec(d, -3, 3)), "t": draw(gen.num(-3, 5)) * draw(st.sampled_from([1, 1, 1, 1, 0, 30]))}, "x")


def special(c):
    s = {k: v for k, v in c["s"].items()}
    d, m = c["d"], c["m"]
    if c["kind"] in ("diagonal", "linear"):
        s["S1"] = [[0.0] * m for _ in range(d)]
        if c["kind"] == "diagonal":
            s["V"] = [[[s["V"][k][i][j] if i == j == k else 0.0 for j in range(m)] for i in range(d)] for k in range(d)]
    return s


@lru
def _conv(d, m):
    @jax.jit
    def run(f, s, x, t):
        drift, sig = lambda z, u: F(f, z, u), lambda z, u: S(s, z, u)
        ds, ss = tup(to_stratonovich(drift, sig), 2, "to_stratonovich")
        di, si = tup(to_ito(drift, sig), 2, "to_ito")
        rt, st_ = to_ito(ds, ss)
        tr, ts_ = to_stratonovich(di, si)
        return ds(x, t), ss(x, t), di(x, t), si(x, t), rt(x, t), st_(x, t), tr(x, t), ts_(x, t)
    return run


def check(c):
    d, m = c["d"], c["m"]
    f, s = arrs(c["f"]), arrs(special(c))
    x, t = np.array(c["x"]), c["t"]
    ds, ss, di, si, rt, s2, tr, s3 = _conv(d, m)(f, s, x, t)
    fv, sv, J = Fn(f)(x, t), Sn(s)(x, t), Sjac(s)(x, t)
    corr = np.zeros(d)                         # sum_{j,k} S_{jk} d_j S_{ik}
    for i in range(d):
        for j in range(d):
            for k in range(m):
                corr[i] += sv[j, k] * J[i, k, j]
    sc = 1 + np.abs(fv) + np.abs(corr)
    close(ds, fv - corr / 2, "Stratonovich drift", 1e-11, 0, sc)
    close(di, fv + corr / 2, "Ito drift", 1e-11, 0, sc)
    close(rt, fv, "Ito -> Stratonovich -> Ito drift", 1e-11, 0, sc)
    close(tr, fv, "Stratonovich -> Ito -> Stratonovich drift", 1e-11, 0, sc)
    for q in (ss, si, s2, s3):
        close(q, sv, "converted diffusion", 1e-13, 1e-15)
    if c["kind"] == "additive":
        close(ds, fv, "drift with an additive noise", 1e-14, 0, sc)
    return {"nontrivial": bool(np.max(np.abs(corr)) > 1e-6), "labels": [c["kind"], f"{d}x{m}"]}


@st.composite
def chain_case(draw, shapes):
    d, m = draw(st.sampled_from(shapes))
    return {"d": d, "m": m, "f": draw(gen.field(d)), "s": draw(gen.diffusion(d, m)), "x": draw(gen.vec(d, -1.5, 1.5)),
            "t": draw(gen.num(-2, 2)), "al": draw(gen.vec(d, 0.5, 2.0)), "M": draw(gen.mat(d, d, -1, 1)),
            "dom": draw(gen.num(1.5, 3.0))}


@lru
def _chain(d, m):
    """Y = phi(M X): phi componentwise al sinh(./al), M well conditioned."""
    @jax.jit
    def run(f, s, x, t, al, M):
        Mi = jnp.linalg.inv(M)
        phi = lambda z: al * jnp.sinh(z / al)
        d1 = lambda z: jnp.cosh(z / al)
        d2 = lambda z: jnp.sinh(z / al) / al
        inv = lambda y: Mi @ (al * jnp.arcsinh(y / al))
        fx, sx = lambda z, u: F(f, z, u), lambda z, u: S(s, z, u)

        def fy(y, u):                       # Ito's formula
            z = inv(y)
            w = M @ z
            R = M @ sx(z, u)
            return d1(w) * (M @ fx(z, u)) + 0.5 * d2(w) * jnp.sum(R * R, axis=1)

        def sy(y, u):
            z = inv(y)
            return d1(M @ z)[:, None] * (M @ sx(z, u))
        y = phi(M @ x)
        dX, _ = to_stratonovich(fx, sx)
        dY, _ = to_stratonovich(fy, sy)
        return dY(y, t), d1(M @ x) * (M @ dX(x, t)), jnp.abs(fy(y, t)) + jnp.sum(jnp.abs(sy(y, t))) ** 2
    return run


def check_chain(c):
    """The Stratonovich form obeys the ordinary chain rule."""
    d, m = c["d"], c["m"]
    M = np.array(c["M"]) + c["dom"] * d * np.eye(d)
    got, want, sc = _chain(d, m)(arrs(c["f"]), arrs(c["s"]), np.array(c["x"]), c["t"], np.array(c["al"]), M)
    close(arr(got, (d,), "drift"), arr(want, (d,), "drift", False), "Stratonovich drift of the transformed equation", 1e-9, 1e-9, 1 + np.asarray(sc))
    return {"nontrivial": any(c["x"]), "labels": [f"{d}x{m}"]}


SH = [(1, 1), (2, 2), (3, 2), (2, 1), (2, 3), (3, 3), (1, 3), (4, 4), (5, 2), (2, 6), (6, 6), (9, 9), (3, 11), (12, 2)]
SUBS = [
    Sub("conversion", lambda i, n: case(SH[i::n]), check, quick=160, thorough=4000, shards=2, thorough_shards=4,
        rule="smooth state- and time-dependent fields, diffusion matrices of 8 shapes, times of both signs; non-trivial: non-zero correction"),
    Sub("chain_rule", lambda i, n: chain_case(SH[i::n]), check_chain, quick=120, thorough=3000, shards=2, thorough_shards=4,
        rule="Ito equations mapped by a nonlinear diffeomorphism with Ito's formula; non-trivial: non-zero state"),
]
