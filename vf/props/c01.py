"""C01: the polynomial that stands for a Brownian path on one step."""
import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.lib import Sub, arr, close, jax, jnp, key, lru, require, tup
from vf.props.common import FAMS, family, n_extra

META = {"assumptions": ["the eval function takes (t, dt, *coefficients as returned by the sampler)"]}


@st.composite
def shape_case(draw, fam):
    d = draw(st.integers(1, 7))
    return {"fam": fam, "d": d, "N": draw(st.sampled_from([1, 2, 3, 7, 40])), "dt": draw(gen.logstep(-20, 8)),
            "a": draw(gen.vec(d, -30, 30)), "b": draw(gen.vec(d, -30, 30)), "u": draw(gen.num(-0.5, 1.5)),
            "extra": draw(gen.vec(d))}


@lru
def _evals(fam, d, N):
    _, ev = family(fam, d, N)
    k = n_extra(fam)

    def one(t, dt, a, b, extra):
        ex = tuple(jnp.broadcast_to(extra, (N, d)) for _ in range(k))
        if k == 0:
            g = lambda s: ev(s, dt, a, b)
        else:
            g = lambda s: _ev_extra(ev, s, dt, a, b, ex)
        return g(t), jax.jacfwd(g)(t)
    return jax.jit(jax.vmap(one, in_axes=(0, None, None, None, None)))


def _ev_extra(ev, s, dt, a, b, ex):
    return ev(s, dt, a, b, *ex)


def check_shape(c):
    d, N, dt = c["d"], c["N"], c["dt"]
    a, b = np.array(c["a"]), np.array(c["b"])
    us = np.array([0.0, 0.25, 0.5, 0.75, 1.0, c["u"]])
    v, dv = _evals(c["fam"], d, N)(jnp.asarray(us * dt), dt, a, b, np.array(c["extra"]))
    v, dv = arr(v, (6, d), "polynomial"), arr(dv, (6, d), "derivative")
    sc = np.abs(a) + np.abs(b) + 1e-6
    close(v[0], 0 * a, "polynomial at the start of the step", 1e-13, 0, sc)
    close(v[4], a, "polynomial at the end of the step", 1e-12, 0, sc)
    # Simpson is exact for a quadratic: time integral = dt (a / 2 + b / sqrt 6)
    close((v[0] + 4 * v[2] + v[4]) / 6, a / 2 + b / np.sqrt(6), "mean of the polynomial over the step", 1e-12, 0, sc)
    # quadratic: third difference is zero
    close(v[3] - 3 * v[2] + 3 * v[1] - v[0], 0 * a, "third difference of the polynomial", 1e-11, 0, sc)
    u = us[:, None]
    close(v, a * u + np.sqrt(6) * b * u * (1 - u), "polynomial", 1e-12, 0, sc)
    close(dv * dt, a + np.sqrt(6) * b * (1 - 2 * u), "time derivative of the polynomial", 1e-12, 0, sc)
    return {"nontrivial": bool(np.any(b)) and bool(np.any(a)), "labels": [f"d={d}"]}


@st.composite
def sample_case(draw, fam):
    return {"fam": fam, "d": draw(st.sampled_from([1, 2, 3, 5, 9])), "N": draw(st.sampled_from([1, 4, 13, 64])),
            "seeds": list(draw(gen.seed_pairs())),
            "dt": draw(gen.logstep(-16, 6)), "dt2": draw(gen.logstep(-16, 6)), "u": draw(gen.num(0, 1))}


@lru
def _samplers(fam, d, N):
    sam, ev = family(fam, d, N)

    def joint(keys, dts):
        return sam(keys, dts)

    def one(key, dt):
        return sam(key, dt)

    def bro(ts, dt, co):
        return ev(ts, dt, *co)
    return jax.jit(joint), jax.jit(one), jax.jit(bro)


def check_sample(c):
    """Sampling is elementwise over keys and over steps, and the polynomial built from what was
    sampled starts at 0, ends at the sampled increment."""
    d, N, fam = c["d"], c["N"], c["fam"]
    joint, one, bro = _samplers(fam, d, N)
    k1, k2 = (key(s) for s in c["seeds"])
    ks = jnp.stack([k1, k2, k1])
    dts = jnp.array([c["dt"], c["dt2"], c["dt2"]])
    out = tup(joint(ks, dts), 2 + n_extra(fam), "sampled coefficients")
    for i in range(3):
        sing = tup(one(ks[i], dts[i]), 2 + n_extra(fam), "sampled coefficients")
        for j, (x, y) in enumerate(zip(out, sing)):
            want = (d,) if j < 2 else (N, d)
            close(arr(x[i], want, "vectorized coefficient"), arr(y, want, "coefficient"),
                  f"coefficient {j} of a batch against alone", 1e-12, 1e-14)
        a = np.asarray(sing[0])
        dt = float(dts[i])
        z, e, m = (arr(bro(jnp.asarray(s * dt), dt, sing), (d,), "path") for s in (0.0, 1.0, c["u"]))
        close(z, 0 * a, "path at the start", 0, 1e-13 * np.sqrt(dt))
        close(e, a, "path at the end", 1e-12, 0)
        u = c["u"]
        close(m, a * u + np.sqrt(6) * np.asarray(sing[1]) * u * (1 - u), "path inside the step", 1e-11, 1e-13 * np.sqrt(dt))
    joint2 = joint(jnp.stack([k1, k2]), jnp.asarray(c["dt"]))
    close(joint2[0][0], out[0][0], "scalar step against batch of steps", 1e-12)
    return {"nontrivial": c["dt"] != c["dt2"] and c["seeds"][0] != c["seeds"][1], "labels": [f"d={d}", f"N={N}"]}


def _by_shard(f):
    return lambda i, n: st.sampled_from(FAMS[i::n] if n <= len(FAMS) else [FAMS[i % len(FAMS)]]).flatmap(f)


SUBS = [
    Sub("shape", _by_shard(shape_case), check_shape, quick=400, thorough=5000, shards=3, thorough_shards=6,
        rule="coefficients, step length over 28 octaves, times in and around the step, three families; non-trivial: both coefficients non-zero"),
    Sub("sampled", _by_shard(sample_case), check_sample, quick=60, thorough=900, shards=3, thorough_shards=6,
        rule="pairs of keys and of step lengths, dimensions 1-4; non-trivial: keys differ and steps differ"),
]
