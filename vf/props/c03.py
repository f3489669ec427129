"""C03: law of the parabola coefficients and of the fine path, Brownian scaling."""
import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.lib import Sub, Violation, arr, close, jax, jnp, key, lru, mean_cov_test, normality_test, tup
from vf.props.common import FAMS, family, n_extra

META = {"assumptions": ["statistical comparisons at 7.5 standard errors, seeds drawn by the generator"]}

NSAMP = 20000


@lru
def _sample(fam, d, N, n):
    sam, _ = family(fam, d, N)

    @jax.jit
    def f(k, dt):
        co = sam(jax.random.split(k, n), dt)
        return jnp.concatenate([x.reshape((n, -1)) for x in co], axis=1), [x.shape for x in co]
    return lambda k, dt: f(k, dt)[0]


def reference_cov(fam, d, N, dt):
    """Joint covariance of (increment, second coefficient, fine coefficients...), one coordinate."""
    if fam == "approx":
        return np.diag([dt, dt / 2])
    f = dt / N
    # per piece: increment w_i, mean-area h_i
    if fam == "brownian":
        vw, vh = f, 0.0
    else:
        vw, vh = f, f / 12
    La = np.ones(N)
    # integral = sum_i f (sum_{j<i} w_j + w_i/2 + h_i) = f sum_j (N - j - 1/2) w_j + f sum h
    Li = f * (N - np.arange(N) - 0.5)
    Lh = f * np.ones(N)
    # b = sqrt6 (integral / dt - a / 2)
    Lb = np.sqrt(6) * (Li / dt - La / 2)
    Lbh = np.sqrt(6) * Lh / dt
    T = np.zeros((2 + 2 * N, 2 * N))
    T[0, :N] = La
    T[1, :N], T[1, N:] = Lb, Lbh
    T[2:2 + N, :N] = np.eye(N)
    T[2 + N:, N:] = np.eye(N)
    C = T @ np.diag(np.r_[np.full(N, vw), np.full(N, vh)]) @ T.T
    if fam == "brownian":  # standard normal increments are returned
        sc = np.r_[1, 1, np.full(N, 1 / np.sqrt(f))]
        C = C[:2 + N, :2 + N] * np.outer(sc, sc)
    return C


@st.composite
def law_case(draw, fam):
    return {"fam": fam, "d": draw(st.sampled_from([1, 2, 3, 4, 7])), "N": draw(st.sampled_from([1, 2, 3, 5, 9])) if fam != "approx" else 1,
            "seed": draw(gen.seeds), "dt": draw(gen.logstep(-14, 6))}


def check_law(c):
    fam, d, N, dt = c["fam"], c["d"], c["N"], c["dt"]
    x = arr(_sample(fam, d, N, NSAMP)(key(c["seed"]), dt), (NSAMP, d * (2 + N * n_extra(fam))), "coefficients")
    x = x.reshape(NSAMP, -1, d)                 # (sample, coefficient, coordinate)
    k = x.shape[1]
    C1 = reference_cov(fam, d, N, dt)
    C = np.kron(C1, np.eye(d))
    mean_cov_test(x.reshape(NSAMP, k * d), np.zeros(k * d), C, f"law of the coefficients ({fam})")
    for j in range(k):
        if C1[j, j] > 1e-12 * dt:
            normality_test(x[:, j, 0] / np.sqrt(C1[j, j]), f"coefficient {j} ({fam})")
    return {"nontrivial": True, "labels": [f"d={d}", f"N={N}"]}


@st.composite
def scale_case(draw, fam):
    return {"fam": fam, "d": draw(st.sampled_from([1, 2, 5, 9])), "N": draw(st.sampled_from([1, 6, 40])) if fam != "approx" else 1,
            "seed": draw(gen.seeds), "dt": draw(gen.logstep(-20, 8)), "dt2": draw(gen.logstep(-20, 8))}


@lru
def _one(fam, d, N):
    sam, _ = family(fam, d, N)
    return jax.jit(lambda k, dt: sam(k, dt))


def check_scale(c):
    """Same key: every path-valued coefficient scales with sqrt(dt); standard normals do not."""
    fam, d, N = c["fam"], c["d"], c["N"]
    f = _one(fam, d, N)
    A, B = (tup(f(key(c["seed"]), t), 2 + n_extra(fam), "coefficients") for t in (c["dt"], c["dt2"]))
    r = np.sqrt(c["dt2"] / c["dt"])
    for j, (x, y) in enumerate(zip(A, B)):
        x = arr(x, (d,) if j < 2 else (N, d), "coefficient")
        s = 1.0 if (fam == "brownian" and j == 2) else r
        close(y, x * s, f"coefficient {j} of another step length", 1e-11, 1e-13 * np.sqrt(c["dt2"]))
    return {"nontrivial": c["dt"] != c["dt2"], "labels": [f"d={d}"]}


# ---- many pieces ----------------------------------------------------------------------------------------

NM = 1200


@st.composite
def many_case(draw, confs):
    fam, d, N = draw(st.sampled_from(confs))
    return {"fam": fam, "d": d, "N": N, "cuts": draw(st.lists(st.integers(1, N - 1), min_size=3, max_size=3, unique=True)), "seed": draw(gen.seeds),
            "dt": draw(gen.logstep(-10, 3))}


def white_over_lags(x, what):
    """x: (n, N) supposed independent standard normal in both directions: every lag along the second axis."""
    n, N = x.shape
    f = np.fft.rfft(x, 2 * N, axis=1)
    r = np.fft.irfft(np.sum(np.abs(f) ** 2, axis=0), 2 * N)[:N]
    z = r[1:] / np.sqrt(n * (N - np.arange(1, N)))
    if np.max(np.abs(z)) > 8:
        raise Violation(f"{what}: pieces {int(np.argmax(np.abs(z))) + 1} apart are correlated ({np.max(np.abs(z)):.1f} standard errors)")


def check_many(c):
    fam, d, N, dt = c["fam"], c["d"], c["N"], c["dt"]
    x = arr(_sample(fam, d, N, NM)(key(c["seed"]), dt), (NM, d * (2 + N * n_extra(fam))), "coefficients")
    f = dt / N
    coarse = x[:, :2 * d].reshape(NM, 2, d) / np.sqrt(dt)
    fine = x[:, 2 * d:].reshape(NM, n_extra(fam), N, d)
    fine = fine / (np.array([1.0]) if fam == "brownian" else np.sqrt([f, f / 12]))[None, :, None, None]
    C1 = reference_cov(fam, 1, N, dt)[:2, :2] / dt
    mean_cov_test(coarse.reshape(NM, 2 * d), np.zeros(2 * d), np.kron(C1, np.eye(d)), f"coarse coefficients with {N} pieces ({fam})")
    cuts = [0] + sorted(c["cuts"]) + [N]
    u = np.stack([fine[:, :, i:j].sum(2) / np.sqrt(j - i) for i, j in zip(cuts, cuts[1:])], 1).reshape(NM, -1)
    mean_cov_test(u, np.zeros(u.shape[1]), np.eye(u.shape[1]), f"block sums of the fine coefficients, cuts {cuts} ({fam})")
    for q in range(fine.shape[1]):
        for i in range(d):
            white_over_lags(fine[:, q, :, i], f"fine coefficient {q} ({fam}, {N} pieces)")
    one = fine[0].ravel()
    if len(np.unique(one)) != one.size:
        raise Violation(f"fine coefficients of one step are repeated ({fam}, {N} pieces)")
    return {"nontrivial": True, "labels": [f"d={d}", f"N={N}"]}


# ---- many components ------------------------------------------------------------------------------------

NW = 2000


@st.composite
def wide_case(draw, confs):
    fam, d, N = draw(st.sampled_from(confs))
    return {"fam": fam, "d": d, "N": N, "seed": draw(gen.seeds), "dt": draw(gen.logstep(-14, 6))}


def uncorrelated(x, what):
    """x: (n, k) supposed standard normal with independent columns; no repetitions within a row either."""
    n, k = x.shape
    z = np.sqrt(n) * np.abs(x.mean(0))
    if z.max() > 8:
        raise Violation(f"{what}: mean of entry {int(z.argmax())} is off by {z.max():.1f} standard errors")
    S = x.T @ x / n - np.eye(k)
    z = np.sqrt(n) * np.abs(S) / np.sqrt(1 + np.eye(k))
    i, j = np.unravel_index(int(z.argmax()), z.shape)
    if z[i, j] > 9:
        raise Violation(f"{what}: entries {i} and {j} have covariance off by {S[i, j]:.3g} ({z[i, j]:.1f} standard errors)")
    if len(np.unique(x[0])) != k:
        raise Violation(f"{what}: one draw contains the same number twice")


def check_wide(c):
    fam, d, N, dt = c["fam"], c["d"], c["N"], c["dt"]
    x = arr(_sample(fam, d, N, NW)(key(c["seed"]), dt), (NW, d * (2 + N * n_extra(fam))), "coefficients").reshape(NW, -1, d)
    C = reference_cov(fam, d, N, dt)
    # the fine coefficients determine the coarse ones: whiten the free ones, over all components jointly
    free = [0, 1] if fam == "approx" else list(range(2, x.shape[1]))
    sd = np.sqrt(np.diag(C))
    uncorrelated((x[:, free] / sd[free][None, :, None]).reshape(NW, -1), f"coefficients over {d} components ({fam})")
    for q in (0, 1):
        if sd[q] > 1e-7 * np.sqrt(dt):
            uncorrelated(x[:, q] / sd[q], f"{('first', 'second')[q]} coefficient over {d} components ({fam})")
    return {"nontrivial": d > 8, "labels": [f"d={d}"]}


WD = [(fam, d, N) for d in (10, 13, 17, 19, 24, 33, 40, 65, 70, 100, 129, 200, 257) for fam, N in
      (("approx", 1), ("fine", 1), ("fine", 3), ("brownian", 2), ("brownian", 4)) if d * N * 2 < 800]

MC = [(fam, d, N) for N in (30, 100, 129, 200, 300, 530, 1030, 2100) for d in (1, 2) for fam in ("fine", "brownian") if N * d < 2500]

SUBS = [Sub("law_" + f, (lambda f: lambda i, n: law_case(f))(f), check_law, quick=14, thorough=200, shards=2, thorough_shards=3,
            weight=2, rule=f"{NSAMP} samples per case, joint mean and covariance of all coefficients (dimensions 1-4, 1-9 fine pieces) and normality; every case non-trivial")
        for f in FAMS]
SUBS += [Sub("scale_" + f, (lambda f: lambda i, n: scale_case(f))(f), check_scale, quick=60, thorough=800,
             rule="pairs of step lengths over 28 octaves with the same key; non-trivial: they differ") for f in FAMS]
SUBS += [Sub("many_pieces", lambda i, n: many_case(MC[i::n]), check_many, quick=10, thorough=100, shards=3, thorough_shards=4,
             rule=f"30-2100 fine pieces, {NM} samples: law of the coarse coefficients, of block sums of the fine ones, correlation at every lag, no repetition; every case counts")]
SUBS += [Sub("many_components", lambda i, n: wide_case(WD[i::n]), check_wide, quick=14, thorough=120, shards=3, thorough_shards=4,
             rule=f"10-257 components, {NW} samples: mean, covariance of every pair of entries, no repetition; non-trivial: more than 8 components")]
