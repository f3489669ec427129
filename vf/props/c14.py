"""C14: interlacing of state blocks."""
import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.lib import Sub, arr, close, jax, jnp, lru, require

from bayesian_sde_solver.ode_solvers.probnum import interlace, interlace_matrix

META = {"assumptions": []}


@st.composite
def vcase(draw):
    k, n = draw(st.sampled_from((1, 2, 3, 4, 5, 7, 11))), draw(st.sampled_from((1, 2, 3, 4, 5, 8, 13, 40)))
    return {"k": k, "n": n, "v": [draw(gen.vec(n, -50, 50)) for _ in range(k)]}


def check_vec(c):
    k, n = c["k"], c["n"]
    v = [np.array(x) for x in c["v"]]
    out = arr(interlace(tuple(v)), (k * n,), "interlaced vector")
    for i in range(k):
        close(out[i::k], v[i], f"block {i} of the interlaced vector", 0, 0)
    j = arr(interlace(tuple(jnp.asarray(x) for x in v)), (k * n,), "interlaced vector")
    require(np.array_equal(j, out), "jax and numpy blocks interlace differently")
    return {"nontrivial": k > 1 and n > 1, "labels": [f"k={k}", f"n={n}"]}


@st.composite
def mcase(draw):
    n = draw(st.sampled_from((1, 2, 3, 4, 5, 8, 13)))
    return {"n": n, "b": [draw(gen.mat(n, n, -50, 50)) for _ in range(4)], "x": draw(gen.vec(n)), "y": draw(gen.vec(n)), "cov": draw(st.booleans())}


def check_mat(c):
    n = c["n"]
    b = [np.array(m) for m in c["b"]]
    if c["cov"]:                      # blocks of a covariance
        G = np.block([[b[0], b[1]], [b[2], b[3]]])
        C = G @ G.T
        b = [C[:n, :n], C[:n, n:], C[n:, :n], C[n:, n:]]
    M = arr(interlace_matrix(*b), (2 * n, 2 * n), "interlaced matrix")
    for (r, s), m in zip(((0, 0), (0, 1), (1, 0), (1, 1)), b):
        close(M[r::2, s::2], m, f"block {r}{s} of the interlaced matrix", 0, 0)
    # consistent with the vectors: the covariance of the interlaced vector is the interlaced covariance
    x, y = np.array(c["x"]), np.array(c["y"])
    z = np.asarray(interlace((x, y)))
    close(interlace_matrix(np.outer(x, x), np.outer(x, y), np.outer(y, x), np.outer(y, y)), np.outer(z, z), "interlaced outer product", 1e-12)
    close(M @ z, np.asarray(interlace((b[0] @ x + b[1] @ y, b[2] @ x + b[3] @ y))), "interlaced matrix times interlaced vector", 1e-10, 1e-9)
    return {"nontrivial": n > 1, "labels": [f"n={n}"]}


SUBS = [
    Sub("vectors", lambda i, n: vcase(), check_vec, quick=150, thorough=3000, shards=2, rule="1-11 blocks of size 1-40; non-trivial: several blocks of several entries"),
    Sub("matrices", lambda i, n: mcase(), check_mat, quick=120, thorough=2500, shards=2,
        rule="four blocks of size 1-13 (general, or of a covariance), entry by entry and against interlaced vectors; non-trivial: size above one"),
]
