"""Independent numpy references for the probabilistic ODE and SDE solvers."""
import numpy as np

from vf.lib import Fdt, Fjac, Fn, Sjac, Sn


def ibm_prior(q, h, d, sigma=1.0):
    from math import factorial
    n = q + 1
    A1 = np.array([[h ** (j - i) / factorial(j - i) if j >= i else 0.0 for j in range(n)] for i in range(n)])
    Q1 = sigma ** 2 * np.array([[h ** (2 * q + 1 - i - j) / ((2 * q + 1 - i - j) * factorial(q - i) * factorial(q - j))
                                 for j in range(n)] for i in range(n)])
    return np.zeros(n * d), np.kron(np.eye(d), Q1), np.kron(np.eye(d), A1)


def ekf_step(m, P, A, Q, xi, R, obs, jac, t):
    m, P = A @ m + xi, A @ P @ A.T + Q
    z, H = obs(m, t), jac(m, t)
    S = H @ P @ H.T + R
    S = (S + S.T) / 2
    K = np.linalg.solve(S, H @ P).T
    IK = np.eye(len(m)) - K @ H
    P = IK @ P @ IK.T + K @ R @ K.T          # Joseph form
    return m - K @ z, (P + P.T) / 2, z, S


def ode_filter(m, P, prior, R, f, jac, h, N, n, zero):
    """Filter of the ODE x' = f(x, t) on the grid h..Nh; the state of coordinate i is m[i n:(i + 1) n]."""
    xi, Q, A = prior
    D = len(m)
    E0, E1 = np.eye(D)[::n], np.eye(D)[1::n]
    obs = lambda m, t: E1 @ m - f(E0 @ m, t)
    H = (lambda m, t: E1) if zero else (lambda m, t: E1 - jac(E0 @ m, t) @ E0)
    z = S = None
    for k in range(1, N + 1):
        m, P, z, S = ekf_step(m, P, A, Q, xi, R, obs, H, k * h)
    return m, P, z, S


def interlace(blocks):
    return np.stack(blocks, axis=1).ravel()


def exact_init(p, x, n, t0=0.0):
    """Mean and covariance of the initial state of a filter with n states per coordinate."""
    f, J, dt = Fn(p), Fjac(p), Fdt(p)
    v = f(x, t0)
    d = len(x)
    b = [x, v]
    if n >= 3:
        b.append(J(x, t0) @ v + dt(x, t0))
    b += [np.zeros(d)] * (n - len(b))
    D = np.diag([0.0] * min(n, 3) + [1.0] * max(0, n - 3))
    return interlace(b), np.kron(np.eye(d), D)


def alg2(p, x, prior, R, h, N, n, zero):
    m, P = exact_init(p, x, n)
    return ode_filter(m, P, prior, R, Fn(p), Fjac(p), h, N, n, zero)


def alg3_init(p, m0, P0, zero):
    J = np.zeros((len(m0), len(m0))) if zero else Fjac(p)(m0, 0.0)
    d = len(m0)
    P = np.zeros((2 * d, 2 * d))
    P[::2, ::2], P[::2, 1::2], P[1::2, ::2], P[1::2, 1::2] = P0, P0 @ J.T, J @ P0, J @ P0 @ J.T
    return interlace([m0, Fn(p)(m0, 0.0)]), P


def alg3(p, m0, P0, prior, R, h, N, zero):
    m, P = alg3_init(p, m0, P0, zero)
    return ode_filter(m, P, prior, R, Fn(p), Fjac(p), h, N, 2, zero)


def ssm_init(fp, sp, x, delta):
    """State per coordinate: position, velocity, Brownian increment, second coefficient."""
    d = len(x)
    s = Sn(sp)(x, 0.0)
    # velocity at 0 = f + s (w + sqrt6 i) / delta, w ~ N(0, delta), i ~ N(0, delta / 2)
    T = np.zeros((4 * d, 2 * d))
    T[1::4, :d], T[1::4, d:] = s / delta, np.sqrt(6) * s / delta
    T[2::4, :d], T[3::4, d:] = np.eye(d), np.eye(d)
    C = np.diag(np.r_[np.full(d, delta), np.full(d, delta / 2)])
    m = interlace([x, Fn(fp)(x, 0.0), np.zeros(d), np.zeros(d)])
    return m, T @ C @ T.T


def ssm_filter(fp, sp, x, delta, prior1, R, h, N, zero):
    d = len(x)
    m, P = ssm_init(fp, sp, x, delta)
    xi1, Q1, A1 = prior1
    A = np.kron(np.eye(d), np.block([[A1, np.zeros((2, 2))], [np.zeros((2, 2)), np.eye(2)]]))
    Q = np.kron(np.eye(d), np.block([[Q1, np.zeros((2, 2))], [np.zeros((2, 4))]]))
    xi = np.tile(np.r_[xi1, 0, 0], d)
    f, s, J, Js = Fn(fp), Sn(sp), Fjac(fp), Sjac(sp)
    I = np.eye(4 * d)

    def rate(m, t):
        return (m[2::4] + np.sqrt(6) * (1 - 2 * t / delta) * m[3::4]) / delta

    def obs(m, t):
        return m[1::4] - f(m[::4], t) - s(m[::4], t) @ rate(m, t)

    def jac(m, t):
        sv = s(m[::4], t)
        H = I[1::4] - sv @ (I[2::4] + np.sqrt(6) * (1 - 2 * t / delta) * I[3::4]) / delta
        if not zero:
            H = H - (J(m[::4], t) + np.einsum("ijk,j->ik", Js(m[::4], t), rate(m, t))) @ I[::4]
        return H
    for k in range(1, N + 1):
        m, P, z, S = ekf_step(m, P, A, Q, xi, R, obs, jac, k * h)
    return m, P, z, S
