From f352e4a8627f0349a42fe8c43a6e7133c7f6304c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:32 +0000
Subject: [PATCH 01/21] fix: use jax.scipy.integrate.trapezoid, jnp.trapezoid
 does not exist in jax 0.4.23

transition_function (and with it every Matern prior but the closed-form one)
raised AttributeError.
---
 .../ode_solvers/probnum/transition_function.py               | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/probnum/transition_function.py b/bayesian_sde_solver/ode_solvers/probnum/transition_function.py
index 60b0c10..ea1366b 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/transition_function.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/transition_function.py
@@ -3,6 +3,7 @@ from typing import Tuple
 import jax
 import jax.numpy as jnp
 import jax.scipy.linalg as linalg
+from jax.scipy.integrate import trapezoid
 from numpy.typing import ArrayLike
 
 
@@ -27,7 +28,7 @@ def transition_function(F: jnp.array, u: jnp.array, L: jnp.array, h: float, n_li
         return linalg.expm(F * s) @ u
 
     integrand_xi_values = integrand_xi(linspace)
-    xi = jnp.trapezoid(integrand_xi_values, linspace, axis=0)
+    xi = trapezoid(integrand_xi_values, linspace, axis=0)
 
     @jax.vmap
     def integrand_Q(s):
@@ -35,7 +36,7 @@ def transition_function(F: jnp.array, u: jnp.array, L: jnp.array, h: float, n_li
         return B @ B.T
 
     integrand_Q_values = integrand_Q(linspace)
-    Q = jnp.trapezoid(integrand_Q_values, linspace, axis=0)
+    Q = trapezoid(integrand_Q_values, linspace, axis=0)
 
     return xi, Q, A
 
-- 
2.43.0


From 310cb61c4f1e35682133d73407e0fd5abd4c935d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:32 +0000
Subject: [PATCH 02/21] fix: Matern companion matrix used the inverse powers of
 lambda

(D + lambda)^(k+1) has coefficients comb(k+1, i) lambda^(k+1-i).
---
 bayesian_sde_solver/ode_solvers/probnum/matern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_sde_solver/ode_solvers/probnum/matern.py b/bayesian_sde_solver/ode_solvers/probnum/matern.py
index e2675e4..d3b99a6 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/matern.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/matern.py
@@ -62,7 +62,7 @@ ArrayLike]:
     else:
         F = jnp.block(
             [[jnp.zeros(k).reshape((k, 1)), jnp.diag(jnp.ones(k))],
-             [jnp.array([-comb(k + 1, i) * lambda_param ** (i - (k + 1)) for i in range(k + 1)]).reshape((1, k + 1))]]
+             [jnp.array([-comb(k + 1, i) * lambda_param ** (k + 1 - i) for i in range(k + 1)]).reshape((1, k + 1))]]
         )
         L = jnp.append(jnp.array([0. for _ in range(k)]), jnp.array([magnitude])).reshape(k + 1, 1)
         m, Q, A = compute_transition_function(F, jnp.zeros(k + 1), L, dt)
-- 
2.43.0


From ec1d320958f282bb4c0902975ea6b74a96d345d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:32 +0000
Subject: [PATCH 03/21] fix: the marginalised parabola filter did not pass xi
 to ekf

Every call raised TypeError.
---
 bayesian_sde_solver/ssm_parabola/ekf.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bayesian_sde_solver/ssm_parabola/ekf.py b/bayesian_sde_solver/ssm_parabola/ekf.py
index 49f5e6a..b4495c7 100644
--- a/bayesian_sde_solver/ssm_parabola/ekf.py
+++ b/bayesian_sde_solver/ssm_parabola/ekf.py
@@ -64,13 +64,13 @@ def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=No
             return x[1::4] - extended_vector_field(x, t)
     if prior is None:
         (
-            _,
+            one_block_transition_incr,
             one_block_transition_covariance,
             one_block_transition_matrix
         ) = IOUP_transition_function(theta=0.0, sigma=1.0, q=1, dt=h, dim=1)
     else:
         (
-            _,
+            one_block_transition_incr,
             one_block_transition_covariance,
             one_block_transition_matrix
         ) = prior
@@ -89,10 +89,13 @@ def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=No
          [jnp.zeros((2, 2)), jnp.zeros((2, 2))]]
     )
 
+    one_block_transition_incr = jnp.concatenate([one_block_transition_incr, jnp.zeros(2)])
+
+    transition_incr = jnp.tile(one_block_transition_incr, dim)
     transition_matrix = jnp.kron(jnp.eye(dim), one_block_transition_matrix)
     transition_covariance = jnp.kron(jnp.eye(dim), one_block_transition_covariance)
 
     filtered = ekf(init=init, observation_function=observation_function, A=transition_matrix,
-                   Q_or_cholQ=transition_covariance, R_or_cholR=noise, params=(ts,), lower_sqrt=sqrt)
+                   Q_or_cholQ=transition_covariance, xi=transition_incr, R_or_cholR=noise, params=(ts,), lower_sqrt=sqrt)
 
     return filtered
-- 
2.43.0


From 31844b28a2b6b13baa7805242e7aa347e75c8573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:32 +0000
Subject: [PATCH 04/21] fix: ekf0 and ekf1 failed with the default (IBM) prior

The number of states was read from prior[2] with prior=None.
---
 bayesian_sde_solver/ode_solvers/ekf0.py | 2 +-
 bayesian_sde_solver/ode_solvers/ekf1.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/ekf0.py b/bayesian_sde_solver/ode_solvers/ekf0.py
index 17b3f43..d0635dd 100644
--- a/bayesian_sde_solver/ode_solvers/ekf0.py
+++ b/bayesian_sde_solver/ode_solvers/ekf0.py
@@ -11,7 +11,7 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None):
     Wrapper for EKF0 with new prior at each step.
     Algorithm 2.
     """
-    n_states = int(prior[2].shape[0] / init.shape[
+    n_states = 2 if prior is None else int(prior[2].shape[0] / init.shape[
         0])  # assuming same order for each dimension... not general, but good enough. You can pad otherwise.
     dim = init.shape[0]
     # the first two cases are exact initialization
diff --git a/bayesian_sde_solver/ode_solvers/ekf1.py b/bayesian_sde_solver/ode_solvers/ekf1.py
index 20a4f5a..8fa3054 100644
--- a/bayesian_sde_solver/ode_solvers/ekf1.py
+++ b/bayesian_sde_solver/ode_solvers/ekf1.py
@@ -10,7 +10,7 @@ def solver(key, init, vector_field, h, N, sqrt=True, prior=None, noise=None):
     """
     Wrapper for EKF1 with new prior at each step.
     """
-    n_states = int(prior[2].shape[0] / init.shape[0])
+    n_states = 2 if prior is None else int(prior[2].shape[0] / init.shape[0])
     dim = init.shape[0]
     if n_states == 2:
         # Zero initial variance
-- 
2.43.0


From 3d52804e1f5cd79b57c671a35a8ab1968082a9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:32 +0000
Subject: [PATCH 05/21] fix: euler_maruyama_pathwise scaled the caller's
 increments in place

With standard=True and a numpy array, the in-place product changed the
caller's array.
---
 bayesian_sde_solver/sde_solvers/euler_maruyama.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_sde_solver/sde_solvers/euler_maruyama.py b/bayesian_sde_solver/sde_solvers/euler_maruyama.py
index 567826b..6985203 100644
--- a/bayesian_sde_solver/sde_solvers/euler_maruyama.py
+++ b/bayesian_sde_solver/sde_solvers/euler_maruyama.py
@@ -39,7 +39,7 @@ def solver_pathwise(incs, init, drift, sigma, h, N, standard=False):
 
     ts = jnp.linspace(0, N * h, N + 1)
     if standard:
-        incs *= h ** 0.5
+        incs = incs * h ** 0.5
     inps = incs, ts[:-1]
     _, samples = jax.lax.scan(body, init, inps)
     samples = jnp.insert(samples, 0, init, axis=0)
-- 
2.43.0


From 14233b0741f9ae0b1bb8f1800984a0f8322b5add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:32 +0000
Subject: [PATCH 06/21] fix: reduced synaptic conductance indexed a
 three-dimensional state

The two-dimensional state was read at indices 1 and 2 (the latter clamped
to 1), so the first conductance never entered its own equation.
---
 bayesian_sde_solver/utils/ivp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayesian_sde_solver/utils/ivp.py b/bayesian_sde_solver/utils/ivp.py
index fedc79d..137a5b3 100644
--- a/bayesian_sde_solver/utils/ivp.py
+++ b/bayesian_sde_solver/utils/ivp.py
@@ -163,16 +163,16 @@ def synaptic_conductance_reduced():
 
     def drift(x):
         return jnp.array(
-            [-1.0 / tau_E * (x[1] - gbar_E), -1.0 / tau_I * (x[2] - gbar_I)]
+            [-1.0 / tau_E * (x[0] - gbar_E), -1.0 / tau_I * (x[1] - gbar_I)]
         )
 
     def sigma(x):
         return jnp.array(
-            [[sig_E * x[1] ** 0.5, 0.0], [0.0, sig_I * x[2] ** 0.5]]
+            [[sig_E * x[0] ** 0.5, 0.0], [0.0, sig_I * x[1] ** 0.5]]
         )
 
     def theoretical_mean_up_to_order_2(t):
-        return x0 + t * drift(x0) + t ** 2 / 2 * jnp.array([-1.0 / tau_E * drift(x0)[1], -1.0 / tau_I * drift(x0)[2]])
+        return x0 + t * drift(x0) + t ** 2 / 2 * jnp.array([-1.0 / tau_E * drift(x0)[0], -1.0 / tau_I * drift(x0)[1]])
 
     return x0, drift, sigma, theoretical_mean_up_to_order_2
 
-- 
2.43.0


From bb08636713a921f6f5641a20237846198e043009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:32 +0000
Subject: [PATCH 07/21] fix: sign of alpha in the second-order FitzHugh-Nagumo
 mean

---
 bayesian_sde_solver/utils/ivp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_sde_solver/utils/ivp.py b/bayesian_sde_solver/utils/ivp.py
index 137a5b3..f2aaa4e 100644
--- a/bayesian_sde_solver/utils/ivp.py
+++ b/bayesian_sde_solver/utils/ivp.py
@@ -40,7 +40,7 @@ def fhn():
         return x0 + t * jnp.array(
             [1 / eps * (x0[0] - x0[0] ** 3 - x0[1] + s) + t / 2 * 1 / eps * (
                     1 / eps * (1 - 3 * x0[0] ** 2) * (x0[0] - x0[0] ** 3 - x0[1] + s)
-                    - (gamma * x0[0] - x0[1] - alpha)),
+                    - (gamma * x0[0] - x0[1] + alpha)),
              gamma * x0[0] - x0[1] + alpha + t / 2 * (
                      gamma / eps * (x0[0] - x0[0] ** 3 - x0[1] + s) - (gamma * x0[0] - x0[1] + alpha))])
 
-- 
2.43.0


From f70117bc1f21b2346d6a1ae521e6f84ab19811ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:32 +0000
Subject: [PATCH 08/21] fix: multiplicative-noise terms of the order 1.5 scheme
 are componentwise

They were contracted over the components, and the last one, missing a factor
of the Brownian increment, had a mean of order h.
---
 bayesian_sde_solver/sde_solvers/diag_15_scheme.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayesian_sde_solver/sde_solvers/diag_15_scheme.py b/bayesian_sde_solver/sde_solvers/diag_15_scheme.py
index fdb0a0c..ce223fa 100644
--- a/bayesian_sde_solver/sde_solvers/diag_15_scheme.py
+++ b/bayesian_sde_solver/sde_solvers/diag_15_scheme.py
@@ -59,11 +59,11 @@ def solver(key, init, drift, sigma, h, N):
                 * partialxsigma(x)
                 @ sigma(x)
                 @ (jnp.square(eta_k) - h * jnp.ones(dim))
-                + partialxsigma(x) @ drift(x) @ (h * eta_k - zeta_k)
-                + 0.5 * laplacesigma(x) @ (h * eta_k - zeta_k)
+                + partialxsigma(x) @ drift(x) * (h * eta_k - zeta_k)
+                + 0.5 * laplacesigma(x) * (h * eta_k - zeta_k)
                 + 0.5
-                * (partialxsigma(x) @ partialxsigma(x) @ sigma(x) + laplacesigma(x))
-                @ (1 / 3 * eta_k @ eta_k.T - h * jnp.ones(dim))
+                * (partialxsigma(x) @ partialxsigma(x) @ diagSigma(x) + laplacesigma(x))
+                * (1 / 3 * jnp.square(eta_k) - h * jnp.ones(dim)) * eta_k
         )
         return out, out
 
-- 
2.43.0


From 7eb57460c606439d8fd54b7340a59357329b2646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:32 +0000
Subject: [PATCH 09/21] fix: area of the parabola of a fine Brownian path

The trapezoidal rule skipped the path's first point and counted its last one
twice, hence an area off by O(1 / N) and correlated with the increment.
---
 bayesian_sde_solver/foster_polynomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesian_sde_solver/foster_polynomial.py b/bayesian_sde_solver/foster_polynomial.py
index ef58d22..47e4879 100644
--- a/bayesian_sde_solver/foster_polynomial.py
+++ b/bayesian_sde_solver/foster_polynomial.py
@@ -35,10 +35,10 @@ def get_approx_and_brownian(dim=1, N=1000):
     @partial(jnp.vectorize, signature="(d),()->(e),(e),(f,s)")
     def parabolas(key, dt):
         incs = jax.random.normal(key, shape=(N, dim))
-        bm = jnp.cumsum(incs, axis=0)
+        bm = jnp.concatenate([jnp.zeros((1, dim)), jnp.cumsum(incs, axis=0)])
         bm *= jnp.sqrt(dt / N)
 
-        _is = jnp.arange(1, N + 1)
+        _is = jnp.arange(N + 1)
 
         eps_0 = bm.at[-1].get()
 
-- 
2.43.0


From bb1ccedb16029c4e8278bb83d3ccc2b1eb585be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:18 +0000
Subject: [PATCH 10/21] fix: exact initialization of the second derivative of a
 time-dependent field

y'' = J f + df/dt; the partial derivative in time was left out, although the
vector fields given by sde_solver always depend on time.
---
 bayesian_sde_solver/ode_solvers/ekf0.py | 4 ++--
 bayesian_sde_solver/ode_solvers/ekf1.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/ekf0.py b/bayesian_sde_solver/ode_solvers/ekf0.py
index d0635dd..c4306f1 100644
--- a/bayesian_sde_solver/ode_solvers/ekf0.py
+++ b/bayesian_sde_solver/ode_solvers/ekf0.py
@@ -24,14 +24,14 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None):
     elif n_states == 3:
         # Zero initial variance
         init = (
-            interlace((init, vector_field(init, 0.0), jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0))),
+            interlace((init, vector_field(init, 0.0), jax.jvp(vector_field, (init, 0.0), (vector_field(init, 0.0), 1.0))[1])),
             jnp.zeros((n_states * dim, n_states * dim))
         )
     else:
         # The three first states are exactly initialized, otherwise set to 0 with unit variance. This is arbitrary.
         init = (
             interlace((init, vector_field(init, 0.0),
-                       jax.jacfwd(vector_field, argnums=(0,))(init, 0.0) @ vector_field(init, 0.0),
+                       jax.jvp(vector_field, (init, 0.0), (vector_field(init, 0.0), 1.0))[1],
                        *(jnp.zeros(dim) for _ in range(n_states - 3)))),
             jnp.kron(jnp.eye(dim), jnp.identity(n_states).at[:3, :3]).set(0)
         )
diff --git a/bayesian_sde_solver/ode_solvers/ekf1.py b/bayesian_sde_solver/ode_solvers/ekf1.py
index 8fa3054..996e28d 100644
--- a/bayesian_sde_solver/ode_solvers/ekf1.py
+++ b/bayesian_sde_solver/ode_solvers/ekf1.py
@@ -21,13 +21,13 @@ def solver(key, init, vector_field, h, N, sqrt=True, prior=None, noise=None):
     elif n_states == 3:
         # Zero initial variance
         init = (
-            interlace((init, vector_field(init, 0.0), jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0))),
+            interlace((init, vector_field(init, 0.0), jax.jvp(vector_field, (init, 0.0), (vector_field(init, 0.0), 1.0))[1])),
             jnp.zeros((n_states * dim, n_states * dim))
         )
     else:
         # The three first states are exactly initialized, otherwise set to 0 with unit variance. This is arbitrary.
         init = (
-            interlace((init, vector_field(init, 0.0), jax.jacfwd(vector_field)(init, 0.0) @ vector_field(init, 0.0),
+            interlace((init, vector_field(init, 0.0), jax.jvp(vector_field, (init, 0.0), (vector_field(init, 0.0), 1.0))[1],
                        *(jnp.zeros(dim) for _ in range(n_states - 3)))),
             jnp.eye(n_states * dim).at[:3 * dim, :3 * dim].set(0.0)
         )
-- 
2.43.0


From 243602fe8dbd4b39c3d1710e429e4a1effc8c2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:18 +0000
Subject: [PATCH 11/21] fix: initial covariance with more than three states

ekf0 called set on a kron of an index view (AttributeError); ekf1 zeroed the
first 3 * dim rows although the states of each coordinate are interlaced.
---
 bayesian_sde_solver/ode_solvers/ekf0.py | 2 +-
 bayesian_sde_solver/ode_solvers/ekf1.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/ekf0.py b/bayesian_sde_solver/ode_solvers/ekf0.py
index c4306f1..5843f84 100644
--- a/bayesian_sde_solver/ode_solvers/ekf0.py
+++ b/bayesian_sde_solver/ode_solvers/ekf0.py
@@ -33,7 +33,7 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None):
             interlace((init, vector_field(init, 0.0),
                        jax.jvp(vector_field, (init, 0.0), (vector_field(init, 0.0), 1.0))[1],
                        *(jnp.zeros(dim) for _ in range(n_states - 3)))),
-            jnp.kron(jnp.eye(dim), jnp.identity(n_states).at[:3, :3]).set(0)
+            jnp.kron(jnp.eye(dim), jnp.identity(n_states).at[:3, :3].set(0.0))
         )
     filtered = _solver(init, vector_field, h, N, sqrt, EKF0=True, prior=prior, noise=noise, n_states=n_states)
     m, P = filtered
diff --git a/bayesian_sde_solver/ode_solvers/ekf1.py b/bayesian_sde_solver/ode_solvers/ekf1.py
index 996e28d..4a71905 100644
--- a/bayesian_sde_solver/ode_solvers/ekf1.py
+++ b/bayesian_sde_solver/ode_solvers/ekf1.py
@@ -29,7 +29,7 @@ def solver(key, init, vector_field, h, N, sqrt=True, prior=None, noise=None):
         init = (
             interlace((init, vector_field(init, 0.0), jax.jvp(vector_field, (init, 0.0), (vector_field(init, 0.0), 1.0))[1],
                        *(jnp.zeros(dim) for _ in range(n_states - 3)))),
-            jnp.eye(n_states * dim).at[:3 * dim, :3 * dim].set(0.0)
+            jnp.kron(jnp.eye(dim), jnp.identity(n_states).at[:3, :3].set(0.0))
         )
     filtered = _solver(init, vector_field, h, N, sqrt, EKF0=False, prior=prior, noise=noise, n_states=n_states)
     m, P = filtered
-- 
2.43.0


From 976bc9160982eaffc5455115682be85cb60446f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:18 +0000
Subject: [PATCH 12/21] fix: square root of singular covariances

sqrtm divides by zero on the singular covariances that exact initialization
and noiseless observations produce, e.g. ekf1_2 with sqrt=True returned NaN on
the harmonic oscillator. Use an eigenvalue-based square root.
---
 bayesian_sde_solver/ode_solvers/ekf0.py             |  5 ++---
 bayesian_sde_solver/ode_solvers/ekf0_2.py           |  7 +++----
 bayesian_sde_solver/ode_solvers/ekf1.py             |  5 ++---
 bayesian_sde_solver/ode_solvers/ekf1_2.py           |  7 +++----
 bayesian_sde_solver/ode_solvers/probnum/__init__.py |  2 +-
 bayesian_sde_solver/ode_solvers/probnum/_utils.py   | 11 +++++++++++
 bayesian_sde_solver/ssm_parabola/ekf.py             |  5 ++---
 bayesian_sde_solver/ssm_parabola/ekf0.py            |  4 ++--
 bayesian_sde_solver/ssm_parabola/ekf1.py            |  4 ++--
 9 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/ekf0.py b/bayesian_sde_solver/ode_solvers/ekf0.py
index 5843f84..e6d3e67 100644
--- a/bayesian_sde_solver/ode_solvers/ekf0.py
+++ b/bayesian_sde_solver/ode_solvers/ekf0.py
@@ -1,9 +1,8 @@
 import jax
 import jax.numpy as jnp
-import jax.scipy.linalg as linalg
 
 from bayesian_sde_solver.ode_solvers.ekf1 import _solver
-from bayesian_sde_solver.ode_solvers.probnum import interlace
+from bayesian_sde_solver.ode_solvers.probnum import interlace, psd_sqrt
 
 
 def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None):
@@ -38,7 +37,7 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None):
     filtered = _solver(init, vector_field, h, N, sqrt, EKF0=True, prior=prior, noise=noise, n_states=n_states)
     m, P = filtered
     if key is not None:
-        sqrtP = P if sqrt else jnp.real(linalg.sqrtm(P))
+        sqrtP = P if sqrt else psd_sqrt(P)
         last_sample = m + sqrtP @ jax.random.multivariate_normal(key, jnp.zeros((n_states * dim,)),
                                                                  jnp.eye(n_states * dim))
         return jnp.vstack(last_sample[::n_states]).reshape((dim,))
diff --git a/bayesian_sde_solver/ode_solvers/ekf0_2.py b/bayesian_sde_solver/ode_solvers/ekf0_2.py
index 6485a59..6a0072d 100644
--- a/bayesian_sde_solver/ode_solvers/ekf0_2.py
+++ b/bayesian_sde_solver/ode_solvers/ekf0_2.py
@@ -1,9 +1,8 @@
 import jax
 import jax.numpy as jnp
-import jax.scipy.linalg as linalg
 
 from bayesian_sde_solver.ode_solvers.ekf import _solver
-from bayesian_sde_solver.ode_solvers.probnum import interlace, interlace_matrix
+from bayesian_sde_solver.ode_solvers.probnum import interlace, interlace_matrix, psd_sqrt
 
 
 def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None, return_all=False):
@@ -21,7 +20,7 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None, re
     P_10 = H @ P_00
     var = interlace_matrix(P_00, P_01, P_10, P_11)
     if sqrt:
-        var = jnp.real(linalg.sqrtm(var))
+        var = psd_sqrt(var)
     init = (
         interlace((m_0, vector_field(m_0, 0.0))),
         var
@@ -36,7 +35,7 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None, re
         sqrtP = P
         P = sqrtP @ sqrtP.T
     else:
-        sqrtP = jnp.real(linalg.sqrtm(P))
+        sqrtP = psd_sqrt(P)
     if key is not None:
         sample = m + sqrtP @ jax.random.multivariate_normal(key, jnp.zeros((2 * dim,)), jnp.eye(2 * dim))
     else:
diff --git a/bayesian_sde_solver/ode_solvers/ekf1.py b/bayesian_sde_solver/ode_solvers/ekf1.py
index 4a71905..05b0784 100644
--- a/bayesian_sde_solver/ode_solvers/ekf1.py
+++ b/bayesian_sde_solver/ode_solvers/ekf1.py
@@ -1,9 +1,8 @@
 import jax
 import jax.numpy as jnp
-import jax.scipy.linalg as linalg
 
 from bayesian_sde_solver.ode_solvers.ekf import _solver
-from bayesian_sde_solver.ode_solvers.probnum import interlace
+from bayesian_sde_solver.ode_solvers.probnum import interlace, psd_sqrt
 
 
 def solver(key, init, vector_field, h, N, sqrt=True, prior=None, noise=None):
@@ -34,7 +33,7 @@ def solver(key, init, vector_field, h, N, sqrt=True, prior=None, noise=None):
     filtered = _solver(init, vector_field, h, N, sqrt, EKF0=False, prior=prior, noise=noise, n_states=n_states)
     m, P = filtered
     if key is not None:
-        sqrtP = P if sqrt else jnp.real(linalg.sqrtm(P))
+        sqrtP = P if sqrt else psd_sqrt(P)
         last_sample = m + sqrtP @ jax.random.multivariate_normal(key, jnp.zeros((n_states * dim,)), jnp.eye(n_states * dim))
         return jnp.vstack(last_sample[::n_states]).reshape((dim,))
     last_value = jnp.vstack(m[::n_states]).reshape((dim,))
diff --git a/bayesian_sde_solver/ode_solvers/ekf1_2.py b/bayesian_sde_solver/ode_solvers/ekf1_2.py
index f366836..d2035c0 100644
--- a/bayesian_sde_solver/ode_solvers/ekf1_2.py
+++ b/bayesian_sde_solver/ode_solvers/ekf1_2.py
@@ -1,9 +1,8 @@
 import jax
 import jax.numpy as jnp
-import jax.scipy.linalg as linalg
 
 from bayesian_sde_solver.ode_solvers.ekf import _solver
-from bayesian_sde_solver.ode_solvers.probnum import interlace, interlace_matrix
+from bayesian_sde_solver.ode_solvers.probnum import interlace, interlace_matrix, psd_sqrt
 
 
 def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None, return_all=False):
@@ -26,7 +25,7 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None, re
     P_01 = P_00 @ H.T
     var = interlace_matrix(P_00, P_01, P_10, P_11)
     if sqrt:
-        var = jnp.real(linalg.sqrtm(var))
+        var = psd_sqrt(var)
     init = (
         interlace((m_0, vector_field(m_0, 0.0))),
         var
@@ -41,7 +40,7 @@ def solver(key, init, vector_field, h, N, sqrt=False, prior=None, noise=None, re
         sqrtP = P
         P = sqrtP @ sqrtP.T
     else:
-        sqrtP = jnp.real(linalg.sqrtm(P))
+        sqrtP = psd_sqrt(P)
     if key is not None:
         sample = m + sqrtP @ jax.random.multivariate_normal(key, jnp.zeros((2 * dim,)), jnp.eye(2 * dim))
     else:
diff --git a/bayesian_sde_solver/ode_solvers/probnum/__init__.py b/bayesian_sde_solver/ode_solvers/probnum/__init__.py
index 49556ad..aa05cb6 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/__init__.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/__init__.py
@@ -1,5 +1,5 @@
 from .IOUP import transition_function as IOUP_transition_function
 from .matern import transition_function as matern_transition_function
-from ._utils import interlace, interlace_matrix
+from ._utils import interlace, interlace_matrix, psd_sqrt
 from .ekf import ekf
 from .transition_function import transition_function as transition_function, get_independently_factorized_prior, pad_prior
diff --git a/bayesian_sde_solver/ode_solvers/probnum/_utils.py b/bayesian_sde_solver/ode_solvers/probnum/_utils.py
index 43cd8f6..beaf9b1 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/_utils.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/_utils.py
@@ -27,3 +27,14 @@ def interlace_matrix(v: ArrayLike, w: ArrayLike, x: ArrayLike, y: ArrayLike) ->
     _var = _var.at[1::2, ::2].set(var.at[dim:, :dim].get())
     _var = _var.at[::2, 1::2].set(var.at[:dim, dim:].get())
     return _var
+
+
+def psd_sqrt(P: ArrayLike) -> ArrayLike:
+    """
+    A square root S of a symmetric positive semi-definite matrix, i.e., P = S @ S.T.
+    P can be singular. S is neither triangular nor symmetric in general.
+    """
+    scale = jnp.sqrt(jnp.diagonal(P).clip(0.0))
+    scale = jnp.where(scale > 0.0, scale, 1.0)
+    w, v = jnp.linalg.eigh(P / jnp.outer(scale, scale))
+    return scale[:, None] * v * jnp.sqrt(w.clip(0.0))
diff --git a/bayesian_sde_solver/ssm_parabola/ekf.py b/bayesian_sde_solver/ssm_parabola/ekf.py
index b4495c7..3e8cb51 100644
--- a/bayesian_sde_solver/ssm_parabola/ekf.py
+++ b/bayesian_sde_solver/ssm_parabola/ekf.py
@@ -1,10 +1,9 @@
 import jax
 import jax.numpy as jnp
-import jax.scipy.linalg as linalg
 
 from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function
 from bayesian_sde_solver.ode_solvers.probnum import ekf
-from bayesian_sde_solver.ode_solvers.probnum import interlace
+from bayesian_sde_solver.ode_solvers.probnum import interlace, psd_sqrt
 
 
 def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=None, noise=None):
@@ -77,7 +76,7 @@ def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=No
 
     if sqrt:
         one_block_transition_covariance = jnp.linalg.cholesky(one_block_transition_covariance)
-        var = jnp.real(linalg.sqrtm(var))  # should be LDL.T, Cholesky
+        var = psd_sqrt(var)
     init = (mean, var)
 
     one_block_transition_matrix = jnp.block(
diff --git a/bayesian_sde_solver/ssm_parabola/ekf0.py b/bayesian_sde_solver/ssm_parabola/ekf0.py
index 4ad9bd2..7205b12 100644
--- a/bayesian_sde_solver/ssm_parabola/ekf0.py
+++ b/bayesian_sde_solver/ssm_parabola/ekf0.py
@@ -1,7 +1,7 @@
 import jax
 import jax.numpy as jnp
-import jax.scipy.linalg as linalg
 
+from bayesian_sde_solver.ode_solvers.probnum import psd_sqrt
 from bayesian_sde_solver.ssm_parabola.ekf import _solver
 
 
@@ -15,7 +15,7 @@ def solver(key, init, delta, drift, diffusion, h, N, sqrt=False, prior=None, noi
     filtered = _solver(init, drift, diffusion, delta, h, N, sqrt, EKF0=True, prior=prior, noise=noise)
     m, P = filtered
     if key is not None:
-        sqrtP = P if sqrt else jnp.real(linalg.sqrtm(P))
+        sqrtP = P if sqrt else psd_sqrt(P)
         sample = m + sqrtP @ jax.random.multivariate_normal(key, jnp.zeros((4 * dim,)), jnp.eye(4 * dim))
     else:
         sample = m  # no sampling, only mean.
diff --git a/bayesian_sde_solver/ssm_parabola/ekf1.py b/bayesian_sde_solver/ssm_parabola/ekf1.py
index 2117f28..b396e71 100644
--- a/bayesian_sde_solver/ssm_parabola/ekf1.py
+++ b/bayesian_sde_solver/ssm_parabola/ekf1.py
@@ -1,7 +1,7 @@
 import jax
 import jax.numpy as jnp
-import jax.scipy.linalg as linalg
 
+from bayesian_sde_solver.ode_solvers.probnum import psd_sqrt
 from bayesian_sde_solver.ssm_parabola.ekf import _solver
 
 
@@ -15,7 +15,7 @@ def solver(key, init, delta, drift, diffusion, h, N, sqrt=False, prior=None, noi
     filtered = _solver(init, drift, diffusion, delta, h, N, sqrt, EKF0=False, prior=prior, noise=noise)
     m, P = filtered
     if key is not None:
-        sqrtP = P if sqrt else jnp.real(linalg.sqrtm(P))
+        sqrtP = P if sqrt else psd_sqrt(P)
         sample = m + sqrtP @ jax.random.multivariate_normal(key, jnp.zeros((4 * dim,)), jnp.eye(4 * dim))
     else:
         sample = m  # no sampling, only mean.
-- 
2.43.0


From 0304c1f1b0e55c4c9f3e33e9d50e6ac43385c4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:18 +0000
Subject: [PATCH 13/21] fix: sqrt=True with an observation noise or a singular
 prior

The noise covariance was used as its own square root, and the Cholesky
decomposition of a padded prior's covariance is NaN.
---
 bayesian_sde_solver/ode_solvers/ekf.py  | 5 +++--
 bayesian_sde_solver/ssm_parabola/ekf.py | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/ekf.py b/bayesian_sde_solver/ode_solvers/ekf.py
index 490af4e..4a2e431 100644
--- a/bayesian_sde_solver/ode_solvers/ekf.py
+++ b/bayesian_sde_solver/ode_solvers/ekf.py
@@ -2,7 +2,7 @@ import jax
 import jax.numpy as jnp
 
 from bayesian_sde_solver.ode_solvers.probnum import IOUP_transition_function
-from bayesian_sde_solver.ode_solvers.probnum import ekf
+from bayesian_sde_solver.ode_solvers.probnum import ekf, psd_sqrt
 
 
 def _solver(init, vector_field, h, N, sqrt=False, EKF0=False, prior=None, noise=None, return_all=False, n_states=2):
@@ -44,7 +44,8 @@ def _solver(init, vector_field, h, N, sqrt=False, EKF0=False, prior=None, noise=
             transition_matrix
         ) = prior
     if sqrt:
-        transition_covariance = jnp.linalg.cholesky(transition_covariance)
+        transition_covariance = psd_sqrt(transition_covariance)
+        noise = psd_sqrt(noise)
 
     filtered = ekf(init=init, observation_function=observation_function, A=transition_matrix,
                    Q_or_cholQ=transition_covariance, xi=transition_incr, R_or_cholR=noise, params=(ts,), lower_sqrt=sqrt, return_UC=return_all)
diff --git a/bayesian_sde_solver/ssm_parabola/ekf.py b/bayesian_sde_solver/ssm_parabola/ekf.py
index 3e8cb51..4cd743b 100644
--- a/bayesian_sde_solver/ssm_parabola/ekf.py
+++ b/bayesian_sde_solver/ssm_parabola/ekf.py
@@ -75,7 +75,8 @@ def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=No
         ) = prior
 
     if sqrt:
-        one_block_transition_covariance = jnp.linalg.cholesky(one_block_transition_covariance)
+        one_block_transition_covariance = psd_sqrt(one_block_transition_covariance)
+        noise = psd_sqrt(noise)
         var = psd_sqrt(var)
     init = (mean, var)
 
-- 
2.43.0


From 88252f6b9b81967c6ce8e80c1548d468b7ede5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:42 +0000
Subject: [PATCH 14/21] fix: cancellation in the closed-form Matern 3/2
 covariance

In single precision the position variance, of order dt^3, was rounding noise
for dt below 1e-3, often making Q indefinite and its Cholesky factor NaN.
---
 bayesian_sde_solver/ode_solvers/probnum/matern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/probnum/matern.py b/bayesian_sde_solver/ode_solvers/probnum/matern.py
index d3b99a6..2c336fb 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/matern.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/matern.py
@@ -2,6 +2,7 @@ from math import comb
 from typing import Tuple
 
 import jax.numpy as jnp
+from jax.scipy.special import gammainc
 from numpy.typing import ArrayLike
 
 from bayesian_sde_solver.ode_solvers.probnum.transition_function import \
@@ -50,8 +51,7 @@ ArrayLike]:
                         jnp.exp(-dt * lambda_param) * (1 - lambda_param * dt)]])
         A = jnp.kron(jnp.eye(dim), A)
 
-        Q = magnitude ** 2 * jnp.array([[(1 + jnp.exp(-2 * dt * lambda_param) * (
-                -1. - 2 * dt * lambda_param * (1 + dt * lambda_param))) / (4 * lambda_param ** 3),
+        Q = magnitude ** 2 * jnp.array([[gammainc(3.0, 2 * dt * lambda_param) / (4 * lambda_param ** 3),  # 1 - e^{-2x} (1 + 2x + 2x^2), without the cancellation
                                          0.5 * jnp.exp(-2 * dt * lambda_param) * dt ** 2],
                                         [0.5 * jnp.exp(-2 * dt * lambda_param) * dt ** 2,
                                          jnp.exp(-2 * dt * lambda_param) * (
-- 
2.43.0


From c114c6f5c60b2033f86bcb26eca643b8e2cba376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:07 +0000
Subject: [PATCH 15/21] fix: overflow in the closed-form Matern 3/2 covariance

exp(-2x) * exp(2x) is 0 * inf = NaN in single precision when the step is more
than about 44 / lambda.
---
 bayesian_sde_solver/ode_solvers/probnum/matern.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/probnum/matern.py b/bayesian_sde_solver/ode_solvers/probnum/matern.py
index 2c336fb..278ece3 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/matern.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/matern.py
@@ -54,8 +54,7 @@ ArrayLike]:
         Q = magnitude ** 2 * jnp.array([[gammainc(3.0, 2 * dt * lambda_param) / (4 * lambda_param ** 3),  # 1 - e^{-2x} (1 + 2x + 2x^2), without the cancellation
                                          0.5 * jnp.exp(-2 * dt * lambda_param) * dt ** 2],
                                         [0.5 * jnp.exp(-2 * dt * lambda_param) * dt ** 2,
-                                         jnp.exp(-2 * dt * lambda_param) * (
-                                                 -1 + jnp.exp(2 * dt * lambda_param) - 2 * dt * lambda_param * (
+                                         (-jnp.expm1(-2 * dt * lambda_param) - jnp.exp(-2 * dt * lambda_param) * 2 * dt * lambda_param * (
                                                  -1 + dt * lambda_param)) / (4 * lambda_param)]])
         Q = jnp.kron(jnp.eye(dim), Q)
         m = jnp.zeros(dim * 2)
-- 
2.43.0


From dedf976a39a7dfeffe7d6d13db0f8041413a3036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:12 +0000
Subject: [PATCH 16/21] fix: second-order mean of the synaptic conductance used
 x0[1] for the voltage

---
 bayesian_sde_solver/utils/ivp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesian_sde_solver/utils/ivp.py b/bayesian_sde_solver/utils/ivp.py
index f2aaa4e..3eddd19 100644
--- a/bayesian_sde_solver/utils/ivp.py
+++ b/bayesian_sde_solver/utils/ivp.py
@@ -329,7 +329,7 @@ def synaptic_conductance():
 
     def theoretical_mean_up_to_order_2(t):
         return (x0 + t * drift(x0) + t ** 2 / 2 * jnp.array(
-            [-1.0 / C * (drift(x0)[0] * (G_L + x0[1] + x0[2]) + drift(x0)[1] * (x0[1] - V_E) + drift(x0)[2] * (
+            [-1.0 / C * (drift(x0)[0] * (G_L + x0[1] + x0[2]) + drift(x0)[1] * (x0[0] - V_E) + drift(x0)[2] * (
                     x0[0] - V_I)),
              -1.0 / tau_E * drift(x0)[1],
              -1.0 / tau_I * drift(x0)[2]])
-- 
2.43.0


From 1966559ef93e733cd0fce5a7ec71069519f54d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:58 +0000
Subject: [PATCH 17/21] fix: IOUP transition matrix lost its entries of order
 seven and above at small steps

expm(F * dt) uses a low-order Pade approximant when the step is small, which is below the precision of the entries
dt^k / k! of high order: the entry of order 7 was 5% off. The exponential is taken in units of dt.
---
 bayesian_sde_solver/ode_solvers/probnum/IOUP.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/probnum/IOUP.py b/bayesian_sde_solver/ode_solvers/probnum/IOUP.py
index ed550cb..eb6c27c 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/IOUP.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/IOUP.py
@@ -14,10 +14,11 @@ def transition_function(theta: float, sigma: float, q: int, dt: float, dim: int)
     """
     F = jnp.block(
         [[jnp.zeros(q).reshape((q, 1)), jnp.diag(jnp.ones(q))],
-         [jnp.append(jnp.zeros(q), jnp.array([-theta])).reshape((1, q + 1))]]
+         [jnp.append(jnp.zeros(q), jnp.array([-theta * dt])).reshape((1, q + 1))]]
     )
 
-    A = linalg.expm(F * dt)
+    # exponential in units of dt, the entries of high order are below the precision of expm(F * dt) otherwise
+    A = linalg.expm(F) * dt ** jnp.clip(jnp.arange(q + 1) - jnp.arange(q + 1)[:, None], 0)
     A = jnp.kron(jnp.eye(dim), A)
 
     Q = sigma ** 2 * jnp.array([
-- 
2.43.0


From 62bedfcbb3be70bb82cd279ee38f1257d24891ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:06 +0000
Subject: [PATCH 18/21] fix: Matern transition of order four and above was
 inaccurate at small steps

---
 bayesian_sde_solver/ode_solvers/probnum/matern.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/probnum/matern.py b/bayesian_sde_solver/ode_solvers/probnum/matern.py
index 278ece3..4c86942 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/matern.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/matern.py
@@ -59,12 +59,17 @@ ArrayLike]:
         Q = jnp.kron(jnp.eye(dim), Q)
         m = jnp.zeros(dim * 2)
     else:
+        # in units of the step (of 1 / lambda for longer steps), the entries of high order are below the precision of expm(F * dt) otherwise
+        unit = jnp.where(dt > 0, jnp.minimum(dt, 1 / lambda_param), 1 / lambda_param)
         F = jnp.block(
             [[jnp.zeros(k).reshape((k, 1)), jnp.diag(jnp.ones(k))],
-             [jnp.array([-comb(k + 1, i) * lambda_param ** (k + 1 - i) for i in range(k + 1)]).reshape((1, k + 1))]]
+             [jnp.array([-comb(k + 1, i) * (lambda_param * unit) ** (k + 1 - i) for i in range(k + 1)]).reshape((1, k + 1))]]
         )
         L = jnp.append(jnp.array([0. for _ in range(k)]), jnp.array([magnitude])).reshape(k + 1, 1)
-        m, Q, A = compute_transition_function(F, jnp.zeros(k + 1), L, dt)
+        m, Q, A = compute_transition_function(F, jnp.zeros(k + 1), L, dt / unit)
+        scale = unit ** (k - jnp.arange(k + 1))
+        A = A * scale[:, None] / scale
+        Q = unit * Q * scale[:, None] * scale
         A = jnp.kron(jnp.eye(dim), A)
         Q = jnp.kron(jnp.eye(dim), Q)
         m = jnp.kron(jnp.ones(dim), m)
-- 
2.43.0


From c98777dea8abf3f78d76ad6d89da91dbd17ae82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:08 +0000
Subject: [PATCH 19/21] fix: square root of a covariance added variance to the
 components that have none

---
 bayesian_sde_solver/ode_solvers/probnum/_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/probnum/_utils.py b/bayesian_sde_solver/ode_solvers/probnum/_utils.py
index beaf9b1..0112b43 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/_utils.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/_utils.py
@@ -34,7 +34,7 @@ def psd_sqrt(P: ArrayLike) -> ArrayLike:
     A square root S of a symmetric positive semi-definite matrix, i.e., P = S @ S.T.
     P can be singular. S is neither triangular nor symmetric in general.
     """
-    scale = jnp.sqrt(jnp.diagonal(P).clip(0.0))
-    scale = jnp.where(scale > 0.0, scale, 1.0)
+    std = jnp.sqrt(jnp.diagonal(P).clip(0.0))
+    scale = jnp.where(std > 0.0, std, 1.0)
     w, v = jnp.linalg.eigh(P / jnp.outer(scale, scale))
-    return scale[:, None] * v * jnp.sqrt(w.clip(0.0))
+    return std[:, None] * v * jnp.sqrt(w.clip(0.0))
-- 
2.43.0


From 951f1c99f4a56496c08e62bb09265b3241d7582f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:00 +0000
Subject: [PATCH 20/21] fix: derivatives of EKF0 results left out the vector
 field

---
 bayesian_sde_solver/ode_solvers/ekf.py         | 17 +++++++++--------
 bayesian_sde_solver/ode_solvers/probnum/ekf.py | 10 +++++++---
 bayesian_sde_solver/ssm_parabola/ekf.py        | 18 +++++++++---------
 3 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/bayesian_sde_solver/ode_solvers/ekf.py b/bayesian_sde_solver/ode_solvers/ekf.py
index 4a2e431..90d007f 100644
--- a/bayesian_sde_solver/ode_solvers/ekf.py
+++ b/bayesian_sde_solver/ode_solvers/ekf.py
@@ -23,14 +23,15 @@ def _solver(init, vector_field, h, N, sqrt=False, EKF0=False, prior=None, noise=
     else:
         assert noise.shape == (dim, dim)
 
+    def observation_function(x, t):
+        # IVP observation function
+        return x[1::n_states] - vector_field(x[::n_states], t)
+
+    jacobian = None
     if EKF0:
-        def observation_function(x, t):
-            # IVP observation function
-            return x[1::n_states] - jax.lax.stop_gradient(vector_field(x[::n_states], t))
-    else:
-        def observation_function(x, t):
-            # IVP observation function
-            return x[1::n_states] - vector_field(x[::n_states], t)
+        def jacobian(x, t):
+            # the vector field is left out of the linearization only, stop_gradient would remove its derivatives from the result
+            return jax.jacfwd(lambda z: z[1::n_states])(x)
     if prior is None:
         (
             transition_incr,
@@ -48,6 +49,6 @@ def _solver(init, vector_field, h, N, sqrt=False, EKF0=False, prior=None, noise=
         noise = psd_sqrt(noise)
 
     filtered = ekf(init=init, observation_function=observation_function, A=transition_matrix,
-                   Q_or_cholQ=transition_covariance, xi=transition_incr, R_or_cholR=noise, params=(ts,), lower_sqrt=sqrt, return_UC=return_all)
+                   Q_or_cholQ=transition_covariance, xi=transition_incr, R_or_cholR=noise, params=(ts,), lower_sqrt=sqrt, return_UC=return_all, jacobian=jacobian)
 
     return filtered
diff --git a/bayesian_sde_solver/ode_solvers/probnum/ekf.py b/bayesian_sde_solver/ode_solvers/probnum/ekf.py
index c2d6937..e697a8f 100644
--- a/bayesian_sde_solver/ode_solvers/probnum/ekf.py
+++ b/bayesian_sde_solver/ode_solvers/probnum/ekf.py
@@ -44,11 +44,15 @@ def update(x, c, H, R_or_cholR, lower_sqrt=False, return_S=False):
 
 
 def ekf(init, observation_function, A, Q_or_cholQ, xi, R_or_cholR, params=None, lower_sqrt=False,
-        return_UC=False):
+        return_UC=False, jacobian=None):
     """
     Extended Kalman filter with optional lower square root implementation, such as Cholesky decomposition.
     See https://arxiv.org/abs/2207.00426.
+
+    jacobian: derivative of the observation function to use in place of the exact one, if any.
     """
+    if jacobian is None:
+        jacobian = jax.jacfwd(observation_function, 0)
 
     def body_return_UC(inps, param):
         """
@@ -59,7 +63,7 @@ def ekf(init, observation_function, A, Q_or_cholQ, xi, R_or_cholR, params=None,
         x = predict(x, A, Q_or_cholQ, xi, lower_sqrt)
         m, _ = x
         y = (m,) if param is None else (m, *param)
-        H = jax.jacfwd(observation_function, 0)(*y)
+        H = jacobian(*y)
         c = observation_function(*y)
         x, S_or_cholS = update(x, c, H, R_or_cholR, lower_sqrt,
                                return_S=True)
@@ -73,7 +77,7 @@ def ekf(init, observation_function, A, Q_or_cholQ, xi, R_or_cholR, params=None,
         x = predict(x, A, Q_or_cholQ, xi, lower_sqrt)
         m, _ = x
         y = (m,) if param is None else (m, *param)
-        H = jax.jacfwd(observation_function, 0)(*y)
+        H = jacobian(*y)
         c = observation_function(*y)
         x, _ = update(x, c, H, R_or_cholR, lower_sqrt, return_S=False)
         return x, None
diff --git a/bayesian_sde_solver/ssm_parabola/ekf.py b/bayesian_sde_solver/ssm_parabola/ekf.py
index 4cd743b..b7a5b15 100644
--- a/bayesian_sde_solver/ssm_parabola/ekf.py
+++ b/bayesian_sde_solver/ssm_parabola/ekf.py
@@ -52,15 +52,15 @@ def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=No
     def extended_vector_field(x, t):
         return drift(x[::4], t) + diffusion(x[::4], t) @ H23 @ pol(t) @ x
 
+    def observation_function(x, t):
+        # IVP observation function
+        return x[1::4] - extended_vector_field(x, t)
+
+    jacobian = None
     if EKF0:
-        def observation_function(x, t):
-            # IVP observation function
-            z = x.at[::4].set(jax.lax.stop_gradient(x[::4]))
-            return x[1::4] - extended_vector_field(z, t)
-    else:
-        def observation_function(x, t):
-            # IVP observation function
-            return x[1::4] - extended_vector_field(x, t)
+        def jacobian(x, t):
+            # the position is fixed in the linearization only, stop_gradient would remove its derivatives from the result
+            return jax.jacfwd(lambda z: z[1::4] - extended_vector_field(z.at[::4].set(x[::4]), t))(x)
     if prior is None:
         (
             one_block_transition_incr,
@@ -96,6 +96,6 @@ def _solver(init, drift, diffusion, delta, h, N, sqrt=True, EKF0=False, prior=No
     transition_covariance = jnp.kron(jnp.eye(dim), one_block_transition_covariance)
 
     filtered = ekf(init=init, observation_function=observation_function, A=transition_matrix,
-                   Q_or_cholQ=transition_covariance, xi=transition_incr, R_or_cholR=noise, params=(ts,), lower_sqrt=sqrt)
+                   Q_or_cholQ=transition_covariance, xi=transition_incr, R_or_cholR=noise, params=(ts,), lower_sqrt=sqrt, jacobian=jacobian)
 
     return filtered
-- 
2.43.0


From cb34a7843df9b9418d1fd238d43866991ed5e97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:33 +0000
Subject: [PATCH 21/21] fix: reverse mode differentiation of a loop with a
 progress bar failed

---
 bayesian_sde_solver/utils/progress_bar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bayesian_sde_solver/utils/progress_bar.py b/bayesian_sde_solver/utils/progress_bar.py
index 8c26aff..4cd066e 100644
--- a/bayesian_sde_solver/utils/progress_bar.py
+++ b/bayesian_sde_solver/utils/progress_bar.py
@@ -47,7 +47,9 @@ def progress_bar(num_samples, message=None):
         )
 
     def _close_tqdm(arg, transform):
-        tqdm_bars[0].close()
+        bar = tqdm_bars.pop(0, None)  # there is no bar in a reverse mode differentiation, which leaves the updates out
+        if bar is not None:
+            bar.close()
 
     def close_tqdm(result, iter_num):
         return lax.cond(
-- 
2.43.0

