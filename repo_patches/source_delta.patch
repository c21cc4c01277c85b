From ff22e31861dd83ce7b8d53a9e3216703686c30f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:28 +0000
Subject: [PATCH 01/34] fix: Constant.transition_matrix used a non-existent
 method

---
 src/smolgp/kernels/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 5bef960..671629b 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -547,7 +547,7 @@ class Constant(StateSpaceModel):
     def transition_matrix(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
         """The transition matrix A_k for a Constant process"""
         del X1, X2
-        return self.eye(self.dimension)
+        return jnp.eye(self.dimension)
 
     def process_noise(self, X1, X2, use_van_loan=False):
         """The process noise Q_k for a Constant process"""
-- 
2.43.0


From a9ba3067063480c5bee763bffff68386f336d78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:28 +0000
Subject: [PATCH 02/34] fix: evaluate_diag must return a scalar so that
 kernel(X) gives the diagonal

---
 src/smolgp/kernels/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 671629b..07f992f 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -226,7 +226,7 @@ class StateSpaceModel(Kernel):
     def evaluate_diag(self, X: JAXArray) -> JAXArray:
         """For state space kernels, the variance is simple to compute"""
         h = self.observation_model(X)
-        return h @ self.stationary_covariance() @ h.T
+        return (h @ self.stationary_covariance() @ h.T).squeeze()
 
     def psd(self, omega: JAXArray) -> JAXArray:
         """
-- 
2.43.0


From 3b1770f338ff752e3e4aac05b48288c503d4ff2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:28 +0000
Subject: [PATCH 03/34] fix: one-dimensional (Exp) state space models with the
 parallel solvers

---
 src/smolgp/kernels/base.py            | 2 +-
 src/smolgp/solvers/parallel/kalman.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 07f992f..e12efed 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -789,7 +789,7 @@ class Exp(StateSpaceModel):
         t1 = self.coord_to_sortable(X1)
         t2 = self.coord_to_sortable(X2)
         dt = t2 - t1
-        return jnp.exp(-dt[None, None] / self.scale)
+        return jnp.array([[jnp.exp(-dt / self.scale)]])
 
     def process_noise(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
         """The process noise Q_k for the Exp process"""
diff --git a/src/smolgp/solvers/parallel/kalman.py b/src/smolgp/solvers/parallel/kalman.py
index 99c77c4..a33ccf1 100644
--- a/src/smolgp/solvers/parallel/kalman.py
+++ b/src/smolgp/solvers/parallel/kalman.py
@@ -65,11 +65,11 @@ def make_associative_params(Phi, H, Q, R, t, y, m0, P0):
         K = jnp.linalg.solve(S.T, (P @ H0.T).T).T
 
         A = jnp.zeros_like(Phi0)
-        b = jnp.squeeze(m + K @ (y0 - H0 @ m))
+        b = m + K @ (y0 - H0 @ m)
         C = P - K @ S @ K.T
 
         _M = Phi0.T @ H0.T
-        eta = jnp.squeeze(_M @ jnp.linalg.solve(S, jnp.atleast_1d(y0)))
+        eta = _M @ jnp.linalg.solve(S, jnp.atleast_1d(y0))
         J = _M @ jnp.linalg.solve(S, _M.T)
 
         return (A, b, C, eta, J)
@@ -92,11 +92,11 @@ def make_associative_params(Phi, H, Q, R, t, y, m0, P0):
         K = jnp.linalg.solve(S.T, (Q_dt @ Hk.T).T).T
 
         A = (I - K @ Hk) @ Phi_dt
-        b = jnp.squeeze(K @ jnp.atleast_1d(y))  # remove atleast_1d?
+        b = K @ jnp.atleast_1d(y)  # remove atleast_1d?
         C = (I - K @ Hk) @ Q_dt
 
         _M = Phi_dt.T @ Hk.T
-        eta = jnp.squeeze(_M @ jnp.linalg.solve(S, jnp.atleast_1d(y)))
+        eta = _M @ jnp.linalg.solve(S, jnp.atleast_1d(y))
         J = _M @ jnp.linalg.solve(S, _M.T)
 
         return (A, b, C, eta, J)
-- 
2.43.0


From ef781fe1af2a49b6dfe7c52199c3d2c9272a71a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:58 +0000
Subject: [PATCH 04/34] fix: multiplying a kernel by a scalar (Scale needs a
 name and must scale the process noise)

---
 src/smolgp/kernels/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index e12efed..e0ebd11 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -195,7 +195,7 @@ class StateSpaceModel(Kernel):
                 "StateSpaceModel kernels can only be multiplied by scalars and other "
                 "StateSpaceModel kernels"
             )
-        return Scale(kernel=self, scale=other)
+        return Scale(name=self.name, kernel=self, scale=other)
 
     def __rmul__(self, other: Any) -> Kernel:
         if isinstance(other, StateSpaceModel):
@@ -205,7 +205,7 @@ class StateSpaceModel(Kernel):
                 "StateSpaceModel kernels can only be multiplied by scalars and other "
                 "StateSpaceModel kernels"
             )
-        return Scale(kernel=self, scale=other)
+        return Scale(name=self.name, kernel=self, scale=other)
 
     def evaluate(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
         """
@@ -485,6 +485,9 @@ class Scale(Wrapper):
     def noise(self) -> JAXArray:
         return self.scale * self.kernel.noise()
 
+    def process_noise(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
+        return self.scale * self.kernel.process_noise(X1, X2)
+
 
 ################ GP KERNEL DEFINITIONS ################
 ## TODO: tinygp base kernels not yet implemented
-- 
2.43.0


From 9c286b753746ad335577a687344535bbbe3a93a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:58 +0000
Subject: [PATCH 05/34] fix: use the integrated solver for a scaled integrated
 kernel

---
 src/smolgp/gp.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index 829b294..e589213 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -16,7 +16,7 @@ from tinygp import kernels, means
 from tinygp.helpers import JAXArray
 from tinygp.noise import Diagonal, Noise
 
-from smolgp.kernels import StateSpaceModel, Sum, Product
+from smolgp.kernels import StateSpaceModel, Sum, Product, Wrapper
 from smolgp.kernels.base import extract_leaf_kernels
 from smolgp.kernels.integrated import IntegratedStateSpaceModel
 
@@ -31,6 +31,13 @@ if TYPE_CHECKING:
 import dataclasses
 
 
+def _is_integrated(kernel: StateSpaceModel) -> bool:
+    """Whether a leaf kernel, or the kernel it wraps (e.g. Scale), is integrated"""
+    if isinstance(kernel, Wrapper):
+        return any(_is_integrated(k) for k in extract_leaf_kernels(kernel.kernel))
+    return isinstance(kernel, IntegratedStateSpaceModel)
+
+
 def assign_unique_kernel_names(kernel: StateSpaceModel) -> StateSpaceModel:
     """
     Return a new kernel where leaf kernel names
@@ -327,7 +334,7 @@ class GaussianProcess(eqx.Module):
 
         # Check if the kernel contains any integrated components
         kernels = extract_leaf_kernels(self.kernel)
-        is_integrated = any([isinstance(k, IntegratedStateSpaceModel) for k in kernels])
+        is_integrated = any([_is_integrated(k) for k in kernels])
         is_instantaneous = all([isinstance(k, StateSpaceModel) for k in kernels])
 
         # If using an integrated solver, ensure X has both coords and bin sizes
-- 
2.43.0


From 5a6c4e7ed8cd0c0eddbb2fc50cc88d60448d5b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:58 +0000
Subject: [PATCH 06/34] fix: ParallelStateSpaceSolver.condition default
 arguments and structured coordinates in predict

---
 src/smolgp/solvers/parallel/solver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/smolgp/solvers/parallel/solver.py b/src/smolgp/solvers/parallel/solver.py
index 26e421d..f156755 100644
--- a/src/smolgp/solvers/parallel/solver.py
+++ b/src/smolgp/solvers/parallel/solver.py
@@ -63,7 +63,7 @@ class ParallelStateSpaceSolver(eqx.Module):
         """
 
         # Kalman filtering
-        kalman_results = self.Kalman(y, return_v_S=True)
+        kalman_results = self.Kalman(y, return_v_S=return_v_S)
         if return_v_S:
             m_filtered, P_filtered, m_predicted, P_predicted, v, S = kalman_results
             v_S = (v, S)
@@ -150,7 +150,7 @@ class ParallelStateSpaceSolver(eqx.Module):
             Kalman prediction from most recent
             filtered (not smoothed) state
             """
-            dt = X_test[ktest] - self.X[k]
+            dt = t_test[ktest] - t_states[k]
             m_k = m_filtered[k]
             P_k = P_filtered[k]
             A_star = A(0, dt)  # transition matrix from t_k to t_star
@@ -180,7 +180,7 @@ class ParallelStateSpaceSolver(eqx.Module):
             ]  # RTS smoothed covariance at next data point
 
             # Time-lag between states
-            dt = self.X[k_next] - X_test[ktest]
+            dt = t_states[k_next] - t_test[ktest]
 
             # Transition matrix for this step
             A_k = A(0, dt)
-- 
2.43.0


From 79c606bf661bfe08444afc364eba2af972b51195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:58 +0000
Subject: [PATCH 07/34] fix: solver.predict must accept the output of
 solver.condition

---
 src/smolgp/solvers/parallel/solver.py | 5 ++++-
 src/smolgp/solvers/solver.py          | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/smolgp/solvers/parallel/solver.py b/src/smolgp/solvers/parallel/solver.py
index f156755..c41d76b 100644
--- a/src/smolgp/solvers/parallel/solver.py
+++ b/src/smolgp/solvers/parallel/solver.py
@@ -112,7 +112,10 @@ class ParallelStateSpaceSolver(eqx.Module):
             (m_filtered, P_filtered),
             (m_smoothed, P_smoothed),
         ) = conditioned_states
-        t_states, instid, obsid, stateid = state_coords
+        if isinstance(state_coords, tuple):
+            t_states = state_coords[0]
+        else:  # as returned by self.condition
+            t_states = state_coords
 
         # Unpack test coordinates
         t_test = self.kernel.coord_to_sortable(X_test)
diff --git a/src/smolgp/solvers/solver.py b/src/smolgp/solvers/solver.py
index 2801eb7..bdb996d 100644
--- a/src/smolgp/solvers/solver.py
+++ b/src/smolgp/solvers/solver.py
@@ -111,7 +111,10 @@ class StateSpaceSolver(eqx.Module):
             (m_filtered, P_filtered),
             (m_smoothed, P_smoothed),
         ) = conditioned_states
-        t_states, instid, obsid, stateid = state_coords
+        if isinstance(state_coords, tuple):
+            t_states = state_coords[0]
+        else:  # as returned by self.condition
+            t_states = state_coords
 
         # Unpack test coordinates
         t_test = self.kernel.coord_to_sortable(X_test)
-- 
2.43.0


From b658988563f0275e865e5c8b332acc31838ce0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:58 +0000
Subject: [PATCH 08/34] fix: evaluate the observation model at the data
 coordinates in the parallel filter

---
 src/smolgp/solvers/parallel/kalman.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/smolgp/solvers/parallel/kalman.py b/src/smolgp/solvers/parallel/kalman.py
index a33ccf1..8cb30a0 100644
--- a/src/smolgp/solvers/parallel/kalman.py
+++ b/src/smolgp/solvers/parallel/kalman.py
@@ -29,7 +29,7 @@ def ParallelKalmanFilter(kernel, X, y, noise, return_v_S=False):
     P0 = kernel.stationary_covariance()
     t = kernel.coord_to_sortable(X)
 
-    asso_params = make_associative_params(Phi, H, Q, R, t, y, m0, P0)
+    asso_params = make_associative_params(Phi, H, Q, R, X, t, y, m0, P0)
     A, b, C, eta, J = parallel_kalman_filter(asso_params)
     m_pred, P_pred, v, S = postprocess(Phi, H, Q, R, X, t, y, b, C, m0, P0)
     # return (A, b, C, eta, J), (m_pred, P_pred, v, S)
@@ -41,7 +41,7 @@ def ParallelKalmanFilter(kernel, X, y, noise, return_v_S=False):
 
 
 @jax.jit
-def make_associative_params(Phi, H, Q, R, t, y, m0, P0):
+def make_associative_params(Phi, H, Q, R, X, t, y, m0, P0):
     """Generate the associative parameters needed for parallel Kalman
 
     See Eqns. 10, 11, 12 from Sarkka & Garcia-Fernandez (2020)
@@ -53,11 +53,12 @@ def make_associative_params(Phi, H, Q, R, t, y, m0, P0):
         H,
         m0,
         P0,
+        x0,
         y0,
         r0,
     ):
         Phi0 = Phi(0, 0)
-        H0 = H(0)  # this is sort of unnecessary but we'll keep it for now
+        H0 = H(x0)  # observation model at the first data coordinate
 
         m = Phi0 @ m0
         P = Phi0 @ P0 @ Phi0.T  # Q(0,0) = 0
@@ -79,13 +80,14 @@ def make_associative_params(Phi, H, Q, R, t, y, m0, P0):
         H,
         Q,
         t_delta,
+        x,
         y,
         r,
     ):
         Phi_dt = Phi(0, t_delta)
         I = jnp.eye(Phi_dt.shape[-1])
 
-        Hk = H(t_delta)  # TODO: this is wrong, pass data coordinate here
+        Hk = H(x)  # observation model at this data coordinate
         Q_dt = Q(0, t_delta)
 
         S = Hk @ Q_dt @ Hk.T + r
@@ -101,12 +103,14 @@ def make_associative_params(Phi, H, Q, R, t, y, m0, P0):
 
         return (A, b, C, eta, J)
 
-    A0, b0, C0, eta0, J0 = make_first_params(Phi, H, m0, P0, y[0], R[0])
+    X_first = jax.tree_util.tree_map(lambda x: x[0], X)
+    X_rest = jax.tree_util.tree_map(lambda x: x[1:], X)
+    A0, b0, C0, eta0, J0 = make_first_params(Phi, H, m0, P0, X_first, y[0], R[0])
     t_delta = jnp.diff(t)
     A, b, C, eta, J = jax.vmap(
         make_generic_params,
-        in_axes=(None, None, None, 0, 0, 0),
-    )(Phi, H, Q, t_delta, y[1:], R[1:])
+        in_axes=(None, None, None, 0, 0, 0, 0),
+    )(Phi, H, Q, t_delta, X_rest, y[1:], R[1:])
 
     A_all = jnp.concatenate([A0[jnp.newaxis, ...], A], axis=0)
     b_all = jnp.concatenate([b0[jnp.newaxis, ...], b], axis=0)
-- 
2.43.0


From 459ccf473f6d935131ea225ab6ccfe308655d725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 09/34] fix: keep the data axis when there is a single data or
 test point

---
 src/smolgp/gp.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index e589213..4c1eb61 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -78,6 +78,11 @@ def assign_unique_kernel_names(kernel: StateSpaceModel) -> StateSpaceModel:
     return _rename(kernel)
 
 
+def _squeeze_outputs(a: JAXArray) -> JAXArray:
+    """Drop singleton output dimensions, but never the leading (data) axis"""
+    return a.reshape(a.shape[:1] + tuple(n for n in a.shape[1:] if n != 1))
+
+
 class ConditionedStates(eqx.Module):
     """
     An object to hold the conditioned means and variances
@@ -160,7 +165,7 @@ class ConditionedStates(eqx.Module):
         m_sel = jnp.take(self.smoothed_mean, idx, axis=0)
         P_sel = jnp.take(self.smoothed_cov, idx, axis=0)
         mu, var = jax.vmap(project)(self.X, m_sel, P_sel)
-        return mu.squeeze(), var.squeeze()
+        return _squeeze_outputs(mu), _squeeze_outputs(var)
 
 
 class PredictedStates(eqx.Module):
@@ -200,7 +205,7 @@ class PredictedStates(eqx.Module):
 
         H = jax.vmap(observation_model)(self.t_states)
         mu = jax.vmap(_project)(H, self.mean)
-        return mu.squeeze()
+        return _squeeze_outputs(mu)
 
     def project_variance(self, observation_model) -> JAXArray:
         """
@@ -213,7 +218,7 @@ class PredictedStates(eqx.Module):
 
         H = jax.vmap(observation_model)(self.t_states)
         var = jax.vmap(_project)(H, self.cov)
-        return var.squeeze()
+        return _squeeze_outputs(var)
 
     @property
     def loc(self) -> JAXArray:
@@ -684,10 +689,9 @@ class GaussianProcess(eqx.Module):
                             X, component=name
                         )
                     H = jax.vmap(H_test)(X_test)
-                    mu = jax.vmap(lambda H_i, m: H_i @ m)(H, mean).squeeze()
-                    var = jax.vmap(lambda H_i, P: H_i @ P @ H_i.T)(
-                        H, variance
-                    ).squeeze()
+                    mu = jax.vmap(lambda H_i, m: H_i @ m)(H, mean)
+                    var = jax.vmap(lambda H_i, P: H_i @ P @ H_i.T)(H, variance)
+                    mu, var = _squeeze_outputs(mu), _squeeze_outputs(var)
 
         if return_var:
             return mu, var
-- 
2.43.0


From 72a03813c68a58809df81cf1ce831a8742b5fdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 10/34] fix: GaussianProcess.condition with X_test must project
 the predicted states

---
 src/smolgp/gp.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index 4c1eb61..f278cd0 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -564,8 +564,12 @@ class GaussianProcess(eqx.Module):
             )
 
         if X_test is not None:
-            # If X_test was given, also predit at those points
-            mu, var = self.solver.predict(X_test, conditioned_results)
+            # If X_test was given, also predict at those points
+            # and project the predicted states to observation space
+            mean, cov = self.solver.predict(X_test, states())
+            H = jax.vmap(observation_model)(X_test)
+            mu = _squeeze_outputs(jax.vmap(lambda H_i, m: H_i @ m)(H, mean))
+            var = _squeeze_outputs(jax.vmap(lambda H_i, P: H_i @ P @ H_i.T)(H, cov))
         else:
             # Otherwise, project the conditioned states
             # (at the data points) to observation space
-- 
2.43.0


From 26f6da741f048c6763aae2f98805b2fbd7bf6df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 11/34] fix: predict at the data points ignored
 observation_model

---
 src/smolgp/gp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index f278cd0..28743b3 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -662,7 +662,10 @@ class GaussianProcess(eqx.Module):
                     mu = self.states.smoothed_mean
                     var = self.states.smoothed_cov
                 else:
-                    if kernel is None:
+                    if kernel is None and observation_model is not None:
+                        # project with the given observation model
+                        mu, var = self.states.project_at_data(observation_model)
+                    elif kernel is None:
                         # already computed here
                         mu, var = self.loc, self.var
                     else:
-- 
2.43.0


From a516c6ff3437cb54d8963d744da2e7364e6cd0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:52 +0000
Subject: [PATCH 12/34] fix: extracting a product kernel as a component of a
 sum returned zeros

---
 src/smolgp/kernels/base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index e0ebd11..03b5cae 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -400,10 +400,9 @@ class Product(StateSpaceModel):
         return jnp.kron(Pinf1, Q2) + jnp.kron(Q1, Pinf2) - jnp.kron(Q1, Q2)
 
     def observation_model(self, X: JAXArray, component=None) -> JAXArray:
-        """H = H1 ⊗ H2 with component extraction"""
-        H1 = self.kernel1.observation_model(X, component=component)
-        H2 = self.kernel2.observation_model(X, component=component)
-        return jnp.kron(H1, H2)
+        """H = H1 ⊗ H2 with component extraction (the product is one component)"""
+        keep = (component is None) or (self.name == component)
+        return self.observation_matrix(X) * int(keep)
 
     def observation_matrix(self, X: JAXArray) -> JAXArray:
         """H = H1 ⊗ H2"""
-- 
2.43.0


From aae656a3c9c3e8d44923295da54afcd55efe8814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:52 +0000
Subject: [PATCH 13/34] fix: assigning unique names to kernels containing
 products or custom constructors

---
 src/smolgp/gp.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index 28743b3..7e70640 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -16,7 +16,7 @@ from tinygp import kernels, means
 from tinygp.helpers import JAXArray
 from tinygp.noise import Diagonal, Noise
 
-from smolgp.kernels import StateSpaceModel, Sum, Product, Wrapper
+from smolgp.kernels import StateSpaceModel, Sum, Wrapper
 from smolgp.kernels.base import extract_leaf_kernels
 from smolgp.kernels.integrated import IntegratedStateSpaceModel
 
@@ -28,7 +28,7 @@ from smolgp.solvers.integrated import ParallelIntegratedStateSpaceSolver
 if TYPE_CHECKING:
     from tinygp.numpyro_support import TinyDistribution
 
-import dataclasses
+import copy
 
 
 def _is_integrated(kernel: StateSpaceModel) -> bool:
@@ -61,16 +61,14 @@ def assign_unique_kernel_names(kernel: StateSpaceModel) -> StateSpaceModel:
             k1 = _rename(k.kernel1)
             k2 = _rename(k.kernel2)
             return Sum(k1, k2)
-        if isinstance(k, Product):
-            k1 = _rename(k.kernel1)
-            k2 = _rename(k.kernel2)
-            return Product(k1, k2)
-        # Leaf
+        # Leaf (products count as a single component)
         if counts[k.name] > 1:
             idx = used[k.name]
             used[k.name] += 1
             newname = f"{k.name}_{idx}"
-            return dataclasses.replace(k, name=newname)
+            renamed = copy.copy(k)
+            object.__setattr__(renamed, "name", newname)
+            return renamed
         else:
             # Single occurrence: leave unchanged
             return k
-- 
2.43.0


From de44ef4347e4b5f175c3a32fc3d077e90d1ffedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:07 +0000
Subject: [PATCH 14/34] fix: automatic kernel names could collide with existing
 names

---
 src/smolgp/gp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index 7e70640..fc24c01 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -63,9 +63,11 @@ def assign_unique_kernel_names(kernel: StateSpaceModel) -> StateSpaceModel:
             return Sum(k1, k2)
         # Leaf (products count as a single component)
         if counts[k.name] > 1:
-            idx = used[k.name]
+            newname = f"{k.name}_{used[k.name]}"
+            while newname in counts:  # e.g. the user already named a kernel so
+                used[k.name] += 1
+                newname = f"{k.name}_{used[k.name]}"
             used[k.name] += 1
-            newname = f"{k.name}_{idx}"
             renamed = copy.copy(k)
             object.__setattr__(renamed, "name", newname)
             return renamed
-- 
2.43.0


From 17fa702a8d2dd2ca60fb1b028dd2c3541338a31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:07 +0000
Subject: [PATCH 15/34] fix: integer-valued coordinates (crash, or truncated
 exposure boundaries)

---
 src/smolgp/solvers/integrated/kalman.py          | 2 +-
 src/smolgp/solvers/integrated/parallel/solver.py | 2 +-
 src/smolgp/solvers/integrated/solver.py          | 2 +-
 src/smolgp/solvers/kalman.py                     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/smolgp/solvers/integrated/kalman.py b/src/smolgp/solvers/integrated/kalman.py
index 49e27b8..a16459d 100644
--- a/src/smolgp/solvers/integrated/kalman.py
+++ b/src/smolgp/solvers/integrated/kalman.py
@@ -70,7 +70,7 @@ def integrated_kalman_filter(
         m_prev, P_prev = carry
 
         # If k==0 we use the prior m0, Pinf and zero time-lag (dt=0)
-        Delta = jax.lax.cond(k > 0, lambda i: t_states[i] - t_states[i - 1], lambda _: 0.0, k)
+        Delta = jax.lax.cond(k > 0, lambda i: t_states[i] - t_states[i - 1], lambda _: jnp.zeros((), dtype=t_states.dtype), k)
         n = obsid[k]
 
         # Get transition matrix
diff --git a/src/smolgp/solvers/integrated/parallel/solver.py b/src/smolgp/solvers/integrated/parallel/solver.py
index d04ec95..c528862 100644
--- a/src/smolgp/solvers/integrated/parallel/solver.py
+++ b/src/smolgp/solvers/integrated/parallel/solver.py
@@ -60,7 +60,7 @@ class ParallelIntegratedStateSpaceSolver(eqx.Module):
 
         # Interleave start and end times into one array (fastest)
         # https://stackoverflow.com/questions/5347065/interleaving-two-numpy-arrays-efficiently
-        t_states = jnp.empty((ts.size + te.size,), dtype=tmid.dtype)
+        t_states = jnp.empty((ts.size + te.size,), dtype=ts.dtype)
         t_states = t_states.at[0::2].set(ts)  # evens are start times
         t_states = t_states.at[1::2].set(te)  # odds are end times
         stateid = jnp.tile(jnp.array([0, 1]), len(tmid))  # 0 for start, 1 for end
diff --git a/src/smolgp/solvers/integrated/solver.py b/src/smolgp/solvers/integrated/solver.py
index 727d4db..e706af4 100644
--- a/src/smolgp/solvers/integrated/solver.py
+++ b/src/smolgp/solvers/integrated/solver.py
@@ -61,7 +61,7 @@ class IntegratedStateSpaceSolver(eqx.Module):
 
         # Interleave start and end times into one array (fastest)
         # https://stackoverflow.com/questions/5347065/interleaving-two-numpy-arrays-efficiently
-        t_states = jnp.empty((ts.size + te.size,), dtype=tmid.dtype)
+        t_states = jnp.empty((ts.size + te.size,), dtype=ts.dtype)
         t_states = t_states.at[0::2].set(ts)  # evens are start times
         t_states = t_states.at[1::2].set(te)  # odds are end times
         stateid = jnp.tile(jnp.array([0, 1]), len(tmid))  # 0 for start, 1 for end
diff --git a/src/smolgp/solvers/kalman.py b/src/smolgp/solvers/kalman.py
index 8168e92..ffd562f 100644
--- a/src/smolgp/solvers/kalman.py
+++ b/src/smolgp/solvers/kalman.py
@@ -77,7 +77,7 @@ def kalman_filter(A, Q, H, R, t, y, m0, P0):
         Delta = jax.lax.cond(
             k > 0,
             lambda i: t[i] - t[i - 1],
-            lambda _: 0.0,
+            lambda _: jnp.zeros((), dtype=t.dtype),
             k,
         )
 
-- 
2.43.0


From b588fb1929d7c3fe7adcbd67cd112b951119e957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:29 +0000
Subject: [PATCH 16/34] fix: overdamped SHO matrices overflowed to NaN for long
 gaps

---
 src/smolgp/kernels/base.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 03b5cae..4f127ee 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -654,9 +654,12 @@ class SHO(StateSpaceModel):
         def overdamped(dt: JAXArray) -> JAXArray:
             f = 2 * n * q
             x = n * w * dt
-            sinh = jnp.sinh(x)
-            cosh = jnp.cosh(x)
-            return jnp.exp(-0.5 * w * dt / q) * jnp.array(
+            # sinh, cosh including the exp(-w*dt/2q) decay, as the
+            # hyperbolic functions alone overflow for long time-lags
+            grow = 0.5 * jnp.exp(x - 0.5 * w * dt / q)
+            sinh = -grow * jnp.expm1(-2 * x)
+            cosh = grow * (1 + jnp.exp(-2 * x))
+            return jnp.array(
                 [[cosh + sinh / f, sinh / (w * n)], [-w * sinh / n, cosh - sinh / f]]
             )
 
@@ -713,14 +716,14 @@ class SHO(StateSpaceModel):
             w2 = jnp.square(w)
             a = w * dt / q  # argument in exponential
             x = n * w * dt  # argument in sin/cos
-            sinh = jnp.sinh(x)
-            sinh2 = jnp.sinh(2 * x)
-            sinhsq = jnp.square(sinh)
-            exp = jnp.exp(-a)
+            # hyperbolic functions including the exp(-a) decay, as
+            # they overflow for long time-lags on their own
+            sinh2 = -0.5 * jnp.exp(2 * x - a) * jnp.expm1(-4 * x)
+            sinhsq = 0.25 * jnp.exp(2 * x - a) * jnp.square(jnp.expm1(-2 * x))
             expm1 = jnp.expm1(-a)  # exp(-a) - 1
-            Q11 = -expm1 - (sinh2 / f + sinhsq / (2 * n2 * q2)) * exp
-            Q12 = Q21 = exp * (w * sinhsq / (n2 * q))
-            Q22 = w2 * (-expm1 + exp * (sinh2 / f - sinhsq / (2 * n2 * q2)))
+            Q11 = -expm1 - (sinh2 / f + sinhsq / (2 * n2 * q2))
+            Q12 = Q21 = w * sinhsq / (n2 * q)
+            Q22 = w2 * (-expm1 + (sinh2 / f - sinhsq / (2 * n2 * q2)))
             return jnp.square(self.sigma) * jnp.array([[Q11, Q12], [Q21, Q22]])
 
         return jax.lax.cond(
-- 
2.43.0


From ea5dde89c69a1d145d67a936906d96894d7b33d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 17/34] fix: SHO process noise was zeroed below an absolute
 (unit-dependent) threshold

---
 src/smolgp/kernels/base.py       | 6 +++---
 src/smolgp/kernels/integrated.py | 8 +++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 4f127ee..3cff146 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -705,9 +705,9 @@ class SHO(StateSpaceModel):
             Q12 = Q21 = exp * (w * sinsq / (n2 * q))
             Q22 = w2 * (-expm1 + exp * (sin2 / f - sinsq / (2 * n2 * q2)))
             Q = jnp.square(self.sigma) * jnp.array([[Q11, Q12], [Q21, Q22]])
-            return jnp.where(
-                jnp.abs(Q) < 1e-14, jnp.zeros_like(Q), Q
-            )  # prevent underflows
+            # prevent underflows (relative to the units of each element)
+            unit = jnp.square(self.sigma) * jnp.array([[1, w], [w, w2]])
+            return jnp.where(jnp.abs(Q) < 1e-14 * unit, jnp.zeros_like(Q), Q)
 
         def overdamped(dt: JAXArray) -> JAXArray:
             f = 2 * n * q
diff --git a/src/smolgp/kernels/integrated.py b/src/smolgp/kernels/integrated.py
index ef07155..dc51121 100644
--- a/src/smolgp/kernels/integrated.py
+++ b/src/smolgp/kernels/integrated.py
@@ -403,9 +403,11 @@ class IntegratedSHO(IntegratedStateSpaceModel):
 
             Qaug12 = sigma2 * jnp.array([[iQ12_1], [iQ12_2]])
             Qaug22 = sigma2 * jnp.array([[iQ22]])
-            # Prevent underflows
-            Qaug12 = jnp.where(jnp.abs(Qaug12) < 1e-14, jnp.zeros_like(Qaug12), Qaug12)
-            Qaug22 = jnp.where(jnp.abs(Qaug22) < 1e-14, jnp.zeros_like(Qaug22), Qaug22)
+            # Prevent underflows (relative to the units of each element)
+            tol12 = 1e-14 * sigma2 * jnp.array([[1 / w], [1.0]])
+            tol22 = 1e-14 * sigma2 / w2
+            Qaug12 = jnp.where(jnp.abs(Qaug12) < tol12, jnp.zeros_like(Qaug12), Qaug12)
+            Qaug22 = jnp.where(jnp.abs(Qaug22) < tol22, jnp.zeros_like(Qaug22), Qaug22)
             Qaug21 = Qaug12.T
             return Qaug12, Qaug21, Qaug22
 
-- 
2.43.0


From 8726a52f9bbec0151aef0bff096d193ea4711aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:09 +0000
Subject: [PATCH 18/34] fix: integrated matrices were NaN for long gaps (or
 small units), and inaccurate for short ones

The Van Loan matrix exponential grows exponentially with the gap, and mixes
elements with different units. Standardize the state and time units, and use
the stationary closed forms for long gaps.
---
 src/smolgp/kernels/integrated.py | 61 ++++++++++++++++++++++++++------
 1 file changed, 50 insertions(+), 11 deletions(-)

diff --git a/src/smolgp/kernels/integrated.py b/src/smolgp/kernels/integrated.py
index dc51121..a97234e 100644
--- a/src/smolgp/kernels/integrated.py
+++ b/src/smolgp/kernels/integrated.py
@@ -155,7 +155,36 @@ class IntegratedStateSpaceModel(StateSpaceModel):
         t1 = self.coord_to_sortable(X1)
         t2 = self.coord_to_sortable(X2)
         dt = t2 - t1
-        return Phibar_from_VanLoan(F, dt)
+        F_std, _, s, lam = self._standardized()
+        is_long, dt_short = self._long_gap(lam, dt)
+        # Phibar = D @ (∫0^(lam*dt) exp(F_std u) du / lam) @ D^-1 with D = diag(s)
+        short = Phibar_from_VanLoan(F_std, lam * dt_short) / lam
+        short = s[:, None] * short / s[None, :]
+        # Equivalently for long gaps (all base models have an invertible F)
+        A = self.base_model.transition_matrix(0.0, dt)
+        long = jnp.linalg.solve(F, A - jnp.eye(self.d))
+        return jnp.where(is_long, long, short)
+
+    def _standardized(self):
+        """
+        The base model for the state in units of its stationary standard deviations, s,
+        with time in units of 1/lam. The Van Loan matrix exponentials of the unscaled
+        F, L, Qc otherwise fail (NaN) depending on the choice of units.
+        """
+        s = jnp.sqrt(jnp.diag(self.base_model.stationary_covariance()))
+        L = self.base_model.noise_effect_matrix()
+        F = self.base_model.design_matrix() * s[None, :] / s[:, None]
+        QL = L @ self.base_model.noise() @ L.T / (s[:, None] * s[None, :])
+        lam = jnp.max(jnp.abs(F))
+        return F / lam, QL / lam, s, lam
+
+    def _long_gap(self, lam, dt):
+        """
+        Whether the gap is too long for the Van Loan matrix exponential
+        (which grows exponentially), and a version of dt which is always short enough
+        """
+        is_long = jnp.abs(lam * dt) > 10.0
+        return is_long, jnp.where(is_long, jnp.zeros_like(dt), dt)
 
     def transition_matrix(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
         """
@@ -183,11 +212,11 @@ class IntegratedStateSpaceModel(StateSpaceModel):
         t1 = self.coord_to_sortable(X1)
         t2 = self.coord_to_sortable(X2)
         dt = t2 - t1
-        F = self.base_model.design_matrix()
-        L = self.base_model.noise_effect_matrix()
-        Qc = self.base_model.noise()
+        I = jnp.eye(self.d)
+        F, QL, s, lam = self._standardized()
+        is_long, dt_short = self._long_gap(lam, dt)
 
-        vanloan = smolgp.helpers.VanLoan(F, L, Qc, dt)
+        vanloan = smolgp.helpers.VanLoan(F, I, QL, lam * dt_short)
         F3 = vanloan["F3"]
         H2 = vanloan["H2"]
         K1 = vanloan["K1"]
@@ -196,9 +225,21 @@ class IntegratedStateSpaceModel(StateSpaceModel):
         F3TK1 = F3.T @ K1
         W = F3TK1 + F3TK1.T
 
-        Qaug12 = M[:, :1]
+        # For long gaps, use the stationarity of the base model (as for Q) along
+        # with Phibar = ∫0^dt exp(F s) ds and Phibarbar = ∫0^dt Phibar(s) ds
+        Pinf = self.base_model.stationary_covariance() / (s[:, None] * s[None, :])
+        A = self.base_model.transition_matrix(0.0, dt) * s[None, :] / s[:, None]
+        Phibar = jnp.linalg.solve(F, A - I)
+        Phibarbar = jnp.linalg.solve(F, Phibar - lam * dt * I)
+        M_long = Phibar @ Pinf - A @ Pinf @ Phibar.T
+        W_long = Phibarbar @ Pinf
+        W_long = W_long + W_long.T - Phibar @ Pinf @ Phibar.T
+
+        # Back to the original units
+        z = s[0] / lam
+        Qaug12 = z * s[:, None] * jnp.where(is_long, M_long, M)[:, :1]
         Qaug21 = Qaug12.T
-        Qaug22 = W[:1, :1]
+        Qaug22 = z**2 * jnp.where(is_long, W_long, W)[:1, :1]
         return Qaug12, Qaug21, Qaug22
 
     # @partial(
@@ -307,8 +348,7 @@ class IntegratedSHO(IntegratedStateSpaceModel):
 
         def critical(t1: JAXArray, t2: JAXArray) -> JAXArray:
             ## TODO: returning numerical result until we do this integral by hand
-            F = self.base_model.design_matrix()
-            return Phibar_from_VanLoan(F, t2 - t1)
+            return super(type(self), self).integrated_transition_matrix(t1, t2)
 
         def underdamped(t1: JAXArray, t2: JAXArray) -> JAXArray:
             ## General integral from t1->t2:
@@ -343,8 +383,7 @@ class IntegratedSHO(IntegratedStateSpaceModel):
 
         def overdamped(t1: JAXArray, t2: JAXArray) -> JAXArray:
             ## TODO: returning numerical result until we do this integral by hand
-            F = self.base_model.design_matrix()
-            return Phibar_from_VanLoan(F, t2 - t1)
+            return super(type(self), self).integrated_transition_matrix(t1, t2)
 
         # Return the appropriate form based on quality factor
         t1 = self.coord_to_sortable(X1)
-- 
2.43.0


From 828f0d322c711b0ec600ee81be65ed1013d91b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 19/34] fix: cancellation in the IntegratedSHO matrices for
 short exposures

The closed forms lose all accuracy when the exposure (or gap) is a small
fraction of the oscillation; use the Van Loan result there instead.
---
 src/smolgp/kernels/integrated.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/smolgp/kernels/integrated.py b/src/smolgp/kernels/integrated.py
index a97234e..22d48e8 100644
--- a/src/smolgp/kernels/integrated.py
+++ b/src/smolgp/kernels/integrated.py
@@ -389,10 +389,12 @@ class IntegratedSHO(IntegratedStateSpaceModel):
         t1 = self.coord_to_sortable(X1)
         t2 = self.coord_to_sortable(X2)
 
+        # (the underdamped form suffers from cancellation over small fractions of a cycle)
+        use_analytic = (q > 0.5) & (jnp.abs(w * (t2 - t1)) > 0.5)
         return jax.lax.cond(
             jnp.allclose(q, 0.5),
             critical,
-            lambda t1, t2: jax.lax.cond(q > 0.5, underdamped, overdamped, t1, t2),
+            lambda t1, t2: jax.lax.cond(use_analytic, underdamped, overdamped, t1, t2),
             t1,
             t2,
         )
@@ -454,10 +456,12 @@ class IntegratedSHO(IntegratedStateSpaceModel):
             ## TODO: returning numerical result until we do this integral by hand
             return super(type(self), self).integrated_process_noise(0, dt)
 
+        # (the underdamped form suffers from cancellation over small fractions of a cycle)
+        use_analytic = (q > 0.5) & (jnp.abs(w * dt) > 0.5)
         return jax.lax.cond(
             jnp.allclose(q, 0.5),
             critical,
-            lambda dt: jax.lax.cond(q > 0.5, underdamped, overdamped, dt),
+            lambda dt: jax.lax.cond(use_analytic, underdamped, overdamped, dt),
             dt,
         )
 
-- 
2.43.0


From 859dcbd24d2ce0f6c10c3f055c47455d42776f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:36 +0000
Subject: [PATCH 20/34] fix: smoothing when the final state is an exposure
 start

With a zero-length final exposure its start state is sorted after its end;
smoothing then has to begin from the state before the reset.
---
 src/smolgp/solvers/integrated/parallel/rts.py |  8 +++++++-
 src/smolgp/solvers/integrated/rts.py          | 12 ++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/smolgp/solvers/integrated/parallel/rts.py b/src/smolgp/solvers/integrated/parallel/rts.py
index ed66266..028f06f 100644
--- a/src/smolgp/solvers/integrated/parallel/rts.py
+++ b/src/smolgp/solvers/integrated/parallel/rts.py
@@ -128,7 +128,13 @@ def make_associative_params(
         stateid[:-1],
     )
 
-    EN, gN, LN = make_last_params(m_filter[-1], P_filter[-1])
+    # Start from final filtered state (or, if this is an
+    # exposure-start, from the state there before the reset)
+    last_is_start = stateid[-1] == 0
+    EN, gN, LN = make_last_params(
+        jnp.where(last_is_start, m_pred[-1], m_filter[-1]),
+        jnp.where(last_is_start, P_pred[-1], P_filter[-1]),
+    )
 
     E_all = jnp.concatenate([E, EN[jnp.newaxis, ...]], axis=0)
     g_all = jnp.concatenate([g, gN[jnp.newaxis, ...]], axis=0)
diff --git a/src/smolgp/solvers/integrated/rts.py b/src/smolgp/solvers/integrated/rts.py
index 2a98cc0..b153cf3 100644
--- a/src/smolgp/solvers/integrated/rts.py
+++ b/src/smolgp/solvers/integrated/rts.py
@@ -93,8 +93,12 @@ def integrated_rts_smoother(
 
         return (m_hat_k, P_hat_k), (m_hat_k, P_hat_k)
 
-    # Start smoothing from final filtered state
-    init_carry = (m_filtered[-1], P_filtered[-1])
+    # Start smoothing from final filtered state (or, if this is an
+    # exposure-start, from the state there before the reset)
+    last_is_start = stateid[-1] == 0
+    m_last = jnp.where(last_is_start, m_predicted[-1], m_filtered[-1])
+    P_last = jnp.where(last_is_start, P_predicted[-1], P_filtered[-1])
+    init_carry = (m_last, P_last)
 
     # Run backward from N-2 down to 0
     K = len(t_states)  # number of iterations
@@ -102,6 +106,6 @@ def integrated_rts_smoother(
     m_smooth_reversed, P_smooth_reversed = outputs
 
     # Reverse outputs (with final filtered=smoothed state) to match time order
-    m_smooth = jnp.vstack([m_smooth_reversed[::-1], m_filtered[-1][None, :]])
-    P_smooth = jnp.vstack([P_smooth_reversed[::-1], P_filtered[-1][None, :, :]])
+    m_smooth = jnp.vstack([m_smooth_reversed[::-1], m_last[None, :]])
+    P_smooth = jnp.vstack([P_smooth_reversed[::-1], P_last[None, :, :]])
     return m_smooth, P_smooth
-- 
2.43.0


From f23d4add94e244cbdeb892145ccaf6802001ceda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:36 +0000
Subject: [PATCH 21/34] fix: parallel integrated filter dropped the data of a
 zero-length first exposure

The first state was always taken to be an exposure start.
---
 .../solvers/integrated/parallel/kalman.py     | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/smolgp/solvers/integrated/parallel/kalman.py b/src/smolgp/solvers/integrated/parallel/kalman.py
index 2222c9b..c406c93 100644
--- a/src/smolgp/solvers/integrated/parallel/kalman.py
+++ b/src/smolgp/solvers/integrated/parallel/kalman.py
@@ -114,17 +114,28 @@ def make_associative_params(
         m0,
         P0,
         Reset,
+        obsid,
+        stateid,
     ):
         Phi0 = Phi_aug(0, 0)
 
+        # If there is data at the first state (i.e. a zero-length
+        # exposure, which ends as it starts), update the prior with it
+        Hk = H_array[obsid]
+        Sk = Hk @ P0 @ Hk.T + R[obsid]
+        Kk = jnp.linalg.solve(Sk.T, (P0 @ Hk.T).T).T
+        m_end = m0 + Kk @ (y[obsid] - Hk @ m0)
+        P_end = P0 - Kk @ Sk @ Kk.T
+
         transition = Reset @ Phi0
 
         m = transition @ m0
         P = transition @ P0 @ transition.T  # Q(0,0) = 0
 
-        A = Reset
-        b = jnp.squeeze(m)
-        C = P
+        is_start = stateid == 0
+        A = jnp.where(is_start, Reset, jnp.zeros_like(Reset))
+        b = jnp.where(is_start, m, m_end)
+        C = jnp.where(is_start, P, P_end)
 
         eta = jnp.zeros(state_dim)
         J = jnp.zeros_like(Phi0)
@@ -180,6 +191,8 @@ def make_associative_params(
         m0,
         P0,
         RESET(instid[0]),
+        obsid[0],
+        stateid[0],
     )
     t_delta = jnp.diff(t_states)
 
-- 
2.43.0


From 9c37ea3d38087eaeb931ee4aa294dab1b3b82fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:36 +0000
Subject: [PATCH 22/34] fix: kernel evaluation with coordinate-dependent
 observation models when X1 < X2

---
 src/smolgp/kernels/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 3cff146..73c7d8b 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -219,7 +219,7 @@ class StateSpaceModel(Kernel):
         h2 = self.observation_model(X2)
         return jnp.where(
             self.coord_to_sortable(X1) < self.coord_to_sortable(X2),
-            (h2 @ Pinf @ self.transition_matrix(X1, X2).T @ h1.T).squeeze(),
+            (h1 @ Pinf @ self.transition_matrix(X1, X2).T @ h2.T).squeeze(),
             (h1 @ self.transition_matrix(X2, X1) @ Pinf @ h2.T).squeeze(),
         )
 
-- 
2.43.0


From a80a80f9244d292060b60708be58cc86f00b35e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:50 +0000
Subject: [PATCH 23/34] fix: integrated smoothing returned NaN or diverged for
 singular predicted covariances

Simultaneous exposure starts on two instruments, deterministic models
(IntegratedCosine, for which conditioning always failed) and exposures much
shorter than the scale of a smooth kernel (IntegratedMatern52) all give a
singular predicted covariance. Use its pseudoinverse in the smoothing gain.

Also use the closed form of the integrated matrices from a smaller gap, as
the matrix exponential loses accuracy before overflowing.
---
 src/smolgp/helpers.py                         | 19 +++++++++++++++++++
 src/smolgp/kernels/integrated.py              |  2 +-
 src/smolgp/solvers/integrated/parallel/rts.py |  5 +++--
 .../solvers/integrated/parallel/solver.py     |  3 ++-
 src/smolgp/solvers/integrated/rts.py          |  6 ++++--
 src/smolgp/solvers/integrated/solver.py       |  3 ++-
 6 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/smolgp/helpers.py b/src/smolgp/helpers.py
index 06631c4..c3a4254 100644
--- a/src/smolgp/helpers.py
+++ b/src/smolgp/helpers.py
@@ -119,3 +119,22 @@ def VanLoan(
         "H2": H2,
         "K1": K1,
     }
+
+
+def smoothing_gain(P: JAXArray, A: JAXArray, P_pred: JAXArray) -> JAXArray:
+    """
+    The RTS smoothing gain, G = P A^T P_pred^-1
+
+    The predicted covariance of an integrated model can be singular: e.g. right after
+    a reset, when two instruments start an exposure at the same time (their integrals
+    are identical until one is reset), or for deterministic models such as Cosine.
+    This therefore uses its pseudoinverse (in units of the standard deviations).
+    """
+    var = jnp.diag(P_pred)
+    s = jnp.sqrt(jnp.where(var > 0, var, 1.0))
+    eigvals, U = jnp.linalg.eigh(P_pred / (s[:, None] * s[None, :]))
+    # below this, eigenvalues are zero to within rounding error
+    cutoff = 0.5 * len(s) * jnp.finfo(P_pred.dtype).eps
+    is_zero = eigvals <= cutoff
+    inverse = jnp.where(is_zero, 0.0, 1.0 / jnp.where(is_zero, 1.0, eigvals))
+    return ((P @ A.T / s[None, :]) @ U * inverse) @ U.T / s[None, :]
diff --git a/src/smolgp/kernels/integrated.py b/src/smolgp/kernels/integrated.py
index 22d48e8..79dcbeb 100644
--- a/src/smolgp/kernels/integrated.py
+++ b/src/smolgp/kernels/integrated.py
@@ -183,7 +183,7 @@ class IntegratedStateSpaceModel(StateSpaceModel):
         Whether the gap is too long for the Van Loan matrix exponential
         (which grows exponentially), and a version of dt which is always short enough
         """
-        is_long = jnp.abs(lam * dt) > 10.0
+        is_long = jnp.abs(lam * dt) > 7.0
         return is_long, jnp.where(is_long, jnp.zeros_like(dt), dt)
 
     def transition_matrix(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
diff --git a/src/smolgp/solvers/integrated/parallel/rts.py b/src/smolgp/solvers/integrated/parallel/rts.py
index 028f06f..66e9009 100644
--- a/src/smolgp/solvers/integrated/parallel/rts.py
+++ b/src/smolgp/solvers/integrated/parallel/rts.py
@@ -3,6 +3,8 @@ from __future__ import annotations
 import jax
 import jax.numpy as jnp
 
+from smolgp.helpers import smoothing_gain
+
 
 def ParallelIntegratedRTSSmoother(
     kernel,
@@ -102,9 +104,8 @@ def make_associative_params(
         )
 
         A = Phik @ Pk @ Phik.T + Qk
-        b = Pk @ Phik.T
 
-        E = jax.scipy.linalg.solve(A.T, b.T, assume_a="pos").T
+        E = smoothing_gain(Pk, Phik, A)
         g = mk - E @ (Phik @ mk)
         L = Pk - E @ Phik @ Pk
 
diff --git a/src/smolgp/solvers/integrated/parallel/solver.py b/src/smolgp/solvers/integrated/parallel/solver.py
index c528862..29b6a7f 100644
--- a/src/smolgp/solvers/integrated/parallel/solver.py
+++ b/src/smolgp/solvers/integrated/parallel/solver.py
@@ -7,6 +7,7 @@ import equinox as eqx
 from tinygp.helpers import JAXArray
 from tinygp.noise import Noise
 from tinygp.solvers.quasisep.solver import QuasisepSolver
+from smolgp.helpers import smoothing_gain
 from smolgp.kernels.base import StateSpaceModel
 from smolgp.solvers.integrated.parallel.kalman import ParallelIntegratedKalmanFilter
 from smolgp.solvers.integrated.parallel.rts import ParallelIntegratedRTSSmoother
@@ -225,7 +226,7 @@ class ParallelIntegratedStateSpaceSolver(eqx.Module):
             A_k = A_aug(dt)
 
             # RTS update
-            G_k = jnp.linalg.solve(P_pred_next.T, (P_star_pred @ A_k.T).T).T
+            G_k = smoothing_gain(P_star_pred, A_k, P_pred_next)
             m_star_hat = m_star_pred + G_k @ (m_hat_next - m_pred_next)
             P_star_hat = P_star_pred + G_k @ (P_hat_next - P_pred_next) @ G_k.T
 
diff --git a/src/smolgp/solvers/integrated/rts.py b/src/smolgp/solvers/integrated/rts.py
index b153cf3..1ee8069 100644
--- a/src/smolgp/solvers/integrated/rts.py
+++ b/src/smolgp/solvers/integrated/rts.py
@@ -3,6 +3,8 @@ from __future__ import annotations
 import jax
 import jax.numpy as jnp
 
+from smolgp.helpers import smoothing_gain
+
 
 def IntegratedRTSSmoother(kernel, t_states, obsid, instid, stateid, kalman_results):
     """
@@ -72,14 +74,14 @@ def integrated_rts_smoother(
 
             Reset = RESET(instid[obsid[k]])
             AR = A_k @ Reset
-            G_k = jnp.linalg.solve(P_pred_next.T, (P_k_pre @ AR.T).T).T
+            G_k = smoothing_gain(P_k_pre, AR, P_pred_next)
             m_hat_k = m_k_pre + G_k @ (m_hat_next - m_pred_next)
             P_hat_k = P_k_pre + G_k @ (P_hat_next - P_pred_next) @ G_k.T
             return m_hat_k, P_hat_k
 
         def smooth_end():
             """RTS smooth an exposure-end state"""
-            G_k = jnp.linalg.solve(P_pred_next.T, (P_k @ A_k.T).T).T
+            G_k = smoothing_gain(P_k, A_k, P_pred_next)
             m_hat_k = m_k + G_k @ (m_hat_next - m_pred_next)
             P_hat_k = P_k + G_k @ (P_hat_next - P_pred_next) @ G_k.T
             return m_hat_k, P_hat_k
diff --git a/src/smolgp/solvers/integrated/solver.py b/src/smolgp/solvers/integrated/solver.py
index e706af4..11f4a81 100644
--- a/src/smolgp/solvers/integrated/solver.py
+++ b/src/smolgp/solvers/integrated/solver.py
@@ -9,6 +9,7 @@ import equinox as eqx
 from tinygp.helpers import JAXArray
 from tinygp.noise import Noise
 from tinygp.solvers.quasisep.solver import QuasisepSolver
+from smolgp.helpers import smoothing_gain
 from smolgp.kernels.base import StateSpaceModel
 from smolgp.solvers.integrated.kalman import IntegratedKalmanFilter
 from smolgp.solvers.integrated.rts import IntegratedRTSSmoother
@@ -220,7 +221,7 @@ class IntegratedStateSpaceSolver(eqx.Module):
             A_k = A_aug(dt)
 
             # RTS update
-            G_k = jnp.linalg.solve(P_pred_next.T, (P_star_pred @ A_k.T).T).T
+            G_k = smoothing_gain(P_star_pred, A_k, P_pred_next)
             m_star_hat = m_star_pred + G_k @ (m_hat_next - m_pred_next)
             P_star_hat = P_star_pred + G_k @ (P_hat_next - P_pred_next) @ G_k.T
 
-- 
2.43.0


From c68948cf3ce9d6eebcb3c520a0f07892a3a98582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:51 +0000
Subject: [PATCH 24/34] fix: contiguous exposures could be out of order by a
 rounding error

When an exposure starts as the previous one ends, t + delta/2 may round to just
after the next t - delta/2. The integral was then reset before it was observed.
---
 src/smolgp/solvers/integrated/parallel/solver.py | 9 ++++++---
 src/smolgp/solvers/integrated/solver.py          | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/smolgp/solvers/integrated/parallel/solver.py b/src/smolgp/solvers/integrated/parallel/solver.py
index 29b6a7f..754d957 100644
--- a/src/smolgp/solvers/integrated/parallel/solver.py
+++ b/src/smolgp/solvers/integrated/parallel/solver.py
@@ -66,9 +66,12 @@ class ParallelIntegratedStateSpaceSolver(eqx.Module):
         t_states = t_states.at[1::2].set(te)  # odds are end times
         stateid = jnp.tile(jnp.array([0, 1]), len(tmid))  # 0 for start, 1 for end
         # Have to re-sort because exposures can overlap
-        # enforce end times before start times at same t
-        sortidx = jnp.lexsort((-stateid, t_states))
-        t_states = t_states[sortidx]
+        # enforce end times before start times at same t (to within the rounding
+        # error of t -/+ delta/2, as contiguous exposures may otherwise swap order)
+        tol = 4 * jnp.finfo(ts.dtype).eps * jnp.max(jnp.abs(te), initial=0.0)
+        early = jnp.where(delta > 2 * tol, tol, 0.0).repeat(2) * stateid
+        sortidx = jnp.lexsort((-stateid, t_states - early))
+        t_states = jax.lax.cummax(t_states[sortidx])
         obsid = obsid[sortidx]
         stateid = stateid[sortidx]  # 0 for t_s, 1 for t_e
 
diff --git a/src/smolgp/solvers/integrated/solver.py b/src/smolgp/solvers/integrated/solver.py
index 11f4a81..ee8bcb3 100644
--- a/src/smolgp/solvers/integrated/solver.py
+++ b/src/smolgp/solvers/integrated/solver.py
@@ -67,9 +67,12 @@ class IntegratedStateSpaceSolver(eqx.Module):
         t_states = t_states.at[1::2].set(te)  # odds are end times
         stateid = jnp.tile(jnp.array([0, 1]), len(tmid))  # 0 for start, 1 for end
         # Have to re-sort because exposures can overlap
-        # enforce end times before start times at same t
-        sortidx = jnp.lexsort((-stateid, t_states))
-        t_states = t_states[sortidx]
+        # enforce end times before start times at same t (to within the rounding
+        # error of t -/+ delta/2, as contiguous exposures may otherwise swap order)
+        tol = 4 * jnp.finfo(ts.dtype).eps * jnp.max(jnp.abs(te), initial=0.0)
+        early = jnp.where(delta > 2 * tol, tol, 0.0).repeat(2) * stateid
+        sortidx = jnp.lexsort((-stateid, t_states - early))
+        t_states = jax.lax.cummax(t_states[sortidx])
         obsid = obsid[sortidx]
         stateid = stateid[sortidx]  # 0 for t_s, 1 for t_e
 
-- 
2.43.0


From 7ada544da5d19be8ec2c19b19ea35172416696f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:45 +0000
Subject: [PATCH 25/34] fix: ExpSineSquared.error_bound was smaller than the
 actual error

---
 src/smolgp/kernels/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 73c7d8b..3838821 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -1178,10 +1178,12 @@ class ExpSineSquared(Wrapper):
         An upper bound on the error in the covariance
         from the Taylor series approximation.
 
-        See Sec 3.4 of Solin & Särkkä (2014).
+        See Sec 3.4 of Solin & Särkkä (2014). The coefficients of the full series are
+        positive and sum to one, so the error is largest at zero lag where it is the
+        sum of the coefficients beyond the truncation.
         """
-        J = self.order
-        return jnp.exp(1 - self.scale) / jax.scipy.special.factorial(J + 1)
+        coeffs = self.kernel.evaluate_diag(jnp.zeros(()))
+        return jnp.square(self.sigma) * jnp.maximum(1 - coeffs, 0.0)
 
     def stationary_covariance(self) -> JAXArray:
         return jnp.square(self.sigma) * self.kernel.stationary_covariance()
-- 
2.43.0


From 1f8ef6415e555484455946506d292ed4b67ecfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:33 +0000
Subject: [PATCH 26/34] fix: integrated predictions before the first exposure
 were inaccurate

The smoothing gain for coordinates before the first exposure included the
correlation with the integral states, whose prior variance (1) does not
correspond to their transition, so its rounding errors were amplified (by
many orders of magnitude, depending on the units of time).
---
 src/smolgp/solvers/integrated/parallel/solver.py | 12 +++++++++---
 src/smolgp/solvers/integrated/solver.py          | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/smolgp/solvers/integrated/parallel/solver.py b/src/smolgp/solvers/integrated/parallel/solver.py
index 754d957..cbea318 100644
--- a/src/smolgp/solvers/integrated/parallel/solver.py
+++ b/src/smolgp/solvers/integrated/parallel/solver.py
@@ -211,7 +211,11 @@ class ParallelIntegratedStateSpaceSolver(eqx.Module):
             P_star_pred = A_star @ P_k @ A_star.T + Q_star
             return m_star_pred, P_star_pred
 
-        def smooth(k_next, ktest, m_star_pred, P_star_pred):
+        RESET_all = jnp.eye(self.kernel.dimension)
+        for i in range(self.kernel.dimension):  # (at most this many integral states)
+            RESET_all = RESET_all @ self.kernel.reset_matrix(i)
+
+        def smooth(k_next, ktest, m_star_pred, P_star_pred, reset=None):
             """
             RTS smooth the prediction (ktest) using
             the nearest future data point (k_next)
@@ -226,7 +230,7 @@ class ParallelIntegratedStateSpaceSolver(eqx.Module):
 
             # Transition matrix
             dt = t_states[k_next] - t_test[ktest]
-            A_k = A_aug(dt)
+            A_k = A_aug(dt) if reset is None else reset @ A_aug(dt)
 
             # RTS update
             G_k = smoothing_gain(P_star_pred, A_k, P_pred_next)
@@ -237,7 +241,9 @@ class ParallelIntegratedStateSpaceSolver(eqx.Module):
 
         def retrodict(ktest):
             """Reverse-extrapolate from first datapoint t_star"""
-            m_star, P_star = smooth(0, ktest, m0, Pinf)
+            # No integral state has started before the first datapoint,
+            # so these do not carry information about t_star
+            m_star, P_star = smooth(0, ktest, m0, Pinf, reset=RESET_all)
             return m_star, P_star
 
         def interpolate(ktest):
diff --git a/src/smolgp/solvers/integrated/solver.py b/src/smolgp/solvers/integrated/solver.py
index ee8bcb3..09ca22f 100644
--- a/src/smolgp/solvers/integrated/solver.py
+++ b/src/smolgp/solvers/integrated/solver.py
@@ -206,7 +206,11 @@ class IntegratedStateSpaceSolver(eqx.Module):
             P_star_pred = A_star @ P_k @ A_star.T + Q_star
             return m_star_pred, P_star_pred
 
-        def smooth(k_next, ktest, m_star_pred, P_star_pred):
+        RESET_all = jnp.eye(self.kernel.dimension)
+        for i in range(self.kernel.dimension):  # (at most this many integral states)
+            RESET_all = RESET_all @ self.kernel.reset_matrix(i)
+
+        def smooth(k_next, ktest, m_star_pred, P_star_pred, reset=None):
             """
             RTS smooth the prediction (ktest) using
             the nearest future data point (k_next)
@@ -221,7 +225,7 @@ class IntegratedStateSpaceSolver(eqx.Module):
 
             # Transition matrix
             dt = t_states[k_next] - t_test[ktest]
-            A_k = A_aug(dt)
+            A_k = A_aug(dt) if reset is None else reset @ A_aug(dt)
 
             # RTS update
             G_k = smoothing_gain(P_star_pred, A_k, P_pred_next)
@@ -232,7 +236,9 @@ class IntegratedStateSpaceSolver(eqx.Module):
 
         def retrodict(ktest):
             """Reverse-extrapolate from first datapoint t_star"""
-            m_star, P_star = smooth(0, ktest, m0, Pinf)
+            # No integral state has started before the first datapoint,
+            # so these do not carry information about t_star
+            m_star, P_star = smooth(0, ktest, m0, Pinf, reset=RESET_all)
             return m_star, P_star
 
         def interpolate(ktest):
-- 
2.43.0


From c434c91b9d11b713a6c502083badde65723ca8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:38 +0000
Subject: [PATCH 27/34] fix: gradients of the oscillator kernels were NaN or
 wrong at critical damping

The derivative of eta is singular at Q=1/2 (NaN in omega and quality), and the
critical branch dropped the dependence on Q. Expand it to first order in eta^2,
and keep the branches which are not selected finite.
---
 src/smolgp/kernels/base.py       | 46 +++++++++++++++++++++-----------
 src/smolgp/kernels/integrated.py |  6 ++---
 2 files changed, 34 insertions(+), 18 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 3838821..4630a5e 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -602,7 +602,18 @@ class SHO(StateSpaceModel):
         self.quality = quality
         self.sigma = sigma
         self.name = name
-        self.eta = jnp.sqrt(jnp.abs(1 - 1 / (4 * self.quality**2)))
+        # (the gradient of sqrt is singular at critical damping)
+        eta2 = jnp.abs(1 - 1 / (4 * self.quality**2))
+        self.eta = jnp.where(eta2 > 0, jnp.sqrt(jnp.where(eta2 > 0, eta2, 1.0)), 0.0)
+
+    def _critical_trig(self, dt: JAXArray) -> tuple[JAXArray, JAXArray]:
+        """
+        cos(eta w dt) and sin(eta w dt)/eta (or cosh and sinh) near critical damping,
+        to first order in the (signed) eta^2 so that the derivative in Q is retained
+        """
+        x = self.omega * dt
+        eta2x2 = (1 - 1 / (4 * self.quality**2)) * jnp.square(x)
+        return 1 - eta2x2 / 2, x * (1 - eta2x2 / 6)
 
     def design_matrix(self) -> JAXArray:
         """The design (also called the feedback) matrix for the SHO process, F"""
@@ -633,13 +644,15 @@ class SHO(StateSpaceModel):
         t1 = self.coord_to_sortable(X1)
         t2 = self.coord_to_sortable(X2)
         dt = t2 - t1
-        n = self.eta
+        # (the branches which are not selected must stay finite to be differentiable)
+        n = jnp.where(self.eta > 0, self.eta, 1.0)
         w = self.omega
         q = self.quality
 
         def critical(dt: JAXArray) -> JAXArray:
-            return jnp.exp(-w * dt) * jnp.array(
-                [[1 + w * dt, dt], [-jnp.square(w) * dt, 1 - w * dt]]
+            c, s = self._critical_trig(dt)
+            return jnp.exp(-0.5 * w * dt / q) * jnp.array(
+                [[c + 0.5 * s / q, s / w], [-w * s, c - 0.5 * s / q]]
             )
 
         def underdamped(dt: JAXArray) -> JAXArray:
@@ -656,7 +669,7 @@ class SHO(StateSpaceModel):
             x = n * w * dt
             # sinh, cosh including the exp(-w*dt/2q) decay, as the
             # hyperbolic functions alone overflow for long time-lags
-            grow = 0.5 * jnp.exp(x - 0.5 * w * dt / q)
+            grow = 0.5 * jnp.exp(jnp.minimum(x - 0.5 * w * dt / q, 0.0))
             sinh = -grow * jnp.expm1(-2 * x)
             cosh = grow * (1 + jnp.exp(-2 * x))
             return jnp.array(
@@ -675,18 +688,20 @@ class SHO(StateSpaceModel):
         t1 = self.coord_to_sortable(X1)
         t2 = self.coord_to_sortable(X2)
         dt = t2 - t1
-        n = self.eta
+        n = jnp.where(self.eta > 0, self.eta, 1.0)
         w = self.omega
         q = self.quality
 
         def critical(dt: JAXArray) -> JAXArray:
-            arg = 2 * w * dt
-            argexp = arg * jnp.exp(-arg)
-            expm1 = jnp.expm1(-arg)
-            wdt = w * dt
-            Q11 = -expm1 - argexp * (1 + wdt)
-            Q12 = Q21 = w * wdt * argexp
-            Q22 = jnp.square(w) * (-expm1 - argexp * (-1 + wdt))
+            c, s = self._critical_trig(dt)
+            a = w * dt / q
+            exp = jnp.exp(-a)
+            expm1 = jnp.expm1(-a)
+            sc = s * c / q
+            ss = 0.5 * jnp.square(s / q)
+            Q11 = -expm1 - (sc + ss) * exp
+            Q12 = Q21 = w * jnp.square(s) / q * exp
+            Q22 = jnp.square(w) * (-expm1 + (sc - ss) * exp)
             return jnp.square(self.sigma) * jnp.array([[Q11, Q12], [Q21, Q22]])
 
         def underdamped(dt: JAXArray) -> JAXArray:
@@ -718,8 +733,9 @@ class SHO(StateSpaceModel):
             x = n * w * dt  # argument in sin/cos
             # hyperbolic functions including the exp(-a) decay, as
             # they overflow for long time-lags on their own
-            sinh2 = -0.5 * jnp.exp(2 * x - a) * jnp.expm1(-4 * x)
-            sinhsq = 0.25 * jnp.exp(2 * x - a) * jnp.square(jnp.expm1(-2 * x))
+            grow = jnp.exp(jnp.minimum(2 * x - a, 0.0))
+            sinh2 = -0.5 * grow * jnp.expm1(-4 * x)
+            sinhsq = 0.25 * grow * jnp.square(jnp.expm1(-2 * x))
             expm1 = jnp.expm1(-a)  # exp(-a) - 1
             Q11 = -expm1 - (sinh2 / f + sinhsq / (2 * n2 * q2))
             Q12 = Q21 = w * sinhsq / (n2 * q)
diff --git a/src/smolgp/kernels/integrated.py b/src/smolgp/kernels/integrated.py
index 79dcbeb..8cbc36a 100644
--- a/src/smolgp/kernels/integrated.py
+++ b/src/smolgp/kernels/integrated.py
@@ -325,18 +325,18 @@ class IntegratedSHO(IntegratedStateSpaceModel):
         self.omega = omega
         self.quality = quality
         self.sigma = sigma
-        self.eta = jnp.sqrt(jnp.abs(1 - 1 / (4 * self.quality**2)))
 
         # Base model
         self.base_model = smolgp.kernels.SHO(
             omega=self.omega, quality=self.quality, sigma=self.sigma
         )
+        self.eta = self.base_model.eta
 
     def integrated_transition_matrix(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
         """The integrated transition matrix Phibar for the SHO process"""
 
         # Shorthand notations
-        n = self.eta
+        n = jnp.where(self.eta > 0, self.eta, 1.0)
         w = self.omega
         q = self.quality
         a = -0.5 * w / q
@@ -404,7 +404,7 @@ class IntegratedSHO(IntegratedStateSpaceModel):
         t1 = self.coord_to_sortable(X1)
         t2 = self.coord_to_sortable(X2)
         dt = t2 - t1
-        n = self.eta
+        n = jnp.where(self.eta > 0, self.eta, 1.0)
         w = self.omega
         q = self.quality
         a = -0.5 * w / q
-- 
2.43.0


From 69fdc4a2fedd8b21ade90e6522203d29c6eef838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:11 +0000
Subject: [PATCH 28/34] fix: parallel integrated filter lost accuracy for badly
 scaled states

The solves in the associative operator are now done in units of the standard
deviations. E.g. with times in seconds and exposures short compared to the
scale of a Matern52 kernel, the log probability was off by up to 1e-4 relative.
---
 .../solvers/integrated/parallel/kalman.py     | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/smolgp/solvers/integrated/parallel/kalman.py b/src/smolgp/solvers/integrated/parallel/kalman.py
index c406c93..461e514 100644
--- a/src/smolgp/solvers/integrated/parallel/kalman.py
+++ b/src/smolgp/solvers/integrated/parallel/kalman.py
@@ -247,14 +247,23 @@ def _combine_per_pair(left, right):
     dim = Ai.shape[-1]
     I = jnp.eye(dim)
 
-    D = I + Ci @ Jj
-    E = I + Jj @ Ci
-
-    Aij = Aj @ jnp.linalg.solve(D, Ai)
-    bij = Aj @ jnp.linalg.solve(D, bi + Ci @ etaj) + bj
-    Cij = Aj @ jnp.linalg.solve(D, Ci) @ Aj.T + Cj
-    etaij = Ai.T @ jnp.linalg.solve(E, etaj - Jj @ bi) + etai
-    Jij = Ai.T @ jnp.linalg.solve(E, Jj) @ Ai + Ji
+    # Solve in units of the standard deviations, as the elements of
+    # the state otherwise differ by many orders of magnitude
+    var = jax.lax.stop_gradient(jnp.diag(Ci))
+    s = jnp.sqrt(jnp.where(var > 0, var, 1.0))
+    D = I + (Ci / s[:, None]) @ (Jj * s[None, :])
+
+    def solve_D(x):
+        return (s * jnp.linalg.solve(D, (x.T / s).T).T).T
+
+    def solve_E(x):
+        return (jnp.linalg.solve(D.T, (x.T * s).T).T / s).T
+
+    Aij = Aj @ solve_D(Ai)
+    bij = Aj @ solve_D(bi + Ci @ etaj) + bj
+    Cij = Aj @ solve_D(Ci) @ Aj.T + Cj
+    etaij = Ai.T @ solve_E(etaj - Jj @ bi) + etai
+    Jij = Ai.T @ solve_E(Jj) @ Ai + Ji
 
     Cij = 0.5 * (Cij + Cij.T)
     Jij = 0.5 * (Jij + Jij.T)
-- 
2.43.0


From 01c82abfb027810849a79fa397a6aef503d5175f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:03 +0000
Subject: [PATCH 29/34] fix: one-dimensional (Exp) models with the parallel
 integrated solver

---
 src/smolgp/solvers/integrated/parallel/kalman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smolgp/solvers/integrated/parallel/kalman.py b/src/smolgp/solvers/integrated/parallel/kalman.py
index 461e514..caa5a12 100644
--- a/src/smolgp/solvers/integrated/parallel/kalman.py
+++ b/src/smolgp/solvers/integrated/parallel/kalman.py
@@ -175,7 +175,7 @@ def make_associative_params(
         Kk = jnp.linalg.solve(Sk.T, (Q_dt @ Hk.T).T).T
         factor = I_nx - Kk @ Hk
         A = factor @ Phi_dt
-        b = jnp.squeeze(Kk @ jnp.atleast_1d(yk))
+        b = Kk @ jnp.atleast_1d(yk)
         C = factor @ Q_dt
         C = 0.5 * (C + C.T)
 
-- 
2.43.0


From 6e4e1acd7e22edf41883aba1cbde5d6ae5f91f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:31 +0000
Subject: [PATCH 30/34] fix: parallel integrated filter diverged where
 variances are rounding errors

---
 src/smolgp/solvers/integrated/parallel/kalman.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/smolgp/solvers/integrated/parallel/kalman.py b/src/smolgp/solvers/integrated/parallel/kalman.py
index caa5a12..5ad6259 100644
--- a/src/smolgp/solvers/integrated/parallel/kalman.py
+++ b/src/smolgp/solvers/integrated/parallel/kalman.py
@@ -249,8 +249,12 @@ def _combine_per_pair(left, right):
 
     # Solve in units of the standard deviations, as the elements of
     # the state otherwise differ by many orders of magnitude
-    var = jax.lax.stop_gradient(jnp.diag(Ci))
-    s = jnp.sqrt(jnp.where(var > 0, var, 1.0))
+    C_ = jax.lax.stop_gradient(Ci)
+    s = jnp.sqrt(jnp.maximum(jnp.diag(C_), 0.0))
+    # (or what the covariances imply, where a variance is rounding error)
+    top = jnp.max(s)
+    s = jnp.maximum(s, jnp.max(jnp.abs(C_), axis=1) / jnp.where(top > 0, top, 1.0))
+    s = jnp.where(s > 0, s, 1.0)
     D = I + (Ci / s[:, None]) @ (Jj * s[None, :])
 
     def solve_D(x):
-- 
2.43.0


From 4f8451df7c7ea87b6abf1772ed17995ffb646e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:40 +0000
Subject: [PATCH 31/34] fix: balance the parallel integrated filter by its
 system, not by variances

---
 .../solvers/integrated/parallel/kalman.py       | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/smolgp/solvers/integrated/parallel/kalman.py b/src/smolgp/solvers/integrated/parallel/kalman.py
index 5ad6259..511d525 100644
--- a/src/smolgp/solvers/integrated/parallel/kalman.py
+++ b/src/smolgp/solvers/integrated/parallel/kalman.py
@@ -247,14 +247,15 @@ def _combine_per_pair(left, right):
     dim = Ai.shape[-1]
     I = jnp.eye(dim)
 
-    # Solve in units of the standard deviations, as the elements of
-    # the state otherwise differ by many orders of magnitude
-    C_ = jax.lax.stop_gradient(Ci)
-    s = jnp.sqrt(jnp.maximum(jnp.diag(C_), 0.0))
-    # (or what the covariances imply, where a variance is rounding error)
-    top = jnp.max(s)
-    s = jnp.maximum(s, jnp.max(jnp.abs(C_), axis=1) / jnp.where(top > 0, top, 1.0))
-    s = jnp.where(s > 0, s, 1.0)
+    # Balance the system before solving it, as the elements of the
+    # state otherwise differ by many orders of magnitude
+    CJ = jnp.abs(jax.lax.stop_gradient(Ci @ Jj)) * (1.0 - I)
+    s = jnp.ones(dim)
+    for _ in range(4):
+        row, col = (CJ @ s) / s, (CJ.T @ (1.0 / s)) * s
+        scalable = (row > 0) & (col > 0)
+        row, col = jnp.where(scalable, row, 1.0), jnp.where(scalable, col, 1.0)
+        s = s * row**0.25 / col**0.25
     D = I + (Ci / s[:, None]) @ (Jj * s[None, :])
 
     def solve_D(x):
-- 
2.43.0


From 0cd1bac4b9036378ba65fffdcb661751c88197f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:49 +0000
Subject: [PATCH 32/34] fix: derivatives of the overdamped oscillator matrices
 at zero lag

---
 src/smolgp/kernels/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 4630a5e..1bd61d6 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -669,7 +669,9 @@ class SHO(StateSpaceModel):
             x = n * w * dt
             # sinh, cosh including the exp(-w*dt/2q) decay, as the
             # hyperbolic functions alone overflow for long time-lags
-            grow = 0.5 * jnp.exp(jnp.minimum(x - 0.5 * w * dt / q, 0.0))
+            # (the exponent is positive only where this branch is not selected)
+            rise = x - 0.5 * w * dt / q
+            grow = 0.5 * jnp.exp(jnp.where(rise > 0, 0.0, rise))
             sinh = -grow * jnp.expm1(-2 * x)
             cosh = grow * (1 + jnp.exp(-2 * x))
             return jnp.array(
@@ -733,7 +735,8 @@ class SHO(StateSpaceModel):
             x = n * w * dt  # argument in sin/cos
             # hyperbolic functions including the exp(-a) decay, as
             # they overflow for long time-lags on their own
-            grow = jnp.exp(jnp.minimum(2 * x - a, 0.0))
+            rise = 2 * x - a
+            grow = jnp.exp(jnp.where(rise > 0, 0.0, rise))
             sinh2 = -0.5 * grow * jnp.expm1(-4 * x)
             sinhsq = 0.25 * grow * jnp.square(jnp.expm1(-2 * x))
             expm1 = jnp.expm1(-a)  # exp(-a) - 1
-- 
2.43.0


From 7a48a511629d4143fc138709b765f62825fa0dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:32 +0000
Subject: [PATCH 33/34] fix: parallel filter lost accuracy when state elements
 have very different scales

---
 src/smolgp/solvers/parallel/kalman.py | 30 ++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/smolgp/solvers/parallel/kalman.py b/src/smolgp/solvers/parallel/kalman.py
index 8cb30a0..670284b 100644
--- a/src/smolgp/solvers/parallel/kalman.py
+++ b/src/smolgp/solvers/parallel/kalman.py
@@ -133,14 +133,28 @@ def _combine_per_pair(left, right):
     dim = Ai.shape[-1]
     I = jnp.eye(dim)
 
-    D = I + Ci @ Jj
-    E = I + Jj @ Ci
-
-    Aij = Aj @ jnp.linalg.solve(D, Ai)
-    bij = Aj @ jnp.linalg.solve(D, bi + Ci @ etaj) + bj
-    Cij = Aj @ jnp.linalg.solve(D, Ci) @ Aj.T + Cj
-    etaij = Ai.T @ jnp.linalg.solve(E, etaj - Jj @ bi) + etai
-    Jij = Ai.T @ jnp.linalg.solve(E, Jj) @ Ai + Ji
+    # Balance the system before solving it, as the elements of the
+    # state otherwise differ by many orders of magnitude
+    CJ = jnp.abs(jax.lax.stop_gradient(Ci @ Jj)) * (1.0 - I)
+    s = jnp.ones(dim)
+    for _ in range(4):
+        row, col = (CJ @ s) / s, (CJ.T @ (1.0 / s)) * s
+        scalable = (row > 0) & (col > 0)
+        row, col = jnp.where(scalable, row, 1.0), jnp.where(scalable, col, 1.0)
+        s = s * row**0.25 / col**0.25
+    D = I + (Ci / s[:, None]) @ (Jj * s[None, :])
+
+    def solve_D(x):
+        return (s * jnp.linalg.solve(D, (x.T / s).T).T).T
+
+    def solve_E(x):
+        return (jnp.linalg.solve(D.T, (x.T * s).T).T / s).T
+
+    Aij = Aj @ solve_D(Ai)
+    bij = Aj @ solve_D(bi + Ci @ etaj) + bj
+    Cij = Aj @ solve_D(Ci) @ Aj.T + Cj
+    etaij = Ai.T @ solve_E(etaj - Jj @ bi) + etai
+    Jij = Ai.T @ solve_E(Jj) @ Ai + Ji
 
     Cij = 0.5 * (Cij + Cij.T)
     Jij = 0.5 * (Jij + Jij.T)
-- 
2.43.0


From f556ed53f2423069066b320a1be8c78ba9af021f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:32 +0000
Subject: [PATCH 34/34] fix: smoothing gains lost accuracy when state elements
 have very different scales

---
 src/smolgp/helpers.py                 | 10 ++++++++++
 src/smolgp/solvers/parallel/rts.py    |  4 +++-
 src/smolgp/solvers/parallel/solver.py |  3 ++-
 src/smolgp/solvers/rts.py             |  4 +++-
 src/smolgp/solvers/solver.py          |  3 ++-
 5 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/smolgp/helpers.py b/src/smolgp/helpers.py
index c3a4254..5d9542a 100644
--- a/src/smolgp/helpers.py
+++ b/src/smolgp/helpers.py
@@ -138,3 +138,13 @@ def smoothing_gain(P: JAXArray, A: JAXArray, P_pred: JAXArray) -> JAXArray:
     is_zero = eigvals <= cutoff
     inverse = jnp.where(is_zero, 0.0, 1.0 / jnp.where(is_zero, 1.0, eigvals))
     return ((P @ A.T / s[None, :]) @ U * inverse) @ U.T / s[None, :]
+
+
+def solve_covariance(P: JAXArray, B: JAXArray) -> JAXArray:
+    """
+    Solve P X = B for a covariance matrix P in units of its standard deviations,
+    as those of a state's derivatives can differ by many orders of magnitude
+    """
+    var = jnp.diag(P)
+    s = jnp.sqrt(jnp.where(var > 0, var, 1.0))
+    return jnp.linalg.solve(P / (s[:, None] * s[None, :]), B / s[:, None]) / s[:, None]
diff --git a/src/smolgp/solvers/parallel/rts.py b/src/smolgp/solvers/parallel/rts.py
index 9449174..3225042 100644
--- a/src/smolgp/solvers/parallel/rts.py
+++ b/src/smolgp/solvers/parallel/rts.py
@@ -3,6 +3,8 @@ from __future__ import annotations
 import jax
 import jax.numpy as jnp
 
+from smolgp.helpers import solve_covariance
+
 
 def ParallelRTSSmoother(kernel, X, kalman_results):
     """
@@ -48,7 +50,7 @@ def make_associative_params(Phi, Q, t, mu, P):
         A = Phi_dt @ P @ Phi_dt.T + Q_dt
         b = P @ Phi_dt.T
 
-        E = jax.scipy.linalg.solve(A.T, b.T, assume_a="pos").T
+        E = solve_covariance(A.T, b.T).T
         g = mu - E @ (Phi_dt @ mu)
         L = P - E @ Phi_dt @ P
 
diff --git a/src/smolgp/solvers/parallel/solver.py b/src/smolgp/solvers/parallel/solver.py
index c41d76b..6bd0a8c 100644
--- a/src/smolgp/solvers/parallel/solver.py
+++ b/src/smolgp/solvers/parallel/solver.py
@@ -8,6 +8,7 @@ import equinox as eqx
 from tinygp.helpers import JAXArray
 from tinygp.noise import Noise
 from tinygp.solvers.quasisep.solver import QuasisepSolver
+from smolgp.helpers import solve_covariance
 from smolgp.kernels.base import StateSpaceModel
 
 from smolgp.solvers.parallel.kalman import ParallelKalmanFilter
@@ -191,7 +192,7 @@ class ParallelStateSpaceSolver(eqx.Module):
             # Compute smoothing gain
             # P_pred_next_inv = jnp.linalg.inv(P_pred_next)
             # G_k = P_star_pred @ A_k.T @ P_pred_next_inv # smoothing gain
-            G_k = jnp.linalg.solve(
+            G_k = solve_covariance(
                 P_pred_next.T, (P_star_pred @ A_k.T).T
             ).T  # more stable
 
diff --git a/src/smolgp/solvers/rts.py b/src/smolgp/solvers/rts.py
index 17c3ffd..773d02c 100644
--- a/src/smolgp/solvers/rts.py
+++ b/src/smolgp/solvers/rts.py
@@ -3,6 +3,8 @@ from __future__ import annotations
 import jax
 import jax.numpy as jnp
 
+from smolgp.helpers import solve_covariance
+
 
 def RTSSmoother(kernel, X, kalman_results):
     """
@@ -65,7 +67,7 @@ def rts_smoother(A, t, m_filtered, P_filtered, m_predicted, P_predicted):
         # Compute smoothing gain
         # P_pred_next_inv = jnp.linalg.inv(P_pred_next)
         # G_k = P_k @ A_k.T @ P_pred_next_inv # smoothing gain
-        G_k = jnp.linalg.solve(P_pred_next.T, (P_k @ A_k.T).T).T  # more stable
+        G_k = solve_covariance(P_pred_next.T, (P_k @ A_k.T).T).T  # more stable
 
         # Update state and covariance
         m_hat_k = m_k + G_k @ (m_hat_next - m_pred_next)
diff --git a/src/smolgp/solvers/solver.py b/src/smolgp/solvers/solver.py
index bdb996d..7e2ba8d 100644
--- a/src/smolgp/solvers/solver.py
+++ b/src/smolgp/solvers/solver.py
@@ -8,6 +8,7 @@ import equinox as eqx
 from tinygp.helpers import JAXArray
 from tinygp.noise import Noise
 from tinygp.solvers.quasisep.solver import QuasisepSolver
+from smolgp.helpers import solve_covariance
 from smolgp.kernels.base import StateSpaceModel
 from smolgp.solvers.kalman import KalmanFilter
 from smolgp.solvers.rts import RTSSmoother
@@ -184,7 +185,7 @@ class StateSpaceSolver(eqx.Module):
             # Compute smoothing gain
             # P_pred_next_inv = jnp.linalg.inv(P_pred_next)
             # G_k = P_star_pred @ A_k.T @ P_pred_next_inv # smoothing gain
-            G_k = jnp.linalg.solve(
+            G_k = solve_covariance(
                 P_pred_next.T, (P_star_pred @ A_k.T).T
             ).T  # more stable
 
-- 
2.43.0

