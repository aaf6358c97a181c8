From c64df0c573a4d12e29624bee9c381bb6746d0c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:28 +0000
Subject: [PATCH 01/14] fix: KalmanFilter.sample drew every step from the first
 time-varying covariance

---
 pykalman/standard.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pykalman/standard.py b/pykalman/standard.py
index 2f183f0..b82666d 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -1162,8 +1162,8 @@ class KalmanFilter:
             else:
                 transition_matrix = _last_dims(transition_matrices, t - 1)
                 transition_offset = _last_dims(transition_offsets, t - 1, ndims=1)
-                transition_covariance = _last_dims(transition_covariance, t - 1)
-                cov = newbyteorder(transition_covariance, "=")
+                transition_covariance_t = _last_dims(transition_covariance, t - 1)
+                cov = newbyteorder(transition_covariance_t, "=")
                 states[t] = (
                     np.dot(transition_matrix, states[t - 1])
                     + transition_offset
@@ -1172,12 +1172,12 @@ class KalmanFilter:
 
             observation_matrix = _last_dims(observation_matrices, t)
             observation_offset = _last_dims(observation_offsets, t, ndims=1)
-            observation_covariance = _last_dims(observation_covariance, t)
+            observation_covariance_t = _last_dims(observation_covariance, t)
             observations[t] = (
                 np.dot(observation_matrix, states[t])
                 + observation_offset
                 + rng.multivariate_normal(
-                    np.zeros(n_dim_obs), newbyteorder(observation_covariance, "=")
+                    np.zeros(n_dim_obs), newbyteorder(observation_covariance_t, "=")
                 )
             )
 
-- 
2.43.0


From 51d44bd06638f19cb1c3824d5d970e07c511fa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:28 +0000
Subject: [PATCH 02/14] fix: loglikelihood failed with a time-varying
 observation covariance

---
 pykalman/standard.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykalman/standard.py b/pykalman/standard.py
index b82666d..5fe151f 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -162,6 +162,7 @@ def _loglikelihoods(
         if not np.any(np.ma.getmask(observation)):
             observation_matrix = _last_dims(observation_matrices, t)
             observation_offset = _last_dims(observation_offsets, t, ndims=1)
+            observation_covariance_t = _last_dims(observation_covariance, t)
             predicted_state_mean = _last_dims(predicted_state_means, t, ndims=1)
             predicted_state_covariance = _last_dims(predicted_state_covariances, t)
 
@@ -173,7 +174,7 @@ def _loglikelihoods(
                     observation_matrix,
                     np.dot(predicted_state_covariance, observation_matrix.T),
                 )
-                + observation_covariance
+                + observation_covariance_t
             )
             lmnd_arr = log_multivariate_normal_density(
                 observation[np.newaxis, :],
-- 
2.43.0


From b79080c3b95d92353fbd0e8cf84e2d8c18bfe075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:28 +0000
Subject: [PATCH 03/14] fix: em of the square root filters failed with the
 default em_vars

---
 pykalman/sqrt/bierman.py  | 2 +-
 pykalman/sqrt/cholesky.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykalman/sqrt/bierman.py b/pykalman/sqrt/bierman.py
index efc77ad..66a8898 100644
--- a/pykalman/sqrt/bierman.py
+++ b/pykalman/sqrt/bierman.py
@@ -813,7 +813,7 @@ class BiermanKalmanFilter(KalmanFilter):
 
         # Create dictionary of variables not to perform EM on
         if em_vars is None:
-            em_vars = self.em_vars
+            em_vars = self._em_vars if self.em_vars is None else self.em_vars
 
         if em_vars == "all":
             given = {}
diff --git a/pykalman/sqrt/cholesky.py b/pykalman/sqrt/cholesky.py
index 71f8cc1..d0cbc55 100644
--- a/pykalman/sqrt/cholesky.py
+++ b/pykalman/sqrt/cholesky.py
@@ -644,7 +644,7 @@ class CholeskyKalmanFilter(KalmanFilter):
 
         # Create dictionary of variables not to perform EM on
         if em_vars is None:
-            em_vars = self.em_vars
+            em_vars = self._em_vars if self.em_vars is None else self.em_vars
 
         if em_vars == "all":
             given = {}
-- 
2.43.0


From ddb2298b1f5ad0404823e083aa8bccffd2b4ac42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:28 +0000
Subject: [PATCH 04/14] fix: filter_update of the square root filters returned
 a stacked covariance

---
 pykalman/sqrt/bierman.py   | 2 +-
 pykalman/sqrt/cholesky.py  | 2 +-
 pykalman/sqrt/unscented.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykalman/sqrt/bierman.py b/pykalman/sqrt/bierman.py
index 66a8898..efad549 100644
--- a/pykalman/sqrt/bierman.py
+++ b/pykalman/sqrt/bierman.py
@@ -703,7 +703,7 @@ class BiermanKalmanFilter(KalmanFilter):
         # reconstruct actual covariance
         next_filtered_state_covariance = _reconstruct_covariances(
             next_filtered_state_covariance
-        )
+        )[0]
 
         return (next_filtered_state_mean, next_filtered_state_covariance)
 
diff --git a/pykalman/sqrt/cholesky.py b/pykalman/sqrt/cholesky.py
index d0cbc55..30dc98f 100644
--- a/pykalman/sqrt/cholesky.py
+++ b/pykalman/sqrt/cholesky.py
@@ -534,7 +534,7 @@ class CholeskyKalmanFilter(KalmanFilter):
         # reconstruct actual covariance
         next_filtered_state_covariance = _reconstruct_covariances(
             next_filtered_state_covariance2
-        )
+        )[0]
 
         return (next_filtered_state_mean, next_filtered_state_covariance)
 
diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 320634b..99f4508 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -764,7 +764,7 @@ class AdditiveUnscentedKalmanFilter(AUKF):
 
         next_filtered_state_covariance = _reconstruct_covariances(
             next_filtered_state_covariance2
-        )
+        )[0]
 
         return (next_filtered_state_mean, next_filtered_state_covariance)
 
-- 
2.43.0


From dd3415250b9d105190669c43d8f289fcaba57f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:47 +0000
Subject: [PATCH 05/14] fix: BiermanKalmanFilter truncated decorrelated integer
 observation matrices

---
 pykalman/sqrt/bierman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykalman/sqrt/bierman.py b/pykalman/sqrt/bierman.py
index efad549..7049ace 100644
--- a/pykalman/sqrt/bierman.py
+++ b/pykalman/sqrt/bierman.py
@@ -134,7 +134,7 @@ def decorrelate_observations(
     observation_covariance_inv = linalg.pinv(observation_covariance2)
 
     # decorrelate observation_matrices
-    observation_matrices2 = np.copy(observation_matrices)
+    observation_matrices2 = np.array(observation_matrices, dtype=float)
     if len(observation_matrices.shape) == DIM["observation_matrices"] + 1:
         n_timesteps = observation_matrices.shape[0]
         for t in range(n_timesteps):
-- 
2.43.0


From 5bf3c24a9e393dfa3068f64a8c0e7fa8eef2f2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:47 +0000
Subject: [PATCH 06/14] fix: a single multi-dimensional observation was read as
 many scalar ones

---
 pykalman/standard.py  | 2 +-
 pykalman/unscented.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykalman/standard.py b/pykalman/standard.py
index 5fe151f..eeb27d6 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -1644,6 +1644,6 @@ class KalmanFilter:
     def _parse_observations(self, obs):
         """Safely convert observations to their expected format."""
         obs = np.ma.atleast_2d(obs)
-        if obs.shape[0] == 1 and obs.shape[1] > 1:
+        if obs.shape[0] == 1 and obs.shape[1] not in (1, self.n_dim_obs):
             obs = obs.T
         return obs
diff --git a/pykalman/unscented.py b/pykalman/unscented.py
index e4027a4..56c4cb0 100644
--- a/pykalman/unscented.py
+++ b/pykalman/unscented.py
@@ -733,7 +733,7 @@ class UnscentedMixin:
     def _parse_observations(self, obs):
         """Safely convert observations to their expected format."""
         obs = ma.atleast_2d(obs)
-        if obs.shape[0] == 1 and obs.shape[1] > 1:
+        if obs.shape[0] == 1 and obs.shape[1] not in (1, self.n_dim_obs):
             obs = obs.T
         return obs
 
-- 
2.43.0


From 17cb7c5670d5300a85c90b04948ab800f2685075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:47 +0000
Subject: [PATCH 07/14] fix: check_random_state raised AttributeError for an
 invalid seed

---
 pykalman/utils/_sklearn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykalman/utils/_sklearn.py b/pykalman/utils/_sklearn.py
index 1569372..3f86ddb 100644
--- a/pykalman/utils/_sklearn.py
+++ b/pykalman/utils/_sklearn.py
@@ -83,8 +83,8 @@ def check_random_state(seed):
     if isinstance(seed, np.random.RandomState):
         return seed
     raise ValueError(
-        "{0} cannot be used to seed a numpy.random.RandomState" + " instance"
-    ).format(seed)
+        f"{seed} cannot be used to seed a numpy.random.RandomState instance"
+    )
 
 
 class Bunch(dict):
-- 
2.43.0


From d44cb06f024eef52faa48ba78af104d2aeedfb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:47 +0000
Subject: [PATCH 08/14] fix: newbyteorder reinterpreted the bytes of the array
 instead of its values

---
 pykalman/utils/_numpy.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/pykalman/utils/_numpy.py b/pykalman/utils/_numpy.py
index c6521e4..2d85b3a 100644
--- a/pykalman/utils/_numpy.py
+++ b/pykalman/utils/_numpy.py
@@ -1,9 +1,5 @@
 """Utility functions to handle numpy 2."""
 
-from skbase.utils.dependencies import _check_soft_dependencies
-
-numpy2 = _check_soft_dependencies("numpy>=2", severity="none")
-
 
 def newbyteorder(arr, new_order):
     """Change the byte order of an array.
@@ -20,7 +16,4 @@ def newbyteorder(arr, new_order):
     arr : ndarray
         Array with new byte order.
     """
-    if numpy2:
-        return arr.view(arr.dtype.newbyteorder(new_order))
-    else:
-        return arr.newbyteorder(new_order)
+    return arr.astype(arr.dtype.newbyteorder(new_order), copy=False)
-- 
2.43.0


From a5585b279a9fa4012c634cc36cad8d9fb50a4827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:30 +0000
Subject: [PATCH 09/14] fix: square root UKF added the wrong noise covariance
 when it is not diagonal

---
 pykalman/sqrt/unscented.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 99f4508..dc35a51 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -140,7 +140,7 @@ def points2moments(points, sigma2_noise=None):
         * (points.T - mu[:, np.newaxis])
     ]
     if sigma2_noise is not None:
-        qr_points.append(sigma2_noise)
+        qr_points.append(sigma2_noise.T)
     sigma2 = qr(np.hstack(qr_points).T)
     # sigma2 = cholupdate(sigma2, points[0] - mu, weights_sigma[0])
     return Moments(mu.ravel(), sigma2)
-- 
2.43.0


From ceed4394978d7d2c8ec77406ab01f0fb7688cfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:30 +0000
Subject: [PATCH 10/14] fix: square root UKF gain was wrong for
 multi-dimensional observations

---
 pykalman/sqrt/unscented.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index dc35a51..36e3d7c 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -287,13 +287,13 @@ def _unscented_correct(cross_sigma, moments_pred, obs_moments_pred, z):
 
         # equivalent to this MATLAB code
         # K = (cross_sigma / obs_sigma2_pred.T) / obs_sigma2_pred
-        K = linalg.lstsq(obs_sigma2_pred, cross_sigma.T)[0]
-        K = linalg.lstsq(obs_sigma2_pred.T, K)[0]
+        K = linalg.lstsq(obs_sigma2_pred.T, cross_sigma.T)[0]
+        K = linalg.lstsq(obs_sigma2_pred, K)[0]
         K = K.T
 
         # correct mu, sigma
         mu_filt = mu_pred + K.dot(z - obs_mu_pred)
-        U = K.dot(obs_sigma2_pred)
+        U = K.dot(obs_sigma2_pred.T)
         sigma2_filt = cholupdate(sigma2_pred, U.T, -1.0)
     else:
         # no corrections to be made
-- 
2.43.0


From 387b3495b5e8cc6d731b089e788c1778545d2441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:30 +0000
Subject: [PATCH 11/14] fix: square root UKF ignored the sign of a negative
 central weight

---
 pykalman/sqrt/unscented.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 36e3d7c..90d2401 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -135,14 +135,13 @@ def points2moments(points, sigma2_noise=None):
 
     # make points to perform QR factorization on. each column is one data point
     qr_points = [
-        np.sign(weights_sigma)[np.newaxis, :]
-        * np.sqrt(np.abs(weights_sigma))[np.newaxis, :]
-        * (points.T - mu[:, np.newaxis])
+        np.sqrt(weights_sigma[1:])[np.newaxis, :] * (points[1:].T - mu[:, np.newaxis])
     ]
     if sigma2_noise is not None:
         qr_points.append(sigma2_noise.T)
     sigma2 = qr(np.hstack(qr_points).T)
-    # sigma2 = cholupdate(sigma2, points[0] - mu, weights_sigma[0])
+    # the weight of the central point may be negative
+    sigma2 = cholupdate(sigma2, points[0] - mu, weights_sigma[0])
     return Moments(mu.ravel(), sigma2)
 
 
-- 
2.43.0


From a0a9472af1aecf99ca9d10649742dc5c4a564c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:30 +0000
Subject: [PATCH 12/14] fix: square root UKF smoother factorized a singular
 covariance

---
 pykalman/sqrt/unscented.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 90d2401..0ea497f 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -544,8 +544,12 @@ def _additive_unscented_smoother(mu_filt, sigma2_filt, f, Q):
         mu_smooth[t] = mu_filt[t] + smoother_gain.dot(
             mu_smooth[t + 1] - moments_pred.mean
         )
-        U = cholupdate(moments_pred.covariance, sigma2_smooth[t + 1], -1.0)
-        sigma2_smooth[t] = cholupdate(sigma2_filt[t], smoother_gain.dot(U.T).T, -1.0)
+        U = cholupdate(
+            sigma2_filt[t], smoother_gain.dot(moments_pred.covariance.T).T, -1.0
+        )
+        sigma2_smooth[t] = cholupdate(
+            U, smoother_gain.dot(sigma2_smooth[t + 1].T).T, 1.0
+        )
 
     return (mu_smooth, sigma2_smooth)
 
-- 
2.43.0


From 175892432efe816cad6c95086a7ee3d4d46062c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:59 +0000
Subject: [PATCH 13/14] fix: per-step functions of the unscented filters were
 ignored after the first

---
 pykalman/sqrt/unscented.py | 10 +++++-----
 pykalman/unscented.py      | 28 +++++++++++++++++-----------
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 0ea497f..95d36d1 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -22,9 +22,9 @@ import numpy as np
 from numpy import ma
 from scipy import linalg
 
-from ..standard import _arg_or_default, _last_dims
+from ..standard import _arg_or_default
 from ..unscented import AdditiveUnscentedKalmanFilter as AUKF
-from ..unscented import Moments, SigmaPoints
+from ..unscented import Moments, SigmaPoints, _select_function
 from ..utils import array2d
 
 
@@ -456,14 +456,14 @@ def _additive_unscented_filter(mu_0, sigma_0, f, g, Q, R, Z):
             points_pred = points_state
             moments_pred = points2moments(points_pred)
         else:
-            transition_function = _last_dims(f, t - 1, ndims=1)[0]
+            transition_function = _select_function(f, t - 1)
             (_, moments_pred) = unscented_filter_predict(
                 transition_function, points_state, sigma2_transition=Q2
             )
             points_pred = moments2points(moments_pred)
 
         # Calculate E[z_t | z_{0:t-1}], Var(z_t | z_{0:t-1})
-        observation_function = _last_dims(g, t, ndims=1)[0]
+        observation_function = _select_function(g, t)
         mu_filt[t], sigma2_filt[t] = unscented_filter_correct(
             observation_function, moments_pred, points_pred, Z[t], sigma2_observation=R2
         )
@@ -515,7 +515,7 @@ def _additive_unscented_smoother(mu_filt, sigma2_filt, f, Q):
         points_state = moments2points(moments_state)
 
         # compute E[x_{t+1} | z_{0:t}], Var(x_{t+1} | z_{0:t})
-        transition_function = _last_dims(f, t, ndims=1)[0]
+        transition_function = _select_function(f, t)
         (points_pred, moments_pred) = _unscented_transform(
             points_state, transition_function, sigma2_noise=Q2
         )
diff --git a/pykalman/unscented.py b/pykalman/unscented.py
index 56c4cb0..d599675 100644
--- a/pykalman/unscented.py
+++ b/pykalman/unscented.py
@@ -14,7 +14,7 @@ import numpy as np
 from numpy import ma
 from scipy import linalg
 
-from .standard import _arg_or_default, _determine_dimensionality, _last_dims
+from .standard import _arg_or_default, _determine_dimensionality
 from .utils import (
     array1d,
     array2d,
@@ -35,6 +35,12 @@ SigmaPoints = namedtuple(
 Moments = namedtuple("Moments", ["mean", "covariance"])
 
 
+def _select_function(functions, t):
+    """Get the function for time `t` from one function or an array of them."""
+    functions = np.ravel(functions)
+    return functions[t] if len(functions) > 1 else functions[0]
+
+
 def points2moments(points, sigma_noise=None):
     """Calculate estimated mean and covariance of sigma points.
 
@@ -452,13 +458,13 @@ def augmented_unscented_filter(mu_0, sigma_0, f, g, Q, R, Z):
             points_pred = points_state
             moments_pred = points2moments(points_pred)
         else:
-            transition_function = _last_dims(f, t - 1, ndims=1)[0]
+            transition_function = _select_function(f, t - 1)
             (points_pred, moments_pred) = unscented_filter_predict(
                 transition_function, points_state, points_transition=points_transition
             )
 
         # Calculate E[z_t | z_{0:t-1}], Var(z_t | z_{0:t-1})
-        observation_function = _last_dims(g, t, ndims=1)[0]
+        observation_function = _select_function(g, t)
         mu_filt[t], sigma_filt[t] = unscented_filter_correct(
             observation_function,
             moments_pred,
@@ -516,7 +522,7 @@ def augmented_unscented_smoother(mu_filt, sigma_filt, f, Q):
         )
 
         # compute E[x_{t+1} | z_{0:t}], Var(x_{t+1} | z_{0:t})
-        f_t = _last_dims(f, t, ndims=1)[0]
+        f_t = _select_function(f, t)
         (points_pred, moments_pred) = unscented_transform(
             points_state, f_t, points_noise=points_transition
         )
@@ -592,14 +598,14 @@ def additive_unscented_filter(mu_0, sigma_0, f, g, Q, R, Z):
             points_pred = points_state
             moments_pred = points2moments(points_pred)
         else:
-            transition_function = _last_dims(f, t - 1, ndims=1)[0]
+            transition_function = _select_function(f, t - 1)
             (_, moments_pred) = unscented_filter_predict(
                 transition_function, points_state, sigma_transition=Q
             )
             points_pred = moments2points(moments_pred)
 
         # Calculate E[x_t | z_{0:t}], Var(x_t | z_{0:t})
-        observation_function = _last_dims(g, t, ndims=1)[0]
+        observation_function = _select_function(g, t)
         mu_filt[t], sigma_filt[t] = unscented_filter_correct(
             observation_function, moments_pred, points_pred, Z[t], sigma_observation=R
         )
@@ -650,7 +656,7 @@ def additive_unscented_smoother(mu_filt, sigma_filt, f, Q):
         points_state = moments2points(moments_state)
 
         # compute E[x_{t+1} | z_{0:t}], Var(x_{t+1} | z_{0:t})
-        f_t = _last_dims(f, t, ndims=1)[0]
+        f_t = _select_function(f, t)
         (points_pred, moments_pred) = unscented_transform(
             points_state, f_t, sigma_noise=Q
         )
@@ -847,12 +853,12 @@ class UnscentedKalmanFilter(UnscentedMixin):
             if t == 0:
                 x[0] = initial_state
             else:
-                transition_func = _last_dims(transition_functions, t - 1, ndims=1)[0]
+                transition_func = _select_function(transition_functions, t - 1)
                 cov = newbyteorder(transition_covariance, "=")
                 transition_noise = rng.multivariate_normal(np.zeros(n_dim_state), cov)
                 x[t] = transition_func(x[t - 1], transition_noise)
 
-            observation_function = _last_dims(observation_functions, t, ndims=1)[0]
+            observation_function = _select_function(observation_functions, t)
             cov = newbyteorder(observation_covariance, "=")
             observation_noise = rng.multivariate_normal(np.zeros(n_dim_obs), cov)
             z[t] = observation_function(x[t], observation_noise)
@@ -1163,12 +1169,12 @@ class AdditiveUnscentedKalmanFilter(UnscentedMixin):
             if t == 0:
                 x[0] = initial_state
             else:
-                transition_func = _last_dims(transition_functions, t - 1, ndims=1)[0]
+                transition_func = _select_function(transition_functions, t - 1)
                 cov = newbyteorder(transition_covariance, "=")
                 transition_noise = rng.multivariate_normal(np.zeros(n_dim_state), cov)
                 x[t] = transition_func(x[t - 1]) + transition_noise
 
-            observation_function = _last_dims(observation_functions, t, ndims=1)[0]
+            observation_function = _select_function(observation_functions, t)
             cov = newbyteorder(observation_covariance, "=")
             observation_noise = rng.multivariate_normal(np.zeros(n_dim_obs), cov)
             z[t] = observation_function(x[t]) + observation_noise
-- 
2.43.0


From 3beb5860e4add9dcc399f2a6cff8c2adb66d5d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:02 +0000
Subject: [PATCH 14/14] fix: UDU' factorization truncated integer covariances

---
 pykalman/sqrt/bierman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykalman/sqrt/bierman.py b/pykalman/sqrt/bierman.py
index 7049ace..95ec09f 100644
--- a/pykalman/sqrt/bierman.py
+++ b/pykalman/sqrt/bierman.py
@@ -71,7 +71,7 @@ def udu(M):
     n = M.shape[0]
 
     # perform Bierman's COV2UD subroutine (fucking inclusive indices)
-    M = np.triu(M)
+    M = np.triu(M).astype(float)
     U = np.eye(n)
     d = np.zeros(n)
     for j in reversed(range(2, n + 1)):
-- 
2.43.0

