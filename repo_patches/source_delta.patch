From 50ccdba97bd4e0c50e83a92bd753c2cd227285d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:26 +0000
Subject: [PATCH 01/51] fix: start from the configured start after a DMP reset

reset() copied the current start into the internal state but kept the DMP
marked as initialized. A start_y or start_yd that was configured after the
reset was ignored by the next step.
---
 movement_primitives/dmp/_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/movement_primitives/dmp/_base.py b/movement_primitives/dmp/_base.py
index 2bfa240..0d4d1a7 100644
--- a/movement_primitives/dmp/_base.py
+++ b/movement_primitives/dmp/_base.py
@@ -24,6 +24,7 @@ class DMPBase(PointToPointMovement):
         self.last_t = None
         self.current_y = np.copy(self.start_y)
         self.current_yd = np.copy(self.start_yd)
+        self.initialized = False
 
 
 class WeightParametersMixin:
-- 
2.43.0


From b5f38acd67cb1f8cbe073c6fe3d5f74fe361386e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:26 +0000
Subject: [PATCH 02/51] fix: apply coupling velocity like the compiled Euler
 integrator

The Python Euler integrator of the DMP added the velocity of the coupling
term after the position update, and dropped the velocity of precomputed
coupling terms. The compiled version adds both before the position update,
so that 'euler' and 'euler-cython' produced different trajectories.
---
 movement_primitives/dmp/_dmp.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/movement_primitives/dmp/_dmp.py b/movement_primitives/dmp/_dmp.py
index 99ceec8..d959f35 100644
--- a/movement_primitives/dmp/_dmp.py
+++ b/movement_primitives/dmp/_dmp.py
@@ -308,7 +308,7 @@ def dmp_step_euler(
                 cd += coupling_term_precomputed[0]
                 cdd += coupling_term_precomputed[1]
         else:
-            cd, cdd = None, None
+            cd, cdd = coupling_term.coupling(current_y, current_yd)
         z = forcing_term.phase(current_t)
         f = forcing_term.forcing_term(z).squeeze()
         tdd = p_gain * tracking_error / dt
@@ -317,13 +317,9 @@ def dmp_step_euler(
             current_y, current_yd, cdd, alpha_y, beta_y, goal_y, goal_yd,
             goal_ydd, start_y, z, execution_time, f, coupling_term, tdd,
             smooth_scaling)
-        current_yd += dt * ydd
+        current_yd += dt * ydd + cd / execution_time
         current_y += dt * current_yd
 
-        if coupling_term is not None:
-            cd, _ = coupling_term.coupling(current_y, current_yd)
-            current_yd += cd / execution_time
-
 
 DMP_STEP_FUNCTIONS = {
     "rk4": dmp_step_rk4,
-- 
2.43.0


From 96272f2fae353228a9804dd56a895157d70455df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:56 +0000
Subject: [PATCH 03/51] fix: start rollouts with the configured start velocity

open_loop() of DMP, CartesianDMP and the spring-damper systems always began
with zero velocity, even if a start velocity had been configured. The rollout
did not show the motion that step() executes. DualCartesianDMP and
DMPWithFinalVelocity already respect the start velocity.
---
 movement_primitives/dmp/_cartesian_dmp.py | 14 ++++++++++----
 movement_primitives/dmp/_dmp.py           |  3 ++-
 movement_primitives/spring_damper.py      | 14 ++++++++------
 3 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/movement_primitives/dmp/_cartesian_dmp.py b/movement_primitives/dmp/_cartesian_dmp.py
index 0182b46..1303487 100644
--- a/movement_primitives/dmp/_cartesian_dmp.py
+++ b/movement_primitives/dmp/_cartesian_dmp.py
@@ -374,7 +374,8 @@ class CartesianDMP(DMPBase):
             coupling_term,
             run_t, self.int_dt,
             step_function=step_function,
-            smooth_scaling=self.smooth_scaling)
+            smooth_scaling=self.smooth_scaling,
+            start_yd=self.start_yd[:3])
         try:
             quaternion_step_function = CARTESIAN_DMP_STEP_FUNCTIONS[
                 quaternion_step_function]
@@ -390,7 +391,8 @@ class CartesianDMP(DMPBase):
             coupling_term,
             run_t, self.int_dt,
             quaternion_step_function,
-            self.smooth_scaling)
+            self.smooth_scaling,
+            start_yd=self.start_yd[3:])
         return T, np.hstack((Yp, Yr))
 
     def imitate(self, T, Y, regularization_coefficient=0.0,
@@ -633,7 +635,7 @@ def dmp_open_loop_quaternion(
         coupling_term=None, run_t=None, int_dt=0.001,
         quaternion_step_function=CARTESIAN_DMP_STEP_FUNCTIONS[
             DEFAULT_CARTESIAN_DMP_STEP_FUNCTION],
-        smooth_scaling=False):
+        smooth_scaling=False, start_yd=None):
     """Run Cartesian DMP without external feedback.
 
     Parameters
@@ -680,6 +682,9 @@ def dmp_open_loop_quaternion(
         is changed and the trajectory is scaled by interpolating between
         the old and new scaling of the trajectory.
 
+    start_yd : array, shape (3,), optional (default: zeros)
+        Start angular velocity.
+
     Returns
     -------
     T : array, shape (n_steps,)
@@ -690,7 +695,8 @@ def dmp_open_loop_quaternion(
     """
     goal_yd = np.zeros(3)
     goal_ydd = np.zeros(3)
-    start_yd = np.zeros(3)
+    if start_yd is None:
+        start_yd = np.zeros(3)
     start_ydd = np.zeros(3)
 
     if run_t is None:
diff --git a/movement_primitives/dmp/_dmp.py b/movement_primitives/dmp/_dmp.py
index d959f35..aecf1b2 100644
--- a/movement_primitives/dmp/_dmp.py
+++ b/movement_primitives/dmp/_dmp.py
@@ -543,7 +543,8 @@ class DMP(WeightParametersMixin, DMPBase):
             coupling_term,
             run_t, self.int_dt,
             step_function,
-            smooth_scaling=self.smooth_scaling)
+            smooth_scaling=self.smooth_scaling,
+            start_yd=self.start_yd)
 
     def imitate(self, T, Y, regularization_coefficient=0.0,
                 allow_final_velocity=False):
diff --git a/movement_primitives/spring_damper.py b/movement_primitives/spring_damper.py
index 66f9869..c138d38 100644
--- a/movement_primitives/spring_damper.py
+++ b/movement_primitives/spring_damper.py
@@ -110,7 +110,8 @@ class SpringDamper(PointToPointMovement):
             self.start_y, self.goal_y,
             self.k, self.c,
             coupling_term,
-            run_t, self.int_dt)
+            run_t, self.int_dt,
+            start_yd=self.start_yd)
 
 
 class SpringDamperOrientation(PointToPointMovement):
@@ -212,7 +213,8 @@ class SpringDamperOrientation(PointToPointMovement):
             self.start_y, self.goal_y,
             self.k, self.c,
             coupling_term,
-            run_t, self.int_dt)
+            run_t, self.int_dt,
+            start_yd=self.start_yd)
 
 
 def spring_damper_step(
@@ -282,9 +284,9 @@ def spring_damper_step_quaternion(
 
 def spring_damper_open_loop(
         dt, start_y, goal_y, k=1.0, c=None, coupling_term=None, run_t=1.0,
-        int_dt=0.001):
+        int_dt=0.001, start_yd=None):
     y = np.copy(start_y)
-    yd = np.zeros_like(start_y)
+    yd = np.zeros_like(start_y) if start_yd is None else np.copy(start_yd)
 
     T = np.arange(0.0, run_t + dt, dt)
     Y = np.empty((len(T), len(y)))
@@ -299,9 +301,9 @@ def spring_damper_open_loop(
 
 def spring_damper_open_loop_quaternion(
         dt, start_y, goal_y, k=1.0, c=None, coupling_term=None, run_t=1.0,
-        int_dt=0.001):
+        int_dt=0.001, start_yd=None):
     y = np.copy(start_y)
-    yd = np.zeros(3)
+    yd = np.zeros(3) if start_yd is None else np.copy(start_yd)
 
     T = np.arange(0.0, run_t + dt, dt)
     Y = np.empty((len(T), len(y)))
-- 
2.43.0


From fdf422c5bea0af18f275193bc708739cf84d70c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:56 +0000
Subject: [PATCH 04/51] fix: use gains of the right dimension for smooth
 scaling of dual DMP

The smoothing term of the position dimensions indexed beta_y, which has 12
entries, with indices of the 14-dimensional pose. The second arm used gains of
other dimensions.
---
 movement_primitives/dmp/_dual_cartesian_dmp.py | 2 +-
 movement_primitives/dmp_fast.pyx               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/movement_primitives/dmp/_dual_cartesian_dmp.py b/movement_primitives/dmp/_dual_cartesian_dmp.py
index ed05aac..71ef423 100644
--- a/movement_primitives/dmp/_dual_cartesian_dmp.py
+++ b/movement_primitives/dmp/_dual_cartesian_dmp.py
@@ -117,7 +117,7 @@ def dmp_step_dual_cartesian_python(
                     tracking_error[ops]) / dt
 
         if smooth_scaling:
-            smoothing = beta_y[pps] * (goal_y[pps] - start_y[pps]) * z
+            smoothing = beta_y[pvs] * (goal_y[pps] - start_y[pps]) * z
         else:
             smoothing = 0.0
 
diff --git a/movement_primitives/dmp_fast.pyx b/movement_primitives/dmp_fast.pyx
index 55743f2..e122b45 100644
--- a/movement_primitives/dmp_fast.pyx
+++ b/movement_primitives/dmp_fast.pyx
@@ -638,7 +638,7 @@ cpdef dmp_step_dual_cartesian(
         # position components
         for pps, pvs in POS_INDICES:
             if smooth_scaling:
-                smoothing_pos = beta_y[pps] * (goal_y[pps] - start_y[pps]) * z
+                smoothing_pos = beta_y[pvs] * (goal_y[pps] - start_y[pps]) * z
             else:
                 smoothing_pos = 0.0
             current_ydd[pvs] = (
-- 
2.43.0


From ea50e03625cb8ea15333bf0378796887dd8f8d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:56 +0000
Subject: [PATCH 05/51] fix: do not accumulate tracking error in Python step of
 dual DMP

Without coupling term, the acceleration correction of the tracking error
controller was added up over all integration steps. The compiled version
starts at zero in each integration step.
---
 movement_primitives/dmp/_dual_cartesian_dmp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/movement_primitives/dmp/_dual_cartesian_dmp.py b/movement_primitives/dmp/_dual_cartesian_dmp.py
index 71ef423..9705391 100644
--- a/movement_primitives/dmp/_dual_cartesian_dmp.py
+++ b/movement_primitives/dmp/_dual_cartesian_dmp.py
@@ -106,6 +106,8 @@ def dmp_step_dual_cartesian_python(
 
         if coupling_term is not None:
             cd[:], cdd[:] = coupling_term.coupling(current_y, current_yd)
+        else:
+            cd[:], cdd[:] = 0.0, 0.0
 
         z = forcing_term.phase(current_t)
         f = forcing_term.forcing_term(z).squeeze()
-- 
2.43.0


From 5d7b7bcbe77ec739ff9d02d8cf7a3e08979b8ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:14 +0000
Subject: [PATCH 06/51] fix: keep state of dual DMP during rollouts

DualCartesianDMP.open_loop() executed step() on the DMP itself. It changed the
time and state of an ongoing execution, and with p_gain > 0 a second rollout
differed from the first one because of the tracking error with respect to the
final state of the previous rollout.
---
 movement_primitives/dmp/_dual_cartesian_dmp.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/movement_primitives/dmp/_dual_cartesian_dmp.py b/movement_primitives/dmp/_dual_cartesian_dmp.py
index 9705391..12b7161 100644
--- a/movement_primitives/dmp/_dual_cartesian_dmp.py
+++ b/movement_primitives/dmp/_dual_cartesian_dmp.py
@@ -356,16 +356,24 @@ class DualCartesianDMP(WeightParametersMixin, DMPBase):
 
         if run_t is None:
             run_t = self.execution_time_
+        # the rollout starts from the beginning, but must not interfere with
+        # an ongoing execution
+        state = (self.t, self.last_t, self.current_y, self.current_yd,
+                 self.initialized)
         self.t = 0.0
+        self.initialized = False
         T = [self.t]
         Y = [np.copy(self.start_y)]
         y = np.copy(self.start_y)
         yd = np.copy(self.start_yd)
-        while self.t < run_t:
-            y, yd = self.step(y, yd, coupling_term, step_function)
-            T.append(self.t)
-            Y.append(np.copy(self.current_y))
-        self.t = 0.0
+        try:
+            while self.t < run_t:
+                y, yd = self.step(y, yd, coupling_term, step_function)
+                T.append(self.t)
+                Y.append(np.copy(self.current_y))
+        finally:
+            (self.t, self.last_t, self.current_y, self.current_yd,
+             self.initialized) = state
         return np.array(T), np.vstack(Y)
 
     def imitate(self, T, Y, regularization_coefficient=0.0,
-- 
2.43.0


From 43794d19a6239c07f2a0667647be23d71c228d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:14 +0000
Subject: [PATCH 07/51] fix: place basis functions of forcing term between
 start and goal time

The centers ignored the start time of the forcing term. With a start time
other than zero they did not cover the phase of the motion.
---
 movement_primitives/dmp/_forcing_term.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/movement_primitives/dmp/_forcing_term.py b/movement_primitives/dmp/_forcing_term.py
index 3a88202..d6e983b 100644
--- a/movement_primitives/dmp/_forcing_term.py
+++ b/movement_primitives/dmp/_forcing_term.py
@@ -60,8 +60,7 @@ class ForcingTerm:
         t = start_t
         self.centers[0] = phase(t, self.alpha_z, self.goal_t, self.start_t)
         for i in range(1, self.n_weights_per_dim):
-            # normally lower_border + i * step but lower_border is 0
-            t = i * step
+            t = start_t + i * step
             self.centers[i] = phase(t, self.alpha_z, self.goal_t, self.start_t)
             # Choose width of RBF basis functions automatically so that the
             # RBF centered at one center has value overlap at the next center
-- 
2.43.0


From 55f46fe10791867b71baf06a0b6959bd1ed80b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:14 +0000
Subject: [PATCH 08/51] fix: return copy of weights from get_weights

The returned array was a view on the weights of the forcing term. Weights that
were saved with get_weights() changed with the next set_weights() or imitate(),
and could not be restored.
---
 movement_primitives/dmp/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movement_primitives/dmp/_base.py b/movement_primitives/dmp/_base.py
index 0d4d1a7..4259bf8 100644
--- a/movement_primitives/dmp/_base.py
+++ b/movement_primitives/dmp/_base.py
@@ -42,7 +42,7 @@ class WeightParametersMixin:
         weights : array, shape (N * n_weights_per_dim,)
             Current weights of the DMP. N depends on the type of DMP
         """
-        return self.forcing_term.weights_.ravel()
+        return np.ravel(self.forcing_term.weights_).copy()
 
     def set_weights(self, weights):
         """Set weight vector of DMP.
-- 
2.43.0


From 54e379d98c136f82bc30ce968fbbb8532dda9455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:54 +0000
Subject: [PATCH 09/51] fix: return copies of the state from
 StateFollowingDMP.step

The internal buffers were returned, so that results of previous steps changed
with each further step.
---
 movement_primitives/dmp/_state_following_dmp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movement_primitives/dmp/_state_following_dmp.py b/movement_primitives/dmp/_state_following_dmp.py
index 00cb73a..4177e2c 100644
--- a/movement_primitives/dmp/_state_following_dmp.py
+++ b/movement_primitives/dmp/_state_following_dmp.py
@@ -60,7 +60,7 @@ class StateFollowingDMP(WeightParametersMixin, DMPBase):
             forcing_term=self.forcing_term,
             coupling_term=coupling_term,
             int_dt=self.int_dt)
-        return self.current_y, self.current_yd
+        return np.copy(self.current_y), np.copy(self.current_yd)
 
     def open_loop(self, run_t=None, coupling_term=None):
         return state_following_dmp_open_loop(
-- 
2.43.0


From 079623c1021f5d0df49496ef235b4d7d3481a490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:54 +0000
Subject: [PATCH 10/51] fix: initialize basis function width of single viapoint

With only one viapoint there is no neighboring basis function that defines the
width. Uninitialized memory was used instead.
---
 movement_primitives/dmp/_state_following_dmp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movement_primitives/dmp/_state_following_dmp.py b/movement_primitives/dmp/_state_following_dmp.py
index 4177e2c..ac24a36 100644
--- a/movement_primitives/dmp/_state_following_dmp.py
+++ b/movement_primitives/dmp/_state_following_dmp.py
@@ -94,7 +94,7 @@ class StateFollowingForcingTerm:
         self.log_overlap = float(-math.log(self.overlap))
         self.execution_time = self.goal_t - self.start_t
         self.centers = np.empty(n_viapoints)
-        self.widths = np.empty(n_viapoints)
+        self.widths = np.zeros(n_viapoints)
         step = self.execution_time / self.n_viapoints
         # do first iteration outside loop because we need access to i and i - 1
         # in loop
-- 
2.43.0


From 6f2e78ccf356cd01ee86feba7dc32f5d66ff78e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:54 +0000
Subject: [PATCH 11/51] fix: start rollouts of StateFollowingDMP with
 configured velocity

As for the other DMPs, open_loop() should show the motion that step() executes
from the configured start.
---
 movement_primitives/dmp/_state_following_dmp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/movement_primitives/dmp/_state_following_dmp.py b/movement_primitives/dmp/_state_following_dmp.py
index ac24a36..4202e11 100644
--- a/movement_primitives/dmp/_state_following_dmp.py
+++ b/movement_primitives/dmp/_state_following_dmp.py
@@ -66,7 +66,7 @@ class StateFollowingDMP(WeightParametersMixin, DMPBase):
         return state_following_dmp_open_loop(
             self.execution_time, 0.0, self.dt_, self.start_y, self.goal_y,
             self.alpha_y, self.beta_y, self.forcing_term, coupling_term, run_t,
-            self.int_dt)
+            self.int_dt, start_yd=self.start_yd)
 
     def imitate(self, T, Y, regularization_coefficient=0.0,
                 allow_final_velocity=False):
@@ -169,10 +169,10 @@ def state_following_dmp_step(
 
 def state_following_dmp_open_loop(
         goal_t, start_t, dt, start_y, goal_y, alpha_y, beta_y, forcing_term,
-        coupling_term=None, run_t=None, int_dt=0.001):
+        coupling_term=None, run_t=None, int_dt=0.001, start_yd=None):
     t = start_t
     y = np.copy(start_y)
-    yd = np.zeros_like(y)
+    yd = np.zeros_like(y) if start_yd is None else np.copy(start_yd)
     T = [start_t]
     Y = [np.copy(y)]
     if run_t is None:
-- 
2.43.0


From 70dec666122112956b5d2ccff02655ca1a4de946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:05 +0000
Subject: [PATCH 12/51] fix: do not normalize the times of the caller in place

ProMP divided the array of time steps it was given by its maximum in place.
The times of the caller changed, and integer times raised an error.
---
 movement_primitives/promp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/movement_primitives/promp.py b/movement_primitives/promp.py
index 9ab997d..fdca912 100644
--- a/movement_primitives/promp.py
+++ b/movement_primitives/promp.py
@@ -493,7 +493,7 @@ class ProMP:
 
         # normalize time to interval [0, 1]
         T = np.atleast_2d(T)
-        T /= np.max(T)
+        T = T / np.max(T)
 
         activations = np.exp(
             -(T - self.centers[:, np.newaxis]) ** 2 / (2.0 * h))
@@ -555,7 +555,7 @@ class ProMP:
 
         # normalize time to interval [0, 1]
         T = np.atleast_2d(T)
-        T /= np.max(T)
+        T = T / np.max(T)
 
         rbfs_deriv = (self.centers[:, np.newaxis] - T) / h
         rbfs_deriv *= rbfs
-- 
2.43.0


From dbd26e9d62307fe1bfe09951dee82de1d2cc7fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:05 +0000
Subject: [PATCH 13/51] fix: reach goal of minimum jerk trajectory despite
 rounding errors

If execution_time / dt was slightly below an integer because of rounding, for
instance 0.3 / 0.1, the last part of the trajectory was missing and the goal
was not reached.
---
 movement_primitives/data/_minimum_jerk.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/movement_primitives/data/_minimum_jerk.py b/movement_primitives/data/_minimum_jerk.py
index 6c4dbed..cf21bac 100644
--- a/movement_primitives/data/_minimum_jerk.py
+++ b/movement_primitives/data/_minimum_jerk.py
@@ -56,7 +56,9 @@ def generate_minimum_jerk(start, goal, execution_time=1.0, dt=0.01):
                          % (x0.shape, g.shape))
 
     n_dims = x0.shape[0]
-    n_steps = 1 + int(execution_time / dt)
+    # tolerate rounding errors, e.g., in 0.3 / 0.1
+    eps = 1e-6 * dt
+    n_steps = 1 + int((execution_time + eps) / dt)
 
     X = np.zeros((n_steps, n_dims))
     Xd = np.zeros((n_steps, n_dims))
@@ -70,7 +72,7 @@ def generate_minimum_jerk(start, goal, execution_time=1.0, dt=0.01):
     for t in range(1, n_steps):
         tau = execution_time - t * dt
 
-        if tau >= dt:
+        if tau >= dt - eps:
             dist = g - x
 
             a1 = 0
-- 
2.43.0


From 23392722f3be6d9e44f0b549ebd84b6f36f005fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:05 +0000
Subject: [PATCH 14/51] fix: write numpy scalars as basic types to YAML and
 JSON

Parameters are often numpy scalars, e.g., execution_time=T[-1]. They could not
be written, or the written YAML file could not be read again.
---
 movement_primitives/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/movement_primitives/io.py b/movement_primitives/io.py
index b66f1d9..9d22e7d 100644
--- a/movement_primitives/io.py
+++ b/movement_primitives/io.py
@@ -119,6 +119,8 @@ def read_json(filename):
 def _recursive_to_dict(obj, convert_tuple=False):
     result = {"module": obj.__module__, "class": obj.__class__.__name__}
     for k, v in obj.__dict__.items():
+        if isinstance(v, np.generic):
+            v = v.item()
         if convert_tuple and isinstance(v, tuple):
             result[k] = list(v)
         elif isinstance(v, basic_types_and_sequences):
-- 
2.43.0


From d8dd81f492630743093283649f08d57957e93a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:05 +0000
Subject: [PATCH 15/51] fix: seed default random state of toy data in each call

The default random state was created once and shared by all calls, so that
the result depended on previous calls instead of the documented seed 0.
---
 movement_primitives/data/_toy_1d.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/movement_primitives/data/_toy_1d.py b/movement_primitives/data/_toy_1d.py
index d93fe03..184921c 100644
--- a/movement_primitives/data/_toy_1d.py
+++ b/movement_primitives/data/_toy_1d.py
@@ -3,7 +3,7 @@ import numpy as np
 
 def generate_1d_trajectory_distribution(
         n_demos, n_steps, initial_offset_range=3.0, final_offset_range=0.1,
-        noise_per_step_range=20.0, random_state=np.random.RandomState(0)):
+        noise_per_step_range=20.0, random_state=None):
     """Generates toy data for testing and demonstration.
 
     Parameters
@@ -34,6 +34,9 @@ def generate_1d_trajectory_distribution(
     Y : array, shape (n_demos, n_steps, 1)
         Demonstrations (positions)
     """
+    if random_state is None:
+        random_state = np.random.RandomState(0)
+
     T = np.linspace(0, 1, n_steps)
     Y = np.empty((n_demos, n_steps, 1))
 
-- 
2.43.0


From f7abbe5adaec37b58a506572f16cd1b58e2ba1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:19 +0000
Subject: [PATCH 16/51] fix: respect smooth_scaling in potential field of DMP

The potential field always contained the smoothing term, which is only part of
the dynamics of a DMP with smooth_scaling=True.
---
 movement_primitives/dmp/_dmp.py            | 8 ++++++--
 movement_primitives/dmp_potential_field.py | 3 ++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/movement_primitives/dmp/_dmp.py b/movement_primitives/dmp/_dmp.py
index aecf1b2..e3f5047 100644
--- a/movement_primitives/dmp/_dmp.py
+++ b/movement_primitives/dmp/_dmp.py
@@ -593,13 +593,17 @@ class DMP(WeightParametersMixin, DMPBase):
 
 def dmp_transformation_system(
         Y, V, alpha_y, beta_y, goal_y, goal_yd, goal_ydd, start_y, z,
-        execution_time):
+        execution_time, smooth_scaling=False):
     """Compute acceleration generated by transformation system of DMP."""
+    if smooth_scaling:
+        smoothing = beta_y * (goal_y - start_y) * z
+    else:
+        smoothing = 0.0
     return (
         alpha_y * (
             beta_y * (goal_y - Y)
             + execution_time * (goal_yd - V)
-            - beta_y * (goal_y - start_y) * z
+            - smoothing
         )
     ) / execution_time ** 2 + goal_ydd
 
diff --git a/movement_primitives/dmp_potential_field.py b/movement_primitives/dmp_potential_field.py
index 68171b7..c03b58c 100644
--- a/movement_primitives/dmp_potential_field.py
+++ b/movement_primitives/dmp_potential_field.py
@@ -57,7 +57,8 @@ def potential_field_2d(dmp, x_range, y_range, n_ticks, obstacle=None):
     z = dmp.forcing_term.phase(dmp.t)
     ts = dmp_transformation_system(
         Y, Yd, dmp.alpha_y, dmp.beta_y, dmp.goal_y, dmp.goal_yd, dmp.goal_ydd,
-        dmp.start_y, z, dmp.execution_time_)
+        dmp.start_y, z, dmp.execution_time_,
+        smooth_scaling=dmp.smooth_scaling)
     ft = np.empty_like(ts)
     ft[:, :] = (dmp.forcing_term(dmp.t) / dmp.execution_time_ ** 2).ravel()
 
-- 
2.43.0


From 487094b4c44920f8199faa56272747de8db13c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:19 +0000
Subject: [PATCH 17/51] fix: scale coupling term in potential field with
 execution time

The acceleration of a coupling term is divided by the squared execution time
when the DMP is executed, just like the forcing term.
---
 movement_primitives/dmp_potential_field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/movement_primitives/dmp_potential_field.py b/movement_primitives/dmp_potential_field.py
index c03b58c..f8bb59a 100644
--- a/movement_primitives/dmp_potential_field.py
+++ b/movement_primitives/dmp_potential_field.py
@@ -65,7 +65,8 @@ def potential_field_2d(dmp, x_range, y_range, n_ticks, obstacle=None):
     if obstacle is None:
         ct = np.zeros_like(ts)
     else:
-        ct = obstacle_avoidance_acceleration_2d(Y, Yd, obstacle)
+        ct = (obstacle_avoidance_acceleration_2d(Y, Yd, obstacle)
+              / dmp.execution_time_ ** 2)
 
     acc = ft + ts + ct
     return xx, yy, ft, ts, ct, acc
-- 
2.43.0


From d3439a14548c91636544d3077c896252a3a6a726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:18:39 +0000
Subject: [PATCH 18/51] fix: check all arguments of configure before changing
 anything

If one of several arguments had the wrong length, configure() raised an error
but the arguments that were checked before were already set.
---
 movement_primitives/base.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/movement_primitives/base.py b/movement_primitives/base.py
index d9ef74e..b65be6b 100644
--- a/movement_primitives/base.py
+++ b/movement_primitives/base.py
@@ -107,26 +107,29 @@ class PointToPointMovement(abc.ABC):
         ValueError
             If the length of the configured meta parameter is not correct.
         """
+        for var, var_name, expected_length in (
+                (start_y, "start_y", self.n_dims),
+                (start_yd, "start_yd", self.n_vel_dims),
+                (start_ydd, "start_ydd", self.n_vel_dims),
+                (goal_y, "goal_y", self.n_dims),
+                (goal_yd, "goal_yd", self.n_vel_dims),
+                (goal_ydd, "goal_ydd", self.n_vel_dims)):
+            if var is not None:
+                check_1d_array_length(var, var_name, expected_length)
+
         if t is not None:
             self.t = t
-
         if start_y is not None:
-            check_1d_array_length(start_y, "start_y", self.n_dims)
             self.start_y = start_y
         if start_yd is not None:
-            check_1d_array_length(start_yd, "start_yd", self.n_vel_dims)
             self.start_yd = start_yd
         if start_ydd is not None:
-            check_1d_array_length(start_ydd, "start_ydd", self.n_vel_dims)
             self.start_ydd = start_ydd
         if goal_y is not None:
-            check_1d_array_length(goal_y, "goal_y", self.n_dims)
             self.goal_y = goal_y
         if goal_yd is not None:
-            check_1d_array_length(goal_yd, "goal_yd", self.n_vel_dims)
             self.goal_yd = goal_yd
         if goal_ydd is not None:
-            check_1d_array_length(goal_ydd, "goal_ydd", self.n_vel_dims)
             self.goal_ydd = goal_ydd
 
     @abc.abstractmethod
-- 
2.43.0


From 8e8e75d6f8c9c1478b51d7a89f13501d8a8e2104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:44:36 +0000
Subject: [PATCH 19/51] fix: via_points handles covariances of
 multi-dimensional positions

---
 movement_primitives/promp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/movement_primitives/promp.py b/movement_primitives/promp.py
index fdca912..dcfccab 100644
--- a/movement_primitives/promp.py
+++ b/movement_primitives/promp.py
@@ -645,10 +645,10 @@ def via_points(promp, ts, y_cond, y_conditional_cov=None):
         Time vector at which the activations of RBFs will be queried. Note that
         we internally normalize the time so that t_max == 1.
 
-    y_cond : array, shape (n_positions,)
+    y_cond : array, shape (n_positions,) or (n_positions, n_dims)
         Desired mean position vector corresponding to each time in `ts`.
 
-    y_conditional_cov : array, shape (n_dims, n_dims), optional (default: 0)
+    y_conditional_cov : array, shape (n_positions,) or (n_positions, n_dims, n_dims), optional (default: 0)
         Covariances of desired positions.
 
     Returns
@@ -670,7 +670,7 @@ def via_points(promp, ts, y_cond, y_conditional_cov=None):
     for idx, t_i in enumerate(ts):
         promp = promp.condition_position(
             y_mean=y_cond[idx],
-            y_cov=y_conditional_cov[[idx]],
+            y_cov=y_conditional_cov[idx],
             t=t_i,
             t_max=1.0
         )
-- 
2.43.0


From 77f31b9a4e2b017df65ad7836f6768efac8e6cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:41 +0000
Subject: [PATCH 20/51] fix: keep observation variance positive when ProMP
 demonstrations are fitted exactly

---
 movement_primitives/promp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/movement_primitives/promp.py b/movement_primitives/promp.py
index dcfccab..e50f9bb 100644
--- a/movement_primitives/promp.py
+++ b/movement_primitives/promp.py
@@ -600,6 +600,8 @@ class ProMP:
         # TODO why these factors?
         self.variance /= (np.linalg.norm(means) * M * self.n_dims * n_samples
                           + 2.0)
+        # might become zero or negative because of rounding errors
+        self.variance = max(self.variance, np.finfo(float).eps)
         #self.variance /= self.n_dims * n_samples + 2.0
 
 
-- 
2.43.0


From e1d4705a54ae0e8f829ca11a09a63708baddf94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:52:37 +0000
Subject: [PATCH 21/51] fix: avoid NaN in obstacle avoidance when moving
 straight towards or away from the obstacle

---
 movement_primitives/dmp/_coupling_terms.py | 7 ++++---
 movement_primitives/dmp_fast.pyx           | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/movement_primitives/dmp/_coupling_terms.py b/movement_primitives/dmp/_coupling_terms.py
index cdf5085..39fb9da 100644
--- a/movement_primitives/dmp/_coupling_terms.py
+++ b/movement_primitives/dmp/_coupling_terms.py
@@ -55,7 +55,7 @@ def obstacle_avoidance_acceleration_2d(
         theta_nom = theta_nom.reshape(*shape)
     theta_denom = (np.linalg.norm(obstacle_diff, axis=-1)
                    * np.linalg.norm(yd, axis=-1) + EPSILON)
-    theta = np.arccos(theta_nom / theta_denom)
+    theta = np.arccos(np.clip(theta_nom / theta_denom, -1.0, 1.0))
     rotated_velocity = np.einsum(
         "nij,nj->ni", R.reshape(-1, 2, 2), yd.reshape(-1, 2))
     if shape:
@@ -224,9 +224,10 @@ def obstacle_avoidance_acceleration_3d(
     obstacle_diff = obstacle_position - y
     r = 0.5 * np.pi * pr.norm_vector(np.cross(obstacle_diff, yd))
     R = pr.matrix_from_compact_axis_angle(r)
-    theta = np.arccos(
+    theta = np.arccos(np.clip(
         np.dot(obstacle_diff, yd)
-        / (np.linalg.norm(obstacle_diff) * np.linalg.norm(yd) + EPSILON))
+        / (np.linalg.norm(obstacle_diff) * np.linalg.norm(yd) + EPSILON),
+        -1.0, 1.0))
     cdd = gamma * np.dot(R, yd) * theta * np.exp(-beta * theta)
     return cdd
 
diff --git a/movement_primitives/dmp_fast.pyx b/movement_primitives/dmp_fast.pyx
index e122b45..45267ed 100644
--- a/movement_primitives/dmp_fast.pyx
+++ b/movement_primitives/dmp_fast.pyx
@@ -874,7 +874,7 @@ cpdef obstacle_avoidance_acceleration_2d(
     cdef double obstacle_diff_norm = sqrt(obstacle_diff[0] * obstacle_diff[0] + obstacle_diff[1] * obstacle_diff[1])
     cdef double yd_norm = sqrt(yd[0] * yd[0] + yd[1] * yd[1])
     cdef double theta_denom = obstacle_diff_norm * yd_norm + EPSILON
-    cdef double theta = acos(theta_nom / theta_denom)
+    cdef double theta = acos(max(-1.0, min(1.0, theta_nom / theta_denom)))
     cdef np.ndarray[double, ndim=1] rotated_velocity = np.dot(R, yd)
     cdef np.ndarray[double, ndim=1] cdd = gamma * rotated_velocity * (theta * exp(-beta * theta))
     return cdd
-- 
2.43.0


From d2ea85be471f01636ef426e5e5b3f96b57fb119f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:52:58 +0000
Subject: [PATCH 22/51] fix: avoid division by zero in distance coupling of
 coinciding positions

---
 movement_primitives/dmp/_coupling_terms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/movement_primitives/dmp/_coupling_terms.py b/movement_primitives/dmp/_coupling_terms.py
index 39fb9da..f9aeec8 100644
--- a/movement_primitives/dmp/_coupling_terms.py
+++ b/movement_primitives/dmp/_coupling_terms.py
@@ -388,8 +388,8 @@ class CouplingTermDualCartesianDistance:
 
     def coupling(self, y, yd=None):
         actual_distance = y[:3] - y[7:10]
-        desired_distance = (np.abs(self.desired_distance) * actual_distance
-                            / np.linalg.norm(actual_distance))
+        desired_distance = (np.abs(self.desired_distance)
+                            * pr.norm_vector(actual_distance))
         F12 = self.k * (desired_distance - actual_distance)
         F21 = -F12
         C12 = self.c1 * F12 * self.lf[0]
-- 
2.43.0


From ef372601a319b67dbb515f683a6bd934048c8c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:58:24 +0000
Subject: [PATCH 23/51] fix: interpolate relative orientations of coupling term
 with matching quaternion signs

---
 movement_primitives/dmp/_coupling_terms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/movement_primitives/dmp/_coupling_terms.py b/movement_primitives/dmp/_coupling_terms.py
index f9aeec8..5d1fc94 100644
--- a/movement_primitives/dmp/_coupling_terms.py
+++ b/movement_primitives/dmp/_coupling_terms.py
@@ -579,6 +579,9 @@ class CouplingTermDualCartesianTrajectory(CouplingTermDualCartesianPose):
         distance = np.empty((len(Y), 7))
         for t in range(len(Y)):
             distance[t] = self._right2left_pq(Y[t])
+            # interpolate between quaternions with matching signs
+            if t > 0 and np.dot(distance[t, 3:], distance[t - 1, 3:]) < 0.0:
+                distance[t, 3:] *= -1.0
         self.desired_distance_per_dimension = [
             interp1d(T, distance[:, d], bounds_error=False,
                      fill_value="extrapolate")
-- 
2.43.0


From 823bc531eea3c59f0d14dff1c5cb5dbfd6752508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:05 +0000
Subject: [PATCH 24/51] fix: compute pose distance of half turns despite
 rounding errors

---
 movement_primitives/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movement_primitives/kinematics.py b/movement_primitives/kinematics.py
index a96015d..4f44bdd 100644
--- a/movement_primitives/kinematics.py
+++ b/movement_primitives/kinematics.py
@@ -496,7 +496,7 @@ def pose_dist(
     ee_actual2ee_desired = np.linalg.inv(ee2base_actual).dot(ee2base_desired)
     trace = (ee_actual2ee_desired[0, 0] + ee_actual2ee_desired[1, 1]
              + ee_actual2ee_desired[2, 2])
-    angle = math.acos(min((trace - 1.0) / 2.0, 1.0))
+    angle = math.acos(max(min((trace - 1.0) / 2.0, 1.0), -1.0))
     orientation_error = min(angle, 2.0 * math.pi - angle)
     position_error = math.sqrt(
         ee_actual2ee_desired[0, 3] ** 2 + ee_actual2ee_desired[1, 3] ** 2
-- 
2.43.0


From 62a8e971764afbfda73331f3fde871259bdfd79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:05 +0000
Subject: [PATCH 25/51] fix: search for local inverse kinematics solution
 within the interval

---
 movement_primitives/kinematics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/movement_primitives/kinematics.py b/movement_primitives/kinematics.py
index 4f44bdd..bb7fce0 100644
--- a/movement_primitives/kinematics.py
+++ b/movement_primitives/kinematics.py
@@ -383,8 +383,8 @@ class Chain:
         q = joint_angles  # start with previous state
         for _ in range(n_restarts):
             q, error = self.inverse(
-                desired_pose, q, return_error=True, solver=solver,
-                orientation_weight=orientation_weight,
+                desired_pose, q, return_error=True, bounds=bounds,
+                solver=solver, orientation_weight=orientation_weight,
                 position_weight=position_weight)
             Q.append(q)
             errors.append(error)
-- 
2.43.0


From a390a605a375098d9ce4366d4ba03f1f3d8f8d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:05 +0000
Subject: [PATCH 26/51] fix: respect joint limits in local inverse kinematics

---
 movement_primitives/kinematics.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/movement_primitives/kinematics.py b/movement_primitives/kinematics.py
index bb7fce0..27c882e 100644
--- a/movement_primitives/kinematics.py
+++ b/movement_primitives/kinematics.py
@@ -377,9 +377,7 @@ class Chain:
         assert n_restarts >= 1
         Q = []
         errors = []
-        bounds = np.empty((self.n_joints, 2))
-        bounds[:, 0] = joint_angles - interval
-        bounds[:, 1] = joint_angles + interval
+        bounds = self._local_bounds(joint_angles, interval)
         q = joint_angles  # start with previous state
         for _ in range(n_restarts):
             q, error = self.inverse(
@@ -393,6 +391,13 @@ class Chain:
             q = self._sample_joints_uniform(random_state, bounds=bounds)
         return Q[np.argmin(errors)]
 
+    def _local_bounds(self, joint_angles, interval):
+        limits = np.array([self.tm._joints[jn][4] for jn in self.joint_names])
+        bounds = np.empty((self.n_joints, 2), dtype=float)
+        bounds[:, 0] = joint_angles - interval
+        bounds[:, 1] = joint_angles + interval
+        return np.clip(bounds, limits[:, :1], limits[:, 1:])
+
     def _sample_joints_uniform(self, random_state, bounds=None):
         if bounds is None:
             bounds = self.joint_limits
@@ -480,9 +485,7 @@ class Chain:
                     orientation_weight=orientation_weight,
                     position_weight=position_weight)
             else:
-                bounds = np.empty((self.n_joints, 2), dtype=float)
-                bounds[:, 0] = Q[t - 1] - interval
-                bounds[:, 1] = Q[t - 1] + interval
+                bounds = self._local_bounds(Q[t - 1], interval)
                 Q[t] = self.inverse(
                     H[t], Q[t - 1], False, bounds, solver=solver,
                     orientation_weight=orientation_weight,
-- 
2.43.0


From cb2c4370555c19d4915cbfc337cd8510dbde9763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:01:05 +0000
Subject: [PATCH 27/51] fix: use requested solver in inverse_trajectory

---
 movement_primitives/kinematics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/movement_primitives/kinematics.py b/movement_primitives/kinematics.py
index 27c882e..738d1da 100644
--- a/movement_primitives/kinematics.py
+++ b/movement_primitives/kinematics.py
@@ -467,7 +467,7 @@ class Chain:
 
         if initial_joint_angles is None:
             Q[0] = self.inverse_with_random_restarts(
-                H[0], random_state=random_state,
+                H[0], random_state=random_state, solver=solver,
                 orientation_weight=orientation_weight,
                 position_weight=position_weight)
         else:
@@ -482,7 +482,7 @@ class Chain:
             if random_restarts:
                 Q[t] = self.local_inverse_with_random_restarts(
                     H[t], Q[t - 1], interval, random_state=random_state,
-                    orientation_weight=orientation_weight,
+                    solver=solver, orientation_weight=orientation_weight,
                     position_weight=position_weight)
             else:
                 bounds = self._local_bounds(Q[t - 1], interval)
-- 
2.43.0


From fb64c268bbd83bab752203a4413aa2a753542268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:19:18 +0000
Subject: [PATCH 28/51] fix: do not normalize quaternions of demonstrations in
 place

---
 movement_primitives/dmp/_cartesian_dmp.py      | 1 +
 movement_primitives/dmp/_dual_cartesian_dmp.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/movement_primitives/dmp/_cartesian_dmp.py b/movement_primitives/dmp/_cartesian_dmp.py
index 1303487..b49089b 100644
--- a/movement_primitives/dmp/_cartesian_dmp.py
+++ b/movement_primitives/dmp/_cartesian_dmp.py
@@ -417,6 +417,7 @@ class CartesianDMP(DMPBase):
         allow_final_velocity : bool, optional (default: False)
             Allow a final velocity.
         """
+        Y = np.copy(Y)  # quaternions will be normalized in place
         self.forcing_term_pos.weights_[:, :] = dmp_imitate(
             T, Y[:, :3],
             n_weights_per_dim=self.n_weights_per_dim,
diff --git a/movement_primitives/dmp/_dual_cartesian_dmp.py b/movement_primitives/dmp/_dual_cartesian_dmp.py
index 12b7161..041a6ad 100644
--- a/movement_primitives/dmp/_dual_cartesian_dmp.py
+++ b/movement_primitives/dmp/_dual_cartesian_dmp.py
@@ -398,6 +398,7 @@ class DualCartesianDMP(WeightParametersMixin, DMPBase):
         allow_final_velocity : bool, optional (default: False)
             Allow a final velocity.
         """
+        Y = np.copy(Y)  # quaternions will be normalized in place
         self.forcing_term.weights_[:3, :] = dmp_imitate(
             T, Y[:, :3],
             n_weights_per_dim=self.n_weights_per_dim,
-- 
2.43.0


From 0f3c555bc3f56979e4a201ebd96b25b87bf27edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:29:54 +0000
Subject: [PATCH 29/51] fix: keep execution time of DMP when an invalid one is
 rejected

---
 movement_primitives/dmp/_cartesian_dmp.py           | 2 ++
 movement_primitives/dmp/_dmp.py                     | 2 ++
 movement_primitives/dmp/_dmp_with_final_velocity.py | 2 ++
 movement_primitives/dmp/_dual_cartesian_dmp.py      | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/movement_primitives/dmp/_cartesian_dmp.py b/movement_primitives/dmp/_cartesian_dmp.py
index b49089b..d5f26d6 100644
--- a/movement_primitives/dmp/_cartesian_dmp.py
+++ b/movement_primitives/dmp/_cartesian_dmp.py
@@ -259,6 +259,8 @@ class CartesianDMP(DMPBase):
         return self._execution_time
 
     def set_execution_time_(self, execution_time):
+        if execution_time <= 0.0:
+            raise ValueError("Execution time must be > 0!")
         self._execution_time = execution_time
         weights_pos = self.forcing_term_pos.weights_
         weights_rot = self.forcing_term_rot.weights_
diff --git a/movement_primitives/dmp/_dmp.py b/movement_primitives/dmp/_dmp.py
index e3f5047..9b44ad8 100644
--- a/movement_primitives/dmp/_dmp.py
+++ b/movement_primitives/dmp/_dmp.py
@@ -432,6 +432,8 @@ class DMP(WeightParametersMixin, DMPBase):
         return self._execution_time
 
     def set_execution_time_(self, execution_time):
+        if execution_time <= 0.0:
+            raise ValueError("Execution time must be > 0!")
         self._execution_time = execution_time
         weights = self.forcing_term.weights_
         self._init_forcing_term()
diff --git a/movement_primitives/dmp/_dmp_with_final_velocity.py b/movement_primitives/dmp/_dmp_with_final_velocity.py
index f3aa026..8d71197 100644
--- a/movement_primitives/dmp/_dmp_with_final_velocity.py
+++ b/movement_primitives/dmp/_dmp_with_final_velocity.py
@@ -84,6 +84,8 @@ class DMPWithFinalVelocity(WeightParametersMixin, DMPBase):
         return self._execution_time
 
     def set_execution_time_(self, execution_time):
+        if execution_time <= 0.0:
+            raise ValueError("Execution time must be > 0!")
         self._execution_time = execution_time
         weights = self.forcing_term.weights_
         self._init_forcing_term()
diff --git a/movement_primitives/dmp/_dual_cartesian_dmp.py b/movement_primitives/dmp/_dual_cartesian_dmp.py
index 041a6ad..3a0bda3 100644
--- a/movement_primitives/dmp/_dual_cartesian_dmp.py
+++ b/movement_primitives/dmp/_dual_cartesian_dmp.py
@@ -261,6 +261,8 @@ class DualCartesianDMP(WeightParametersMixin, DMPBase):
         return self._execution_time
 
     def set_execution_time_(self, execution_time):
+        if execution_time <= 0.0:
+            raise ValueError("Execution time must be > 0!")
         self._execution_time = execution_time
         weights = self.forcing_term.weights_
         self._init_forcing_term()
-- 
2.43.0


From d1944d0a0daa077513e49dcdb289111f4ba5fae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:29:54 +0000
Subject: [PATCH 30/51] fix: reject weight vectors of wrong length in
 CartesianDMP

---
 movement_primitives/dmp/_cartesian_dmp.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/movement_primitives/dmp/_cartesian_dmp.py b/movement_primitives/dmp/_cartesian_dmp.py
index d5f26d6..68fd4ea 100644
--- a/movement_primitives/dmp/_cartesian_dmp.py
+++ b/movement_primitives/dmp/_cartesian_dmp.py
@@ -461,10 +461,12 @@ class CartesianDMP(DMPBase):
             New weights of the DMP.
         """
         n_pos_weights = self.forcing_term_pos.weights_.size
-        self.forcing_term_pos.weights_[:, :] = weights[:n_pos_weights].reshape(
-            -1, self.n_weights_per_dim)
-        self.forcing_term_rot.weights_[:, :] = weights[n_pos_weights:].reshape(
-            -1, self.n_weights_per_dim)
+        weights_pos = weights[:n_pos_weights].reshape(
+            *self.forcing_term_pos.shape)
+        weights_rot = weights[n_pos_weights:].reshape(
+            *self.forcing_term_rot.shape)
+        self.forcing_term_pos.weights_[:, :] = weights_pos
+        self.forcing_term_rot.weights_[:, :] = weights_rot
 
 
 def dmp_quaternion_imitation(
-- 
2.43.0


From 9b1e3e24674a62e56e959de85d8048644cf3db67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:29:54 +0000
Subject: [PATCH 31/51] fix: check lengths of state vectors before stepping

---
 movement_primitives/dmp/_dmp_with_final_velocity.py | 3 +++
 movement_primitives/spring_damper.py                | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/movement_primitives/dmp/_dmp_with_final_velocity.py b/movement_primitives/dmp/_dmp_with_final_velocity.py
index 8d71197..5f7a9ea 100644
--- a/movement_primitives/dmp/_dmp_with_final_velocity.py
+++ b/movement_primitives/dmp/_dmp_with_final_velocity.py
@@ -115,6 +115,9 @@ class DMPWithFinalVelocity(WeightParametersMixin, DMPBase):
         yd : array, shape (n_dims,)
             Next time derivative of state (e.g., velocity).
         """
+        assert len(last_y) == self.n_dims
+        assert len(last_yd) == self.n_dims
+
         self.last_t = self.t
         self.t += self.dt_
 
diff --git a/movement_primitives/spring_damper.py b/movement_primitives/spring_damper.py
index c138d38..fb8f22f 100644
--- a/movement_primitives/spring_damper.py
+++ b/movement_primitives/spring_damper.py
@@ -68,6 +68,9 @@ class SpringDamper(PointToPointMovement):
         yd : array, shape (n_dims,)
             Next time derivative of state (e.g., velocity).
         """
+        assert len(last_y) == self.n_dims
+        assert len(last_yd) == self.n_vel_dims
+
         self.last_t = self.t
         self.t += self.dt
 
@@ -171,6 +174,9 @@ class SpringDamperOrientation(PointToPointMovement):
         yd : array, shape (n_dims,)
             Next time derivative of state (e.g., velocity).
         """
+        assert len(last_y) == self.n_dims
+        assert len(last_yd) == self.n_vel_dims
+
         self.last_t = self.t
         self.t += self.dt
 
-- 
2.43.0


From a0ca35e6f6b0c3998539bc4c5c02475788806c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:32:08 +0000
Subject: [PATCH 32/51] fix: reject demonstrations of wrong dimension before
 learning weights

---
 movement_primitives/dmp/_cartesian_dmp.py           | 3 ++-
 movement_primitives/dmp/_dmp.py                     | 3 ++-
 movement_primitives/dmp/_dmp_with_final_velocity.py | 3 ++-
 movement_primitives/dmp/_dual_cartesian_dmp.py      | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/movement_primitives/dmp/_cartesian_dmp.py b/movement_primitives/dmp/_cartesian_dmp.py
index 68fd4ea..1aa236f 100644
--- a/movement_primitives/dmp/_cartesian_dmp.py
+++ b/movement_primitives/dmp/_cartesian_dmp.py
@@ -1,6 +1,6 @@
 import numpy as np
 import pytransform3d.rotations as pr
-from ..utils import ensure_1d_array
+from ..utils import check_1d_array_length, ensure_1d_array
 from ._base import DMPBase
 from ._forcing_term import ForcingTerm
 from ._canonical_system import canonical_system_alpha
@@ -419,6 +419,7 @@ class CartesianDMP(DMPBase):
         allow_final_velocity : bool, optional (default: False)
             Allow a final velocity.
         """
+        check_1d_array_length(Y[0], "Y[0]", self.n_dims)
         Y = np.copy(Y)  # quaternions will be normalized in place
         self.forcing_term_pos.weights_[:, :] = dmp_imitate(
             T, Y[:, :3],
diff --git a/movement_primitives/dmp/_dmp.py b/movement_primitives/dmp/_dmp.py
index 9b44ad8..a96ebe3 100644
--- a/movement_primitives/dmp/_dmp.py
+++ b/movement_primitives/dmp/_dmp.py
@@ -3,7 +3,7 @@ from ._base import DMPBase, WeightParametersMixin
 from ._forcing_term import ForcingTerm
 from ._canonical_system import canonical_system_alpha
 from ._forcing_term import phase
-from ..utils import ensure_1d_array
+from ..utils import check_1d_array_length, ensure_1d_array
 
 
 def dmp_step_rk4(
@@ -580,6 +580,7 @@ class DMP(WeightParametersMixin, DMPBase):
         allow_final_velocity : bool, optional (default: False)
             Allow a final velocity.
         """
+        check_1d_array_length(Y[0], "Y[0]", self.n_dims)
         self.forcing_term.weights_[:, :], start_y, _, _, goal_y, _, _ = \
             dmp_imitate(
             T, Y,
diff --git a/movement_primitives/dmp/_dmp_with_final_velocity.py b/movement_primitives/dmp/_dmp_with_final_velocity.py
index 5f7a9ea..89877b2 100644
--- a/movement_primitives/dmp/_dmp_with_final_velocity.py
+++ b/movement_primitives/dmp/_dmp_with_final_velocity.py
@@ -1,6 +1,6 @@
 import numpy as np
 from ._base import DMPBase, WeightParametersMixin
-from ..utils import ensure_1d_array
+from ..utils import check_1d_array_length, ensure_1d_array
 from ._forcing_term import ForcingTerm, phase
 from ._canonical_system import canonical_system_alpha
 from ._dmp import dmp_imitate, dmp_open_loop
@@ -204,6 +204,7 @@ class DMPWithFinalVelocity(WeightParametersMixin, DMPBase):
         regularization_coefficient : float, optional (default: 0)
             Regularization coefficient for regression.
         """
+        check_1d_array_length(Y[0], "Y[0]", self.n_dims)
         self.forcing_term.weights_[:, :], start_y, start_yd, \
             start_ydd, goal_y, goal_yd, goal_ydd = dmp_imitate(
             T, Y,
diff --git a/movement_primitives/dmp/_dual_cartesian_dmp.py b/movement_primitives/dmp/_dual_cartesian_dmp.py
index 3a0bda3..2a6ef51 100644
--- a/movement_primitives/dmp/_dual_cartesian_dmp.py
+++ b/movement_primitives/dmp/_dual_cartesian_dmp.py
@@ -1,7 +1,7 @@
 import numpy as np
 import pytransform3d.rotations as pr
 from ._base import DMPBase, WeightParametersMixin
-from ..utils import ensure_1d_array
+from ..utils import check_1d_array_length, ensure_1d_array
 from ._canonical_system import canonical_system_alpha
 from ._forcing_term import ForcingTerm, phase
 from ._dmp import dmp_imitate
@@ -400,6 +400,7 @@ class DualCartesianDMP(WeightParametersMixin, DMPBase):
         allow_final_velocity : bool, optional (default: False)
             Allow a final velocity.
         """
+        check_1d_array_length(Y[0], "Y[0]", self.n_dims)
         Y = np.copy(Y)  # quaternions will be normalized in place
         self.forcing_term.weights_[:3, :] = dmp_imitate(
             T, Y[:, :3],
-- 
2.43.0


From 6c6d62c4218e6cb31fcd2c0cca55575a5e4dff34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:39:05 +0000
Subject: [PATCH 33/51] fix: ignore goal velocity in potential field like the
 DMP does

---
 movement_primitives/dmp_potential_field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/movement_primitives/dmp_potential_field.py b/movement_primitives/dmp_potential_field.py
index f8bb59a..6318df6 100644
--- a/movement_primitives/dmp_potential_field.py
+++ b/movement_primitives/dmp_potential_field.py
@@ -56,7 +56,8 @@ def potential_field_2d(dmp, x_range, y_range, n_ticks, obstacle=None):
 
     z = dmp.forcing_term.phase(dmp.t)
     ts = dmp_transformation_system(
-        Y, Yd, dmp.alpha_y, dmp.beta_y, dmp.goal_y, dmp.goal_yd, dmp.goal_ydd,
+        Y, Yd, dmp.alpha_y, dmp.beta_y, dmp.goal_y,
+        np.zeros_like(dmp.goal_yd), np.zeros_like(dmp.goal_ydd),  # not used
         dmp.start_y, z, dmp.execution_time_,
         smooth_scaling=dmp.smooth_scaling)
     ft = np.empty_like(ts)
-- 
2.43.0


From 64b7a0bfd87d532041f4822159a1abdf6c0df4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:42:02 +0000
Subject: [PATCH 34/51] fix: write cache of propagated trajectories atomically

---
 movement_primitives/dmp_to_state_space_distribution.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/movement_primitives/dmp_to_state_space_distribution.py b/movement_primitives/dmp_to_state_space_distribution.py
index 64ca208..336b3ce 100644
--- a/movement_primitives/dmp_to_state_space_distribution.py
+++ b/movement_primitives/dmp_to_state_space_distribution.py
@@ -65,7 +65,12 @@ def propagate_weight_distribution_to_state_space(
             dt=dt, int_dt=int_dt, verbose=verbose)
 
         if cache_filename is not None:
-            np.savetxt(cache_filename, trajectories)
+            # an interrupted run must not leave an incomplete cache file
+            dirname, basename = os.path.split(cache_filename)
+            temporary_filename = os.path.join(
+                dirname, "tmp%d_%s" % (os.getpid(), basename))
+            np.savetxt(temporary_filename, trajectories)
+            os.replace(temporary_filename, cache_filename)
 
     return estimate_state_distribution(
         trajectories, alpha=alpha, kappa=kappa,
-- 
2.43.0


From a07b85f1096d0f340876cfe83947338a30a76859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:43:43 +0000
Subject: [PATCH 35/51] fix: use duration of demonstrations as execution time
 of DMP distribution

---
 movement_primitives/dmp_to_state_space_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movement_primitives/dmp_to_state_space_distribution.py b/movement_primitives/dmp_to_state_space_distribution.py
index 336b3ce..248d5b4 100644
--- a/movement_primitives/dmp_to_state_space_distribution.py
+++ b/movement_primitives/dmp_to_state_space_distribution.py
@@ -90,7 +90,7 @@ def estimate_dmp_parameter_distribution(dataset, n_weights_per_dim, int_dt, verb
     else:
         iterator = dataset
     for T, P in iterator:
-        execution_time = T[-1]
+        execution_time = T[-1] - T[0]
         dt = np.mean(np.diff(T))
         if dt < 0.005:  # HACK
             continue
-- 
2.43.0


From 240c3e7502cb7cdc92e892e9c758863e877934e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:33:31 +0000
Subject: [PATCH 36/51] fix: let concurrent threads write the same cache file

---
 movement_primitives/dmp_to_state_space_distribution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/movement_primitives/dmp_to_state_space_distribution.py b/movement_primitives/dmp_to_state_space_distribution.py
index 248d5b4..611deb1 100644
--- a/movement_primitives/dmp_to_state_space_distribution.py
+++ b/movement_primitives/dmp_to_state_space_distribution.py
@@ -1,5 +1,6 @@
 """Tools to propagate DMP distributions to state space."""
 import os
+import threading
 
 import numpy as np
 from gmr import MVN
@@ -68,7 +69,8 @@ def propagate_weight_distribution_to_state_space(
             # an interrupted run must not leave an incomplete cache file
             dirname, basename = os.path.split(cache_filename)
             temporary_filename = os.path.join(
-                dirname, "tmp%d_%s" % (os.getpid(), basename))
+                dirname, "tmp%d_%d_%s" % (
+                    os.getpid(), threading.get_ident(), basename))
             np.savetxt(temporary_filename, trajectories)
             os.replace(temporary_filename, cache_filename)
 
-- 
2.43.0


From 39795854464e2a9a91884759773687c090daac23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:54:42 +0000
Subject: [PATCH 37/51] fix: document the actual default values of coupling
 gains and run times

---
 movement_primitives/dmp/_coupling_terms.py | 8 ++++----
 movement_primitives/spring_damper.py       | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/movement_primitives/dmp/_coupling_terms.py b/movement_primitives/dmp/_coupling_terms.py
index 5d1fc94..e08b0d0 100644
--- a/movement_primitives/dmp/_coupling_terms.py
+++ b/movement_primitives/dmp/_coupling_terms.py
@@ -312,7 +312,7 @@ class CouplingTermPos3DToPos3D:
     k : float, optional (default: 1)
         Virtual spring constant that couples the positions.
 
-    c1 : float, optional (default: 100)
+    c1 : float, optional (default: 1)
         Scaling factor for spring forces in the velocity component and
         acceleration component.
 
@@ -372,7 +372,7 @@ class CouplingTermDualCartesianDistance:
     k : float, optional (default: 1)
         Virtual spring constant that couples the positions.
 
-    c1 : float, optional (default: 100)
+    c1 : float, optional (default: 1)
         Scaling factor for spring forces in the velocity component and
         acceleration component.
 
@@ -429,7 +429,7 @@ class CouplingTermDualCartesianPose:
     k : float, optional (default: 1)
         Virtual spring constant that couples the positions.
 
-    c1 : float, optional (default: 100)
+    c1 : float, optional (default: 1)
         Scaling factor for spring forces in the velocity component and
         acceleration component.
 
@@ -556,7 +556,7 @@ class CouplingTermDualCartesianTrajectory(CouplingTermDualCartesianPose):
     k : float, optional (default: 1)
         Virtual spring constant that couples the positions.
 
-    c1 : float, optional (default: 100)
+    c1 : float, optional (default: 1)
         Scaling factor for spring forces in the velocity component and
         acceleration component.
 
diff --git a/movement_primitives/spring_damper.py b/movement_primitives/spring_damper.py
index fb8f22f..1e5efcc 100644
--- a/movement_primitives/spring_damper.py
+++ b/movement_primitives/spring_damper.py
@@ -94,8 +94,8 @@ class SpringDamper(PointToPointMovement):
 
         Parameters
         ----------
-        run_t : float, optional (default: execution_time)
-            Run time. Can be shorter or longer than execution_time.
+        run_t : float, optional (default: 1)
+            Run time.
 
         coupling_term : object, optional (default: None)
             Coupling term that will be added to velocity.
@@ -200,8 +200,8 @@ class SpringDamperOrientation(PointToPointMovement):
 
         Parameters
         ----------
-        run_t : float, optional (default: execution_time)
-            Run time. Can be shorter or longer than execution_time.
+        run_t : float, optional (default: 1)
+            Run time.
 
         coupling_term : object, optional (default: None)
             Coupling term that will be added to velocity.
-- 
2.43.0


From ece8838870c91c93c264d3a848056033708403ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:23:06 +0000
Subject: [PATCH 38/51] fix: draw distributions as dashed lines without format
 string

---
 movement_primitives/plot.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/movement_primitives/plot.py b/movement_primitives/plot.py
index 465e50e..c981bdf 100644
--- a/movement_primitives/plot.py
+++ b/movement_primitives/plot.py
@@ -158,9 +158,10 @@ def plot_distribution_in_rows(
                     mean[:, i] + f * std_dev[:, i], color=color, alpha=alpha,
                     label=label if f_idx == 0 else None)
             else:
-                axes[i].plot(t, mean[:, i] - f * std_dev[:, i], color, ls="--",
-                             label=label if f_idx == 0 else None)
-                axes[i].plot(t, mean[:, i] + f * std_dev[:, i], color, ls="--")
+                axes[i].plot(t, mean[:, i] - f * std_dev[:, i], color=color,
+                             ls="--", label=label if f_idx == 0 else None)
+                axes[i].plot(t, mean[:, i] + f * std_dev[:, i], color=color,
+                             ls="--")
 
     if newaxes:
         layout_axes(axes, n_dims, subplot_shape, xlabel, (t[0], t[-1]),
-- 
2.43.0


From e89cd5afaa51d1e37bc310475149365e34fc1780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:23:35 +0000
Subject: [PATCH 39/51] fix: hide and show geometry when its key is pressed

---
 movement_primitives/visualization.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/movement_primitives/visualization.py b/movement_primitives/visualization.py
index abd4375..e2d91c2 100644
--- a/movement_primitives/visualization.py
+++ b/movement_primitives/visualization.py
@@ -59,12 +59,13 @@ class ToggleGeometry:
         self.geometry = geometry
         self.show = True
 
-    def __call__(self, vis, key, modifier):
-        self.show = not self.show
-        if self.show and modifier:
-            vis.remove_geometry(self.geometry, False)
-        elif not self.show and not modifier:
-            vis.add_geometry(self.geometry, False)
+    def __call__(self, vis, action, modifier):
+        if action == 1:  # 0: released, 1: pressed, 2: repeated
+            self.show = not self.show
+            if self.show:
+                vis.add_geometry(self.geometry, False)
+            else:
+                vis.remove_geometry(self.geometry, False)
         return True
 
 
-- 
2.43.0


From 32689fca911ea033a8793db03acf91d4d02c3494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:34:14 +0000
Subject: [PATCH 40/51] fix: do not mix files of processes that download the
 LASA dataset at the same time

---
 movement_primitives/data/_lasa.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/movement_primitives/data/_lasa.py b/movement_primitives/data/_lasa.py
index 32ed9ae..7c32bac 100644
--- a/movement_primitives/data/_lasa.py
+++ b/movement_primitives/data/_lasa.py
@@ -1,4 +1,5 @@
 import os
+import tempfile
 import zipfile
 import io
 import scipy.io
@@ -61,9 +62,16 @@ def load_lasa(shape_idx):
     if not os.path.isdir(dataset_path + "lasa_data"):  # pragma: no cover
         url = urlopen(LASA_URL)
         z = zipfile.ZipFile(io.BytesIO(url.read()))
-        z.extractall(dataset_path)
-        os.rename(dataset_path + z.namelist()[0],
-                  dataset_path + "lasa_data" + os.sep)
+        os.makedirs(dataset_path, exist_ok=True)
+        with tempfile.TemporaryDirectory(dir=dataset_path) as tmp_path:
+            z.extractall(tmp_path)
+            try:
+                os.rename(os.path.join(tmp_path, z.namelist()[0]),
+                          dataset_path + "lasa_data" + os.sep)
+            except OSError:
+                # another process might have been faster
+                if not os.path.isdir(dataset_path + "lasa_data"):
+                    raise
 
     dataset_path += "lasa_data" + os.sep + "DataSet" + os.sep
     demos, shape_name = _load_from_matlab_file(dataset_path, shape_idx)
-- 
2.43.0


From a568f631158de44b0e589711dd53a638415dd737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:34:14 +0000
Subject: [PATCH 41/51] fix: return times of LASA demonstrations that match the
 time between steps

---
 movement_primitives/data/_lasa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movement_primitives/data/_lasa.py b/movement_primitives/data/_lasa.py
index 7c32bac..a82c614 100644
--- a/movement_primitives/data/_lasa.py
+++ b/movement_primitives/data/_lasa.py
@@ -76,7 +76,7 @@ def load_lasa(shape_idx):
     dataset_path += "lasa_data" + os.sep + "DataSet" + os.sep
     demos, shape_name = _load_from_matlab_file(dataset_path, shape_idx)
     X, Xd, Xdd, dt = _convert_demonstrations(demos)
-    t = np.linspace(0, X.shape[1], X.shape[1])
+    t = dt * np.arange(X.shape[1])
     T = np.tile(t, (X.shape[0], 1))
     return T, X, Xd, Xdd, dt, shape_name
 
-- 
2.43.0


From b7d9db82cb49e6407af903074a2aeab88cc24f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:35:26 +0000
Subject: [PATCH 42/51] fix: read time between steps of LASA dataset with
 current numpy

---
 movement_primitives/data/_lasa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movement_primitives/data/_lasa.py b/movement_primitives/data/_lasa.py
index a82c614..1e7308f 100644
--- a/movement_primitives/data/_lasa.py
+++ b/movement_primitives/data/_lasa.py
@@ -139,7 +139,7 @@ def _convert_demonstrations(demos):
     Xd = np.transpose([V for _, V, _ in tmp], [0, 2, 1])
     Xdd = np.transpose([A for _, _, A in tmp], [0, 2, 1])
 
-    dt = float(demos[0][0, 0][4])
+    dt = float(demos[0][0, 0][4].item())
 
     return X, Xd, Xdd, dt
 
-- 
2.43.0


From ac1d400627ebcbe6598b7beae5fab80839c46429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:01:05 +0000
Subject: [PATCH 43/51] fix: configure movements with integer states

---
 movement_primitives/base.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/movement_primitives/base.py b/movement_primitives/base.py
index b65be6b..30f204c 100644
--- a/movement_primitives/base.py
+++ b/movement_primitives/base.py
@@ -120,17 +120,17 @@ class PointToPointMovement(abc.ABC):
         if t is not None:
             self.t = t
         if start_y is not None:
-            self.start_y = start_y
+            self.start_y = np.asarray(start_y, dtype=float)
         if start_yd is not None:
-            self.start_yd = start_yd
+            self.start_yd = np.asarray(start_yd, dtype=float)
         if start_ydd is not None:
-            self.start_ydd = start_ydd
+            self.start_ydd = np.asarray(start_ydd, dtype=float)
         if goal_y is not None:
-            self.goal_y = goal_y
+            self.goal_y = np.asarray(goal_y, dtype=float)
         if goal_yd is not None:
-            self.goal_yd = goal_yd
+            self.goal_yd = np.asarray(goal_yd, dtype=float)
         if goal_ydd is not None:
-            self.goal_ydd = goal_ydd
+            self.goal_ydd = np.asarray(goal_ydd, dtype=float)
 
     @abc.abstractmethod
     def step(self, last_y, last_yd):
-- 
2.43.0


From 5d60940a83a13bc3fdb9403e7c4836922d9246be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:01:05 +0000
Subject: [PATCH 44/51] fix: compute forces of demonstrations with integer
 positions

---
 movement_primitives/dmp/_dmp.py                     | 4 ++--
 movement_primitives/dmp/_dmp_with_final_velocity.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/movement_primitives/dmp/_dmp.py b/movement_primitives/dmp/_dmp.py
index a96ebe3..ce32a08 100644
--- a/movement_primitives/dmp/_dmp.py
+++ b/movement_primitives/dmp/_dmp.py
@@ -665,12 +665,12 @@ def determine_forces(T, Y, alpha_y, beta_y, alpha_z, allow_final_velocity,
     """
     n_dims = Y.shape[1]
     DT = np.gradient(T)
-    Yd = np.empty_like(Y)
+    Yd = np.empty(Y.shape)
     for d in range(n_dims):
         Yd[:, d] = np.gradient(Y[:, d]) / DT
     if not allow_final_velocity:
         Yd[-1, :] = 0.0
-    Ydd = np.empty_like(Y)
+    Ydd = np.empty(Y.shape)
     for d in range(n_dims):
         Ydd[:, d] = np.gradient(Yd[:, d]) / DT
     Ydd[-1, :] = 0.0
diff --git a/movement_primitives/dmp/_dmp_with_final_velocity.py b/movement_primitives/dmp/_dmp_with_final_velocity.py
index 89877b2..1dcafa5 100644
--- a/movement_primitives/dmp/_dmp_with_final_velocity.py
+++ b/movement_primitives/dmp/_dmp_with_final_velocity.py
@@ -321,12 +321,12 @@ def determine_forces(T, Y, alpha_y, beta_y, alpha_z, allow_final_velocity,
     n_dims = Y.shape[1]
     DT = np.diff(T)
 
-    Yd = np.empty_like(Y)
+    Yd = np.empty(Y.shape)
     Yd[0] = 0.0
     for d in range(n_dims):
         Yd[1:, d] = np.diff(Y[:, d]) / DT
 
-    Ydd = np.empty_like(Y)
+    Ydd = np.empty(Y.shape)
     Ydd[0] = 0.0
     for d in range(n_dims):
         Ydd[1:, d] = np.diff(Yd[:, d]) / DT
-- 
2.43.0


From 2704574c1e99681b6a46a10619e10dd3a47dda70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:01:20 +0000
Subject: [PATCH 45/51] fix: avoid obstacles at integer positions with fast
 coupling term

---
 movement_primitives/dmp/_coupling_terms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/movement_primitives/dmp/_coupling_terms.py b/movement_primitives/dmp/_coupling_terms.py
index e08b0d0..5158e49 100644
--- a/movement_primitives/dmp/_coupling_terms.py
+++ b/movement_primitives/dmp/_coupling_terms.py
@@ -114,7 +114,9 @@ class CouplingTermObstacleAvoidance2D:
             Acceleration.
         """
         cdd = self.step_function(
-            y, yd, self.obstacle_position, self.gamma, self.beta)
+            np.asarray(y, dtype=float), np.asarray(yd, dtype=float),
+            np.asarray(self.obstacle_position, dtype=float),
+            self.gamma, self.beta)
         return np.zeros_like(cdd), cdd
 
 
-- 
2.43.0


From a911f3300b64d922c51a8d02c662845c7811fc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:03:00 +0000
Subject: [PATCH 46/51] fix: accept times and demonstrations of ProMPs that are
 lists

---
 movement_primitives/promp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/movement_primitives/promp.py b/movement_primitives/promp.py
index e50f9bb..4f74401 100644
--- a/movement_primitives/promp.py
+++ b/movement_primitives/promp.py
@@ -85,7 +85,7 @@ class ProMP:
         weights = np.linalg.pinv(
             activations.T.dot(activations)
             + lmbda * np.eye(activations.shape[1])
-        ).dot(activations.T).dot(Y.T.ravel())
+        ).dot(activations.T).dot(np.asarray(Y).T.ravel())
         return weights
 
     def trajectory_from_weights(self, T, weights):
@@ -485,6 +485,7 @@ class ProMP:
         activations : array, shape (n_weights_per_dim, n_steps)
             Activations of RBFs for each time step.
         """
+        T = np.asarray(T)
         assert T.ndim == 1
 
         n_steps = len(T)
@@ -544,6 +545,7 @@ class ProMP:
         activations : array, shape (n_weights_per_dim, n_steps)
             Activations of derivative of RBFs for each time step.
         """
+        T = np.asarray(T)
         assert T.ndim == 1
 
         n_steps = len(T)
-- 
2.43.0


From fd31eb9b6a41ea3d96e81fd07b030b9d62068876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:03:00 +0000
Subject: [PATCH 47/51] fix: accept list of joint angles in local inverse
 kinematics

---
 movement_primitives/kinematics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/movement_primitives/kinematics.py b/movement_primitives/kinematics.py
index 738d1da..c68a964 100644
--- a/movement_primitives/kinematics.py
+++ b/movement_primitives/kinematics.py
@@ -393,6 +393,7 @@ class Chain:
 
     def _local_bounds(self, joint_angles, interval):
         limits = np.array([self.tm._joints[jn][4] for jn in self.joint_names])
+        joint_angles = np.asarray(joint_angles)
         bounds = np.empty((self.n_joints, 2), dtype=float)
         bounds[:, 0] = joint_angles - interval
         bounds[:, 1] = joint_angles + interval
-- 
2.43.0


From 18a577afd629afc182d16add3e935b4d6b3d0f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:13:15 +0000
Subject: [PATCH 48/51] fix: make final velocity imitation independent of
 absolute time

The boundary constraints were solved at the absolute times of the
demonstration. The linear system is ill-conditioned for times far from zero,
so that a demonstration recorded at t = 1000 s resulted in useless weights.
---
 movement_primitives/dmp/_dmp_with_final_velocity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/movement_primitives/dmp/_dmp_with_final_velocity.py b/movement_primitives/dmp/_dmp_with_final_velocity.py
index 1dcafa5..8e9c617 100644
--- a/movement_primitives/dmp/_dmp_with_final_velocity.py
+++ b/movement_primitives/dmp/_dmp_with_final_velocity.py
@@ -319,6 +319,8 @@ def determine_forces(T, Y, alpha_y, beta_y, alpha_z, allow_final_velocity,
     assert allow_final_velocity
 
     n_dims = Y.shape[1]
+    # the constraints are ill-conditioned for large absolute times
+    T = np.asarray(T) - T[0]
     DT = np.diff(T)
 
     Yd = np.empty(Y.shape)
-- 
2.43.0


From af886b4031914754688e14f463e78ee9ceaf11c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:43:53 +0000
Subject: [PATCH 49/51] fix: support multiple positions in
 obstacle_avoidance_acceleration_3d

The documentation allows arrays of shape (..., 3), but only one position and
velocity were accepted.
---
 movement_primitives/dmp/_coupling_terms.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/movement_primitives/dmp/_coupling_terms.py b/movement_primitives/dmp/_coupling_terms.py
index 5158e49..8573d59 100644
--- a/movement_primitives/dmp/_coupling_terms.py
+++ b/movement_primitives/dmp/_coupling_terms.py
@@ -224,13 +224,15 @@ def obstacle_avoidance_acceleration_3d(
         Accelerations.
     """
     obstacle_diff = obstacle_position - y
-    r = 0.5 * np.pi * pr.norm_vector(np.cross(obstacle_diff, yd))
-    R = pr.matrix_from_compact_axis_angle(r)
+    r = 0.5 * np.pi * pbr.norm_vectors(np.cross(obstacle_diff, yd))
+    R = pbr.matrices_from_compact_axis_angles(r)
     theta = np.arccos(np.clip(
-        np.dot(obstacle_diff, yd)
-        / (np.linalg.norm(obstacle_diff) * np.linalg.norm(yd) + EPSILON),
+        np.sum(obstacle_diff * yd, axis=-1)
+        / (np.linalg.norm(obstacle_diff, axis=-1)
+           * np.linalg.norm(yd, axis=-1) + EPSILON),
         -1.0, 1.0))
-    cdd = gamma * np.dot(R, yd) * theta * np.exp(-beta * theta)
+    magnitude = gamma * theta * np.exp(-beta * theta)
+    cdd = np.einsum("...ij,...j->...i", R, yd) * magnitude[..., np.newaxis]
     return cdd
 
 
-- 
2.43.0


From b3cb82e295a0f4a454c5d4b41df310f3929a78ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:43:53 +0000
Subject: [PATCH 50/51] fix: avoid NaN after the end of movements with many
 weights

With about 270 or more weights (85 or more viapoints of a state following DMP)
all activations were rounded to zero after the end of the execution time, so
that the normalization divided zero by zero.
---
 movement_primitives/dmp/_forcing_term.py        | 4 +++-
 movement_primitives/dmp/_state_following_dmp.py | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/movement_primitives/dmp/_forcing_term.py b/movement_primitives/dmp/_forcing_term.py
index d6e983b..49f2119 100644
--- a/movement_primitives/dmp/_forcing_term.py
+++ b/movement_primitives/dmp/_forcing_term.py
@@ -74,7 +74,9 @@ class ForcingTerm:
     def _activations(self, z):
         z = np.atleast_2d(z)  # 1 x n_steps
         squared_dist = (z - self.centers[:, np.newaxis]) ** 2
-        activations = np.exp(-self.widths[:, np.newaxis] * squared_dist)
+        exponents = -self.widths[:, np.newaxis] * squared_dist
+        # far away from all centers all activations would be rounded to 0
+        activations = np.exp(exponents - exponents.max(axis=0))
         activations /= activations.sum(axis=0)  # normalize
         return activations
 
diff --git a/movement_primitives/dmp/_state_following_dmp.py b/movement_primitives/dmp/_state_following_dmp.py
index 4202e11..0266958 100644
--- a/movement_primitives/dmp/_state_following_dmp.py
+++ b/movement_primitives/dmp/_state_following_dmp.py
@@ -115,7 +115,11 @@ class StateFollowingForcingTerm:
     def _activations(self, z, normalized):
         z = np.atleast_2d(z)  # 1 x n_steps
         squared_dist = (z - self.centers[:, np.newaxis]) ** 2
-        activations = np.exp(-self.widths[:, np.newaxis] * squared_dist)
+        exponents = -self.widths[:, np.newaxis] * squared_dist
+        if normalized:
+            # far away from all centers all activations would be rounded to 0
+            exponents -= exponents.max(axis=0)
+        activations = np.exp(exponents)
         if normalized:
             activations /= activations.sum(axis=0)
         return activations
-- 
2.43.0


From 923431b510758c789741a96c3f3d484880f9c751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:41:17 +0000
Subject: [PATCH 51/51] fix: tolerate rounding errors of time at the end of
 final velocity DMPs

---
 movement_primitives/dmp/_dmp_with_final_velocity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/movement_primitives/dmp/_dmp_with_final_velocity.py b/movement_primitives/dmp/_dmp_with_final_velocity.py
index 8e9c617..b47c88c 100644
--- a/movement_primitives/dmp/_dmp_with_final_velocity.py
+++ b/movement_primitives/dmp/_dmp_with_final_velocity.py
@@ -243,7 +243,8 @@ def solve_constraints(t0, t1, y0, y0d, y0dd, y1, y1d, y1dd):
 
 
 def apply_constraints(t, goal_y, goal_t, coefficients):
-    if t > goal_t + np.finfo(float).eps:
+    # tolerate accumulated rounding errors of t
+    if t > goal_t + 1e-9 * abs(goal_t):
         # For t > goal_t the polynomial should always 'pull' to the goal
         # position, but velocity and acceleration should be zero.
         # This is done to avoid diverging from the goal if the DMP is executed
-- 
2.43.0

