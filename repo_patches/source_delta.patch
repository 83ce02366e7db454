From 3047daf7303d0d06a01ebc3073d60c113f6d09ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:02 +0000
Subject: [PATCH 01/22] fix: implicit ASIF does not jit the integrator by
 default, as documented

---
 run_time_assurance/rta/asif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index d5b6ee6..710295f 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -517,7 +517,7 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
         else:
             self._generate_ineq_constraint_mats_fn = self._generate_ineq_constraint_mats
 
-        default_int = True
+        default_int = False
 
         if self.jit_enable and self.jit_compile_dict.get('pred_state', default_int):
             self._pred_state_fn = jit(self._pred_state, static_argnames=['step_size'])
-- 
2.43.0


From 28e3d4b14986a28f15559e9d7aba89c3f0878fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:02 +0000
Subject: [PATCH 02/22] fix: safety sample testing passes the constraint
 parameters

---
 run_time_assurance/utils/sample_testing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/run_time_assurance/utils/sample_testing.py b/run_time_assurance/utils/sample_testing.py
index ef401b1..a51929b 100644
--- a/run_time_assurance/utils/sample_testing.py
+++ b/run_time_assurance/utils/sample_testing.py
@@ -276,7 +276,7 @@ class SafetyAssuranceSampleTestingModule(BaseSampleTestingModule):
         """
 
         for c in self.rta.constraints.values():
-            if c.phi(to_jnp_array_jit(state)) < 0 or c(to_jnp_array_jit(state)) < 0:
+            if c.phi(to_jnp_array_jit(state), c.params) < 0 or c(to_jnp_array_jit(state), c.params) < 0:
                 return None
 
         done = False
@@ -293,7 +293,7 @@ class SafetyAssuranceSampleTestingModule(BaseSampleTestingModule):
             done = self._check_done_conditions(state, current_time)
 
             for c in self.rta.constraints.values():
-                if c.phi(to_jnp_array_jit(state)) < 0:
+                if c.phi(to_jnp_array_jit(state), c.params) < 0:
                     return False
 
         return True
-- 
2.43.0


From dd64fc84ba1ee179bc713f134730d6bdd2f52cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:02 +0000
Subject: [PATCH 03/22] fix: resetting a simplex module clears its latch timer

---
 run_time_assurance/rta/simplex.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/run_time_assurance/rta/simplex.py b/run_time_assurance/rta/simplex.py
index 9a182e5..702febf 100644
--- a/run_time_assurance/rta/simplex.py
+++ b/run_time_assurance/rta/simplex.py
@@ -37,6 +37,7 @@ class SimplexModule(BackupControlBasedRTA):
         Also calls reset on the backup controller
         """
         super().reset()
+        self.latched_elapsed = 0.
         self.reset_backup_controller()
 
     def compose(self):
-- 
2.43.0


From a341cfe805a4f493cd34474c3eecc63345860f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:03 +0000
Subject: [PATCH 04/22] fix: simplex monitors the control that will actually be
 applied

---
 run_time_assurance/rta/simplex.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/run_time_assurance/rta/simplex.py b/run_time_assurance/rta/simplex.py
index 702febf..1251391 100644
--- a/run_time_assurance/rta/simplex.py
+++ b/run_time_assurance/rta/simplex.py
@@ -72,6 +72,7 @@ class SimplexModule(BackupControlBasedRTA):
         If latched, returns backup control.
         Otherwise returns backup control if monitor returns True
         """
+        control = self._clip_control_jax(control)
         latched = False
         if self.intervening:
             if self.latched_elapsed >= self.latch_time:
-- 
2.43.0


From f6088f5e38b9fe2b4c04e99773ba02b7a7d7f0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:03 +0000
Subject: [PATCH 05/22] fix: resetting a cascade resets its stages

---
 run_time_assurance/rta/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/run_time_assurance/rta/base.py b/run_time_assurance/rta/base.py
index 684412d..aa4d61b 100644
--- a/run_time_assurance/rta/base.py
+++ b/run_time_assurance/rta/base.py
@@ -364,6 +364,13 @@ class CascadedRTA(RTAModule):
         self.rta_list = self._setup_rta_list()
         super().__init__(*args, **kwargs)
 
+    def reset(self):
+        """Resets the rta module and every RTA in the cascade to the initial state at the beginning of an episode
+        """
+        super().reset()
+        for rta in self.rta_list:
+            rta.reset()
+
     def compute_filtered_control(self, input_state: Any, step_size: float, control_desired: np.ndarray) -> np.ndarray:
         self.intervening = False
         control = control_desired
-- 
2.43.0


From 830c9adab8c0d9884ec04526b71c099eccf31d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:03 +0000
Subject: [PATCH 06/22] fix: delta-v limit RTA applies the backup control when
 it trips

---
 run_time_assurance/zoo/cwh/inspection_1v1.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/run_time_assurance/zoo/cwh/inspection_1v1.py b/run_time_assurance/zoo/cwh/inspection_1v1.py
index eed26f3..a70b604 100644
--- a/run_time_assurance/zoo/cwh/inspection_1v1.py
+++ b/run_time_assurance/zoo/cwh/inspection_1v1.py
@@ -700,6 +700,7 @@ class SwitchingDeltaVLimitRTA(RTAModule):
         if not self.latched:
             pred_state = self._pred_state(input_state, step_size, control_desired)
             error_integral = self.error_integral
+            out = control_desired
             for _ in range(self.n_steps):
                 ub, error_integral = self.backup_control(
                     pred_state, step_size, error_integral
@@ -712,7 +713,7 @@ class SwitchingDeltaVLimitRTA(RTAModule):
                     self.latched = True
                     self.intervening = True
                     out = ub
-            out = control_desired
+                    break
         else:
             ub, self.error_integral = self.backup_control(
                 input_state, step_size, self.error_integral
-- 
2.43.0


From e5b7ade9233552f0da4eab23e71bbef0d4d49f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:03 +0000
Subject: [PATCH 07/22] fix: resetting the delta-v limit RTA releases its latch
 and integrator

---
 run_time_assurance/zoo/cwh/inspection_1v1.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/run_time_assurance/zoo/cwh/inspection_1v1.py b/run_time_assurance/zoo/cwh/inspection_1v1.py
index a70b604..045bb8a 100644
--- a/run_time_assurance/zoo/cwh/inspection_1v1.py
+++ b/run_time_assurance/zoo/cwh/inspection_1v1.py
@@ -686,6 +686,11 @@ class SwitchingDeltaVLimitRTA(RTAModule):
             **kwargs,
         )
 
+    def reset(self):
+        super().reset()
+        self.latched = False
+        self.error_integral = np.zeros(6)
+
     def _pred_state(
         self, state: np.ndarray, step_size: float, control: np.ndarray
     ) -> np.ndarray:
-- 
2.43.0


From d17b397ef922e6a8363aa7067ebe6e4eabe25619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:03 +0000
Subject: [PATCH 08/22] fix: state wrapper setters work on immutable jax arrays

---
 run_time_assurance/zoo/cwh/docking_2d.py         |  8 ++++----
 run_time_assurance/zoo/cwh/docking_3d.py         | 12 ++++++------
 run_time_assurance/zoo/cwh/inspection_1v1.py     | 16 ++++++++--------
 .../zoo/integrators/integrator_1d.py             |  4 ++--
 4 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/run_time_assurance/zoo/cwh/docking_2d.py b/run_time_assurance/zoo/cwh/docking_2d.py
index e98261d..2eb55fc 100644
--- a/run_time_assurance/zoo/cwh/docking_2d.py
+++ b/run_time_assurance/zoo/cwh/docking_2d.py
@@ -46,7 +46,7 @@ class Docking2dState(RTAStateWrapper):
     @x.setter
     def x(self, val: float):
         """Setter for x position"""
-        self.vector[0] = val
+        self.vector = self.vector.at[0].set(val)
 
     @property
     def y(self) -> float:
@@ -56,7 +56,7 @@ class Docking2dState(RTAStateWrapper):
     @y.setter
     def y(self, val: float):
         """Setter for y position"""
-        self.vector[1] = val
+        self.vector = self.vector.at[1].set(val)
 
     @property
     def x_dot(self) -> float:
@@ -66,7 +66,7 @@ class Docking2dState(RTAStateWrapper):
     @x_dot.setter
     def x_dot(self, val: float):
         """Setter for x velocity component"""
-        self.vector[2] = val
+        self.vector = self.vector.at[2].set(val)
 
     @property
     def y_dot(self) -> float:
@@ -76,7 +76,7 @@ class Docking2dState(RTAStateWrapper):
     @y_dot.setter
     def y_dot(self, val: float):
         """Setter for y velocity component"""
-        self.vector[3] = val
+        self.vector = self.vector.at[3].set(val)
 
 
 class Docking2dRTAMixin:
diff --git a/run_time_assurance/zoo/cwh/docking_3d.py b/run_time_assurance/zoo/cwh/docking_3d.py
index 6bf365b..bbfb919 100644
--- a/run_time_assurance/zoo/cwh/docking_3d.py
+++ b/run_time_assurance/zoo/cwh/docking_3d.py
@@ -47,7 +47,7 @@ class Docking3dState(RTAStateWrapper):
     @x.setter
     def x(self, val: float):
         """Setter for x position"""
-        self.vector[0] = val
+        self.vector = self.vector.at[0].set(val)
 
     @property
     def y(self) -> float:
@@ -57,7 +57,7 @@ class Docking3dState(RTAStateWrapper):
     @y.setter
     def y(self, val: float):
         """Setter for y position"""
-        self.vector[1] = val
+        self.vector = self.vector.at[1].set(val)
 
     @property
     def z(self) -> float:
@@ -67,7 +67,7 @@ class Docking3dState(RTAStateWrapper):
     @z.setter
     def z(self, val: float):
         """Setter for z position"""
-        self.vector[2] = val
+        self.vector = self.vector.at[2].set(val)
 
     @property
     def x_dot(self) -> float:
@@ -77,7 +77,7 @@ class Docking3dState(RTAStateWrapper):
     @x_dot.setter
     def x_dot(self, val: float):
         """Setter for x velocity component"""
-        self.vector[3] = val
+        self.vector = self.vector.at[3].set(val)
 
     @property
     def y_dot(self) -> float:
@@ -87,7 +87,7 @@ class Docking3dState(RTAStateWrapper):
     @y_dot.setter
     def y_dot(self, val: float):
         """Setter for y velocity component"""
-        self.vector[4] = val
+        self.vector = self.vector.at[4].set(val)
 
     @property
     def z_dot(self) -> float:
@@ -97,7 +97,7 @@ class Docking3dState(RTAStateWrapper):
     @z_dot.setter
     def z_dot(self, val: float):
         """Setter for z velocity component"""
-        self.vector[5] = val
+        self.vector = self.vector.at[5].set(val)
 
 
 class Docking3dRTAMixin:
diff --git a/run_time_assurance/zoo/cwh/inspection_1v1.py b/run_time_assurance/zoo/cwh/inspection_1v1.py
index 045bb8a..7e93a68 100644
--- a/run_time_assurance/zoo/cwh/inspection_1v1.py
+++ b/run_time_assurance/zoo/cwh/inspection_1v1.py
@@ -54,7 +54,7 @@ class Inspection3dState(RTAStateWrapper):
     @x.setter
     def x(self, val: float):
         """Setter for x position"""
-        self.vector[0] = val
+        self.vector = self.vector.at[0].set(val)
 
     @property
     def y(self) -> float:
@@ -64,7 +64,7 @@ class Inspection3dState(RTAStateWrapper):
     @y.setter
     def y(self, val: float):
         """Setter for y position"""
-        self.vector[1] = val
+        self.vector = self.vector.at[1].set(val)
 
     @property
     def z(self) -> float:
@@ -74,7 +74,7 @@ class Inspection3dState(RTAStateWrapper):
     @z.setter
     def z(self, val: float):
         """Setter for z position"""
-        self.vector[2] = val
+        self.vector = self.vector.at[2].set(val)
 
     @property
     def x_dot(self) -> float:
@@ -84,7 +84,7 @@ class Inspection3dState(RTAStateWrapper):
     @x_dot.setter
     def x_dot(self, val: float):
         """Setter for x velocity component"""
-        self.vector[3] = val
+        self.vector = self.vector.at[3].set(val)
 
     @property
     def y_dot(self) -> float:
@@ -94,7 +94,7 @@ class Inspection3dState(RTAStateWrapper):
     @y_dot.setter
     def y_dot(self, val: float):
         """Setter for y velocity component"""
-        self.vector[4] = val
+        self.vector = self.vector.at[4].set(val)
 
     @property
     def z_dot(self) -> float:
@@ -104,7 +104,7 @@ class Inspection3dState(RTAStateWrapper):
     @z_dot.setter
     def z_dot(self, val: float):
         """Setter for z velocity component"""
-        self.vector[5] = val
+        self.vector = self.vector.at[5].set(val)
 
     @property
     def sun_angle(self) -> float:
@@ -114,7 +114,7 @@ class Inspection3dState(RTAStateWrapper):
     @sun_angle.setter
     def sun_angle(self, val: float):
         """Setter for sun_angle component"""
-        self.vector[6] = val
+        self.vector = self.vector.at[6].set(val)
 
     @property
     def delta_v(self) -> float:
@@ -124,7 +124,7 @@ class Inspection3dState(RTAStateWrapper):
     @delta_v.setter
     def delta_v(self, val: float):
         """Setter for delta_v component"""
-        self.vector[7] = val
+        self.vector = self.vector.at[7].set(val)
 
 
 class Inspection1v1RTA(ExplicitASIFModule):
diff --git a/run_time_assurance/zoo/integrators/integrator_1d.py b/run_time_assurance/zoo/integrators/integrator_1d.py
index ba7a494..47682cd 100644
--- a/run_time_assurance/zoo/integrators/integrator_1d.py
+++ b/run_time_assurance/zoo/integrators/integrator_1d.py
@@ -36,7 +36,7 @@ class Integrator1dDockingState(RTAStateWrapper):
     @x.setter
     def x(self, val: float):
         """Setter for x position"""
-        self.vector[0] = val
+        self.vector = self.vector.at[0].set(val)
 
     @property
     def x_dot(self) -> float:
@@ -46,7 +46,7 @@ class Integrator1dDockingState(RTAStateWrapper):
     @x_dot.setter
     def x_dot(self, val: float):
         """Setter for x velocity component"""
-        self.vector[1] = val
+        self.vector = self.vector.at[1].set(val)
 
 
 class Integrator1dDockingRTAMixin:
-- 
2.43.0


From ebee1a73f22af59071703abbb5c8fde50121461a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:03 +0000
Subject: [PATCH 09/22] fix: deputy passively safe maneuver trajectory maps all
 its arguments

---
 run_time_assurance/zoo/cwh/inspection_3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/zoo/cwh/inspection_3d.py b/run_time_assurance/zoo/cwh/inspection_3d.py
index f64e651..81b5c1c 100644
--- a/run_time_assurance/zoo/cwh/inspection_3d.py
+++ b/run_time_assurance/zoo/cwh/inspection_3d.py
@@ -465,7 +465,7 @@ class ConstraintPSMDeputy(ConstraintModule):
 
     def get_array(self, state: jnp.ndarray, params: dict) -> float:
         """Gets entire trajectory array"""
-        vmapped_get_future_state = vmap(self.get_future_state, (None, 0), 0)
+        vmapped_get_future_state = vmap(self.get_future_state, (None, 0, None), 0)
         phi_array = vmapped_get_future_state(
             state,
             jnp.linspace(0, self.steps * params["dt"], self.steps + 1),
-- 
2.43.0


From 9ab688549380394e7fd04240183a3412efc870c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:03 +0000
Subject: [PATCH 10/22] fix: discrete ASIF supports element specific control
 bounds

---
 run_time_assurance/rta/asif.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index 710295f..6678081 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -978,7 +978,11 @@ class DiscreteASIFModule(BaseOptimizationModule):
     def __init__(self, *args: Any, **kwargs: Any):
         super().__init__(*args, **kwargs)
 
-        self.opt_bounds = [(self.control_bounds_low, self.control_bounds_high)] * self.control_dim + [(-np.inf, np.inf)] * self.num_slack
+        bounds_low = -np.inf if self.control_bounds_low is None else self.control_bounds_low
+        bounds_high = np.inf if self.control_bounds_high is None else self.control_bounds_high
+        bounds_low = np.broadcast_to(bounds_low, (self.control_dim, ))
+        bounds_high = np.broadcast_to(bounds_high, (self.control_dim, ))
+        self.opt_bounds = list(zip(bounds_low, bounds_high)) + [(-np.inf, np.inf)] * self.num_slack
         self.scipy_constraints = []
         self.discrete_constraints = OrderedDict()
         slack_counter = 0
-- 
2.43.0


From c67ed8e92646edd0c2e0f88a7c7c92f2c0ee57e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:03 +0000
Subject: [PATCH 11/22] fix: discrete inspection predicts the sun moving in its
 own direction

---
 run_time_assurance/zoo/cwh/inspection_1v1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/zoo/cwh/inspection_1v1.py b/run_time_assurance/zoo/cwh/inspection_1v1.py
index 7e93a68..c8aa1e9 100644
--- a/run_time_assurance/zoo/cwh/inspection_1v1.py
+++ b/run_time_assurance/zoo/cwh/inspection_1v1.py
@@ -562,7 +562,7 @@ class DiscreteInspection1v1RTA(DiscreteASIFModule):
             + self.discrete_b_mat(step_size) @ control
         )
         return jnp.concatenate(
-            (next_state, jnp.array([state[6] - self.sun_vel * step_size, 0.0]))
+            (next_state, jnp.array([state[6] + self.sun_vel * step_size, 0.0]))
         )  # TODO: fix fuel derivative
 
     def discrete_a_mat(self, dt):
-- 
2.43.0


From 25d503174644b829f0628d5039773c2b4e97c914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:03 +0000
Subject: [PATCH 12/22] fix: HOCBF constraint of relative degree one

---
 run_time_assurance/constraint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/constraint.py b/run_time_assurance/constraint.py
index 16e3a27..22f2cc5 100644
--- a/run_time_assurance/constraint.py
+++ b/run_time_assurance/constraint.py
@@ -418,7 +418,7 @@ class HOCBFConstraint(ConstraintModule):
                 constraint=hocbf_constraint_dict["constraint_" + str(i - 1)], state_transition_system=state_transition_system, alpha=alpha
             )
             hocbf_constraint_dict["constraint_" + str(i)] = psi
-        self.final_constraint = psi
+        self.final_constraint = hocbf_constraint_dict["constraint_" + str(relative_degree - 1)]
         super().__init__(alpha=alpha, params=self.final_constraint.params, **kwargs)
 
     def _compute(self, state: jnp.ndarray, params: dict) -> float:
-- 
2.43.0


From 52d12a2445c391d53475eb975966850c2997dc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:35 +0000
Subject: [PATCH 13/22] fix: implicit ASIF subsampling keeps the slack columns

---
 run_time_assurance/rta/asif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index 6678081..ccffc44 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -720,7 +720,7 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
         jnp.ndarray
             vector b of quadprog inequality constraint C.T x >= b
         """
-        new_ineq_weight_barrier = jnp.empty((0, self.control_dim))
+        new_ineq_weight_barrier = jnp.empty((0, self.control_dim + self.num_slack))
         new_ineq_constant_barrier = jnp.empty(0)
 
         for i, c in enumerate(self.constraints.values()):
-- 
2.43.0


From 91e537855320992f8612da36261749ba091e9bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:35 +0000
Subject: [PATCH 14/22] fix: implicit ASIF subsampling does not drop the point
 after the check-all prefix

---
 run_time_assurance/rta/asif.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index ccffc44..8305424 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -732,8 +732,8 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
             # Get points to check from num_check_all and skip_length
             check_points = jnp.hstack(
                 (
-                    jnp.array(range(0, c.subsample_config.num_check_all)),
-                    jnp.array(range(c.subsample_config.num_check_all + 1, num_steps, c.subsample_config.skip_length))
+                    jnp.array(range(0, min(c.subsample_config.num_check_all, num_steps))),
+                    jnp.array(range(max(c.subsample_config.num_check_all, 0), num_steps, c.subsample_config.skip_length))
                 )
             ).astype(int)
             tmp_ineq_weight_barrier = tmp_ineq_weight_barrier[check_points, :]
-- 
2.43.0


From 7b346317877690c1fa814e75e4c745ec55aa0d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:35 +0000
Subject: [PATCH 15/22] fix: implicit ASIF names the subsampled constraint rows

---
 run_time_assurance/rta/asif.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index 8305424..44c506d 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -602,8 +602,8 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
         if self.control_bounds_high is not None:
             idx += self.control_dim
         self.constraint_names = self.constraint_names[0:idx]
-        for k in self.constraints.keys():
-            self.constraint_names += [k] * num_steps
+        for k, c in self.constraints.items():
+            self.constraint_names += [k] * self._num_subsampled_points(c, num_steps)
         self.constraint_names += list(self.direct_inequality_constraints.keys())
 
         return ineq_weight, ineq_constant
@@ -699,6 +699,15 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
         """Return zeros when constraint is disabled"""
         return jnp.zeros(point_ineq_weight.shape), jnp.zeros(point_ineq_constant.shape)
 
+    def _num_subsampled_points(self, constraint: ConstraintModule, num_steps: int) -> int:
+        """Number of trajectory points kept by subsample_constraints for the given constraint"""
+        config = constraint.subsample_config
+        num_check_all = min(max(config.num_check_all, 0), num_steps)
+        num_points = num_check_all + len(range(num_check_all, num_steps, config.skip_length))
+        if config.subsample_constraints_num_least is not None:
+            num_points = min(num_points, config.subsample_constraints_num_least)
+        return num_points + int(config.keep_first) + int(config.keep_last)
+
     def subsample_constraints(self, ineq_weight_barrier, ineq_constant_barrier, constraint_vals, num_steps):
         """Subsample constraints individually based on the constraint's subsample_config attribute
 
-- 
2.43.0


From 648b71a005b779dbe0961cc66b6262a08b43c1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:35 +0000
Subject: [PATCH 16/22] fix: combined inspection RTA builds its default deputy
 RTA for its own deputies

---
 run_time_assurance/zoo/cwh/inspection_3d.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/run_time_assurance/zoo/cwh/inspection_3d.py b/run_time_assurance/zoo/cwh/inspection_3d.py
index 81b5c1c..e5c8396 100644
--- a/run_time_assurance/zoo/cwh/inspection_3d.py
+++ b/run_time_assurance/zoo/cwh/inspection_3d.py
@@ -494,12 +494,14 @@ class CombinedInspectionRTA(RTAModule):
         self,
         *args: Any,
         num_deputies: int = NUM_DEPUTIES_DEFAULT,
-        deputy_rta: RTAModule = InspectionRTA(),
+        deputy_rta: RTAModule = None,
         control_bounds_high: Union[float, int, list, np.ndarray] = U_MAX_DEFAULT,
         control_bounds_low: Union[float, int, list, np.ndarray] = -U_MAX_DEFAULT,
         **kwargs: Any,
     ):
         self.num_deputies = num_deputies
+        if deputy_rta is None:
+            deputy_rta = InspectionRTA(num_deputies=num_deputies)
         self.deputy_rta = deputy_rta
         super().__init__(
             *args,
-- 
2.43.0


From 41c5dffe9d6349d832fdebe3534d576ccaa8d2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:35 +0000
Subject: [PATCH 17/22] fix: combined inspection RTA reports interventions and
 resets its deputy RTA

---
 run_time_assurance/zoo/cwh/inspection_3d.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/run_time_assurance/zoo/cwh/inspection_3d.py b/run_time_assurance/zoo/cwh/inspection_3d.py
index e5c8396..8ec8c4c 100644
--- a/run_time_assurance/zoo/cwh/inspection_3d.py
+++ b/run_time_assurance/zoo/cwh/inspection_3d.py
@@ -510,9 +510,14 @@ class CombinedInspectionRTA(RTAModule):
             **kwargs,
         )
 
+    def reset(self):
+        super().reset()
+        self.deputy_rta.reset()
+
     def compute_filtered_control(
         self, input_state: Any, step_size: float, control_desired: np.ndarray
     ) -> np.ndarray:
+        self.intervening = False
         u_act = np.zeros(self.num_deputies * 3)
         for i in range(self.num_deputies):
             u_des = control_desired[3 * i : 3 * i + 3]
@@ -520,6 +525,8 @@ class CombinedInspectionRTA(RTAModule):
             u_act[3 * i : 3 * i + 3] = self.deputy_rta.filter_control(
                 x_new, step_size, u_des
             )
+            if self.deputy_rta.intervening:
+                self.intervening = True
         return u_act
 
     def get_agent_state(self, state, i):
-- 
2.43.0


From 50f364b7ab3cea2afa13fefc87bc9e4572c0b5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:35 +0000
Subject: [PATCH 18/22] fix: reset clears the logged constraint values and
 intervention causes

---
 run_time_assurance/rta/asif.py | 6 ++++++
 run_time_assurance/rta/base.py | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index 44c506d..a8446e4 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -97,6 +97,12 @@ class ASIFModule(BaseOptimizationModule):
         self.constraints_causing_intervention = None
         self.constraint_names += list(self.constraints.keys()) + list(self.direct_inequality_constraints.keys())
 
+    def reset(self):
+        """Resets the rta module to the initial state at the beginning of an episode
+        """
+        super().reset()
+        self.constraints_causing_intervention = None
+
     def _update_direct_inequality_params(self):
         """Update the parameters for each constraint"""
         for k, c in self.direct_inequality_constraints.items():
diff --git a/run_time_assurance/rta/base.py b/run_time_assurance/rta/base.py
index aa4d61b..5794fee 100644
--- a/run_time_assurance/rta/base.py
+++ b/run_time_assurance/rta/base.py
@@ -204,6 +204,14 @@ class ConstraintBasedRTA(RTAModule):
         self.constraint_enabled_dict = dict.fromkeys(self.constraints.keys())
         self._update_params()
 
+    def reset(self):
+        """Resets the rta module to the initial state at the beginning of an episode
+        Also clears the logged constraint values
+        """
+        super().reset()
+        self.constraint_values = {}
+        self.is_stale_constraints = False
+
     def _update_params(self):
         """Update the parameters for each constraint"""
         for k, c in self.constraints.items():
-- 
2.43.0


From 2b2bbd6a5150a13d3b667c439153fb73dbd99f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:35 +0000
Subject: [PATCH 19/22] fix: an infeasible step does not report the previous
 step's intervention causes

---
 run_time_assurance/rta/asif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index a8446e4..62e6d76 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -249,6 +249,7 @@ class ASIFModule(BaseOptimizationModule):
             Actual control solved by QP
         """
         obj_constant = np.concatenate((obj_constant, np.zeros(self.num_slack)))
+        self.constraints_causing_intervention = []
         try:
             opt = quadprog.solve_qp(
                 obj_weight, obj_constant, np.array(ineq_weight, dtype=np.float64), np.array(ineq_constant, dtype=np.float64), 0
@@ -256,7 +257,6 @@ class ASIFModule(BaseOptimizationModule):
             u = opt[0]
 
             # Get constraints causing intervention
-            self.constraints_causing_intervention = []
             for i in opt[5]:
                 key = self.constraint_names[i - 1]
                 if key not in self.constraints_causing_intervention:
-- 
2.43.0


From 2287c56834ef1e06b3fb37ae9c8541a735100f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:35 +0000
Subject: [PATCH 20/22] fix: backup window is not shortened by floating point
 truncation

---
 run_time_assurance/rta/asif.py    | 2 +-
 run_time_assurance/rta/simplex.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index 62e6d76..24e2b26 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -595,7 +595,7 @@ class ImplicitASIFModule(ASIFModule, BackupControlBasedRTA):
         jnp.ndarray
             vector b of quadprog inequality constraint C.T x >= b
         """
-        num_steps = int(self.backup_window / step_size) + 1
+        num_steps = int(self.backup_window / step_size + 1e-6) + 1
         traj_states, traj_sensitivities = self._integrate_fn(state, step_size, num_steps)
         ineq_weight, ineq_constant = self._generate_ineq_constraint_mats_fn(
             state, num_steps, traj_states, traj_sensitivities, params, constraint_enabled_dict
diff --git a/run_time_assurance/rta/simplex.py b/run_time_assurance/rta/simplex.py
index 1251391..cf26383 100644
--- a/run_time_assurance/rta/simplex.py
+++ b/run_time_assurance/rta/simplex.py
@@ -297,7 +297,7 @@ class ImplicitSimplexModule(SimplexModule):
             jax array of implict backup trajectory states.
             Shape (M, N) where M is number of states and N is the dimension of the state vector
         """
-        Nsteps = int(self.backup_window / step_size)
+        Nsteps = int(self.backup_window / step_size + 1e-6)
         state = self._pred_state_fn(state, step_size, desired_control)
         traj_states = [state]
 
-- 
2.43.0


From 6a2fafe2b36d88c2745d33e1503db34b782826f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:23 +0000
Subject: [PATCH 21/22] fix: discrete ASIF integrator uses a differentiable jax
 ODE solver

---
 run_time_assurance/rta/asif.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/run_time_assurance/rta/asif.py b/run_time_assurance/rta/asif.py
index 24e2b26..9e23c87 100644
--- a/run_time_assurance/rta/asif.py
+++ b/run_time_assurance/rta/asif.py
@@ -15,6 +15,7 @@ import jax.numpy as jnp
 import numpy as np
 import quadprog
 from jax import jacfwd, jit, lax, vmap
+from jax.experimental.ode import odeint
 from safe_autonomy_simulation.dynamics import ControlAffineODEDynamics, ODEDynamics
 from scipy.optimize import minimize
 
@@ -1135,3 +1136,7 @@ class DifferentiableODESolver(ODEDynamics):
 
     def _compute_state_dot(self, t, state, control):
         return self.state_dot_fn(t, state, control)
+
+    def step(self, step_size, state, control):
+        sol = odeint(lambda x, t, u: self.state_dot_fn(t, x, u), state, jnp.linspace(0., step_size, 11), control)
+        return sol[-1, :], self.state_dot_fn(step_size, sol[-1, :], control)
-- 
2.43.0


From 9c723bcc7a3dffa0d6d089b86ecdb61e2e203232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:20 +0000
Subject: [PATCH 22/22] fix: restoring a backup controller does not hand out
 its saved state

---
 run_time_assurance/controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/run_time_assurance/controller.py b/run_time_assurance/controller.py
index 8740176..9cf610a 100644
--- a/run_time_assurance/controller.py
+++ b/run_time_assurance/controller.py
@@ -166,4 +166,4 @@ class RTABackupController(abc.ABC):
 
         !!! Note stateful backup controllers are not compatible with jax jit compilation
         """
-        self.controller_state = self.controller_state_saved
+        self.controller_state = self._copy_controller_state(self.controller_state_saved)
-- 
2.43.0

