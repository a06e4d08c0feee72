From 2edd917ae7d329f23873e72512295e372b6ba445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:22 +0000
Subject: [PATCH 01/66] fix: propagate a changed step time to the half bridges
 of 4QC and B6 converters

---
 .../physical_systems/converters.py            | 40 +++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/gym_electric_motor/physical_systems/converters.py b/src/gym_electric_motor/physical_systems/converters.py
index 2327ec4..330bd24 100644
--- a/src/gym_electric_motor/physical_systems/converters.py
+++ b/src/gym_electric_motor/physical_systems/converters.py
@@ -333,6 +333,16 @@ class FiniteFourQuadrantConverter(FiniteConverter):
     currents = Box(-1, 1, shape=(1,), dtype=np.float64)
     action_space = Discrete(4)
 
+    @property
+    def tau(self):
+        return self._tau
+
+    @tau.setter
+    def tau(self, value):
+        self._tau = float(value)
+        for sub_converter in self._subconverters:
+            sub_converter.tau = value
+
     def __init__(self, **kwargs):
         # Docstring in base class
         super().__init__(**kwargs)
@@ -460,6 +470,16 @@ class ContFourQuadrantConverter(ContDynamicallyAveragedConverter):
     currents = Box(-1, 1, shape=(1,), dtype=np.float64)
     action_space = Box(-1, 1, shape=(1,), dtype=np.float64)
 
+    @property
+    def tau(self):
+        return self._tau
+
+    @tau.setter
+    def tau(self, value):
+        self._tau = float(value)
+        for sub_converter in self._subconverters:
+            sub_converter.tau = value
+
     def __init__(self, **kwargs):
         # Docstring in base class
         super().__init__(**kwargs)
@@ -796,6 +816,16 @@ class FiniteB6BridgeConverter(FiniteConverter):
         [1, 1, 1],
     ]
 
+    @property
+    def tau(self):
+        return self._tau
+
+    @tau.setter
+    def tau(self, value):
+        self._tau = float(value)
+        for sub_converter in self._sub_converters:
+            sub_converter.tau = value
+
     def __init__(self, tau=1e-5, **kwargs):
         # Docstring in base class
         super().__init__(tau=tau, **kwargs)
@@ -868,6 +898,16 @@ class ContB6BridgeConverter(ContDynamicallyAveragedConverter):
 
     _reset_action = [0, 0, 0]
 
+    @property
+    def tau(self):
+        return self._tau
+
+    @tau.setter
+    def tau(self, value):
+        self._tau = float(value)
+        for sub_converter in self._subconverters:
+            sub_converter.tau = value
+
     def __init__(self, tau=1e-4, **kwargs):
         # Docstring in base class
         super().__init__(tau=tau, **kwargs)
-- 
2.43.0


From f4edc770eb607db913170ce972955d28e9b99959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:22 +0000
Subject: [PATCH 02/66] fix: reset the switching state of finite converters
 with the episode

---
 src/gym_electric_motor/physical_systems/converters.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gym_electric_motor/physical_systems/converters.py b/src/gym_electric_motor/physical_systems/converters.py
index 330bd24..8f5c87c 100644
--- a/src/gym_electric_motor/physical_systems/converters.py
+++ b/src/gym_electric_motor/physical_systems/converters.py
@@ -200,6 +200,11 @@ class FiniteConverter(PowerElectronicConverter):
         # Docstring in base class
         super().__init__(tau=tau, **kwargs)
 
+    def reset(self):
+        # Docstring in base class
+        self._switching_state = self._reset_action
+        return super().reset()
+
     def set_action(self, action, t):
         assert self.action_space.contains(
             action
-- 
2.43.0


From 0967dcd0c750c46c6f4ade9c48674f6a4afbba7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:22 +0000
Subject: [PATCH 03/66] fix: evaluate every switching segment with its own
 switching state and before reading the supply current

---
 .../physical_systems/physical_systems.py      | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 5e8640e..9b655d9 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -175,17 +175,17 @@ class SCMLSystem(PhysicalSystem, RandomComponent):
         switching_times = self._converter.set_action(action, self._t)
 
         for t in switching_times[:-1]:
+            u_in = self._converter.convert(i_in, t)
             i_sup = self._converter.i_sup(i_in)
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(i_in, self._ode_solver.t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             self._ode_solver.set_f_params(u_in)
             ode_state = self._ode_solver.integrate(t)
             i_in = self._electrical_motor.i_in(ode_state[self._ode_currents_idx])
 
+        u_in = self._converter.convert(i_in, self._t + self._tau)
         i_sup = self._converter.i_sup(i_in)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(i_in, self._ode_solver.t)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         self._ode_solver.set_f_params(u_in)
         ode_state = self._ode_solver.integrate(self._t + self.tau)
@@ -494,9 +494,9 @@ class SynchronousMotorSystem(ThreePhaseMotorSystem):
         switching_times = self._converter.set_action(action, self._t)
 
         for t in switching_times[:-1]:
+            u_in = self._converter.convert(i_in, t)
             i_sup = self._converter.i_sup(i_in)
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(i_in, self._ode_solver.t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_dq = self.abc_to_dq_space(u_in, eps)
             self._ode_solver.set_f_params(u_dq)
@@ -504,9 +504,9 @@ class SynchronousMotorSystem(ThreePhaseMotorSystem):
             eps = ode_state[self._ode_epsilon_idx]
             i_in = self.dq_to_abc_space(self._electrical_motor.i_in(ode_state[self._ode_currents_idx]), eps)
 
+        u_in = self._converter.convert(i_in, self._t + self._tau)
         i_sup = self._converter.i_sup(i_in)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(i_in, self._ode_solver.t)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_dq = self.abc_to_dq_space(u_in, eps)
         self._ode_solver.set_f_params(u_dq)
@@ -625,9 +625,9 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
         switching_times = self._converter.set_action(action, self._t)
 
         for t in switching_times[:-1]:
+            u_in = self._converter.convert(i_in_abc_e, t)
             i_sup = self._converter.i_sup(i_in_abc_e)
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(i_in_abc_e, self._ode_solver.t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_dq_e = list(self.abc_to_dq_space(u_in[:2], eps)) + u_in[2:]
             self._ode_solver.set_f_params(u_dq_e)
@@ -636,9 +636,9 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
             i_in_dq_e = self._electrical_motor.i_in(ode_state[self._ode_currents_idx])
             i_in_abc_e = list(self.dq_to_abc_space(i_in_dq_e[:2], eps)) + i_in_dq_e[2:]
 
+        u_in = self._converter.convert(i_in_abc_e, self._t + self._tau)
         i_sup = self._converter.i_sup(i_in_abc_e)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(i_in_abc_e, self._ode_solver.t)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_dq_e = np.concatenate((self.abc_to_dq_space(u_in[:3], eps), u_in[3:]))
         self._ode_solver.set_f_params(u_dq_e)
@@ -781,9 +781,9 @@ class SquirrelCageInductionMotorSystem(ThreePhaseMotorSystem):
         switching_times = self._converter.set_action(action, self._t)
 
         for t in switching_times[:-1]:
+            u_in = self._converter.convert(i_in, t)
             i_sup = self._converter.i_sup(i_in)
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(i_in, self._ode_solver.t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_alphabeta = self.abc_to_alphabeta_space(u_in)
             self._ode_solver.set_f_params(u_alphabeta)
@@ -791,9 +791,9 @@ class SquirrelCageInductionMotorSystem(ThreePhaseMotorSystem):
             eps_fs = self.calculate_field_angle(ode_state)
             i_in = self.alphabeta_to_abc_space(self._electrical_motor.i_in(ode_state[self._ode_currents_idx]))
 
+        u_in = self._converter.convert(i_in, self._t + self._tau)
         i_sup = self._converter.i_sup(i_in)
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(i_in, self._ode_solver.t)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_dq = self.abc_to_dq_space(u_in, eps_fs)
         u_alphabeta = self.abc_to_alphabeta_space(u_in)
@@ -987,9 +987,9 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
         switching_times = self._converter.set_action(action, self._t)
 
         for t in switching_times[:-1]:
+            u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), t)
             i_sup = self._converter.i_sup(np.concatenate((i_sabc, i_rdef)))
             u_sup = self._supply.get_voltage(self._t, i_sup)
-            u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), self._ode_solver.t)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
             u_sabc = u_in[self.stator_voltage_low_idx : self.stator_voltage_high_idx]
             u_rdef = u_in[self.rotor_voltage_low_idx : self.rotor_voltage_high_idx]
@@ -1006,9 +1006,9 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
             i_sabc = self.alphabeta_to_abc_space(self._electrical_motor.i_in(ode_state[self._ode_currents_idx]))
             i_rdef = self.alphabeta_to_abc_space(self.calculate_rotor_current(ode_state))
 
+        u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), self._t + self._tau)
         i_sup = self._converter.i_sup(np.concatenate((i_sabc, i_rdef)))
         u_sup = self._supply.get_voltage(self._t, i_sup)
-        u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), self._ode_solver.t)
         u_in = [u * u_s for u in u_in for u_s in u_sup]
         u_sabc = u_in[self.stator_voltage_low_idx : self.stator_voltage_high_idx]
         u_rdef = u_in[self.rotor_voltage_low_idx : self.rotor_voltage_high_idx]
-- 
2.43.0


From b0361d4b4c3313872855628e2e2d6b4c816f1276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:51 +0000
Subject: [PATCH 04/66] fix: split stator and excitation quantities correctly
 in EESM interlocking segments

---
 src/gym_electric_motor/physical_systems/physical_systems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 9b655d9..cf5e10b 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -629,12 +629,12 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
             i_sup = self._converter.i_sup(i_in_abc_e)
             u_sup = self._supply.get_voltage(self._t, i_sup)
             u_in = [u * u_s for u in u_in for u_s in u_sup]
-            u_dq_e = list(self.abc_to_dq_space(u_in[:2], eps)) + u_in[2:]
+            u_dq_e = list(self.abc_to_dq_space(u_in[:3], eps)) + u_in[3:]
             self._ode_solver.set_f_params(u_dq_e)
             ode_state = self._ode_solver.integrate(t)
             eps = ode_state[self._ode_epsilon_idx]
             i_in_dq_e = self._electrical_motor.i_in(ode_state[self._ode_currents_idx])
-            i_in_abc_e = list(self.dq_to_abc_space(i_in_dq_e[:2], eps)) + i_in_dq_e[2:]
+            i_in_abc_e = list(self.dq_to_abc_space(i_in_dq_e[:2], eps)) + list(i_in_dq_e[2:])
 
         u_in = self._converter.convert(i_in_abc_e, self._t + self._tau)
         i_sup = self._converter.i_sup(i_in_abc_e)
-- 
2.43.0


From 9cef3d636d22a3167108db1af277a5da60ee8a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:07 +0000
Subject: [PATCH 05/66] fix: report the EESM voltages in the declared state
 order on reset

---
 src/gym_electric_motor/physical_systems/physical_systems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index cf5e10b..51a2b7e 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -684,8 +684,9 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
                 [torque],
                 i_abc,
                 i_dq,
-                u_abc,
+                u_abc[:3],
                 u_dq,
+                u_abc[3:],
                 [eps],
                 u_sup,
             )
-- 
2.43.0


From 1b394cee9e8282ca5f80ebad4bf3cce749234664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 06/66] fix: coordinate transformations no longer rescale the
 caller's angle in place

---
 .../physical_systems/physical_systems.py                  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 51a2b7e..7b81632 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -361,7 +361,7 @@ class ThreePhaseMotorSystem(SCMLSystem):
             (quantity_d, quantity_q): The quantities in the dq-space
         """
         if normed_epsilon:
-            epsilon_el *= np.pi
+            epsilon_el = epsilon_el * np.pi
         dq_quantity = self._electrical_motor.q_inv(self._electrical_motor.t_23(abc_quantities), epsilon_el)
         return dq_quantity
 
@@ -378,7 +378,7 @@ class ThreePhaseMotorSystem(SCMLSystem):
             (quantity_a, quantity_b, quantity_c): The quantities in the abc-space
         """
         if normed_epsilon:
-            epsilon_el *= np.pi
+            epsilon_el = epsilon_el * np.pi
         return self._electrical_motor.t_32(self._electrical_motor.q(dq_quantities, epsilon_el))
 
     def alphabeta_to_dq_space(self, alphabeta_quantities, epsilon_el, normed_epsilon=False):
@@ -394,7 +394,7 @@ class ThreePhaseMotorSystem(SCMLSystem):
             (quantity_d, quantity_q): The quantities in the dq-space
         """
         if normed_epsilon:
-            epsilon_el *= np.pi
+            epsilon_el = epsilon_el * np.pi
         dq_quantity = self._electrical_motor.q_inv(alphabeta_quantities, epsilon_el)
         return dq_quantity
 
@@ -411,7 +411,7 @@ class ThreePhaseMotorSystem(SCMLSystem):
             (quantity_alpha, quantity_beta): The quantities in the alphabeta-space
         """
         if normed_epsilon:
-            epsilon_el *= np.pi
+            epsilon_el = epsilon_el * np.pi
         return self._electrical_motor.q(dq_quantities, epsilon_el)
 
 
-- 
2.43.0


From 2ed2f5d6c40723dd4ed11ce2ecf6554fec0b2ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 07/66] fix: return a fresh derivative from every evaluation of
 the system equation

---
 src/gym_electric_motor/physical_systems/physical_systems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 7b81632..8972e21 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -233,7 +233,7 @@ class SCMLSystem(PhysicalSystem, RandomComponent):
                 motor_state, u_in, state[self._omega_ode_idx]
             ).ravel()
 
-        return self._system_eq_placeholder
+        return self._system_eq_placeholder.copy()
 
     def _system_jacobian(self, t, state, u_in, **__):
         motor_state = state[self._motor_ode_idx]
-- 
2.43.0


From ab113da1e69e7b6f3a1e6e83c3024bf0d4b37c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 08/66] fix: transform the reported currents with the angle of
 the reported instant

---
 .../physical_systems/physical_systems.py                   | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 8972e21..6982ef8 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -516,10 +516,10 @@ class SynchronousMotorSystem(ThreePhaseMotorSystem):
         torque = self._electrical_motor.torque(ode_state[self._motor_ode_idx])
         mechanical_state = ode_state[self._load_ode_idx]
         i_dq = ode_state[self._ode_currents_idx]
-        i_abc = list(self.dq_to_abc_space(i_dq, eps))
         eps = ode_state[self._ode_epsilon_idx] % (2 * np.pi)
         if eps > np.pi:
             eps -= 2 * np.pi
+        i_abc = list(self.dq_to_abc_space(i_dq, eps))
 
         system_state = np.concatenate((mechanical_state, [torque], i_abc, i_dq, u_in, u_dq, [eps], u_sup))
         return system_state / self._limits
@@ -648,10 +648,10 @@ class ExternallyExcitedSynchronousMotorSystem(SynchronousMotorSystem):
         torque = self._electrical_motor.torque(ode_state[self._motor_ode_idx])
         mechanical_state = ode_state[self._load_ode_idx]
         i_dq_e = ode_state[self._ode_currents_idx]
-        i_abc = list(self.dq_to_abc_space(i_dq_e[:2], eps))
         eps = ode_state[self._ode_epsilon_idx] % (2 * np.pi)
         if eps > np.pi:
             eps -= 2 * np.pi
+        i_abc = list(self.dq_to_abc_space(i_dq_e[:2], eps))
 
         system_state = np.concatenate((mechanical_state, [torque], i_abc, i_dq_e, u_in[:3], u_dq_e, [eps], u_sup))
         return system_state / self._limits
@@ -804,6 +804,7 @@ class SquirrelCageInductionMotorSystem(ThreePhaseMotorSystem):
         self._k += 1
         torque = self._electrical_motor.torque(ode_state[self._motor_ode_idx])
         mechanical_state = ode_state[self._load_ode_idx]
+        eps_fs = self.calculate_field_angle(ode_state)
         i_dq = self.alphabeta_to_dq_space(ode_state[self._ode_currents_idx], eps_fs)
         i_abc = list(self.dq_to_abc_space(i_dq, eps_fs))
 
@@ -1026,6 +1027,8 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
         torque = self._electrical_motor.torque(ode_state[self._motor_ode_idx])
         mechanical_state = ode_state[self._load_ode_idx]
 
+        eps_field = self.calculate_field_angle(ode_state)
+        eps_el = ode_state[self._ode_epsilon_idx]
         i_sdq = self.alphabeta_to_dq_space(ode_state[self._ode_currents_idx], eps_field)
         i_sabc = list(self.dq_to_abc_space(i_sdq, eps_field))
 
-- 
2.43.0


From 61cd0e7bcab2e79b122bb94366c2e7bf7c9e9a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:09 +0000
Subject: [PATCH 09/66] fix: report the DFIM rotor dq currents in the field
 frame after a reset

---
 src/gym_electric_motor/physical_systems/physical_systems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 6982ef8..27487a7 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -1091,7 +1091,7 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
         i_sdq = self.alphabeta_to_dq_space(ode_state[self._ode_currents_idx], eps_field)
         i_sabc = self.dq_to_abc_space(i_sdq, eps_field)
 
-        i_rdq = self.alphabeta_to_dq_space(self.calculate_rotor_current(ode_state), eps_field - eps_el)
+        i_rdq = self.alphabeta_to_dq_space(self.calculate_rotor_current(ode_state), eps_field)
         i_rdef = self.dq_to_abc_space(i_rdq, eps_field - eps_el)
 
         torque = self.electrical_motor.torque(motor_state)
-- 
2.43.0


From 1fe721f4fe4b1fb057181ea6e7989cd7a2e670ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 10/66] fix: give the DFIM rotor converter the currents of the
 rotor frame it feeds

---
 src/gym_electric_motor/physical_systems/physical_systems.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/physical_systems.py b/src/gym_electric_motor/physical_systems/physical_systems.py
index 27487a7..aff5be4 100644
--- a/src/gym_electric_motor/physical_systems/physical_systems.py
+++ b/src/gym_electric_motor/physical_systems/physical_systems.py
@@ -985,7 +985,8 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
         eps_el = ode_state[self._ode_epsilon_idx]
 
         i_sabc = self.alphabeta_to_abc_space(self._electrical_motor.i_in(ode_state[self._ode_currents_idx]))
-        i_rdef = self.alphabeta_to_abc_space(self.calculate_rotor_current(ode_state))
+        i_rdq = self.alphabeta_to_dq_space(self.calculate_rotor_current(ode_state), eps_field)
+        i_rdef = self.dq_to_abc_space(i_rdq, eps_field - eps_el)
         switching_times = self._converter.set_action(action, self._t)
 
         for t in switching_times[:-1]:
@@ -1006,7 +1007,8 @@ class DoublyFedInductionMotorSystem(ThreePhaseMotorSystem):
             eps_field = self.calculate_field_angle(ode_state)
             eps_el = ode_state[self._ode_epsilon_idx]
             i_sabc = self.alphabeta_to_abc_space(self._electrical_motor.i_in(ode_state[self._ode_currents_idx]))
-            i_rdef = self.alphabeta_to_abc_space(self.calculate_rotor_current(ode_state))
+            i_rdq = self.alphabeta_to_dq_space(self.calculate_rotor_current(ode_state), eps_field)
+            i_rdef = self.dq_to_abc_space(i_rdq, eps_field - eps_el)
 
         u_in = self._converter.convert(np.concatenate([i_sabc, i_rdef]).tolist(), self._t + self._tau)
         i_sup = self._converter.i_sup(np.concatenate((i_sabc, i_rdef)))
-- 
2.43.0


From 4b2f1e23669ed2bbf492302838de495ee77adee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:31 +0000
Subject: [PATCH 11/66] fix: hand out the initial currents of synchronous
 motors in ODE state order

---
 .../physical_systems/electric_motors/synchronous_motor.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py
index f6b25d1..3aeb428 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py
@@ -126,7 +126,7 @@ class SynchronousMotor(ThreePhaseMotor):
         # Docstring of superclass
         if self._initializer and self._initializer["states"]:
             self.initialize(state_space, state_positions)
-            return np.asarray(list(self._initial_states.values()))
+            return np.asarray([self._initial_states[state] for state in self.CURRENTS + ["epsilon"]])
         else:
             return np.zeros(len(self.CURRENTS) + 1)
 
-- 
2.43.0


From 42e9e3632efa9cf7b724905db77738ec5aafc282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:42 +0000
Subject: [PATCH 12/66] fix: creating a DFIM no longer extends the induction
 motors' class level quantity lists

---
 .../electric_motors/doubly_fed_induction_motor.py             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
index 1eebccc..7a6f344 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
@@ -128,8 +128,8 @@ class DoublyFedInductionMotor(InductionMotor):
     }
 
     def __init__(self, **kwargs):
-        self.IO_VOLTAGES += self.IO_ROTOR_VOLTAGES
-        self.IO_CURRENTS += self.IO_ROTOR_CURRENTS
+        self.IO_VOLTAGES = self.IO_VOLTAGES + self.IO_ROTOR_VOLTAGES
+        self.IO_CURRENTS = self.IO_CURRENTS + self.IO_ROTOR_CURRENTS
         super().__init__(**kwargs)
 
     def _update_limits(self, limit_values={}, nominal_values={}):
-- 
2.43.0


From a65759d91ea8fb3258ddcf023e6bf5e7de632021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 13/66] fix: make the Ornstein-Uhlenbeck load constructible and
 seedable

---
 .../mechanical_loads/ornstein_uhlenbeck_load.py           | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py
index 18d0dca..61568a9 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/ornstein_uhlenbeck_load.py
@@ -19,22 +19,22 @@ class OrnsteinUhlenbeckLoad(MechanicalLoad):
             kwargs(dict): further arguments passed to the superclass :py:class:`.MechanicalLoad`
         """
         super().__init__(**kwargs)
-        self._omega = np.random.uniform(self._omega_range[0], self._omega_range[1], 1)
+        self._omega_range = omega_range
+        self._omega = self.random_generator.uniform(self._omega_range[0], self._omega_range[1], 1)
         self.theta = theta
         self.mu = mu
         self.tau = tau
         self.sigma = sigma
-        self._omega_range = omega_range
 
     def mechanical_ode(self, t, mechanical_state, torque):
         omega = mechanical_state
         max_diff = (self._omega_range[1] - omega) / self.tau
         min_diff = (self._omega_range[0] - omega) / self.tau
-        diff = self.theta * (self.mu - omega) * self.tau + self.sigma * np.sqrt(self.tau) * np.random.normal(size=1)
+        diff = self.theta * (self.mu - omega) * self.tau + self.sigma * np.sqrt(self.tau) * self.random_generator.normal(size=1)
         np.clip(diff, min_diff, max_diff, out=diff)
         return diff
 
     def reset(self, **kwargs):
         super().reset(**kwargs)
-        self._omega = np.random.uniform(self._omega_range[0], self._omega_range[1], 1)
+        self._omega = self.random_generator.uniform(self._omega_range[0], self._omega_range[1], 1)
         return self._omega
-- 
2.43.0


From e608d7ff3171fd334bc6d102047c78e11bcd1e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 14/66] fix: draw the initial states of three phase motors from
 the seeded generator

---
 .../electric_motors/doubly_fed_induction_motor.py               | 2 +-
 .../physical_systems/electric_motors/induction_motor.py         | 1 +
 .../electric_motors/squirrel_cage_induction_motor.py            | 2 +-
 .../physical_systems/electric_motors/synchronous_motor.py       | 1 +
 4 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
index 7a6f344..7bd06d8 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
@@ -154,7 +154,7 @@ class DoublyFedInductionMotor(InductionMotor):
     def _update_initial_limits(self, nominal_new={}, omega=None):
         # Docstring of superclass
         # draw a sample magnetic field angle from [-pi,pi]
-        eps_mag = 2 * np.pi * np.random.random_sample() - np.pi
+        eps_mag = 2 * np.pi * self.random_generator.random() - np.pi
         flux_alphabeta_limits = self._flux_limit(
             omega=omega,
             eps_mag=eps_mag,
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
index 843cce8..c456a2c 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
@@ -177,6 +177,7 @@ class InductionMotor(ThreePhaseMotor):
 
     def reset(self, state_space, state_positions, omega=None):
         # Docstring of superclass
+        self.next_generator()
         if self._initializer and self._initializer["states"]:
             self._update_initial_limits(omega=omega)
             self.initialize(state_space, state_positions)
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py
index 7730357..a120898 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py
@@ -146,7 +146,7 @@ class SquirrelCageInductionMotor(InductionMotor):
     def _update_initial_limits(self, nominal_new={}, omega=None):
         # Docstring of superclass
         # draw a sample magnetic field angle from [-pi,pi]
-        eps_mag = 2 * np.pi * np.random.random_sample() - np.pi
+        eps_mag = 2 * np.pi * self.random_generator.random() - np.pi
         flux_alphabeta_limits = self._flux_limit(omega=omega, eps_mag=eps_mag, u_q_max=self._nominal_values["u_sq"])
         # using absolute value, because limits should describe upper limit
         # after abs-operator, norm of alphabeta flux still equal to
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py
index 3aeb428..66b25eb 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/synchronous_motor.py
@@ -124,6 +124,7 @@ class SynchronousMotor(ThreePhaseMotor):
 
     def reset(self, state_space, state_positions, **__):
         # Docstring of superclass
+        self.next_generator()
         if self._initializer and self._initializer["states"]:
             self.initialize(state_space, state_positions)
             return np.asarray([self._initial_states[state] for state in self.CURRENTS + ["epsilon"]])
-- 
2.43.0


From 65450838f93a97b78f0e51ad3ce2c55f8a8f01f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 15/66] fix: keep load initializers of different load instances
 independent

---
 .../physical_systems/mechanical_loads/mechanical_load.py    | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
index d158070..49457ff 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 import warnings
 
 import numpy as np
@@ -93,8 +95,8 @@ class MechanicalLoad(RandomComponent):
         self._limits = {}
         self._nominal_values = {}
         load_initializer = load_initializer or {}
-        self._initializer = self._default_initializer.copy()
-        self._initializer.update(load_initializer)
+        self._initializer = deepcopy(self._default_initializer)
+        self._initializer.update(deepcopy(load_initializer))
         self._initial_states = self._initializer.get("states", {state: 0.0 for state in self._state_names})
 
     def initialize(self, state_space, state_positions, nominal_state, **__):
-- 
2.43.0


From 2a8af2edd67f0c3e403935a36894f470d57af019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:30 +0000
Subject: [PATCH 16/66] fix: evaluate the Euler sub-steps at their own times

---
 src/gym_electric_motor/physical_systems/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/solvers.py b/src/gym_electric_motor/physical_systems/solvers.py
index 31748df..88a863a 100644
--- a/src/gym_electric_motor/physical_systems/solvers.py
+++ b/src/gym_electric_motor/physical_systems/solvers.py
@@ -112,9 +112,9 @@ class EulerSolver(OdeSolver):
         """
         tau = (t - self._t) / self._nsteps
         state = self._y
-        current_t = t
+        current_t = self._t
         for _ in range(self._nsteps):
-            delta = self._system_equation(current_t + tau, state, *self._f_params) * tau
+            delta = self._system_equation(current_t, state, *self._f_params) * tau
             state = state + delta
             current_t += tau
         self._y = state
-- 
2.43.0


From f4edc6e2f0351252b39b02d923580362b740fe52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 17/66] fix: AC supplies no longer write a phase into the
 caller's parameter dictionary

---
 src/gym_electric_motor/physical_systems/voltage_supplies.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/voltage_supplies.py b/src/gym_electric_motor/physical_systems/voltage_supplies.py
index 9dcba41..f997fc3 100644
--- a/src/gym_electric_motor/physical_systems/voltage_supplies.py
+++ b/src/gym_electric_motor/physical_systems/voltage_supplies.py
@@ -146,7 +146,7 @@ class AC1PhaseSupply(VoltageSupply):
                 self._fixed_phi = True
                 supply_parameter = supply_parameter
             else:
-                supply_parameter["phase"] = np.random.rand() * 2 * np.pi
+                supply_parameter = dict(supply_parameter, phase=np.random.rand() * 2 * np.pi)
         else:
             supply_parameter = {"frequency": 50, "phase": np.random.rand() * 2 * np.pi}
 
@@ -190,7 +190,7 @@ class AC3PhaseSupply(VoltageSupply):
                 self._fixed_phi = True
                 supply_parameter = supply_parameter
             else:
-                supply_parameter["phase"] = np.random.rand() * 2 * np.pi
+                supply_parameter = dict(supply_parameter, phase=np.random.rand() * 2 * np.pi)
         else:
             supply_parameter = {"frequency": 50, "phase": np.random.rand() * 2 * np.pi}
 
-- 
2.43.0


From 2198c873577ef3a9e582644458f99a797c8c0358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 18/66] fix: draw the phase of AC supplies from the seeded
 generator

---
 .../physical_systems/voltage_supplies.py      | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/voltage_supplies.py b/src/gym_electric_motor/physical_systems/voltage_supplies.py
index f997fc3..ee51299 100644
--- a/src/gym_electric_motor/physical_systems/voltage_supplies.py
+++ b/src/gym_electric_motor/physical_systems/voltage_supplies.py
@@ -2,6 +2,7 @@ import warnings
 
 import numpy as np
 
+from ..random_component import RandomComponent
 from gym_electric_motor.physical_systems.solvers import EulerSolver
 
 
@@ -123,7 +124,7 @@ class RCVoltageSupply(VoltageSupply):
         return self._u_sup
 
 
-class AC1PhaseSupply(VoltageSupply):
+class AC1PhaseSupply(VoltageSupply, RandomComponent):
     """AC one phase voltage supply"""
 
     def __init__(self, u_nominal=230, supply_parameter=None):
@@ -134,6 +135,7 @@ class AC1PhaseSupply(VoltageSupply):
         """
 
         super().__init__(u_nominal)
+        RandomComponent.__init__(self)
 
         self._fixed_phi = False
         if supply_parameter is not None:
@@ -146,9 +148,9 @@ class AC1PhaseSupply(VoltageSupply):
                 self._fixed_phi = True
                 supply_parameter = supply_parameter
             else:
-                supply_parameter = dict(supply_parameter, phase=np.random.rand() * 2 * np.pi)
+                supply_parameter = dict(supply_parameter, phase=self.random_generator.random() * 2 * np.pi)
         else:
-            supply_parameter = {"frequency": 50, "phase": np.random.rand() * 2 * np.pi}
+            supply_parameter = {"frequency": 50, "phase": self.random_generator.random() * 2 * np.pi}
 
         self._f = supply_parameter["frequency"]
         self._phi = supply_parameter["phase"]
@@ -156,8 +158,9 @@ class AC1PhaseSupply(VoltageSupply):
         self.supply_range = [-1 * self._max_amp, self._max_amp]
 
     def reset(self):
+        self.next_generator()
         if not self._fixed_phi:
-            self._phi = np.random.rand() * 2 * np.pi
+            self._phi = self.random_generator.random() * 2 * np.pi
         return self.get_voltage(0)
 
     def get_voltage(self, t, *_, **__):
@@ -166,7 +169,7 @@ class AC1PhaseSupply(VoltageSupply):
         return self._u_sup
 
 
-class AC3PhaseSupply(VoltageSupply):
+class AC3PhaseSupply(VoltageSupply, RandomComponent):
     """AC three phase voltage supply"""
 
     voltage_len = 3
@@ -179,6 +182,7 @@ class AC3PhaseSupply(VoltageSupply):
         """
 
         super().__init__(u_nominal)
+        RandomComponent.__init__(self)
         self._fixed_phi = False
         if supply_parameter is not None:
             assert isinstance(supply_parameter, dict), "supply_parameter should be a dict"
@@ -190,9 +194,9 @@ class AC3PhaseSupply(VoltageSupply):
                 self._fixed_phi = True
                 supply_parameter = supply_parameter
             else:
-                supply_parameter = dict(supply_parameter, phase=np.random.rand() * 2 * np.pi)
+                supply_parameter = dict(supply_parameter, phase=self.random_generator.random() * 2 * np.pi)
         else:
-            supply_parameter = {"frequency": 50, "phase": np.random.rand() * 2 * np.pi}
+            supply_parameter = {"frequency": 50, "phase": self.random_generator.random() * 2 * np.pi}
 
         self._f = supply_parameter["frequency"]
         self._phi = supply_parameter["phase"]
@@ -201,8 +205,9 @@ class AC3PhaseSupply(VoltageSupply):
 
     def reset(self):
         # Docstring of superclass
+        self.next_generator()
         if not self._fixed_phi:
-            self._phi = np.random.rand() * 2 * np.pi
+            self._phi = self.random_generator.random() * 2 * np.pi
         return self.get_voltage(0)
 
     def get_voltage(self, t, *_, **__):
-- 
2.43.0


From 537e2cf9393eadea6b50ac22be2658b653211264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:48 +0000
Subject: [PATCH 19/66] fix: return the initial motor state in the order of the
 ODE state, not of the user's dictionary

---
 .../physical_systems/electric_motors/electric_motor.py          | 2 +-
 .../physical_systems/electric_motors/induction_motor.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
index e3ad6d8..2564daf 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
@@ -280,7 +280,7 @@ class ElectricMotor(RandomComponent):
         self.next_generator()
         if self._initializer and self._initializer["states"]:
             self.initialize(state_space, state_positions)
-            return np.asarray(list(self._initial_states.values()))
+            return np.asarray([self._initial_states[state] for state in self.CURRENTS])
         else:
             return np.zeros(len(self.CURRENTS))
 
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
index c456a2c..1b146f4 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/induction_motor.py
@@ -181,7 +181,7 @@ class InductionMotor(ThreePhaseMotor):
         if self._initializer and self._initializer["states"]:
             self._update_initial_limits(omega=omega)
             self.initialize(state_space, state_positions)
-            return np.asarray(list(self._initial_states.values()))
+            return np.asarray([self._initial_states[state] for state in self.CURRENTS + self.FLUXES + ["epsilon"]])
         else:
             return np.zeros(len(self.CURRENTS) + len(self.FLUXES) + 1)
 
-- 
2.43.0


From 464c8adfb7707b4e63d81da4d47b28cc895dc5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:08 +0000
Subject: [PATCH 20/66] fix: derive the EESM torque limit from the excitation
 flux

---
 .../electric_motors/externally_excited_synchronous_motor.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/externally_excited_synchronous_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/externally_excited_synchronous_motor.py
index 2095779..88ccec9 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/externally_excited_synchronous_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/externally_excited_synchronous_motor.py
@@ -188,7 +188,7 @@ class ExternallyExcitedSynchronousMotor(SynchronousMotor):
             return self.torque([0, self._limits["i_sq"], self._limits["i_e"], 0])
         else:
             i_n = self.nominal_values["i"]
-            _p = mp["l_M"] * i_n / (2 * (mp["l_d"] - mp["l_q"]))
+            _p = mp["l_M"] * self._limits["i_e"] * mp["i_k_rs"] / (2 * (mp["l_d"] - mp["l_q"]))
             _q = - i_n ** 2 / 2
             if mp["l_d"] < mp["l_q"]:
                 i_d_opt = - _p / 2 - np.sqrt((_p / 2) ** 2 - _q)
-- 
2.43.0


From 1b00b55e42063f40dfcf5c866458b8b23f3d41dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:18 +0000
Subject: [PATCH 21/66] fix: check constant initial fluxes independently of the
 randomly drawn field angle

---
 .../electric_motors/doubly_fed_induction_motor.py              | 3 +++
 .../electric_motors/squirrel_cage_induction_motor.py           | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
index 7bd06d8..e82c6e9 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/doubly_fed_induction_motor.py
@@ -161,5 +161,8 @@ class DoublyFedInductionMotor(InductionMotor):
             u_q_max=self._nominal_values["u_sq"],
             u_rq_max=self._nominal_values["u_rq"],
         )
+        if self._initializer["random_init"] is None:
+            # constant initial values are checked against the flux amplitude, which does not depend on the sampled angle
+            flux_alphabeta_limits = np.full(2, np.linalg.norm(flux_alphabeta_limits))
         flux_nominal_limits = {state: value for state, value in zip(self.FLUXES, flux_alphabeta_limits)}
         super()._update_initial_limits(flux_nominal_limits)
diff --git a/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py
index a120898..b69f075 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/squirrel_cage_induction_motor.py
@@ -148,6 +148,9 @@ class SquirrelCageInductionMotor(InductionMotor):
         # draw a sample magnetic field angle from [-pi,pi]
         eps_mag = 2 * np.pi * self.random_generator.random() - np.pi
         flux_alphabeta_limits = self._flux_limit(omega=omega, eps_mag=eps_mag, u_q_max=self._nominal_values["u_sq"])
+        if self._initializer["random_init"] is None:
+            # constant initial values are checked against the flux amplitude, which does not depend on the sampled angle
+            flux_alphabeta_limits = np.full(2, np.linalg.norm(flux_alphabeta_limits))
         # using absolute value, because limits should describe upper limit
         # after abs-operator, norm of alphabeta flux still equal to
         # d-component of flux
-- 
2.43.0


From 09e0cbdc2bd0124512f88b6e50ff5cf00ceaaf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:00 +0000
Subject: [PATCH 22/66] fix: allow polynomial loads without an own moment of
 inertia

---
 .../mechanical_loads/polynomial_static_load.py                | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/polynomial_static_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/polynomial_static_load.py
index 108faa0..c7ff092 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/polynomial_static_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/polynomial_static_load.py
@@ -79,8 +79,8 @@ class PolynomialStaticLoad(MechanicalLoad):
         self._a = self._load_parameter["a"]
         self._b = self._load_parameter["b"]
         self._c = self._load_parameter["c"]
-        # Speed value at which the linear behavior switches to constant
-        self._omega_lim = self._a / self._j_total * self.tau_decay
+        # Speed value at which the linear behavior switches to constant (a massless load gets its inertia from the rotor)
+        self._omega_lim = self._a / self._j_total * self.tau_decay if self._j_total > 0 else 0.0
         # Slope for the linear growth of the constant load part around zero speed
         self._omega_linear_factor = self._j_total / self.tau_decay
 
-- 
2.43.0


From ef73cd6e3c4fe2a6a5c5f44f8fb57cca266a5948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:11 +0000
Subject: [PATCH 23/66] fix: merge constraint violations to their probabilistic
 union

---
 src/gym_electric_motor/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index 47b5f2a..135b719 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -814,7 +814,7 @@ class ConstraintMonitor:
             self._merge_violations = max
         elif merge_violations == "product":
 
-            def product_merge(*violation_degrees):
+            def product_merge(violation_degrees):
                 return 1 - np.prod([(1 - violation) for violation in violation_degrees])
 
             self._merge_violations = product_merge
-- 
2.43.0


From 61d52488064d5ae7ddf3c73423889186ca1d0e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:21 +0000
Subject: [PATCH 24/66] fix: observe constraints given to the environment as
 plain functions

---
 src/gym_electric_motor/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index 135b719..51a1935 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -258,7 +258,7 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
             cm = constraints
         else:
             limit_constraints = [constraint for constraint in constraints if isinstance(constraint, str)]
-            additional_constraints = [constraint for constraint in constraints if isinstance(constraint, Constraint)]
+            additional_constraints = [constraint for constraint in constraints if not isinstance(constraint, str)]
             cm = ConstraintMonitor(limit_constraints, additional_constraints)
         self._constraint_monitor = cm
 
-- 
2.43.0


From 70d7a5e0f83a83735fd9a5ed5bc1dfdf9a21d2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:49 +0000
Subject: [PATCH 25/66] fix: name the referenced state of the constant
 reference in a list

---
 .../reference_generators/const_reference_generator.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/reference_generators/const_reference_generator.py b/src/gym_electric_motor/reference_generators/const_reference_generator.py
index 82cd42a..c2f8f84 100644
--- a/src/gym_electric_motor/reference_generators/const_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/const_reference_generator.py
@@ -21,7 +21,7 @@ class ConstReferenceGenerator(ReferenceGenerator):
         self._reference_value = reference_value
         self._reference_state = reference_state.lower()
         self.reference_space = Box(np.array([reference_value]), np.array([reference_value]), dtype=np.float64)
-        self._reference_names = self._reference_state
+        self._reference_names = [self._reference_state]
 
     def set_modules(self, physical_system):
         # docstring from superclass
-- 
2.43.0


From 09ea675be907c510b972dd064e769f5b3794bb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:57 +0000
Subject: [PATCH 26/66] fix: count the reset reference to the first super
 episode of switched references

---
 .../reference_generators/switched_reference_generator.py        | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gym_electric_motor/reference_generators/switched_reference_generator.py b/src/gym_electric_motor/reference_generators/switched_reference_generator.py
index bb6d585..79dc937 100644
--- a/src/gym_electric_motor/reference_generators/switched_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/switched_reference_generator.py
@@ -65,6 +65,8 @@ class SwitchedReferenceGenerator(ReferenceGenerator, RandomComponent):
     def reset(self, initial_state=None, initial_reference=None):
         self.next_generator()
         self._reset_reference()
+        # The reset already returns the first reference of the super episode
+        self._k = 1
         return self._current_ref_generator.reset(initial_state, initial_reference)
 
     def get_reference(self, state, **kwargs):
-- 
2.43.0


From b71284e0306474c8a0276770a33cc1229a627f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:25 +0000
Subject: [PATCH 27/66] fix: keep the delayed action when the caller reuses its
 action array

---
 .../physical_system_wrappers/dead_time_processor.py            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
index 44c7090..fa15b40 100644
--- a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
@@ -1,4 +1,5 @@
 from collections import deque
+from copy import copy
 
 import gymnasium.spaces
 import numpy as np
@@ -81,5 +82,5 @@ class DeadTimeProcessor(PhysicalSystemWrapper):
             numpy.ndarray[float]: The next state of the system.
         """
         active_action = self._action_deque.pop()
-        self._action_deque.appendleft(action)
+        self._action_deque.appendleft(copy(action))
         return self._physical_system.simulate(active_action)
-- 
2.43.0


From 86d3dfee4e6450ed4ceeeb2ad99ffb10b9adf1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:33 +0000
Subject: [PATCH 28/66] fix: delay flat zero actions for multi-discrete action
 spaces

---
 .../physical_system_wrappers/dead_time_processor.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
index fa15b40..0c11f72 100644
--- a/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/dead_time_processor.py
@@ -50,7 +50,7 @@ class DeadTimeProcessor(PhysicalSystemWrapper):
             if isinstance(action_space, gymnasium.spaces.Discrete):
                 reset_action = 0
             elif isinstance(action_space, gymnasium.spaces.MultiDiscrete):
-                reset_action = [np.zeros_like(action_space.nvec)]
+                reset_action = np.zeros_like(action_space.nvec)
             elif isinstance(action_space, gymnasium.spaces.Box):
                 reset_action = np.zeros(action_space.shape, dtype=np.float64)
             else:
-- 
2.43.0


From 6a9fba78bb2af8e5fb85352168cecc22aea1224e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:42 +0000
Subject: [PATCH 29/66] fix: remove the angle from the reset state, too

---
 .../physical_system_wrappers/cos_sin_processor.py               | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gym_electric_motor/physical_system_wrappers/cos_sin_processor.py b/src/gym_electric_motor/physical_system_wrappers/cos_sin_processor.py
index ec875f3..4420554 100644
--- a/src/gym_electric_motor/physical_system_wrappers/cos_sin_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/cos_sin_processor.py
@@ -52,6 +52,8 @@ class CosSinProcessor(PhysicalSystemWrapper):
     def reset(self):
         # Docstring of super class
         state = self._physical_system.reset()
+        if self._remove_angle:
+            return self._delete_angle(self._get_cos_sin(state))
         return self._get_cos_sin(state)
 
     def simulate(self, action):
-- 
2.43.0


From d7cf9797188bc964e5d03d36d1f6b637afb96e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:52 +0000
Subject: [PATCH 30/66] fix: sum up currents of different limits in their
 physical unit

---
 .../physical_system_wrappers/current_sum_processor.py          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/current_sum_processor.py b/src/gym_electric_motor/physical_system_wrappers/current_sum_processor.py
index 7efc20d..7dadb8f 100644
--- a/src/gym_electric_motor/physical_system_wrappers/current_sum_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/current_sum_processor.py
@@ -62,4 +62,5 @@ class CurrentSumProcessor(PhysicalSystemWrapper):
         Returns:
             float: The summation of the currents of the state.
         """
-        return np.sum(state[self._current_indices])
+        currents = state[self._current_indices] * self._physical_system.limits[self._current_indices]
+        return np.sum(currents) / self._limits[-1]
-- 
2.43.0


From 262e5eab829e3817b73c236a3cf9ee428c93c3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:05 +0000
Subject: [PATCH 31/66] fix: support the documented shortcut 'all' of the state
 noise

---
 .../physical_system_wrappers/state_noise_processor.py          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/state_noise_processor.py b/src/gym_electric_motor/physical_system_wrappers/state_noise_processor.py
index 76d8663..a6055b3 100644
--- a/src/gym_electric_motor/physical_system_wrappers/state_noise_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/state_noise_processor.py
@@ -65,7 +65,8 @@ class StateNoiseProcessor(PhysicalSystemWrapper):
     def set_physical_system(self, physical_system):
         # Docstring from super class
         super().set_physical_system(physical_system)
-        self._state_indices = [physical_system.state_positions[state_name] for state_name in self._states]
+        states = physical_system.state_names if self._states == "all" else self._states
+        self._state_indices = [physical_system.state_positions[state_name] for state_name in states]
         return self
 
     def reset(self):
-- 
2.43.0


From 816405d3dfac2d2db09003234de86ef9c91a83c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:15 +0000
Subject: [PATCH 32/66] fix: refer the DFIM stator action to the flux angle

---
 .../physical_system_wrappers/dq_to_abc_action_processor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_system_wrappers/dq_to_abc_action_processor.py b/src/gym_electric_motor/physical_system_wrappers/dq_to_abc_action_processor.py
index f6ef88a..1d42806 100644
--- a/src/gym_electric_motor/physical_system_wrappers/dq_to_abc_action_processor.py
+++ b/src/gym_electric_motor/physical_system_wrappers/dq_to_abc_action_processor.py
@@ -135,8 +135,11 @@ class _DFIMDqToAbcActionProcessor(DqToAbcActionProcessor):
         advanced_angle = self._advance_angle(self._state)
         dq_action_stator = action[:2]
         dq_action_rotor = action[2:]
-        abc_action_stator = self._transformation(dq_action_stator, advanced_angle)
-        abc_action_rotor = self._transformation(dq_action_rotor, self._state[self._flux_angle_index] - advanced_angle)
+        # The stator action refers to the flux angle, that is advanced by the same angle as the rotor position.
+        flux_angle = self._state[self._flux_angle_index]
+        advanced_flux_angle = flux_angle + advanced_angle - self._state[self._angle_index]
+        abc_action_stator = self._transformation(dq_action_stator, advanced_flux_angle)
+        abc_action_rotor = self._transformation(dq_action_rotor, flux_angle - advanced_angle)
         abc_action = np.concatenate((abc_action_stator, abc_action_rotor))
         normalized_state = self._physical_system.simulate(abc_action)
         self._state = normalized_state * self._physical_system.limits
-- 
2.43.0


From b0c8ce79784459d72852b3ed0387dbf8d15d00ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:42 +0000
Subject: [PATCH 33/66] fix: seed the generators of physical system wrappers

---
 .../physical_system_wrappers/physical_system_wrapper.py      | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py b/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py
index bb4332c..e5c7161 100644
--- a/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py
+++ b/src/gym_electric_motor/physical_system_wrappers/physical_system_wrapper.py
@@ -1,3 +1,5 @@
+import numpy as np
+
 import gym_electric_motor as gem
 
 from ..random_component import RandomComponent
@@ -107,6 +109,9 @@ class PhysicalSystemWrapper(gem.core.PhysicalSystem, RandomComponent):
 
     def seed(self, seed=None):
         # docstring of super class RandomComponent
+        if seed is None:
+            seed = np.random.SeedSequence()
+        RandomComponent.seed(self, seed.spawn(1)[0])
         if isinstance(self._physical_system, RandomComponent):
             self._physical_system.seed(seed)
 
-- 
2.43.0


From 8017f432d7053ec6bb864200753ef6cad01c8177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:51 +0000
Subject: [PATCH 34/66] fix: draw gaussian initial values from the seeded
 generator

---
 .../physical_systems/electric_motors/electric_motor.py          | 2 +-
 .../physical_systems/mechanical_loads/mechanical_load.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
index 2564daf..40bf90e 100644
--- a/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
+++ b/src/gym_electric_motor/physical_systems/electric_motors/electric_motor.py
@@ -247,7 +247,7 @@ class ElectricMotor(RandomComponent):
                     loc=mue,
                     scale=sigma,
                     size=(len(self._initial_states.keys())),
-                    random_state=self.seed_sequence.pool[0],
+                    random_state=self._random_generator,
                 )
                 # writing initial values in initial_states dict
                 random_states = {state: initial_value[idx] for idx, state in enumerate(self._initial_states.keys())}
diff --git a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
index 49457ff..707e405 100644
--- a/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
+++ b/src/gym_electric_motor/physical_systems/mechanical_loads/mechanical_load.py
@@ -150,7 +150,7 @@ class MechanicalLoad(RandomComponent):
                     loc=mue,
                     scale=sigma,
                     size=(len(self._initial_states.keys())),
-                    random_state=self.seed_sequence.pool[0],
+                    random_state=self._random_generator,
                 )
                 random_states = {state: initial_value[idx] for idx, state in enumerate(self._initial_states.keys())}
                 self._initial_states.update(random_states)
-- 
2.43.0


From c7fb63ff1dcae55659a396685ba51032484ea84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:40 +0000
Subject: [PATCH 35/66] fix: clip by the length of the reference vector, not by
 its square

---
 .../stages/clipping_stages/combined_clipping_stage.py       | 6 ++++--
 .../stages/clipping_stages/squared_clipping_stage.py        | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py b/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py
index 8396bc3..e74d576 100644
--- a/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py
+++ b/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py
@@ -35,11 +35,13 @@ class CombinedClippingStage(ClippingStage):
 
     def __call__(self, state, reference):
         clipped = np.zeros(np.size(self._squared_clipped_states) + np.size(self._absolute_clipped_states))
-        relative_reference_length = np.sum((reference[self._squared_clipped_states] / self._limit_squred_clipping) ** 2)
+        relative_reference_length = np.sqrt(
+            np.sum((reference[self._squared_clipped_states] / self._limit_squred_clipping) ** 2)
+        )
         relative_maximum = 1 - self._margin
         clipped[self._squared_clipped_states] = (
             reference[self._squared_clipped_states]
-            if relative_reference_length < relative_maximum**2
+            if relative_reference_length < relative_maximum
             else reference[self._squared_clipped_states] / relative_reference_length * relative_maximum
         )
 
diff --git a/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py b/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
index d7fede1..50fca8d 100644
--- a/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
+++ b/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
@@ -51,11 +51,11 @@ class SquaredClippingStage(ClippingStage):
             clipped_reference(np.ndarray): The reference of a controller stage clipped to the limit.
         """
 
-        relative_reference_length = np.sum((reference / self._limits) ** 2)
+        relative_reference_length = np.sqrt(np.sum((reference / self._limits) ** 2))
         relative_maximum = 1 - self._margin
         clipped = (
             reference
-            if relative_reference_length < relative_maximum**2
+            if relative_reference_length < relative_maximum
             else reference / relative_reference_length * relative_maximum
         )
         self._clipping_difference = reference - clipped
-- 
2.43.0


From 3a280419b3fcebab1fc0375f69cb2f3007fb4e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:53 +0000
Subject: [PATCH 36/66] fix: apply the margin of the vector clipping stages
 exactly once

---
 .../stages/clipping_stages/combined_clipping_stage.py          | 3 ++-
 .../stages/clipping_stages/squared_clipping_stage.py           | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py b/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py
index e74d576..296e4c2 100644
--- a/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py
+++ b/src/gem_controllers/stages/clipping_stages/combined_clipping_stage.py
@@ -84,7 +84,8 @@ class CombinedClippingStage(ClippingStage):
         state_space = env.observation_space[0]
         lower_action_limit = state_space.low[action_indices] * limits
         upper_action_limit = state_space.high[action_indices] * limits
-        self._limit_squred_clipping = limits[squared_clipped_state]
+        # The margin of the squared clipped states is considered by the relative maximum of the vector length
+        self._limit_squred_clipping = env.limits[action_indices][squared_clipped_state]
         self._action_range_absolute = (
             lower_action_limit[absoulte_clipped_states],
             upper_action_limit[absoulte_clipped_states],
diff --git a/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py b/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
index 50fca8d..e17de27 100644
--- a/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
+++ b/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
@@ -71,6 +71,7 @@ class SquaredClippingStage(ClippingStage):
             margin(float): Percentage, how far the value should be clipped below the limit.
         """
 
+        self._margin = margin
         motor_type = gc.utils.get_motor_type(env_id)
         state_names = []
         if self._control_task == "CC":
-- 
2.43.0


From 6d97000676bf60be10750ec4c65f0c0e8e0e63ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:04 +0000
Subject: [PATCH 37/66] fix: apply the clipped voltage reference of the PI
 current controller

---
 src/gem_controllers/pi_current_controller.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gem_controllers/pi_current_controller.py b/src/gem_controllers/pi_current_controller.py
index b43e710..f9f8f8a 100644
--- a/src/gem_controllers/pi_current_controller.py
+++ b/src/gem_controllers/pi_current_controller.py
@@ -163,7 +163,8 @@ class PICurrentController(gc.CurrentController):
             voltage_reference = self._emf_feedforward(state, voltage_reference)
 
         # Clip the voltage inputs to the action space
-        self._voltage_reference = self._clipping_stage(state, voltage_reference)
+        voltage_reference = self._clipping_stage(state, voltage_reference)
+        self._voltage_reference = voltage_reference
 
         # Transform the voltages in the correct coordinate system
         if self._coordinate_transformation_required:
-- 
2.43.0


From 7e17bec04371465afbcbe07a4ca535b39de4b1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:18 +0000
Subject: [PATCH 38/66] fix: return the action range of the squared clipping
 stage

---
 .../stages/clipping_stages/squared_clipping_stage.py           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py b/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
index e17de27..7d5dcfa 100644
--- a/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
+++ b/src/gem_controllers/stages/clipping_stages/squared_clipping_stage.py
@@ -26,7 +26,8 @@ class SquaredClippingStage(ClippingStage):
     @property
     def action_range(self):
         """Action range of the controller stage"""
-        return []
+        limits = (1 - self._margin) * self._limits
+        return -limits, limits
 
     def __init__(self, control_task="CC"):
         """
-- 
2.43.0


From 6e8a2406753d57ab1c9a87ed805ed5f2f277cbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:29 +0000
Subject: [PATCH 39/66] fix: use the builtin complex instead of the removed
 np.complex

---
 .../stages/operation_point_selection/eesm_ops.py              | 2 +-
 .../stages/operation_point_selection/pmsm_ops.py              | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
index 3e84c95..5217547 100644
--- a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
@@ -181,7 +181,7 @@ class EESMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         self.i_e_opt = sp_interpolate.interp1d(best_params[:, 0], best_params[:, 4], kind="cubic")
 
         self.t_grid, self.psi_grid = np.mgrid[
-            0 : self.t_max : np.complex(0, self.t_grid_count), 0 : self.psi_max : np.complex(self.psi_grid_count)
+            0 : self.t_max : complex(0, self.t_grid_count), 0 : self.psi_max : complex(self.psi_grid_count)
         ]
 
         self.i_d_inter = sp_interpolate.griddata(
diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index 6a828b1..ac7970a 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -236,8 +236,8 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
 
             # Define the grid for the torque and fluxes
             self.t_grid, self.psi_grid = np.mgrid[
-                np.amin(t) : np.amax(t) : np.complex(0, self.t_count),
-                self.psi_min : self.psi_max : np.complex(self.psi_count),
+                np.amin(t) : np.amax(t) : complex(0, self.t_count),
+                self.psi_min : self.psi_max : complex(self.psi_count),
             ]
 
             # Interpolate the functions
-- 
2.43.0


From 2c5ef20d077514f2eef0339ff4f1c8d72b366f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:40 +0000
Subject: [PATCH 40/66] fix: set the resistance of the PermExDc operation point
 selection

---
 .../stages/operation_point_selection/permex_dc_ops.py            | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py b/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py
index aaafc52..8a38ef1 100644
--- a/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py
@@ -88,4 +88,5 @@ class PermExDcOperationPointSelection(OperationPointSelection):
         voltages = reader.voltages[motor]
         voltage_indices = [env.state_names.index(voltage) for voltage in voltages]
         self._voltage_limit = env.limits[voltage_indices]
+        self._resistance = reader.r_reader[motor](env)
         self._omega_index = env.state_names.index("omega")
-- 
2.43.0


From f30f8927ea33607ad3d9ee3f99ce633479591a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:50 +0000
Subject: [PATCH 41/66] fix: compute the PermExDc maximum current per speed
 from the voltage equation

---
 .../stages/operation_point_selection/permex_dc_ops.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py b/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py
index 8a38ef1..15f7d7a 100644
--- a/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/permex_dc_ops.py
@@ -71,7 +71,7 @@ class PermExDcOperationPointSelection(OperationPointSelection):
 
     def _max_current_per_speed(self, state):
         """Calculate the maximum current for a given speed."""
-        return self._voltage_limit / (self._resistance + self._magnetic_flux * abs(state[self._omega_index]))
+        return (self._voltage_limit - self._magnetic_flux * abs(state[self._omega_index])) / self._resistance
 
     def tune(self, env, env_id, current_safety_margin=0.2):
         """
-- 
2.43.0


From eedc1fe8c550515e9a37724ffcbfb59a5e4940bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:59 +0000
Subject: [PATCH 42/66] fix: advance the abc transformation by the electrical
 angle per sampling time

---
 src/gem_controllers/stages/abc_transformation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/stages/abc_transformation.py b/src/gem_controllers/stages/abc_transformation.py
index 59d51ec..3861054 100644
--- a/src/gem_controllers/stages/abc_transformation.py
+++ b/src/gem_controllers/stages/abc_transformation.py
@@ -38,6 +38,7 @@ class AbcTransformation(Stage):
         self.omega_idx = None
         self.angle_idx = None
         self._output_len = None
+        self._p = 1
 
     def __call__(self, state, reference):
         """
@@ -57,8 +58,8 @@ class AbcTransformation(Stage):
         return output
 
     def _angle_advance(self, state):
-        """Multiply the advance factor with the speed and the sampling time to calculate the advance angle"""
-        return state[self.angle_idx] + self._advance_factor * self.tau * state[self.omega_idx]
+        """Multiply the advance factor with the electrical speed and the sampling time to calculate the advance angle"""
+        return state[self.angle_idx] + self._advance_factor * self.tau * self._p * state[self.omega_idx]
 
     def tune(self, env, env_id, **_):
         """
@@ -73,6 +74,8 @@ class AbcTransformation(Stage):
         else:
             self.angle_idx = env.state_names.index("epsilon")
         self.omega_idx = env.state_names.index("omega")
+        self.tau = env.physical_system.tau
+        self._p = reader.p_reader[gc.utils.get_motor_type(env_id)](env)
         if hasattr(env.physical_system.converter, "dead_time"):
             self._advance_factor = 1.5 if env.physical_system.converter.dead_time else 0.5
         else:
-- 
2.43.0


From dfaa10bdf334becd3f49cfc264cf69fa9c10c70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:11 +0000
Subject: [PATCH 43/66] fix: use the electrical speed in the induction motor
 feedforward

---
 src/gem_controllers/stages/emf_feedforward_ind.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/stages/emf_feedforward_ind.py b/src/gem_controllers/stages/emf_feedforward_ind.py
index 6b2c64b..f822b51 100644
--- a/src/gem_controllers/stages/emf_feedforward_ind.py
+++ b/src/gem_controllers/stages/emf_feedforward_ind.py
@@ -30,7 +30,7 @@ class EMFFeedforwardInd(EMFFeedforward):
         """
 
         # Calculate the stator angular velocity
-        omega_s = state[self.omega_idx] + self.r_r * self.l_m / self.l_r * state[self.i_sq_idx] / max(
+        omega_s = self.omega_el(state) + self.r_r * self.l_m / self.l_r * state[self.i_sq_idx] / max(
             np.abs(state[self.psi_abs_idx]), 1e-4
         ) * np.sign(state[self.psi_abs_idx])
 
@@ -38,7 +38,7 @@ class EMFFeedforwardInd(EMFFeedforward):
         action = (
             reference
             + omega_s * self.inductance * state[self.current_indices]
-            + np.array([-self.l_m * self.r_r / (self.l_r**2), state[self.omega_idx] * self.l_m / self.l_r])
+            + np.array([-self.l_m * self.r_r / (self.l_r**2), self.omega_el(state) * self.l_m / self.l_r])
             * state[self.psi_abs_idx]
         )
 
-- 
2.43.0


From 0a194421af726eb6677ff23bd71e6f918f860ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:25 +0000
Subject: [PATCH 44/66] fix: enable the emf feedforward of the ExtExDc and
 PermExDc motors

---
 src/gem_controllers/parameter_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/parameter_reader.py b/src/gem_controllers/parameter_reader.py
index 7f4f626..6668b0f 100644
--- a/src/gem_controllers/parameter_reader.py
+++ b/src/gem_controllers/parameter_reader.py
@@ -26,8 +26,8 @@ psi_reader = {
 p_reader = {
     "SeriesDc": lambda env: 1,
     "ShuntDc": lambda env: 1,
-    "ExtExDc": lambda env: 0,
-    "PermExDc": lambda env: 0,
+    "ExtExDc": lambda env: 1,
+    "PermExDc": lambda env: 1,
     "PMSM": lambda env: env.physical_system.electrical_motor.motor_parameter["p"],
     "SynRM": lambda env: env.physical_system.electrical_motor.motor_parameter["p"],
     "SCIM": lambda env: env.physical_system.electrical_motor.motor_parameter["p"],
-- 
2.43.0


From c59977b23362fda93543f35d247e77cb5f153e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:35 +0000
Subject: [PATCH 45/66] fix: accept the time constant in the tuning of the P
 controller

---
 src/gem_controllers/stages/base_controllers/p_controller.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/stages/base_controllers/p_controller.py b/src/gem_controllers/stages/base_controllers/p_controller.py
index 57d1f2b..b76b334 100644
--- a/src/gem_controllers/stages/base_controllers/p_controller.py
+++ b/src/gem_controllers/stages/base_controllers/p_controller.py
@@ -80,7 +80,7 @@ class PController(BaseController):
         """
         return self._control(state[self._state_indices], reference)
 
-    def tune(self, env, env_id, a=4):
+    def tune(self, env, env_id, a=4, t_n=None):
         """
         Tune the controller for the desired control task.
 
@@ -88,12 +88,13 @@ class PController(BaseController):
             env(ElectricMotorEnvironment): The GEM-Environment that the controller shall be created for.
             env_id(str): The corresponding environment-id to specify the concrete environment.
             a(float): Design parameter of the symmetrical optimum.
+            t_n(float): Time constant of the underlying controller stage.
         """
 
         if self._control_task == EBaseControllerTask.CurrentControl:
             self._tune_current_controller(env, env_id, a)
         elif self._control_task == EBaseControllerTask.SpeedControl:
-            self._tune_speed_controller(env, env_id, a)
+            self._tune_speed_controller(env, env_id, a, t_n)
         else:
             raise Exception(f"No Tuner available for control task{self._control_task}.")
 
-- 
2.43.0


From 82891877e9ee734f1ab6aa5db18ac55674a436a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:44 +0000
Subject: [PATCH 46/66] fix: pass the time constant to the speed tuning of the
 PID controller

---
 src/gem_controllers/stages/base_controllers/pid_controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/base_controllers/pid_controller.py b/src/gem_controllers/stages/base_controllers/pid_controller.py
index f91f609..04dd99e 100644
--- a/src/gem_controllers/stages/base_controllers/pid_controller.py
+++ b/src/gem_controllers/stages/base_controllers/pid_controller.py
@@ -64,5 +64,5 @@ class PIDController(PIController):
             t_n(float): Time constant of the underlying torque controller.
         """
 
-        super()._tune_speed_controller(env, env_id, a)
+        super()._tune_speed_controller(env, env_id, a, t_n)
         self.d_gain = self.p_gain * self.tau
-- 
2.43.0


From 5e8c62c0bc4e5090eaa8a27bcb43dccc139c5d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:52 +0000
Subject: [PATCH 47/66] fix: reset the last error of the PID controller

---
 .../stages/base_controllers/pid_controller.py                | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gem_controllers/stages/base_controllers/pid_controller.py b/src/gem_controllers/stages/base_controllers/pid_controller.py
index 04dd99e..427cf3c 100644
--- a/src/gem_controllers/stages/base_controllers/pid_controller.py
+++ b/src/gem_controllers/stages/base_controllers/pid_controller.py
@@ -54,6 +54,11 @@ class PIDController(PIController):
         super()._tune_current_controller(env, env_id, a)
         self.d_gain = self.p_gain * self.tau
 
+    def reset(self):
+        """Reset the integrated values and the last error"""
+        super().reset()
+        self._last_error = np.zeros_like(self._d_gain, dtype=float)
+
     def _tune_speed_controller(self, env, env_id, a=4, t_n=None):
         """Set the gains of the P-, I- and D-component for the speed control.
 
-- 
2.43.0


From 6ecae0d0604415831f56d9245d8d259ac9814794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:01 +0000
Subject: [PATCH 48/66] fix: return the PermExDc current loop time constant as
 array

---
 src/gem_controllers/parameter_reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/parameter_reader.py b/src/gem_controllers/parameter_reader.py
index 6668b0f..3b9f5dd 100644
--- a/src/gem_controllers/parameter_reader.py
+++ b/src/gem_controllers/parameter_reader.py
@@ -180,8 +180,10 @@ tau_current_loop_reader = {
         ]
     ),
     "PermExDc": lambda env: np.array(
-        env.physical_system.electrical_motor.motor_parameter["l_a"]
-        / env.physical_system.electrical_motor.motor_parameter["r_a"]
+        [
+            env.physical_system.electrical_motor.motor_parameter["l_a"]
+            / env.physical_system.electrical_motor.motor_parameter["r_a"]
+        ]
     ),
     "PMSM": lambda env: np.array(
         [
-- 
2.43.0


From fca7b75437181230f68aacc1648d0b45bf7c451f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:13 +0000
Subject: [PATCH 49/66] fix: create an own flux controller for every SCIM
 operation point selection

---
 .../stages/operation_point_selection/scim_ops.py            | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/scim_ops.py b/src/gem_controllers/stages/operation_point_selection/scim_ops.py
index 16d2707..7a99ed9 100644
--- a/src/gem_controllers/stages/operation_point_selection/scim_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/scim_ops.py
@@ -19,13 +19,13 @@ class SCIMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         self,
         max_modulation_level: float = 2 / np.sqrt(3),
         modulation_damping: float = 1.2,
-        psi_controller=PIController(control_task="FC"),
+        psi_controller=None,
     ):
         """
         Args:
             max_modulation_level(float): Maximum value for the modulation controller.
             modulation_damping(float): Damping of the gain of the modulation controller.
-            psi_controller(gc.stages.BaseController): Flux controller for the i_d current.
+            psi_controller(gc.stages.BaseController): Flux controller for the i_d current. A PI controller by default.
         """
 
         super().__init__(max_modulation_level, modulation_damping)
@@ -40,7 +40,7 @@ class SCIMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         self.i_sd_count = None
         self.i_sq_count = None
 
-        self.psi_controller = psi_controller
+        self.psi_controller = PIController(control_task="FC") if psi_controller is None else psi_controller
 
     def _psi_opt(self):
         """Calculate the optimal flux for a given torque"""
-- 
2.43.0


From d2cb4501a5a2bdd4b3cd64a643e95d135ccf38fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:23 +0000
Subject: [PATCH 50/66] fix: avoid the square root of negative torques in the
 SeriesDc operation point selection

---
 .../stages/operation_point_selection/series_dc_ops.py          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/series_dc_ops.py b/src/gem_controllers/stages/operation_point_selection/series_dc_ops.py
index bb5e06e..29a9c9d 100644
--- a/src/gem_controllers/stages/operation_point_selection/series_dc_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/series_dc_ops.py
@@ -33,7 +33,8 @@ class SeriesDcOperationPointSelection(OperationPointSelection):
         Returns:
             np.array: current reference values
         """
-        return np.sqrt(reference / self._cross_inductance)
+        # The torque of the series dc motor is non-negative for any current
+        return np.sqrt(np.maximum(reference, 0.0) / self._cross_inductance)
 
     def tune(self, env, env_id, current_safety_margin=0.2):
         """
-- 
2.43.0


From 0807fb2d50e1a06071fd28e16f09e69c29551a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:34 +0000
Subject: [PATCH 51/66] fix: set should_plot on the controller instead of on
 the class

---
 src/gem_controllers/gem_controller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/gem_controller.py b/src/gem_controllers/gem_controller.py
index 8083c5e..1343bca 100644
--- a/src/gem_controllers/gem_controller.py
+++ b/src/gem_controllers/gem_controller.py
@@ -61,8 +61,6 @@ class GemController:
         Returns:
             GemController: An initialized (and tuned) instance of a controller that fits to the specified environment.
         """
-        cls.should_plot = should_plot
-
         control_task = gc.utils.get_control_task(env_id)
         tuner_kwargs = dict()
 
@@ -89,6 +87,7 @@ class GemController:
             )
         # Wrap the controller with the adapter to map the inputs and outputs to the environment
         controller = gc.GymElectricMotorAdapter(env, env_id, controller)
+        controller.should_plot = should_plot
 
         # Fit the controllers parameters to the environment
         controller.tune(env, env_id, **tuner_kwargs)
@@ -105,6 +104,7 @@ class GemController:
 
     def __init__(self):
         self._stages = []
+        self.should_plot = False
 
     def get_signal_value(self, signal_name):
         """
-- 
2.43.0


From 80b366428ca9daa663bfa495d20ed5c9ba4c3390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:47 +0000
Subject: [PATCH 52/66] fix: initialize the modulation controller in the tuning
 of the field oriented operation point selections

---
 src/gem_controllers/stages/operation_point_selection/eesm_ops.py | 1 +
 src/gem_controllers/stages/operation_point_selection/pmsm_ops.py | 1 +
 src/gem_controllers/stages/operation_point_selection/scim_ops.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
index 5217547..e54a121 100644
--- a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
@@ -86,6 +86,7 @@ class EESMOperationPointSelection(FieldOrientedControllerOperationPointSelection
 
         self.psi_low = -self.psi_high
         self.integrated_reset = 0.01 * self.psi_low
+        self.integrated = self.integrated_reset
 
         self.torque_equation = (
             lambda i_d, i_q, i_e: 3 / 2 * self.p * (self.l_m * i_e + (self.l_d - self.l_q) * i_d) * i_q
diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index ac7970a..b4cc09c 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -168,6 +168,7 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         )
         self.psi_low = -self.psi_high
         self.integrated_reset = 0.01 * self.psi_low  # Reset value of the modulation controller
+        self.integrated = self.integrated_reset
         self.max_torque = max(
             1.5 * self.p * (self.psi_p + (self.l_d - self.l_q) * (-self.limit[self.i_sd_idx])) * self.i_sq_limit,
             self.limit[self.torque_idx],
diff --git a/src/gem_controllers/stages/operation_point_selection/scim_ops.py b/src/gem_controllers/stages/operation_point_selection/scim_ops.py
index 7a99ed9..d8895b9 100644
--- a/src/gem_controllers/stages/operation_point_selection/scim_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/scim_ops.py
@@ -140,6 +140,7 @@ class SCIMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         self.psi_high = 0.1 * self.psi_max
         self.psi_low = -self.psi_max
         self.integrated_reset = 0.5 * self.psi_low  # Reset value of the modulation controller
+        self.integrated = self.integrated_reset
 
     # Methods to get the indices of the lists for maximum torque and optimal flux
     def _get_psi_opt(self, torque):
-- 
2.43.0


From 98be2ae8b91e10bda68c53335e16ff04b99e32b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:05 +0000
Subject: [PATCH 53/66] fix: tune the three point controller for the current
 and speed control

---
 .../stages/base_controllers/three_point_controller.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/gem_controllers/stages/base_controllers/three_point_controller.py b/src/gem_controllers/stages/base_controllers/three_point_controller.py
index e20f77d..13c2e96 100644
--- a/src/gem_controllers/stages/base_controllers/three_point_controller.py
+++ b/src/gem_controllers/stages/base_controllers/three_point_controller.py
@@ -93,7 +93,7 @@ class ThreePointController(BaseController):
         low_actions = referenced_states - self._hysteresis > reference
         return np.select([low_actions, high_actions], [self._low_action, self._high_action], default=self._idle_action)
 
-    def tune(self, env, env_id, **base_controller_kwargs):
+    def tune(self, env, env_id, *_, **base_controller_kwargs):
         """
         Tune a three point controller stage.
 
@@ -146,16 +146,19 @@ class ThreePointController(BaseController):
             _env_id(str): The corresponding environment-id to specify the concrete environment.
         """
 
-        torque_index = [env.state_names.index("reference")]
+        torque_index = [env.state_names.index("torque")]
+        speed_index = [env.state_names.index("omega")]
         torque_limit = env.limits[torque_index]
-        self.referenced_state_indices = torque_index
+        speed_limit = env.limits[speed_index]
+        self.referenced_state_indices = speed_index
         action_range = (
             env.observation_space[0].low[torque_index] * torque_limit,
             env.observation_space[0].high[torque_index] * torque_limit,
         )
         self.action_range = action_range
         # Todo: Calculate Hysteresis based on the dynamics of the underlying control plant
-        self.hysteresis = 0.01 * (action_range[1] - action_range[0])
+        speed_space = env.observation_space[0]
+        self.hysteresis = 0.01 * (speed_space.high[speed_index] - speed_space.low[speed_index]) * speed_limit
         self.high_action = action_range[1]
         self.low_action = action_range[0]
         self.idle_action = np.zeros_like(action_range[1])
-- 
2.43.0


From 0c31839834105bbeaa2187f4718f1cd521d3e006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:51 +0000
Subject: [PATCH 54/66] fix: integrate before the first reset of an I
 controller

---
 src/gem_controllers/stages/base_controllers/i_controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/base_controllers/i_controller.py b/src/gem_controllers/stages/base_controllers/i_controller.py
index c0d1cc1..e6148da 100644
--- a/src/gem_controllers/stages/base_controllers/i_controller.py
+++ b/src/gem_controllers/stages/base_controllers/i_controller.py
@@ -70,7 +70,7 @@ class IController(BaseController):
         self.i_gain = np.array([])
         self._integrator = np.array([0.0])
         self._tau = None
-        self._clipped = np.array([])
+        self._clipped = np.array([False])
 
     def __call__(self, state, reference):
         """
-- 
2.43.0


From c1d3d2971a2220dcfbbc2fc5e98a688432387657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:02 +0000
Subject: [PATCH 55/66] fix: decouple the EESM voltages exactly for its leakage
 and turns ratio

---
 src/gem_controllers/stages/emf_feedforward_eesm.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/stages/emf_feedforward_eesm.py b/src/gem_controllers/stages/emf_feedforward_eesm.py
index 83f1013..1f4ac52 100644
--- a/src/gem_controllers/stages/emf_feedforward_eesm.py
+++ b/src/gem_controllers/stages/emf_feedforward_eesm.py
@@ -47,13 +47,19 @@ class EMFFeedforwardEESM(EMFFeedforward):
         super().tune(env, env_id, **_)
         l_m = env.physical_system.electrical_motor.motor_parameter["l_m"]
         l_d = env.physical_system.electrical_motor.motor_parameter["l_d"]
+        l_q = env.physical_system.electrical_motor.motor_parameter["l_q"]
         l_e = env.physical_system.electrical_motor.motor_parameter["l_e"]
         r_s = env.physical_system.electrical_motor.motor_parameter["r_s"]
         r_e = env.physical_system.electrical_motor.motor_parameter["r_e"]
 
         self._l_m = l_m
         self._i_e_idx = env.state_names.index("i_e")
-        self._decoupling_params = np.array([-l_m * r_e / l_e, 0, -l_m * r_s / l_d])
-        self._action_decoupling = np.array([l_m / l_e, 0, l_m / l_d])
+        # Coupling of the excitation voltage into the d-axis and of the d-axis voltage into the excitation circuit
+        k_d, k_e = l_m / l_e, 3 / 2 * l_m / l_d
+        # The action decoupling scales the compensated voltages by the leakage factor
+        sigma = 1 - k_d * k_e
+        self.inductance = np.array([-l_q / sigma, l_d, k_e * l_q / sigma])
+        self._decoupling_params = np.array([-k_d * r_e, 0, -k_e * r_s]) / sigma
+        self._action_decoupling = np.array([k_d, 0, k_e])
         self._currents_idx = [env.state_names.index("i_e"), 0, env.state_names.index("i_sd")]
         self._action_idx = [2, 1, 0]
-- 
2.43.0


From 3f1ef2371d9bad11b5bb95cf9a07f24c58bc0f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:09 +0000
Subject: [PATCH 56/66] fix: correct the flux polynomial of the PMSM and EESM
 operation points

---
 .../stages/operation_point_selection/eesm_ops.py                | 2 +-
 .../stages/operation_point_selection/pmsm_ops.py                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
index e54a121..df7b18d 100644
--- a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
@@ -101,7 +101,7 @@ class EESMOperationPointSelection(FieldOrientedControllerOperationPointSelection
             self.l_d**2 * (self.l_m * i_e) ** 2
             + 4 * self.l_d * (self.l_m * i_e) ** 2 * (self.l_d - self.l_q)
             + ((self.l_m * i_e) ** 2 - psi**2) * (self.l_d - self.l_q) ** 2,
-            2 * self.l_q * (self.l_m * i_e) ** 3
+            2 * self.l_d * (self.l_m * i_e) ** 3
             + 2 * ((self.l_m * i_e) ** 2 - psi**2) * self.l_m * i_e * (self.l_d - self.l_q),
             ((self.l_m * i_e) ** 2 - psi**2) * (self.l_m * i_e) ** 2 + (self.l_q * torque / (3 * self.p)) ** 2,
         ]
diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index b4cc09c..7c27ec8 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -273,7 +273,7 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
             self.l_d**2 * self.psi_p**2
             + 4 * self.l_d * self.psi_p**2 * (self.l_d - self.l_q)
             + (self.psi_p**2 - psi**2) * (self.l_d - self.l_q) ** 2,
-            2 * self.l_q * self.psi_p**3 + 2 * (self.psi_p**2 - psi**2) * self.psi_p * (self.l_d - self.l_q),
+            2 * self.l_d * self.psi_p**3 + 2 * (self.psi_p**2 - psi**2) * self.psi_p * (self.l_d - self.l_q),
             (self.psi_p**2 - psi**2) * self.psi_p**2 + (self.l_q * 2 * torque / (3 * self.p)) ** 2,
         ]
 
-- 
2.43.0


From 7e45879432e4df91ab14e02e206c6b06b1effb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:20 +0000
Subject: [PATCH 57/66] fix: use the torque equation of the EESM in its
 operation point polynomial

---
 .../stages/operation_point_selection/eesm_ops.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
index df7b18d..f492f2a 100644
--- a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
@@ -103,7 +103,7 @@ class EESMOperationPointSelection(FieldOrientedControllerOperationPointSelection
             + ((self.l_m * i_e) ** 2 - psi**2) * (self.l_d - self.l_q) ** 2,
             2 * self.l_d * (self.l_m * i_e) ** 3
             + 2 * ((self.l_m * i_e) ** 2 - psi**2) * self.l_m * i_e * (self.l_d - self.l_q),
-            ((self.l_m * i_e) ** 2 - psi**2) * (self.l_m * i_e) ** 2 + (self.l_q * torque / (3 * self.p)) ** 2,
+            ((self.l_m * i_e) ** 2 - psi**2) * (self.l_m * i_e) ** 2 + (self.l_q * 2 * torque / (3 * self.p)) ** 2,
         ]
 
         self._calculate_luts()
-- 
2.43.0


From 5ffda3899268dbd2efe67a5358034e213bf3930d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:30 +0000
Subject: [PATCH 58/66] fix: index the MTPF table of the PMSM operation points
 by its own length

---
 .../stages/operation_point_selection/pmsm_ops.py            | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index 7c27ec8..f7e2a17 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -303,9 +303,9 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
 
     def _get_psi_idx_mtpf(self, psi):
         """Get the index of the flux of the MTPF lookup table."""
-        return np.clip(
-            int((self.psi_count - 1) - round(psi / self.psi_max_mtpf * (self.psi_count - 1))), 0, self.psi_count
-        )
+        # The table holds the entries for negative torques from the maximum flux to zero in its first half
+        psi_count = len(self.mtpf) // 2
+        return np.clip(int((psi_count - 1) - round(psi / self.psi_max_mtpf * (psi_count - 1))), 0, psi_count - 1)
 
     def _get_t_idx_mtpc(self, torque):
         """Get the index of the torque of the mtpc lookup table."""
-- 
2.43.0


From 601ccb93713ab1c22fbfa3090827b646640aa2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:38 +0000
Subject: [PATCH 59/66] fix: invert the quadrature current of lookup table
 entries only

---
 .../stages/operation_point_selection/pmsm_ops.py         | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
index f7e2a17..0cf6926 100644
--- a/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/pmsm_ops.py
@@ -349,22 +349,19 @@ class PMSMOperationPointSelection(FieldOrientedControllerOperationPointSelection
 
             if self.i_d_inter[t_idx, psi_idx] <= self.mtpf[psi_max_idx, 2]:
                 i_d = self.mtpf[psi_max_idx, 2]
-                i_q = np.sign(reference[0]) * np.abs(self.mtpf[psi_max_idx, 3])
+                i_q = self.invert * np.sign(reference[0]) * np.abs(self.mtpf[psi_max_idx, 3])
                 reference = np.sign(reference[0]) * t_max
             else:
                 i_d = self.i_d_inter[t_idx, psi_idx]
                 i_q = self.i_q_inter[t_idx, psi_idx]
                 if i_d > self.mtpc[psi_idx_, 1]:
                     i_d = self.mtpc[psi_idx_, 1]
-                    i_q = np.sign(reference[0]) * np.abs(self.mtpc[psi_idx_, 2])
+                    i_q = self.invert * np.sign(reference[0]) * np.abs(self.mtpc[psi_idx_, 2])
 
         # ensure that the mtpf characteristic curve is observed
         if i_d < self.mtpf[psi_max_idx, 2]:
             i_d = self.mtpf[psi_max_idx, 2]
-            i_q = np.sign(reference[0]) * np.abs(self.mtpf[psi_max_idx, 3])
-
-        # invert the i_q if necessary
-        i_q = self.invert * i_q
+            i_q = self.invert * np.sign(reference[0]) * np.abs(self.mtpf[psi_max_idx, 3])
 
         return np.array([i_d, i_q])
 
-- 
2.43.0


From 840469ee3d0a56f127f60794a740c018d3074c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:48 +0000
Subject: [PATCH 60/66] fix: limit the EESM torque by the limited flux

---
 .../stages/operation_point_selection/eesm_ops.py              | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
index f492f2a..a52e222 100644
--- a/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
+++ b/src/gem_controllers/stages/operation_point_selection/eesm_ops.py
@@ -250,9 +250,9 @@ class EESMOperationPointSelection(FieldOrientedControllerOperationPointSelection
         t_ref_clip = np.abs(np.clip(t_ref, -self.t_max, self.t_max))
         psi_opt = self.psi_opt(t_ref_clip)
 
-        psi = np.clip(psi_opt, 0, psi_max)
+        psi = np.clip(psi_opt, 0, max(psi_max, 0))
 
-        t_max = self.t_max_psi(psi_opt)
+        t_max = self.t_max_psi(psi)
         t_ref_clip = np.clip(t_ref_clip, 0, t_max)
 
         t_idx = self._get_t_idx(t_ref_clip)
-- 
2.43.0


From 8f55141490684c7db38ee8853f7cdbf34ff65dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:38 +0000
Subject: [PATCH 61/66] fix: current controllers with several currents answer
 before their first reset

---
 src/gem_controllers/pi_current_controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gem_controllers/pi_current_controller.py b/src/gem_controllers/pi_current_controller.py
index f9f8f8a..0420202 100644
--- a/src/gem_controllers/pi_current_controller.py
+++ b/src/gem_controllers/pi_current_controller.py
@@ -173,7 +173,7 @@ class PICurrentController(gc.CurrentController):
         # Integrate the I-Controllers
         if hasattr(self._current_base_controller, "integrator"):
             delta = self._anti_windup_stage(state, current_reference, self._clipping_stage.clipping_difference)
-            self._current_base_controller.integrator += delta
+            self._current_base_controller.integrator = self._current_base_controller.integrator + delta
 
         return voltage_reference
 
-- 
2.43.0


From 6706e2eb23ce51aeeba884c1518b75c4992550dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:34 +0000
Subject: [PATCH 62/66] fix: continue the random numbers of the last seed in
 resets without a seed

---
 src/gym_electric_motor/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index 51a1935..99354d9 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -306,7 +306,9 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
              info(dict): Auxiliary information (optional)
         """
 
-        self._seed(seed)
+        # Without a new seed, the random components continue with the generators of the last seed
+        if seed is not None:
+            self._seed(seed)
         self._call_callbacks("on_reset_begin")
         self._terminated = False
         state = self._physical_system.reset()
-- 
2.43.0


From 6765253a5259cfb7796678c788f8a7bf31d82471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:42 +0000
Subject: [PATCH 63/66] fix: draw the initial value of the Wiener process from
 the generator of its episode

---
 .../reference_generators/wiener_process_reference_generator.py  | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py b/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py
index 1e5aa1e..f9e7ed7 100644
--- a/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/wiener_process_reference_generator.py
@@ -42,6 +42,8 @@ class WienerProcessReferenceGenerator(SubepisodedReferenceGenerator):
 
     def reset(self, initial_state=None, initial_reference=None):
         if initial_reference is None:
+            # The initial value must not depend on the number of values drawn in the last episode
+            self.next_generator()
             initial_reference = np.zeros_like(self._referenced_states, dtype=float)
             initial_reference[self._referenced_states] = self.random_generator.uniform(
                 self._initial_range[0], self._initial_range[1], 1
-- 
2.43.0


From 431e347b388d26632988bd9ffd66a96460fc01b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:50 +0000
Subject: [PATCH 64/66] fix: make the sub generators of the
 SwitchedReferenceGenerator independent of earlier switches

---
 .../reference_generators/switched_reference_generator.py    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gym_electric_motor/reference_generators/switched_reference_generator.py b/src/gym_electric_motor/reference_generators/switched_reference_generator.py
index 79dc937..87b7090 100644
--- a/src/gym_electric_motor/reference_generators/switched_reference_generator.py
+++ b/src/gym_electric_motor/reference_generators/switched_reference_generator.py
@@ -64,6 +64,9 @@ class SwitchedReferenceGenerator(ReferenceGenerator, RandomComponent):
 
     def reset(self, initial_state=None, initial_reference=None):
         self.next_generator()
+        # The sub generators are reset at every switch. Therefore, they get a new seed for every episode. Otherwise, their
+        # random numbers would depend on the number of switches in the previous episodes.
+        self._seed_sub_generators()
         self._reset_reference()
         # The reset already returns the first reference of the super episode
         self._k = 1
@@ -91,6 +94,9 @@ class SwitchedReferenceGenerator(ReferenceGenerator, RandomComponent):
 
     def seed(self, seed=None):
         super().seed(seed)
+        self._seed_sub_generators()
+
+    def _seed_sub_generators(self):
         for sub_generator in self._sub_generators:
             if isinstance(sub_generator, RandomComponent):
                 seed = self._seed_sequence.spawn(1)[0]
-- 
2.43.0


From 395c86ce65c08f02efa7a5244217c1ca05f95dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:14 +0000
Subject: [PATCH 65/66] fix: give every environment its own simulation
 parameters

---
 src/gym_electric_motor/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index 99354d9..e709d0c 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -231,7 +231,7 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
             **kwargs: Arguments to be passed to the modules.
         """
 
-        self.sim.tau = physical_system.tau
+        self.sim = SimulationEnvironment(tau=physical_system.tau)
 
         # TODO physical_system etc should be initialized by the caller
         self._physical_system = physical_system(**kwargs) if isinstance(physical_system, type) else physical_system
-- 
2.43.0


From 4a409e3c3506b72cfb844601854dddb3ae7fe2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:22 +0000
Subject: [PATCH 66/66] fix: do not share the default constraints between
 environments

---
 src/gym_electric_motor/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/gym_electric_motor/core.py b/src/gym_electric_motor/core.py
index e709d0c..624e92f 100644
--- a/src/gym_electric_motor/core.py
+++ b/src/gym_electric_motor/core.py
@@ -18,6 +18,7 @@ Each ElectricMotorEnvironment contains the five following modules:
 
 """
 
+import copy
 import datetime
 import os
 from dataclasses import dataclass
@@ -258,7 +259,12 @@ class ElectricMotorEnvironment(gymnasium.core.Env):
             cm = constraints
         else:
             limit_constraints = [constraint for constraint in constraints if isinstance(constraint, str)]
-            additional_constraints = [constraint for constraint in constraints if not isinstance(constraint, str)]
+            # Every environment configures its own copies, because the default constraints are shared by the environments
+            additional_constraints = [
+                copy.copy(constraint) if isinstance(constraint, Constraint) else constraint
+                for constraint in constraints
+                if not isinstance(constraint, str)
+            ]
             cm = ConstraintMonitor(limit_constraints, additional_constraints)
         self._constraint_monitor = cm
 
-- 
2.43.0

