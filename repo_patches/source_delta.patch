From 17d2bff8a217adfaaeec4263ca3ba38babc83696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 01/21] fix: Integrator sensitivities to time bounds when part
 of the rate history is zero

The sparse data of the column had fewer entries than the declared pattern
(an error, or a wrong value broadcast to all nodes) whenever the integral
was still zero at some node.
---
 openconcept/utilities/math/integrals.py | 36 +++++++++----------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/openconcept/utilities/math/integrals.py b/openconcept/utilities/math/integrals.py
index 8b68773..e578718 100644
--- a/openconcept/utilities/math/integrals.py
+++ b/openconcept/utilities/math/integrals.py
@@ -837,18 +837,12 @@ class Integrator(ExplicitComponent):
 
                 elif time_setup == "bounds":
                     if not final_only:
-                        if len(dQddtlist[0].data) == 0:
-                            J[qty_name, "t_initial"] = np.zeros(J[qty_name, "t_initial"].shape)
-                            J[qty_name, "t_final"] = np.zeros(J[qty_name, "t_final"].shape)
-                        else:
-                            J[qty_name, "t_initial"] = -dQddtlist[0].data / (num_nodes - 1)
-                            J[qty_name, "t_final"] = dQddtlist[0].data / (num_nodes - 1)
-                    if len(dQddtlist[0].getrow(-1).data) == 0:
-                        J[end_name, "t_initial"] = 0
-                        J[end_name, "t_final"] = 0
-                    else:
-                        J[end_name, "t_initial"] = -dQddtlist[0].getrow(-1).data / (num_nodes - 1)
-                        J[end_name, "t_final"] = dQddtlist[0].getrow(-1).data / (num_nodes - 1)
+                        dQddt = np.squeeze(dQddtlist[0].toarray()[1:] / (num_nodes - 1))
+                        J[qty_name, "t_initial"] = -dQddt
+                        J[qty_name, "t_final"] = dQddt
+                    dQfddt = np.squeeze(dQddtlist[0].getrow(-1).toarray() / (num_nodes - 1))
+                    J[end_name, "t_initial"] = -dQfddt
+                    J[end_name, "t_final"] = dQfddt
 
 
 class OldIntegrator(ExplicitComponent):
@@ -1197,18 +1191,12 @@ class OldIntegrator(ExplicitComponent):
 
                 elif time_setup == "bounds":
                     if not final_only:
-                        if len(dQddtlist[0].data) == 0:
-                            J["q", "t_initial"] = np.zeros(J["q", "t_initial"].shape)
-                            J["q", "t_final"] = np.zeros(J["q", "t_final"].shape)
-                        else:
-                            J["q", "t_initial"] = -dQddtlist[0].data / (num_nodes - 1)
-                            J["q", "t_final"] = dQddtlist[0].data / (num_nodes - 1)
-                    if len(dQddtlist[0].getrow(-1).data) == 0:
-                        J["q_final", "t_initial"] = 0
-                        J["q_final", "t_final"] = 0
-                    else:
-                        J["q_final", "t_initial"] = -dQddtlist[0].getrow(-1).data / (num_nodes - 1)
-                        J["q_final", "t_final"] = dQddtlist[0].getrow(-1).data / (num_nodes - 1)
+                        dQddt = np.squeeze(dQddtlist[0].toarray()[1:] / (num_nodes - 1))
+                        J["q", "t_initial"] = -dQddt
+                        J["q", "t_final"] = dQddt
+                    dQfddt = np.squeeze(dQddtlist[0].getrow(-1).toarray() / (num_nodes - 1))
+                    J["q_final", "t_initial"] = -dQfddt
+                    J["q_final", "t_final"] = dQfddt
             else:
                 for i_seg, segment_name in enumerate(segment_names):
                     if not final_only:
-- 
2.43.0


From 09437cacea21eb3091f3458dd02f3106462a55eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 02/21] fix: OldIntegrator segment time step sensitivities when
 part of the rate history is zero

---
 openconcept/utilities/math/integrals.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/openconcept/utilities/math/integrals.py b/openconcept/utilities/math/integrals.py
index e578718..0095212 100644
--- a/openconcept/utilities/math/integrals.py
+++ b/openconcept/utilities/math/integrals.py
@@ -1199,6 +1199,10 @@ class OldIntegrator(ExplicitComponent):
                     J["q_final", "t_final"] = dQfddt
             else:
                 for i_seg, segment_name in enumerate(segment_names):
+                    if segments_to_count is not None and segment_name not in segments_to_count:
+                        # no dependence on the duration of segments that are not counted
+                        continue
                     if not final_only:
-                        J["q", segment_name + "|dt"] = dQddtlist[i_seg].data
-                    J["q_final", segment_name + "|dt"] = dQddtlist[i_seg].getrow(-1).data
+                        # all points after the first of this segment depend on its time step
+                        J["q", segment_name + "|dt"] = np.squeeze(dQddtlist[i_seg].toarray()[i_seg * num_nodes + 1 :])
+                    J["q_final", segment_name + "|dt"] = np.squeeze(dQddtlist[i_seg].getrow(-1).toarray())
-- 
2.43.0


From c09f070f98f69fea2cf85d145280b511cced9cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:52 +0000
Subject: [PATCH 03/21] fix: AddSubtractComp keeps its units when set up more
 than once

---
 openconcept/utilities/math/add_subtract_comp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openconcept/utilities/math/add_subtract_comp.py b/openconcept/utilities/math/add_subtract_comp.py
index a699a2b..57aeaaf 100644
--- a/openconcept/utilities/math/add_subtract_comp.py
+++ b/openconcept/utilities/math/add_subtract_comp.py
@@ -209,8 +209,8 @@ class AddSubtractComp(ExplicitComponent):
                 out_shape = (vec_out_size, length)
 
             super(AddSubtractComp, self).add_output(output_name, val, shape=out_shape, **kwargs)
-            units = kwargs.pop("units", None)
-            desc = kwargs.pop("desc", "")
+            units = kwargs.get("units", None)
+            desc = kwargs.get("desc", "")
 
             for i, input_name in enumerate(input_names):
                 if multi_vec_size:
-- 
2.43.0


From 8e6dc264adb01cb3de04d5ebc4df5df075509e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:52 +0000
Subject: [PATCH 04/21] fix: element-wise math slopes to single-node inputs
 wider than one

---
 openconcept/utilities/math/add_subtract_comp.py    | 2 +-
 openconcept/utilities/math/multiply_divide_comp.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/openconcept/utilities/math/add_subtract_comp.py b/openconcept/utilities/math/add_subtract_comp.py
index 57aeaaf..d11e096 100644
--- a/openconcept/utilities/math/add_subtract_comp.py
+++ b/openconcept/utilities/math/add_subtract_comp.py
@@ -225,7 +225,7 @@ class AddSubtractComp(ExplicitComponent):
 
                 if vec_in_size == 1:
                     # scalar input
-                    col_vals = np.zeros(vec_out_size * length)
+                    col_vals = np.tile(np.arange(0, length), vec_out_size)
                 else:
                     # vector input
                     col_vals = np.arange(0, vec_out_size * length)
diff --git a/openconcept/utilities/math/multiply_divide_comp.py b/openconcept/utilities/math/multiply_divide_comp.py
index 1e0ed16..8b7906e 100644
--- a/openconcept/utilities/math/multiply_divide_comp.py
+++ b/openconcept/utilities/math/multiply_divide_comp.py
@@ -257,7 +257,7 @@ class ElementMultiplyDivideComp(ExplicitComponent):
 
                 if vec_in_size == 1:
                     # scalar input
-                    col_vals = np.zeros(vec_out_size * length)
+                    col_vals = np.tile(np.arange(0, length), vec_out_size)
                 else:
                     # vector input
                     col_vals = np.arange(0, vec_out_size * length)
-- 
2.43.0


From 42b0c050ed1031bc3f756dab6778585f6f77443d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:52 +0000
Subject: [PATCH 05/21] fix: ElementMultiplyDivideComp output units when the
 first input has none

---
 openconcept/utilities/math/multiply_divide_comp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openconcept/utilities/math/multiply_divide_comp.py b/openconcept/utilities/math/multiply_divide_comp.py
index 8b7906e..88e4acc 100644
--- a/openconcept/utilities/math/multiply_divide_comp.py
+++ b/openconcept/utilities/math/multiply_divide_comp.py
@@ -267,12 +267,12 @@ class ElementMultiplyDivideComp(ExplicitComponent):
                 # derive the units of the output vector from the inputs
                 if input_units[i] is not None:
                     if divide[i]:
-                        if i == 0:
+                        if len(output_units_assemble) == 0:
                             output_units_assemble.append("(" + input_units[i] + ")**-1 ")
                         else:
                             output_units_assemble.append("/ (" + input_units[i] + ") ")
                     else:
-                        if i == 0:
+                        if len(output_units_assemble) == 0:
                             output_units_assemble.append(input_units[i] + " ")
                         else:
                             output_units_assemble.append("* (" + input_units[i] + ") ")
-- 
2.43.0


From 54eae0fc4bafba8eddba4aa5405445da7e376f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 06/21] fix: link phases by the second phase's own start name

---
 openconcept/mission/mission_groups.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openconcept/mission/mission_groups.py b/openconcept/mission/mission_groups.py
index b9660e7..34170ea 100644
--- a/openconcept/mission/mission_groups.py
+++ b/openconcept/mission/mission_groups.py
@@ -306,11 +306,12 @@ class TrajectoryGroup(om.Group):
         phase1_states = phase1._oc_states_list
         phase2_states = phase2._oc_states_list
         self._setup_var_data()
+        phase2_start_names = {state_tuple_2[0]: state_tuple_2[1] for state_tuple_2 in phase2_states}
         for state_tuple in phase1_states:
-            if state_tuple[0] in [state_tuple_2[0] for state_tuple_2 in phase2_states]:
+            if state_tuple[0] in phase2_start_names:
                 phase1_abs_name = phase1.name + "." + state_tuple[0]
                 phase1_end_abs_name = phase1.name + "." + state_tuple[2]  # final
-                phase2_start_abs_name = phase2.name + "." + state_tuple[1]  # initial
+                phase2_start_abs_name = phase2.name + "." + phase2_start_names[state_tuple[0]]  # initial
                 if self.pathname:
                     phase1_abs_name = self.pathname + "." + phase1_abs_name
                     phase1_end_abs_name = self.pathname + "." + phase1_end_abs_name
-- 
2.43.0


From aa8201a46cfe4956754c6c7bd89ba0a36f2335cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 07/21] fix: link phases whose state has only a final value

---
 openconcept/mission/mission_groups.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openconcept/mission/mission_groups.py b/openconcept/mission/mission_groups.py
index 34170ea..9007fc9 100644
--- a/openconcept/mission/mission_groups.py
+++ b/openconcept/mission/mission_groups.py
@@ -318,7 +318,9 @@ class TrajectoryGroup(om.Group):
                     phase2_start_abs_name = self.pathname + "." + phase2_start_abs_name
 
                 phase1_prom_name = get_prom_name(self, phase1_abs_name, "output")
-                if phase1_prom_name.startswith(phase1.name):  # only modify the text if it starts with the prefix
+                if phase1_prom_name is None:  # only the final value exists (final_only)
+                    state_prom_name = state_tuple[0]
+                elif phase1_prom_name.startswith(phase1.name):  # only modify the text if it starts with the prefix
                     state_prom_name = phase1_prom_name.replace(phase1.name + ".", "", 1)
                 else:
                     state_prom_name = phase1_prom_name
-- 
2.43.0


From b04974426be362c618e8da776d3f49ac1107432e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 08/21] fix: trajectories can be set up more than once

---
 openconcept/mission/mission_groups.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/openconcept/mission/mission_groups.py b/openconcept/mission/mission_groups.py
index 9007fc9..4bd194f 100644
--- a/openconcept/mission/mission_groups.py
+++ b/openconcept/mission/mission_groups.py
@@ -291,6 +291,13 @@ class TrajectoryGroup(om.Group):
     def __init__(self, **kwargs):
         super(TrajectoryGroup, self).__init__(**kwargs)
         self._oc_phases_to_link = []
+        self._oc_static_phases_to_link = []
+
+    def _setup_procs(self, *args):
+        # Links made while setting up are made again the next time the model is set up,
+        # whereas the ones made beforehand are kept (same as OpenMDAO's static subsystems)
+        self._oc_phases_to_link = list(self._oc_static_phases_to_link)
+        super(TrajectoryGroup, self)._setup_procs(*args)
 
     def _configure(self):
         super(TrajectoryGroup, self)._configure()
@@ -334,4 +341,5 @@ class TrajectoryGroup(om.Group):
         # need to cache this because the data we need isn't ready yet
         if not isinstance(phase1, PhaseGroup) or not isinstance(phase2, PhaseGroup):
             raise ValueError("link_phases phase arguments must be OpenConcept PhaseGroup objects")
-        self._oc_phases_to_link.append((phase1, phase2, states_to_skip))
+        links = self._oc_static_phases_to_link if self._static_mode else self._oc_phases_to_link
+        links.append((phase1, phase2, states_to_skip))
-- 
2.43.0


From 6bb039f399c2b7aef811270332f1b5de44e2944f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:01 +0000
Subject: [PATCH 09/21] fix: three-bladed propellers can be set up

---
 openconcept/propulsion/propeller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/propulsion/propeller.py b/openconcept/propulsion/propeller.py
index 055f2b9..38ad1e5 100644
--- a/openconcept/propulsion/propeller.py
+++ b/openconcept/propulsion/propeller.py
@@ -61,7 +61,7 @@ class SimplePropeller(Group):
         if n_blades == 3:
             propmap = propeller_map_Raymer(nn)
             staticpropmap = static_propeller_map_Raymer(nn)
-        if n_blades == 4:
+        elif n_blades == 4:
             propmap = propeller_map_highpower(nn)
             staticpropmap = static_propeller_map_highpower(nn)
         else:
-- 
2.43.0


From 32509027769f2cf4a0df18c726dae230072f2c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:01 +0000
Subject: [PATCH 10/21] fix: series hybrid system promotes the flight
 conditions of its propeller

---
 openconcept/propulsion/systems/simple_series_hybrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/propulsion/systems/simple_series_hybrid.py b/openconcept/propulsion/systems/simple_series_hybrid.py
index 3700417..d7e0bfe 100644
--- a/openconcept/propulsion/systems/simple_series_hybrid.py
+++ b/openconcept/propulsion/systems/simple_series_hybrid.py
@@ -174,7 +174,7 @@ class SeriesHybridElectricPropulsionSystem(Group):
         self.add_subsystem("eng1", SimpleTurboshaft(num_nodes=nn), promotes_outputs=["fuel_flow"])
         self.add_subsystem("batt1", SimpleBattery(num_nodes=nn))
         self.add_subsystem(
-            "prop1", SimplePropeller(num_nodes=nn), promotes_inputs=["fltcond_*"], promotes_outputs=["thrust"]
+            "prop1", SimplePropeller(num_nodes=nn), promotes_inputs=["fltcond|*"], promotes_outputs=["thrust"]
         )
 
         # connect design variables to model component inputs
-- 
2.43.0


From 7b70b683f1375df027597daed95fc171d5aa720a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:01 +0000
Subject: [PATCH 11/21] fix: cold-side fouling enters the overall conductance
 of a heat exchanger

---
 openconcept/thermal/heat_exchanger.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/openconcept/thermal/heat_exchanger.py b/openconcept/thermal/heat_exchanger.py
index 9163dbf..1ecd878 100644
--- a/openconcept/thermal/heat_exchanger.py
+++ b/openconcept/thermal/heat_exchanger.py
@@ -907,14 +907,14 @@ class UAOverall(ExplicitComponent):
         Rc = 1 / inputs["h_conv_cold"] / inputs["heat_transfer_area_cold"] / inputs["eta_overall_cold"]
         Rfc = self.options["fouling_factor_cold"] / inputs["heat_transfer_area_cold"] / inputs["eta_overall_cold"]
         Rh = 1 / inputs["h_conv_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"]
-        Rfc = self.options["fouling_factor_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"]
-        outputs["UA_overall"] = 1 / (Rc + Rfc + Rh + Rfc)
+        Rfh = self.options["fouling_factor_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"]
+        outputs["UA_overall"] = 1 / (Rc + Rfc + Rh + Rfh)
 
     def compute_partials(self, inputs, J):
         Rc = 1 / inputs["h_conv_cold"] / inputs["heat_transfer_area_cold"] / inputs["eta_overall_cold"]
         Rfc = self.options["fouling_factor_cold"] / inputs["heat_transfer_area_cold"] / inputs["eta_overall_cold"]
         Rh = 1 / inputs["h_conv_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"]
-        Rfc = self.options["fouling_factor_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"]
+        Rfh = self.options["fouling_factor_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"]
 
         dRcdh = -1 / inputs["h_conv_cold"] ** 2 / inputs["heat_transfer_area_cold"] / inputs["eta_overall_cold"]
         dRcdA = -1 / inputs["h_conv_cold"] / inputs["heat_transfer_area_cold"] ** 2 / inputs["eta_overall_cold"]
@@ -934,12 +934,12 @@ class UAOverall(ExplicitComponent):
             -self.options["fouling_factor_hot"] / inputs["heat_transfer_area_hot"] / inputs["eta_overall_hot"] ** 2
         )
 
-        J["UA_overall", "h_conv_cold"] = -1 / (Rc + Rfc + Rh + Rfc) ** 2 * (dRcdh)
-        J["UA_overall", "heat_transfer_area_cold"] = -1 / (Rc + Rfc + Rh + Rfc) ** 2 * (dRcdA + dRfcdA)
-        J["UA_overall", "eta_overall_cold"] = -1 / (Rc + Rfc + Rh + Rfc) ** 2 * (dRcdeta + dRfcdeta)
-        J["UA_overall", "h_conv_hot"] = -1 / (Rc + Rfc + Rh + Rfc) ** 2 * (dRhdh)
-        J["UA_overall", "heat_transfer_area_hot"] = -1 / (Rc + Rfc + Rh + Rfc) ** 2 * (dRhdA + dRfhdA)
-        J["UA_overall", "eta_overall_hot"] = -1 / (Rc + Rfc + Rh + Rfc) ** 2 * (dRhdeta + dRfhdeta)
+        J["UA_overall", "h_conv_cold"] = -1 / (Rc + Rfc + Rh + Rfh) ** 2 * (dRcdh)
+        J["UA_overall", "heat_transfer_area_cold"] = -1 / (Rc + Rfc + Rh + Rfh) ** 2 * (dRcdA + dRfcdA)
+        J["UA_overall", "eta_overall_cold"] = -1 / (Rc + Rfc + Rh + Rfh) ** 2 * (dRcdeta + dRfcdeta)
+        J["UA_overall", "h_conv_hot"] = -1 / (Rc + Rfc + Rh + Rfh) ** 2 * (dRhdh)
+        J["UA_overall", "heat_transfer_area_hot"] = -1 / (Rc + Rfc + Rh + Rfh) ** 2 * (dRhdA + dRfhdA)
+        J["UA_overall", "eta_overall_hot"] = -1 / (Rc + Rfc + Rh + Rfh) ** 2 * (dRhdeta + dRfhdeta)
 
 
 class NTUMethod(ExplicitComponent):
-- 
2.43.0


From 7aedcdfec01a94b3ba879ec51baf29c8de20e4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:38 +0000
Subject: [PATCH 12/21] fix: slopes of the clipped vertical acceleration

---
 openconcept/mission/phases.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/openconcept/mission/phases.py b/openconcept/mission/phases.py
index 057a719..904c34a 100644
--- a/openconcept/mission/phases.py
+++ b/openconcept/mission/phases.py
@@ -416,12 +416,17 @@ class VerticalAcceleration(ExplicitComponent):
         cosg = inputs["fltcond|cosgamma"]
         sing = inputs["fltcond|singamma"]
 
-        J["accel_vert", "thrust"] = sing / m
-        J["accel_vert", "drag"] = -sing / m
-        J["accel_vert", "lift"] = cosg / m
-        J["accel_vert", "fltcond|singamma"] = (inputs["thrust"] - inputs["drag"]) / m
-        J["accel_vert", "fltcond|cosgamma"] = inputs["lift"] / m
-        J["accel_vert", "weight"] = -(inputs["lift"] * cosg + (inputs["thrust"] - inputs["drag"]) * sing) / m**2
+        force = inputs["lift"] * cosg + (inputs["thrust"] - inputs["drag"]) * sing
+        accel = force / m - GRAV_CONST
+        # the acceleration does not change where it is clipped
+        free = np.where((accel < -GRAV_CONST) | (accel > 2.5 * GRAV_CONST), 0.0, 1.0)
+
+        J["accel_vert", "thrust"] = free * sing / m
+        J["accel_vert", "drag"] = -free * sing / m
+        J["accel_vert", "lift"] = free * cosg / m
+        J["accel_vert", "fltcond|singamma"] = free * (inputs["thrust"] - inputs["drag"]) / m
+        J["accel_vert", "fltcond|cosgamma"] = free * inputs["lift"] / m
+        J["accel_vert", "weight"] = -free * force / m**2
 
 
 class SteadyFlightCL(ExplicitComponent):
-- 
2.43.0


From e52f5aee38b09e77400c19c69f4f5c433cdde84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:38 +0000
Subject: [PATCH 13/21] fix: advance ratio slope is finite at zero airspeed

---
 openconcept/propulsion/propeller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/propulsion/propeller.py b/openconcept/propulsion/propeller.py
index 38ad1e5..815c6c9 100644
--- a/openconcept/propulsion/propeller.py
+++ b/openconcept/propulsion/propeller.py
@@ -280,7 +280,7 @@ class PropCoefficients(ExplicitComponent):
         J["cp", "fltcond|rho"] = -cpval / inputs["fltcond|rho"]
         J["cp", "rpm"] = -3.0 * cpval / inputs["rpm"]
         J["cp", "diameter"] = -5.0 * cpval / inputs["diameter"]
-        J["J", "fltcond|Utrue"] = jval / inputs["fltcond|Utrue"]
+        J["J", "fltcond|Utrue"] = 60.0 / inputs["rpm"] / inputs["diameter"]
         J["J", "rpm"] = -jval / inputs["rpm"]
         J["J", "diameter"] = -jval / inputs["diameter"]
         J["prop_Vtip", "rpm"] = 1 / 60 * np.pi * inputs["diameter"] * np.ones(nn)
-- 
2.43.0


From 0f801da02bc82d1b194dc9e16804a4c4cb7f8700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:24 +0000
Subject: [PATCH 14/21] fix: twin turboprop evaluates the throttle of the
 second engine before the engine

---
 openconcept/propulsion/systems/simple_turboprop.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/openconcept/propulsion/systems/simple_turboprop.py b/openconcept/propulsion/systems/simple_turboprop.py
index 04c5a7f..2ebca78 100644
--- a/openconcept/propulsion/systems/simple_turboprop.py
+++ b/openconcept/propulsion/systems/simple_turboprop.py
@@ -116,6 +116,12 @@ class TwinTurbopropPropulsionSystem(Group):
     def setup(self):
         nn = self.options["num_nodes"]
 
+        # Propulsion models expect a high-level 'throttle' parameter and a 'propulsor_active' flag to set individual throttles
+        failedengine = ElementMultiplyDivideComp()
+        failedengine.add_equation("eng2throttle", input_names=["throttle", "propulsor_active"], vec_size=nn)
+        self.add_subsystem("failedengine", failedengine, promotes_inputs=["throttle", "propulsor_active"])
+        self.connect("failedengine.eng2throttle", "eng2.throttle")
+
         # Introduce turboshaft and propeller components (one for each side)
         self.add_subsystem(
             "eng1",
@@ -150,12 +156,6 @@ class TwinTurbopropPropulsionSystem(Group):
         self.set_input_defaults("ac|propulsion|engine|rating", 750.0, units="hp")
         self.set_input_defaults("ac|propulsion|propeller|diameter", 2.28, units="m")
 
-        # Propulsion models expect a high-level 'throttle' parameter and a 'propulsor_active' flag to set individual throttles
-        failedengine = ElementMultiplyDivideComp()
-        failedengine.add_equation("eng2throttle", input_names=["throttle", "propulsor_active"], vec_size=nn)
-        self.add_subsystem("failedengine", failedengine, promotes_inputs=["throttle", "propulsor_active"])
-        self.connect("failedengine.eng2throttle", "eng2.throttle")
-
         # Connect components to each other
         self.connect("eng1.shaft_power_out", "prop1.shaft_power_in")
         self.connect("eng2.shaft_power_out", "prop2.shaft_power_in")
-- 
2.43.0


From f5d586eaff3d84733dace524d2fb7e83d3773061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:20 +0000
Subject: [PATCH 15/21] fix: connect the nozzle area design variable of the
 refrigerated series hybrid to its duct

---
 openconcept/propulsion/systems/thermal_series_hybrid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openconcept/propulsion/systems/thermal_series_hybrid.py b/openconcept/propulsion/systems/thermal_series_hybrid.py
index ff76f7e..9d01118 100644
--- a/openconcept/propulsion/systems/thermal_series_hybrid.py
+++ b/openconcept/propulsion/systems/thermal_series_hybrid.py
@@ -401,6 +401,7 @@ class TwinSeriesHybridElectricThermalPropulsionRefrigerated(Group):
             HXGroup(num_nodes=nn),
             promotes_inputs=["ac|*", ("rho_cold", "fltcond|rho"), ("T_in_cold", "fltcond|T")],
         )
+        self.connect("area_nozzle", "duct.area_nozzle")
         self.connect("duct.mdot", "hx.mdot_cold")
         self.connect("hx.delta_p_cold", "duct.delta_p_hex")
 
-- 
2.43.0


From 374f2abb8da6cb634a6a78c84a77a1479fecaf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:20 +0000
Subject: [PATCH 16/21] fix: run the engine of the series hybrid before the
 generator it drives

---
 openconcept/propulsion/systems/simple_series_hybrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/propulsion/systems/simple_series_hybrid.py b/openconcept/propulsion/systems/simple_series_hybrid.py
index d7e0bfe..06b7512 100644
--- a/openconcept/propulsion/systems/simple_series_hybrid.py
+++ b/openconcept/propulsion/systems/simple_series_hybrid.py
@@ -170,8 +170,8 @@ class SeriesHybridElectricPropulsionSystem(Group):
         # introduce model components
         self.add_subsystem("motor1", SimpleMotor(efficiency=0.97, num_nodes=nn), promotes_inputs=["throttle"])
         self.add_subsystem("hybrid_split", PowerSplit(rule="fraction", num_nodes=nn))
-        self.add_subsystem("gen1", SimpleGenerator(efficiency=0.97, num_nodes=nn))
         self.add_subsystem("eng1", SimpleTurboshaft(num_nodes=nn), promotes_outputs=["fuel_flow"])
+        self.add_subsystem("gen1", SimpleGenerator(efficiency=0.97, num_nodes=nn))
         self.add_subsystem("batt1", SimpleBattery(num_nodes=nn))
         self.add_subsystem(
             "prop1", SimplePropeller(num_nodes=nn), promotes_inputs=["fltcond|*"], promotes_outputs=["thrust"]
-- 
2.43.0


From 80c03240be3cd5511af965a4f8ff4b2ac4aca136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:17 +0000
Subject: [PATCH 17/21] fix: use the wick's own conductivity for the wick
 resistance of the heat pipe

---
 openconcept/thermal/heat_pipe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openconcept/thermal/heat_pipe.py b/openconcept/thermal/heat_pipe.py
index d9bc53e..55547a9 100644
--- a/openconcept/thermal/heat_pipe.py
+++ b/openconcept/thermal/heat_pipe.py
@@ -270,14 +270,14 @@ class HeatPipeThermalResistance(ExplicitComponent):
         # Heat enters radially in through end of pipe (evaporator), along length of pipe, and radially out (condenser)
         # Resistance of evaporator
         log_o_i_mesh = np.log(inputs["inner_diam"] / (inputs["inner_diam"] - 2 * self.options["wick_thickness"]))
-        R_mesh_evap = log_o_i_mesh / (2 * np.pi * self.options["length_evap"] * self.options["wall_conduct"])
+        R_mesh_evap = log_o_i_mesh / (2 * np.pi * self.options["length_evap"] * self.options["wick_conduct"])
         log_o_i_pipe = np.log((inputs["inner_diam"] + 2 * inputs["wall_thickness"]) / inputs["inner_diam"])
         R_pipe_evap = log_o_i_pipe / (2 * np.pi * self.options["length_evap"] * self.options["wall_conduct"])
         R_evap = R_mesh_evap + R_pipe_evap
 
         # Resistance of condenser
         log_o_i_mesh = np.log(inputs["inner_diam"] / (inputs["inner_diam"] - 2 * self.options["wick_thickness"]))
-        R_mesh_cond = log_o_i_mesh / (2 * np.pi * self.options["length_cond"] * self.options["wall_conduct"])
+        R_mesh_cond = log_o_i_mesh / (2 * np.pi * self.options["length_cond"] * self.options["wick_conduct"])
         log_o_i_pipe = np.log((inputs["inner_diam"] + 2 * inputs["wall_thickness"]) / inputs["inner_diam"])
         R_pipe_cond = log_o_i_pipe / (2 * np.pi * self.options["length_cond"] * self.options["wall_conduct"])
         R_cond = R_mesh_cond + R_pipe_cond
-- 
2.43.0


From dcf0b03f3dc5ba57c3fa1cefc8f4a8a8a7e82d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:40 +0000
Subject: [PATCH 18/21] fix: surrogate training data is reused only for the
 same training grid and mesh size, and kept only when training succeeded

---
 .../openaerostruct/aerostructural.py          | 54 +++++++++++--------
 .../aerodynamics/openaerostruct/drag_polar.py | 33 ++++++------
 2 files changed, 50 insertions(+), 37 deletions(-)

diff --git a/openconcept/aerodynamics/openaerostruct/aerostructural.py b/openconcept/aerodynamics/openaerostruct/aerostructural.py
index 195be99..39012b0 100644
--- a/openconcept/aerodynamics/openaerostruct/aerostructural.py
+++ b/openconcept/aerodynamics/openaerostruct/aerostructural.py
@@ -432,9 +432,8 @@ class OASDataGen(om.ExplicitComponent):
         OASDataGen.skin = -1 * np.ones((self.options["num_skin"],))
         OASDataGen.spar = -1 * np.ones((self.options["num_spar"],))
         OASDataGen.temp_incr = -42 * np.ones(1)
-        OASDataGen.Mach, OASDataGen.alpha, OASDataGen.alt = np.meshgrid(
-            self.options["Mach_train"], self.options["alpha_train"], self.options["alt_train"], indexing="ij"
-        )
+        OASDataGen.grid = None
+        OASDataGen.mesh_size = None
         OASDataGen.CL = np.zeros((n_Mach, n_alpha, n_alt))
         OASDataGen.CD = np.zeros((n_Mach, n_alpha, n_alt))
         OASDataGen.failure = np.zeros((n_Mach, n_alpha, n_alt))
@@ -452,11 +451,22 @@ class OASDataGen(om.ExplicitComponent):
         spar = inputs["ac|geom|wing|spar_thickness"]
         CD_nonwing = inputs["ac|aero|CD_nonwing"]
         temp_incr = inputs["fltcond|TempIncrement"]
+        grid = np.meshgrid(
+            self.options["Mach_train"], self.options["alpha_train"], self.options["alt_train"], indexing="ij"
+        )
+        mesh_size = (self.options["num_x"], self.options["num_y"])
 
-        # If the inputs are unchaged, use the previously calculated values
+        # If the inputs, the training grid, and the mesh size are unchaged, use the previously calculated values
         tol = self.options["regen_tol"]  # floating point comparison tolerance
         if (
-            np.abs(S - OASDataGen.S) < tol
+            OASDataGen.grid is not None
+            and all(np.array_equal(new, old) for new, old in zip(grid, OASDataGen.grid))
+            and mesh_size == OASDataGen.mesh_size
+            and twist.shape == OASDataGen.twist.shape
+            and toverc.shape == OASDataGen.toverc.shape
+            and skin.shape == OASDataGen.skin.shape
+            and spar.shape == OASDataGen.spar.shape
+            and np.abs(S - OASDataGen.S) < tol
             and np.abs(AR - OASDataGen.AR) < tol
             and np.abs(taper - OASDataGen.taper) < tol
             and np.abs(sweep - OASDataGen.c4sweep) < tol
@@ -475,22 +485,9 @@ class OASDataGen(om.ExplicitComponent):
         print(f"S = {S}; AR = {AR}; taper = {taper}; sweep = {sweep}; twist = {twist};")
         print(f"toverc = {toverc}; skin = {skin}; spar = {spar}; temp_incr = {temp_incr}")
 
-        # Copy new values to cached ones
-        OASDataGen.S[:] = S
-        OASDataGen.AR[:] = AR
-        OASDataGen.taper[:] = taper
-        OASDataGen.c4sweep[:] = sweep
-        OASDataGen.twist[:] = twist
-        OASDataGen.toverc[:] = toverc
-        OASDataGen.skin[:] = skin
-        OASDataGen.spar[:] = spar
-        OASDataGen.temp_incr[:] = temp_incr
-
         # Compute new training values
         train_in = {}
-        train_in["Mach_number_grid"] = OASDataGen.Mach
-        train_in["alpha_grid"] = OASDataGen.alpha
-        train_in["alt_grid"] = OASDataGen.alt
+        train_in["Mach_number_grid"], train_in["alpha_grid"], train_in["alt_grid"] = grid
         train_in["TempIncrement"] = temp_incr
         train_in["S_ref"] = S
         train_in["AR"] = AR
@@ -504,9 +501,22 @@ class OASDataGen(om.ExplicitComponent):
         train_in["num_y"] = self.options["num_y"]
 
         data = compute_training_data(train_in, surf_dict=self.options["surf_options"])
-        OASDataGen.CL[:] = data["CL"]
-        OASDataGen.CD[:] = data["CD"]
-        OASDataGen.failure[:] = data["failure"]
+
+        # Copy new values to cached ones (only once the training succeeded)
+        OASDataGen.grid = grid
+        OASDataGen.mesh_size = mesh_size
+        OASDataGen.S = np.copy(S)
+        OASDataGen.AR = np.copy(AR)
+        OASDataGen.taper = np.copy(taper)
+        OASDataGen.c4sweep = np.copy(sweep)
+        OASDataGen.twist = np.copy(twist)
+        OASDataGen.toverc = np.copy(toverc)
+        OASDataGen.skin = np.copy(skin)
+        OASDataGen.spar = np.copy(spar)
+        OASDataGen.temp_incr = np.copy(temp_incr)
+        OASDataGen.CL = data["CL"]
+        OASDataGen.CD = data["CD"]
+        OASDataGen.failure = data["failure"]
         OASDataGen.W_wing = data["W_wing"]
         OASDataGen.partials = copy(data["partials"])
         outputs["CL_train"] = OASDataGen.CL
diff --git a/openconcept/aerodynamics/openaerostruct/drag_polar.py b/openconcept/aerodynamics/openaerostruct/drag_polar.py
index 8e5e7b3..8a928fc 100644
--- a/openconcept/aerodynamics/openaerostruct/drag_polar.py
+++ b/openconcept/aerodynamics/openaerostruct/drag_polar.py
@@ -484,9 +484,7 @@ class VLMDataGen(om.ExplicitComponent):
         VLMDataGen.mesh = -np.ones((nx + 1, ny + 1, 3))
         VLMDataGen.toverc = -np.ones(ny)
         VLMDataGen.temp_incr = -42 * np.ones(1)
-        VLMDataGen.Mach, VLMDataGen.alpha, VLMDataGen.alt = np.meshgrid(
-            self.options["Mach_train"], self.options["alpha_train"], self.options["alt_train"], indexing="ij"
-        )
+        VLMDataGen.grid = None
         VLMDataGen.CL = np.zeros((n_Mach, n_alpha, n_alt))
         VLMDataGen.CD = np.zeros((n_Mach, n_alpha, n_alt))
         VLMDataGen.partials = None
@@ -495,11 +493,17 @@ class VLMDataGen(om.ExplicitComponent):
         mesh = inputs["ac|geom|wing|OAS_mesh"]
         toverc = inputs["ac|geom|wing|toverc"]
         temp_incr = inputs["fltcond|TempIncrement"]
+        grid = np.meshgrid(
+            self.options["Mach_train"], self.options["alpha_train"], self.options["alt_train"], indexing="ij"
+        )
 
-        # If the inputs are unchaged, use the previously calculated values
+        # If the inputs and the training grid are unchaged, use the previously calculated values
         tol = 1e-13  # floating point comparison tolerance
         if (
-            np.all(np.abs(mesh - VLMDataGen.mesh) < tol)
+            VLMDataGen.grid is not None
+            and all(np.array_equal(new, old) for new, old in zip(grid, VLMDataGen.grid))
+            and mesh.shape == VLMDataGen.mesh.shape
+            and np.all(np.abs(mesh - VLMDataGen.mesh) < tol)
             and np.all(np.abs(toverc - VLMDataGen.toverc) < tol)
             and np.abs(temp_incr - VLMDataGen.temp_incr) < tol
         ):
@@ -507,16 +511,9 @@ class VLMDataGen(om.ExplicitComponent):
             outputs["CD_train"] = VLMDataGen.CD
             return
 
-        # Copy new values to cached ones
-        VLMDataGen.mesh[:, :, :] = mesh
-        VLMDataGen.toverc[:] = toverc
-        VLMDataGen.temp_incr[:] = temp_incr
-
         # Compute new training values
         train_in = {}
-        train_in["Mach_number_grid"] = VLMDataGen.Mach
-        train_in["alpha_grid"] = VLMDataGen.alpha
-        train_in["alt_grid"] = VLMDataGen.alt
+        train_in["Mach_number_grid"], train_in["alpha_grid"], train_in["alt_grid"] = grid
         train_in["TempIncrement"] = temp_incr
         train_in["mesh"] = mesh
         train_in["toverc"] = toverc
@@ -524,8 +521,14 @@ class VLMDataGen(om.ExplicitComponent):
         train_in["num_y"] = self.options["num_y"]
 
         data = compute_training_data(train_in, surf_dict=self.options["surf_options"])
-        VLMDataGen.CL[:] = data["CL"]
-        VLMDataGen.CD[:] = data["CD"]
+
+        # Copy new values to cached ones (only once the training succeeded)
+        VLMDataGen.grid = grid
+        VLMDataGen.mesh = np.copy(mesh)
+        VLMDataGen.toverc = np.copy(toverc)
+        VLMDataGen.temp_incr = np.copy(temp_incr)
+        VLMDataGen.CL = data["CL"]
+        VLMDataGen.CD = data["CD"]
         VLMDataGen.partials = copy(data["partials"])
         outputs["CL_train"] = VLMDataGen.CL
         outputs["CD_train"] = VLMDataGen.CD
-- 
2.43.0


From 4cb5e7c2e8b83bd7b8902aaac48d899c25bb9610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:28 +0000
Subject: [PATCH 19/21] fix: plot_OAS_force_contours used a zero width for the
 back of every panel

---
 openconcept/utilities/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/utilities/visualization.py b/openconcept/utilities/visualization.py
index 448fc47..f67e2c4 100644
--- a/openconcept/utilities/visualization.py
+++ b/openconcept/utilities/visualization.py
@@ -232,7 +232,7 @@ def plot_OAS_force_contours(
 
     # Compute the panel areas
     panel_front_widths = y_mesh[:-1, 1:] - y_mesh[:-1, :-1]
-    panel_back_widths = y_mesh[1:, 1:] - y_mesh[1:, 1:]
+    panel_back_widths = y_mesh[1:, 1:] - y_mesh[1:, :-1]
     panel_avg_widths = 0.5 * (panel_front_widths + panel_back_widths)
     panel_left_side_lengths = x_mesh[1:, :-1] - x_mesh[:-1, :-1]
     panel_right_side_lengths = x_mesh[1:, 1:] - x_mesh[:-1, 1:]
-- 
2.43.0


From 5cfdaa0c3c2ff62da13beb78e1db8f2d7fc5f679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:28 +0000
Subject: [PATCH 20/21] fix: plot_trajectory_grid raised an error when no y
 labels were given

---
 openconcept/utilities/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/utilities/visualization.py b/openconcept/utilities/visualization.py
index f67e2c4..5c66651 100644
--- a/openconcept/utilities/visualization.py
+++ b/openconcept/utilities/visualization.py
@@ -92,7 +92,7 @@ def plot_trajectory_grid(
             if y_labels[i] is not None:
                 axs[row_no, col_no].set(ylabel=y_labels[i])
         else:
-            axs[row_no, col_no].set(y_var)
+            axs[row_no, col_no].set(ylabel=y_var)
 
         counter_within_file += 1
 
-- 
2.43.0


From acc0d6c5b3d697f244aaccbba66aeb6083baa1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:28 +0000
Subject: [PATCH 21/21] fix: plot_trajectory_grid failed for layouts with a
 single row or column

---
 openconcept/utilities/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openconcept/utilities/visualization.py b/openconcept/utilities/visualization.py
index 5c66651..f9930af 100644
--- a/openconcept/utilities/visualization.py
+++ b/openconcept/utilities/visualization.py
@@ -71,7 +71,7 @@ def plot_trajectory_grid(
                 # write the file
                 if savefig is not None:
                     plt.savefig(savefig + "_" + str(file_counter) + ".pdf")
-            fig, axs = plt.subplots(grid_layout[0], grid_layout[1], sharex=True, figsize=figsize)
+            fig, axs = plt.subplots(grid_layout[0], grid_layout[1], sharex=True, squeeze=False, figsize=figsize)
             file_counter += 1
             counter_within_file = 0
 
-- 
2.43.0

