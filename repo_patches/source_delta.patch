From 9b3c8095f3f579803a07828dafac4327ab9ca162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:57 +0000
Subject: [PATCH 01/69] fix: apply tail mass scalers in the GASP tail mass
 derivatives

---
 aviary/subsystems/mass/gasp_based/fixed.py | 56 +++++++++++++++-------
 1 file changed, 38 insertions(+), 18 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/fixed.py b/aviary/subsystems/mass/gasp_based/fixed.py
index 7de2945..dcdc6f7 100644
--- a/aviary/subsystems/mass/gasp_based/fixed.py
+++ b/aviary/subsystems/mass/gasp_based/fixed.py
@@ -650,6 +650,7 @@ class HorizontalTailMass(om.ExplicitComponent):
 
     def compute_partials(self, inputs, J):
         gross_wt_initial = inputs[Aircraft.Design.GROSS_MASS] * GRAV_ENGLISH_LBM
+        CK9 = inputs[Aircraft.HorizontalTail.MASS_SCALER]
         coef_htail = inputs[Aircraft.HorizontalTail.MASS_COEFFICIENT]
         fus_len = inputs[Aircraft.Fuselage.LENGTH]
         span_htail = inputs[Aircraft.HorizontalTail.SPAN]
@@ -725,7 +726,8 @@ class HorizontalTailMass(om.ExplicitComponent):
         )
 
         J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.AREA] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * 0.54
             * (
@@ -737,7 +739,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * htail_area ** (-0.46)
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.Design.GROSS_MASS] = (
-            350.0
+            CK9
+            * 350.0
             * 0.54
             * (
                 htail_area
@@ -749,7 +752,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * dFH_dGrossWtInitial
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.MASS_COEFFICIENT] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * 0.54
             * (
@@ -762,7 +766,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * dFH_dCoefHtail
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.Fuselage.LENGTH] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * 0.54
             * (
@@ -775,7 +780,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * dFH_dFusLen
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.SPAN] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * 0.54
             * (
@@ -788,7 +794,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * dFH_dSpanHtail
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.LandingGear.TAIL_HOOK_MASS_SCALER] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * 0.54
             * (
@@ -801,7 +808,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * dFH_dHookFac
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.TAPER_RATIO] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * 0.54
             * (
@@ -814,7 +822,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * dFH_dTaperRatioHtail
         )
         J[Aircraft.HorizontalTail.MASS, 'min_dive_vel'] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * 0.54
             * (htail_area * FH / (100.0 * htail_mom_arm * tc_ratio_root_htail * root_chord_htail))
@@ -823,7 +832,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             / (min_dive_vel * np.log(10))
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.MOMENT_ARM] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * (
                 htail_area
@@ -836,7 +846,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * htail_mom_arm ** (-1.54)
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.THICKNESS_TO_CHORD] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * (
                 htail_area
@@ -849,7 +860,8 @@ class HorizontalTailMass(om.ExplicitComponent):
             * tc_ratio_root_htail ** (-1.54)
         )
         J[Aircraft.HorizontalTail.MASS, Aircraft.HorizontalTail.ROOT_CHORD] = (
-            350.0
+            CK9
+            * 350.0
             / GRAV_ENGLISH_LBM
             * (
                 htail_area
@@ -1008,6 +1020,7 @@ class VerticalTailMass(om.ExplicitComponent):
 
     def compute_partials(self, inputs, J):
         taper_ratio_vtail = inputs[Aircraft.VerticalTail.TAPER_RATIO]
+        CK10 = inputs[Aircraft.VerticalTail.MASS_SCALER]
         AR_vtail = inputs[Aircraft.VerticalTail.ASPECT_RATIO]
         quarter_sweep_tail = inputs[Aircraft.VerticalTail.SWEEP]
         span_vtail = inputs[Aircraft.VerticalTail.SPAN]
@@ -1185,7 +1198,8 @@ class VerticalTailMass(om.ExplicitComponent):
         )
 
         temp = (
-            380.0
+            CK10
+            * 380.0
             * (
                 vtail_area
                 * np.log10(min_dive_vel)
@@ -1260,7 +1274,8 @@ class VerticalTailMass(om.ExplicitComponent):
             / 2
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.HorizontalTail.VERTICAL_TAIL_MOUNT_LOCATION] = (
-            380.0
+            CK10
+            * 380.0
             / GRAV_ENGLISH_LBM
             * (
                 vtail_area
@@ -1274,7 +1289,8 @@ class VerticalTailMass(om.ExplicitComponent):
             / 2
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.VerticalTail.AREA] = (
-            380.0
+            CK10
+            * 380.0
             / GRAV_ENGLISH_LBM
             * (
                 (FV + htail_loc * FH / 2.0)
@@ -1286,7 +1302,8 @@ class VerticalTailMass(om.ExplicitComponent):
             * vtail_area ** (-0.46)
         )
         J[Aircraft.VerticalTail.MASS, 'min_dive_vel'] = (
-            380.0
+            CK10
+            * 380.0
             / GRAV_ENGLISH_LBM
             * (
                 (FV + htail_loc * FH / 2.0)
@@ -1299,7 +1316,8 @@ class VerticalTailMass(om.ExplicitComponent):
             / (min_dive_vel * np.log(10))
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.VerticalTail.MOMENT_ARM] = (
-            380.0
+            CK10
+            * 380.0
             / GRAV_ENGLISH_LBM
             * (
                 (FV + htail_loc * FH / 2.0)
@@ -1312,7 +1330,8 @@ class VerticalTailMass(om.ExplicitComponent):
             * vtail_mom_arm ** (-1.54)
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.VerticalTail.THICKNESS_TO_CHORD] = (
-            380.0
+            CK10
+            * 380.0
             / GRAV_ENGLISH_LBM
             * (
                 (FV + htail_loc * FH / 2.0)
@@ -1325,7 +1344,8 @@ class VerticalTailMass(om.ExplicitComponent):
             * tc_ratio_root_vtail ** (-1.54)
         )
         J[Aircraft.VerticalTail.MASS, Aircraft.VerticalTail.ROOT_CHORD] = (
-            380.0
+            CK10
+            * 380.0
             / GRAV_ENGLISH_LBM
             * (
                 (FV + htail_loc * FH / 2.0)
-- 
2.43.0


From c2c02dd396f19c9b65c549d9fc436006d44d154d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:57 +0000
Subject: [PATCH 02/69] fix: apply the fuselage mass scaler in the GASP
 fuselage mass derivatives

---
 aviary/subsystems/mass/gasp_based/fuel.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/fuel.py b/aviary/subsystems/mass/gasp_based/fuel.py
index 5cd41be..d44f155 100644
--- a/aviary/subsystems/mass/gasp_based/fuel.py
+++ b/aviary/subsystems/mass/gasp_based/fuel.py
@@ -1137,7 +1137,7 @@ class FuselageMass(om.ExplicitComponent):
         J[Aircraft.Fuselage.MASS, Aircraft.Wing.ULTIMATE_LOAD_FACTOR] = (
             dFusWt_dULF / GRAV_ENGLISH_LBM
         )
-        J[Aircraft.Fuselage.MASS, 'MAT'] = 1
+        J[Aircraft.Fuselage.MASS, 'MAT'] = CK11
 
 
 class BWBFuselageMass(om.ExplicitComponent):
@@ -1189,6 +1189,7 @@ class BWBFuselageMass(om.ExplicitComponent):
         outputs[Aircraft.Fuselage.MASS] = CK11 * fus_wt / GRAV_ENGLISH_LBM
 
     def compute_partials(self, inputs, J):
+        CK11 = inputs[Aircraft.Fuselage.MASS_SCALER]
         c_fuselage = inputs[Aircraft.Fuselage.MASS_COEFFICIENT]
         gross_wt_initial = inputs[Aircraft.Design.GROSS_MASS] * GRAV_ENGLISH_LBM
         area_cabin = inputs[Aircraft.Fuselage.CABIN_AREA]
@@ -1197,18 +1198,22 @@ class BWBFuselageMass(om.ExplicitComponent):
         fus_SA = inputs[Aircraft.Fuselage.WETTED_AREA]
 
         dFusWt_dc_fuselage = (
-            1.8 * (gross_wt_initial**0.167) * (area_cabin**1.06)
-            + fus_SA * area_aft_to_total * uwt_aft
-        ) / GRAV_ENGLISH_LBM
+            CK11
+            * (
+                1.8 * (gross_wt_initial**0.167) * (area_cabin**1.06)
+                + fus_SA * area_aft_to_total * uwt_aft
+            )
+            / GRAV_ENGLISH_LBM
+        )
         dFusWt_dgross_wt_initial = (
-            0.167 * c_fuselage * 1.8 * (gross_wt_initial**-0.833) * (area_cabin**1.06)
+            CK11 * 0.167 * c_fuselage * 1.8 * (gross_wt_initial**-0.833) * (area_cabin**1.06)
         )
         dFusWt_darea_cabin = (
-            1.06 * c_fuselage * 1.8 * (gross_wt_initial**0.167) * (area_cabin**0.06)
+            CK11 * 1.06 * c_fuselage * 1.8 * (gross_wt_initial**0.167) * (area_cabin**0.06)
         ) / GRAV_ENGLISH_LBM
-        dFusWt_darea_aft_to_total = c_fuselage * fus_SA * uwt_aft / GRAV_ENGLISH_LBM
-        dFusWt_duwt_aft = c_fuselage * fus_SA * area_aft_to_total
-        dFusWt_dfus_SA = c_fuselage * area_aft_to_total * uwt_aft / GRAV_ENGLISH_LBM
+        dFusWt_darea_aft_to_total = CK11 * c_fuselage * fus_SA * uwt_aft / GRAV_ENGLISH_LBM
+        dFusWt_duwt_aft = CK11 * c_fuselage * fus_SA * area_aft_to_total
+        dFusWt_dfus_SA = CK11 * c_fuselage * area_aft_to_total * uwt_aft / GRAV_ENGLISH_LBM
 
         J[Aircraft.Fuselage.MASS, Aircraft.Fuselage.MASS_COEFFICIENT] = dFusWt_dc_fuselage
         J[Aircraft.Fuselage.MASS, Aircraft.Design.GROSS_MASS] = dFusWt_dgross_wt_initial
-- 
2.43.0


From b2d0acf9722f56893823a38619e545b0a9987ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:57 +0000
Subject: [PATCH 03/69] fix: apply the surface control mass scaler in its
 derivatives

---
 aviary/subsystems/mass/gasp_based/control.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/control.py b/aviary/subsystems/mass/gasp_based/control.py
index 26347d9..d76df0c 100644
--- a/aviary/subsystems/mass/gasp_based/control.py
+++ b/aviary/subsystems/mass/gasp_based/control.py
@@ -201,7 +201,7 @@ class SurfaceControlMass(om.ExplicitComponent):
         )
 
         # Aircraft.Wing.AREA
-        dSCW_dWA = 0.317 * (
+        dSCW_dWA = CK18 * 0.317 * (
             c_mass_trend_wing_control
             * wing_area ** (0.317 - 1)
             * (gross_wt_initial / 1000.0) ** 0.602
@@ -222,7 +222,8 @@ class SurfaceControlMass(om.ExplicitComponent):
 
         # Aircraft.Wing.ULTIMATE_LOAD_FACTOR
         dSCW_dULF = (
-            0.525
+            CK18
+            * 0.525
             * c_mass_trend_wing_control
             * wing_area**0.317
             * (gross_wt_initial / 1000.0) ** 0.602
@@ -232,7 +233,8 @@ class SurfaceControlMass(om.ExplicitComponent):
 
         # min_dive_vel
         dSCW_dMDV = (
-            0.345
+            CK18
+            * 0.345
             * c_mass_trend_wing_control
             * wing_area**0.317
             * (gross_wt_initial / 1000.0) ** 0.602
-- 
2.43.0


From 194682dcb1fdb4f3328c4515c7d368fd16c2b0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:57 +0000
Subject: [PATCH 04/69] fix: apply the nacelle mass scaler in the GASP pylon
 mass derivatives

---
 aviary/subsystems/mass/gasp_based/engine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aviary/subsystems/mass/gasp_based/engine.py b/aviary/subsystems/mass/gasp_based/engine.py
index 2592027..7549980 100644
--- a/aviary/subsystems/mass/gasp_based/engine.py
+++ b/aviary/subsystems/mass/gasp_based/engine.py
@@ -131,6 +131,7 @@ class TotalEngineMass(om.ExplicitComponent):
             0.736
             * pylon_fac
             * (eng_spec_wt * Fn_SLS + scaler * spec_nacelle_wt * nacelle_area) ** (-0.264)
+            * scaler
             * nacelle_area
         )
         dNW_dNSA = scaler * spec_nacelle_wt
@@ -138,6 +139,7 @@ class TotalEngineMass(om.ExplicitComponent):
             0.736
             * pylon_fac
             * (eng_spec_wt * Fn_SLS + scaler * spec_nacelle_wt * nacelle_area) ** (-0.264)
+            * scaler
             * spec_nacelle_wt
         )
         dPW_dPF = (eng_spec_wt * Fn_SLS + scaler * spec_nacelle_wt * nacelle_area) ** 0.736
-- 
2.43.0


From 3253d588c07c3de3ced1cdf421624ad27888d643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:05 +0000
Subject: [PATCH 05/69] fix: derivatives of the GASP total landing gear mass
 (mass scaler, gear height, wing mount location)

---
 aviary/subsystems/mass/gasp_based/landing.py | 50 ++++++++++++--------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/landing.py b/aviary/subsystems/mass/gasp_based/landing.py
index da0cd6b..b3b4614 100644
--- a/aviary/subsystems/mass/gasp_based/landing.py
+++ b/aviary/subsystems/mass/gasp_based/landing.py
@@ -71,6 +71,7 @@ class TotalLandingGearMass(om.ExplicitComponent):
                 Aircraft.Nacelle.CLEARANCE_RATIO,
                 Aircraft.Nacelle.AVG_DIAMETER,
                 Aircraft.LandingGear.TOTAL_MASS_SCALER,
+                Aircraft.Wing.VERTICAL_MOUNT_LOCATION,
             ],
         )
 
@@ -114,6 +115,7 @@ class TotalLandingGearMass(om.ExplicitComponent):
         wing_loc = inputs[Aircraft.Wing.VERTICAL_MOUNT_LOCATION]
         clearance_ratio = inputs[Aircraft.Nacelle.CLEARANCE_RATIO]
         nacelle_diam = inputs[Aircraft.Nacelle.AVG_DIAMETER]
+        CK12 = inputs[Aircraft.LandingGear.TOTAL_MASS_SCALER]
 
         val = (1.0 + clearance_ratio) * nacelle_diam
         gear_height_temp = KSfunction.compute(val, 50.0)
@@ -129,47 +131,53 @@ class TotalLandingGearMass(om.ExplicitComponent):
             + sigmoidX(wing_loc, 0.005, 0.01 / 320.0)
         ) * landing_wt
 
-        dGH_dCR = (
-            (
-                sigmoidX(gear_height_temp, 6, 1 / 320.0) * nacelle_diam
-                + gear_height_temp * dSigmoidXdx(gear_height_temp, 6, 1 / 320.0) * nacelle_diam
-            )
-            + (6 * dSigmoidXdx(gear_height_temp, 6, 1 / 320.0) * -nacelle_diam)
-        ) * dKS
+        # derivative of the gear height with respect to the largest required clearance
+        dGH_dKS = (
+            sigmoidX(gear_height_temp, 6, 1 / 320.0)
+            + gear_height_temp * dSigmoidXdx(gear_height_temp, 6, 1 / 320.0)
+            + 6 * dSigmoidXdx(gear_height_temp, 6, -1 / 320.0)
+        )
+
+        dGH_dCR = dGH_dKS * nacelle_diam * dKS
 
-        dGH_dND = (
-            sigmoidX(gear_height_temp, 6, 1 / 320.0) * (1 + clearance_ratio)
-            + gear_height_temp * dSigmoidXdx(gear_height_temp, 6, 1 / 320.0) * (1 + clearance_ratio)
-        ) * dKS + (6 * dSigmoidXdx(gear_height_temp, 6, 1 / 320.0) * (1 + clearance_ratio))
+        dGH_dND = dGH_dKS * (1 + clearance_ratio) * dKS
 
         c_gear_mass_modified = (c_gear_mass * 0.85 * (1.0 + 0.1765 * gear_height / 6.0)) * sigmoidX(
             wing_loc, 0.005, -0.01 / 320.0
         ) + c_gear_mass * sigmoidX(wing_loc, 0.005, 0.01 / 320.0)
 
-        dLGW_dCR = max(
-            (c_gear_mass * 0.85 * 0.1765 / 6 * dGH_dCR * landing_wt)
-            * sigmoidX(wing_loc, 0.005, -0.01 / 320.0)
+        dLGW_dCR = (c_gear_mass * 0.85 * 0.1765 / 6 * dGH_dCR * landing_wt) * sigmoidX(
+            wing_loc, 0.005, -0.01 / 320.0
         )
 
-        dLGW_dND = max(
-            (c_gear_mass * 0.85 * 0.1765 / 6 * dGH_dND * landing_wt)
-            * sigmoidX(wing_loc, 0.005, -0.01 / 320.0)
+        dLGW_dND = (c_gear_mass * 0.85 * 0.1765 / 6 * dGH_dND * landing_wt) * sigmoidX(
+            wing_loc, 0.005, -0.01 / 320.0
         )
 
+        dLGW_dWL = (
+            (c_gear_mass * 0.85 * (1.0 + 0.1765 * gear_height / 6.0))
+            * dSigmoidXdx(wing_loc, 0.005, -0.01 / 320.0)
+            + c_gear_mass * dSigmoidXdx(wing_loc, 0.005, 0.01 / 320.0)
+        ) * landing_wt
+
         J[Aircraft.LandingGear.TOTAL_MASS, Aircraft.LandingGear.MASS_COEFFICIENT] = (
-            dLGW_dCGW / GRAV_ENGLISH_LBM
+            CK12 * dLGW_dCGW / GRAV_ENGLISH_LBM
         )
 
         J[Aircraft.LandingGear.TOTAL_MASS, Aircraft.Nacelle.CLEARANCE_RATIO] = (
-            dLGW_dCR / GRAV_ENGLISH_LBM
+            CK12 * dLGW_dCR / GRAV_ENGLISH_LBM
         )
 
         J[Aircraft.LandingGear.TOTAL_MASS, Aircraft.Nacelle.AVG_DIAMETER] = (
-            dLGW_dND / GRAV_ENGLISH_LBM
+            CK12 * dLGW_dND / GRAV_ENGLISH_LBM
+        )
+
+        J[Aircraft.LandingGear.TOTAL_MASS, Aircraft.Wing.VERTICAL_MOUNT_LOCATION] = (
+            CK12 * dLGW_dWL / GRAV_ENGLISH_LBM
         )
 
         J[Aircraft.LandingGear.TOTAL_MASS, Aircraft.Design.TOUCHDOWN_MASS_MAX] = (
-            c_gear_mass_modified
+            CK12 * c_gear_mass_modified
         )
 
         J[Aircraft.LandingGear.TOTAL_MASS, Aircraft.LandingGear.TOTAL_MASS_SCALER] = (
-- 
2.43.0


From 8d2582ec96b21dd31ab46438e43e12bde5507db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:05 +0000
Subject: [PATCH 06/69] fix: derivative of the wing mounted mass with respect
 to the engine locations

---
 aviary/subsystems/mass/gasp_based/engine.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/engine.py b/aviary/subsystems/mass/gasp_based/engine.py
index 7549980..5c250b2 100644
--- a/aviary/subsystems/mass/gasp_based/engine.py
+++ b/aviary/subsystems/mass/gasp_based/engine.py
@@ -508,7 +508,6 @@ class WingMountEngineMass(om.ExplicitComponent):
     def compute_partials(self, inputs, J):
         num_engines = self.options[Aircraft.Engine.NUM_ENGINES]
         num_engine_type = len(num_engines)
-        c_instl = self.options[Aircraft.Engine.ADDITIONAL_MASS_FRACTION]
 
         eng_spec_wt = inputs[Aircraft.Engine.MASS_SPECIFIC] * GRAV_ENGLISH_LBM
         Fn_SLS = inputs[Aircraft.Engine.SCALED_SLS_THRUST]
@@ -531,7 +530,7 @@ class WingMountEngineMass(om.ExplicitComponent):
 
         dry_wt_eng = eng_spec_wt * Fn_SLS
         pod_wt = inputs[Aircraft.Engine.POD_MASS] * GRAV_ENGLISH_LBM
-        eng_instl_wt = c_instl * dry_wt_eng
+        eng_instl_wt = inputs[Aircraft.Engine.ADDITIONAL_MASS] / CK7 * GRAV_ENGLISH_LBM
         prop_wt = inputs[Aircraft.Engine.Propeller.MASS] * GRAV_ENGLISH_LBM
         # prop_wt_all = sum(num_engines * prop_wt) / GRAV_ENGLISH_LBM
         span_frac_factor = eng_span_frac / (eng_span_frac + 0.001)
-- 
2.43.0


From 91b9f1e6bdafa303055d33c7c3f02cbf0180b0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 07/69] fix: unbound derivative of the oxygen system mass for
 light aircraft

---
 aviary/subsystems/mass/gasp_based/oxygen_system.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/oxygen_system.py b/aviary/subsystems/mass/gasp_based/oxygen_system.py
index 347d9bc..fdab832 100644
--- a/aviary/subsystems/mass/gasp_based/oxygen_system.py
+++ b/aviary/subsystems/mass/gasp_based/oxygen_system.py
@@ -61,8 +61,7 @@ class OxygenSystemMass(om.ExplicitComponent):
                     3 * dSigmoidXdx(gross_wt_initial / 3000, 1, 0.01) * 1 / 3000
                 )
             else:
-                if gross_wt_initial > 3000.0:
-                    d_aux_wt_dgross_wt_initial = 0.0
+                d_aux_wt_dgross_wt_initial = 0.0
         else:
             d_aux_wt_dgross_wt_initial = 0.0
 
-- 
2.43.0


From c4104b35499a4421de5bf57ad231efdc1c87256c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 08/69] fix: propeller advance ratio overwrote the velocity
 input and its derivative ignored the lower limit

---
 .../propulsion/propeller/hamilton_standard.py          | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/aviary/subsystems/propulsion/propeller/hamilton_standard.py b/aviary/subsystems/propulsion/propeller/hamilton_standard.py
index b8fd84d..3502611 100644
--- a/aviary/subsystems/propulsion/propeller/hamilton_standard.py
+++ b/aviary/subsystems/propulsion/propeller/hamilton_standard.py
@@ -530,7 +530,7 @@ class PreHamiltonStandard(om.ExplicitComponent):
         rho_sea_level = self.options[Mission.SEA_LEVEL_DENSITY][0]
 
         # arbitrarily small number to keep advance ratio nonzero, which allows for static thrust prediction
-        vtas[np.where(vtas <= 1e-6)] = 1e-6
+        vtas = np.where(vtas <= 1e-6, 1e-6, vtas)
         density_ratio = inputs[Dynamic.Atmosphere.DENSITY] / rho_sea_level
 
         if diam_prop <= 0.0:
@@ -557,7 +557,9 @@ class PreHamiltonStandard(om.ExplicitComponent):
         )
 
     def compute_partials(self, inputs, partials):
-        vtas = inputs[Dynamic.Mission.VELOCITY]
+        # same lower limit on velocity as in compute, below it the advance ratio is constant in velocity
+        clipped = inputs[Dynamic.Mission.VELOCITY] <= 1e-6
+        vtas = np.where(clipped, 1e-6, inputs[Dynamic.Mission.VELOCITY])
         tipspd = inputs[Dynamic.Vehicle.Propulsion.PROPELLER_TIP_SPEED]
         rho = inputs[Dynamic.Atmosphere.DENSITY]
         diam_prop = inputs[Aircraft.Engine.Propeller.DIAMETER]
@@ -571,7 +573,9 @@ class PreHamiltonStandard(om.ExplicitComponent):
         # partials["density_ratio", Dynamic.Atmosphere.DENSITY] = 1 / rho_sea_level
         partials['tip_mach', Dynamic.Vehicle.Propulsion.PROPELLER_TIP_SPEED] = 1 / sos
         partials['tip_mach', Dynamic.Atmosphere.SPEED_OF_SOUND] = -tipspd / sos**2
-        partials['advance_ratio', Dynamic.Mission.VELOCITY] = math.pi / tipspd
+        partials['advance_ratio', Dynamic.Mission.VELOCITY] = np.where(
+            clipped, 0.0, math.pi / tipspd
+        )
         partials['advance_ratio', Dynamic.Vehicle.Propulsion.PROPELLER_TIP_SPEED] = (
             -math.pi * vtas / (tipspd * tipspd)
         )
-- 
2.43.0


From 88c3d62d9cef2343bdc448cdfd2755ef8cb058be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 09/69] fix: derivative of the main gear length with respect to
 span for engine locations given as distances

---
 aviary/subsystems/geometry/flops_based/landing_gear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/subsystems/geometry/flops_based/landing_gear.py b/aviary/subsystems/geometry/flops_based/landing_gear.py
index 791fc71..926e3d1 100644
--- a/aviary/subsystems/geometry/flops_based/landing_gear.py
+++ b/aviary/subsystems/geometry/flops_based/landing_gear.py
@@ -144,7 +144,7 @@ class MainGearLength(om.ExplicitComponent):
                 yee = y_eng_aft
 
             dyee_dwel = 1.0
-            dyee_dspan = 1.0
+            dyee_dspan = 0.0
             if yee < 1.0:
                 dyee_dwel = 6.0 * inputs[Aircraft.Wing.SPAN]
                 dyee_dspan = 6.0 * yee
-- 
2.43.0


From a54b9d5f9143bbe4866945aff20e0e746bf20de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:25 +0000
Subject: [PATCH 10/69] fix: strut Reynolds number factor has to stay aligned
 with the flight condition nodes

---
 aviary/subsystems/aerodynamics/gasp_based/gaspaero.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py b/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
index cc5c2ac..581bf69 100644
--- a/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
+++ b/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
@@ -991,7 +991,7 @@ class AeroGeom(om.ExplicitComponent):
         fhtre[good_mask] = (np.log10(reli[good_mask] * htail_chord) / 7) ** -2.6
         include_strut = self.options[Aircraft.Wing.HAS_STRUT]
         if include_strut:
-            fstrtre = (np.log10(reli[good_mask] * strut_chord) / 7) ** -2.6
+            fstrtre[good_mask] = (np.log10(reli[good_mask] * strut_chord) / 7) ** -2.6
 
         # fuselage form drag factor
         # fffus = 1 + 1.5 * (cabin_width / fus_len) ** 1.5 + 7 * (cabin_width / fus_len) ** 3
-- 
2.43.0


From 81b290884ebabddf1e8d5fb0eb224d9d857783ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:25 +0000
Subject: [PATCH 11/69] fix: declare the missing partials of SA5 and SA7 with
 respect to drag factors and strut chord

---
 aviary/subsystems/aerodynamics/gasp_based/gaspaero.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py b/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
index 581bf69..7aa3e56 100644
--- a/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
+++ b/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
@@ -862,6 +862,7 @@ class AeroGeom(om.ExplicitComponent):
             Aircraft.VerticalTail.AVERAGE_CHORD,
             Aircraft.Fuselage.LENGTH,
             Aircraft.Nacelle.AVG_LENGTH,
+            Aircraft.Strut.CHORD,
             Aircraft.HorizontalTail.AREA,
             Aircraft.Fuselage.WETTED_AREA,
             Aircraft.Nacelle.SURFACE_AREA,
@@ -889,7 +890,7 @@ class AeroGeom(om.ExplicitComponent):
         )
         self.declare_partials(
             'SA7',
-            most_params + [Aircraft.Wing.ASPECT_RATIO, Aircraft.Wing.SWEEP] + ['siwb'],
+            most_params + drag_factors + [Aircraft.Wing.ASPECT_RATIO, Aircraft.Wing.SWEEP] + ['siwb'],
             method='cs',
         )
 
-- 
2.43.0


From 5cb4c1d2c480ad9bc9a7ff11c0b990b42e5a5c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:26 +0000
Subject: [PATCH 12/69] fix: declare the missing partials of the clean drag
 coefficient with respect to the drag coefficient factors

---
 aviary/subsystems/aerodynamics/gasp_based/gaspaero.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py b/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
index 7aa3e56..a436d34 100644
--- a/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
+++ b/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
@@ -1394,6 +1394,10 @@ class DragCoefClean(om.ExplicitComponent):
             Dynamic.Vehicle.DRAG_COEFFICIENT,
             [
                 Aircraft.Design.DRAG_DIVERGENCE_SHIFT,
+                Aircraft.Design.SUBSONIC_DRAG_COEFF_FACTOR,
+                Aircraft.Design.SUPERSONIC_DRAG_COEFF_FACTOR,
+                Aircraft.Design.LIFT_DEPENDENT_DRAG_COEFF_FACTOR,
+                Aircraft.Design.ZERO_LIFT_DRAG_COEFF_FACTOR,
                 Aircraft.Design.COMPRESSIBILITY_DRAG_FACTOR,
             ],
             method='cs',
-- 
2.43.0


From c12de37083c1657e47a763597ffbe6b2465d96fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:47 +0000
Subject: [PATCH 13/69] fix: derivatives of the GASP ground proximity factor
 ufac

---
 .../aerodynamics/gasp_based/gaspaero.py           | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py b/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
index a436d34..5036514 100644
--- a/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
+++ b/aviary/subsystems/aerodynamics/gasp_based/gaspaero.py
@@ -616,13 +616,19 @@ class UFac(om.ExplicitComponent):
         bbar = inputs['bbar_alt']
         sigma = inputs['sigma']
         sigstr = inputs['sigstr']
+        wingspan = inputs[Aircraft.Wing.SPAN]
+
+        # same treatment of a tailless "BWB" as in compute
+        tailless = design_type is AircraftTypes.BLENDED_WING_BODY and bbar < 0.01 * wingspan
+        if tailless:
+            bbar = 1.0
 
         numer = (1 + lift_ratio) ** 2
         denom = sigstr * (lift_ratio / bbar) ** 2 + 2 * sigma * lift_ratio / bbar + 1
         ufac = numer / denom
 
         # w.r.t. lift_ratio
-        dnumer = 2 * (1 + lift_ratio) / bbar
+        dnumer = 2 * (1 + lift_ratio)
         ddenom = 2 * sigstr * (lift_ratio / bbar) / bbar + 2 * sigma / bbar
         dufac_dlift_ratio = (dnumer * denom - numer * ddenom) / denom**2
 
@@ -633,17 +639,20 @@ class UFac(om.ExplicitComponent):
             -2 * sigstr * (lift_ratio / bbar) * lift_ratio / bbar**2
             - 2 * sigma * lift_ratio / bbar**2
         )
-        dufac_dbbar = -numer * ddenom_dbbar / denom**2
+        dufac_dbbar = 0.0 if tailless else -numer * ddenom_dbbar / denom**2
 
         if design_type is AircraftTypes.BLENDED_WING_BODY:
             smooth = self.options['smooth_ufac']
             if smooth:
                 mu = self.options['mu']
+                dufac_dlift_ratio = d_smooth_min(ufac, 0.975, mu) * dufac_dlift_ratio
                 dufac_dsigstr = d_smooth_min(ufac, 0.975, mu) * dufac_dsigstr
                 dufac_dsigma = d_smooth_min(ufac, 0.975, mu) * dufac_dsigma
                 dufac_dbbar = d_smooth_min(ufac, 0.975, mu) * dufac_dbbar
             else:
-                ufac = np.minimum(ufac, 0.975)
+                dufac_dlift_ratio = (
+                    np.piecewise(ufac, [ufac < 0.975, ufac >= 0.975], [1, 0]) * dufac_dlift_ratio
+                )
                 dufac_dsigstr = (
                     np.piecewise(ufac, [ufac < 0.975, ufac >= 0.975], [1, 0]) * dufac_dsigstr
                 )
-- 
2.43.0


From af244f6e2b0f340ace3e8b5de0acde83db4c55a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:32 +0000
Subject: [PATCH 14/69] fix: derivative of the BWB aft body surface with
 respect to additional width

---
 aviary/subsystems/geometry/gasp_based/fuselage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/subsystems/geometry/gasp_based/fuselage.py b/aviary/subsystems/geometry/gasp_based/fuselage.py
index 667c704..89f3ffe 100644
--- a/aviary/subsystems/geometry/gasp_based/fuselage.py
+++ b/aviary/subsystems/geometry/gasp_based/fuselage.py
@@ -1082,7 +1082,7 @@ class BWBFuselageSize(om.ExplicitComponent):
         d_cabin_area_d_nose_area = 2.0
 
         d_aft_d_body_width = 2.0 * diag_a_c
-        d_aft_d_additional_width = -diag_a_c + cabin_height * additional_width * 0.25 * diag_a_c
+        d_aft_d_additional_width = -diag_a_c + cabin_height * additional_width * 0.25 / diag_a_a
         d_aft_d_aft_len = (
             2 * body_width - additional_width
         ) * aftbody_len / diag_a_c + cabin_height * aftbody_len / diag_a_a
-- 
2.43.0


From dff9e72a5e88c8e8f88f151ee8fe9f873f4e0113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:32 +0000
Subject: [PATCH 15/69] fix: derivatives of the BWB geometric fuel volume with
 respect to the main gear location

---
 aviary/subsystems/geometry/gasp_based/wing.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/aviary/subsystems/geometry/gasp_based/wing.py b/aviary/subsystems/geometry/gasp_based/wing.py
index 2969b13..6169d91 100644
--- a/aviary/subsystems/geometry/gasp_based/wing.py
+++ b/aviary/subsystems/geometry/gasp_based/wing.py
@@ -612,7 +612,7 @@ class BWBWingVolume(om.ExplicitComponent):
 
         if smooth:
             WID_GRX = 6 * sigmoidX(loc_main_gear, 0.0, mu)
-            dWID_GRX_dloc_main_gear = dSigmoidXdx(loc_main_gear, 0.0, mu) / mu
+            dWID_GRX_dloc_main_gear = 6 * dSigmoidXdx(loc_main_gear, 0.0, mu)
         else:
             if loc_main_gear > 0:
                 WID_GRX = 6.0
@@ -644,7 +644,9 @@ class BWBWingVolume(om.ExplicitComponent):
             1.0 + 2.0 * (0.5 * fuselage_width + WID_GRX) * (taper_ratio - 1.0) / wingspan
         )
         dCFUEL_dSWF = (taper_ratio - 1.0) * center_chort / wingspan
-        dCFUEL_dloc_main_gear = 2.0 * dWID_GRX_dloc_main_gear * (taper_ratio - 1.0) / wingspan
+        dCFUEL_dloc_main_gear = (
+            2.0 * dWID_GRX_dloc_main_gear * (taper_ratio - 1.0) * center_chort / wingspan
+        )
         dCFUEL_dtaper_ratio = 2.0 * (0.5 * fuselage_width + WID_GRX) * center_chort / wingspan
         dCFUEL_dwingspan = (
             -2.0
@@ -664,7 +666,10 @@ class BWBWingVolume(om.ExplicitComponent):
             -0.5 * (CFUEL + taper_ratio * center_chort)
             + (0.5 * wingspan - (0.5 * fuselage_width + WID_GRX)) * dCFUEL_dSWF
         )
-        dSW_NFX_dloc_main_gear = -dWID_GRX_dloc_main_gear * (CFUEL + taper_ratio * center_chort)
+        dSW_NFX_dloc_main_gear = (
+            -dWID_GRX_dloc_main_gear * (CFUEL + taper_ratio * center_chort)
+            + (0.5 * wingspan - (0.5 * fuselage_width + WID_GRX)) * dCFUEL_dloc_main_gear
+        )
         dSW_NFX_dtaper_ratio = (0.5 * wingspan - (0.5 * fuselage_width + WID_GRX)) * (
             dCFUEL_dtaper_ratio + center_chort
         )
@@ -700,7 +705,8 @@ class BWBWingVolume(om.ExplicitComponent):
             - (wingspan - fuselage_width - 2.0 * WID_GRX) ** 2 * dSW_NFX_dSWF / SW_NFX**2
         )
         dAR_NFX_dloc_main_gear = (
-            -((wingspan - fuselage_width - 2.0 * WID_GRX) ** 2) * dSW_NFX_dloc_main_gear / SW_NFX**2
+            -4.0 * dWID_GRX_dloc_main_gear * (wingspan - fuselage_width - 2.0 * WID_GRX) / SW_NFX
+            - ((wingspan - fuselage_width - 2.0 * WID_GRX) ** 2) * dSW_NFX_dloc_main_gear / SW_NFX**2
         )
         dAR_NFX_dwingspan = (
             2 * (wingspan - fuselage_width - 2.0 * WID_GRX) / SW_NFX
-- 
2.43.0


From 75ef09dd772aa39c0201ef376e1585e870b857e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:32 +0000
Subject: [PATCH 16/69] fix: sparsity of the cruise distance partial with
 respect to the initial distance

---
 aviary/mission/two_dof/ode/simple_cruise_eom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aviary/mission/two_dof/ode/simple_cruise_eom.py b/aviary/mission/two_dof/ode/simple_cruise_eom.py
index 792f81f..690a035 100644
--- a/aviary/mission/two_dof/ode/simple_cruise_eom.py
+++ b/aviary/mission/two_dof/ode/simple_cruise_eom.py
@@ -55,8 +55,8 @@ class DistanceComp(om.ExplicitComponent):
         self.declare_partials(
             Dynamic.Mission.DISTANCE,
             'cruise_distance_initial',
-            rows=[0],
-            cols=[0],
+            rows=row_col,
+            cols=np.zeros(nn, dtype=int),
             val=1.0,
         )
 
-- 
2.43.0


From 02f874ad67dea84475c9dde31eabbf75483a6594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:32 +0000
Subject: [PATCH 17/69] fix: missing partials of the approximated true airspeed
 rate

---
 .../ode/unsteady_solved_flight_conditions.py  | 24 ++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/aviary/mission/solved_two_dof/ode/unsteady_solved_flight_conditions.py b/aviary/mission/solved_two_dof/ode/unsteady_solved_flight_conditions.py
index 0f1f4e6..910188c 100644
--- a/aviary/mission/solved_two_dof/ode/unsteady_solved_flight_conditions.py
+++ b/aviary/mission/solved_two_dof/ode/unsteady_solved_flight_conditions.py
@@ -294,7 +294,15 @@ class UnsteadySolvedFlightConditions(om.ExplicitComponent):
             )
 
             self.declare_partials(
-                of='dTAS_dt_approx', wrt=['dmach_dr', 'dsos_dh'], rows=ar, cols=ar
+                of='dTAS_dt_approx',
+                wrt=[
+                    'dmach_dr',
+                    'dsos_dh',
+                    Dynamic.Atmosphere.SPEED_OF_SOUND,
+                    Dynamic.Atmosphere.MACH,
+                ],
+                rows=ar,
+                cols=ar,
             )
 
     def compute(self, inputs, outputs):
@@ -393,6 +401,14 @@ class UnsteadySolvedFlightConditions(om.ExplicitComponent):
             partials['dTAS_dt_approx', 'drho_dh'] = (
                 -0.5 * EAS * TAS * sgam * rho_sl**1.5 / rho_sl**2.5
             )
+            partials['dTAS_dt_approx', 'EAS'] = (
+                inputs['dEAS_dr'] * dTAS_dEAS * cgam * (rho_sl / rho) ** 1.5
+                - inputs['drho_dh'] * TAS * sgam * rho_sl**1.5 / rho_sl**2.5
+            )
+            partials['dTAS_dt_approx', Dynamic.Atmosphere.DENSITY] = (
+                -2.0 * inputs['dEAS_dr'] * TAS * cgam * (rho_sl / rho) ** 1.5 / rho
+                - 0.5 * EAS * inputs['drho_dh'] * dTAS_dRho * sgam * rho_sl**1.5 / rho_sl**2.5
+            )
 
             if not ground_roll:
                 partials['dTAS_dt_approx', Dynamic.Mission.FLIGHT_PATH_ANGLE] = (
@@ -422,6 +438,12 @@ class UnsteadySolvedFlightConditions(om.ExplicitComponent):
             )
             partials['dTAS_dt_approx', 'dmach_dr'] = TAS * cgam * sos
             partials['dTAS_dt_approx', 'dsos_dh'] = TAS**2 * sgam / sos
+            partials['dTAS_dt_approx', Dynamic.Atmosphere.SPEED_OF_SOUND] = (
+                2.0 * inputs['dmach_dr'] * TAS * cgam + inputs['dsos_dh'] * mach**2 * sgam
+            )
+            partials['dTAS_dt_approx', Dynamic.Atmosphere.MACH] = (
+                inputs['dmach_dr'] * sos**2 * cgam + 2.0 * inputs['dsos_dh'] * TAS * sgam
+            )
 
             if not ground_roll:
                 partials['dTAS_dt_approx', Dynamic.Mission.FLIGHT_PATH_ANGLE] = (
-- 
2.43.0


From 8b3d2cd26c00f6d8054d34a9b1525a3490fc43e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:05 +0000
Subject: [PATCH 18/69] fix: underflow guard and unbound dtype of the scalar
 sigmoid functions

---
 aviary/utils/math.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aviary/utils/math.py b/aviary/utils/math.py
index 57a17f2..4ebc90c 100644
--- a/aviary/utils/math.py
+++ b/aviary/utils/math.py
@@ -46,7 +46,7 @@ def sigmoidX(x, x0, mu=1.0):
         else:
             dtype = complex
         y = 0
-        if (x - x0) * mu > -320:
+        if (x - x0) / mu > -320:
             y = 1 / (1 + np.exp(-(x - x0) / mu))
     if dtype == float:
         y = y.real
@@ -89,8 +89,12 @@ def dSigmoidXdx(x, x0, mu=1.0):
         term2[calc_idx] = (1 + term[calc_idx]) * (1 + term[calc_idx])
         y[calc_idx] = term[calc_idx] / mu / term2[calc_idx]
     else:
+        if isinstance(x, float):
+            dtype = float
+        else:
+            dtype = complex
         y = 0
-        if (x - x0) * mu > -320:
+        if (x - x0) / mu > -320:
             term = np.exp(-(x - x0) / mu)
             term2 = (1 + term) * (1 + term)
             y = term / mu / term2
-- 
2.43.0


From 061a91c1ece1a87468fc5343d3259a4aa85e5bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:48 +0000
Subject: [PATCH 19/69] fix: partial of the speed of sound gradient in the
 atmosphere model

---
 aviary/subsystems/atmosphere/atmosphere.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aviary/subsystems/atmosphere/atmosphere.py b/aviary/subsystems/atmosphere/atmosphere.py
index 06c3bef..44ee3e6 100644
--- a/aviary/subsystems/atmosphere/atmosphere.py
+++ b/aviary/subsystems/atmosphere/atmosphere.py
@@ -309,11 +309,13 @@ class AtmosphereComp(om.ExplicitComponent):
 
         # similar to method in dymos
         coeffs = self.source_data.akima_dT[idx]
+        # compute uses this interpolant for dT_dh in dsos_dh
+        interp_dT_dh = coeffs[:, 0] + dx * (coeffs[:, 1] + dx * (coeffs[:, 2] + dx * coeffs[:, 3]))
         d2T_dh2 = coeffs[:, 1] + dx * (2.0 * coeffs[:, 2] + 3.0 * coeffs[:, 3] * dx)
         # dsos_dh = 0.5 * (self._K * T)**(-0.5) * dT_dh * self._K
         # product rule & chain rule
         partials['dsos_dh', Dynamic.Mission.ALTITUDE] = (
-            -(0.5 * 0.5 * (self._K * T) ** (-1.5) * (self._K * dT_dh)) * (dT_dh * self._K)
+            -(0.5 * 0.5 * (self._K * T) ** (-1.5) * (self._K * dT_dh)) * (interp_dT_dh * self._K)
             + 0.5 * (self._K * T) ** (-0.5) * d2T_dh2 * self._K
         )
 
@@ -333,4 +335,4 @@ class AtmosphereComp(om.ExplicitComponent):
             partials[Dynamic.Atmosphere.DENSITY, Dynamic.Mission.ALTITUDE][...] *= dz_dh
             partials[Dynamic.Atmosphere.DYNAMIC_VISCOSITY, Dynamic.Mission.ALTITUDE][...] *= dz_dh
             partials[Dynamic.Atmosphere.SPEED_OF_SOUND, Dynamic.Mission.ALTITUDE][...] *= dz_dh
-            partials['dsos_dh', Dynamic.Mission.ALTITUDE] *= dz_dh**2
+            partials['dsos_dh', Dynamic.Mission.ALTITUDE] *= dz_dh
-- 
2.43.0


From 37c4e3be0286f53947f295d5022f26224e477714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:03 +0000
Subject: [PATCH 20/69] fix: load speed derivatives of utility category
 aircraft

---
 aviary/subsystems/mass/gasp_based/design_load.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/design_load.py b/aviary/subsystems/mass/gasp_based/design_load.py
index c3291d7..300ec80 100644
--- a/aviary/subsystems/mass/gasp_based/design_load.py
+++ b/aviary/subsystems/mass/gasp_based/design_load.py
@@ -203,11 +203,6 @@ class LoadSpeeds(om.ExplicitComponent):
                     dVCMIN_dmax_struct_speed_mph = dVCMAX_dmax_struct_speed_mph
                     dVCMIN_dwing_loading = 0.0
 
-            # why this block?
-            if CATD == 1:
-                dVCMIN_dwing_loading = 0.0
-                dVCMIN_dmax_struct_speed_mph = 0.9 / 1.15
-
             VDCOF = 1.4
             dVDCOF_dwing_loading = 0.0
 
-- 
2.43.0


From 584421232a44ba890343e91fb8ba28f24f041567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:24 +0000
Subject: [PATCH 21/69] fix: load factor derivatives with smoothed mass
 discontinuities

---
 .../subsystems/mass/gasp_based/design_load.py | 73 +++++++++++++++----
 1 file changed, 57 insertions(+), 16 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/design_load.py b/aviary/subsystems/mass/gasp_based/design_load.py
index 300ec80..66674ec 100644
--- a/aviary/subsystems/mass/gasp_based/design_load.py
+++ b/aviary/subsystems/mass/gasp_based/design_load.py
@@ -820,9 +820,9 @@ class LoadFactors(om.ExplicitComponent):
         ) / (498.0 * wing_loading)
         ddive_load_factor_dCl_alpha = (
             dk_load_factor_dCl_alpha * 25 * min_dive_vel * Cl_alpha
-            + k_load_factor * 50 * min_dive_vel
+            + k_load_factor * 25 * min_dive_vel
         ) / (498.0 * wing_loading)
-        (k_load_factor * 25 * Cl_alpha) / (498.0 * wing_loading)
+        ddive_load_factor_dmin_dive_vel = (k_load_factor * 25 * Cl_alpha) / (498.0 * wing_loading)
         ddive_load_factor_dV9 = 0.0
 
         dgust_load_factor_dwing_loading = dquotient(
@@ -847,13 +847,12 @@ class LoadFactors(om.ExplicitComponent):
         if smooth:
             SigG = sigmoidX(cruise_load_factor / dive_load_factor, 1, -0.01)
             SigH = sigmoidX(cruise_load_factor / dive_load_factor, 1, 0.01)
-            DSigG = dSigmoidXdx(cruise_load_factor / dive_load_factor, 1, -0.01)
             DSigH = dSigmoidXdx(cruise_load_factor / dive_load_factor, 1, 0.01)
             gust_load_factor_1 = dive_load_factor * SigG + cruise_load_factor * SigH
             dgust_load_factor_dwing_loading = (
                 ddive_load_factor_dwing_loading * SigG
                 + dive_load_factor
-                * DSigG
+                * DSigH
                 * dquotient(
                     (dive_load_factor - cruise_load_factor),
                     dive_load_factor,
@@ -862,7 +861,7 @@ class LoadFactors(om.ExplicitComponent):
                 )
                 + dcruise_load_factor_dwing_loading * SigH
                 + cruise_load_factor
-                * DSigG
+                * DSigH
                 * dquotient(
                     (cruise_load_factor - dive_load_factor),
                     dive_load_factor,
@@ -873,7 +872,7 @@ class LoadFactors(om.ExplicitComponent):
             dgust_load_factor_ddensity_ratio = (
                 ddive_load_factor_ddensity_ratio * SigG
                 + dive_load_factor
-                * DSigG
+                * DSigH
                 * dquotient(
                     (dive_load_factor - cruise_load_factor),
                     dive_load_factor,
@@ -949,6 +948,13 @@ class LoadFactors(om.ExplicitComponent):
                     ddive_load_factor_dV9,
                 )
             )
+            dgust_load_factor_dmin_dive_vel = ddive_load_factor_dmin_dive_vel * (
+                SigG
+                + (cruise_load_factor - dive_load_factor)
+                * DSigH
+                * (-cruise_load_factor / dive_load_factor**2)
+            )
+
             gust_load_factor = gust_load_factor_1
         else:
             if cruise_load_factor > dive_load_factor:  # note: this creates a discontinuity
@@ -1082,7 +1088,25 @@ class LoadFactors(om.ExplicitComponent):
                     dgust_load_factor_dV9,
                 )
             )
-            dULF_dmin_dive_vel = 0.0
+            dULF_dmin_dive_vel = 1.5 * (
+                dgust_load_factor_dmin_dive_vel * SigK
+                + gust_load_factor
+                * DSigL
+                * dquotient(
+                    (gust_load_factor - max_maneuver_factor),
+                    gust_load_factor,
+                    dgust_load_factor_dmin_dive_vel,
+                    dgust_load_factor_dmin_dive_vel,
+                )
+                + max_maneuver_factor
+                * DSigL
+                * dquotient(
+                    (max_maneuver_factor - gust_load_factor),
+                    gust_load_factor,
+                    -dgust_load_factor_dmin_dive_vel,
+                    dgust_load_factor_dmin_dive_vel,
+                )
+            )
         else:
             if gust_load_factor > max_maneuver_factor:  # note: this creates a discontinuity
                 dULF_dmax_maneuver_factor = 0.0
@@ -1804,7 +1828,7 @@ class BWBLoadFactors(om.ExplicitComponent):
             ) / (498.0 * wing_loading)
             ddive_load_factor_dCl_alpha = (
                 dk_load_factor_dCl_alpha * 25 * min_dive_vel * Cl_alpha
-                + k_load_factor * 50 * min_dive_vel
+                + k_load_factor * 25 * min_dive_vel
             ) / (498.0 * wing_loading)
             ddive_load_factor_dmin_dive_vel = (k_load_factor * 25 * Cl_alpha) / (
                 498.0 * wing_loading
@@ -1815,13 +1839,12 @@ class BWBLoadFactors(om.ExplicitComponent):
             if smooth:
                 SigG = sigmoidX(cruise_load_factor / dive_load_factor, 1, -0.01)
                 SigH = sigmoidX(cruise_load_factor / dive_load_factor, 1, 0.01)
-                DSigG = dSigmoidXdx(cruise_load_factor / dive_load_factor, 1, -0.01)
                 DSigH = dSigmoidXdx(cruise_load_factor / dive_load_factor, 1, 0.01)
                 gust_load_factor = dive_load_factor * SigG + cruise_load_factor * SigH
                 dgust_load_factor_dgross_mass = (
                     ddive_load_factor_dgross_mass * SigG
                     + dive_load_factor
-                    * DSigG
+                    * DSigH
                     * dquotient(
                         (dive_load_factor - cruise_load_factor),
                         dive_load_factor,
@@ -1830,7 +1853,7 @@ class BWBLoadFactors(om.ExplicitComponent):
                     )
                     + dcruise_load_factor_dgross_mass * SigH
                     + cruise_load_factor
-                    * DSigG
+                    * DSigH
                     * dquotient(
                         (cruise_load_factor - dive_load_factor),
                         dive_load_factor,
@@ -1841,7 +1864,7 @@ class BWBLoadFactors(om.ExplicitComponent):
                 dgust_load_factor_dexp_wing_areas = (
                     ddive_load_factor_dexp_wing_areas * SigG
                     + dive_load_factor
-                    * DSigG
+                    * DSigH
                     * dquotient(
                         (dive_load_factor - cruise_load_factor),
                         dive_load_factor,
@@ -1850,7 +1873,7 @@ class BWBLoadFactors(om.ExplicitComponent):
                     )
                     + dcruise_load_factor_dexp_wing_areas * SigH
                     + cruise_load_factor
-                    * DSigG
+                    * DSigH
                     * dquotient(
                         (cruise_load_factor - dive_load_factor),
                         dive_load_factor,
@@ -1861,7 +1884,7 @@ class BWBLoadFactors(om.ExplicitComponent):
                 dgust_load_factor_ddensity_ratio = (
                     ddive_load_factor_ddensity_ratio * SigG
                     + dive_load_factor
-                    * DSigG
+                    * DSigH
                     * dquotient(
                         (dive_load_factor - cruise_load_factor),
                         dive_load_factor,
@@ -1937,7 +1960,7 @@ class BWBLoadFactors(om.ExplicitComponent):
                         ddive_load_factor_dV9,
                     )
                 )
-                dgust_loading_dmin_dive_vel = (
+                dgust_load_factor_dmin_dive_vel = (
                     ddive_load_factor_dmin_dive_vel * SigG
                     + dive_load_factor
                     * DSigH
@@ -2136,7 +2159,25 @@ class BWBLoadFactors(om.ExplicitComponent):
                         dgust_load_factor_dV9,
                     )
                 )
-                dULF_dmin_dive_vel = 0.0
+                dULF_dmin_dive_vel = 1.5 * (
+                    dgust_load_factor_dmin_dive_vel * SigK
+                    + gust_load_factor
+                    * DSigL
+                    * dquotient(
+                        (gust_load_factor - max_maneuver_factor),
+                        gust_load_factor,
+                        dgust_load_factor_dmin_dive_vel,
+                        dgust_load_factor_dmin_dive_vel,
+                    )
+                    + max_maneuver_factor
+                    * DSigL
+                    * dquotient(
+                        (max_maneuver_factor - gust_load_factor),
+                        gust_load_factor,
+                        -dgust_load_factor_dmin_dive_vel,
+                        dgust_load_factor_dmin_dive_vel,
+                    )
+                )
             else:
                 if gust_load_factor > max_maneuver_factor:
                     # ULF = 1.5 * gust_load_factor
-- 
2.43.0


From 1d659564f7594bb4fa90dfc411e69f8a49b1e911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:24 +0000
Subject: [PATCH 22/69] fix: transport fuel system mass derivative for more
 than four engines

---
 aviary/subsystems/mass/flops_based/fuel_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/subsystems/mass/flops_based/fuel_system.py b/aviary/subsystems/mass/flops_based/fuel_system.py
index 5e37d5b..c583d9d 100644
--- a/aviary/subsystems/mass/flops_based/fuel_system.py
+++ b/aviary/subsystems/mass/flops_based/fuel_system.py
@@ -52,7 +52,7 @@ class TransportFuelSystemMass(om.ExplicitComponent):
             1.07
             * 0.58
             * capacity**-0.42
-            * num_eng**0.43
+            * num_eng_fact**0.43
             * max_mach**0.34
             * scaler
             / GRAV_ENGLISH_LBM
-- 
2.43.0


From aea93b9762c08cf8958cd37fac3ef58698242a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:24 +0000
Subject: [PATCH 23/69] fix: transport starter mass derivatives for multiple
 engine types

---
 aviary/subsystems/mass/flops_based/starter.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/aviary/subsystems/mass/flops_based/starter.py b/aviary/subsystems/mass/flops_based/starter.py
index 7def8a5..5df0833 100644
--- a/aviary/subsystems/mass/flops_based/starter.py
+++ b/aviary/subsystems/mass/flops_based/starter.py
@@ -5,7 +5,6 @@ from aviary.constants import GRAV_ENGLISH_LBM
 from aviary.subsystems.mass.flops_based.distributed_prop import (
     distributed_engine_count_factor,
     distributed_nacelle_diam_factor,
-    distributed_nacelle_diam_factor_deriv,
 )
 from aviary.variable_info.functions import add_aviary_input, add_aviary_option, add_aviary_output
 from aviary.variable_info.variables import Aircraft, Mission
@@ -66,25 +65,26 @@ class TransportStarterMass(om.ExplicitComponent):
         thrust_ratio = inputs[Aircraft.Engine.SCALE_FACTOR]
         adjusted_d_nacelle = d_nacelle * np.sqrt(thrust_ratio)
 
-        diam_deriv_fact = distributed_nacelle_diam_factor_deriv(num_engines)
+        # derivative of the diameter factor with respect to the diameter of each engine type
+        f_nacelle = distributed_nacelle_diam_factor(adjusted_d_nacelle, num_engines)
+        diam_deriv_fact = f_nacelle * num_engines / sum(adjusted_d_nacelle * num_engines)
         max_mach_exp = max_mach**0.32
-        d_avg = sum(adjusted_d_nacelle * num_engines) / total_engines
 
         J[Aircraft.Propulsion.TOTAL_STARTER_MASS, Aircraft.Nacelle.AVG_DIAMETER] = (
             11.0
             * 1.6
             * eng_count_factor
             * max_mach_exp
-            * diam_deriv_fact**1.6
+            * diam_deriv_fact
             * np.sqrt(thrust_ratio)
-            * d_avg**0.6
+            * f_nacelle**0.6
         ) / GRAV_ENGLISH_LBM
 
         J[Aircraft.Propulsion.TOTAL_STARTER_MASS, Aircraft.Engine.SCALE_FACTOR] = (
             17.6
             * eng_count_factor
             * max_mach_exp
-            * diam_deriv_fact**1.6
-            * d_avg**0.6
+            * diam_deriv_fact
+            * f_nacelle**0.6
             * (d_nacelle * 0.5 / np.sqrt(thrust_ratio))
         ) / GRAV_ENGLISH_LBM
-- 
2.43.0


From b50d1e21b6832c8cb84a2b0098db361539d324d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:53 +0000
Subject: [PATCH 24/69] fix: smoothed derivatives of the maximum wing fuel mass

---
 aviary/subsystems/mass/gasp_based/fuel.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/fuel.py b/aviary/subsystems/mass/gasp_based/fuel.py
index d44f155..a0313a8 100644
--- a/aviary/subsystems/mass/gasp_based/fuel.py
+++ b/aviary/subsystems/mass/gasp_based/fuel.py
@@ -668,7 +668,7 @@ class FuelComponents(om.ExplicitComponent):
 
         if smooth:
             dMaxWFWt_dGTOW = (
-                OEM_wingfuel_wt
+                -OEM_wingfuel_wt
                 * dSigmoidXdx(volume_wingfuel_wt - OEM_wingfuel_wt, 0, 1 / 95.0)
                 * dOEMwingfuelWt_dGTOW
                 + dOEMwingfuelWt_dGTOW * sigmoidX(volume_wingfuel_wt - OEM_wingfuel_wt, 0, 1 / 95.0)
@@ -677,7 +677,7 @@ class FuelComponents(om.ExplicitComponent):
                 * dOEMwingfuelWt_dGTOW
             )
             dMaxWFWt_dOEW = (
-                OEM_wingfuel_wt
+                -OEM_wingfuel_wt
                 * dSigmoidXdx(volume_wingfuel_wt - OEM_wingfuel_wt, 0, 1 / 95.0)
                 * dOEMwingfuelWt_dOEW
                 + dOEMwingfuelWt_dOEW * sigmoidX(volume_wingfuel_wt - OEM_wingfuel_wt, 0, 1 / 95.0)
@@ -689,7 +689,7 @@ class FuelComponents(om.ExplicitComponent):
                 OEM_wingfuel_wt
                 * dSigmoidXdx(volume_wingfuel_wt - OEM_wingfuel_wt, 0, 1 / 95.0)
                 * rho_fuel
-                + volume_wingfuel_wt
+                - volume_wingfuel_wt
                 * dSigmoidXdx(OEM_wingfuel_wt - volume_wingfuel_wt, 0, 1 / 95.0)
                 * rho_fuel
                 + rho_fuel * sigmoidX(OEM_wingfuel_wt - volume_wingfuel_wt, 0, 1 / 95.0)
@@ -698,7 +698,7 @@ class FuelComponents(om.ExplicitComponent):
                 OEM_wingfuel_wt
                 * dSigmoidXdx(volume_wingfuel_wt - OEM_wingfuel_wt, 0, 1 / 95.0)
                 * geometric_fuel_vol
-                + volume_wingfuel_wt
+                - volume_wingfuel_wt
                 * dSigmoidXdx(OEM_wingfuel_wt - volume_wingfuel_wt, 0, 1 / 95.0)
                 * geometric_fuel_vol
                 + geometric_fuel_vol * sigmoidX(OEM_wingfuel_wt - volume_wingfuel_wt, 0, 1 / 95.0)
-- 
2.43.0


From 70118ee1b232612741eabb1545f736146498e450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:58 +0000
Subject: [PATCH 25/69] fix: smoothed derivatives of the body tank calculations

---
 aviary/subsystems/mass/gasp_based/fuel.py | 31 ++++++++---------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/fuel.py b/aviary/subsystems/mass/gasp_based/fuel.py
index a0313a8..4591b57 100644
--- a/aviary/subsystems/mass/gasp_based/fuel.py
+++ b/aviary/subsystems/mass/gasp_based/fuel.py
@@ -266,14 +266,12 @@ class BodyTankCalculations(om.ExplicitComponent):
                 sigmoidX(req_fuel_wt - max_wingfuel_wt, 0, 1 / 50.0)
                 + (req_fuel_wt - max_wingfuel_wt)
                 * dSigmoidXdx(req_fuel_wt - max_wingfuel_wt, 0, 1 / 50.0)
-                * 1
-                / 50
             )
             dextra_fuel_wt_dmax_wingfuel_wt = -1 * sigmoidX(
                 (req_fuel_wt - max_wingfuel_wt), 0, 1 / 50.0
-            ) + (req_fuel_wt - max_wingfuel_wt) * dSigmoidXdx(
+            ) - (req_fuel_wt - max_wingfuel_wt) * dSigmoidXdx(
                 req_fuel_wt - max_wingfuel_wt, 0, 1 / 50.0
-            ) * (-1 / 50)
+            )
         else:
             if extra_fuel_wt < 0:
                 extra_fuel_wt = 0.0
@@ -288,7 +286,6 @@ class BodyTankCalculations(om.ExplicitComponent):
         dwingfuel_wt_min_dgeom_fuel_vol = -dmax_extra_fuel_wt_dgeom_fuel_vol
         dwingfuel_wt_min_drho_fuel = -dmax_extra_fuel_wt_drho_fuel
         if smooth:
-            wingfuel_wt_min = wingfuel_wt_min * sigmoidX(wingfuel_wt_min, 0)
             dwingfuel_wt_min_dfuel_wt_min = (
                 dwingfuel_wt_min_dfuel_wt_min * sigmoidX(wingfuel_wt_min, 0)
                 + wingfuel_wt_min * dSigmoidXdx(wingfuel_wt_min, 0) * dwingfuel_wt_min_dfuel_wt_min
@@ -345,37 +342,29 @@ class BodyTankCalculations(om.ExplicitComponent):
             Int2 = sigmoidX(est_GTOW - gross_wt_initial, 0, 1 / 110.0)
 
             # max_fuel_avail = max_fuel_avail_est * Int1 + max_fuel_avail_new * Int2
-            dInt1_dfuel_wt_des = dSigmoidXdx(gross_wt_initial - est_GTOW, 0, 1 / 110.0) * (
-                -1 / 110.0
-            )
+            dInt1_dfuel_wt_des = dSigmoidXdx(gross_wt_initial - est_GTOW, 0, 1 / 110.0) * -1
             dInt1_dreq_fuel_wt = (
                 dSigmoidXdx(gross_wt_initial - est_GTOW, 0, 1 / 110.0)
                 * -dextra_fuel_wt_dreq_fuel_wt
-                / 100.0
             )
             dInt1_dmax_wingfuel_wt = (
                 dSigmoidXdx(gross_wt_initial - est_GTOW, 0, 1 / 110.0)
-                * -dmax_extra_fuel_wt_dmax_wingfuel_vol
-                / 100.0
+                * -dextra_fuel_wt_dmax_wingfuel_wt
             )
-            dInt1_dgross_wt_initial = dSigmoidXdx(gross_wt_initial - est_GTOW, 0, 1 / 110.0) / 110.0
-            dInt1_dOEW = dSigmoidXdx(gross_wt_initial - est_GTOW, 0, 1 / 110.0) * (-1 / 110.0)
+            dInt1_dgross_wt_initial = dSigmoidXdx(gross_wt_initial - est_GTOW, 0, 1 / 110.0)
+            dInt1_dOEW = dSigmoidXdx(gross_wt_initial - est_GTOW, 0, 1 / 110.0) * -1
 
-            dInt2_dfuel_wt_des = dSigmoidXdx(est_GTOW - gross_wt_initial, 0, 1 / 110.0) / 110.0
+            dInt2_dfuel_wt_des = dSigmoidXdx(est_GTOW - gross_wt_initial, 0, 1 / 110.0)
             dInt2_dreq_fuel_wt = (
                 dSigmoidXdx(est_GTOW - gross_wt_initial, 0, 1 / 110.0)
                 * dextra_fuel_wt_dreq_fuel_wt
-                / 100.0
             )
             dInt2_dmax_wingfuel_wt = (
                 dSigmoidXdx(est_GTOW - gross_wt_initial, 0, 1 / 110.0)
-                * dmax_extra_fuel_wt_dmax_wingfuel_vol
-                / 100.0
-            )
-            dInt2_dgross_wt_initial = dSigmoidXdx(est_GTOW - gross_wt_initial, 0, 1 / 110.0) * (
-                -1 / 110.0
+                * dextra_fuel_wt_dmax_wingfuel_wt
             )
-            dInt2_dOEW = dSigmoidXdx(est_GTOW - gross_wt_initial, 0, 1 / 110.0) / 110.0
+            dInt2_dgross_wt_initial = dSigmoidXdx(est_GTOW - gross_wt_initial, 0, 1 / 110.0) * -1
+            dInt2_dOEW = dSigmoidXdx(est_GTOW - gross_wt_initial, 0, 1 / 110.0)
             dmax_fuel_avail_dfuel_wt_des = (
                 dmax_fuel_avail_est_dfuel_wt_des * Int1
                 + max_fuel_avail_est * dInt1_dfuel_wt_des
-- 
2.43.0


From c9e864f0bd195a7c46e8545d47945594f875c4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:16 +0000
Subject: [PATCH 26/69] fix: passenger service mass derivative between 10 and
 19 passengers

---
 .../subsystems/mass/gasp_based/passenger_service.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/passenger_service.py b/aviary/subsystems/mass/gasp_based/passenger_service.py
index 82d0a38..6ee6a89 100644
--- a/aviary/subsystems/mass/gasp_based/passenger_service.py
+++ b/aviary/subsystems/mass/gasp_based/passenger_service.py
@@ -70,12 +70,18 @@ class PassengerServiceMass(om.ExplicitComponent):
     def compute_partials(self, inputs, J):
         num_pax = self.options[Aircraft.CrewPayload.Design.NUM_PASSENGERS]
 
-        if num_pax > 19.0:
+        if num_pax > 9.0:
             J[
                 Aircraft.CrewPayload.PASSENGER_SERVICE_MASS,
                 Aircraft.CrewPayload.PASSENGER_SERVICE_MASS_PER_PASSENGER,
             ] = num_pax
+        else:
+            J[
+                Aircraft.CrewPayload.PASSENGER_SERVICE_MASS,
+                Aircraft.CrewPayload.PASSENGER_SERVICE_MASS_PER_PASSENGER,
+            ] = 0
 
+        if num_pax > 19.0:
             J[
                 Aircraft.CrewPayload.PASSENGER_SERVICE_MASS,
                 Aircraft.CrewPayload.WATER_MASS_PER_OCCUPANT,
@@ -87,11 +93,6 @@ class PassengerServiceMass(om.ExplicitComponent):
             ] = num_pax
 
         else:
-            J[
-                Aircraft.CrewPayload.PASSENGER_SERVICE_MASS,
-                Aircraft.CrewPayload.PASSENGER_SERVICE_MASS_PER_PASSENGER,
-            ] = 0
-
             J[
                 Aircraft.CrewPayload.PASSENGER_SERVICE_MASS,
                 Aircraft.CrewPayload.WATER_MASS_PER_OCCUPANT,
-- 
2.43.0


From 3d71190ee8e5eaacb4332149f3fb2a888fd79c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:57 +0000
Subject: [PATCH 27/69] fix: derivative of the BWB hydraulic diameter with
 respect to aisle width

---
 aviary/subsystems/geometry/gasp_based/fuselage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aviary/subsystems/geometry/gasp_based/fuselage.py b/aviary/subsystems/geometry/gasp_based/fuselage.py
index 89f3ffe..99eab6c 100644
--- a/aviary/subsystems/geometry/gasp_based/fuselage.py
+++ b/aviary/subsystems/geometry/gasp_based/fuselage.py
@@ -412,8 +412,8 @@ class BWBFuselageParameters1(om.ExplicitComponent):
             0.5 * body_width * cabin_width / hydraulic_diameter
         )
         J[Aircraft.Fuselage.HYDRAULIC_DIAMETER, Aircraft.Fuselage.AISLE_WIDTH] = (
-            cabin_width * num_aisle * nose_height_to_length / hydraulic_diameter / 12
-        )
+            0.5 * num_aisle / 12 * (cabin_width + body_width) * nose_height_to_length
+        ) / hydraulic_diameter
         J[Aircraft.Fuselage.HYDRAULIC_DIAMETER, Aircraft.Fuselage.SEAT_WIDTH_ECONOMY] = (
             0.5 * seats_abreast / 12 * (cabin_width + body_width) * nose_height_to_length
         ) / hydraulic_diameter
-- 
2.43.0


From 0adbd865744759d3fb2224a1af7717953a734c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:29 +0000
Subject: [PATCH 28/69] fix: cruise time must accumulate the time of each
 interval

The elapsed cruise time was the total distance divided by the average speed of the last
interval only, so it was wrong whenever the airspeed varied along the cruise.
---
 .../mission/two_dof/ode/breguet_cruise_eom.py | 79 +++++++++----------
 1 file changed, 39 insertions(+), 40 deletions(-)

diff --git a/aviary/mission/two_dof/ode/breguet_cruise_eom.py b/aviary/mission/two_dof/ode/breguet_cruise_eom.py
index 5c390ab..885772c 100644
--- a/aviary/mission/two_dof/ode/breguet_cruise_eom.py
+++ b/aviary/mission/two_dof/ode/breguet_cruise_eom.py
@@ -144,7 +144,7 @@ class RangeComp(om.ExplicitComponent):
         outputs['cruise_range'][0] = r0
         outputs['cruise_range'][1:] = r0 + np.cumsum(drange_cruise)
         outputs['cruise_time'][0] = t0
-        outputs['cruise_time'][1:] = t0 + np.cumsum(drange_cruise) / vx_m
+        outputs['cruise_time'][1:] = t0 + np.cumsum(drange_cruise / vx_m)
 
     def compute_partials(self, inputs, J):
         v_x = inputs['TAS_cruise']
@@ -219,30 +219,31 @@ class RangeComp(om.ExplicitComponent):
 
         # Partials of cruise_time
 
-        # Here we need to multiply rows [1:] of the jacobian by (6076.1 / vx_m)
-        # But the jacobian is in a flat format in row-major order. The rows associated
-        # with the nonzero elements are stored in self._tril_rs.
-
-        J['cruise_time', Dynamic.Vehicle.Propulsion.FUEL_MASS_FLOW_RATE_NEGATIVE_TOTAL][1:] = (
-            J['cruise_range', Dynamic.Vehicle.Propulsion.FUEL_MASS_FLOW_RATE_NEGATIVE_TOTAL][1:]
-            / vx_m[self._tril_rs[1:] - 1]
-        )
-        J['cruise_time', 'mass'][1:] = J['cruise_range', 'mass'][1:] / vx_m[self._tril_rs[1:] - 1]
-
+        # The time spent between two nodes is the distance between them divided by the average airspeed, and
+        # the elapsed time accumulates these.
         drange_cruise = bregA * star
 
-        f = np.cumsum(drange_cruise)[:, np.newaxis]
-        df_du = self._d_cumsum_dx @ self._scratch_nn_x_nn
+        np.fill_diagonal(self._scratch_nn_x_nn[1:, :-1], dRange_dFF1 / vx_m)
+        np.fill_diagonal(self._scratch_nn_x_nn[1:, 1:], dRange_dFF2 / vx_m)
+
+        J['cruise_time', Dynamic.Vehicle.Propulsion.FUEL_MASS_FLOW_RATE_NEGATIVE_TOTAL][...] = (
+            self._d_cumsum_dx @ self._scratch_nn_x_nn
+        )[self._tril_rs, self._tril_cs]
 
-        np.fill_diagonal(self._scratch_nn_x_nn[1:, :-1], 0.5)
-        np.fill_diagonal(self._scratch_nn_x_nn[1:, 1:], 0.5)
+        np.fill_diagonal(self._scratch_nn_x_nn[1:, :-1], dRange_dW1 * GRAV_ENGLISH_LBM / vx_m)
+        np.fill_diagonal(self._scratch_nn_x_nn[1:, 1:], dRange_dW2 * GRAV_ENGLISH_LBM / vx_m)
 
-        g = vx_m[:, np.newaxis]
-        dg_du = self._scratch_nn_x_nn
+        J['cruise_time', 'mass'][...] = (self._d_cumsum_dx @ self._scratch_nn_x_nn)[
+            self._tril_rs, self._tril_cs
+        ]
 
-        dt_dvx = ((df_du[1:, ...] * g) - (dg_du[1:, ...] * f)) / g**2
+        dTime_dvm = -drange_cruise / vx_m**2
+        np.fill_diagonal(self._scratch_nn_x_nn[1:, :-1], dRange_dVx1 / vx_m + 0.5 * dTime_dvm)
+        np.fill_diagonal(self._scratch_nn_x_nn[1:, 1:], dRange_dVx2 / vx_m + 0.5 * dTime_dvm)
 
-        J['cruise_time', 'TAS_cruise'][1:] = dt_dvx[self._tril_rs[1:] - 1, self._tril_cs[1:]]
+        J['cruise_time', 'TAS_cruise'][...] = (self._d_cumsum_dx @ self._scratch_nn_x_nn)[
+            self._tril_rs, self._tril_cs
+        ]
 
 
 class ElectricRangeComp(om.ExplicitComponent):
@@ -382,7 +383,7 @@ class ElectricRangeComp(om.ExplicitComponent):
         outputs['cruise_range'][0] = r0
         outputs['cruise_range'][1:] = r0 + np.cumsum(e_drange_cruise)
         outputs['cruise_time'][0] = t0
-        outputs['cruise_time'][1:] = t0 + np.cumsum(e_drange_cruise) / vx_m
+        outputs['cruise_time'][1:] = t0 + np.cumsum(e_drange_cruise / vx_m)
 
     def compute_partials(self, inputs, J):
         v_x = inputs['TAS_cruise']
@@ -446,28 +447,26 @@ class ElectricRangeComp(om.ExplicitComponent):
 
         # Partials of cruise_time
 
-        # Here we need to multiply rows [1:] of the jacobian by (6076.1 / vx_m)
-        # But the jacobian is in a flat format in row-major order. The rows associated
-        # with the nonzero elements are stored in self._tril_rs.
+        # The time spent between two nodes is the distance between them divided by the average airspeed, and
+        # the elapsed time accumulates these.
+        np.fill_diagonal(self._scratch_nn_x_nn[1:, :-1], dRange_dP1 / vx_m)
+        np.fill_diagonal(self._scratch_nn_x_nn[1:, 1:], dRange_dP2 / vx_m)
 
-        J['cruise_time', Dynamic.Vehicle.Propulsion.ELECTRIC_POWER_IN_TOTAL][1:] = (
-            J['cruise_range', Dynamic.Vehicle.Propulsion.ELECTRIC_POWER_IN_TOTAL][1:]
-            / vx_m[self._tril_rs[1:] - 1]
-        )
-        J['cruise_time', Dynamic.Vehicle.CUMULATIVE_ELECTRIC_ENERGY_USED][1:] = (
-            J['cruise_range', Dynamic.Vehicle.CUMULATIVE_ELECTRIC_ENERGY_USED][1:]
-            / vx_m[self._tril_rs[1:] - 1]
-        )
-
-        f = np.cumsum(e_drange_cruise)[:, np.newaxis]
-        df_du = self._d_cumsum_dx @ self._scratch_nn_x_nn
+        J['cruise_time', Dynamic.Vehicle.Propulsion.ELECTRIC_POWER_IN_TOTAL][...] = (
+            self._d_cumsum_dx @ self._scratch_nn_x_nn
+        )[self._tril_rs, self._tril_cs]
 
-        np.fill_diagonal(self._scratch_nn_x_nn[1:, :-1], 0.5)
-        np.fill_diagonal(self._scratch_nn_x_nn[1:, 1:], 0.5)
+        np.fill_diagonal(self._scratch_nn_x_nn[1:, :-1], dRange_dE1 / vx_m)
+        np.fill_diagonal(self._scratch_nn_x_nn[1:, 1:], dRange_dE2 / vx_m)
 
-        g = vx_m[:, np.newaxis]
-        dg_du = self._scratch_nn_x_nn
+        J['cruise_time', Dynamic.Vehicle.CUMULATIVE_ELECTRIC_ENERGY_USED][...] = (
+            self._d_cumsum_dx @ self._scratch_nn_x_nn
+        )[self._tril_rs, self._tril_cs]
 
-        dt_dvx = ((df_du[1:, ...] * g) - (dg_du[1:, ...] * f)) / g**2
+        dTime_dvm = -e_drange_cruise / vx_m**2
+        np.fill_diagonal(self._scratch_nn_x_nn[1:, :-1], dRange_dVx1 / vx_m + 0.5 * dTime_dvm)
+        np.fill_diagonal(self._scratch_nn_x_nn[1:, 1:], dRange_dVx2 / vx_m + 0.5 * dTime_dvm)
 
-        J['cruise_time', 'TAS_cruise'][1:] = dt_dvx[self._tril_rs[1:] - 1, self._tril_cs[1:]]
+        J['cruise_time', 'TAS_cruise'][...] = (self._d_cumsum_dx @ self._scratch_nn_x_nn)[
+            self._tril_rs, self._tril_cs
+        ]
-- 
2.43.0


From 0a720b4e871ee142a51e7e20d1f04170c05673a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:03 +0000
Subject: [PATCH 29/69] fix: nacelle characteristic length when an engine type
 has no engines or no nacelle

---
 .../flops_based/characteristic_lengths.py       | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/aviary/subsystems/geometry/flops_based/characteristic_lengths.py b/aviary/subsystems/geometry/flops_based/characteristic_lengths.py
index 4b72422..882982f 100644
--- a/aviary/subsystems/geometry/flops_based/characteristic_lengths.py
+++ b/aviary/subsystems/geometry/flops_based/characteristic_lengths.py
@@ -377,7 +377,7 @@ class NacelleCharacteristicLength(om.ExplicitComponent):
         char_len[num_idx] = adjusted_avg_length[num_idx]
         fineness[num_idx] = 1.0
 
-        calc_idx = np.intersect1d(np.where(adjusted_avg_diam[num_idx] > 0), num_idx)
+        calc_idx = np.where((num_eng >= 1) & (adjusted_avg_diam > 0))
 
         fineness[calc_idx] = adjusted_avg_length[calc_idx] / adjusted_avg_diam[calc_idx]
 
@@ -401,14 +401,17 @@ class NacelleCharacteristicLength(om.ExplicitComponent):
         deriv_fine_len = np.zeros(len(num_eng), dtype=avg_diam.dtype)
         deriv_fine_diam = np.zeros(len(num_eng), dtype=avg_diam.dtype)
 
-        calc_idx = np.where(num_eng >= 1)
-        deriv_char_len[calc_idx] = 1.0 * np.sqrt(thrust_ratio)
-        deriv_char_thrust[calc_idx] = 0.5 * avg_length / np.sqrt(thrust_ratio) / ref_sls_thrust
-        deriv_char_sls[calc_idx] = (
+        num_idx = np.where(num_eng >= 1)
+        deriv_char_len[num_idx] = np.sqrt(thrust_ratio)[num_idx]
+        deriv_char_thrust[num_idx] = (0.5 * avg_length / np.sqrt(thrust_ratio) / ref_sls_thrust)[
+            num_idx
+        ]
+        deriv_char_sls[num_idx] = (
             -0.5 * avg_length / np.sqrt(thrust_ratio) * thrust / ref_sls_thrust**2
-        )
+        )[num_idx]
 
-        deriv_fine_len[calc_idx] = 1.0 / adjusted_avg_diam[calc_idx] * np.sqrt(thrust_ratio)
+        calc_idx = np.where((num_eng >= 1) & (adjusted_avg_diam > 0))
+        deriv_fine_len[calc_idx] = 1.0 / adjusted_avg_diam[calc_idx] * np.sqrt(thrust_ratio)[calc_idx]
         deriv_fine_diam[calc_idx] = -avg_length[calc_idx] / avg_diam[calc_idx] ** 2.0
 
         J[Aircraft.Nacelle.CHARACTERISTIC_LENGTH, Aircraft.Nacelle.AVG_LENGTH] = deriv_char_len
-- 
2.43.0


From 94e1d4166171325059973e24b149628625c0bb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 30/69] fix: acceleration at constant equivalent airspeed used
 wrong powers of the density ratio

---
 .../ode/unsteady_solved_flight_conditions.py  | 22 +++++++++----------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/aviary/mission/solved_two_dof/ode/unsteady_solved_flight_conditions.py b/aviary/mission/solved_two_dof/ode/unsteady_solved_flight_conditions.py
index 910188c..09e8d5d 100644
--- a/aviary/mission/solved_two_dof/ode/unsteady_solved_flight_conditions.py
+++ b/aviary/mission/solved_two_dof/ode/unsteady_solved_flight_conditions.py
@@ -333,8 +333,8 @@ class UnsteadySolvedFlightConditions(om.ExplicitComponent):
             drho_dt_approx = drho_dh * tas * sgam
             deas_dt_approx = deas_dr * tas * cgam
             outputs['dTAS_dt_approx'] = (
-                deas_dt_approx * (rho_sl / rho) ** 1.5
-                - 0.5 * eas * drho_dt_approx * rho_sl**1.5 / rho_sl**2.5
+                deas_dt_approx * (rho_sl / rho) ** 0.5
+                - 0.5 * eas * drho_dt_approx * rho_sl**0.5 / rho**1.5
             )
 
         else:
@@ -397,23 +397,21 @@ class UnsteadySolvedFlightConditions(om.ExplicitComponent):
             partials[Dynamic.Atmosphere.MACH, Dynamic.Atmosphere.SPEED_OF_SOUND] = -TAS / sos**2
             partials[Dynamic.Mission.VELOCITY, Dynamic.Atmosphere.DENSITY] = dTAS_dRho
             partials[Dynamic.Mission.VELOCITY, 'EAS'] = dTAS_dEAS
-            partials['dTAS_dt_approx', 'dEAS_dr'] = TAS * cgam * (rho_sl / rho) ** 1.5
-            partials['dTAS_dt_approx', 'drho_dh'] = (
-                -0.5 * EAS * TAS * sgam * rho_sl**1.5 / rho_sl**2.5
-            )
+            partials['dTAS_dt_approx', 'dEAS_dr'] = TAS * cgam * dTAS_dEAS
+            partials['dTAS_dt_approx', 'drho_dh'] = TAS * sgam * dTAS_dRho
             partials['dTAS_dt_approx', 'EAS'] = (
-                inputs['dEAS_dr'] * dTAS_dEAS * cgam * (rho_sl / rho) ** 1.5
-                - inputs['drho_dh'] * TAS * sgam * rho_sl**1.5 / rho_sl**2.5
+                inputs['dEAS_dr'] * dTAS_dEAS * cgam * dTAS_dEAS
+                - inputs['drho_dh'] * EAS * sgam * rho_sl / rho**2
             )
             partials['dTAS_dt_approx', Dynamic.Atmosphere.DENSITY] = (
-                -2.0 * inputs['dEAS_dr'] * TAS * cgam * (rho_sl / rho) ** 1.5 / rho
-                - 0.5 * EAS * inputs['drho_dh'] * dTAS_dRho * sgam * rho_sl**1.5 / rho_sl**2.5
+                -inputs['dEAS_dr'] * TAS * cgam * dTAS_dEAS / rho
+                + EAS**2 * inputs['drho_dh'] * sgam * rho_sl / rho**3
             )
 
             if not ground_roll:
                 partials['dTAS_dt_approx', Dynamic.Mission.FLIGHT_PATH_ANGLE] = (
-                    -TAS * sgam * (rho_sl / rho) ** 1.5 * inputs['dEAS_dr']
-                    - 0.5 * EAS * TAS * cgam * rho_sl**1.5 / rho_sl**2.5 * inputs['drho_dh']
+                    -TAS * sgam * dTAS_dEAS * inputs['dEAS_dr']
+                    + TAS * cgam * dTAS_dRho * inputs['drho_dh']
                 )
 
         else:
-- 
2.43.0


From e0678037a1e1c5f11ee71f2f73c9d6d2f761a66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:30 +0000
Subject: [PATCH 31/69] fix: Atmosphere group dropped its temperature offset

---
 aviary/subsystems/atmosphere/atmosphere.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aviary/subsystems/atmosphere/atmosphere.py b/aviary/subsystems/atmosphere/atmosphere.py
index 44ee3e6..3d33193 100644
--- a/aviary/subsystems/atmosphere/atmosphere.py
+++ b/aviary/subsystems/atmosphere/atmosphere.py
@@ -47,7 +47,11 @@ class Atmosphere(om.Group):
 
         self.add_subsystem(
             name='standard_atmosphere',
-            subsys=AtmosphereComp(num_nodes=nn, h_def=h_def),
+            subsys=AtmosphereComp(
+                num_nodes=nn,
+                h_def=h_def,
+                delta_T_Celcius=self.options['delta_T_Celcius'],
+            ),
             promotes_inputs=[Dynamic.Mission.ALTITUDE],
             promotes_outputs=['*'],
         )
-- 
2.43.0


From dd84eb825017e6785099eec1406a5ea27379ab7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 32/69] fix: NamedValues.copy returns an independent collection

copy.copy of a __slots__ class shares _mapping, so values set on the copy changed the original.
---
 aviary/utils/named_values.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/named_values.py b/aviary/utils/named_values.py
index 0a38a78..96f92b4 100644
--- a/aviary/utils/named_values.py
+++ b/aviary/utils/named_values.py
@@ -95,7 +95,11 @@ class NamedValues(Collection):
         -------
         NamedValues()
         """
-        return copy.copy(self)
+        new = copy.copy(self)
+        # the mapping itself must not be shared with the original
+        new._mapping = self._mapping.copy()
+
+        return new
 
     def deepcopy(self):
         """
-- 
2.43.0


From 83131a3422a144671a53e85d0b2aa2b9128bb9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 33/69] fix: an AviaryValues can be initialized or updated from
 a NamedValues

The type test used the class of self, so a NamedValues given to an AviaryValues fell through to the dict branch and raised TypeError.
---
 aviary/utils/named_values.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/utils/named_values.py b/aviary/utils/named_values.py
index 96f92b4..0cb1efe 100644
--- a/aviary/utils/named_values.py
+++ b/aviary/utils/named_values.py
@@ -232,7 +232,7 @@ class NamedValues(Collection):
 
         set_val = self.set_val
 
-        if isinstance(other, type(self)):
+        if isinstance(other, NamedValues):
             # NamedValues
             other = other._mapping
 
-- 
2.43.0


From 4be161a5db18755c1d51d23c430d913eca3541d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 34/69] fix: unit conversion of integer arrays no longer
 truncates the converted values

---
 aviary/utils/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aviary/utils/utils.py b/aviary/utils/utils.py
index 1ad6e80..dfa5cc7 100644
--- a/aviary/utils/utils.py
+++ b/aviary/utils/utils.py
@@ -58,6 +58,10 @@ def wrapped_convert_units(val_unit_tuple, new_units):
         else:
             istuple = False
 
+        # integer arrays can't hold converted values without truncating them
+        if isinstance(value, np.ndarray) and value.dtype.kind in 'iu':
+            value = value.astype(float)
+
         for i, item in enumerate(value):
             # Any entry may be none.
             if value[i] is not None:
-- 
2.43.0


From 6eca2c699d29f34f927bc5111178f0639ae1010e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 35/69] fix: unit conversion handles nested lists and tuples

---
 aviary/utils/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/utils.py b/aviary/utils/utils.py
index dfa5cc7..5ea0128 100644
--- a/aviary/utils/utils.py
+++ b/aviary/utils/utils.py
@@ -64,7 +64,9 @@ def wrapped_convert_units(val_unit_tuple, new_units):
 
         for i, item in enumerate(value):
             # Any entry may be none.
-            if value[i] is not None:
+            if isinstance(item, (list, tuple)):
+                value[i] = wrapped_convert_units((item, units), new_units)
+            elif value[i] is not None:
                 value[i] = convert_units(item, units, new_units)
 
         if istuple:
-- 
2.43.0


From ed252a652c2d862b414264a3c41755b17b6276de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 36/69] fix: enum_setter rejects iterables with an invalid
 entry

The entries before the first invalid one were returned and the rest silently dropped.
---
 aviary/utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/utils/utils.py b/aviary/utils/utils.py
index 5ea0128..f81adcd 100644
--- a/aviary/utils/utils.py
+++ b/aviary/utils/utils.py
@@ -142,7 +142,7 @@ def enum_setter(opt_meta, value):
             else:
                 values = type(value)(values)
 
-        return values
+            return values
 
     msg = f"Value '{value}' not valid for option with types {enum_class}"
     raise TypeError(msg)
-- 
2.43.0


From af169daf4bee8d19dd9d6f4c9d840300ee00c236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 37/69] fix: entries of iterables are not cast to bool

Scalars are deliberately not cast to bool, but lists were, so ['False'] was stored as [True].
---
 aviary/utils/utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/aviary/utils/utils.py b/aviary/utils/utils.py
index f81adcd..902c56d 100644
--- a/aviary/utils/utils.py
+++ b/aviary/utils/utils.py
@@ -245,13 +245,18 @@ def cast_type(key, val, meta_data=CoreMetaData):
         else:
             for _type in expected_types:
                 try:
-                    if isiterable(cast_val):
+                    # Don't cast things to bool, most types will convert (numpy bools are the exception)
+                    if _type is bool and not (
+                        isiterable(cast_val)
+                        and all(isinstance(item, (bool, np.bool_)) for item in cast_val)
+                    ):
+                        pass
+                    elif isiterable(cast_val):
                         if isinstance(cast_val, np.ndarray):
                             cast_val = np.array([_type(item) for item in cast_val])
                         else:
                             cast_val = type(cast_val)([_type(item) for item in cast_val])
-                    # Don't cast things to bool, most types will convert
-                    elif _type is not bool:
+                    else:
                         if _type is np.ndarray:
                             cast_val = np.array([cast_val])
                         else:
-- 
2.43.0


From 51259f19ad5f9df99084971acead7a59bd57334a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 38/69] fix: the units of Aircraft.Battery.VOLUME are a volume

---
 aviary/variable_info/variable_meta_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/variable_info/variable_meta_data.py b/aviary/variable_info/variable_meta_data.py
index a170848..b38223d 100644
--- a/aviary/variable_info/variable_meta_data.py
+++ b/aviary/variable_info/variable_meta_data.py
@@ -303,7 +303,7 @@ add_meta_data(
     Aircraft.Battery.VOLUME,
     meta_data=_MetaData,
     historical_name={'GASP': None, 'FLOPS': None},
-    units='ft*3',
+    units='ft**3',
     desc='total volume of the battery pack',
     default_value=0.0,
 )
-- 
2.43.0


From 41589822d2f1b844166dcac0a202ed766e0302a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 39/69] fix: BatteryPreMission outputs the battery volume in
 the units it is computed in

The sum of the cell volumes (inch**3) was declared in the default units of the output.
---
 .../detailed_battery/model/battery_premission.py             | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aviary/models/external_subsystems/detailed_battery/model/battery_premission.py b/aviary/models/external_subsystems/detailed_battery/model/battery_premission.py
index 6d40ffc..f12d34d 100644
--- a/aviary/models/external_subsystems/detailed_battery/model/battery_premission.py
+++ b/aviary/models/external_subsystems/detailed_battery/model/battery_premission.py
@@ -38,7 +38,10 @@ class BatteryPreMission(om.ExplicitComponent):
         add_aviary_output(self, Aircraft.Battery.MASS, meta_data=ExtendedMetaData)
         add_aviary_output(self, Aircraft.Battery.HEAT_CAPACITY, meta_data=ExtendedMetaData)
         # unconnected output used for test checking
-        add_aviary_output(self, Aircraft.Battery.VOLUME, meta_data=ExtendedMetaData)
+        # computed from the cell volume, in the units of the cell volume
+        add_aviary_output(
+            self, Aircraft.Battery.VOLUME, units='inch**3', meta_data=ExtendedMetaData
+        )
 
         self.declare_partials(
             Aircraft.Battery.N_SERIES, [Aircraft.Battery.VOLTAGE, Aircraft.Battery.Cell.VOLTAGE_LOW]
-- 
2.43.0


From a5ef3ca6626087e78a0fcdda95e343626de662ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:57 +0000
Subject: [PATCH 40/69] fix: a single engine without mount location is counted
 as fuselage engine

With no wing engines of that type, the engine was neither counted as wing nor as fuselage engine, so the mounted engines did not add up to the number of engines.
---
 aviary/utils/preprocessors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/utils/preprocessors.py b/aviary/utils/preprocessors.py
index ef2be90..0eab0c2 100644
--- a/aviary/utils/preprocessors.py
+++ b/aviary/utils/preprocessors.py
@@ -937,7 +937,7 @@ def preprocess_propulsion(
                         'Mount location was not defined for all engines of EngineModel '
                         f'<{eng_name}> - unspecified engines are assumed wing-mounted.'
                     )
-            elif num_unspecified_engines == 1 and num_wing_engines != 0:
+            else:
                 num_fuse_engines_all[i] = num_fuse_engines + num_unspecified_engines
                 if verbosity >= Verbosity.VERBOSE:  # VERBOSE, DEBUG
                     warnings.warn(
-- 
2.43.0


From 9e1ec73725fb462cd38448344124798a1221ce8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:57 +0000
Subject: [PATCH 41/69] fix: default of a multidimensional engine variable
 extends the flat vector

An engine type without wing locations next to one with wing locations put a list into the flat vector, which could not be converted to an array.
---
 aviary/utils/preprocessors.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/preprocessors.py b/aviary/utils/preprocessors.py
index 0eab0c2..f043f50 100644
--- a/aviary/utils/preprocessors.py
+++ b/aviary/utils/preprocessors.py
@@ -833,7 +833,10 @@ def preprocess_propulsion(
                         aviary_val = aviary_options.get_val(var, units)
                     # if the variable is not in aviary_options, use default from metadata
                     except (KeyError, IndexError):
-                        vec.append(default_value)
+                        if multidimensional and isiterable(default_value):
+                            vec.extend(default_value)
+                        else:
+                            vec.append(default_value)
                     else:
                         # save value from aviary_options
                         if isiterable(aviary_val) and len(aviary_val) > 1:
-- 
2.43.0


From 7d911d749567d97db6a224a2abaf8383c552464a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:52 +0000
Subject: [PATCH 42/69] fix: Aircraft.Engine.ADDITIONAL_MASS_FRACTION holds one
 number per engine type

Listing arrays among its element types made preprocess_propulsion repeat the whole vehicle-level list for every engine type.
---
 aviary/variable_info/variable_meta_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/variable_info/variable_meta_data.py b/aviary/variable_info/variable_meta_data.py
index b38223d..b2d7c3c 100644
--- a/aviary/variable_info/variable_meta_data.py
+++ b/aviary/variable_info/variable_meta_data.py
@@ -1967,7 +1967,7 @@ add_meta_data(
     option=True,
     desc='fraction of (scaled) engine mass used to calculate additional engine mass (see '
     'Aircraft.Engine.ADDITIONAL_MASS)',
-    types=(float, int, np.ndarray),
+    types=(float, int),
     multivalue=True,
     default_value=0.0,
 )
-- 
2.43.0


From 26c17b26fdcf5e496d1c2d6ac93f356b148cfe6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:35 +0000
Subject: [PATCH 43/69] fix: dSigmoidXdx with an array of transition points and
 points beyond the cut-off

---
 aviary/utils/math.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/math.py b/aviary/utils/math.py
index 4ebc90c..537685e 100644
--- a/aviary/utils/math.py
+++ b/aviary/utils/math.py
@@ -85,7 +85,10 @@ def dSigmoidXdx(x, x0, mu=1.0):
         term2 = np.zeros(n_size, dtype=dtype)
         # avoid overflow in squared term, underflow seems to be ok
         calc_idx = np.where((x.real - x0) / mu > -320)
-        term[calc_idx] = np.exp(-(x[calc_idx] - x0) / mu)
+        if isinstance(x0, np.ndarray) and len(x0) == n_size:
+            term[calc_idx] = np.exp(-(x[calc_idx] - x0[calc_idx]) / mu)
+        else:
+            term[calc_idx] = np.exp(-(x[calc_idx] - x0) / mu)
         term2[calc_idx] = (1 + term[calc_idx]) * (1 + term[calc_idx])
         y[calc_idx] = term[calc_idx] / mu / term2[calc_idx]
     else:
-- 
2.43.0


From 8116fbf65e0a7b917fff6ed5f94e69ada4791622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:35 +0000
Subject: [PATCH 44/69] fix: smooth_min and d_smooth_min overflow far from the
 transition

---
 aviary/utils/math.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/aviary/utils/math.py b/aviary/utils/math.py
index 537685e..aa2dee6 100644
--- a/aviary/utils/math.py
+++ b/aviary/utils/math.py
@@ -118,7 +118,10 @@ def smooth_min(x, b, mu=100.0):
     Returns:
     float or array-like: The smooth approximation of min(x, b).
     """
-    sum_log_exp = np.log(np.exp(np.multiply(-mu, x)) + np.exp(np.multiply(-mu, b)))
+    mu_x = np.multiply(-mu, x)
+    mu_b = np.multiply(-mu, b)
+    m = np.maximum(mu_x, mu_b)
+    sum_log_exp = m + np.log(np.exp(mu_x - m) + np.exp(mu_b - m))
     rv = -(1 / mu) * sum_log_exp
     return rv
 
@@ -135,9 +138,10 @@ def d_smooth_min(x, b, mu=100.0):
     Returns:
     float or array-like: The smooth approximation of derivative of min(x, b).
     """
-    d_sum_log_exp = np.exp(np.multiply(-mu, x)) / (
-        np.exp(np.multiply(-mu, x)) + np.exp(np.multiply(-mu, b))
-    )
+    mu_x = np.multiply(-mu, x)
+    mu_b = np.multiply(-mu, b)
+    m = np.maximum(mu_x, mu_b)
+    d_sum_log_exp = np.exp(mu_x - m) / (np.exp(mu_x - m) + np.exp(mu_b - m))
     return d_sum_log_exp
 
 
-- 
2.43.0


From 3595b9edc474621af045bab50e44f96c7f58dcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:35 +0000
Subject: [PATCH 45/69] fix: merge_hierarchies modifies the hierarchies it is
 given

---
 aviary/utils/merge_hierarchies.py | 39 +++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/aviary/utils/merge_hierarchies.py b/aviary/utils/merge_hierarchies.py
index 3453d65..5850e79 100644
--- a/aviary/utils/merge_hierarchies.py
+++ b/aviary/utils/merge_hierarchies.py
@@ -1,8 +1,32 @@
-import copy
-
 from aviary.utils.compare_hierarchies import compare_hierarchies_to_merge, compare_inner_classes
 
 
+def copy_hierarchy(hierarchy):
+    """
+    Copies a variable hierarchy, including all of its inner classes.
+
+    The copy module treats classes as atomic, so copy.deepcopy returns the hierarchy itself.
+
+    Parameters
+    ----------
+    hierarchy : class
+        A class that is all or part of a variable hierarchy.
+
+    Returns
+    -------
+    hierarchy_copy : class
+        A class with the same name, superclasses and attributes, that can be modified without
+        affecting the original.
+    """
+    attributes = {'__qualname__': hierarchy.__qualname__}
+    for name, value in vars(hierarchy).items():
+        if name in ('__dict__', '__weakref__'):
+            continue
+        attributes[name] = copy_hierarchy(value) if isinstance(value, type) else value
+
+    return type(hierarchy)(hierarchy.__name__, hierarchy.__bases__, attributes)
+
+
 def merge_attributes(base_class, merge_class, base_class_attributes, merge_class_attributes):
     """
     Adds unique attributes of merge_class to base_class.
@@ -46,7 +70,8 @@ def merge_attributes(base_class, merge_class, base_class_attributes, merge_class
     )  # attributes present only in merge_class
 
     for attr in merge_class_unique:
-        setattr(base_class, attr, getattr(merge_class, attr))
+        value = getattr(merge_class, attr)
+        setattr(base_class, attr, copy_hierarchy(value) if isinstance(value, type) else value)
 
     return base_class
 
@@ -187,8 +212,8 @@ def merge_hierarchies(hierarchies_to_merge):
         # checks if the given hierarchy is the first subclass of the hierarchies
         if (len(hierarchy.__mro__) > 2) and (subclass_type is None):
             # gets highest level superclass of the class before "class" itself
-            subclass_type = copy.deepcopy(hierarchy.__mro__[-2])
-            subclass_hierarchy = copy.deepcopy(hierarchy)
+            subclass_type = hierarchy.__mro__[-2]
+            subclass_hierarchy = hierarchy
         elif len(hierarchy.__mro__) > 2:  # checks if the given hierarchy is a subclass
             if hierarchy.__mro__[-2] != subclass_type:
                 raise ValueError(
@@ -198,9 +223,9 @@ def merge_hierarchies(hierarchies_to_merge):
     if (
         subclass_hierarchy is not None
     ):  # ensure that we build on the subclassed hierarchy if we have one, that way the super class information is not lost
-        merged_hierarchy = subclass_hierarchy
+        merged_hierarchy = copy_hierarchy(subclass_hierarchy)
     else:
-        merged_hierarchy = copy.deepcopy(hierarchies_to_merge[0])
+        merged_hierarchy = copy_hierarchy(hierarchies_to_merge[0])
 
     for hierarchy in hierarchies_to_merge:
         merged_hierarchy = merge_two_hierarchies(merged_hierarchy, hierarchy)
-- 
2.43.0


From d3c18858ea38fff26ae20edfcc51d77b28af5507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:35 +0000
Subject: [PATCH 46/69] fix: write_data_file modifies the list of comments it
 is given

---
 aviary/utils/csv_data_file.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aviary/utils/csv_data_file.py b/aviary/utils/csv_data_file.py
index 4498bbe..3043958 100644
--- a/aviary/utils/csv_data_file.py
+++ b/aviary/utils/csv_data_file.py
@@ -255,6 +255,9 @@ def write_data_file(
 
     if type(comments) is str:
         comments = [comments]
+    else:
+        # don't modify the list provided by the caller
+        comments = list(comments)
 
     # strip '#' from comments - np.savetxt() will automatically add them
     for idx, line in enumerate(comments):
-- 
2.43.0


From 09aa6822270bdac6c981b3487f7bfa8b296e6f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:35 +0000
Subject: [PATCH 47/69] fix: an empty cell in a data file shifts the following
 values to the wrong columns

---
 aviary/utils/csv_data_file.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/csv_data_file.py b/aviary/utils/csv_data_file.py
index 3043958..ff254bd 100644
--- a/aviary/utils/csv_data_file.py
+++ b/aviary/utils/csv_data_file.py
@@ -95,7 +95,10 @@ def read_data_file(
 
             # try to convert line_data to float, skip any blank strings
             try:
-                line_data = [float(var) for var in line_data if var != '']
+                # ignore trailing delimiters, but don't let an empty cell shift the ones after it
+                while line_data and line_data[-1] == '':
+                    line_data.pop()
+                line_data = [float(var) for var in line_data]
             # data contains things other than floats
             except ValueError:
                 # skip checking for header data if not required
-- 
2.43.0


From d272794b24d42692d5331d473a5017178d092305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:35 +0000
Subject: [PATCH 48/69] fix: save_results modifies lists of aviary_inputs and
 fails for empty lists

---
 aviary/core/aviary_problem.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/aviary/core/aviary_problem.py b/aviary/core/aviary_problem.py
index f4b1f42..8a007fa 100644
--- a/aviary/core/aviary_problem.py
+++ b/aviary/core/aviary_problem.py
@@ -1909,12 +1909,14 @@ class AviaryProblem(om.Problem):
 
                     # Lists are fine except if they contain enums or Paths
                     if type_value is list:
-                        if isinstance(value[0], Enum):
-                            for i in range(len(value)):
-                                value[i] = value[i].name
-                        elif isinstance(value[0], Path):
-                            for i in range(len(value)):
-                                value[i] = str(value[i])
+                        value = [
+                            item.name
+                            if isinstance(item, Enum)
+                            else str(item)
+                            if isinstance(item, Path)
+                            else item
+                            for item in value
+                        ]
 
                     # Enums and Paths need converting to a string
                     if isinstance(value, Enum):
-- 
2.43.0


From 4701fd115fdd2940b2b56b94d33e85ec33c214a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:35 +0000
Subject: [PATCH 49/69] fix: a vehicle deck line with a list in brackets and no
 units cannot be read

---
 aviary/utils/process_input_decks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/process_input_decks.py b/aviary/utils/process_input_decks.py
index 044ecbe..be29805 100644
--- a/aviary/utils/process_input_decks.py
+++ b/aviary/utils/process_input_decks.py
@@ -175,7 +175,8 @@ def parse_inputs(
             if len(data_list) == 0:
                 continue
             var_name = data_list.pop(0)
-            if valid_units(data_list[-1]):
+            # (the last entry of a list in brackets is not a unit)
+            if not data_list[-1].endswith(']') and valid_units(data_list[-1]):
                 # if the last element is a unit, remove it from the list and update the variable's units
                 data_units = data_list.pop()
 
-- 
2.43.0


From 3e837404bcd2c21693ce0bfaba1d6b0f1b34b510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:35 +0000
Subject: [PATCH 50/69] fix: create_vehicle without verbosity overrides the
 verbosity of the vehicle deck

---
 aviary/utils/process_input_decks.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/aviary/utils/process_input_decks.py b/aviary/utils/process_input_decks.py
index be29805..4852413 100644
--- a/aviary/utils/process_input_decks.py
+++ b/aviary/utils/process_input_decks.py
@@ -67,9 +67,6 @@ def create_vehicle(vehicle_deck='', meta_data=CoreMetaData, verbosity=Verbosity.
     (aircraft_values, initialization_guesses): (tuple)
         Returns a tuple containing aircraft values and initial guesses.
     """
-    if verbosity is None:
-        verbosity = Verbosity.BRIEF
-
     aircraft_values = AviaryValues()
 
     # TODO remove all hardcoded GASP values here, find appropriate place for them
@@ -107,7 +104,9 @@ def create_vehicle(vehicle_deck='', meta_data=CoreMetaData, verbosity=Verbosity.
                 initialization_guesses[key.removeprefix('initialization_guesses:')] = val
         aircraft_values.update(vehicle_deck)
     else:
-        vehicle_deck = get_path(vehicle_deck, verbosity)
+        vehicle_deck = get_path(
+            vehicle_deck, Verbosity.BRIEF if verbosity is None else verbosity
+        )
         aircraft_values, initialization_guesses = parse_inputs(
             vehicle_deck=vehicle_deck,
             aircraft_values=aircraft_values,
-- 
2.43.0


From 9b2691c3af7a00dee0e72fd7d0ec7d9ca4e0c861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:35 +0000
Subject: [PATCH 51/69] fix: lists of enumerations are exported in a form that
 cannot be read back

---
 aviary/utils/aviary_inputs_to_csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/utils/aviary_inputs_to_csv.py b/aviary/utils/aviary_inputs_to_csv.py
index 7c0b638..e9a8d7d 100644
--- a/aviary/utils/aviary_inputs_to_csv.py
+++ b/aviary/utils/aviary_inputs_to_csv.py
@@ -20,7 +20,7 @@ def save_to_csv_file(filename, aviary_inputs):
         for name, (value, units) in sorted(aviary_inputs):
             output = [name]
             if isinstance(value, (np.ndarray, list, tuple)):
-                output.extend(value)
+                output.extend(item.value if isinstance(item, Enum) else item for item in value)
             elif isinstance(value, Enum):
                 output.append(value.value)
             else:
-- 
2.43.0


From 0d6730bc08b13cb6259f2a53cead2732c3a72c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 52/69] fix: lists and arrays of whole numbers are rejected for
 Aircraft.Engine.WING_LOCATIONS

---
 aviary/utils/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aviary/utils/utils.py b/aviary/utils/utils.py
index 902c56d..80aa354 100644
--- a/aviary/utils/utils.py
+++ b/aviary/utils/utils.py
@@ -231,8 +231,11 @@ def cast_type(key, val, meta_data=CoreMetaData):
         expected_types = (expected_types,)
 
     # If provided val is not in expected types, see if it can be casted to one of
-    # them (e.g. cast int to float).
-    if not isinstance(cast_val, expected_types):
+    # them (e.g. cast int to float). Containers that are expected types themselves can still hold
+    # entries that need casting.
+    if not isinstance(cast_val, expected_types) or (
+        isiterable(cast_val) and not all(isinstance(item, expected_types) for item in cast_val)
+    ):
         # Prefer casting to Enum if possible
         # Special handling to access an Enum member from either the member name or its value.
         is_enum = False
-- 
2.43.0


From ba413728878ca10402d9da629926411d8b02c86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:40 +0000
Subject: [PATCH 53/69] fix: numbers in exponent notation without decimal point
 are read as text

---
 aviary/utils/functions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aviary/utils/functions.py b/aviary/utils/functions.py
index f5aae7c..53b1f83 100644
--- a/aviary/utils/functions.py
+++ b/aviary/utils/functions.py
@@ -113,7 +113,9 @@ def convert_strings_to_data(input_string):
             # if the value is a number store it as a float or an int as appropriate
             # BUG this returns floats that can be converted to int (e.g. 1.0) as an
             # int (1), even if the variable requires floats
-            value_list[ii] = int(dat) if '.' not in dat else float(dat)
+            # ("1e5" has no decimal point, but "nan" and "inf" are not meant to be numbers)
+            is_float = '.' in dat or ('e' in dat.lower() and dat[-1:].isdigit())
+            value_list[ii] = float(dat) if is_float else int(dat)
         except ValueError:
             # store value as a boolean if it is a string that represents True or False
             if dat.lower() == 'true':
-- 
2.43.0


From 8bc2001292f3e10cc30bcd4620b456489d1b221d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:06 +0000
Subject: [PATCH 54/69] fix: EngineDeck net thrust consistency check was
 inverted

---
 aviary/subsystems/propulsion/engine_deck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index 777e3bc..2c8d20c 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -468,7 +468,7 @@ class EngineDeck(EngineModel):
             # prefer using directly provided values for net thrust vs. calculating
             if THRUST in engine_variables:
                 res = abs(net_thrust_calc - original_data[THRUST])
-                if np.any(self.thrust_tol > res):
+                if np.any(res > self.thrust_tol):
                     raise UserWarning(
                         'Provided net thrust is not equal to difference (within tolerance) between '
                         f'gross thrust and ram drag in {self.error_message}'
-- 
2.43.0


From 45fed3804f50f0015b6ef37ed5ce56942221b113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:06 +0000
Subject: [PATCH 55/69] fix: EngineDeck rejects decks that lack required
 variables

---
 aviary/subsystems/propulsion/engine_deck.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index 2c8d20c..c56c873 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -528,16 +528,13 @@ class EngineDeck(EngineModel):
         # check that all required variables are present in engine data
         if not self.required_variables.issubset(engine_variables):
             # gather all missing required variables
-            missing_variables = set()
-            for var in engine_variables:
-                if var in self.required_variables:
-                    missing_variables.add(var)
+            missing_variables = {
+                var.name for var in self.required_variables if var not in engine_variables
+            }
 
-            # if missing_variables is not empty
-            if not missing_variables:
-                raise UserWarning(
-                    f'Required variables {missing_variables} are missing from {self.error_message}'
-                )
+            raise UserWarning(
+                f'Required variables {missing_variables} are missing from {self.error_message}'
+            )
 
         # removes data points with negative thrust if requested
         if self.get_val(Aircraft.Engine.IGNORE_NEGATIVE_THRUST):
-- 
2.43.0


From 47d568beebc8e915bbc6a2506a3b8b01033eea67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:06 +0000
Subject: [PATCH 56/69] fix: IGNORE_NEGATIVE_THRUST with variables the engine
 deck does not provide

---
 aviary/subsystems/propulsion/engine_deck.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index c56c873..01060ed 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -540,7 +540,9 @@ class EngineDeck(EngineModel):
         if self.get_val(Aircraft.Engine.IGNORE_NEGATIVE_THRUST):
             keep_idx = np.where(data[THRUST] >= 0)
             for key in data:
-                data[key] = data[key][keep_idx]
+                # variables that are not provided have no data to remove
+                if len(data[key]):
+                    data[key] = data[key][keep_idx]
 
         self.model_length = len(self.data[ALTITUDE])
 
-- 
2.43.0


From cd2457fcb4617e4ab056066eb0c3d1c737026969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:06 +0000
Subject: [PATCH 57/69] fix: drop corrected shaft power in favor of shaft power
 at any verbosity

---
 aviary/subsystems/propulsion/engine_deck.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index 01060ed..e4bd710 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -510,16 +510,13 @@ class EngineDeck(EngineModel):
         # consistency, as that requires information not available during setup (freestream air temp
         # and pressure). Instead, we must trust the source and assume either data set is valid and
         # can be used.
-        if (
-            SHAFT_POWER in engine_variables
-            and SHAFT_POWER_CORRECTED in engine_variables
-            and self.get_val(Settings.VERBOSITY) >= Verbosity.BRIEF
-        ):
-            warnings.warn(
-                'Both corrected and uncorrected shaft horsepower are present in '
-                f'{self.error_message}. The two cannot be validated for consistency, and only '
-                'uncorrected shaft power will be used.'
-            )
+        if SHAFT_POWER in engine_variables and SHAFT_POWER_CORRECTED in engine_variables:
+            if self.get_val(Settings.VERBOSITY) >= Verbosity.BRIEF:
+                warnings.warn(
+                    'Both corrected and uncorrected shaft horsepower are present in '
+                    f'{self.error_message}. The two cannot be validated for consistency, and only '
+                    'uncorrected shaft power will be used.'
+                )
             engine_variables.pop(SHAFT_POWER_CORRECTED)
             self.data.pop(SHAFT_POWER_CORRECTED)
 
-- 
2.43.0


From 1f87bb340c1c38e7028b829e0b5e5af41a4a13d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:06 +0000
Subject: [PATCH 58/69] fix: EngineDeck built from data in memory can build its
 mission model

---
 aviary/subsystems/propulsion/engine_deck.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index e4bd710..c3d966a 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -360,6 +360,10 @@ class EngineDeck(EngineModel):
             raw_data, self.inputs, self.outputs = read_data_file(data_file, aliases=aliases)
 
         else:
+            # data in memory does not label its variables as inputs or outputs
+            self.inputs = []
+            self.outputs = []
+
             # run provided data through aliases
             # create dict of what names to change, modify outside of loop
             alias_dict = {}
-- 
2.43.0


From ea049bae4c074a8f2b24a146e70c99ceee1a62a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:06 +0000
Subject: [PATCH 59/69] fix: count the data points of every flight condition in
 an engine deck

---
 aviary/subsystems/propulsion/engine_deck.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/aviary/subsystems/propulsion/engine_deck.py b/aviary/subsystems/propulsion/engine_deck.py
index c3d966a..4c33312 100644
--- a/aviary/subsystems/propulsion/engine_deck.py
+++ b/aviary/subsystems/propulsion/engine_deck.py
@@ -1491,7 +1491,7 @@ class EngineDeck(EngineModel):
 
                 if not self.global_throttle:
                     # normalize throttles for this flight condition from 0 to 1
-                    throttle_list = normalize(packed_throttle[M, A][: data_indices[M, A] + 1])
+                    throttle_list = normalize(packed_throttle[M, A][: data_indices[M, A]])
                     normalized_throttle = np.append(normalized_throttle, throttle_list)
                     throttle_min = np.append(throttle_min, min(throttle_list))
                     throttle_max = np.append(throttle_max, max(throttle_list))
@@ -1499,7 +1499,7 @@ class EngineDeck(EngineModel):
                 if not self.global_hybrid_throttle and self.use_hybrid_throttle:
                     # normalize hybrid throttles for this flight condition
                     hybrid_throttle_list = _hybrid_throttle_norm(
-                        packed_hybrid_throttle[M, A][: data_indices[M, A] + 1]
+                        packed_hybrid_throttle[M, A][: data_indices[M, A]]
                     )
                     normalized_hybrid_throttle = np.append(
                         normalized_hybrid_throttle, hybrid_throttle_list
@@ -1602,8 +1602,7 @@ class EngineDeck(EngineModel):
                     # skip point if there is no data
                     continue
 
-                # number of data points is index+1
-                for D in range(data_indices[M, A] + 1):
+                for D in range(data_indices[M, A]):
                     for key in self.data:
                         unpacked_data = self.data[key]
                         if idx < len(unpacked_data):
@@ -1647,8 +1646,8 @@ class EngineDeck(EngineModel):
 
             if math.isclose(mach_num, curr_mach, abs_tol=self.mach_tol):
                 if math.isclose(alt, curr_alt, abs_tol=self.alt_tol):
-                    data_indices[mach_count - 1, alt_count - 1] = data_count
                     data_count += 1
+                    data_indices[mach_count - 1, alt_count - 1] = data_count
 
                 else:
                     # new altitude for this Mach number, count it
@@ -1706,6 +1705,10 @@ class EngineDeck(EngineModel):
                 # count data associated with new altitude
                 data_indices[mach_count - 1, alt_count - 1] = 1
 
+        # the last Mach number and the last flight condition count too
+        max_alt_count = max(max_alt_count, alt_count)
+        max_data_count = max(max_data_count, data_count)
+
         self.mach_max_count = mach_count
         self.alt_max_count = max_alt_count
         self.data_max_count = max_data_count
-- 
2.43.0


From a0a1e3051b9d751f688fde58af6491ed6bcbb05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:22 +0000
Subject: [PATCH 60/69] fix: smoothed derivatives of the limit speed and
 density ratio in LoadParameters

---
 aviary/subsystems/mass/gasp_based/design_load.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/design_load.py b/aviary/subsystems/mass/gasp_based/design_load.py
index 66674ec..e8fd27a 100644
--- a/aviary/subsystems/mass/gasp_based/design_load.py
+++ b/aviary/subsystems/mass/gasp_based/design_load.py
@@ -484,10 +484,8 @@ class LoadParameters(om.ExplicitComponent):
             DSigF = dSigmoidXdx(density_ratio, 1, 0.01)
             dV9_dmax_airspeed = (
                 vel_c * DSigF * (-ddensity_ratio_dmax_airspeed)
+                + 661.7 * dmax_mach_dmax_airspeed * SigF
                 + 661.7
-                * dmax_mach_dmax_airspeed
-                * SigF
-                * 661.7
                 * max_mach
                 * DSigF
                 * ddensity_ratio_dmax_airspeed
@@ -508,7 +506,7 @@ class LoadParameters(om.ExplicitComponent):
                     / 0.6820
                     + ddensity_ratio_dmax_airspeed
                     * sigmoidX(density_ratio / 0.6820, 1, 0.01)
-                    * SigF
+                    * SigE
                     + density_ratio
                     * (
                         dSigmoidXdx(density_ratio / 0.6820, 1, 0.01)
@@ -544,8 +542,8 @@ class LoadParameters(om.ExplicitComponent):
                         * ddensity_ratio_dmax_airspeed
                         / 0.53281
                         * SigE
-                        + sigmoidX(density_ratio / 0.53281, 1, -0.01)
-                        * SigF
+                        + sigmoidX(density_ratio / 0.53281, 1, 0.01)
+                        * DSigF
                         * -ddensity_ratio_dmax_airspeed
                     )
                     + DSigF * ddensity_ratio_dmax_airspeed
-- 
2.43.0


From 989523dcab6bc8d270f2cc3e6561dadc274b39f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:09 +0000
Subject: [PATCH 61/69] fix: smoothed derivative of the landing gear location
 factor in MassParameters

---
 aviary/subsystems/mass/gasp_based/fixed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aviary/subsystems/mass/gasp_based/fixed.py b/aviary/subsystems/mass/gasp_based/fixed.py
index dcdc6f7..4d94674 100644
--- a/aviary/subsystems/mass/gasp_based/fixed.py
+++ b/aviary/subsystems/mass/gasp_based/fixed.py
@@ -241,9 +241,9 @@ class MassParameters(om.ExplicitComponent):
         J['c_strut_braced', Aircraft.Strut.ATTACHMENT_LOCATION_DIMENSIONLESS] = -2 * strut_x
 
         if smooth:
-            J['c_gear_loc', Aircraft.LandingGear.MAIN_GEAR_LOCATION] = 0.95 * (-100) * dSigmoidXdx(
+            J['c_gear_loc', Aircraft.LandingGear.MAIN_GEAR_LOCATION] = (1 - 0.95) * dSigmoidXdx(
                 loc_main_gear, 0.005, 0.01 / 320.0
-            ) + 1 * (100) * dSigmoidXdx(loc_main_gear, 0.005, 0.01 / 320.0)
+            )
         else:
             J['c_gear_loc', Aircraft.LandingGear.MAIN_GEAR_LOCATION] = 0.0
 
-- 
2.43.0


From 0800d4c5a715f5608ada8171eaa63513418c2160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:44 +0000
Subject: [PATCH 62/69] fix: target every phase with the core trajectory
 parameters

---
 aviary/variable_info/functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aviary/variable_info/functions.py b/aviary/variable_info/functions.py
index 1d8cf9d..3306660 100644
--- a/aviary/variable_info/functions.py
+++ b/aviary/variable_info/functions.py
@@ -425,10 +425,10 @@ def setup_trajectory_params(
 
     # Step 3: Loop through the collected parameters and call traj.add_parameter
     already_added = []
-    for key, phases in parameters_with_phases.items():
+    for key, key_phases in parameters_with_phases.items():
         # Assuming the kwargs are the same for shared parameters
-        kwargs = external_parameters[phases[0]][key]
-        targets = {phase: [key] for phase in phases}
+        kwargs = external_parameters[key_phases[0]][key]
+        targets = {phase: [key] for phase in key_phases}
         traj.add_parameter(key, **kwargs, targets=targets)
 
         model.promotes('traj', inputs=[(f'parameters:{key}', key)])
-- 
2.43.0


From 12bf434fa33e407ded5d309a6b19abc81bfe3278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:48 +0000
Subject: [PATCH 63/69] fix: feed the drag factors and excrescence percentage
 of the aircraft to the GASP aerodynamics of every phase

---
 aviary/core/aviary_group.py                           |  5 +----
 .../subsystems/aerodynamics/aerodynamics_builder.py   | 11 +++++++++++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/aviary/core/aviary_group.py b/aviary/core/aviary_group.py
index 7f56f0d..bcff4c2 100644
--- a/aviary/core/aviary_group.py
+++ b/aviary/core/aviary_group.py
@@ -153,10 +153,7 @@ class AviaryGroup(om.Group):
             if ':' not in key or key.startswith('dynamic:'):
                 continue
 
-            if aviary_metadata[key]['option']:
-                continue
-
-            # Skip anything that is not presently an input.
+            # Skip anything that is not presently an input (some options are inputs as well).
             if key not in all_prom_inputs:
                 continue
 
diff --git a/aviary/subsystems/aerodynamics/aerodynamics_builder.py b/aviary/subsystems/aerodynamics/aerodynamics_builder.py
index c233be8..cddfa1d 100644
--- a/aviary/subsystems/aerodynamics/aerodynamics_builder.py
+++ b/aviary/subsystems/aerodynamics/aerodynamics_builder.py
@@ -886,32 +886,42 @@ ENGINE_SIZED_INPUTS = [
 AERO_2DOF_INPUTS = [
     Aircraft.Design.CG_DELTA,
     Aircraft.Design.DRAG_COEFFICIENT_INCREMENT,  # drag increment?
+    Aircraft.Design.EXCRESCENCE_DRAG_FACTOR,
+    Aircraft.Design.INTERFERENCE_DRAG_FACTOR,
+    Aircraft.Design.PERCENT_EXCRESCENCE_DRAG,
     Aircraft.Design.STATIC_MARGIN,
     Aircraft.Fuselage.AVG_DIAMETER,
+    Aircraft.Fuselage.DRAG_FACTOR,
     Aircraft.Fuselage.FLAT_PLATE_AREA_INCREMENT,
     Aircraft.Fuselage.LENGTH,
     Aircraft.Fuselage.WETTED_AREA,
     Aircraft.Fuselage.FORM_FACTOR,
     Aircraft.HorizontalTail.AREA,
     Aircraft.HorizontalTail.AVERAGE_CHORD,
+    Aircraft.HorizontalTail.DRAG_FACTOR,
     Aircraft.HorizontalTail.FORM_FACTOR,
     Aircraft.HorizontalTail.MOMENT_RATIO,
     Aircraft.HorizontalTail.SPAN,
     Aircraft.HorizontalTail.SWEEP,
     Aircraft.HorizontalTail.VERTICAL_TAIL_MOUNT_LOCATION,
     Aircraft.Nacelle.AVG_LENGTH,
+    Aircraft.Nacelle.DRAG_FACTOR,
     Aircraft.Nacelle.FORM_FACTOR,
+    Aircraft.Nacelle.PYLON_DRAG_FACTOR,
     Aircraft.Nacelle.SURFACE_AREA,
     Aircraft.Strut.AREA_RATIO,
     Aircraft.Strut.CHORD,
+    Aircraft.Strut.DRAG_FACTOR,
     Aircraft.Strut.FUSELAGE_INTERFERENCE_FACTOR,
     Aircraft.VerticalTail.AREA,
     Aircraft.VerticalTail.AVERAGE_CHORD,
+    Aircraft.VerticalTail.DRAG_FACTOR,
     Aircraft.VerticalTail.FORM_FACTOR,
     Aircraft.VerticalTail.SPAN,
     Aircraft.Wing.AVERAGE_CHORD,
     Aircraft.Wing.AREA,
     Aircraft.Wing.ASPECT_RATIO,
+    Aircraft.Wing.DRAG_FACTOR,
     Aircraft.Wing.FORM_FACTOR,
     Aircraft.Wing.FUSELAGE_INTERFERENCE_FACTOR,
     Aircraft.Wing.MAX_THICKNESS_LOCATION,
@@ -944,6 +954,7 @@ AERO_LS_2DOF_INPUTS = [
 ]
 
 AERO_CLEAN_2DOF_INPUTS = [
+    Aircraft.Design.COMPRESSIBILITY_DRAG_FACTOR,
     Aircraft.Design.DRAG_DIVERGENCE_SHIFT,  # super drag shift?
     Aircraft.Design.LIFT_COEFFICIENT_MAX_FLAPS_UP,
     Aircraft.Design.LIFT_DEPENDENT_DRAG_COEFF_FACTOR,
-- 
2.43.0


From 2e2bee44f71645c61b00cc4fa25fb78e2a9bd501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:39 +0000
Subject: [PATCH 64/69] fix: feed the rolling friction coefficient of the
 aircraft to the 2DOF takeoff phases

---
 aviary/mission/two_dof/phases/takeoff_phase.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/aviary/mission/two_dof/phases/takeoff_phase.py b/aviary/mission/two_dof/phases/takeoff_phase.py
index 1512587..113eb61 100644
--- a/aviary/mission/two_dof/phases/takeoff_phase.py
+++ b/aviary/mission/two_dof/phases/takeoff_phase.py
@@ -309,6 +309,7 @@ class TakeoffPhase(PhaseBuilder):
 
     def get_parameters(self):
         ground_roll = self.user_options.get_val('ground_roll')
+        rotation = self.user_options.get_val('rotation')
 
         params = {}
         params[Aircraft.Wing.INCIDENCE] = {
@@ -317,6 +318,13 @@ class TakeoffPhase(PhaseBuilder):
             'static_target': True,
         }
 
+        if ground_roll or rotation:
+            params[Mission.Takeoff.ROLLING_FRICTION_COEFFICIENT] = {
+                'shape': (1,),
+                'units': CoreMetaData[Mission.Takeoff.ROLLING_FRICTION_COEFFICIENT]['units'],
+                'static_target': True,
+            }
+
         if ground_roll:
             params[Aircraft.Wing.AREA] = {
                 'shape': (1,),
-- 
2.43.0


From 93b320d580a7319f1508c576aafe3e633d8e3c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:14 +0000
Subject: [PATCH 65/69] fix: connect the wing root chord to the characteristic
 length of the wing

---
 aviary/subsystems/geometry/flops_based/prep_geom.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aviary/subsystems/geometry/flops_based/prep_geom.py b/aviary/subsystems/geometry/flops_based/prep_geom.py
index 483ef9f..1700bab 100644
--- a/aviary/subsystems/geometry/flops_based/prep_geom.py
+++ b/aviary/subsystems/geometry/flops_based/prep_geom.py
@@ -20,6 +20,7 @@ from aviary.subsystems.geometry.flops_based.fuselage import (
     SimpleCabinLayout,
 )
 from aviary.subsystems.geometry.flops_based.landing_gear import MainGearLength, NoseGearLength
+from aviary.subsystems.geometry.flops_based.utils import Names
 from aviary.subsystems.geometry.flops_based.wetted_area_total import WettedAreaGroup
 from aviary.subsystems.geometry.flops_based.wetted_area_total import TotalWettedArea
 from aviary.subsystems.geometry.flops_based.wing import WingPrelim
@@ -137,6 +138,10 @@ class PrepGeom(om.Group):
                 promotes_inputs=['aircraft*'],
                 promotes_outputs=['*'],
             )
+            self.connect(
+                f'prelim_swet.{Names.CROOT}',
+                f'wing_characteristic_lengths.{Names.CROOT}',
+            )
 
         self.add_subsystem(
             'nacelle_characteristic_lengths',
-- 
2.43.0


From f8245c66cc510ad127a4cbab2a183c1d4f621a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:14 +0000
Subject: [PATCH 66/69] fix: compute the alternate furnishings mass after the
 masses it is a fraction of

---
 .../mass/flops_based/mass_premission.py          | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/aviary/subsystems/mass/flops_based/mass_premission.py b/aviary/subsystems/mass/flops_based/mass_premission.py
index fcfcca5..c56beff 100644
--- a/aviary/subsystems/mass/flops_based/mass_premission.py
+++ b/aviary/subsystems/mass/flops_based/mass_premission.py
@@ -133,13 +133,6 @@ class MassPremission(om.Group):
                 promotes_outputs=['*'],
             )
 
-            self.add_subsystem(
-                'furnishings',
-                AltFurnishingsGroupMass(),
-                promotes_inputs=['*'],
-                promotes_outputs=['*'],
-            )
-
             self.add_subsystem(
                 'hydraulics',
                 AltHydraulicsGroupMass(),
@@ -326,4 +319,13 @@ class MassPremission(om.Group):
             'mass_summation', MassSummation(), promotes_inputs=['*'], promotes_outputs=['*']
         )
 
+        if alt_mass:
+            # uses masses that are only known after the summation
+            self.add_subsystem(
+                'furnishings',
+                AltFurnishingsGroupMass(),
+                promotes_inputs=['*'],
+                promotes_outputs=['*'],
+            )
+
         self.set_input_defaults(Aircraft.Fuel.DENSITY, units='lbm/galUS')
-- 
2.43.0


From 5edabb4e5a8fcf9e2a79af813ca2d7b169be39b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:25 +0000
Subject: [PATCH 67/69] fix: feed the rolling friction coefficient of the
 aircraft to the solved 2DOF phases

---
 aviary/mission/solved_two_dof/phases/groundroll_phase.py   | 7 ++++++-
 .../mission/solved_two_dof/phases/solved_twodof_phase.py   | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/aviary/mission/solved_two_dof/phases/groundroll_phase.py b/aviary/mission/solved_two_dof/phases/groundroll_phase.py
index 724cb63..1f17b78 100644
--- a/aviary/mission/solved_two_dof/phases/groundroll_phase.py
+++ b/aviary/mission/solved_two_dof/phases/groundroll_phase.py
@@ -10,7 +10,7 @@ from aviary.mission.solved_two_dof.ode.groundroll_ode import GroundrollODE
 from aviary.utils.aviary_options_dict import AviaryOptionsDictionary
 from aviary.utils.aviary_values import AviaryValues
 from aviary.variable_info.variable_meta_data import CoreMetaData
-from aviary.variable_info.variables import Aircraft, Dynamic
+from aviary.variable_info.variables import Aircraft, Dynamic, Mission
 
 # Solved 2DOF uses this builder.
 #
@@ -211,6 +211,11 @@ class GroundrollPhase(PhaseBuilder):
             'units': CoreMetaData[Aircraft.Wing.INCIDENCE]['units'],
             'static_target': True,
         }
+        params[Mission.Takeoff.ROLLING_FRICTION_COEFFICIENT] = {
+            'shape': (1,),
+            'units': CoreMetaData[Mission.Takeoff.ROLLING_FRICTION_COEFFICIENT]['units'],
+            'static_target': True,
+        }
         return params
 
 
diff --git a/aviary/mission/solved_two_dof/phases/solved_twodof_phase.py b/aviary/mission/solved_two_dof/phases/solved_twodof_phase.py
index a9d7208..f526eae 100644
--- a/aviary/mission/solved_two_dof/phases/solved_twodof_phase.py
+++ b/aviary/mission/solved_two_dof/phases/solved_twodof_phase.py
@@ -12,7 +12,7 @@ from aviary.utils.aviary_values import AviaryValues
 from aviary.utils.utils import wrapped_convert_units
 from aviary.variable_info.enums import EquationsOfMotion, SpeedType, ThrottleAllocation
 from aviary.variable_info.variable_meta_data import CoreMetaData
-from aviary.variable_info.variables import Aircraft, Dynamic
+from aviary.variable_info.variables import Aircraft, Dynamic, Mission
 
 # TODO: support/handle the following in the base class
 # - phase.set_time_options()
@@ -313,6 +313,11 @@ class SolvedTwoDOFPhase(FlightPhaseBase):
             'units': CoreMetaData[Aircraft.Wing.INCIDENCE]['units'],
             'static_target': True,
         }
+        params[Mission.Takeoff.ROLLING_FRICTION_COEFFICIENT] = {
+            'shape': (1,),
+            'units': CoreMetaData[Mission.Takeoff.ROLLING_FRICTION_COEFFICIENT]['units'],
+            'static_target': True,
+        }
         return params
 
 
-- 
2.43.0


From 189b96b1be4689e159378edad3a850008d383bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:13 +0000
Subject: [PATCH 68/69] fix: do not give the options of an engine type to other
 types whose name starts with its name

---
 aviary/variable_info/functions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aviary/variable_info/functions.py b/aviary/variable_info/functions.py
index 3306660..a309dad 100644
--- a/aviary/variable_info/functions.py
+++ b/aviary/variable_info/functions.py
@@ -607,5 +607,7 @@ def setup_model_options(
                 val, units = aviary_inputs.get_item(key)
                 opts[key] = (val[idx], units)
 
-        path = f'{prefix}*propulsion.{eng_name}*'
+        # the engine itself and everything below it, but not an engine whose name starts the same
+        path = f'{prefix}*propulsion.{eng_name}'
         prob.model_options[path] = opts
+        prob.model_options[f'{path}.*'] = opts
-- 
2.43.0


From c9f68d80b8d878af98f2e9319be3b2dd01415a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:21 +0000
Subject: [PATCH 69/69] fix: connect the initial mass of a single reserve phase
 to the reserve fuel

---
 aviary/core/aviary_group.py                | 26 +++++++++++++---------
 aviary/subsystems/energy/energy_builder.py | 22 +++++++++---------
 aviary/subsystems/subsystem_builder.py     |  1 +
 3 files changed, 29 insertions(+), 20 deletions(-)

diff --git a/aviary/core/aviary_group.py b/aviary/core/aviary_group.py
index bcff4c2..68ac626 100644
--- a/aviary/core/aviary_group.py
+++ b/aviary/core/aviary_group.py
@@ -1271,16 +1271,22 @@ class AviaryGroup(om.Group):
                 aviary_inputs=self.aviary_inputs, mission_info=self.mission_info
             ).items():
                 for mission_variable_name, variable_data in var_mapping.items():
-                    post_mission_variable_names = variable_data['post_mission_name']
-                    src_indices = variable_data.get('src_indices', None)
-                    if not isinstance(post_mission_variable_names, list):
-                        post_mission_variable_names = [post_mission_variable_names]
-
-                    for post_mission_var_name in post_mission_variable_names:
-                        # Remove possible prefix before a `.`, like <external_subsystem_name>.<var_name>"
-                        mvn_basename = mission_variable_name.rpartition('.')[-1]
-                        src_name = f'traj.{phase_name}.mission_bus_variables.{mvn_basename}'
-                        self.connect(src_name, post_mission_var_name, src_indices=src_indices)
+                    # Remove possible prefix before a `.`, like <external_subsystem_name>.<var_name>"
+                    mvn_basename = mission_variable_name.rpartition('.')[-1]
+                    src_name = f'traj.{phase_name}.mission_bus_variables.{mvn_basename}'
+
+                    # A variable that is needed at several points of the phase has a list of entries.
+                    if not isinstance(variable_data, list):
+                        variable_data = [variable_data]
+
+                    for data in variable_data:
+                        post_mission_variable_names = data['post_mission_name']
+                        src_indices = data.get('src_indices', None)
+                        if not isinstance(post_mission_variable_names, list):
+                            post_mission_variable_names = [post_mission_variable_names]
+
+                        for post_mission_var_name in post_mission_variable_names:
+                            self.connect(src_name, post_mission_var_name, src_indices=src_indices)
 
     def add_design_variables(self, problem_type: ProblemType = None, verbosity=None):
         """
diff --git a/aviary/subsystems/energy/energy_builder.py b/aviary/subsystems/energy/energy_builder.py
index 7a98e05..41f7582 100644
--- a/aviary/subsystems/energy/energy_builder.py
+++ b/aviary/subsystems/energy/energy_builder.py
@@ -81,18 +81,20 @@ class CoreEnergyBuilder(EnergyBuilder):
         }
 
         if reserve_phases:
-            post_mission_bus[reserve_phases[0]] = {
-                f'mass': {
-                    'post_mission_name': f'{self.name}.reserve_fuel_burned.mass_initial',
-                    'src_indices': [0],
-                }
+            initial_mass = {
+                'post_mission_name': f'{self.name}.reserve_fuel_burned.mass_initial',
+                'src_indices': [0],
             }
-            post_mission_bus[reserve_phases[-1]] = {
-                f'mass': {
-                    'post_mission_name': f'{self.name}.reserve_fuel_burned.mass_final',
-                    'src_indices': [-1],
-                }
+            final_mass = {
+                'post_mission_name': f'{self.name}.reserve_fuel_burned.mass_final',
+                'src_indices': [-1],
             }
+            if len(reserve_phases) == 1:
+                # The initial and the final mass come from the same variable of the same phase.
+                post_mission_bus[reserve_phases[0]] = {'mass': [initial_mass, final_mass]}
+            else:
+                post_mission_bus[reserve_phases[0]] = {'mass': initial_mass}
+                post_mission_bus[reserve_phases[-1]] = {'mass': final_mass}
 
         return post_mission_bus
 
diff --git a/aviary/subsystems/subsystem_builder.py b/aviary/subsystems/subsystem_builder.py
index 7130a34..af02843 100644
--- a/aviary/subsystems/subsystem_builder.py
+++ b/aviary/subsystems/subsystem_builder.py
@@ -523,6 +523,7 @@ class SubsystemBuilder(ABC):
                 Names of the input variable to be connected in the post-mission subsystem
             - 'src_indices': int or list of ints or tuple of ints or int ndarray or Iterable or None
                 Indices of the mission variable for connection
+            A list of such dictionaries connects different indices of one variable.
         """
         return {}
 
-- 
2.43.0

