From f88f8982f7e7b1271bbdb130608916330f276418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 01/16] fix: add the fourth derivative of potentials with a
 feature

FeaturePotential defined V, dV, d2V and d3V including the feature, but inherited d4V of the
featureless base potential.
---
 primpy/potentials.py | 45 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/primpy/potentials.py b/primpy/potentials.py
index 5d8c4a7..77a5d8d 100644
--- a/primpy/potentials.py
+++ b/primpy/potentials.py
@@ -1298,6 +1298,11 @@ class FeatureFunction(ABC):
     def d3F(x, x0, a, b):
         """Feature function 3rd derivative."""
 
+    @staticmethod
+    def d4F(x, x0, a, b):
+        """Feature function 4th derivative."""
+        raise NotImplementedError("FeatureFunction class must define d4F.")
+
 
 class GaussianDip(FeatureFunction):
     """Gaussian: `F(x) = -a * exp(-(x-x0)**2 / (2*b**2))`."""
@@ -1322,6 +1327,15 @@ class GaussianDip(FeatureFunction):
         """`F'''(x) = a/b**6 * (x-x0) * ((x-x0)**2 - 3*b**2) * exp(-(x-x0)**2 / (2*b**2))`."""
         return a / b**6 * (x - x0) * ((x - x0)**2 - 3 * b**2) * np.exp(-(x - x0)**2 / (2 * b**2))
 
+    @staticmethod
+    def d4F(x, x0, a, b):
+        """Fourth derivative of the Gaussian.
+
+        `F''''(x) = -a/b**8 * (u**4 - 6*b**2*u**2 + 3*b**4) * exp(-u**2 / (2*b**2))` with `u=x-x0`.
+        """
+        return (-a / b**8 * ((x - x0)**4 - 6 * b**2 * (x - x0)**2 + 3 * b**4)
+                * np.exp(-(x - x0)**2 / (2 * b**2)))
+
 
 class TanhStep(FeatureFunction):
     """Tanh step function: `F(x) = a * tanh((x - x0) / b)`."""
@@ -1349,6 +1363,15 @@ class TanhStep(FeatureFunction):
         tanh = np.tanh((x - x0) / b)
         return -2 * a / b**3 * (1 - 4 * tanh**2 + 3 * tanh**4)
 
+    @staticmethod
+    def d4F(x, x0, a, b):
+        """Fourth derivative of the tanh step function.
+
+        `F''''(x) = 8*a/b**4 * tanh((x-x0)/b) * (2 - 5*tanh((x-x0)/b)**2 + 3*tanh((x-x0)/b)**4)`.
+        """
+        tanh = np.tanh((x - x0) / b)
+        return 8 * a / b**4 * tanh * (2 - 5 * tanh**2 + 3 * tanh**4)
+
 
 class FeaturePotential(InflationaryPotential, FeatureFunction):
     """Inflationary potential with a feature: `V(phi) = V0(phi) * (1+F(phi))`."""
@@ -1411,6 +1434,28 @@ class FeaturePotential(InflationaryPotential, FeatureFunction):
         d3F = super().d3F(phi, self.phi_feature, self.a_feature, self.b_feature)
         return d3V0 * (1 + F) + 3 * d2V0 * dF + 3 * dV0 * d2F + V0 * d3F
 
+    def d4V(self, phi):
+        r"""Fourth derivative of the inflationary potential with a feature.
+
+        .. math::
+            V''''(\phi) = V_0''''(\phi) * (1 + F(\phi))
+                         + 4 * V_0'''(\phi) * F'(\phi)
+                         + 6 * V_0''(\phi) * F''(\phi)
+                         + 4 * V_0'(\phi) * F'''(\phi)
+                         + V_0(\phi) * F''''(\phi)
+        """
+        V0 = super().V(phi)
+        dV0 = super().dV(phi)
+        d2V0 = super().d2V(phi)
+        d3V0 = super().d3V(phi)
+        d4V0 = super().d4V(phi)
+        F = super().F(phi, self.phi_feature, self.a_feature, self.b_feature)
+        dF = super().dF(phi, self.phi_feature, self.a_feature, self.b_feature)
+        d2F = super().d2F(phi, self.phi_feature, self.a_feature, self.b_feature)
+        d3F = super().d3F(phi, self.phi_feature, self.a_feature, self.b_feature)
+        d4F = super().d4F(phi, self.phi_feature, self.a_feature, self.b_feature)
+        return d4V0 * (1 + F) + 4 * d3V0 * dF + 6 * d2V0 * d2F + 4 * dV0 * d3F + V0 * d4F
+
 
 class StarobinskyGaussianDipPotential(FeaturePotential, StarobinskyPotential, GaussianDip):
     """Starobinsky potential with a Gaussian dip."""
-- 
2.43.0


From 7b286959e7d0a99ed962b457361c5de7c271716b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 02/16] fix: include curvature in the third time derivative of
 the inflaton

---
 primpy/time/inflation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/primpy/time/inflation.py b/primpy/time/inflation.py
index 5b6d8a9..1df001b 100644
--- a/primpy/time/inflation.py
+++ b/primpy/time/inflation.py
@@ -77,7 +77,7 @@ class InflationEquationsT(InflationEquations):
     @staticmethod
     def get_d3phi(H, dH, d2H, dphi, d2phi, dV, d2V):  # noqa: D102
         # here: d3phi/dt3
-        return -3 * H * d2phi - d2V * dphi + 3 * dphi**3 / 2
+        return -3 * H * d2phi - d2V * dphi - 3 * dH * dphi
 
     @staticmethod
     def get_d4phi(H, dH, d2H, d3H, dphi, d2phi, d3phi, dV, d2V, d3V):  # noqa: D102
-- 
2.43.0


From c7681b5e25003e473619b7c5e8e3e3c419b5110d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:06 +0000
Subject: [PATCH 03/16] fix: reheating duration from w_reh and rho_reh_GeV in
 curved universes

---
 primpy/inflation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index a206ed5..a99176d 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -805,7 +805,7 @@ class InflationEquations(Equations, ABC):
                         sol.w_reh = w_reh
                         sol.rho_reh_GeV = rho_reh_GeV
                         sol.rho_reh_mp4 = rho_reh_GeV**4 / mp_GeV * lp_iGeV**3
-                        sol.DeltaN_reh = -(1+w_reh) / 3 * np.log(2/3 * sol.rho_reh_mp4 / sol.V_end)
+                        sol.DeltaN_reh = np.log(3/2*sol.V_end/sol.rho_reh_mp4) / (3*(1+w_reh))
                         sol.DeltaN_minus1 = sol.DeltaN_reh / 4 * (1 - 3 * w_reh)
                         sol.N0 += sol.DeltaN_minus1
                         sol._N_reh = sol._N_end + sol.DeltaN_reh
-- 
2.43.0


From 32e70d283b101e7ac914104ed072be15f0cf3f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:06 +0000
Subject: [PATCH 04/16] fix: look up the inflation start event under its actual
 name in the warning

---
 primpy/exceptionhandling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/primpy/exceptionhandling.py b/primpy/exceptionhandling.py
index 97615b4..7bbaf52 100644
--- a/primpy/exceptionhandling.py
+++ b/primpy/exceptionhandling.py
@@ -121,7 +121,7 @@ class InflationStartWarning(InflationWarning):
         events = kwargs.pop('events', None)
         if events is None:
             self.message = "%s. %s" % (self.header, message)
-        elif 'Inflation_dir+1_term1' not in events and 'Inflation_dir+1_term0' not in events:
+        elif 'Inflation_dir1_term1' not in events and 'Inflation_dir1_term0' not in events:
             extra_info = ("Not tracking `InflationEvent`. Events tracked are %s. In order to "
                           "determine the start of inflation `_N_beg`, make sure to track the "
                           "event `InflationEvent(equations, direction=+1)` defined in "
-- 
2.43.0


From 2f53c0bc7a4cd8bf29abd6b464c3ba4c024515de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:06 +0000
Subject: [PATCH 05/16] fix: reset rho_reh_mp4 when recalibrating curved
 universes without reheating

---
 primpy/inflation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index a99176d..ab97d6c 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -751,6 +751,7 @@ class InflationEquations(Equations, ABC):
                     sol.N0 = np.log(sol.a0)
                     if rho_reh_GeV is None:
                         sol.rho_reh_GeV = np.nan
+                        sol.rho_reh_mp4 = np.nan
                         sol._N_reh = np.nan
                         sol.w_reh = np.nan
                         sol.DeltaN_reh = np.nan
-- 
2.43.0


From e49e9440afc992452dcc4553f499066a4ebb367c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:08 +0000
Subject: [PATCH 06/16] fix: drop closed large scales for every requested
 vacuum

---
 primpy/oscode_solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/primpy/oscode_solver.py b/primpy/oscode_solver.py
index f997563..d358686 100644
--- a/primpy/oscode_solver.py
+++ b/primpy/oscode_solver.py
@@ -125,7 +125,8 @@ def solve_oscode(background, k,
                 ))
         p.oscode_postprocessing(oscode_sol=oscode_sol, vacuum=vacuum)
         if ki < 1 and b.K == +1 and drop_closed_large_scales:
-            p.scalar.P_s_RST = 1e-30
+            for vac in vacuum:
+                setattr(p.scalar, 'P_s_%s' % vac, 1e-30)
         for vac in vacuum:
             getattr(PPS, 'P_s_%s' % vac)[i] = getattr(p.scalar, 'P_s_%s' % vac)
             getattr(PPS, 'P_t_%s' % vac)[i] = getattr(p.tensor, 'P_t_%s' % vac)
-- 
2.43.0


From fa5f5c4a7b8916a53a3e4a254526a1e2ca718de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:31 +0000
Subject: [PATCH 07/16] fix: update H_star when calibrating a flat universe
 from reheating

---
 primpy/inflation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index ab97d6c..117fa19 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -699,6 +699,7 @@ class InflationEquations(Equations, ABC):
                         else:
                             sol._N_cross = logaH2N(sol._logaH_star)
 
+                        sol.H_star = np.exp(sol._logaH_star - sol._N_cross)
                         sol.N_star = sol._N_end - sol._N_cross
                         sol._N_reh = sol._N_end + sol.DeltaN_reh
 
-- 
2.43.0


From ea2fb5c647ccbd3b6d36b9d32a7db4cb8b3e226e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:31 +0000
Subject: [PATCH 08/16] fix: copy reheating parameters along with the
 calibration of another background

---
 primpy/inflation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 117fa19..6decd02 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -722,6 +722,12 @@ class InflationEquations(Equations, ABC):
                     sol._N_reh = background._N_reh
                     sol._N_end = background._N_end
                     sol.N_star = background.N_star
+                    sol.H_star = background.H_star
+                    sol.DeltaN_minus1 = background.DeltaN_minus1
+                    sol.DeltaN_reh = background.DeltaN_reh
+                    sol.w_reh = background.w_reh
+                    sol.rho_reh_GeV = background.rho_reh_GeV
+                    sol.rho_reh_mp4 = background.rho_reh_mp4
 
                 sol.a0_Mpc = np.exp(sol._logaH_star) / K_STAR
                 logk = sol._logaH + np.log(K_STAR) - sol._logaH_star
-- 
2.43.0


From 44cf24bae1b3a11ca6ec50f2b6e747b081ed496e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 09/16] fix: drop cached power spectrum approximations when
 recalibrating

---
 primpy/inflation.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 6decd02..653b85a 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -871,6 +871,10 @@ class InflationEquations(Equations, ABC):
             sol.cHH_Mpc = sol.a0 / (np.exp(sol.N) * sol.H) * lp_m / Mpc_m
             sol.cHH_end_Mpc = sol.a0 / (np.exp(sol.N_end) * sol.H_end) * lp_m / Mpc_m
 
+            # drop approximate primordial power spectra from any previous calibration
+            for attr in [key for key in sol if key.startswith(('P_s_approx_', 'P_t_approx_'))]:
+                del sol[attr]
+
             # derive approximate primordial power spectra
             if background is None:  # only derive if not copied from background
                 derive_approx_power(**kwargs)
@@ -1465,6 +1469,8 @@ class InflationEquations(Equations, ABC):
 
             """
             if method == 'CGS':
+                if not hasattr(sol, "P_s_approx_CGS3"):
+                    derive_approx_power_CGS(**interp_kwargs)
                 if order == 3:
                     return sol.P_s_approx_CGS3(k)
                 elif order == 0:
@@ -1519,6 +1525,8 @@ class InflationEquations(Equations, ABC):
 
             """
             if method == 'CGS':
+                if not hasattr(sol, "P_t_approx_CGS3"):
+                    derive_approx_power_CGS(**interp_kwargs)
                 if order is None or order == 3:
                     return sol.P_t_approx_CGS3(k)
                 elif order == 0:
-- 
2.43.0


From 99c94557145901ac3b3475a975b63407dde77511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:18 +0000
Subject: [PATCH 10/16] fix: zeta(3) coefficients of the third-order ARBDS
 power spectra

The factor 7 applied to every zeta(3) is only right for some of the terms. With
the coefficients of Auclair & Ringeval (2022) the third-order spectra agree with
those of Choe, Gong & Stewart (2004) and Gong (2004).
---
 primpy/inflation.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 653b85a..8481fd1 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -1279,7 +1279,7 @@ class InflationEquations(Equations, ABC):
             N2e3 = interp1d(_N, e3)
             e3 = N2e3(sol._N_cross)
             alpha = 2 - np.log(2) - np.euler_gamma
-            Z = zeta(3) / 3 * 7  # factor 7 matches Auclair & Ringeval (2022) and matches LLMS
+            Z = zeta(3)
 
             # Auclair & Ringeval (2022), eq. (54)
             # Ballardini, Davoli, and Sirletti (2025), eq. (45) or eq. (C.2)
@@ -1298,12 +1298,12 @@ class InflationEquations(Equations, ABC):
                 + (-12 * alpha**2 + pi**2) / 24 * e2 * e3
             )
             as0_3 = (
-                - (-16 + 24 * alpha - 4*alpha**3 - 3*alpha*pi**2 + 6*Z) / 24 * (8 * e1**3 + e2**3)
-                + (-72*alpha + 36*alpha**2 + 13*pi**2 + 8*alpha*pi**2 - 36*Z) / 12 * e1**2 * e2
-                - (16+24*alpha-12*alpha**2-8*alpha**3-15*pi**2-6*alpha*pi**2+84*Z) / 24 * e1*e2**2
-                + (16 + 4*alpha**3 - alpha*pi**2 - 24*Z) / 24 * (e2*e3**2 + e2 * e3 * e4)
+                - (-16 + 24 * alpha - 4*alpha**3 - 3*alpha*pi**2 + 14*Z) / 24 * (8 * e1**3 + e2**3)
+                + (-72*alpha + 36*alpha**2 + 13*pi**2 + 8*alpha*pi**2 - 84*Z) / 12 * e1**2 * e2
+                - (16+24*alpha-12*alpha**2-8*alpha**3-15*pi**2-6*alpha*pi**2+100*Z) / 24 * e1*e2**2
+                + (16 + 4*alpha**3 - alpha*pi**2 - 8*Z) / 24 * (e2*e3**2 + e2 * e3 * e4)
                 + (48*alpha - 12*alpha**3 - 5*alpha*pi**2) / 24 * e2**2 * e3
-                + (-8+72*alpha-12*alpha**2-8*alpha**3+pi**2-6*alpha*pi**2-24*Z) / 12 * e1 * e2 * e3
+                + (-8+72*alpha-12*alpha**2-8*alpha**3+pi**2-6*alpha*pi**2-8*Z) / 12 * e1 * e2 * e3
             )
             as1_1 = (
                 -2 * e1 - e2
@@ -1342,11 +1342,11 @@ class InflationEquations(Equations, ABC):
                 + (-2 + 2 * alpha - alpha**2 + pi**2 / 12) * e1 * e2
             )
             at0_3 = (
-                # -1/3 * (-16 + 24*alpha - 4*alpha**3 - 3*alpha*pi**2 + 6*Z) * e1**3
-                - 1/3 * (-16 + 24*alpha - 4*alpha**3 - 3*alpha*pi**2 + 6*Z) * e1**3
+                # -1/3 * (-16 + 24*alpha - 4*alpha**3 - 3*alpha*pi**2 + 14*Z) * e1**3
+                - 1/3 * (-16 + 24*alpha - 4*alpha**3 - 3*alpha*pi**2 + 14*Z) * e1**3
                 + 1/12 * (-96+72*alpha+36*alpha**2-24*alpha**3+13*pi**2-10*alpha*pi**2) * e1**2*e2
                 - 1/12 * (8 - 24 * alpha + 12 * alpha**2 - 4 * alpha**3 - pi**2
-                          + alpha * pi**2 + 24 * Z) * (e1 * e2**2 + e1 * e2 * e3)
+                          + alpha * pi**2 + 8 * Z) * (e1 * e2**2 + e1 * e2 * e3)
             )
             at1_1 = -2 * e1
             at1_2 = 2 * (-2 * alpha + 1) * e1**2 + (-2 + 2 * alpha) * e1 * e2
-- 
2.43.0


From 8627c96f05944ecb51c1d21f664fad19fb56627e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:31 +0000
Subject: [PATCH 11/16] fix: shooting trials without an end of inflation no
 longer compare an empty array for truth

---
 primpy/initialconditions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/primpy/initialconditions.py b/primpy/initialconditions.py
index 8aef2fd..5abc77f 100644
--- a/primpy/initialconditions.py
+++ b/primpy/initialconditions.py
@@ -212,7 +212,7 @@ class ISIC_Nt(InflationStartIC):
                 self.vprint("N_tot > %g for phi_i = %.15g" % (self.N_tot, phi_i))
                 return sol._N[-1] - ic.N_i
             elif (np.size(sol._N_events['Collapse']) > 0 or
-                  sol._N_events['Inflation_dir-1_term1'] == sol._N[0]):
+                  np.any(sol._N_events['Inflation_dir-1_term1'] == sol._N[0])):
                 self.vprint("N_tot = %g for phi_i = %.15g" % (sol.N_tot, phi_i))
                 return 0 - self.N_tot
             elif 'step size' in sol.message:
@@ -293,12 +293,12 @@ class ISIC_NsOk(InflationStartIC):
                 self.vprint("N_tot > %g for phi_i = %.15g" % (self.N0, phi_i))
                 return sol._N[-1]
             elif (np.size(sol._N_events['Collapse']) > 0 or sol.N_tot <= self.N_star or
-                  sol._N_events['Inflation_dir-1_term1'] == sol._N[0]):
+                  np.any(sol._N_events['Inflation_dir-1_term1'] == sol._N[0])):
                 self.vprint("N_tot = %g for phi_i = %.15g" % (sol.N_tot, phi_i))
                 if sol.N_tot <= self.N_star:
                     self.vwarn(InflationWarning("Insufficient inflation: N_tot = %g < %g = N_star"
                                                 % (sol.N_tot, self.N_star)))
-                elif sol._N_events['Inflation_dir-1_term1'] == sol._N[0]:
+                elif np.any(sol._N_events['Inflation_dir-1_term1'] == sol._N[0]):
                     self.vwarn(InflationWarning("Universe has ended early: _N[0]=%g, _N_events=%s"
                                                 % (sol._N[0], sol._N_events)))
                 return 0 - self.N_star
-- 
2.43.0


From 33a7fdae2df06f5ba1997ca899d60ba85a4b5042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:30 +0000
Subject: [PATCH 12/16] fix: feature power spectra default to no running of the
 tensor index, as the power-law one does

---
 cobaya_wrapper/feature_pps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cobaya_wrapper/feature_pps.py b/cobaya_wrapper/feature_pps.py
index 341d3ae..98d73d8 100644
--- a/cobaya_wrapper/feature_pps.py
+++ b/cobaya_wrapper/feature_pps.py
@@ -33,7 +33,7 @@ class LogOscillationPPS(ExternalPrimordialPowerSpectrum):
         n_runrun = params_values_dict.get('n_runrun', 0)
         A_t = params_values_dict.get('A_t', 0)
         n_t = params_values_dict.get('n_t', None)
-        n_t_run = params_values_dict.get('n_t_run', None)
+        n_t_run = params_values_dict.get('n_t_run', 0)
         r = params_values_dict.get('r', A_t/A_s)
         A_log = params_values_dict.get('A_log', 0)
         w_log = params_values_dict.get('w_log', None)
@@ -86,7 +86,7 @@ class LinOscillationPPS(ExternalPrimordialPowerSpectrum):
         n_runrun = params_values_dict.get('n_runrun', 0)
         A_t = params_values_dict.get('A_t', 0)
         n_t = params_values_dict.get('n_t', None)
-        n_t_run = params_values_dict.get('n_t_run', None)
+        n_t_run = params_values_dict.get('n_t_run', 0)
         r = params_values_dict.get('r', A_t/A_s)
         A_lin = params_values_dict.get('A_lin', 0)
         w_lin = params_values_dict.get('w_lin', None)
@@ -139,7 +139,7 @@ class CutoffPPS(ExternalPrimordialPowerSpectrum):
         n_runrun = params_values_dict.get('n_runrun', 0)
         A_t = params_values_dict.get('A_t', 0)
         n_t = params_values_dict.get('n_t', None)
-        n_t_run = params_values_dict.get('n_t_run', None)
+        n_t_run = params_values_dict.get('n_t_run', 0)
         r = params_values_dict.get('r', A_t/A_s)
         k_cut = params_values_dict.get('k_cut', 1e-3)
         s_cut = params_values_dict.get('s_cut', 2)
-- 
2.43.0


From 6f86369f3204da1f997ff5fba582ba9013f1dd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:30 +0000
Subject: [PATCH 13/16] fix: oscillation power spectra without frequency or
 phase no longer fail with a TypeError

---
 cobaya_wrapper/feature_pps.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cobaya_wrapper/feature_pps.py b/cobaya_wrapper/feature_pps.py
index 98d73d8..b7ebe0a 100644
--- a/cobaya_wrapper/feature_pps.py
+++ b/cobaya_wrapper/feature_pps.py
@@ -36,8 +36,8 @@ class LogOscillationPPS(ExternalPrimordialPowerSpectrum):
         n_t_run = params_values_dict.get('n_t_run', 0)
         r = params_values_dict.get('r', A_t/A_s)
         A_log = params_values_dict.get('A_log', 0)
-        w_log = params_values_dict.get('w_log', None)
-        p_log = params_values_dict.get('p_log', None)
+        w_log = params_values_dict.get('w_log', 0)
+        p_log = params_values_dict.get('p_log', 0)
 
         if n_t is None:
             # set from inflationary consistency
@@ -89,8 +89,8 @@ class LinOscillationPPS(ExternalPrimordialPowerSpectrum):
         n_t_run = params_values_dict.get('n_t_run', 0)
         r = params_values_dict.get('r', A_t/A_s)
         A_lin = params_values_dict.get('A_lin', 0)
-        w_lin = params_values_dict.get('w_lin', None)
-        p_lin = params_values_dict.get('p_lin', None)
+        w_lin = params_values_dict.get('w_lin', 0)
+        p_lin = params_values_dict.get('p_lin', 0)
 
         if n_t is None:
             # set from inflationary consistency
-- 
2.43.0


From 7488ffa17b72b5d20351b1d236f796fbf12d6204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:30 +0000
Subject: [PATCH 14/16] fix: reheating is rejected above the energy density at
 the end of inflation, not a third of it

---
 cobaya_wrapper/slowroll_pps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cobaya_wrapper/slowroll_pps.py b/cobaya_wrapper/slowroll_pps.py
index a6f5d23..498b0d4 100644
--- a/cobaya_wrapper/slowroll_pps.py
+++ b/cobaya_wrapper/slowroll_pps.py
@@ -65,8 +65,8 @@ class SlowRollPPS(ExternalPrimordialPowerSpectrum):
                       atol=1e-18, rtol=2.22045e-14, method='DOP853')
             if not b.success:
                 raise StepSizeError(b.message)
-            rho_end_GeV = (1/3 * (1/2 * b.dphidt[b.inflation_mask][-1]**2
-                                  + b.potential.V(b.phi[b.inflation_mask][-1]))
+            rho_end_GeV = ((1/2 * b.dphidt[b.inflation_mask][-1]**2
+                            + b.potential.V(b.phi[b.inflation_mask][-1]))
                            * mp_GeV / lp_iGeV**3)**(1/4)
             if rho_reh_GeV is not None and rho_reh_GeV > rho_end_GeV:
                 raise PrimpyError(f"Unrealistic reheating scenario with rho_reh={rho_reh_GeV}.")
-- 
2.43.0


From c4de863d48a3c2b16edc3bb0f1bd301683a56f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:47 +0000
Subject: [PATCH 15/16] fix: shooting trials use the integration method
 requested of solve, not always RK45

---
 primpy/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/primpy/solver.py b/primpy/solver.py
index dac0052..43b0577 100644
--- a/primpy/solver.py
+++ b/primpy/solver.py
@@ -33,7 +33,7 @@ def solve(ic, *args, **kwargs):
     method = kwargs.pop('method', 'RK45')
     rtol = kwargs.pop('rtol', 1e-10)
     atol = kwargs.pop('atol', 1e-12)
-    ic(y0=y0, rtol=rtol, atol=atol, **kwargs)
+    ic(y0=y0, method=method, rtol=rtol, atol=atol, **kwargs)
     sol = integrate.solve_ivp(ic.equations, (ic.x_ini, ic.x_end), y0, events=events,
                               method=method, rtol=rtol, atol=atol, *args, **kwargs)
     sol.event_keys = [e.name for e in events]
-- 
2.43.0


From f6fa817aa0cec02439e0ac30d70b721ff015ec86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:47 +0000
Subject: [PATCH 16/16] fix: conformal time ratio uses the calibrated scale
 factor, also for flat universes

---
 primpy/bigbang.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/primpy/bigbang.py b/primpy/bigbang.py
index 560e3f7..80135ef 100644
--- a/primpy/bigbang.py
+++ b/primpy/bigbang.py
@@ -286,10 +286,11 @@ def conformal_time_ratio(Omega_m0, Omega_K0, h, b_forward, b_backward=None):
     else:
         eta_beg = b_backward.eta[-1]
     eta_end = b_forward.eta[-1]
-    conformal_time_before = eta_end - eta_beg
+    # rescale from the uncalibrated `_N` of the integration to the calibrated `N`
+    conformal_time_before = (eta_end - eta_beg) * np.exp(-b_forward.delta_N_calib)
 
     # after (from the end of inflation until today)
-    conformal_time_after = conformal_time(N_start=b_forward._N_end,
+    conformal_time_after = conformal_time(N_start=b_forward.N_end,
                                           N=np.log(b_forward.a0),
                                           Omega_m0=Omega_m0,
                                           Omega_K0=Omega_K0,
-- 
2.43.0

