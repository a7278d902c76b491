From af9f587f1ebce5806c60e4c7e07ce71e97335edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:06 +0000
Subject: [PATCH 01/92] fix: recompute the RAMBO starting scale factor when cme
 or masses are reassigned

---
 hazma/phase_space/_rambo.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hazma/phase_space/_rambo.py b/hazma/phase_space/_rambo.py
index 389e158..18a63ba 100644
--- a/hazma/phase_space/_rambo.py
+++ b/hazma/phase_space/_rambo.py
@@ -65,7 +65,7 @@ class Rambo(AbstractPhaseSpaceIntegrator, AbstractPhaseSpaceGenerator):
         self.__msqrd: Optional[SquaredMatrixElement] = msqrd
 
         self.__n = n
-        self.__xi0 = np.sqrt(1.0 - (np.sum(ms) / cme) ** 2)
+        self.__xi0 = self._compute_initial_scale_factor()
         self.__base_wgt = self._compute_base_weight()
 
         self.__rng = np.random.default_rng()
@@ -82,6 +82,7 @@ class Rambo(AbstractPhaseSpaceIntegrator, AbstractPhaseSpaceGenerator):
     @cme.setter
     def cme(self, val) -> None:
         self.__cme = val
+        self.__xi0 = self._compute_initial_scale_factor()
         self.__base_wgt = self._compute_base_weight()
 
     @property
@@ -95,6 +96,7 @@ class Rambo(AbstractPhaseSpaceIntegrator, AbstractPhaseSpaceGenerator):
     def masses(self, masses: npt.NDArray) -> None:
         self.__n = len(masses)
         self.__masses = np.array(masses).reshape((self.__n, 1))
+        self.__xi0 = self._compute_initial_scale_factor()
         self.__base_wgt = self._compute_base_weight()
 
     @property
@@ -104,6 +106,12 @@ class Rambo(AbstractPhaseSpaceIntegrator, AbstractPhaseSpaceGenerator):
         """
         return self.__msqrd
 
+    def _compute_initial_scale_factor(self) -> float:
+        """
+        Compute the starting point of the scale-factor iteration.
+        """
+        return np.sqrt(1.0 - (np.sum(self.__masses) / self.__cme) ** 2)
+
     def _compute_base_weight(self) -> float:
         """
         Compute the starting weight for each phase space point.
-- 
2.43.0


From da338f12a5adcf454f193fe9e8d39b0a7e5bb7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 02/92] fix: make the RAMBO mass-shell iteration converge at
 every energy scale

---
 hazma/phase_space/_rambo.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/hazma/phase_space/_rambo.py b/hazma/phase_space/_rambo.py
index 18a63ba..ec2459e 100644
--- a/hazma/phase_space/_rambo.py
+++ b/hazma/phase_space/_rambo.py
@@ -204,7 +204,7 @@ class Rambo(AbstractPhaseSpaceIntegrator, AbstractPhaseSpaceGenerator):
 
         return ps
 
-    def _compute_scale_factor(self, ps: np.ndarray, iterations=5) -> np.ndarray:
+    def _compute_scale_factor(self, ps: np.ndarray, iterations=20) -> np.ndarray:
         """
         Compute the scale factor needed to correct the masses of the final
         state particle momenta.
@@ -229,6 +229,9 @@ class Rambo(AbstractPhaseSpaceIntegrator, AbstractPhaseSpaceGenerator):
         xi = xi0 * np.ones((shape[-1],))
         it = 0
         last = False
+        # The residual is an energy, so "small" is relative to the available
+        # kinetic energy, not to one MeV.
+        tol = np.sqrt(self.__eps) * (cme - np.sum(self.__masses))
 
         while not last:
             deltaf = np.hypot(e * xi, self.__masses)
@@ -236,9 +239,9 @@ class Rambo(AbstractPhaseSpaceIntegrator, AbstractPhaseSpaceGenerator):
             df = np.sum(xi * e**2 / deltaf, axis=0)
             xi = xi - f / df
 
-            # Newton iterations have quadratic convergence. If we are below sqrt(eps),
-            # do only one more iteration
-            if np.max(f) < np.sqrt(self.__eps) or it == iterations - 1:
+            # Newton iterations have quadratic convergence. If we are below the
+            # tolerance, no further iteration is needed.
+            if np.max(np.abs(f)) < tol or it == iterations - 1:
                 last = True
 
             it = it + 1
-- 
2.43.0


From 4f2793bf09cf1d037c8306a155186d899089fe64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 03/92] fix: accumulate batched RAMBO histograms in floating
 point

---
 hazma/phase_space/_rambo.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/hazma/phase_space/_rambo.py b/hazma/phase_space/_rambo.py
index ec2459e..4717090 100644
--- a/hazma/phase_space/_rambo.py
+++ b/hazma/phase_space/_rambo.py
@@ -592,9 +592,7 @@ class Rambo(AbstractPhaseSpaceIntegrator, AbstractPhaseSpaceGenerator):
         ebounds = energy_limits(self.cme, self.masses)  # type: ignore
         bins = [np.linspace(emin, emax, nbins + 1) for emin, emax in ebounds]
 
-        distributions = [
-            np.histogram(np.zeros(nbins, dtype=np.float64), bins=b)[0] for b in bins
-        ]
+        distributions = [np.zeros(nbins, dtype=np.float64) for _ in bins]
 
         if batch_size is not None and not batch_size == n:
             # Build up the distributions from batches
@@ -661,9 +659,7 @@ class Rambo(AbstractPhaseSpaceIntegrator, AbstractPhaseSpaceGenerator):
 
         bins = [make_bins(pair) for pair in pairs]
 
-        distributions = [
-            np.histogram(np.zeros(nbins, dtype=np.float64), bins=b)[0] for b in bins
-        ]
+        distributions = [np.zeros(nbins, dtype=np.float64) for _ in bins]
 
         if batch_size is not None and not batch_size == n:
             # Build up the distributions from batches
-- 
2.43.0


From c9d1b7638330c6c15a55d2b90dc05e017e1f646e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 04/92] fix: the default flat squared matrix element is one for
 arrays too

---
 hazma/phase_space/_three_body.py | 4 ++--
 hazma/phase_space/_two_body.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hazma/phase_space/_three_body.py b/hazma/phase_space/_three_body.py
index e351d61..c02ecef 100644
--- a/hazma/phase_space/_three_body.py
+++ b/hazma/phase_space/_three_body.py
@@ -35,9 +35,9 @@ def _msqrd_flat(s, t):
         return 1.0
 
     if scalar_s:
-        return np.zeros_like(t)
+        return np.ones_like(t)
 
-    return np.zeros_like(s)
+    return np.ones_like(s)
 
 
 def _mandelstam_to_momenta(s, t, q: float, masses: Tuple[float, float, float]):
diff --git a/hazma/phase_space/_two_body.py b/hazma/phase_space/_two_body.py
index 4cbe51c..d3eafa6 100644
--- a/hazma/phase_space/_two_body.py
+++ b/hazma/phase_space/_two_body.py
@@ -16,7 +16,7 @@ def _msqrd_flat(z):
     if np.isscalar(z):
         return 1.0
 
-    return np.zeros_like(z)
+    return np.ones_like(z)
 
 
 class TwoBody(AbstractPhaseSpaceIntegrator):
-- 
2.43.0


From 7b21f8afff2018bfbc70ee4f2c956934d210dcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 05/92] fix: reassigning ThreeBody.msqrd with a momenta
 signature takes effect

---
 hazma/phase_space/_three_body.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hazma/phase_space/_three_body.py b/hazma/phase_space/_three_body.py
index c02ecef..1cce74f 100644
--- a/hazma/phase_space/_three_body.py
+++ b/hazma/phase_space/_three_body.py
@@ -176,6 +176,9 @@ class ThreeBody(AbstractPhaseSpaceIntegrator):
     @msqrd.setter
     def msqrd(self, fn) -> None:
         r"""Squared matrix element of the proccess."""
+        if self.__original_msqrd is not None:
+            # The signature chosen at construction is 'momenta'.
+            self.__original_msqrd = fn
         self.__msqrd = fn
         self.__update_msqrd()
 
-- 
2.43.0


From 4e32a94c6a927a7323e3997f2e62b1d95afa0a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 06/92] fix: temperature derivative of the bosonic equilibrium
 density had the wrong sign

---
 hazma/relic_density/_thermal_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hazma/relic_density/_thermal_functions.py b/hazma/relic_density/_thermal_functions.py
index f9d2760..d7f41be 100644
--- a/hazma/relic_density/_thermal_functions.py
+++ b/hazma/relic_density/_thermal_functions.py
@@ -232,6 +232,7 @@ def neq_deriv(
     else:
         # use sum-over-bessel function representation of neq
         # nbar = x^2 sum_n (\pm 1)^{n+1}/n k_2(nx)
+        # dnbar = -x^2 sum_n (\pm 1)^{n+1} k_1(nx)
         eta = -1 if is_fermion else 1
         xs = mass / Ts
         # perform a reshape is `x` is an array so we properly sum over ns
@@ -240,7 +241,7 @@ def neq_deriv(
             if hasattr(Ts, "__len__")
             else np.array([1, 2, 3, 4, 5])
         )
-        dnbar = xs**2 * np.sum(eta**ns * k1(ns * xs), axis=0) / (2.0 * np.pi**2)
+        dnbar = -(xs**2) * np.sum(eta ** (ns + 1) * k1(ns * xs), axis=0) / (2.0 * np.pi**2)
         nbar = (
             xs**2
             * np.sum(eta ** (ns + 1) / ns * kn(2, ns * xs), axis=0)
-- 
2.43.0


From 118eeed4240e6765eca66d3bc5a78478e41b6508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 07/92] fix: integrate the thermal average over its physical
 range for x > 25

---
 hazma/relic_density/_thermal_functions.py           | 4 +++-
 hazma/vector_mediator/_gev/thermal_cross_section.py | 9 ++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/hazma/relic_density/_thermal_functions.py b/hazma/relic_density/_thermal_functions.py
index d7f41be..75f3776 100644
--- a/hazma/relic_density/_thermal_functions.py
+++ b/hazma/relic_density/_thermal_functions.py
@@ -479,8 +479,10 @@ def thermal_cross_section(x: float, model) -> float:
         * quad(
             thermal_cross_section_integrand,
             2.0,
-            50.0 / x,
+            # The integrand falls like exp(-x (z - 2)) above threshold.
+            2.0 + 50.0 / x,
             args=(x, model),
+            epsabs=0.0,
             points=[2.0],
         )[0]
     )
diff --git a/hazma/vector_mediator/_gev/thermal_cross_section.py b/hazma/vector_mediator/_gev/thermal_cross_section.py
index 37bea26..3c7c515 100644
--- a/hazma/vector_mediator/_gev/thermal_cross_section.py
+++ b/hazma/vector_mediator/_gev/thermal_cross_section.py
@@ -140,7 +140,14 @@ def relic_density(
             return 0.0
 
         pf = x / (2.0 * special.kn(2, x)) ** 2
-        return pf * integrate.quad(integrand, 2.0, 50.0 / x, points=[2.0], args=(x,))[0]
+        # The integrand falls like exp(-x (z - 2)) above threshold.
+        upper = 2.0 + 50.0 / x
+        return (
+            pf
+            * integrate.quad(
+                integrand, 2.0, upper, points=[2.0], args=(x,), epsabs=0.0
+            )[0]
+        )
 
     model = VectorMediatorGeVRelicDensity(
         mx=self.mx, thermal_cross_section=thermal_cross_section
-- 
2.43.0


From ffc018889749fbe6e20ee1d12c40a82c2e9424d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:55 +0000
Subject: [PATCH 08/92] fix: refine the freeze-out integral of the
 semi-analytic relic density

---
 hazma/relic_density/_approx.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hazma/relic_density/_approx.py b/hazma/relic_density/_approx.py
index 12469a7..c8896dd 100644
--- a/hazma/relic_density/_approx.py
+++ b/hazma/relic_density/_approx.py
@@ -96,4 +96,5 @@ def compute_alpha(model, xstar: float) -> float:
     def integrand(x):
         return sm_sqrt_gstar(model.mx / x) * thermal_cross_section(x, model) / x**2
 
-    return pf * integrate.quad(integrand, xstar, 100 * xstar)[0]
+    # The integrand is of order 1e-17, far below the default `epsabs`.
+    return pf * integrate.quad(integrand, xstar, 100 * xstar, epsabs=0.0)[0]
-- 
2.43.0


From 9e0815f049c6c765a21ab7c026787113caf9b28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:20 +0000
Subject: [PATCH 09/92] fix: galactic-center background reports its exponential
 index in params

---
 hazma/gamma_ray_parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/gamma_ray_parameters.py b/hazma/gamma_ray_parameters.py
index b1f7a20..2748689 100644
--- a/hazma/gamma_ray_parameters.py
+++ b/hazma/gamma_ray_parameters.py
@@ -1151,7 +1151,7 @@ class GalacticCenterBackgroundModel(ParametricBackgroundModel):
             "galactic_amplitude": self._galactic_amplitude,
             "galactic_power_law_index": self._galactic_power_law_index,
             "galactic_exponential_cutoff": self._galactic_exponential_cutoff,
-            "galactic_exponential_index": self._galactic_exponential_cutoff,
+            "galactic_exponential_index": self._galactic_exponential_index,
             "extra_galactic_amplitude": self._extra_galactic_amplitude,
             "extra_galactic_power_law_index": self._extra_galactic_power_law_index,
         }
-- 
2.43.0


From b02ba7e82f1dbb776f4053c0614c030e25375321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:20 +0000
Subject: [PATCH 10/92] fix: sign of the GECCO background's power-law index
 derivative

---
 hazma/gamma_ray_parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/gamma_ray_parameters.py b/hazma/gamma_ray_parameters.py
index 2748689..02a7302 100644
--- a/hazma/gamma_ray_parameters.py
+++ b/hazma/gamma_ray_parameters.py
@@ -1324,6 +1324,6 @@ class GeccoBackgroundModel:
         alpha = self.power_law_index
 
         dn = energy ** (-alpha)
-        da = amp * energy ** (-alpha) * np.log(energy)
+        da = -amp * energy ** (-alpha) * np.log(energy)
 
         return {"amplitude": dn, "power_law_index": da}
-- 
2.43.0


From c274d10ad4a26a0320b81d4864f510664d51db25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:20 +0000
Subject: [PATCH 11/92] fix: Fisher matrix background derivatives include the
 solid angle

---
 hazma/theory/_theory_gamma_ray_limits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/theory/_theory_gamma_ray_limits.py b/hazma/theory/_theory_gamma_ray_limits.py
index 0e6ba5f..c37d942 100644
--- a/hazma/theory/_theory_gamma_ray_limits.py
+++ b/hazma/theory/_theory_gamma_ray_limits.py
@@ -349,7 +349,7 @@ def fisher(
         return background_model.dPhi_dEdOmega(energy) * dOmega
 
     def dphi_b(energy, key):
-        return background_model.derivatives(energy)[key]
+        return background_model.derivatives(energy)[key] * dOmega
 
     dphi = {key: functools.partial(dphi_b, key=key) for key in background_model.params}
     dphi["rate"] = lambda e: phi_s(e)  # type: ignore
-- 
2.43.0


From a70456dd4aa8337b5c5f04df3c6645ce375a37ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:20 +0000
Subject: [PATCH 12/92] fix: FluxMeasurement no longer rescales the caller's
 flux array in place

---
 hazma/flux_measurement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/flux_measurement.py b/hazma/flux_measurement.py
index 9347f28..42b6135 100644
--- a/hazma/flux_measurement.py
+++ b/hazma/flux_measurement.py
@@ -74,7 +74,7 @@ class FluxMeasurement:
         self._e_bins = 0.5 * (self.e_lows + self.e_highs)
 
         # E^2 dN/dE -> dN/dE
-        self.fluxes /= self._e_bins**power
+        self.fluxes = self.fluxes / self._e_bins**power
 
         # Compute upper and lower error bars
         self.upper_errors = self.upper_errors / self._e_bins**power - self.fluxes
-- 
2.43.0


From bbeea842cf90efc1249e31a3a59c0f9036ec915b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:20 +0000
Subject: [PATCH 13/92] fix: CMBLimit evaluates f_eff for the model being
 constrained

---
 hazma/limits/_cmb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/limits/_cmb.py b/hazma/limits/_cmb.py
index b09db71..e0d59f4 100644
--- a/hazma/limits/_cmb.py
+++ b/hazma/limits/_cmb.py
@@ -108,7 +108,7 @@ class CMBLimit(AbstractLimit):
         <sigma v> : float
             Upper bound on <sigma v>, in cm^3 s^-1.
         """
-        return self.p_ann * model.mx / self.f_eff(self.x_kd)  # type: ignore
+        return self.p_ann * model.mx / self.f_eff(model)  # type: ignore
 
     def _f_eff_helper(self, model, fs, mode="quad"):
         """Computes f_eff^gg or f_eff^ep for DM annihilation.
@@ -131,7 +131,7 @@ class CMBLimit(AbstractLimit):
             f_eff for photons or electrons and positrons.
         """
         # Center of mass energy
-        vx = self.vx_cmb(model.mx, self.x_kd) ** 2
+        vx = self.vx_cmb(model.mx, self.x_kd)
         e_cm = 2.0 * model.mx * (1.0 + 0.5 * vx**2)
 
         if fs == "g g":
-- 
2.43.0


From 8487a27634cd5b81cca6d9eb632264382896c6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:20 +0000
Subject: [PATCH 14/92] fix: temperature of the CMB velocity is converted to eV
 with 1e6

---
 hazma/cmb.py         | 2 +-
 hazma/limits/_cmb.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/cmb.py b/hazma/cmb.py
index e493f92..0e6669d 100644
--- a/hazma/cmb.py
+++ b/hazma/cmb.py
@@ -50,4 +50,4 @@ def vx_cmb(mx, x_kd):
     v_x : float
         The DM relative velocity at the time of CMB formation.
     """
-    return 2.0e-4 * 10e6 * temp_cmb_formation / mx * np.sqrt(1.0e-4 / x_kd)
+    return 2.0e-4 * 1e6 * temp_cmb_formation / mx * np.sqrt(1.0e-4 / x_kd)
diff --git a/hazma/limits/_cmb.py b/hazma/limits/_cmb.py
index e0d59f4..bfebf09 100644
--- a/hazma/limits/_cmb.py
+++ b/hazma/limits/_cmb.py
@@ -78,7 +78,7 @@ class CMBLimit(AbstractLimit):
         v_x : float
             The DM relative velocity at the time of CMB formation.
         """
-        return 2.0e-4 * 10e6 * temp_cmb_formation / mx * np.sqrt(1.0e-4 / x_kd)
+        return 2.0e-4 * 1e6 * temp_cmb_formation / mx * np.sqrt(1.0e-4 / x_kd)
 
     def _constrain(self, model):
         r"""
-- 
2.43.0


From 93ac2ce9ca37e5aeac93779c1a1ea5828c92519f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:20 +0000
Subject: [PATCH 15/92] fix: composite constrainers no longer share one default
 list

---
 hazma/limits/_abstract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/limits/_abstract.py b/hazma/limits/_abstract.py
index e34b811..6dbb171 100644
--- a/hazma/limits/_abstract.py
+++ b/hazma/limits/_abstract.py
@@ -45,8 +45,8 @@ class AbstractLimit(abc.ABC):
 
 
 class CompositeConstrainer(abc.ABC):
-    def __init__(self, constrainers=[]):
-        self._constrainers = constrainers
+    def __init__(self, constrainers=()):
+        self._constrainers = list(constrainers)
 
     def add_constrainer(self, constrainer):
         self._constrainers.append(constrainer)
-- 
2.43.0


From b742ea46a1cdcf415900a79c869af9eeeb79b2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:20 +0000
Subject: [PATCH 16/92] fix: decaying-theory positron spectra use each final
 state's own function

---
 hazma/theory/__init__.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/hazma/theory/__init__.py b/hazma/theory/__init__.py
index 427e962..fbb27dc 100644
--- a/hazma/theory/__init__.py
+++ b/hazma/theory/__init__.py
@@ -601,15 +601,14 @@ class TheoryDec(TheoryGammaRayLimits, TheoryCMB, TheoryConstrain):
         widths = self.decay_widths()
         dndes_wrapped = {}
 
-        for fs, dnde in self._positron_spectrum_funcs().items():
-
-            def dnde_wrapped(e_ps):
-                if widths[fs] > 0:
-                    return dnde(e_ps)
-                else:
-                    return np.zeros_like(e_ps)
+        def dnde_null(e_ps):
+            return np.zeros_like(e_ps)
 
-            dndes_wrapped[fs] = dnde_wrapped
+        for fs, dnde in self._positron_spectrum_funcs().items():
+            if widths[fs] > 0:
+                dndes_wrapped[fs] = dnde
+            else:
+                dndes_wrapped[fs] = dnde_null
 
         return dndes_wrapped
 
-- 
2.43.0


From 1792b97424feabb1d2fb7413de10671ef942f444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:20 +0000
Subject: [PATCH 17/92] fix: TheoryAnn.spectra accepts any scalar or list when
 a channel is closed

---
 hazma/theory/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/theory/__init__.py b/hazma/theory/__init__.py
index fbb27dc..005ed3e 100644
--- a/hazma/theory/__init__.py
+++ b/hazma/theory/__init__.py
@@ -178,10 +178,10 @@ class TheoryAnn(TheoryGammaRayLimits, TheoryCMB, TheoryConstrain):
             if bfs[fs] != 0:
                 specs[fs] = bfs[fs] * dnde_func(e_gams, e_cm)
             else:
-                if type(e_gams) == float:
+                if np.ndim(e_gams) == 0:
                     specs[fs] = 0
                 else:
-                    specs[fs] = np.zeros(e_gams.shape)
+                    specs[fs] = np.zeros(np.shape(e_gams))
 
         specs["total"] = sum(specs.values())
 
-- 
2.43.0


From 09f90b788de61d9627a40a3cf1122a9c977067a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:20 +0000
Subject: [PATCH 18/92] fix: custom_constrain handles non-square parameter
 grids

---
 hazma/theory/_theory_constrain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/theory/_theory_constrain.py b/hazma/theory/_theory_constrain.py
index f2a1c4a..1b83df2 100644
--- a/hazma/theory/_theory_constrain.py
+++ b/hazma/theory/_theory_constrain.py
@@ -34,7 +34,7 @@ class TheoryConstrain:
 
         # Store the constraint images. Note that p1 and p2 must be swapped
         # so we can use Cartesian rather than matrix indexing.
-        imgs = {cn: np.zeros([n_rows, n_rows]) for cn in constraints.keys()}
+        imgs = {cn: np.zeros([n_rows, n_cols]) for cn in constraints.keys()}
 
         # Loop over the parameter grid
         for i in range(n_rows):
-- 
2.43.0


From 9beb067a5d47534ad589d4dc2537d53a7e7d42ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:20 +0000
Subject: [PATCH 19/92] fix: level-set contours map the last grid index to the
 last parameter value

---
 hazma/theory/_theory_constrain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/theory/_theory_constrain.py b/hazma/theory/_theory_constrain.py
index 1b83df2..0083164 100644
--- a/hazma/theory/_theory_constrain.py
+++ b/hazma/theory/_theory_constrain.py
@@ -206,8 +206,8 @@ class TheoryConstrain:
 
         # Convert from indices to values of p1 and p2
         for c in contours_raw:
-            p1s = c[:, 1] / len(p1_vals) * (p1_vals[-1] - p1_vals[0]) + p1_vals[0]
-            p2s = c[:, 0] / len(p2_vals) * (p2_vals[-1] - p2_vals[0]) + p2_vals[0]
+            p1s = c[:, 1] / (len(p1_vals) - 1) * (p1_vals[-1] - p1_vals[0]) + p1_vals[0]
+            p2s = c[:, 0] / (len(p2_vals) - 1) * (p2_vals[-1] - p2_vals[0]) + p2_vals[0]
             contours.append(np.array([p1s, p2s]))
 
         return contours
-- 
2.43.0


From 278258ae5e395ad50d7f5c76798b3dd0016e80a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:20 +0000
Subject: [PATCH 20/92] fix: convert_sigmav accepts its documented target unit

---
 hazma/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/parameters.py b/hazma/parameters.py
index beba99d..4dadea8 100644
--- a/hazma/parameters.py
+++ b/hazma/parameters.py
@@ -370,7 +370,7 @@ def convert_sigmav(sv, target):
     # hbar^2 c^3 in units of MeV^2 cm^3 / s
     hbar2_c3 = (3.0e10) ** 3 * (6.58e-22) ** 2
 
-    if target == "cm^3 / s":
+    if target in ("cm^3/s", "cm^3 / s"):
         return sv * hbar2_c3
     elif target == "MeV^-2":
         return sv / hbar2_c3
-- 
2.43.0


From cc674f402ee1e9f2a7d840de4786daa32005e029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 21/92] fix: RHNeutrino.flavor setter configured mu and tau as
 the wrong generation and neutrino label

---
 hazma/rh_neutrino/_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hazma/rh_neutrino/_model.py b/hazma/rh_neutrino/_model.py
index 8bc732c..6239098 100644
--- a/hazma/rh_neutrino/_model.py
+++ b/hazma/rh_neutrino/_model.py
@@ -106,10 +106,10 @@ class RHNeutrino(SingleRhNeutrinoModel, TheoryDec):
             self._vstr = "ve"
         elif val == "mu":
             self.__gen = Generation.Snd
-            self._vstr = "vmu"
+            self._vstr = "vm"
         elif val == "tau":
-            self.__gen = Generation.Snd
-            self._vstr = "vmu"
+            self.__gen = Generation.Trd
+            self._vstr = "vt"
         else:
             raise ValueError(f"Invalid lepton {val}. Use 'e', 'mu', or 'tau'")
 
-- 
2.43.0


From 47f7135f383cff3473b50c95e07c2bed1db157d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 22/92] fix: RHNeutrino line tables used final-state names that
 are not decay channels

---
 hazma/rh_neutrino/_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hazma/rh_neutrino/_model.py b/hazma/rh_neutrino/_model.py
index 6239098..94b1889 100644
--- a/hazma/rh_neutrino/_model.py
+++ b/hazma/rh_neutrino/_model.py
@@ -226,7 +226,7 @@ class RHNeutrino(SingleRhNeutrinoModel, TheoryDec):
         Returns dict of final states and photon energies for final states
         containing monochromatic gamma ray lines.
         """
-        return {"nu g": self.mx / 2.0}
+        return {f"{self._vstr} a": self.mx / 2.0}
 
     def _positron_spectrum_funcs(self) -> Dict[str, Callable]:
         """
@@ -238,9 +238,9 @@ class RHNeutrino(SingleRhNeutrinoModel, TheoryDec):
     def _positron_line_energies(self) -> Dict[str, float]:
         if self.flavor == "e":
             return {
-                "pi l": (self.mx**2 + self.ml**2 - sm_masses["pi"] ** 2)
+                "e pi": (self.mx**2 + self.ml**2 - sm_masses["pi"] ** 2)
                 / (2.0 * self.mx),
-                "k l": (self.mx**2 + self.ml**2 - sm_masses["k"] ** 2)
+                "e k": (self.mx**2 + self.ml**2 - sm_masses["k"] ** 2)
                 / (2.0 * self.mx),
             }
         return {}
@@ -261,7 +261,7 @@ class RHNeutrino(SingleRhNeutrinoModel, TheoryDec):
             lines[f"{vv} pi0"] = (mx**2 - sm_masses["pi0"] ** 2) / (2.0 * mx)
 
         if self.mx > sm_masses["eta"]:
-            lines[f"{vv} pi0"] = (mx**2 - sm_masses["eta"] ** 2) / (2.0 * mx)
+            lines[f"{vv} eta"] = (mx**2 - sm_masses["eta"] ** 2) / (2.0 * mx)
 
         lines[f"{vv} a"] = 0.5 * mx
         return lines
-- 
2.43.0


From 7c5180f11ceea25ec83fc4a7122b265d531c8bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 23/92] fix: VectorMediatorGeV setters refreshed the width
 cache from its own stale entry

---
 hazma/vector_mediator/_gev/model.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/hazma/vector_mediator/_gev/model.py b/hazma/vector_mediator/_gev/model.py
index 93c5c26..0658948 100644
--- a/hazma/vector_mediator/_gev/model.py
+++ b/hazma/vector_mediator/_gev/model.py
@@ -226,7 +226,7 @@ class VectorMediatorGeV(TheoryAnn):
     @mx.setter
     def mx(self, val: float) -> None:
         self._mx = val
-        self._width_cache["x x"]["value"] = self.width_v_to_x_x()
+        self._width_cache["x x"]["valid"] = False
 
     @mv.setter
     def mv(self, val: float) -> None:
@@ -285,7 +285,7 @@ class VectorMediatorGeV(TheoryAnn):
     @gvxx.setter
     def gvxx(self, val: float) -> None:
         self._gvxx = val
-        self._update_width_cache("x x", self.width_v_to_x_x())
+        self._width_cache["x x"]["valid"] = False
 
     @gvuu.setter
     def gvuu(self, val: float) -> None:
@@ -308,27 +308,27 @@ class VectorMediatorGeV(TheoryAnn):
     @gvee.setter
     def gvee(self, val: float) -> None:
         self._gvee = val
-        self._update_width_cache("e e", self.width_v_to_e_e())
+        self._width_cache["e e"]["valid"] = False
 
     @gvmumu.setter
     def gvmumu(self, val: float) -> None:
         self._gvmumu = val
-        self._update_width_cache("mu mu", self.width_v_to_mu_mu())
+        self._width_cache["mu mu"]["valid"] = False
 
     @gvveve.setter
     def gvveve(self, val: float) -> None:
         self._gvveve = val
-        self._update_width_cache("ve ve", self.width_v_to_ve_ve())
+        self._width_cache["ve ve"]["valid"] = False
 
     @gvvmvm.setter
     def gvvmvm(self, val: float) -> None:
         self._gvvmvm = val
-        self._update_width_cache("vm vm", self.width_v_to_vm_vm())
+        self._width_cache["vm vm"]["valid"] = False
 
     @gvvtvt.setter
     def gvvtvt(self, val: float) -> None:
         self._gvvtvt = val
-        self._update_width_cache("vt vt", self.width_v_to_vt_vt())
+        self._width_cache["vt vt"]["valid"] = False
 
     # ========================================================================
     # ---- Form Factors ------------------------------------------------------
-- 
2.43.0


From 9c46799e27fac31e83c5d555a84fb17d871638c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:15 +0000
Subject: [PATCH 24/92] fix: KineticMixingGeV.eps setter raised because it used
 the hidden coupling setters

---
 hazma/vector_mediator/_gev/model.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/hazma/vector_mediator/_gev/model.py b/hazma/vector_mediator/_gev/model.py
index 0658948..a53eb40 100644
--- a/hazma/vector_mediator/_gev/model.py
+++ b/hazma/vector_mediator/_gev/model.py
@@ -1141,11 +1141,13 @@ class KineticMixingGeV(VectorMediatorGeV):
     @eps.setter
     def eps(self, eps: float):
         self._eps = eps
-        self.gvuu = -Qu * eps * qe
-        self.gvdd = -Qd * eps * qe
-        self.gvss = -Qd * eps * qe
-        self.gvee = -Qe * eps * qe
-        self.gvmumu = -Qe * eps * qe
+        self._gvuu = -Qu * eps * qe
+        self._gvdd = -Qd * eps * qe
+        self._gvss = -Qd * eps * qe
+        self._gvee = -Qe * eps * qe
+        self._gvmumu = -Qe * eps * qe
+        self._couplings = VectorFormFactorCouplings(self._gvuu, self._gvdd, self._gvss)
+        self._invalidate_width_cache()
 
     def __cannot_set_error(self, param: str) -> AttributeError:
         return AttributeError(f"""
-- 
2.43.0


From 84373b95fb915c6c37b1d91dae8b5217e6a5fc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:15 +0000
Subject: [PATCH 25/92] fix: BLGeV.g setter left the form-factor couplings and
 width cache stale

---
 hazma/vector_mediator/_gev/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hazma/vector_mediator/_gev/model.py b/hazma/vector_mediator/_gev/model.py
index a53eb40..be9f043 100644
--- a/hazma/vector_mediator/_gev/model.py
+++ b/hazma/vector_mediator/_gev/model.py
@@ -1253,6 +1253,8 @@ class BLGeV(VectorMediatorGeV):
         self._gvveve = self._g * gl
         self._gvvmvm = self._g * gl
         self._gvvtvt = self._g * gl
+        self._couplings = VectorFormFactorCouplings(self._gvuu, self._gvdd, self._gvss)
+        self._invalidate_width_cache()
 
     @property
     def g(self) -> float:
-- 
2.43.0


From 13a8d3754adde9178bbf5b42b14aabe5b5e51f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:15 +0000
Subject: [PATCH 26/92] fix: VectorMediatorGeV.total_neutrino_spectrum returned
 the per-channel dictionary

---
 hazma/vector_mediator/_gev/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/vector_mediator/_gev/model.py b/hazma/vector_mediator/_gev/model.py
index be9f043..8998d7d 100644
--- a/hazma/vector_mediator/_gev/model.py
+++ b/hazma/vector_mediator/_gev/model.py
@@ -1076,8 +1076,8 @@ class VectorMediatorGeV(TheoryAnn):
         """
 
         if hasattr(energies, "__len__"):
-            return self.neutrino_spectra(energies, e_cm, flavor=flavor)
-        return self.neutrino_spectra(np.array([energies]), e_cm, flavor=flavor)
+            return self.neutrino_spectra(energies, e_cm, flavor=flavor)["total"]
+        return self.neutrino_spectra(np.array([energies]), e_cm, flavor=flavor)["total"]
 
 
 class KineticMixingGeV(VectorMediatorGeV):
-- 
2.43.0


From 4bd88ed6f8039cd4a263d5a40c94a213ca5fcf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:15 +0000
Subject: [PATCH 27/92] fix: VectorMediatorGeV.list_annihilation_final_states
 omitted the mediator pair

---
 hazma/vector_mediator/_gev/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hazma/vector_mediator/_gev/model.py b/hazma/vector_mediator/_gev/model.py
index 8998d7d..99caaa3 100644
--- a/hazma/vector_mediator/_gev/model.py
+++ b/hazma/vector_mediator/_gev/model.py
@@ -951,6 +951,7 @@ class VectorMediatorGeV(TheoryAnn):
             "pi k k0",
             "pi pi pi pi",
             "pi pi pi0 pi0",
+            "v v",
         ]
 
     # ========================================================================
-- 
2.43.0


From 84fa70b0d12c63d4598843113fe29505b10cb3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:40 +0000
Subject: [PATCH 28/92] fix: single-channel models returned nested dictionaries
 (and unknown photon names) for line energies

---
 hazma/single_channel.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/hazma/single_channel.py b/hazma/single_channel.py
index 0c213f0..a433871 100644
--- a/hazma/single_channel.py
+++ b/hazma/single_channel.py
@@ -94,12 +94,10 @@ class SingleChannelAnn(TheoryAnn):
                 (e_cm**2 - m1**2 + m2**2) / (2 * e_cm),
             ]
 
-            if s1 == "g" and s2 == "g":
-                lines[self.fs] = {"g g": energies[0]}
-            elif s1 == "g":
-                lines[self.fs] = {"g g": energies[0]}
-            elif s2 == "g":
-                lines[self.fs] = {"g g": energies[1]}
+            if s1 in ("a", "photon"):
+                lines[self.fs] = energies[0]
+            elif s2 in ("a", "photon"):
+                lines[self.fs] = energies[1]
 
         return lines
 
@@ -117,9 +115,9 @@ class SingleChannelAnn(TheoryAnn):
             ]
 
             if s1 == "e":
-                lines[self.fs] = {self.fs: energies[0]}
+                lines[self.fs] = energies[0]
             elif s2 == "e":
-                lines[self.fs] = {self.fs: energies[1]}
+                lines[self.fs] = energies[1]
 
         return lines
 
@@ -208,12 +206,10 @@ class SingleChannelDec(TheoryDec):
                 (mx**2 - m1**2 + m2**2) / (2 * mx),
             ]
 
-            if s1 == "g" and s2 == "g":
-                lines[self.fs] = {"g g": energies[0]}
-            elif s1 == "g":
-                lines[self.fs] = {"g g": energies[0]}
-            elif s2 == "g":
-                lines[self.fs] = {"g g": energies[1]}
+            if s1 in ("a", "photon"):
+                lines[self.fs] = energies[0]
+            elif s2 in ("a", "photon"):
+                lines[self.fs] = energies[1]
 
         return lines
 
@@ -232,9 +228,9 @@ class SingleChannelDec(TheoryDec):
             ]
 
             if s1 == "e":
-                lines[self.fs] = {self.fs: energies[0]}
+                lines[self.fs] = energies[0]
             elif s2 == "e":
-                lines[self.fs] = {self.fs: energies[1]}
+                lines[self.fs] = energies[1]
 
         return lines
 
-- 
2.43.0


From 43a658c51fae110094d64c509c369d2057007d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:40 +0000
Subject: [PATCH 29/92] fix: SingleChannelDec.fs setter left the final-state
 list stale

---
 hazma/single_channel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hazma/single_channel.py b/hazma/single_channel.py
index a433871..1d6a3ff 100644
--- a/hazma/single_channel.py
+++ b/hazma/single_channel.py
@@ -154,6 +154,8 @@ class SingleChannelDec(TheoryDec):
     @fs.setter
     def fs(self, fs: str) -> None:
         self._fs = fs
+        self._final_states = fs.split(" ")
+        self._fs_masses = list(map(lambda s: sm_masses[s], self._final_states))
 
     @property
     def mx(self) -> float:
-- 
2.43.0


From c609202449f71adaa3681b5bfbb4b0d4657961d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:51 +0000
Subject: [PATCH 30/92] fix: CMB efficiency integrands return scalars, so quad
 works for array-valued spectra

---
 hazma/limits/_cmb.py        | 2 +-
 hazma/theory/_theory_cmb.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/limits/_cmb.py b/hazma/limits/_cmb.py
index bfebf09..34aba0c 100644
--- a/hazma/limits/_cmb.py
+++ b/hazma/limits/_cmb.py
@@ -171,7 +171,7 @@ class CMBLimit(AbstractLimit):
             # If RAMBO is not needed to compute the spectrum, this will give
             # much cleaner results.
             def integrand(e):
-                return e * spec_fn(e, e_cm) * f_eff_base(e)  # type: ignore
+                return np.squeeze(e * spec_fn(e, e_cm) * f_eff_base(e))[()]  # type: ignore
 
             f_eff_dm = quad(integrand, e_min, e_cm / 2, epsabs=0, epsrel=1e-3)[0] / e_cm
 
diff --git a/hazma/theory/_theory_cmb.py b/hazma/theory/_theory_cmb.py
index 854d1dd..d22e3d2 100644
--- a/hazma/theory/_theory_cmb.py
+++ b/hazma/theory/_theory_cmb.py
@@ -100,7 +100,7 @@ class TheoryCMB:
             # If RAMBO is not needed to compute the spectrum, this will give
             # much cleaner results.
             def integrand(e):
-                return e * spec_fn(e, e_cm) * f_eff_base(e)  # type: ignore
+                return np.squeeze(e * spec_fn(e, e_cm) * f_eff_base(e))[()]  # type: ignore
 
             f_eff_dm = quad(integrand, e_min, e_cm / 2, epsabs=0, epsrel=1e-3)[0] / e_cm
 
-- 
2.43.0


From a01f824ec3cfa38fdb9a8b3f7dd34252ac35ffcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:23 +0000
Subject: [PATCH 31/92] fix: marginalising with a vectorized spectrum function
 raised for every input

---
 hazma/spectra/convolve.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hazma/spectra/convolve.py b/hazma/spectra/convolve.py
index 917029b..0b9e4a3 100644
--- a/hazma/spectra/convolve.py
+++ b/hazma/spectra/convolve.py
@@ -59,11 +59,13 @@ def make_marginal_fn(
     probs_ = np.expand_dims(np.array(probs), 1)
 
     if vectorized:
-        excluded = (0,) + tuple([i + 2 for i in range(len(args))])
+
+        def integrand(es, cms, *fargs):
+            return np.stack([np.ravel(dnde_fn(es[0], cme, *fargs)) for cme in cms[:, 0]])
+
     else:
         excluded = tuple([i + 2 for i in range(len(args))])
-
-    integrand = np.vectorize(dnde_fn, excluded=excluded)
+        integrand = np.vectorize(dnde_fn, excluded=excluded)
 
     if method == "trapz":
         integrator = np.trapezoid
-- 
2.43.0


From bfa415a793ce52800dc5caec6329ef1b1321fadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:23 +0000
Subject: [PATCH 32/92] fix: marginalisation accepts its documented 'trapezoid'
 method name

---
 hazma/spectra/convolve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/spectra/convolve.py b/hazma/spectra/convolve.py
index 0b9e4a3..3ece5b2 100644
--- a/hazma/spectra/convolve.py
+++ b/hazma/spectra/convolve.py
@@ -52,7 +52,7 @@ def make_marginal_fn(
         the center-of-mass energy. The returned function has the signature
         `marginalize(product_energies)`.
     """
-    methods = ["trapz", "simpson"]
+    methods = ["trapz", "trapezoid", "simpson"]
     assert method in methods
 
     cmes_ = np.expand_dims(np.array(cmes), 1)
@@ -67,7 +67,7 @@ def make_marginal_fn(
         excluded = tuple([i + 2 for i in range(len(args))])
         integrand = np.vectorize(dnde_fn, excluded=excluded)
 
-    if method == "trapz":
+    if method != "simpson":
         integrator = np.trapezoid
     else:
         integrator = integrate.simpson
-- 
2.43.0


From b73cc71c763d461af7ec21d47c8e8cf5337a257a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:32 +0000
Subject: [PATCH 33/92] fix: beam-dump constraint for mediators too heavy for
 the beam

A mediator at least as heavy as its assumed lab energy made the boost NaN and
tripped the event-count assertion; no such mediator can be produced.
---
 hazma/scalar_mediator/_scalar_mediator_constraints.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hazma/scalar_mediator/_scalar_mediator_constraints.py b/hazma/scalar_mediator/_scalar_mediator_constraints.py
index 506d2b1..bc71476 100644
--- a/hazma/scalar_mediator/_scalar_mediator_constraints.py
+++ b/hazma/scalar_mediator/_scalar_mediator_constraints.py
@@ -297,6 +297,10 @@ def width_B_xs_s(self):
 
 
 def constrain_beam_dump(self, bd_params=bd_charm):
+    # Too heavy to be produced with the assumed energy: no events expected
+    if self.ms >= bd_params.mediator_energy:
+        return bd_params.n_dec
+
     # Branching fractions for production in meson decays
     br_k_pi_s = self.width_k_pi_s() / k_width
     br_kl_pi0_s = self.width_kl_pi0_s() / kl_width
-- 
2.43.0


From 5ed44917fa6e0525d5d1fbdd235f671e73c90717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:38 +0000
Subject: [PATCH 34/92] fix: Fisher limits stay finite for large significances

norm.ppf(norm.cdf(sigma)) is sigma only until the CDF rounds to one (sigma > 8.2),
where it became infinite.
---
 hazma/theory/_theory_gamma_ray_limits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/theory/_theory_gamma_ray_limits.py b/hazma/theory/_theory_gamma_ray_limits.py
index c37d942..2138d90 100644
--- a/hazma/theory/_theory_gamma_ray_limits.py
+++ b/hazma/theory/_theory_gamma_ray_limits.py
@@ -254,7 +254,7 @@ class FisherResults(NamedTuple):
             n = len(self.params)
             inv = np.full((n, n), np.nan)
 
-        return norm.ppf(norm.cdf(sigma)) * np.sqrt(inv[idx, idx])
+        return sigma * np.sqrt(inv[idx, idx])
 
 
 def fisher(
-- 
2.43.0


From 8e16a9bb002deac63f7b9b6cf6b63010d4b5dc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:22 +0000
Subject: [PATCH 35/92] fix: boosted lines for integer energies, beta outside
 (0, 1) and massive double boosts

---
 hazma/spectra/boost.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/hazma/spectra/boost.py b/hazma/spectra/boost.py
index d0f5fdd..1afc140 100644
--- a/hazma/spectra/boost.py
+++ b/hazma/spectra/boost.py
@@ -109,14 +109,14 @@ def boost_delta_function(product_energy, e0: float, m: float, beta: float):
         Boost velocity of the decaying particle
     """
     scalar = np.isscalar(product_energy)
-    e = np.atleast_1d(product_energy)
+    e = np.atleast_1d(product_energy).astype(float)
     dnde = np.zeros_like(e)
 
     if 0.0 < beta < 1.0:
         gamma = 1.0 / np.sqrt(1.0 - beta * beta)
 
         mask = e >= m
-        k = np.sqrt(e**2 - m**2)
+        k = np.sqrt(np.where(mask, e**2 - m**2, 0.0))
 
         eminus = gamma * (e - beta * k)
         eplus = gamma * (e + beta * k)
@@ -149,7 +149,7 @@ def double_boost_delta_function(
         1st and 2nd boost velocities of the decaying particle.
     """
     scalar = np.isscalar(product_energy)
-    e2 = np.atleast_1d(product_energy)
+    e2 = np.atleast_1d(product_energy).astype(float)
     dnde = np.zeros_like(e2)
 
     gamma1 = 1.0 / np.sqrt(1.0 - beta1**2)
@@ -157,10 +157,12 @@ def double_boost_delta_function(
 
     eps_m = gamma1 * (e0 - beta1 * np.sqrt(e0**2 - m**2))
     eps_p = gamma1 * (e0 + beta1 * np.sqrt(e0**2 - m**2))
-    e_m = gamma2 * (e2 - beta2 * np.sqrt(e2**2 - m**2))
-    e_p = gamma2 * (e2 + beta2 * np.sqrt(e2**2 - m**2))
+    physical = e2 >= m
+    k2 = np.sqrt(np.where(physical, e2**2 - m**2, 0.0))
+    e_m = gamma2 * (e2 - beta2 * k2)
+    e_p = gamma2 * (e2 + beta2 * k2)
 
-    mask = np.logical_and(e_p > eps_m, e_m < eps_p)
+    mask = physical & (e_p > eps_m) & (e_m < eps_p)
     b = np.minimum(eps_p, e_p)[mask]
     a = np.maximum(eps_m, e_m)[mask]
 
@@ -174,7 +176,7 @@ def double_boost_delta_function(
         pre = 1.0
 
     dnde[mask] = pre * np.log(num / den)
-    dnde /= 4.0 * gamma1 * gamma2 * beta1 * beta2 * e0
+    dnde /= 4.0 * gamma1 * gamma2 * beta1 * beta2 * np.sqrt(e0**2 - m**2)
 
     if scalar:
         return dnde[0]
-- 
2.43.0


From a6827ff4796c90e4d717ad23afd7c08ee053f695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:22 +0000
Subject: [PATCH 36/92] fix: boosted spectra vanish for unphysical velocities
 and keep their arguments at rest

---
 hazma/spectra/boost.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/hazma/spectra/boost.py b/hazma/spectra/boost.py
index 1afc140..a12770d 100644
--- a/hazma/spectra/boost.py
+++ b/hazma/spectra/boost.py
@@ -208,12 +208,12 @@ def dnde_boost_array(dnde, energies, beta: float, mass: float = 0.0):
     dnde_boosted: array
         The boosted spectrum.
     """
+    if beta < 0 or beta >= 1.0:
+        return np.zeros_like(energies)
+
     if beta < np.finfo(float).eps:
         return dnde
 
-    if beta < 0 or beta > 1.0:
-        return np.zeros_like(energies)
-
     gamma = 1.0 / np.sqrt(1 - beta**2)
 
     boosted = np.zeros_like(energies)
@@ -279,19 +279,19 @@ def make_boost_function(fn: Callable, mass: float, vectorized: bool = True):
     """
     methods = ["quad", "trapz", "simps", "quadrature"]
 
-    def kinematic_early_return(energies: RealArray, beta: float):
+    def kinematic_early_return(energies: RealArray, beta: float, args: Tuple):
         # The function will return something if we should return early due to
         # kinematic constraints. The constraints are:
         #   1. beta ~ 0: In rest frame => no boost
         #   2. beta > 1 or beta < 0: Unphysical.
 
-        if beta < np.finfo(energies.dtype).eps:
-            return fn(energies)
-
-        if beta < 0.0 or beta > 1.0:
+        if beta < 0.0 or beta >= 1.0:
             warnings.warn(f"Unphysical beta = {beta}. Returning zero.")
             return np.zeros_like(energies)
 
+        if beta < np.finfo(energies.dtype).eps:
+            return fn(energies, *args)
+
         return None
 
     def bounds_and_mask(energies: RealArray, gamma: float, beta: float):
@@ -352,7 +352,7 @@ def make_boost_function(fn: Callable, mass: float, vectorized: bool = True):
         arguments compatible with quad can be specified.
         """
         check_method(method)
-        early = kinematic_early_return(energies, beta)
+        early = kinematic_early_return(energies, beta, args)
         if early is not None:
             return early
 
-- 
2.43.0


From 28c37d39867652833dbc0be6bf9e758ba44c3030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 37/92] fix: running of alpha_em in the pi0-gamma form factor
 (masks and overlapping hadronic ranges)

---
 hazma/form_factors/vector/_alpha.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/hazma/form_factors/vector/_alpha.py b/hazma/form_factors/vector/_alpha.py
index 34c4b6c..66bf2e6 100644
--- a/hazma/form_factors/vector/_alpha.py
+++ b/hazma/form_factors/vector/_alpha.py
@@ -26,7 +26,7 @@ def real_pi(r):
 
     m1 = r < 1e-3
     m2 = r > rmax
-    m3 = 4.0 * r > 1.0
+    m3 = (4.0 * r > 1.0) & ~m2
     m4 = ~(m1 | m2 | m3)
 
     results = np.zeros_like(r)
@@ -34,10 +34,11 @@ def real_pi(r):
     # use asymptotic formula
     if np.any(m1):
         results[m1] = -fvthr - np.log(r[m1])
-    if np.any(m2):
-        beta = np.sqrt(4.0 * r[m2] - 1.0)
-        results[m2] = 1.0 / 3.0 - (1.0 + 2.0 * r[m2]) * (
-            2.0 - beta * np.arccos(1.0 - 1.0 / (2.0 * r[m2]))
+    # zero for large values (m2)
+    if np.any(m3):
+        beta = np.sqrt(4.0 * r[m3] - 1.0)
+        results[m3] = 1.0 / 3.0 - (1.0 + 2.0 * r[m3]) * (
+            2.0 - beta * np.arccos(1.0 - 1.0 / (2.0 * r[m3]))
         )
     if np.any(m4):
         beta = np.sqrt(1.0 - 4.0 * r[m4])
@@ -58,7 +59,7 @@ def alpha_em(s):
     ss = np.atleast_1d(s).astype(np.float64)
 
     # return q^2=0 value for small scales
-    mask = s < eps
+    mask = ss >= eps
     repigg = np.zeros_like(ss)
     sm = ss[mask]
 
@@ -70,7 +71,11 @@ def alpha_em(s):
     # Hadronic component from light quarks
     repigg[mask] += np.piecewise(
         sm,
-        [sm < 9e-2, sm < 9.0, sm < 1.0e4],
+        [
+            sm < 9e-2,
+            (9e-2 <= sm) & (sm < 9.0),
+            (9.0 <= sm) & (sm < 1.0e4),
+        ],
         [
             hadronic(CS0),
             hadronic(CS1),
-- 
2.43.0


From 0db1329247510540d5ed7b2760b0138b0d4767b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 38/92] fix: eta_phi rescales the phi(1020) term of the K0 K0
 form factor at every energy

---
 hazma/form_factors/vector/_k_k.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/form_factors/vector/_k_k.py b/hazma/form_factors/vector/_k_k.py
index 8dc2da6..5dd4234 100644
--- a/hazma/form_factors/vector/_k_k.py
+++ b/hazma/form_factors/vector/_k_k.py
@@ -441,7 +441,7 @@ class _VectorFormFactorKKBase(VectorFormFactorPP):
 
         phi_terms = 1.0 / 3.0 * cs * self.fit_data.phi_coup * bwp
         if self._imode == 0:
-            phi_terms[0] *= eta_phi
+            phi_terms[:, 0] *= eta_phi
         fk += phi_terms
 
         return np.sum(fk, axis=1)
-- 
2.43.0


From dccd76f1a71d732c73f009c1a099c815703b9e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 39/92] fix: scalar calls of the PA/PV form factors return
 MeV^-1 like the array calls

---
 hazma/form_factors/vector/_eta_omega.py | 4 +++-
 hazma/form_factors/vector/_eta_phi.py   | 4 +++-
 hazma/form_factors/vector/_pi_gamma.py  | 4 +++-
 hazma/form_factors/vector/_pi_omega.py  | 4 +++-
 hazma/form_factors/vector/_pi_phi.py    | 4 +++-
 5 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/hazma/form_factors/vector/_eta_omega.py b/hazma/form_factors/vector/_eta_omega.py
index 1c8ab70..838851a 100644
--- a/hazma/form_factors/vector/_eta_omega.py
+++ b/hazma/form_factors/vector/_eta_omega.py
@@ -145,10 +145,12 @@ class VectorFormFactorEtaOmega(VectorFormFactorPV):
 
         ff[mask] = self.__form_factor(s=qq[mask] ** 2, couplings=couplings)
 
+        ff = ff * 1e-3
+
         if single:
             return ff[0]
 
-        return ff * 1e-3
+        return ff
 
     @overload
     def integrated_form_factor(  # pylint: disable=arguments-differ
diff --git a/hazma/form_factors/vector/_eta_phi.py b/hazma/form_factors/vector/_eta_phi.py
index cf43499..fc93c4d 100644
--- a/hazma/form_factors/vector/_eta_phi.py
+++ b/hazma/form_factors/vector/_eta_phi.py
@@ -140,10 +140,12 @@ class VectorFormFactorEtaPhi(VectorFormFactorPV):
 
         ff[mask] = self.__form_factor(s=qq[mask] ** 2, gvss=couplings[2])
 
+        ff = ff * 1e-3
+
         if single:
             return ff[0]
 
-        return ff * 1e-3
+        return ff
 
     @overload
     def integrated_form_factor(  # pylint: disable=arguments-differ
diff --git a/hazma/form_factors/vector/_pi_gamma.py b/hazma/form_factors/vector/_pi_gamma.py
index b017d40..504702c 100644
--- a/hazma/form_factors/vector/_pi_gamma.py
+++ b/hazma/form_factors/vector/_pi_gamma.py
@@ -191,10 +191,12 @@ class VectorFormFactorPi0Gamma(VectorFormFactorPA):
 
         ff[mask] = self.__form_factor(q=qq[mask], couplings=couplings)
 
+        ff = ff * 1e-3
+
         if single:
             return ff[0]
 
-        return ff * 1e-3
+        return ff
 
     @overload
     def integrated_form_factor(  # pylint: disable=arguments-differ
diff --git a/hazma/form_factors/vector/_pi_omega.py b/hazma/form_factors/vector/_pi_omega.py
index d12f218..10a3f2a 100644
--- a/hazma/form_factors/vector/_pi_omega.py
+++ b/hazma/form_factors/vector/_pi_omega.py
@@ -188,10 +188,12 @@ class VectorFormFactorPi0Omega(VectorFormFactorPV):
             s=qq[mask] ** 2, gvuu=couplings[0], gvdd=couplings[1]
         )
 
+        ff = ff * 1e-3
+
         if single:
             return ff[0]
 
-        return ff * 1e-3
+        return ff
 
     @overload
     def integrated_form_factor(  # pylint: disable=arguments-differ
diff --git a/hazma/form_factors/vector/_pi_phi.py b/hazma/form_factors/vector/_pi_phi.py
index e87dff9..03b6c12 100644
--- a/hazma/form_factors/vector/_pi_phi.py
+++ b/hazma/form_factors/vector/_pi_phi.py
@@ -187,10 +187,12 @@ class VectorFormFactorPi0Phi(VectorFormFactorPV):
             s=qq[mask] ** 2, gvuu=couplings[0], gvdd=couplings[1]
         )
 
+        ff = ff * 1e-3
+
         if single:
             return ff[0]
 
-        return ff * 1e-3
+        return ff
 
     @overload
     def integrated_form_factor(  # pylint: disable=arguments-differ
-- 
2.43.0


From 560d11294e19ea80dd9f4d2ed66ccf4ce48b83ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 40/92] fix: pi-pi-omega form factor accepts arrays of energies

---
 hazma/form_factors/vector/_pi_pi_omega.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hazma/form_factors/vector/_pi_pi_omega.py b/hazma/form_factors/vector/_pi_pi_omega.py
index efdabf8..c13aea8 100644
--- a/hazma/form_factors/vector/_pi_pi_omega.py
+++ b/hazma/form_factors/vector/_pi_pi_omega.py
@@ -80,11 +80,14 @@ class _VectorFormFactorPiPiOmegaBase(VectorFormFactorPPV):
         an eta-prime.
         """
         ci0 = 3 * (couplings[0] + couplings[1])
+        # resonances are along the last axis
+        qq = np.expand_dims(q, -1)
         return ci0 * np.sum(
             self.fit_data.amps
             * np.exp(1j * self.fit_data.phases)
             * self.fit_data.masses**2
-            / ((self.fit_data.masses**2 - q**2) - 1j * q * self.fit_data.widths)
+            / ((self.fit_data.masses**2 - qq**2) - 1j * qq * self.fit_data.widths),
+            axis=-1,
         )
 
     @overload
-- 
2.43.0


From f734d4f26c74e89522eac26f21538c159c076422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 41/92] fix: 4-pion form factor (T-rho beta2, neutral-pion
 ordering, form_factor momenta)

---
 hazma/form_factors/vector/_pi_pi_pi_pi.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/hazma/form_factors/vector/_pi_pi_pi_pi.py b/hazma/form_factors/vector/_pi_pi_pi_pi.py
index cede309..d79445e 100644
--- a/hazma/form_factors/vector/_pi_pi_pi_pi.py
+++ b/hazma/form_factors/vector/_pi_pi_pi_pi.py
@@ -183,7 +183,7 @@ class _VectorFormFactorPiPiPiPiBase(VectorFormFactorPPPP):
             beta_omega_3=beta_omegas[2],
             beta_b_rho=beta_b_rhos[0],
             beta_t_rho1=beta_b_rhos[1],
-            beta_t_rho2=beta_b_rhos[1],
+            beta_t_rho2=beta_b_rhos[2],
             coupling_f0=coupling_f0,
             coupling_a1=coupling_a1,
             coupling_rho=coupling_rho,
@@ -591,7 +591,8 @@ class _VectorFormFactorPiPiPiPiBase(VectorFormFactorPPPP):
             Momenta of the charged pions.
         """
         if self._imode == 0:
-            return self._current_neutral(Q, Q2, q1, q2, q3, q4)
+            # The charged pions come first in `fsp_masses`.
+            return self._current_neutral(Q, Q2, q3, q4, q1, q2)
         return self._current_charged(Q, Q2, q1, q2, q3, q4)
 
     def form_factor(self, momenta: RealArray):
@@ -610,10 +611,10 @@ class _VectorFormFactorPiPiPiPiBase(VectorFormFactorPPPP):
         q3 = ps[:, 2]
         q4 = ps[:, 3]
 
-        q = np.sum(ps, axis=1)
-        q2 = np.mean(np.sum(ps[0], axis=0))
+        Q = np.sum(ps, axis=1)
+        Q2 = lnorm_sqr(Q)
 
-        ff = self._form_factor(q, q2, q1, q2, q3, q4)
+        ff = self._form_factor(Q, Q2, q1, q2, q3, q4)
 
         return ff
 
@@ -644,10 +645,7 @@ class _VectorFormFactorPiPiPiPiBase(VectorFormFactorPPPP):
         q3 = momenta[:, 2, :]
         q4 = momenta[:, 3, :]
 
-        if self._imode == 0:
-            current = self._current_neutral(Q, Q2, q1, q2, q3, q4)
-        else:
-            current = self._current_charged(Q, Q2, q1, q2, q3, q4)
+        current = self._form_factor(Q, Q2, q1, q2, q3, q4)
 
         j = -np.real(ldot(current, np.conj(current)))
         weights = j / (3.0 * Q2)
-- 
2.43.0


From 569d5990613f189b74f8c811a299899e4d6295d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 42/92] fix: three-body form factors (P P V tensor structure
 and mass distributions, integer energies, PPP2 quadrature)

---
 hazma/form_factors/vector/_three_body.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/hazma/form_factors/vector/_three_body.py b/hazma/form_factors/vector/_three_body.py
index 29ac1cb..747443f 100644
--- a/hazma/form_factors/vector/_three_body.py
+++ b/hazma/form_factors/vector/_three_body.py
@@ -246,7 +246,7 @@ class VectorFormFactorPPP(VectorFormFactorThreeBody):
             ]
 
         scalar = np.isscalar(q)
-        qs = np.atleast_1d(q)
+        qs = np.atleast_1d(q).astype(np.float64)
         mask = qs > sum(self.fsp_masses)
         res = np.zeros_like(qs)
 
@@ -547,7 +547,9 @@ class VectorFormFactorPPP2(VectorFormFactorThreeBody):
             Integrated form-factor.
         """
         m1, m2, m3 = self.fsp_masses
-        quad_kwargs = {}
+        # The integrand scales with the form factor and can be far smaller than
+        # `scipy`'s default absolute tolerance.
+        quad_kwargs = {"epsabs": 0.0}
         if epsrel is not None:
             quad_kwargs["epsrel"] = epsrel
         if epsabs is not None:
@@ -569,7 +571,7 @@ class VectorFormFactorPPP2(VectorFormFactorThreeBody):
             )
 
         scalar = np.isscalar(q)
-        qs = np.atleast_1d(q)
+        qs = np.atleast_1d(q).astype(np.float64)
         mask = qs > m1 + m2 + m3
         res = np.zeros_like(qs)
 
@@ -711,9 +713,12 @@ class VectorFormFactorPPV(VectorFormFactorThreeBody):
         raise NotImplementedError()
 
     def __squared_lorentz_structure(self, q, s, t):
-        m1, m2, mv = self.fsp_masses
+        # The vector meson is the first final-state particle, hence
+        # pv.q = (q^2 + mv^2 - s) / 2 with s = (p1 + p2)^2 the squared invariant
+        # mass of the scalars.
+        mv, _, _ = self.fsp_masses
 
-        return (2 * mv**2 * q**2 + (-(m1**2) - m2**2 + s + t) ** 2 / 4.0) / (
+        return (2 * mv**2 * q**2 + (q**2 + mv**2 - s) ** 2 / 4.0) / (
             3.0 * mv**2 * q**4
         )
 
@@ -861,7 +866,7 @@ class VectorFormFactorPPV(VectorFormFactorThreeBody):
             )
 
         scalar = np.isscalar(q)
-        qs = np.atleast_1d(q)
+        qs = np.atleast_1d(q).astype(np.float64)
         mask = qs > mv + m1 + m2
         res = np.zeros_like(qs)
 
@@ -981,10 +986,13 @@ class VectorFormFactorPPV(VectorFormFactorThreeBody):
         sqrts = [
             etosqrts(edists[i].bins, self.fsp_masses[i]) for i in range(len(edists))
         ]
+        # The invariant mass decreases with energy: flip to have ascending bins.
         invdists = {
             keys[i]: PhaseSpaceDistribution1D(
-                sqrts[i],
-                0.25 * (sqrts[i][1:] + sqrts[i][:-1]) / q * edists[i].probabilities,
+                sqrts[i][::-1],
+                (0.5 * (sqrts[i][1:] + sqrts[i][:-1]) / q * edists[i].probabilities)[
+                    ::-1
+                ],
             )
             for i in range(len(edists))
         }
-- 
2.43.0


From 9a15e626f7b49c6895d94b218398847bd07d89a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 43/92] fix: neutrino spectra of the rho mesons: pi+ pi- table
 for the neutral rho, pi pi0 table for the charged rho

---
 hazma/spectra/_neutrino/__init__.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hazma/spectra/_neutrino/__init__.py b/hazma/spectra/_neutrino/__init__.py
index 9cf4244..27d2e5d 100644
--- a/hazma/spectra/_neutrino/__init__.py
+++ b/hazma/spectra/_neutrino/__init__.py
@@ -28,10 +28,12 @@ _eta_prime_integrand_interp_e = _load_interp("eta_prime_neutrino_e.csv")
 _eta_prime_integrand_interp_mu = _load_interp("eta_prime_neutrino_mu.csv")
 _phi_integrand_interp_e = _load_interp("phi_neutrino_e.csv")
 _phi_integrand_interp_mu = _load_interp("phi_neutrino_mu.csv")
-_charged_rho_integrand_interp_e = _load_interp("charged_rho_neutrino_e.csv")
-_charged_rho_integrand_interp_mu = _load_interp("charged_rho_neutrino_mu.csv")
-_neutral_rho_integrand_interp_e = _load_interp("neutral_rho_neutrino_e.csv")
-_neutral_rho_integrand_interp_mu = _load_interp("neutral_rho_neutrino_mu.csv")
+# The data files are named the wrong way around: "charged_rho" tabulates the
+# rho0 -> pi pi mode and "neutral_rho" the rho -> pi pi0 mode.
+_charged_rho_integrand_interp_e = _load_interp("neutral_rho_neutrino_e.csv")
+_charged_rho_integrand_interp_mu = _load_interp("neutral_rho_neutrino_mu.csv")
+_neutral_rho_integrand_interp_e = _load_interp("charged_rho_neutrino_e.csv")
+_neutral_rho_integrand_interp_mu = _load_interp("charged_rho_neutrino_mu.csv")
 
 
 @overload
-- 
2.43.0


From 6f5f169493c49d31762fba9c3e6b1354b6fdeb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 44/92] fix: positron spectrum of the neutral rho counts both
 charged pions

---
 hazma/spectra/_positron/__init__.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/hazma/spectra/_positron/__init__.py b/hazma/spectra/_positron/__init__.py
index c57c641..8f66331 100644
--- a/hazma/spectra/_positron/__init__.py
+++ b/hazma/spectra/_positron/__init__.py
@@ -283,16 +283,8 @@ def dnde_positron_neutral_rho(
 def dnde_positron_neutral_rho(
     positron_energy: Union[RealArray, float], rho_energy: float
 ) -> Union[RealArray, float]:
-    interp = _rho_integrand_interp
-    parent_mass = parameters.rho_mass
-    parent_energy = rho_energy
-
-    return _dnde_positron(
-        positron_energy=positron_energy,
-        parent_energy=parent_energy,
-        parent_mass=parent_mass,
-        interp=interp,
-    )
+    # The table holds a single charged pion; rho0 -> pi pi has two of them.
+    return 2 * dnde_positron_charged_rho(positron_energy, rho_energy)
 
 
 @overload
@@ -308,7 +300,16 @@ def dnde_positron_charged_rho(
 def dnde_positron_charged_rho(
     positron_energy: Union[RealArray, float], rho_energy: float
 ) -> Union[RealArray, float]:
-    return dnde_positron_neutral_rho(positron_energy, rho_energy)
+    interp = _rho_integrand_interp
+    parent_mass = parameters.rho_mass
+    parent_energy = rho_energy
+
+    return _dnde_positron(
+        positron_energy=positron_energy,
+        parent_energy=parent_energy,
+        parent_mass=parent_mass,
+        interp=interp,
+    )
 
 
 @overload
-- 
2.43.0


From 07d4f07637f4962b3f7594a06281d07b3f872d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 45/92] fix: tabulated positron and neutrino spectra vanish
 beyond the end of their tables

---
 hazma/spectra/_neutrino/_utils.py | 2 +-
 hazma/spectra/_positron/_utils.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/spectra/_neutrino/_utils.py b/hazma/spectra/_neutrino/_utils.py
index 7a7e705..a2122ae 100644
--- a/hazma/spectra/_neutrino/_utils.py
+++ b/hazma/spectra/_neutrino/_utils.py
@@ -19,7 +19,7 @@ def load_interp(fname, k=2):
     dnde_integrand = dnde / energies
 
     integrand_interp = interpolate.InterpolatedUnivariateSpline(
-        energies, dnde_integrand, k=k
+        energies, dnde_integrand, k=k, ext="zeros"
     )
 
     return integrand_interp
diff --git a/hazma/spectra/_positron/_utils.py b/hazma/spectra/_positron/_utils.py
index a80dfb1..7032bfb 100644
--- a/hazma/spectra/_positron/_utils.py
+++ b/hazma/spectra/_positron/_utils.py
@@ -21,7 +21,7 @@ def load_interp(fname):
     dnde_integrand = dnde / np.sqrt(energies**2 - me**2)
 
     integrand_interp = interpolate.InterpolatedUnivariateSpline(
-        energies, dnde_integrand, k=1
+        energies, dnde_integrand, k=1, ext="zeros"
     )
 
     return integrand_interp
-- 
2.43.0


From 970d8687334b20ccb4722691ef0884360df26f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 46/92] fix: tabulated positron spectra accept integers and
 sequences of energies

---
 hazma/spectra/_positron/_utils.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/hazma/spectra/_positron/_utils.py b/hazma/spectra/_positron/_utils.py
index 7032bfb..3f7444d 100644
--- a/hazma/spectra/_positron/_utils.py
+++ b/hazma/spectra/_positron/_utils.py
@@ -40,7 +40,7 @@ def _dnde_positron_point(
         return 0.0
 
     if parent_energy - parent_mass < eps:
-        return interp(positron_energy) * np.sqrt(positron_energy**2 - me**2)
+        return float(interp(positron_energy) * np.sqrt(positron_energy**2 - me**2))
 
     gamma = parent_energy / parent_mass
     beta = np.sqrt(1.0 - gamma**-2)
@@ -65,7 +65,8 @@ def _dnde_positron_array(
         return np.zeros_like(positron_energy)
 
     if parent_energy - parent_mass < eps:
-        return interp(positron_energy) * np.sqrt(positron_energy**2 - me**2)
+        momentum = np.sqrt(np.maximum(positron_energy**2 - me**2, 0.0))
+        return interp(positron_energy) * momentum
 
     return np.array(
         [
@@ -87,22 +88,16 @@ def dnde_positron(
     parent_mass: float,
     interp: interpolate.InterpolatedUnivariateSpline,
 ) -> Union[RealArray, float]:
-    if parent_energy < parent_mass:
-        return np.zeros_like(positron_energy)
+    positron_energy = np.asarray(positron_energy, dtype=np.float64)
 
-    if isinstance(positron_energy, float):
+    if positron_energy.ndim == 0:
         return _dnde_positron_point(
-            positron_energy=positron_energy,
+            positron_energy=float(positron_energy),
             parent_energy=parent_energy,
             parent_mass=parent_mass,
             interp=interp,
         )
 
-    assert hasattr(positron_energy, "__len__"), (
-        "Invalid type for positron_energy."
-        + f"Expected float or numpy array, got: {type(positron_energy)}"
-    )
-
     return _dnde_positron_array(
         positron_energy=positron_energy,
         parent_energy=parent_energy,
-- 
2.43.0


From cf70f7b3fa5f1bb54f6d7d8725976321293e515b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 47/92] fix: tabulated neutrino spectra of one flavor: scalars
 for a scalar energy, ValueError for an unknown flavor

---
 hazma/spectra/_neutrino/_utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hazma/spectra/_neutrino/_utils.py b/hazma/spectra/_neutrino/_utils.py
index a2122ae..e325af2 100644
--- a/hazma/spectra/_neutrino/_utils.py
+++ b/hazma/spectra/_neutrino/_utils.py
@@ -90,12 +90,15 @@ def dnde_neutrino(
     flavor: Optional[str] = None,
 ) -> Union[RealArray, float]:
 
-    scalar = np.isscalar(neutrino_energy)
+    scalar = np.ndim(neutrino_energy) == 0
     enu = np.atleast_1d(neutrino_energy).astype(np.float64)
     dnde = np.zeros((3, *enu.shape), dtype=enu.dtype)
 
+    if flavor not in (None, "e", "mu", "tau"):
+        raise ValueError(f"Invalid flavor {flavor}. Use 'e', 'mu' or 'tau'.")
+
     if flavor == "tau":
-        return dnde[2]
+        return dnde[2, 0] if scalar else dnde[2]
 
     for i, flav, inter in [(0, "e", interp_e), (1, "mu", interp_mu)]:
         if not flavor or flavor == flav:
@@ -107,7 +110,7 @@ def dnde_neutrino(
             )
 
             if flavor == flav:
-                return dnde_
+                return dnde_[0] if scalar else dnde_
             else:
                 dnde[i] = dnde_
 
-- 
2.43.0


From 1df347566dfebf5431fa92311ee72c130b39b2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:28 +0000
Subject: [PATCH 48/92] fix: dark-matter self-scattering cross sections:
 1/e_cm^2 flux, resolved forward peak, scalar results

---
 .../_scalar_mediator_cross_sections.py        | 22 ++++++++++++-------
 .../_vector_mediator_cross_sections.py        | 22 ++++++++++++-------
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/hazma/scalar_mediator/_scalar_mediator_cross_sections.py b/hazma/scalar_mediator/_scalar_mediator_cross_sections.py
index f7f143b..573d3d0 100644
--- a/hazma/scalar_mediator/_scalar_mediator_cross_sections.py
+++ b/hazma/scalar_mediator/_scalar_mediator_cross_sections.py
@@ -200,7 +200,7 @@ def sigma_xx_to_s_to_xx(self, e_cm):
         Cross section for x + x -> x + x
     """
     # see sigma_xx_to_s_to_ff for explaination of this context mangager
-    with warnings.catch_warnings():
+    with warnings.catch_warnings(), np.errstate(all="ignore"):
         warnings.filterwarnings("ignore", r"invalid value encountered in true_divide")
         warnings.filterwarnings("ignore", r"divide by zero encountered in true_divide")
         warnings.filterwarnings("ignore", r"invalid value encountered in multiply")
@@ -209,7 +209,7 @@ def sigma_xx_to_s_to_xx(self, e_cm):
         warnings.filterwarnings("ignore", r"invalid value encountered in subtract")
         warnings.filterwarnings("ignore", r"invalid value encountered in add")
 
-        e_cms = np.array(e_cm) if hasattr(e_cm, "__len__") else e_cm
+        e_cms = np.array(e_cm, dtype=float)
         mask = e_cms > 2.0 * self.mx
 
         rxs = self.mx / e_cms
@@ -260,14 +260,20 @@ def sigma_xx_to_s_to_xx(self, e_cm):
                 )
             ).real
 
-        # Compute the nodes and weights for Legendre-Gauss quadrature
-        nodes, weights = leggauss(10)
-        nodes, weights = (np.reshape(nodes, (10, 1)), np.reshape(weights, (10, 1)))
-        ret_val = mask * np.nan_to_num(
-            np.sum(weights * msqrd(nodes), axis=0) / (32.0 * np.pi * e_cms)
+        # Gauss-Legendre quadrature in cos(theta), with the nodes spread
+        # logarithmically towards the forward peak of the t-channel propagator,
+        # whose width is set by the mediator mass
+        nodes, weights = leggauss(64)
+        nodes, weights = (np.reshape(nodes, (64, 1)), np.reshape(weights, (64, 1)))
+        width = 2.0 * rss**2 / (1.0 - 4.0 * rxs**2)
+        log = np.log1p(2.0 / width)
+        dist = width * np.exp((nodes + 1.0) / 2.0 * log)
+        integral = np.sum(
+            weights * msqrd(1.0 + width - dist) * dist * log / 2.0, axis=0
         )
+        ret_val = mask * np.nan_to_num(integral / (32.0 * np.pi * e_cms**2))
 
-    return ret_val.real
+    return ret_val.real if e_cms.ndim else ret_val.real.item()
 
 
 def sigma_xpi_to_xpi(self, e_cm):
diff --git a/hazma/vector_mediator/_vector_mediator_cross_sections.py b/hazma/vector_mediator/_vector_mediator_cross_sections.py
index ccaaf14..13b85d8 100644
--- a/hazma/vector_mediator/_vector_mediator_cross_sections.py
+++ b/hazma/vector_mediator/_vector_mediator_cross_sections.py
@@ -185,7 +185,7 @@ class VectorMediatorCrossSections:
         Returns the DM annihilation cross section into DM.
         """
         # see sigma_xx_to_s_to_ff for explaination of this context mangager
-        with warnings.catch_warnings():
+        with warnings.catch_warnings(), np.errstate(all="ignore"):
             warnings.filterwarnings(
                 "ignore", r"invalid value encountered in true_divide"
             )
@@ -198,7 +198,7 @@ class VectorMediatorCrossSections:
             warnings.filterwarnings("ignore", r"invalid value encountered in subtract")
             warnings.filterwarnings("ignore", r"invalid value encountered in add")
 
-            e_cms = np.array(e_cm) if hasattr(e_cm, "__len__") else e_cm
+            e_cms = np.array(e_cm, dtype=float)
             mask = e_cms > 2.0 * self.mx
 
             rv = self.mv / e_cms
@@ -250,14 +250,20 @@ class VectorMediatorCrossSections:
                     )
                 )
 
-            # Compute the nodes and weights for Legendre-Gauss quadrature
-            nodes, weights = leggauss(10)
-            nodes, weights = (np.reshape(nodes, (10, 1)), np.reshape(weights, (10, 1)))
-            ret_val = mask * np.nan_to_num(
-                np.sum(weights * msqrd(nodes), axis=0) / (32.0 * np.pi * e_cms)
+            # Gauss-Legendre quadrature in cos(theta), with the nodes spread
+            # logarithmically towards the forward peak of the t-channel propagator,
+            # whose width is set by the mediator mass
+            nodes, weights = leggauss(64)
+            nodes, weights = (np.reshape(nodes, (64, 1)), np.reshape(weights, (64, 1)))
+            width = 2.0 * rv**2 / (1.0 - 4.0 * rx**2)
+            log = np.log1p(2.0 / width)
+            dist = width * np.exp((nodes + 1.0) / 2.0 * log)
+            integral = np.sum(
+                weights * msqrd(1.0 + width - dist) * dist * log / 2.0, axis=0
             )
+            ret_val = mask * np.nan_to_num(integral / (32.0 * np.pi * e_cms**2))
 
-        return ret_val.real
+        return ret_val.real if e_cms.ndim else ret_val.real.item()
 
     def dsigma_ds_xx_to_v_to_pi0pipi(self, s, e_cm):
         mx = self.mx
-- 
2.43.0


From 91fd087d2f191d11e0ecaebd37a1ea662cf155e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:38 +0000
Subject: [PATCH 49/92] fix: x x -> V* -> pi0 pi+ pi- cross section was not the
 squared anomaly amplitude (negative for many masses)

---
 .../_vector_mediator_cross_sections.py        | 54 ++++++-------------
 1 file changed, 17 insertions(+), 37 deletions(-)

diff --git a/hazma/vector_mediator/_vector_mediator_cross_sections.py b/hazma/vector_mediator/_vector_mediator_cross_sections.py
index 13b85d8..07f20b6 100644
--- a/hazma/vector_mediator/_vector_mediator_cross_sections.py
+++ b/hazma/vector_mediator/_vector_mediator_cross_sections.py
@@ -279,44 +279,24 @@ class VectorMediatorCrossSections:
             mv = self.mv
             width_v = self.width_v
 
+            # Wess-Zumino-Witten contact amplitude,
+            #   M^mu = 3 (gvuu + gvdd) / (4 pi^2 fpi^3)
+            #          * eps^{mu nu alpha beta} p0_nu p+_alpha p-_beta,
+            # integrated over the direction of the charged pions
+            kallen = e_cm**4 + (mpi0**2 - s) ** 2 - 2.0 * e_cm**2 * (mpi0**2 + s)
             ret_val = (
-                3.0
-                * (
-                    (gvdd + gvuu) ** 2
-                    * gvxx**2
-                    * np.sqrt(s * (-4.0 * mpi**2 + s))
-                    * np.sqrt(
-                        e_cm**4 + (mpi0**2 - s) ** 2 - 2.0 * e_cm**2 * (mpi0**2 + s)
-                    )
-                    * (
-                        -24.0 * mpi**6 * s
-                        + mpi**4 * (-2.0 * mpi0**4 + 28.0 * mpi0**2 * s + 22.0 * s**2)
-                        + 2.0 * mpi**2 * (mpi0**6 - 4.0 * s**3)
-                        + s
-                        * (-2.0 * mpi0**6 - 4.0 * mpi0**4 * s - mpi0**2 * s**2 + s**3)
-                        + e_cm**4
-                        * (
-                            -2.0 * mpi**4
-                            + 2.0 * mpi**2 * (mpi0**2 - s)
-                            + s * (-2.0 * mpi0**2 + s)
-                        )
-                        + e_cm**2
-                        * (
-                            4.0 * mpi**4 * (mpi0**2 + s)
-                            + s * (4.0 * mpi0**4 + 5.0 * mpi0**2 * s - 2.0 * s**2)
-                            - 4.0 * mpi**2 * (mpi0**4 + 3.0 * mpi0**2 * s - s**2)
-                        )
-                    )
-                )
-                / (
-                    294912.0
-                    * fpi**6
-                    * np.pi**7
-                    * np.sqrt(e_cm**2)
-                    * np.sqrt(-4.0 * mx**2 + e_cm**2)
-                    * s**2
-                    * (mv**4 - 2.0 * mv**2 * e_cm**2 + e_cm**4 + mv**2 * width_v**2)
-                )
+                (gvdd + gvuu) ** 2
+                * gvxx**2
+                * (e_cm**2 + 2.0 * mx**2)
+                * (kallen * (s - 4.0 * mpi**2)) ** 1.5
+            ) / (
+                32768.0
+                * fpi**6
+                * np.pi**7
+                * e_cm**3
+                * np.sqrt(e_cm**2 - 4.0 * mx**2)
+                * np.sqrt(s)
+                * ((mv**2 - e_cm**2) ** 2 + mv**2 * width_v**2)
             )
 
             assert ret_val.imag == 0
-- 
2.43.0


From baa95bb8819089069d451be45227af8e869a7d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 50/92] fix: positron spectrum of the vector mediator's mu mu
 channel used the muon's photon spectrum

---
 hazma/vector_mediator/_vector_mediator_positron_spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/vector_mediator/_vector_mediator_positron_spectra.py b/hazma/vector_mediator/_vector_mediator_positron_spectra.py
index f961ec7..3a49d2e 100644
--- a/hazma/vector_mediator/_vector_mediator_positron_spectra.py
+++ b/hazma/vector_mediator/_vector_mediator_positron_spectra.py
@@ -9,7 +9,7 @@ class VectorMediatorPositronSpectra:
         return spectra.dnde_positron_charged_pion(e_ps, e_cm / 2.0)
 
     def dnde_pos_mumu(self, e_ps, e_cm):
-        return spectra.dnde_photon_muon(e_ps, e_cm / 2.0)
+        return spectra.dnde_positron_muon(e_ps, e_cm / 2.0)
 
     # positron decay spectrum for chi chibar -> v v
     def dnde_pos_vv(self, e_ps, e_cm, fs="total"):
-- 
2.43.0


From 9255b2a7a35518292f3d4a84e96fd835456e9c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:49 +0000
Subject: [PATCH 51/92] fix: Altarelli-Parisi FSR functions accept scalars,
 sequences and integers

---
 hazma/spectra/altarelli_parisi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hazma/spectra/altarelli_parisi.py b/hazma/spectra/altarelli_parisi.py
index ed5317b..fd9bf37 100644
--- a/hazma/spectra/altarelli_parisi.py
+++ b/hazma/spectra/altarelli_parisi.py
@@ -28,6 +28,7 @@ def _fermion_splitting(x):
 
 def _dndx_photon_fsr(x, s: float, m: float, split: Callable[[Any], Any], q=1.0):
     pre = q**2 * parameters.alpha_em / (2.0 * np.pi)
+    x = np.asarray(x, dtype=np.float64)
     xm = 1.0 - x
     kernel = np.zeros_like(x)
 
@@ -39,7 +40,7 @@ def _dndx_photon_fsr(x, s: float, m: float, split: Callable[[Any], Any], q=1.0):
 
 def _dnde_photon_fsr(e, s: float, m: float, split: Callable[[Any], Any], q=1.0):
     e_to_x = 2.0 / np.sqrt(s)
-    x = e * e_to_x
+    x = np.asarray(e) * e_to_x
     return _dndx_photon_fsr(x, s, m, split, q) * e_to_x
 
 
-- 
2.43.0


From 5b010e9fb17223c5ba8b8ae80b8652f41e24a86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:49 +0000
Subject: [PATCH 52/92] fix: n-body positron and neutrino spectra include the
 neutral rho

---
 hazma/spectra/_nbody.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/spectra/_nbody.py b/hazma/spectra/_nbody.py
index 17ad1c4..f108e24 100644
--- a/hazma/spectra/_nbody.py
+++ b/hazma/spectra/_nbody.py
@@ -96,7 +96,7 @@ _dnde_positron_dict: Dict[str, Callable[[RealArray, float], RealArray]] = {
     "eta": _positron.dnde_positron_eta,
     "etap": _positron.dnde_positron_eta_prime,
     "rho": _positron.dnde_positron_charged_rho,
-    "rho0": _dnde_zero,
+    "rho0": _positron.dnde_positron_neutral_rho,
     "omega": _positron.dnde_positron_omega,
     "phi": _positron.dnde_positron_phi,
 }
@@ -115,7 +115,7 @@ _dnde_neutrino_dict = {
     "eta": _neutrino.dnde_neutrino_eta,
     "etap": _neutrino.dnde_neutrino_eta_prime,
     "rho": _neutrino.dnde_neutrino_charged_rho,
-    "rho0": _dnde_zero_nu,
+    "rho0": _neutrino.dnde_neutrino_neutral_rho,
     "omega": _neutrino.dnde_neutrino_omega,
     "phi": _neutrino.dnde_neutrino_phi,
 }
-- 
2.43.0


From 76e893b7bb6e0d4fd414faef6df8bd89e4d14028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:49 +0000
Subject: [PATCH 53/92] fix: n-body spectra count the FSR of every charged
 final-state particle

---
 hazma/spectra/_nbody.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/hazma/spectra/_nbody.py b/hazma/spectra/_nbody.py
index f108e24..62ede41 100644
--- a/hazma/spectra/_nbody.py
+++ b/hazma/spectra/_nbody.py
@@ -366,24 +366,26 @@ def _dnde_photon_fsr(
         # spectra. If 'average_fsr' is False, the we will skip terms computing
         # the same spectrum.
         counts = defaultdict(int)
+        # The same state can occur more than once, so particles are
+        # identified by their position in the final state.
         dndes = {
-            key: np.zeros_like(photon_energies)
-            for key in final_states
-            if key in dnde_fns
+            p: np.zeros_like(photon_energies)
+            for p, s in enumerate(final_states)
+            if s in dnde_fns
         }
 
         for pair, dist in dists.items():
-            for s in [final_states[p] for p in pair]:
+            for p in pair:
                 # Skip neutral particles
-                if s not in dndes:
+                if p not in dndes:
                     continue
 
                 # If average_fsr is False and we've already encountered this
                 # particle, skip it.
-                if average_fsr or counts[s] == 0:
-                    counts[s] += 1
-                    dndes[s] = dndes[s] + _conv_dnde_dist(
-                        photon_energies, dist, s, "fsr"
+                if average_fsr or counts[p] == 0:
+                    counts[p] += 1
+                    dndes[p] = dndes[p] + _conv_dnde_dist(
+                        photon_energies, dist, final_states[p], "fsr"
                     )
 
         for key in dndes.keys():
-- 
2.43.0


From 26ac7967b6c9f62bb6b349ec81285345d8183d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:49 +0000
Subject: [PATCH 54/92] fix: neutrinos of an n-body final state enter the
 spectrum of their own flavor only

---
 hazma/spectra/_nbody.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/hazma/spectra/_nbody.py b/hazma/spectra/_nbody.py
index 62ede41..edff3c6 100644
--- a/hazma/spectra/_nbody.py
+++ b/hazma/spectra/_nbody.py
@@ -23,6 +23,9 @@ from .altarelli_parisi import (
 MSqrd = Union[Callable[[Any], Any], Callable[[Any, Any], Any]]
 
 # Currently implemented backend integrators
+# Neutrino states, in the order of the leading axis of the neutrino spectra
+_NEUTRINOS = ["ve", "vm", "vt"]
+
 _INTEGRATORS = ["quad", "trapz", "simps", "rambo"]
 
 
@@ -500,15 +503,19 @@ def _dnde_multi_particle(
         # if product is in final state, add it to spectrum
         cond = state == product
         cond = cond or (state == "e" and product == "positron")
-        cond = cond or (state in ["ve", "vm", "vt"] and product == "neutrino")
+        cond = cond or (state in _NEUTRINOS and product == "neutrino")
         if cond:
-            dnde += np.interp(
+            direct = np.interp(
                 product_energies,
                 dist.bin_centers,
                 dist.probabilities,
                 right=0.0,
                 left=0.0,
             )
+            if product == "neutrino":
+                dnde[_NEUTRINOS.index(state)] += direct
+            else:
+                dnde += direct
 
     if product == "photon" and include_fsr:
         dnde = dnde + _dnde_photon_fsr(
-- 
2.43.0


From dd77ded912e1224a9fbb1d4f6e95c17b73faedb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:49 +0000
Subject: [PATCH 55/92] fix: n-body final states with a photon no longer trip
 an assertion

---
 hazma/spectra/_nbody.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hazma/spectra/_nbody.py b/hazma/spectra/_nbody.py
index edff3c6..1b3de8c 100644
--- a/hazma/spectra/_nbody.py
+++ b/hazma/spectra/_nbody.py
@@ -22,10 +22,10 @@ from .altarelli_parisi import (
 
 MSqrd = Union[Callable[[Any], Any], Callable[[Any, Any], Any]]
 
-# Currently implemented backend integrators
 # Neutrino states, in the order of the leading axis of the neutrino spectra
 _NEUTRINOS = ["ve", "vm", "vt"]
 
+# Currently implemented backend integrators
 _INTEGRATORS = ["quad", "trapz", "simps", "rambo"]
 
 
@@ -62,6 +62,8 @@ _dnde_photon_dict: Dict[str, Callable[[RealArray, float], RealArray]] = {
     "ve": _dnde_zero,
     "vm": _dnde_zero,
     "vt": _dnde_zero,
+    "photon": _dnde_zero,
+    "a": _dnde_zero,
     "mu": _photon.dnde_photon_muon,
     "pi": _photon.dnde_photon_charged_pion,
     "pi0": _photon.dnde_photon_neutral_pion,
@@ -90,6 +92,8 @@ _dnde_positron_dict: Dict[str, Callable[[RealArray, float], RealArray]] = {
     "ve": _dnde_zero,
     "vm": _dnde_zero,
     "vt": _dnde_zero,
+    "photon": _dnde_zero,
+    "a": _dnde_zero,
     "mu": _positron.dnde_positron_muon,
     "pi": _positron.dnde_positron_charged_pion,
     "pi0": _dnde_zero,
@@ -109,6 +113,8 @@ _dnde_neutrino_dict = {
     "ve": _dnde_zero_nu,
     "vm": _dnde_zero_nu,
     "vt": _dnde_zero_nu,
+    "photon": _dnde_zero_nu,
+    "a": _dnde_zero_nu,
     "mu": _neutrino.dnde_neutrino_muon,
     "pi": _neutrino.dnde_neutrino_charged_pion,
     "pi0": _dnde_zero_nu,
@@ -502,6 +508,7 @@ def _dnde_multi_particle(
 
         # if product is in final state, add it to spectrum
         cond = state == product
+        cond = cond or (state == "a" and product == "photon")
         cond = cond or (state == "e" and product == "positron")
         cond = cond or (state in _NEUTRINOS and product == "neutrino")
         if cond:
-- 
2.43.0


From e32f62cedbcddb5710b09d4746776ee3ae2900f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:03 +0000
Subject: [PATCH 56/92] fix: RH-neutrino spectra of the nu eta and l rho
 channels used the pi0 and the kaon

---
 hazma/rh_neutrino/_spectra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/rh_neutrino/_spectra.py b/hazma/rh_neutrino/_spectra.py
index fcbb8e8..c2e95e9 100644
--- a/hazma/rh_neutrino/_spectra.py
+++ b/hazma/rh_neutrino/_spectra.py
@@ -153,7 +153,7 @@ def dnde_v_eta(model: SingleRhNeutrinoModel, product_energies, product: str):
         Differential energy spectrum evaluated at the input energies.
     """
     nu = _NEUTRINO_STRS[model.gen]
-    return _dnde_two_body(model, product_energies, product, (nu, "pi0"))
+    return _dnde_two_body(model, product_energies, product, (nu, "eta"))
 
 
 def dnde_v_rho(model: SingleRhNeutrinoModel, product_energies, product: str):
@@ -299,7 +299,7 @@ def dnde_l_rho(model: SingleRhNeutrinoModel, product_energies, product: str):
         Differential energy spectrum evaluated at the input energies.
     """
     ell = _LEPTON_STRS[model.gen]
-    return _dnde_two_body(model, product_energies, product, (ell, "k"))
+    return _dnde_two_body(model, product_energies, product, (ell, "rho"))
 
 
 def dnde_v_l_l(
-- 
2.43.0


From e6715f182da0e8d3d46bce4e5ce1ad5f0e328355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:03 +0000
Subject: [PATCH 57/92] fix: RH-neutrino neutrino spectra keep their shape
 below threshold and honor the requested flavor

---
 hazma/rh_neutrino/_spectra.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/hazma/rh_neutrino/_spectra.py b/hazma/rh_neutrino/_spectra.py
index c2e95e9..9d1c53b 100644
--- a/hazma/rh_neutrino/_spectra.py
+++ b/hazma/rh_neutrino/_spectra.py
@@ -17,11 +17,23 @@ from . import _widths as rhn_widths
 _LEPTON_STRS = ["e", "mu", "tau"]
 _NEUTRINO_STRS = ["ve", "vm", "vt"]
 
+# Flavor of the neutrinos counted by each neutrino product. All flavors are
+# returned, along a leading axis, when the flavor is None.
+_NEUTRINO_FLAVORS = {"neutrino": None, "ve": "e", "vm": "mu", "vt": "tau"}
+
 
 def dnde_zero(e, _):
     return np.zeros_like(e)
 
 
+def _dnde_closed(product_energies, product: str):
+    """Spectrum of a channel below its threshold."""
+    shape = np.shape(product_energies)
+    if product == "neutrino":
+        shape = (3, *shape)
+    return np.zeros(shape)
+
+
 def _dnde_two_body(
     model: SingleRhNeutrinoModel,
     product_energies,
@@ -38,7 +50,7 @@ def _dnde_two_body(
         Photon energies where the spectrum should be computed.
     """
     if model.mx < sum(sm_masses[s] for s in states):
-        return np.zeros_like(product_energies)
+        return _dnde_closed(product_energies, product)
 
     if product == "photon":
         return spectra.dnde_photon(
@@ -52,9 +64,12 @@ def _dnde_two_body(
         return spectra.dnde_positron(
             positron_energies=product_energies, cme=model.mx, final_states=states
         )
-    if product in ["neutrino", "ve", "vm", "vt"]:
+    if product in _NEUTRINO_FLAVORS:
         return spectra.dnde_neutrino(
-            neutrino_energies=product_energies, cme=model.mx, final_states=states
+            neutrino_energies=product_energies,
+            cme=model.mx,
+            final_states=states,
+            flavor=_NEUTRINO_FLAVORS[product],
         )
 
     raise ValueError(f"Invalid product {product}.")
@@ -70,7 +85,7 @@ def _dnde_three_body(
     three_body_integrator: str,
 ):
     if model.mx < sum(sm_masses[s] for s in states):
-        return np.zeros_like(product_energies)
+        return _dnde_closed(product_energies, product)
 
     if product == "photon":
         return spectra.dnde_photon(
@@ -94,7 +109,7 @@ def _dnde_three_body(
             three_body_integrator=three_body_integrator,
             msqrd_signature="st",
         )
-    if product in ["neutrino", "ve", "vm", "vt"]:
+    if product in _NEUTRINO_FLAVORS:
         return spectra.dnde_neutrino(
             neutrino_energies=product_energies,
             cme=model.mx,
@@ -103,6 +118,7 @@ def _dnde_three_body(
             nbins=nbins,
             three_body_integrator=three_body_integrator,
             msqrd_signature="st",
+            flavor=_NEUTRINO_FLAVORS[product],
         )
 
     raise ValueError(f"Invalid product {product}.")
-- 
2.43.0


From 872839520b8930e7b9bf1fc0eebb95d96eddb22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:03 +0000
Subject: [PATCH 58/92] fix: RH-neutrino photon and neutrino spectra counted
 both charge modes twice

---
 hazma/rh_neutrino/_model.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/hazma/rh_neutrino/_model.py b/hazma/rh_neutrino/_model.py
index 94b1889..f613f37 100644
--- a/hazma/rh_neutrino/_model.py
+++ b/hazma/rh_neutrino/_model.py
@@ -195,20 +195,14 @@ class RHNeutrino(SingleRhNeutrinoModel, TheoryDec):
         Gets a function taking a photon energy and returning the continuum
         gamma ray spectrum dN/dE for each relevant decay final state.
         """
-        ispositron = product == "positron"
-        conjfactor = 1.0 if ispositron else 2.0
-
-        def pre(self_conjugate):
-            return 1.0 if self_conjugate else conjfactor
 
+        # The branching fractions already count both charge modes of the final
+        # states that aren't self conjugate; the spectra are per decay.
         def mk_dnde(key):
             dnde = self._config[key].dnde
-            self_conjugate = self._config[key].self_conjugate
 
             def new_dnde(energies, **kwargs):
-                return pre(self_conjugate) * dnde(
-                    product_energies=energies, product=product, **kwargs
-                )
+                return dnde(product_energies=energies, product=product, **kwargs)
 
             return new_dnde
 
-- 
2.43.0


From 7286241ac3934eef27697bfed39663453f824e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:03 +0000
Subject: [PATCH 59/92] fix: RH-neutrino widths counted the v l l' final states
 and their conjugates twice

---
 hazma/rh_neutrino/_configure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hazma/rh_neutrino/_configure.py b/hazma/rh_neutrino/_configure.py
index 1bc99dd..3e0b3f7 100644
--- a/hazma/rh_neutrino/_configure.py
+++ b/hazma/rh_neutrino/_configure.py
@@ -170,7 +170,8 @@ def configure(
         fns[key] = RHNFinalStateAttrs(
             dnde=mk_dnde_3body(rhn_spectra.dnde_v_l_l, genv=g1, genl1=g2, genl2=g3),
             width=mk_width_fn(rhn_widths.width_v_l_l, genv=g1, genl1=g2, genl2=g3),
-            self_conjugate=g2 == g3,
+            # The charge conjugate, v1 + l3 + lbar2, is a final state of its own.
+            self_conjugate=True,
             masses=tuple(sm_masses[s] for s in states),
         )
 
-- 
2.43.0


From 815782eadb7564f461ea04572b27b23e5f3089fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:03 +0000
Subject: [PATCH 60/92] fix: RH-neutrino v l l' squared amplitude: V-A
 contraction, ordered like its final state

---
 hazma/rh_neutrino/_widths.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hazma/rh_neutrino/_widths.py b/hazma/rh_neutrino/_widths.py
index df6f5ca..f40d6ae 100644
--- a/hazma/rh_neutrino/_widths.py
+++ b/hazma/rh_neutrino/_widths.py
@@ -436,15 +436,17 @@ def width_v_pi_pi(
 def _msqrd_l_u_d(s, t, model: SingleRhNeutrinoModel, mu, md, ml, ckm):
     r"""Squared matrix element for N -> l + u + d, where u = (nu, up-type-quark)
     and d=(lep,down-type-quark). If u = nu and d=lep, they must have a different
-    generation than l and N.
+    generation than l and N. The momenta are contracted according to the V-A
+    structure of the charged currents: (N.d)(l.u), where s is the invariant mass
+    squared of d and l and t is the invariant mass squared of u and l.
     """
     mx = model.mx
     u = 0.5 * np.tan(2 * model.theta)
     return (
         16.0
         * GF**2
-        * (ml**2 + mx**2 - s - t)
-        * (s + t - mu**2 - md**2)
+        * (t - ml**2 - mu**2)
+        * (mx**2 + md**2 - t)
         * u**2
         * abs(ckm) ** 2
     )
@@ -604,9 +606,11 @@ def _make_msqrd_and_masses_v_l_l(
 
     elif (genn == genl1) and (genv == genl2):
         mu, md, ml = 0.0, ml2, ml1
-        masses = (mu, md, ml)
+        masses = (mu, ml, md)
 
         def msqrd(s, t):
+            # `_msqrd_l_u_d` takes the invariant mass of l and u.
+            t = model.mx**2 + mu**2 + md**2 + ml**2 - s - t
             return _msqrd_l_u_d(s, t, model, mu, md, ml, 1.0)
 
     elif (genn == genl2) and (genv == genl1):
-- 
2.43.0


From bee1e3f26fd2db3964aab02e57b32337e7349964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:03 +0000
Subject: [PATCH 61/92] fix: RH-neutrino v v v squared amplitude: quadratic in
 the mixing, unequal flavors are distinguishable

---
 hazma/rh_neutrino/_widths.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hazma/rh_neutrino/_widths.py b/hazma/rh_neutrino/_widths.py
index f40d6ae..22b4341 100644
--- a/hazma/rh_neutrino/_widths.py
+++ b/hazma/rh_neutrino/_widths.py
@@ -746,8 +746,14 @@ def width_v_l_l(
 def msqrd_v_v_v(s, t, model: SingleRhNeutrinoModel, gen: Generation):
     mx = model.mx
     u = 0.5 * np.tan(2 * model.theta)
-    pre = 2.0 if gen == model.gen else 1.0
-    return -pre * 16 * GF**2 * (s**2 + s * t + t**2 - mx**2 * (s + t)) * u
+    if gen == model.gen:
+        # Symmetric since all neutrinos are equivalent.
+        return 32 * GF**2 * u**2 * (mx**2 * (s + t) - s**2 - s * t - t**2)
+
+    # Only neutrinos 2 and 3 are equivalent. Average over which of them is
+    # contracted with neutrino 1.
+    m12 = mx**2 - s - t
+    return 2 * GF**2 * u**2 * (m12 * (mx**2 - m12) + t * (mx**2 - t))
 
 
 def energy_distributions_v_v_v(
-- 
2.43.0


From dac7e46a350e83686b31950cf8f6d86ce39a033d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:03 +0000
Subject: [PATCH 62/92] fix: RH-neutrino widths into pseudoscalar mesons: spin
 structure and decay-constant normalization

---
 hazma/rh_neutrino/_widths.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hazma/rh_neutrino/_widths.py b/hazma/rh_neutrino/_widths.py
index 22b4341..e8934da 100644
--- a/hazma/rh_neutrino/_widths.py
+++ b/hazma/rh_neutrino/_widths.py
@@ -86,7 +86,8 @@ def _width_v_hp(model: SingleRhNeutrinoModel, mp, fp):
 
     x = mp / mx
     u = 0.5 * np.tan(2 * model.theta)
-    return u**2 * parameters.GF**2 * fp**2 * mx**3 * (1.0 - x**2) ** 2 / (64.0 * np.pi)
+    # `fp` is normalized such that f_pi = 92 MeV
+    return u**2 * parameters.GF**2 * fp**2 * mx**3 * (1.0 - x**2) ** 2 / (16.0 * np.pi)
 
 
 def width_v_pi0(model: SingleRhNeutrinoModel):
@@ -117,11 +118,12 @@ def _width_l_hp(model: SingleRhNeutrinoModel, ml, mh, fh, ckm):
     xl = ml / mx
     u = 0.5 * np.tan(2 * model.theta)
 
-    pre = u**2 * parameters.GF**2 * abs(ckm) ** 2 * fh**2 * mx**3 / (32 * np.pi)
+    # `fh` is normalized such that f_pi = 92 MeV
+    pre = u**2 * parameters.GF**2 * abs(ckm) ** 2 * fh**2 * mx**3 / (8 * np.pi)
 
     return (
         pre
-        * ((1 - xl**2) ** 2 + xh**2 * (1 + xl**2) - 2 * xh**4)
+        * ((1 - xl**2) ** 2 - xh**2 * (1 + xl**2))
         * np.sqrt(kallen_lambda(1, xh**2, xl**2))
     )
 
-- 
2.43.0


From 29eec4b25c4393067303718927c032849b332c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:03 +0000
Subject: [PATCH 63/92] fix: RH-neutrino width of flavor-violating v l l final
 states is zero

---
 hazma/rh_neutrino/_widths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/rh_neutrino/_widths.py b/hazma/rh_neutrino/_widths.py
index e8934da..366e3c0 100644
--- a/hazma/rh_neutrino/_widths.py
+++ b/hazma/rh_neutrino/_widths.py
@@ -723,7 +723,7 @@ def width_v_l_l(
     """
     genn = model.gen
 
-    if genn == genv:
+    if genn == genv and genl1 == genl2:
         return _width_v_l_l(model, genl1)
 
     mu = 0.0
-- 
2.43.0


From 2e3402eae84f97aa36efcdc7a0a1ebe8dee6048d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:10 +0000
Subject: [PATCH 64/92] fix: GeV vector three-body spectra pair decay spectra
 with the wrong particle

The energy distributions are ordered like the form factor's final-state
masses (odd particle first, kaons before the pion).
---
 hazma/vector_mediator/_gev/neutrino.py | 14 +++++++-------
 hazma/vector_mediator/_gev/positron.py | 14 +++++++-------
 hazma/vector_mediator/_gev/spectra.py  | 17 +++++++++--------
 3 files changed, 23 insertions(+), 22 deletions(-)

diff --git a/hazma/vector_mediator/_gev/neutrino.py b/hazma/vector_mediator/_gev/neutrino.py
index 6c3c96e..28a483a 100644
--- a/hazma/vector_mediator/_gev/neutrino.py
+++ b/hazma/vector_mediator/_gev/neutrino.py
@@ -509,9 +509,9 @@ def dnde_neutrino_pi_pi_pi0(
     ff: VectorFormFactorPiPiPi0 = self._ff_pi_pi_pi0
 
     dnde_decays = [
+        _dnde_neutrino_zero,
         spectra.dnde_neutrino_charged_pion,
         spectra.dnde_neutrino_charged_pion,
-        _dnde_neutrino_zero,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -556,9 +556,9 @@ def dnde_neutrino_pi_pi_eta(
     ff: VectorFormFactorPiPiEta = self._ff_pi_pi_eta
 
     dnde_decays = [
+        spectra.dnde_neutrino_eta,
         spectra.dnde_neutrino_charged_pion,
         spectra.dnde_neutrino_charged_pion,
-        spectra.dnde_neutrino_eta,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -601,9 +601,9 @@ def dnde_neutrino_pi_pi_etap(
     ff: VectorFormFactorPiPiEtaPrime = self._ff_pi_pi_etap
 
     dnde_decays = [
+        spectra.dnde_neutrino_eta_prime,
         spectra.dnde_neutrino_charged_pion,
         spectra.dnde_neutrino_charged_pion,
-        spectra.dnde_neutrino_eta_prime,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -646,9 +646,9 @@ def dnde_neutrino_pi_pi_omega(
     ff: VectorFormFactorPiPiOmega = self._ff_pi_pi_omega
 
     dnde_decays = [
+        spectra.dnde_neutrino_omega,
         spectra.dnde_neutrino_charged_pion,
         spectra.dnde_neutrino_charged_pion,
-        spectra.dnde_neutrino_omega,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -691,9 +691,9 @@ def dnde_neutrino_pi0_pi0_omega(
     ff: VectorFormFactorPi0Pi0Omega = self._ff_pi0_pi0_omega
 
     dnde_decays = [
+        spectra.dnde_neutrino_omega,
         _dnde_neutrino_zero,
         _dnde_neutrino_zero,
-        spectra.dnde_neutrino_omega,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -737,9 +737,9 @@ def dnde_neutrino_pi0_k0_k0(
     ff: VectorFormFactorPi0K0K0 = self._ff_pi0_k0_k0
 
     dnde_decays = [
-        _dnde_neutrino_zero,
         spectra.dnde_neutrino_long_kaon,
         spectra.dnde_neutrino_short_kaon,
+        _dnde_neutrino_zero,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -784,9 +784,9 @@ def dnde_neutrino_pi0_k_k(
     ff: VectorFormFactorPi0KpKm = self._ff_pi0_k_k
 
     dnde_decays = [
-        _dnde_neutrino_zero,
         spectra.dnde_neutrino_charged_kaon,
         spectra.dnde_neutrino_charged_kaon,
+        _dnde_neutrino_zero,
     ]
     dists = ff.energy_distributions(
         q=cme,
diff --git a/hazma/vector_mediator/_gev/positron.py b/hazma/vector_mediator/_gev/positron.py
index 913b41a..7b97dfb 100644
--- a/hazma/vector_mediator/_gev/positron.py
+++ b/hazma/vector_mediator/_gev/positron.py
@@ -438,9 +438,9 @@ def dnde_positron_pi_pi_pi0(
     ff: VectorFormFactorPiPiPi0 = self._ff_pi_pi_pi0
 
     dnde_decays = [
+        _dnde_positron_zero,
         spectra.dnde_positron_charged_pion,
         spectra.dnde_positron_charged_pion,
-        _dnde_positron_zero,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -480,9 +480,9 @@ def dnde_positron_pi_pi_eta(
     ff: VectorFormFactorPiPiEta = self._ff_pi_pi_eta
 
     dnde_decays = [
+        spectra.dnde_positron_eta,
         spectra.dnde_positron_charged_pion,
         spectra.dnde_positron_charged_pion,
-        spectra.dnde_positron_eta,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -522,9 +522,9 @@ def dnde_positron_pi_pi_etap(
     ff: VectorFormFactorPiPiEtaPrime = self._ff_pi_pi_etap
 
     dnde_decays = [
+        spectra.dnde_positron_eta_prime,
         spectra.dnde_positron_charged_pion,
         spectra.dnde_positron_charged_pion,
-        spectra.dnde_positron_eta_prime,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -564,9 +564,9 @@ def dnde_positron_pi_pi_omega(
     ff: VectorFormFactorPiPiOmega = self._ff_pi_pi_omega
 
     dnde_decays = [
+        spectra.dnde_positron_omega,
         spectra.dnde_positron_charged_pion,
         spectra.dnde_positron_charged_pion,
-        spectra.dnde_positron_omega,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -606,9 +606,9 @@ def dnde_positron_pi0_pi0_omega(
     ff: VectorFormFactorPi0Pi0Omega = self._ff_pi0_pi0_omega
 
     dnde_decays = [
+        spectra.dnde_positron_omega,
         _dnde_positron_zero,
         _dnde_positron_zero,
-        spectra.dnde_positron_omega,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -649,9 +649,9 @@ def dnde_positron_pi0_k0_k0(
     ff: VectorFormFactorPi0K0K0 = self._ff_pi0_k0_k0
 
     dnde_decays = [
-        _dnde_positron_zero,
         spectra.dnde_positron_long_kaon,
         spectra.dnde_positron_short_kaon,
+        _dnde_positron_zero,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -693,9 +693,9 @@ def dnde_positron_pi0_k_k(
     ff: VectorFormFactorPi0KpKm = self._ff_pi0_k_k
 
     dnde_decays = [
-        _dnde_positron_zero,
         spectra.dnde_positron_charged_kaon,
         spectra.dnde_positron_charged_kaon,
+        _dnde_positron_zero,
     ]
     dists = ff.energy_distributions(
         q=cme,
diff --git a/hazma/vector_mediator/_gev/spectra.py b/hazma/vector_mediator/_gev/spectra.py
index 15d1157..fdd7dab 100644
--- a/hazma/vector_mediator/_gev/spectra.py
+++ b/hazma/vector_mediator/_gev/spectra.py
@@ -443,9 +443,9 @@ def dnde_photon_pi_pi_pi0(
     couplings = self._couplings
 
     dnde_decays = [
+        spectra.dnde_photon_neutral_pion,
         spectra.dnde_photon_charged_pion,
         spectra.dnde_photon_charged_pion,
-        spectra.dnde_photon_neutral_pion,
     ]
     dists = ff.energy_distributions(q=cme, couplings=couplings, nbins=nbins, npts=npts)
     dnde = _make_spectrum_n_body_decay(photon_energies, dists, dnde_decays)
@@ -454,7 +454,8 @@ def dnde_photon_pi_pi_pi0(
         q=cme, couplings=couplings, nbins=nbins
     )
 
-    dist = inv_mass_dist[(0, 1)]
+    # Particles 1 and 2 are the charged pions.
+    dist = inv_mass_dist[(1, 2)]
     ps = dist.probabilities
     ms = dist.bin_centers
 
@@ -489,9 +490,9 @@ def dnde_photon_pi_pi_eta(
     ff: VectorFormFactorPiPiEta = self._ff_pi_pi_eta
 
     dnde_decays = [
+        spectra.dnde_photon_eta,
         spectra.dnde_photon_charged_pion,
         spectra.dnde_photon_charged_pion,
-        spectra.dnde_photon_eta,
     ]
     dists = ff.energy_distributions(q=cme, couplings=self._couplings, nbins=nbins)
     dec = _make_spectrum_n_body_decay(photon_energies, dists, dnde_decays)
@@ -522,9 +523,9 @@ def dnde_photon_pi_pi_etap(
     ff: VectorFormFactorPiPiEtaPrime = self._ff_pi_pi_etap
 
     dnde_decays = [
+        spectra.dnde_photon_eta_prime,
         spectra.dnde_photon_charged_pion,
         spectra.dnde_photon_charged_pion,
-        spectra.dnde_photon_eta_prime,
     ]
     dists = ff.energy_distributions(q=cme, couplings=self._couplings, nbins=nbins)
     dec = _make_spectrum_n_body_decay(photon_energies, dists, dnde_decays)
@@ -555,9 +556,9 @@ def dnde_photon_pi_pi_omega(
     ff: VectorFormFactorPiPiOmega = self._ff_pi_pi_omega
 
     dnde_decays = [
+        spectra.dnde_photon_omega,
         spectra.dnde_photon_charged_pion,
         spectra.dnde_photon_charged_pion,
-        spectra.dnde_photon_omega,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -579,9 +580,9 @@ def dnde_photon_pi0_pi0_omega(
     ff: VectorFormFactorPi0Pi0Omega = self._ff_pi0_pi0_omega
 
     dnde_decays = [
+        spectra.dnde_photon_omega,
         spectra.dnde_photon_neutral_pion,
         spectra.dnde_photon_neutral_pion,
-        spectra.dnde_photon_omega,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -603,9 +604,9 @@ def dnde_photon_pi0_k0_k0(
     ff: VectorFormFactorPi0K0K0 = self._ff_pi0_k0_k0
 
     dnde_decays = [
-        spectra.dnde_photon_neutral_pion,
         spectra.dnde_photon_long_kaon,
         spectra.dnde_photon_short_kaon,
+        spectra.dnde_photon_neutral_pion,
     ]
     dists = ff.energy_distributions(
         q=cme, couplings=self._couplings, npts=npts, nbins=nbins
@@ -625,9 +626,9 @@ def dnde_photon_pi0_k_k(
     ff: VectorFormFactorPi0KpKm = self._ff_pi0_k_k
 
     dnde_decays = [
-        spectra.dnde_photon_neutral_pion,
         spectra.dnde_photon_charged_kaon,
         spectra.dnde_photon_charged_kaon,
+        spectra.dnde_photon_neutral_pion,
     ]
     dists = ff.energy_distributions(
         q=cme, couplings=self._couplings, npts=npts, nbins=nbins
-- 
2.43.0


From 9401d8e93afdaf9ecdfc957034960f670765d998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:10 +0000
Subject: [PATCH 65/92] fix: GeV vector pi k k0 and four-pion spectra decay the
 wrong particles

Four-pion states decayed two of the pions as kaons, and pi k k0 used a
neutral pion and two charged kaons.
---
 hazma/vector_mediator/_gev/neutrino.py | 19 +++++++++++++------
 hazma/vector_mediator/_gev/positron.py | 19 +++++++++++++------
 hazma/vector_mediator/_gev/spectra.py  | 15 +++++++++++----
 3 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/hazma/vector_mediator/_gev/neutrino.py b/hazma/vector_mediator/_gev/neutrino.py
index 28a483a..67dc1ce 100644
--- a/hazma/vector_mediator/_gev/neutrino.py
+++ b/hazma/vector_mediator/_gev/neutrino.py
@@ -88,6 +88,13 @@ def _make_spectrum_n_body_decay(
     return dnde
 
 
+def _dnde_neutrino_neutral_kaon(neutrino_energies, energy, flavor):
+    """Spectrum from a strangeness eigenstate: an equal mixture of KL and KS."""
+    dec_l = spectra.dnde_neutrino_long_kaon(neutrino_energies, energy, flavor)
+    dec_s = spectra.dnde_neutrino_short_kaon(neutrino_energies, energy, flavor)
+    return 0.5 * (dec_l + dec_s)
+
+
 def _dnde_neutrino_two_body(
     neutrino_energies, *, cme, m1, m2, dnde1, dnde2, flavor: NeutrinoFlavor
 ):
@@ -831,9 +838,9 @@ def dnde_neutrino_pi_k_k0(
     ff: VectorFormFactorPiKK0 = self._ff_pi_k_k0
 
     dnde_decays = [
-        _dnde_neutrino_zero,
-        spectra.dnde_neutrino_charged_kaon,
+        _dnde_neutrino_neutral_kaon,
         spectra.dnde_neutrino_charged_kaon,
+        spectra.dnde_neutrino_charged_pion,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -883,8 +890,8 @@ def dnde_neutrino_pi_pi_pi_pi(
     ff: VectorFormFactorPiPiPiPi = self._ff_pi_pi_pi_pi
 
     dnde_decays = [
-        spectra.dnde_neutrino_charged_kaon,
-        spectra.dnde_neutrino_charged_kaon,
+        spectra.dnde_neutrino_charged_pion,
+        spectra.dnde_neutrino_charged_pion,
         spectra.dnde_neutrino_charged_pion,
         spectra.dnde_neutrino_charged_pion,
     ]
@@ -931,8 +938,8 @@ def dnde_neutrino_pi_pi_pi0_pi0(
     ff: VectorFormFactorPiPiPi0Pi0 = self._ff_pi_pi_pi0_pi0
 
     dnde_decays = [
-        spectra.dnde_neutrino_charged_kaon,
-        spectra.dnde_neutrino_charged_kaon,
+        spectra.dnde_neutrino_charged_pion,
+        spectra.dnde_neutrino_charged_pion,
         _dnde_neutrino_zero,
         _dnde_neutrino_zero,
     ]
diff --git a/hazma/vector_mediator/_gev/positron.py b/hazma/vector_mediator/_gev/positron.py
index 7b97dfb..b09f752 100644
--- a/hazma/vector_mediator/_gev/positron.py
+++ b/hazma/vector_mediator/_gev/positron.py
@@ -81,6 +81,13 @@ def _make_spectrum_n_body_decay(
     return dnde
 
 
+def _dnde_positron_neutral_kaon(positron_energies, energy):
+    """Spectrum from a strangeness eigenstate: an equal mixture of KL and KS."""
+    dec_l = spectra.dnde_positron_long_kaon(positron_energies, energy)
+    dec_s = spectra.dnde_positron_short_kaon(positron_energies, energy)
+    return 0.5 * (dec_l + dec_s)
+
+
 def _dnde_positron_two_body(positron_energies, *, cme, m1, m2, dnde1, dnde2):
     if cme < m1 + m2:
         return np.zeros_like(positron_energies)
@@ -737,9 +744,9 @@ def dnde_positron_pi_k_k0(
     ff: VectorFormFactorPiKK0 = self._ff_pi_k_k0
 
     dnde_decays = [
-        _dnde_positron_zero,
-        spectra.dnde_positron_charged_kaon,
+        _dnde_positron_neutral_kaon,
         spectra.dnde_positron_charged_kaon,
+        spectra.dnde_positron_charged_pion,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -786,8 +793,8 @@ def dnde_positron_pi_pi_pi_pi(
     ff: VectorFormFactorPiPiPiPi = self._ff_pi_pi_pi_pi
 
     dnde_decays = [
-        spectra.dnde_positron_charged_kaon,
-        spectra.dnde_positron_charged_kaon,
+        spectra.dnde_positron_charged_pion,
+        spectra.dnde_positron_charged_pion,
         spectra.dnde_positron_charged_pion,
         spectra.dnde_positron_charged_pion,
     ]
@@ -831,8 +838,8 @@ def dnde_positron_pi_pi_pi0_pi0(
     ff: VectorFormFactorPiPiPi0Pi0 = self._ff_pi_pi_pi0_pi0
 
     dnde_decays = [
-        spectra.dnde_positron_charged_kaon,
-        spectra.dnde_positron_charged_kaon,
+        spectra.dnde_positron_charged_pion,
+        spectra.dnde_positron_charged_pion,
         _dnde_positron_zero,
         _dnde_positron_zero,
     ]
diff --git a/hazma/vector_mediator/_gev/spectra.py b/hazma/vector_mediator/_gev/spectra.py
index fdd7dab..43c5783 100644
--- a/hazma/vector_mediator/_gev/spectra.py
+++ b/hazma/vector_mediator/_gev/spectra.py
@@ -88,6 +88,13 @@ def _make_spectrum_n_body_decay(
     return dnde
 
 
+def _dnde_photon_neutral_kaon(photon_energies, energy):
+    """Spectrum from a strangeness eigenstate: an equal mixture of KL and KS."""
+    dec_l = spectra.dnde_photon_long_kaon(photon_energies, energy)
+    dec_s = spectra.dnde_photon_short_kaon(photon_energies, energy)
+    return 0.5 * (dec_l + dec_s)
+
+
 def _dnde_photon_two_body(photon_energies, *, cme, m1, m2, dnde1, dnde2):
     if cme < m1 + m2:
         return np.zeros_like(photon_energies)
@@ -648,9 +655,9 @@ def dnde_photon_pi_k_k0(
     ff: VectorFormFactorPiKK0 = self._ff_pi_k_k0
 
     dnde_decays = [
-        spectra.dnde_photon_neutral_pion,
-        spectra.dnde_photon_charged_kaon,
+        _dnde_photon_neutral_kaon,
         spectra.dnde_photon_charged_kaon,
+        spectra.dnde_photon_charged_pion,
     ]
     dists = ff.energy_distributions(
         q=cme,
@@ -678,8 +685,8 @@ def dnde_photon_pi_pi_pi_pi(
     ff: VectorFormFactorPiPiPiPi = self._ff_pi_pi_pi_pi
 
     dnde_decays = [
-        spectra.dnde_photon_charged_kaon,
-        spectra.dnde_photon_charged_kaon,
+        spectra.dnde_photon_charged_pion,
+        spectra.dnde_photon_charged_pion,
         spectra.dnde_photon_charged_pion,
         spectra.dnde_photon_charged_pion,
     ]
-- 
2.43.0


From 8dae328c4a56981df3980a437df7d4fe2e4dec14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:10 +0000
Subject: [PATCH 66/92] fix: GeV vector k k positron and neutrino spectra count
 one kaon

---
 hazma/vector_mediator/_gev/neutrino.py | 2 +-
 hazma/vector_mediator/_gev/positron.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hazma/vector_mediator/_gev/neutrino.py b/hazma/vector_mediator/_gev/neutrino.py
index 67dc1ce..e81103a 100644
--- a/hazma/vector_mediator/_gev/neutrino.py
+++ b/hazma/vector_mediator/_gev/neutrino.py
@@ -263,7 +263,7 @@ def dnde_neutrino_k_k(
     if cme < 2 * mk:
         return _make_zeros(neutrino_energies)
 
-    dec = spectra.dnde_neutrino_charged_kaon(
+    dec = 2 * spectra.dnde_neutrino_charged_kaon(
         neutrino_energies, cme / 2.0, flavor=flavor
     )
     return dec
diff --git a/hazma/vector_mediator/_gev/positron.py b/hazma/vector_mediator/_gev/positron.py
index b09f752..9090aca 100644
--- a/hazma/vector_mediator/_gev/positron.py
+++ b/hazma/vector_mediator/_gev/positron.py
@@ -233,7 +233,7 @@ def dnde_positron_k_k(
     if cme < 2 * mk:
         return np.zeros_like(positron_energies)
 
-    dec = spectra.dnde_positron_charged_kaon(positron_energies, cme / 2.0)
+    dec = 2 * spectra.dnde_positron_charged_kaon(positron_energies, cme / 2.0)
     return dec
 
 
-- 
2.43.0


From d78f2857baad760634d40429de127b08a0c11dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:10 +0000
Subject: [PATCH 67/92] fix: GeV vector pi0 pi0 gamma spectrum applies the
 omega branching fraction twice

---
 hazma/vector_mediator/_gev/spectra.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hazma/vector_mediator/_gev/spectra.py b/hazma/vector_mediator/_gev/spectra.py
index 43c5783..a6bdc73 100644
--- a/hazma/vector_mediator/_gev/spectra.py
+++ b/hazma/vector_mediator/_gev/spectra.py
@@ -396,8 +396,9 @@ def dnde_photon_pi0_pi0_gamma(_, photon_energies, cme: float):
 
     dnde = spectra.dnde_photon_neutral_pion(photon_energies, epi1)
 
-    # Contributions from omega decay into pi0 + gamma:
-    br_omega_to_pi0_a = 8.34e-2
+    # Contributions from omega decay into pi0 + gamma. The width and cross
+    # section of this final state already contain the branching fraction of
+    # omega -> pi0 + gamma, so each event has exactly one such decay.
 
     # Factors to boost from omega rest-frame to V rest-frame.
     gamma2 = eomega / momega
@@ -409,15 +410,14 @@ def dnde_photon_pi0_pi0_gamma(_, photon_energies, cme: float):
     # Final state photon from omega decay: In the omega rest-frame, the
     # spectrum is a delta-function. We perform one boost to bring into the V
     # rest-frame.
-    pre = br_omega_to_pi0_a
     e0 = (momega**2 - mpi0**2) / (2 * momega)
-    dnde += pre * boost_delta_function(photon_energies, e0=e0, m=0.0, beta=beta2)
+    dnde += boost_delta_function(photon_energies, e0=e0, m=0.0, beta=beta2)
 
     # Double-boosted neutral pion: In the pion rest-frame, the spectra is a
     # delta-function. We then boost this into the omega rest-frame, then again
     # into the V rest-frame.
     br_pi0_to_a_a = 98.823e-2
-    pre = 2.0 * br_omega_to_pi0_a * br_pi0_to_a_a
+    pre = 2.0 * br_pi0_to_a_a
     e0 = mpi0 / 2.0
     dnde += pre * double_boost_delta_function(
         photon_energies, e0=e0, m=0.0, beta1=beta1, beta2=beta2
-- 
2.43.0


From bbea7cd1b6a2f6d81bed3d14428b780fbc85544f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:10 +0000
Subject: [PATCH 68/92] fix: GeV vector four-charged-pion FSR misses one of the
 opposite-sign pairs

---
 hazma/vector_mediator/_gev/spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/vector_mediator/_gev/spectra.py b/hazma/vector_mediator/_gev/spectra.py
index a6bdc73..9ebb13a 100644
--- a/hazma/vector_mediator/_gev/spectra.py
+++ b/hazma/vector_mediator/_gev/spectra.py
@@ -699,7 +699,7 @@ def dnde_photon_pi_pi_pi_pi(
 
     dnde = _make_spectrum_n_body_decay(photon_energies, dists, dnde_decays)
 
-    pairs = [(0, 1), (1, 2), (2, 3)]
+    pairs = [(0, 1), (0, 3), (1, 2), (2, 3)]
     inv_mass_dist = ff.invariant_mass_distributions(
         q=cme,
         couplings=self._couplings,
-- 
2.43.0


From ea172492c303515f7fecf0550eb46a89aeddc7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:10 +0000
Subject: [PATCH 69/92] fix: GeV vector v v spectra: weight, frame and boost of
 the mediator decays

The photon lines were unweighted (and one used the charged-pion mass); the
positron and neutrino spectra inverted the boost, evaluated the rest-frame
decay at the center-of-mass energy, ignored the branching fractions and
counted one vector.
---
 hazma/vector_mediator/_gev/neutrino.py | 70 +++++++++++++++-----------
 hazma/vector_mediator/_gev/positron.py | 69 ++++++++++++++-----------
 hazma/vector_mediator/_gev/spectra.py  | 23 ++++++---
 hazma/vector_mediator/_gev/utils.py    | 44 +++++++++++++++-
 4 files changed, 138 insertions(+), 68 deletions(-)

diff --git a/hazma/vector_mediator/_gev/neutrino.py b/hazma/vector_mediator/_gev/neutrino.py
index e81103a..04e697e 100644
--- a/hazma/vector_mediator/_gev/neutrino.py
+++ b/hazma/vector_mediator/_gev/neutrino.py
@@ -32,9 +32,10 @@ from hazma.parameters import neutral_pion_mass as mpi0
 from hazma.parameters import omega_mass as momega
 from hazma.parameters import phi_mass as mphi
 from hazma.phase_space import PhaseSpaceDistribution1D
-from hazma.spectra import boost
 from hazma.utils import NeutrinoFlavor
 
+from .utils import boost_from_rest_frame
+
 NeutrinoDecaySpectrumFn = Callable[[Any, float, NeutrinoFlavor], Any]
 
 
@@ -961,7 +962,6 @@ def dnde_neutrino_v_v(
     cme,
     flavor: NeutrinoFlavor,
     *,
-    method: str = "quad",
     npts: int = 1 << 15,
     nbins: int = 30,
 ):
@@ -981,44 +981,54 @@ def dnde_neutrino_v_v(
     dnde: array
         Spectrum evaluated at `neutrino_energies`.
     """
-    gamma = 2.0 * self.mv / cme
+    gamma = 0.5 * cme / self.mv
     if gamma < 1.0:
         return _make_zeros(neutrino_energies)
 
     beta = np.sqrt(1.0 - gamma**-2)
 
+    pws = self.partial_widths()
+    pw = sum(pws.values())
+
     kwargs = {"npts": npts, "nbins": nbins}
     kwargs2 = {"nbins": nbins}
 
+    # Channels contributing in the rest-frame of the vector
+    channels = {
+        "e e": (dnde_neutrino_e_e, {}),
+        "mu mu": (dnde_neutrino_mu_mu, {}),
+        "pi pi": (dnde_neutrino_pi_pi, {}),
+        "k0 k0": (dnde_neutrino_k0_k0, {}),
+        "k k": (dnde_neutrino_k_k, {}),
+        "pi0 gamma": (dnde_neutrino_pi0_gamma, {}),
+        "eta gamma": (dnde_neutrino_eta_gamma, {}),
+        "pi0 phi": (dnde_neutrino_pi0_phi, {}),
+        "eta phi": (dnde_neutrino_eta_phi, {}),
+        "eta omega": (dnde_neutrino_eta_omega, {}),
+        "pi0 pi0 gamma": (dnde_neutrino_pi0_pi0_gamma, {}),
+        "pi pi pi0": (dnde_neutrino_pi_pi_pi0, kwargs),
+        "pi pi eta": (dnde_neutrino_pi_pi_eta, kwargs2),
+        "pi pi etap": (dnde_neutrino_pi_pi_etap, kwargs2),
+        "pi pi omega": (dnde_neutrino_pi_pi_omega, kwargs2),
+        "pi0 pi0 omega": (dnde_neutrino_pi0_pi0_omega, kwargs2),
+        "pi0 k0 k0": (dnde_neutrino_pi0_k0_k0, kwargs),
+        "pi0 k k": (dnde_neutrino_pi0_k_k, kwargs),
+        "pi k k0": (dnde_neutrino_pi_k_k0, kwargs),
+        "pi pi pi pi": (dnde_neutrino_pi_pi_pi_pi, kwargs),
+        "pi pi pi0 pi0": (dnde_neutrino_pi_pi_pi0_pi0, kwargs),
+    }
+
     def dnde(es):
-        args = (es, cme, flavor)
         spec = np.zeros_like(es)
-        spec += dnde_neutrino_e_e(self, *args)
-        spec += dnde_neutrino_mu_mu(self, *args)
-        spec += dnde_neutrino_pi_pi(self, *args)
-        spec += dnde_neutrino_k0_k0(self, *args)
-        spec += dnde_neutrino_k_k(self, *args)
-        spec += dnde_neutrino_pi0_gamma(self, *args)
-        spec += dnde_neutrino_eta_gamma(self, *args)
-        spec += dnde_neutrino_pi0_phi(self, *args)
-        spec += dnde_neutrino_eta_phi(self, *args)
-        spec += dnde_neutrino_eta_omega(self, *args)
-        spec += dnde_neutrino_pi0_pi0_gamma(self, *args)
-        spec += dnde_neutrino_pi_pi_pi0(self, *args, **kwargs)
-        spec += dnde_neutrino_pi_pi_eta(self, *args, **kwargs2)
-        spec += dnde_neutrino_pi_pi_etap(self, *args, **kwargs2)
-        spec += dnde_neutrino_pi_pi_omega(self, *args, **kwargs2)
-        spec += dnde_neutrino_pi0_pi0_omega(self, *args, **kwargs2)
-        spec += dnde_neutrino_pi0_k0_k0(self, *args, **kwargs)
-        spec += dnde_neutrino_pi0_k_k(self, *args, **kwargs)
-        spec += dnde_neutrino_pi_k_k0(self, *args, **kwargs)
-        spec += dnde_neutrino_pi_pi_pi_pi(self, *args, **kwargs)
-        spec += dnde_neutrino_pi_pi_pi0_pi0(self, *args, **kwargs)
-
-        return spec
-
-    booster = boost.make_boost_function(dnde, mass=0.0)
-    return booster(neutrino_energies, beta, method=method)
+        for state, (fn, kws) in channels.items():
+            if pws[state] > 0.0:
+                spec += pws[state] / pw * fn(self, es, self.mv, flavor, **kws)
+        # Factor of 2 for 2 vectors
+        return 2 * spec
+
+    return boost_from_rest_frame(
+        dnde, neutrino_energies, emax=self.mv / 2, beta=beta
+    )
 
 
 NeutrinoSpectrumFunctions = TypedDict(
diff --git a/hazma/vector_mediator/_gev/positron.py b/hazma/vector_mediator/_gev/positron.py
index 9090aca..1a0d569 100644
--- a/hazma/vector_mediator/_gev/positron.py
+++ b/hazma/vector_mediator/_gev/positron.py
@@ -33,7 +33,8 @@ from hazma.parameters import neutral_pion_mass as mpi0
 from hazma.parameters import omega_mass as momega
 from hazma.parameters import phi_mass as mphi
 from hazma.phase_space import PhaseSpaceDistribution1D
-from hazma.spectra import boost
+
+from .utils import boost_from_rest_frame
 
 PositronDecaySpectrumFn = Callable[[Any, float], Any]
 
@@ -860,7 +861,6 @@ def dnde_positron_v_v(
     positron_energies,
     cme,
     *,
-    method="quad",
     npts: int = 1 << 15,
     nbins: int = 30,
 ):
@@ -878,44 +878,53 @@ def dnde_positron_v_v(
     dnde: array
         Spectrum evaluated at `photon_energies`.
     """
-    gamma = 2.0 * self.mv / cme
+    gamma = 0.5 * cme / self.mv
     if gamma < 1.0:
         return np.zeros_like(positron_energies)
 
     beta = np.sqrt(1.0 - gamma**-2)
 
+    pws = self.partial_widths()
+    pw = sum(pws.values())
+
     kwargs = {"npts": npts, "nbins": nbins}
     kwargs2 = {"nbins": nbins}
 
+    # Channels contributing in the rest-frame of the vector
+    channels = {
+        "e e": (dnde_positron_e_e, {}),
+        "mu mu": (dnde_positron_mu_mu, {}),
+        "pi pi": (dnde_positron_pi_pi, {}),
+        "k0 k0": (dnde_positron_k0_k0, {}),
+        "k k": (dnde_positron_k_k, {}),
+        "pi0 gamma": (dnde_positron_pi0_gamma, {}),
+        "eta gamma": (dnde_positron_eta_gamma, {}),
+        "pi0 phi": (dnde_positron_pi0_phi, {}),
+        "eta phi": (dnde_positron_eta_phi, {}),
+        "eta omega": (dnde_positron_eta_omega, {}),
+        "pi0 pi0 gamma": (dnde_positron_pi0_pi0_gamma, {}),
+        "pi pi pi0": (dnde_positron_pi_pi_pi0, kwargs),
+        "pi pi eta": (dnde_positron_pi_pi_eta, kwargs2),
+        "pi pi etap": (dnde_positron_pi_pi_etap, kwargs2),
+        "pi pi omega": (dnde_positron_pi_pi_omega, kwargs2),
+        "pi0 pi0 omega": (dnde_positron_pi0_pi0_omega, kwargs2),
+        "pi0 k0 k0": (dnde_positron_pi0_k0_k0, kwargs),
+        "pi0 k k": (dnde_positron_pi0_k_k, kwargs),
+        "pi k k0": (dnde_positron_pi_k_k0, kwargs),
+        "pi pi pi pi": (dnde_positron_pi_pi_pi_pi, kwargs),
+        "pi pi pi0 pi0": (dnde_positron_pi_pi_pi0_pi0, kwargs),
+    }
+
     def dnde(es):
-        args = (es, cme)
         spec = np.zeros_like(es)
-        spec += dnde_positron_e_e(self, *args)
-        spec += dnde_positron_mu_mu(self, *args)
-        spec += dnde_positron_pi_pi(self, *args)
-        spec += dnde_positron_k0_k0(self, *args)
-        spec += dnde_positron_k_k(self, *args)
-        spec += dnde_positron_pi0_gamma(self, *args)
-        spec += dnde_positron_eta_gamma(self, *args)
-        spec += dnde_positron_pi0_phi(self, *args)
-        spec += dnde_positron_eta_phi(self, *args)
-        spec += dnde_positron_eta_omega(self, *args)
-        spec += dnde_positron_pi0_pi0_gamma(self, *args)
-        spec += dnde_positron_pi_pi_pi0(self, *args, **kwargs)
-        spec += dnde_positron_pi_pi_eta(self, *args, **kwargs2)
-        spec += dnde_positron_pi_pi_etap(self, *args, **kwargs2)
-        spec += dnde_positron_pi_pi_omega(self, *args, **kwargs2)
-        spec += dnde_positron_pi0_pi0_omega(self, *args, **kwargs2)
-        spec += dnde_positron_pi0_k0_k0(self, *args, **kwargs)
-        spec += dnde_positron_pi0_k_k(self, *args, **kwargs)
-        spec += dnde_positron_pi_k_k0(self, *args, **kwargs)
-        spec += dnde_positron_pi_pi_pi_pi(self, *args, **kwargs)
-        spec += dnde_positron_pi_pi_pi0_pi0(self, *args, **kwargs)
-
-        return spec
-
-    return boost.make_boost_function(dnde, mass=me)(
-        positron_energies, beta, method=method
+        for state, (fn, kws) in channels.items():
+            if pws[state] > 0.0:
+                spec += pws[state] / pw * fn(self, es, self.mv, **kws)
+        # Factor of 2 for 2 vectors
+        return 2 * spec
+
+    return boost_from_rest_frame(
+        dnde, positron_energies, emax=self.mv / 2, beta=beta, mass=me
     )
 
 
diff --git a/hazma/vector_mediator/_gev/spectra.py b/hazma/vector_mediator/_gev/spectra.py
index 9ebb13a..40d799f 100644
--- a/hazma/vector_mediator/_gev/spectra.py
+++ b/hazma/vector_mediator/_gev/spectra.py
@@ -21,11 +21,12 @@ from hazma.parameters import neutral_pion_mass as mpi0
 from hazma.parameters import omega_mass as momega
 from hazma.parameters import phi_mass as mphi
 from hazma.phase_space import PhaseSpaceDistribution1D
-from hazma.spectra import boost
 from hazma.spectra.altarelli_parisi import dnde_photon_ap_fermion, dnde_photon_ap_scalar
 from hazma.spectra.boost import boost_delta_function, double_boost_delta_function
 from hazma.utils import RealArray
 
+from .utils import boost_from_rest_frame
+
 if TYPE_CHECKING:
     from hazma.form_factors.vector import (
         VectorFormFactorPi0K0K0,
@@ -769,6 +770,8 @@ def _dnde_photon_v_v_rest_frame(
 
     pws = self.partial_widths()
     pw = sum(pws.values())
+    if pw == 0.0:
+        return np.zeros_like(photon_energies)
     pws = {key: val / pw for key, val in pws.items()}
 
     kwargs = {"npts": npts, "nbins": nbins}
@@ -840,14 +843,20 @@ def dnde_photon_v_v(
 
     beta = np.sqrt(1.0 - gamma**-2)
 
-    dnde = _dnde_photon_v_v_rest_frame(self, photon_energies, npts=npts, nbins=nbins)
-    boosted = boost.dnde_boost_array(dnde, photon_energies, beta)
+    def dnde(es):
+        return _dnde_photon_v_v_rest_frame(self, es, npts=npts, nbins=nbins)
+
+    boosted = boost_from_rest_frame(dnde, photon_energies, emax=mv / 2, beta=beta)
 
+    # Monochromatic photons of the rest-frame, weighted by how often they occur.
     # Factor of 2 for 2 vectors
-    e0pi = 0.5 * (mv - mpi**2 / mv)
-    boosted += 2 * boost_delta_function(photon_energies, e0pi, 0.0, beta)
-    e0eta = 0.5 * (mv - meta**2 / mv)
-    boosted += 2 * boost_delta_function(photon_energies, e0eta, 0.0, beta)
+    pws = self.partial_widths()
+    pw = sum(pws.values())
+    for state, mass in (("pi0 gamma", mpi0), ("eta gamma", meta)):
+        if pws[state] > 0.0:
+            e0 = 0.5 * (mv - mass**2 / mv)
+            bf = pws[state] / pw
+            boosted += 2 * bf * boost_delta_function(photon_energies, e0, 0.0, beta)
 
     return boosted
 
diff --git a/hazma/vector_mediator/_gev/utils.py b/hazma/vector_mediator/_gev/utils.py
index 3226da9..cf5e523 100644
--- a/hazma/vector_mediator/_gev/utils.py
+++ b/hazma/vector_mediator/_gev/utils.py
@@ -4,6 +4,7 @@ import numpy as np
 import numpy.typing as npt
 
 from hazma import parameters
+from hazma.spectra import boost
 
 RealArray = npt.NDArray[np.float64]
 BoolArray = npt.NDArray[np.bool_]
@@ -27,7 +28,48 @@ def call_with_kinematic_threshold(f, x, thresholds: List[float]):
     result = 0.0
     if accessible:
         result = f(x)
-    return 0.0
+    return result
+
+
+def boost_from_rest_frame(
+    dnde, energies, *, emax: float, beta: float, mass: float = 0.0, npts: int = 500
+):
+    """Boost a spectrum from the rest-frame of a decaying particle.
+
+    Parameters
+    ----------
+    dnde: callable
+        Function of an array of energies returning the rest-frame spectrum.
+    energies: array
+        Energies where the boosted spectrum should be computed.
+    emax: float
+        Largest energy of the product in the rest-frame.
+    beta: float
+        Velocity of the decaying particle.
+    mass: float
+        Mass of the product.
+    npts: int
+        Number of points used to tabulate the rest-frame spectrum.
+
+    Returns
+    -------
+    boosted: array
+        Boosted spectrum evaluated at `energies`.
+    """
+    energies = np.asarray(energies, dtype=np.float64)
+    physical = energies[energies > mass]
+    if len(physical) == 0:
+        return np.zeros_like(energies)
+    # The table has to cover the rest-frame energies which contribute at all
+    # requested energies, independent of the spacing of the latter.
+    if mass > 0.0:
+        emin = mass * (1.0 + 1e-6)
+    else:
+        emin = np.min(physical) * np.sqrt((1.0 - beta) / (1.0 + beta))
+    table = np.geomspace(min(emin, 0.5 * emax), emax, npts)
+    es = np.unique(np.concatenate([table, physical]))
+    boosted = boost.dnde_boost_array(dnde(es), es, beta, mass=mass)
+    return np.interp(energies, es, boosted, left=0.0, right=0.0)
 
 
 STR_TO_MASS: Dict[str, float] = {
-- 
2.43.0


From c091464679dd014c1c1eb0c86461267a007acd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:38 +0000
Subject: [PATCH 70/92] fix: charged-kaon neutrino spectrum lacks the prompt
 neutrino of K -> mu nu

---
 hazma/spectra/_neutrino/__init__.py |  7 +++++++
 hazma/spectra/_neutrino/_utils.py   | 12 +++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/hazma/spectra/_neutrino/__init__.py b/hazma/spectra/_neutrino/__init__.py
index 27d2e5d..fe4198c 100644
--- a/hazma/spectra/_neutrino/__init__.py
+++ b/hazma/spectra/_neutrino/__init__.py
@@ -14,6 +14,9 @@ from hazma.utils import RealArray, RealOrRealArray
 from ._utils import dnde_neutrino as _dnde_neutrino
 from ._utils import load_interp as _load_interp
 
+# Branching fraction of K -> mu + nu.
+_BR_K_TO_MU_NU = 0.6356
+
 _eta_interp_e = _load_interp("eta_neutrino_e.csv")
 _eta_interp_mu = _load_interp("eta_neutrino_mu.csv")
 _charged_kaon_integrand_interp_e = _load_interp("charged_kaon_neutrino_e.csv")
@@ -168,6 +171,9 @@ def dnde_neutrino_charged_kaon(
     interp_mu = _charged_kaon_integrand_interp_mu
     parent_mass = parameters.charged_kaon_mass
     parent_energy = kaon_energy
+    # The table only contains the neutrinos of the muon in K -> mu + nu. The
+    # prompt one is a line, which has no density for a kaon at rest.
+    line_energy = (parent_mass**2 - parameters.muon_mass**2) / (2 * parent_mass)
 
     return _dnde_neutrino(
         neutrino_energy=neutrino_energies,
@@ -176,6 +182,7 @@ def dnde_neutrino_charged_kaon(
         interp_e=interp_e,
         interp_mu=interp_mu,
         flavor=flavor,
+        line_mu=(line_energy, _BR_K_TO_MU_NU),
     )
 
 
diff --git a/hazma/spectra/_neutrino/_utils.py b/hazma/spectra/_neutrino/_utils.py
index e325af2..2e9027e 100644
--- a/hazma/spectra/_neutrino/_utils.py
+++ b/hazma/spectra/_neutrino/_utils.py
@@ -1,10 +1,12 @@
-from typing import Union, Optional
+from typing import Optional, Tuple, Union
 
 import numpy as np
 import numpy.typing as npt
 import pathlib
 from scipy import interpolate
 
+from hazma.spectra.boost import boost_delta_function
+
 RealArray = npt.NDArray[np.float64]
 
 
@@ -88,7 +90,10 @@ def dnde_neutrino(
     interp_e: interpolate.InterpolatedUnivariateSpline,
     interp_mu: interpolate.InterpolatedUnivariateSpline,
     flavor: Optional[str] = None,
+    line_mu: Optional[Tuple[float, float]] = None,
 ) -> Union[RealArray, float]:
+    # `line_mu` is the energy and the multiplicity of a monochromatic muon
+    # neutrino in the rest-frame of the parent (not part of the tables).
 
     scalar = np.ndim(neutrino_energy) == 0
     enu = np.atleast_1d(neutrino_energy).astype(np.float64)
@@ -108,6 +113,11 @@ def dnde_neutrino(
                 parent_mass=parent_mass,
                 interp=inter,
             )
+            if line_mu is not None and flav == "mu" and parent_energy > parent_mass:
+                beta = np.sqrt(1.0 - (parent_mass / parent_energy) ** 2)
+                dnde_ = dnde_ + line_mu[1] * boost_delta_function(
+                    enu, line_mu[0], 0.0, beta
+                )
 
             if flavor == flav:
                 return dnde_[0] if scalar else dnde_
-- 
2.43.0


From 80744d4ee6b9c793dc53461c3feeefde706b3def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:38 +0000
Subject: [PATCH 71/92] fix: GeV vector v v cross section counts the identical
 mediators twice

---
 hazma/vector_mediator/_gev/cross_sections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/vector_mediator/_gev/cross_sections.py b/hazma/vector_mediator/_gev/cross_sections.py
index 773f744..5bac53c 100644
--- a/hazma/vector_mediator/_gev/cross_sections.py
+++ b/hazma/vector_mediator/_gev/cross_sections.py
@@ -178,7 +178,7 @@ def sigma_xx_to_v_v(self, cme):
     sqrtx = np.sqrt(1.0 - 4 * mux2)
     sqrtv = np.sqrt(1.0 - 4 * muv2)
     sqrtxv = sqrtx * sqrtv
-    pre = self.gvxx**4 * sqrtv / (4.0 * np.pi * sqrtx * qq**2)
+    pre = self.gvxx**4 * sqrtv / (8.0 * np.pi * sqrtx * qq**2)
 
     sigma[mask] = pre * (
         -((2 * muv4 + mux2 + 4 * mux4) / (muv4 + mux2 - 4 * muv2 * mux2))
-- 
2.43.0


From b63a4d0c024c38148d1a208f986b955404c620d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:38 +0000
Subject: [PATCH 72/92] fix: GeV vector v v spectra depend on the requested
 energies near sharp edges

---
 hazma/vector_mediator/_gev/utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hazma/vector_mediator/_gev/utils.py b/hazma/vector_mediator/_gev/utils.py
index cf5e523..23b08c1 100644
--- a/hazma/vector_mediator/_gev/utils.py
+++ b/hazma/vector_mediator/_gev/utils.py
@@ -66,8 +66,14 @@ def boost_from_rest_frame(
         emin = mass * (1.0 + 1e-6)
     else:
         emin = np.min(physical) * np.sqrt((1.0 - beta) / (1.0 + beta))
-    table = np.geomspace(min(emin, 0.5 * emax), emax, npts)
-    es = np.unique(np.concatenate([table, physical]))
+    # Logarithmic spacing resolves the soft part, linear spacing the edges of
+    # lines and of boosted decays close to the endpoint.
+    emin = min(emin, 0.5 * emax)
+    table = [np.geomspace(emin, emax, npts), np.linspace(emin, emax, npts)]
+    # Spectra may end with a finite value: the step must not be interpolated to
+    # the next requested energy.
+    step = [emax * (1.0 + 1e-6)]
+    es = np.unique(np.concatenate([*table, step, physical]))
     boosted = boost.dnde_boost_array(dnde(es), es, beta, mass=mass)
     return np.interp(energies, es, boosted, left=0.0, right=0.0)
 
-- 
2.43.0


From 2fdb506c87cfa62c2b94785065b8fbb51ba7c4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:05 +0000
Subject: [PATCH 73/92] fix: mediator decay spectra of concurrent calls share
 module-level tables

The interpolation tables of the two mediator photon decay-spectrum extensions were
module globals, rewritten at the start of every call; scipy's quad releases
the GIL between evaluations, so a call in one thread integrated over the
tables of another thread's mediator mass. The tables now belong to the call.
---
 .../scalar_mediator_decay_spectrum.pyx        | 40 ++++++-------
 .../vector_mediator_decay_spectrum.pyx        | 57 ++++++++++---------
 2 files changed, 49 insertions(+), 48 deletions(-)

diff --git a/hazma/scalar_mediator/scalar_mediator_decay_spectrum.pyx b/hazma/scalar_mediator/scalar_mediator_decay_spectrum.pyx
index baf5a44..235fbe3 100644
--- a/hazma/scalar_mediator/scalar_mediator_decay_spectrum.pyx
+++ b/hazma/scalar_mediator/scalar_mediator_decay_spectrum.pyx
@@ -29,21 +29,17 @@ ctypedef np.ndarray ndarray
 
 cdef int n_interp_pts = 500
 
-cdef np.ndarray e_gams = np.zeros((n_interp_pts,), dtype=np.float64)
-cdef np.ndarray spec_cp = np.zeros((n_interp_pts,), dtype=np.float64)
-
 # ===================================================================
 # ---- Internal functions -------------------------------------------
 # ===================================================================
 
-# Sets a global array so that we don't need to recompute decay spectra 
-# for the charged pion unless the scalar mass has changed.
+# Tabulates the decay spectrum of the charged pion, so that it need not be
+# recomputed for every evaluation of the boost integrand. The table belongs to
+# one call: other threads may be working on a different scalar mass.
 
-cdef double __set_spectra(double ms):
-    global e_gams
-    global spec_cp
-    e_gams = np.logspace(-1.0, np.log10(ms / 2.0), num=n_interp_pts)
-    spec_cp = dnde_photon_charged_pion_array(e_gams, ms / 2.0)
+cdef tuple __make_spectra(double ms):
+    cdef np.ndarray e_gams = np.logspace(-1.0, np.log10(ms / 2.0), num=n_interp_pts)
+    return e_gams, dnde_photon_charged_pion_array(e_gams, ms / 2.0)
 
 
 # Use interpolating function to compute charged pion spectrum.
@@ -51,7 +47,7 @@ cdef double __set_spectra(double ms):
 @cython.cdivision(True)
 @cython.boundscheck(True)
 @cython.wraparound(False)
-cdef double interp_spec_cp(double eng_gam):
+cdef double interp_spec_cp(double eng_gam, np.ndarray e_gams, np.ndarray spec_cp):
     if eng_gam < 10**-1:
         return spec_cp[0] * e_gams[0] / eng_gam
     return np.interp(eng_gam, e_gams, spec_cp)
@@ -126,7 +122,9 @@ cdef double integrand(
     double eng_s,
     double ms,
     np.ndarray[np.float64_t,ndim=1] pws,
-    int bitflag
+    int bitflag,
+    np.ndarray e_gams,
+    np.ndarray spec_cp
 ):
     cdef double result = 0.0
     cdef double pwee = pws[0]
@@ -144,7 +142,7 @@ cdef double integrand(
     if bitflag & BITFLAG_PPG:
         result += pwpipi * dnde_fsr_cp_srf(eng_gam_srf, ms)
     if bitflag & BITFLAG_PP:
-        result += 2. * pwpipi * interp_spec_cp(eng_gam_srf)
+        result += 2. * pwpipi * interp_spec_cp(eng_gam_srf, e_gams, spec_cp)
     if bitflag & BITFLAG_P0P0:
         result += 2. * pwpi0pi0 * dnde_photon_neutral_pion_point(eng_gam_srf, ms / 2.0)
     if bitflag & BITFLAG_MMG:
@@ -168,7 +166,8 @@ cdef double c_scalar_mediator_decay_spectrum_point(
     double eng_s,
     double ms,
     np.ndarray[np.float64_t,ndim=1] pws, 
-    int bitflag
+    int bitflag,
+    tuple spectra
 ):
     if eng_s < ms:
         return 0.
@@ -182,7 +181,7 @@ cdef double c_scalar_mediator_decay_spectrum_point(
     cdef double result = 0.0
 
     result = quad(integrand, -1.0, 1.0, points=[-1.0, 1.0],
-                args=(eng_gam, eng_s, ms, pws, bitflag), epsabs=10**-10.,
+                args=(eng_gam, eng_s, ms, pws, bitflag) + spectra, epsabs=10**-10.,
                 epsrel=10**-5.)[0]
 
     if (bitflag & BITFLAG_GG) and (eminus <= eng_gam <= eplus):
@@ -199,13 +198,14 @@ cdef np.ndarray[np.float64_t,ndim=1] c_scalar_mediator_decay_spectrum_array(
     double sm_energy, 
     double sm_mass,
     np.ndarray[np.float64_t,ndim=1] pws, 
-    int bitflag
+    int bitflag,
+    tuple spectra
 ):
     cdef int npts = photon_energies.shape[0]
     cdef np.ndarray[np.float64_t,ndim=1] spec = np.zeros_like(photon_energies)
 
     for i in range(npts):
-        spec[i] = c_scalar_mediator_decay_spectrum_point(photon_energies[i], sm_energy, sm_mass, pws, bitflag)
+        spec[i] = c_scalar_mediator_decay_spectrum_point(photon_energies[i], sm_energy, sm_mass, pws, bitflag, spectra)
     return spec
 
 
@@ -242,7 +242,7 @@ def scalar_mediator_decay_spectrum(
     dnde : float or array-like
         Value of dnde at gamma-ray energy `eng_gam`.
     """
-    __set_spectra(sm_mass)
+    cdef tuple spectra = __make_spectra(sm_mass)
     cdef int bitflag = 0
 
     if not hasattr(partial_widths, '__len__'):
@@ -268,5 +268,5 @@ def scalar_mediator_decay_spectrum(
     if hasattr(photon_energies, '__len__'):
         energies = np.array(photon_energies)
         assert len(energies.shape) == 1, "Photon energies must be 0 or 1-dimensional."
-        return c_scalar_mediator_decay_spectrum_array(energies, sm_energy, sm_mass, pws, bitflag)
-    return c_scalar_mediator_decay_spectrum_point(photon_energies, sm_energy, sm_mass, pws, bitflag)
+        return c_scalar_mediator_decay_spectrum_array(energies, sm_energy, sm_mass, pws, bitflag, spectra)
+    return c_scalar_mediator_decay_spectrum_point(photon_energies, sm_energy, sm_mass, pws, bitflag, spectra)
diff --git a/hazma/vector_mediator/vector_mediator_decay_spectrum.pyx b/hazma/vector_mediator/vector_mediator_decay_spectrum.pyx
index 57cd26e..dbd2959 100644
--- a/hazma/vector_mediator/vector_mediator_decay_spectrum.pyx
+++ b/hazma/vector_mediator/vector_mediator_decay_spectrum.pyx
@@ -21,21 +21,19 @@ cdef double qe = sqrt(4. * M_PI * ALPHA_EM)
 ctypedef np.ndarray ndarray
 
 cdef int n_interp_pts = 500
-cdef np.ndarray __e_gams = np.zeros((n_interp_pts,), dtype=np.float64)
-cdef np.ndarray __spec_cp = np.zeros((n_interp_pts,), dtype=np.float64)
-cdef np.ndarray __spec_mu = np.zeros((n_interp_pts,), dtype=np.float64)
-
-cdef double __set_spectra(double mv):
-    global __e_gams
-    global __spec_cp
-    global __spec_mu
-
-    __e_gams = np.logspace(-1.0, log10(mv / 2.0), num=n_interp_pts)
-
-    __spec_cp = dnde_photon_charged_pion_array(__e_gams, mv / 2.0)
-    __spec_mu = dnde_photon_muon_array(__e_gams, mv / 2.0)
-
-cdef double __interp_spec(double eng_gam, str mode):
+# The tables belong to one call: other threads may be working on a different
+# mediator mass.
+cdef tuple __make_spectra(double mv):
+    cdef np.ndarray e_gams = np.logspace(-1.0, log10(mv / 2.0), num=n_interp_pts)
+
+    return (
+        e_gams,
+        dnde_photon_charged_pion_array(e_gams, mv / 2.0),
+        dnde_photon_muon_array(e_gams, mv / 2.0),
+    )
+
+cdef double __interp_spec(double eng_gam, str mode, np.ndarray e_gams,
+                          np.ndarray spec_cp, np.ndarray spec_mu):
     """
     Intepolation function for the short kaon data.
 
@@ -48,12 +46,12 @@ cdef double __interp_spec(double eng_gam, str mode):
     """
     if mode == "cp":
         if eng_gam < 10**-1:
-            return __spec_cp[0] * __e_gams[0] / eng_gam
-        return np.interp(eng_gam, __e_gams, __spec_cp)
+            return spec_cp[0] * e_gams[0] / eng_gam
+        return np.interp(eng_gam, e_gams, spec_cp)
     if mode == "mu":
         if eng_gam < 10**-1:
-            return __spec_mu[0] * __e_gams[0] / eng_gam
-        return np.interp(eng_gam, __e_gams, __spec_mu)
+            return spec_mu[0] * e_gams[0] / eng_gam
+        return np.interp(eng_gam, e_gams, spec_mu)
     else:
         return 0.0
 
@@ -113,7 +111,9 @@ cdef double __dnde_fsr_l_vrf(double egam, double ml, double mv):
 @cython.boundscheck(True)
 @cython.wraparound(False)
 cdef double __integrand(double cl, double eng_gam, double eng_v,
-                        double mv, np.ndarray[double] pws, str mode):
+                        double mv, np.ndarray[double] pws, str mode,
+                        np.ndarray e_gams, np.ndarray spec_cp,
+                        np.ndarray spec_mu):
     """
     Integrand of the boost integralself.
 
@@ -152,13 +152,15 @@ cdef double __integrand(double cl, double eng_gam, double eng_v,
 
     cdef double dnde_cp_f = pwpipi * __dnde_fsr_cp_vrf(eng_gam_vrf, mv)
 
-    cdef double dnde_cp_d = 2. * pwpipi * __interp_spec(eng_gam_vrf, "cp")
+    cdef double dnde_cp_d = 2. * pwpipi * __interp_spec(
+        eng_gam_vrf, "cp", e_gams, spec_cp, spec_mu)
 
     # Neutral pion energy is:
     cdef double e_pi0 = 0.5 * (mpi0**2 + mv**2) / mv
     cdef double dnde_np_d = pwpi0g * dnde_photon_neutral_pion_point(eng_gam_vrf, e_pi0)
 
-    cdef double dnde_mu_d = 2. * pwmumu * __interp_spec(eng_gam_vrf, "mu")
+    cdef double dnde_mu_d = 2. * pwmumu * __interp_spec(
+        eng_gam_vrf, "mu", e_gams, spec_cp, spec_mu)
 
     dnde = dnde_ee_f + dnde_mu_f + dnde_cp_f + \
            dnde_cp_d + dnde_np_d + dnde_mu_d
@@ -182,7 +184,7 @@ cdef double __integrand(double cl, double eng_gam, double eng_v,
 @cython.wraparound(False)
 @cython.cdivision(True)
 cdef double __dnde_decay_v(double eng_gam, double eng_v, double mv,
-                           np.ndarray[double] pws, str mode):
+                           np.ndarray[double] pws, str mode, tuple spectra):
     """
     Unvectorized dnde_decay_s
 
@@ -217,7 +219,7 @@ cdef double __dnde_decay_v(double eng_gam, double eng_v, double mv,
         lines_contrib = pws[2] / (eng_v * beta)
 
     result = quad(__integrand, -1.0, 1.0, points=[-1.0, 1.0],
-                  args=(eng_gam, eng_v, mv, pws, mode), epsabs=10**-10.,
+                  args=(eng_gam, eng_v, mv, pws, mode) + spectra, epsabs=10**-10.,
                   epsrel=10**-5.)[0]
 
     if mode == "pi0 g" or mode == "total":
@@ -247,8 +249,7 @@ def dnde_decay_v_pt(double eng_gam, double eng_v, double mv,
     dnde : float or array-like
         Value of dnde at gamma-ray energy `eng_gam`.
     """
-    __set_spectra(mv)
-    return __dnde_decay_v(eng_gam, eng_v, mv, pws, mode)
+    return __dnde_decay_v(eng_gam, eng_v, mv, pws, mode, __make_spectra(mv))
 
 @cython.boundscheck(True)
 @cython.wraparound(False)
@@ -271,13 +272,13 @@ def dnde_decay_v(np.ndarray[double] eng_gam, double eng_v, double mv,
     dnde : float or array-like
         Value of dnde at gamma-ray energy `eng_gam`.
     """
-    __set_spectra(mv)
+    cdef tuple spectra = __make_spectra(mv)
     cdef int num_pts = len(eng_gam)
     cdef int i
 
     spec = np.zeros(num_pts, dtype=np.float64)
 
     for i in range(num_pts):
-        spec[i] = __dnde_decay_v(eng_gam[i], eng_v, mv, pws, mode)
+        spec[i] = __dnde_decay_v(eng_gam[i], eng_v, mv, pws, mode, spectra)
 
     return spec
-- 
2.43.0


From 4b324f9bc6afe22859549b83696d6a081258bf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:12 +0000
Subject: [PATCH 74/92] fix: interp on a grid with a NaN first node panics
 instead of following NumPy

---
 rust/src/interp.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rust/src/interp.rs b/rust/src/interp.rs
index 15c4045..b7493c1 100644
--- a/rust/src/interp.rs
+++ b/rust/src/interp.rs
@@ -158,9 +158,9 @@ fn search(x: f64, xp: &[f64]) -> Slot {
         return Slot::Below;
     }
 
-    // `x >= xp[0]` here, so `imin` ends at 1 or more and the subtraction
-    // cannot underflow. Ties resolve to the *last* matching index,
-    // matching NumPy.
+    // `x >= xp[0]` here, so `imin` ends at 1 or more unless a node is NaN;
+    // NumPy then answers from the first cell. Ties resolve to the *last*
+    // matching index, matching NumPy.
     let mut imin = 0usize;
     let mut imax = n;
     while imin < imax {
@@ -171,7 +171,7 @@ fn search(x: f64, xp: &[f64]) -> Slot {
             imax = imid;
         }
     }
-    Slot::Cell(imin - 1)
+    Slot::Cell(imin.saturating_sub(1))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 0ca1d472e0b8e409a5955dc8b393a49cfc08d9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:45 +0000
Subject: [PATCH 75/92] fix: boost integral over a table whose last energy is
 NaN panics

---
 rust/src/boost.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/boost.rs b/rust/src/boost.rs
index 2ed625b..5211b10 100644
--- a/rust/src/boost.rs
+++ b/rust/src/boost.rs
@@ -286,8 +286,8 @@ pub fn boost_integrate_linear_interp(
     // are what the dead end below is reached through; with `beta` inside
     // `(0, 1)` the two conditions coincide, since `1 - beta*beta` cannot
     // round to zero for any representable `beta < 1` and so `gamma` is
-    // always finite.
-    if lb.is_nan() || ub.is_nan() {
+    // always finite. A table ending in `NaN` reaches the same dead end.
+    if lb.is_nan() || ub.is_nan() || xmax.is_nan() {
         return Ok(f64::NAN);
     }
 
-- 
2.43.0


From 26a7af26eea7cd1985e510fbb0b7a0a2e964fcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:32 +0000
Subject: [PATCH 76/92] fix: list the black-hole model's final state under the
 TheoryDec name

PBH defined list_final_decay_states, so TheoryDec.list_decay_final_states
returned None for it. The old spelling stays as an alias.
---
 hazma/pbh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hazma/pbh.py b/hazma/pbh.py
index 9e85b7f..b8c2a5c 100644
--- a/hazma/pbh.py
+++ b/hazma/pbh.py
@@ -117,9 +117,11 @@ class PBH(TheoryDec):
         self._spectrum_funcs = lambda: {"all": fn}
 
     @staticmethod
-    def list_final_decay_states():
+    def list_decay_final_states():
         return ["all"]
 
+    list_final_decay_states = list_decay_final_states
+
     def _decay_widths(self):
         return {"all": self.f_pbh_dummy}
 
-- 
2.43.0


From 73acf3f85d37584b03f7dc9622b980af1ec6e451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:01 +0000
Subject: [PATCH 77/92] fix: count both photons of a two-photon line in
 single-channel models

The detector convolution and the CMB efficiencies doubled the line of the
channel named "g g" only, so the same final state written "a a" or
"photon photon", as single-channel models do, counted one photon.
---
 hazma/limits/_cmb.py        | 5 +++--
 hazma/parameters.py         | 8 +++++++-
 hazma/theory/_theory_cmb.py | 4 +++-
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/hazma/limits/_cmb.py b/hazma/limits/_cmb.py
index 34aba0c..5e343f4 100644
--- a/hazma/limits/_cmb.py
+++ b/hazma/limits/_cmb.py
@@ -4,7 +4,7 @@ from scipy.interpolate import interp1d
 import numpy as np
 from scipy.integrate import quad
 
-from hazma.parameters import temp_cmb_formation
+from hazma.parameters import is_two_photon, temp_cmb_formation
 
 from ._abstract import AbstractLimit
 
@@ -183,7 +183,8 @@ class CMBLimit(AbstractLimit):
             # Make sure the base f_eff is defined at this energy
             if energy > e_min:
                 bf = line["bf"]
-                multiplicity = 2.0 if ch == fs else 1.0
+                pair = is_two_photon(ch) if fs == "g g" else ch == fs
+                multiplicity = 2.0 if pair else 1.0
                 f_eff_line_dm += (
                     energy
                     * bf
diff --git a/hazma/parameters.py b/hazma/parameters.py
index 4dadea8..d001cf0 100644
--- a/hazma/parameters.py
+++ b/hazma/parameters.py
@@ -476,6 +476,12 @@ def _true_energy_grid(lo, hi, energy_res, n_pts):
     return np.geomspace(lo, hi, int(np.clip(n_needed, n_pts, _MAX_CONV_PTS)))
 
 
+def is_two_photon(channel):
+    """Whether a final state such as "g g", "a a" or "photon photon" is two photons."""
+    particles = channel.split()
+    return len(particles) == 2 and all(p in ("g", "a", "photon") for p in particles)
+
+
 def convolved_spectrum_fn(
     e_min, e_max, energy_res, spec_fn=None, lines=None, n_pts=1000
 ):
@@ -535,7 +541,7 @@ def convolved_spectrum_fn(
             dnde_conv += (
                 line["bf"]
                 * spec_res_fn(es, line["energy"], energy_res)
-                * (2.0 if ch == "g g" else 1.0)
+                * (2.0 if is_two_photon(ch) else 1.0)
             )
 
     return InterpolatedUnivariateSpline(es, dnde_conv, k=1, ext="raise")  # type: ignore
diff --git a/hazma/theory/_theory_cmb.py b/hazma/theory/_theory_cmb.py
index d22e3d2..10518cd 100644
--- a/hazma/theory/_theory_cmb.py
+++ b/hazma/theory/_theory_cmb.py
@@ -1,5 +1,6 @@
 from scipy.interpolate import interp1d
 from scipy.integrate import quad
+from hazma.parameters import is_two_photon
 from hazma.cmb import vx_cmb, f_eff_g, f_eff_ep, p_ann_planck_temp_pol
 
 import numpy as np
@@ -112,7 +113,8 @@ class TheoryCMB:
             # Make sure the base f_eff is defined at this energy
             if energy > e_min:
                 bf = line["bf"]
-                multiplicity = 2.0 if ch == fs else 1.0
+                pair = is_two_photon(ch) if fs == "g g" else ch == fs
+                multiplicity = 2.0 if pair else 1.0
                 f_eff_line_dm += (
                     energy
                     * bf
-- 
2.43.0


From be63b622eb53e21313fc3e54fa36be2f04f7ea51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:36 +0000
Subject: [PATCH 78/92] fix: GeV vector relic density integrates over the
 mediator resonance

The thermal average left the narrow mediator pole to chance: whenever
m_V > 2 m_x the quadrature could miss it and return a value orders of
magnitude too small.  Break the range at the mass shell, at decades of
the mediator width around it, and at the two-mediator threshold.
---
 .../_gev/thermal_cross_section.py             | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/hazma/vector_mediator/_gev/thermal_cross_section.py b/hazma/vector_mediator/_gev/thermal_cross_section.py
index 3c7c515..c497ab9 100644
--- a/hazma/vector_mediator/_gev/thermal_cross_section.py
+++ b/hazma/vector_mediator/_gev/thermal_cross_section.py
@@ -1,5 +1,6 @@
 from typing import List, Optional, NamedTuple, Callable
 
+import numpy as np
 from scipy import special
 from scipy import integrate
 
@@ -134,6 +135,15 @@ def relic_density(
         kernal = z**2 * (z**2 - 4.0) * special.k1(x * z)
         return sig * kernal
 
+    # Where the integrand has structure: the mediator's mass shell, decades of
+    # its width around it, and the threshold for producing two mediators.
+    ratio = self.mv / self.mx
+    width = self.width_v() / self.mx
+    structures = [ratio, 2.0 * ratio]
+    if width > 0.0:
+        steps = width * 10.0 ** np.arange(np.ceil(np.log10(50.0 / width)))
+        structures.extend([*(ratio - steps), *(ratio + steps)])
+
     def thermal_cross_section(x):
         # If x is really large, we will get divide by zero errors
         if x > 300:
@@ -142,10 +152,17 @@ def relic_density(
         pf = x / (2.0 * special.kn(2, x)) ** 2
         # The integrand falls like exp(-x (z - 2)) above threshold.
         upper = 2.0 + 50.0 / x
+        points = [2.0] + [z for z in structures if 2.0 < z < upper]
         return (
             pf
             * integrate.quad(
-                integrand, 2.0, upper, points=[2.0], args=(x,), epsabs=0.0
+                integrand,
+                2.0,
+                upper,
+                points=points,
+                args=(x,),
+                epsabs=0.0,
+                limit=50 + len(points),
             )[0]
         )
 
-- 
2.43.0


From 4d7b4ed56fcc68756b717514cd5468238fe2086c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:36 +0000
Subject: [PATCH 79/92] fix: GeV vector relic density includes annihilation
 into two mediators

'v v' is a channel of annihilation_cross_section_funcs() and the leading
one when m_V < m_x, but the list of two-body states that deplete the
dark matter lacked it.
---
 hazma/vector_mediator/_gev/thermal_cross_section.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hazma/vector_mediator/_gev/thermal_cross_section.py b/hazma/vector_mediator/_gev/thermal_cross_section.py
index c497ab9..5af03ca 100644
--- a/hazma/vector_mediator/_gev/thermal_cross_section.py
+++ b/hazma/vector_mediator/_gev/thermal_cross_section.py
@@ -20,6 +20,7 @@ TWO_BODY = [
     "pi0 phi",
     "eta phi",
     "eta omega",
+    "v v",
 ]
 
 THREE_BODY = [
-- 
2.43.0


From b042ae9da9837c3d27cdf93f3e02d32116638c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:54 +0000
Subject: [PATCH 80/92] fix: MeV mediator photon spectra of a single energy

Channels without an FSR or a decay contribution took len() of the
energies, so the documented scalar call of spectra() raised.
---
 hazma/scalar_mediator/_scalar_mediator_spectra.py | 4 ++--
 hazma/vector_mediator/_vector_mediator_spectra.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hazma/scalar_mediator/_scalar_mediator_spectra.py b/hazma/scalar_mediator/_scalar_mediator_spectra.py
index 648dffe..7d5032d 100644
--- a/hazma/scalar_mediator/_scalar_mediator_spectra.py
+++ b/hazma/scalar_mediator/_scalar_mediator_spectra.py
@@ -17,7 +17,7 @@ def dnde_ee(self, e_gams, e_cm, spectrum_type="all"):
     elif spectrum_type == "fsr":
         return self.dnde_xx_to_s_to_ffg(e_gams, e_cm, me)
     elif spectrum_type == "decay":
-        return np.array([0.0 for _ in range(len(e_gams))])
+        return np.zeros_like(e_gams, dtype=np.float64)
     else:
         raise ValueError("Type {} is invalid. Use 'all', 'fsr' or \
                             'decay'".format(spectrum_type))
@@ -43,7 +43,7 @@ def dnde_pi0pi0(self, e_gams, e_cm, spectrum_type="all"):
             e_gams, e_cm, "decay"
         )
     if spectrum_type == "fsr":
-        return np.array([0.0 for _ in range(len(e_gams))])
+        return np.zeros_like(e_gams, dtype=np.float64)
     if spectrum_type == "decay":
         return 2.0 * spectra.dnde_photon_neutral_pion(e_gams, e_cm / 2.0)
     else:
diff --git a/hazma/vector_mediator/_vector_mediator_spectra.py b/hazma/vector_mediator/_vector_mediator_spectra.py
index 12bffc2..d87e9ff 100644
--- a/hazma/vector_mediator/_vector_mediator_spectra.py
+++ b/hazma/vector_mediator/_vector_mediator_spectra.py
@@ -21,7 +21,7 @@ class VectorMediatorSpectra:
         elif spectrum_type == "fsr":
             return fsr(e_gams, e_cm, "e")
         elif spectrum_type == "decay":
-            return np.array([0.0 for _ in range(len(e_gams))])
+            return np.zeros_like(e_gams, dtype=np.float64)
         else:
             raise ValueError(
                 "Type {} is invalid. Use 'all', 'fsr' or 'decay'".format(spectrum_type)
@@ -51,7 +51,7 @@ class VectorMediatorSpectra:
                 e_gams, e_cm, "decay"
             )
         elif spectrum_type == "fsr":
-            return np.array([0.0 for _ in range(len(e_gams))])
+            return np.zeros_like(e_gams, dtype=np.float64)
         elif spectrum_type == "decay":
             # Neutral pion's energy
             e_pi0 = (e_cm**2 + mpi0**2) / (2.0 * e_cm)
-- 
2.43.0


From e19ebc0fd3c38331e03cd20a209e3be59d3380e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:54 +0000
Subject: [PATCH 81/92] fix: positron spectra of the MeV mediators' decays for
 a single energy

The compiled decay spectra take arrays only, so the documented scalar
call of positron_spectra() raised.
---
 hazma/scalar_mediator/_scalar_mediator_positron_spectra.py | 6 ++++--
 hazma/vector_mediator/_vector_mediator_positron_spectra.py | 6 +++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/hazma/scalar_mediator/_scalar_mediator_positron_spectra.py b/hazma/scalar_mediator/_scalar_mediator_positron_spectra.py
index 13d37b8..810fbdd 100644
--- a/hazma/scalar_mediator/_scalar_mediator_positron_spectra.py
+++ b/hazma/scalar_mediator/_scalar_mediator_positron_spectra.py
@@ -70,9 +70,11 @@ def dnde_pos_ss(self, positron_energies, cme, fs="total"):
         pw_array /= pws["total"]
 
         # Factor of 2 since S is self-conjugate
-        return 2.0 * dnde_decay_s(
-            positron_energies, scalar_energy, self.ms, pw_array, fs
+        energies = np.asarray(positron_energies, dtype=np.float64)
+        dnde = 2.0 * dnde_decay_s(
+            np.atleast_1d(energies), scalar_energy, self.ms, pw_array, fs
         )
+        return dnde if energies.ndim > 0 else dnde[0]
     else:
         return np.zeros_like(positron_energies)
 
diff --git a/hazma/vector_mediator/_vector_mediator_positron_spectra.py b/hazma/vector_mediator/_vector_mediator_positron_spectra.py
index 3a49d2e..f96dd21 100644
--- a/hazma/vector_mediator/_vector_mediator_positron_spectra.py
+++ b/hazma/vector_mediator/_vector_mediator_positron_spectra.py
@@ -23,7 +23,11 @@ class VectorMediatorPositronSpectra:
             pw_array /= pws["total"]
 
             # Factor of 2 since there are two V's
-            return 2.0 * dnde_decay_v(e_ps, e_v, self.mv, pw_array, fs)  # type: ignore
+            energies = np.asarray(e_ps, dtype=np.float64)
+            dnde = 2.0 * dnde_decay_v(
+                np.atleast_1d(energies), e_v, self.mv, pw_array, fs  # type: ignore
+            )
+            return dnde if energies.ndim > 0 else dnde[0]
         else:
             return np.zeros_like(e_ps)
 
-- 
2.43.0


From ca3108ae9e6bee7b8df18480823a670294fd4c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:54 +0000
Subject: [PATCH 82/92] fix: GeV vector neutrino spectra of a single energy

Channels without neutrinos read the dtype of the energies, so a float
raised and integer energies produced integer zeros.
---
 hazma/vector_mediator/_gev/neutrino.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hazma/vector_mediator/_gev/neutrino.py b/hazma/vector_mediator/_gev/neutrino.py
index 04e697e..7c28c27 100644
--- a/hazma/vector_mediator/_gev/neutrino.py
+++ b/hazma/vector_mediator/_gev/neutrino.py
@@ -66,9 +66,7 @@ class _DecayDndeNeutrino(Protocol):
 
 
 def _make_zeros(neutrino_energies):
-    dtype = neutrino_energies.dtype
-    shape = neutrino_energies.shape
-    return np.zeros(shape, dtype=dtype)
+    return np.zeros(np.shape(neutrino_energies), dtype=np.float64)
 
 
 def _make_spectrum_n_body_decay(
-- 
2.43.0


From fcc476001323dd3bd92c7ead4df866b6e94ee67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:54 +0000
Subject: [PATCH 83/92] fix: GeV vector cross sections when every energy is
 below threshold

np.vectorize cannot be called on an empty selection without declared
output types, so a batch without any open energy raised.
---
 hazma/vector_mediator/_gev/cross_sections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/vector_mediator/_gev/cross_sections.py b/hazma/vector_mediator/_gev/cross_sections.py
index 5bac53c..42e4322 100644
--- a/hazma/vector_mediator/_gev/cross_sections.py
+++ b/hazma/vector_mediator/_gev/cross_sections.py
@@ -98,7 +98,7 @@ def __sigma_from_width_fn(self, width: Callable, e_cm, fsp_masses: Sequence[floa
         rescale = np.zeros_like(cme)
 
         rescale = __width_to_cs(self, cme[mask])
-        cs[mask] = np.vectorize(width)(cme[mask]) * rescale
+        cs[mask] = np.vectorize(width, otypes=[np.float64])(cme[mask]) * rescale
 
         return cs
     else:
-- 
2.43.0


From 3b8aefd832429aa8108330cc9a506c51b51d255c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:21 +0000
Subject: [PATCH 84/92] fix: GeV vector n-body decay spectra of a single energy

The energy distributions were aligned with a second axis that only
arrays of energies have, so a float raised (documented for spectra(),
positron_spectra() and neutrino_spectra()), as did integer energies.
---
 hazma/vector_mediator/_gev/neutrino.py |  4 ++--
 hazma/vector_mediator/_gev/positron.py |  4 ++--
 hazma/vector_mediator/_gev/spectra.py  | 12 +++++-------
 3 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/hazma/vector_mediator/_gev/neutrino.py b/hazma/vector_mediator/_gev/neutrino.py
index 7c28c27..9f46f16 100644
--- a/hazma/vector_mediator/_gev/neutrino.py
+++ b/hazma/vector_mediator/_gev/neutrino.py
@@ -76,13 +76,13 @@ def _make_spectrum_n_body_decay(
     flavor: NeutrinoFlavor,
 ):
 
-    dnde = np.zeros(neutrino_energies.shape)
+    dnde = np.zeros(np.shape(neutrino_energies))
 
     for i, dist in enumerate(energy_distributions):
         bins = dist.bin_centers
         probs = dist.probabilities
         dec = np.array([dnde_decays[i](neutrino_energies, e, flavor) for e in bins])
-        dnde += np.trapezoid(np.expand_dims(probs, 1) * dec, x=bins, axis=0)
+        dnde = dnde + np.trapezoid(probs * dec.T, x=bins)
 
     return dnde
 
diff --git a/hazma/vector_mediator/_gev/positron.py b/hazma/vector_mediator/_gev/positron.py
index 1a0d569..4c9ca6d 100644
--- a/hazma/vector_mediator/_gev/positron.py
+++ b/hazma/vector_mediator/_gev/positron.py
@@ -70,14 +70,14 @@ def _make_spectrum_n_body_decay(
     energy_distributions: list[PhaseSpaceDistribution1D],
     dnde_decays,
 ):
-    dnde = np.zeros_like(positron_energies)
+    dnde = np.zeros(np.shape(positron_energies))
 
     for i, dist in enumerate(energy_distributions):
         probs = dist.probabilities
         bins = dist.bin_centers
 
         dec = np.array([dnde_decays[i](positron_energies, e) for e in bins])
-        dnde += np.trapezoid(np.expand_dims(probs, 1) * dec, x=bins, axis=0)
+        dnde = dnde + np.trapezoid(probs * dec.T, x=bins)
 
     return dnde
 
diff --git a/hazma/vector_mediator/_gev/spectra.py b/hazma/vector_mediator/_gev/spectra.py
index 40d799f..a6a45ff 100644
--- a/hazma/vector_mediator/_gev/spectra.py
+++ b/hazma/vector_mediator/_gev/spectra.py
@@ -78,13 +78,11 @@ def _make_spectrum_n_body_decay(
     dnde_decays,
 ):
     """Helper function to construct n-boday spectra."""
-    dnde = np.zeros_like(photon_energies)
+    dnde = np.zeros(np.shape(photon_energies))
 
     for i, dist in enumerate(energy_distributions):
         dec = np.array([dnde_decays[i](photon_energies, e) for e in dist.bin_centers])
-        dnde += np.trapezoid(
-            np.expand_dims(dist.probabilities, 1) * dec, x=dist.bin_centers, axis=0
-        )
+        dnde = dnde + np.trapezoid(dist.probabilities * dec.T, x=dist.bin_centers)
 
     return dnde
 
@@ -470,7 +468,7 @@ def dnde_photon_pi_pi_pi0(
     fsr = np.array(
         [2.0 * dnde_photon_ap_scalar(photon_energies, m**2, mpi) for m in ms]
     )
-    dnde += np.trapezoid(np.expand_dims(ps, 1) * fsr, x=ms, axis=0)
+    dnde = dnde + np.trapezoid(ps * fsr.T, x=ms)
 
     return dnde
 
@@ -715,7 +713,7 @@ def dnde_photon_pi_pi_pi_pi(
             [2.0 * dnde_photon_ap_scalar(photon_energies, m**2, mpi) for m in ms]
         )
         # 0.5 since each particle is counted twice
-        dnde += 0.5 * np.trapezoid(np.expand_dims(ps, 1) * fsr, x=ms, axis=0)
+        dnde = dnde + 0.5 * np.trapezoid(ps * fsr.T, x=ms)
 
     return dnde
 
@@ -757,7 +755,7 @@ def dnde_photon_pi_pi_pi0_pi0(
     fsr = np.array(
         [2.0 * dnde_photon_ap_scalar(photon_energies, m**2, mpi) for m in ms]
     )
-    dnde += np.trapezoid(np.expand_dims(ps, 1) * fsr, x=ms, axis=0)
+    dnde = dnde + np.trapezoid(ps * fsr.T, x=ms)
 
     return dnde
 
-- 
2.43.0


From 53354d32af9513a4a1d968b609a4235bb83bcf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:30 +0000
Subject: [PATCH 85/92] fix: binned gamma-ray constraint image compares fluxes
 in the same units

The cross section is in MeV^-2, so sigma * v has to be converted to
cm^3 s^-1 (as in RelicDensityLimit) before the predicted flux can be
compared to the measured one in cm^-2 s^-1; the image was about
eleven decades too strict and disagreed with binned_limit.
---
 hazma/theory/_theory_constrain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hazma/theory/_theory_constrain.py b/hazma/theory/_theory_constrain.py
index 0083164..5a39de4 100644
--- a/hazma/theory/_theory_constrain.py
+++ b/hazma/theory/_theory_constrain.py
@@ -3,6 +3,8 @@ from skimage import measure
 
 import numpy as np
 
+from hazma.parameters import sv_inv_MeV_to_cm3_per_s
+
 
 class TheoryConstrain:
     def custom_constrain(self, param_grid, ls_or_img="image"):
@@ -123,6 +125,7 @@ class TheoryConstrain:
             sv = (
                 self.annihilation_cross_sections(e_cm)["total"]  # type: ignore
                 * measurement.target.vx
+                * sv_inv_MeV_to_cm3_per_s
             )
             dm_flux_factor = (
                 sv
-- 
2.43.0


From 1d7526838a42edf72523033527cb1117f22cbed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:19 +0000
Subject: [PATCH 86/92] fix: three-body momenta stay real at the edges of phase
 space

Close to threshold rounding pushes the cosine between the first two
particles beyond one, so the momenta handed to a 'momenta' squared
matrix element were nan, and with them the whole integral.
---
 hazma/phase_space/_three_body.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hazma/phase_space/_three_body.py b/hazma/phase_space/_three_body.py
index 1cce74f..c7c7336 100644
--- a/hazma/phase_space/_three_body.py
+++ b/hazma/phase_space/_three_body.py
@@ -59,6 +59,7 @@ def _mandelstam_to_momenta(s, t, q: float, masses: Tuple[float, float, float]):
 
     # p1.p2 = E1*E2 - |p1| |p2| z == 1/2 (u - m1^2 - m2^2)
     ct = (e1 * e2 - 0.5 * (u - m1_2 - m2_2)) / (p1 * p2)
+    ct = np.clip(ct, -1.0, 1.0)
     st = np.sqrt(1.0 - ct**2)
 
     p2z = p2 * ct
-- 
2.43.0


From 417252ad810ea9e230777a8c7db86402711c4285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:19 +0000
Subject: [PATCH 87/92] fix: Monte-Carlo three-body spectra accept (s, t)
 matrix elements

With three_body_integrator='rambo' a matrix element with the (s, t)
signature (the documented default for three bodies, and the one used
by the right-handed neutrino) was handed to Rambo, which calls it with
momenta, and raised a TypeError. Let ThreeBody do the conversion.
---
 hazma/spectra/_nbody.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/hazma/spectra/_nbody.py b/hazma/spectra/_nbody.py
index 1b3de8c..d40cf86 100644
--- a/hazma/spectra/_nbody.py
+++ b/hazma/spectra/_nbody.py
@@ -214,6 +214,11 @@ def _make_energy_distributions(
             cme, masses, msqrd=msqrd, msqrd_signature=msqrd_signature
         ).energy_distributions(nbins=nbins)
 
+    if len(final_states) == 3 and msqrd is not None and msqrd_signature != "momenta":
+        return ThreeBody(
+            cme, masses, msqrd=msqrd, msqrd_signature=msqrd_signature
+        ).energy_distributions(nbins=nbins, method="rambo", npts=npts)
+
     return Rambo(cme, masses, msqrd=msqrd).energy_distributions(n=npts, nbins=nbins)
 
 
@@ -258,6 +263,11 @@ def _make_invariant_mass_distributions(
             cme, masses, msqrd=msqrd, msqrd_signature=msqrd_signature
         ).invariant_mass_distributions(nbins=nbins)
 
+    if len(final_states) == 3 and msqrd is not None and msqrd_signature != "momenta":
+        return ThreeBody(
+            cme, masses, msqrd=msqrd, msqrd_signature=msqrd_signature
+        ).invariant_mass_distributions(nbins=nbins, method="rambo", npts=npts)
+
     return Rambo(cme, masses, msqrd=msqrd).invariant_mass_distributions(
         n=npts, nbins=nbins
     )
-- 
2.43.0


From b60f20377abe813a63b706bd74f0bc417f2ba43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:45 +0000
Subject: [PATCH 88/92] fix: cross sections vanish below the dark-matter
 threshold

The form-factor cross sections, and with them every hadronic channel
of the GeV vector mediators, were nan for collision energies below
twice the dark-matter mass, where the leptonic channels return zero.
---
 hazma/form_factors/vector/_base.py        |  2 +-
 hazma/form_factors/vector/_pi_pi_pi_pi.py | 22 ++++++++++++++--------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/hazma/form_factors/vector/_base.py b/hazma/form_factors/vector/_base.py
index cf3d898..604bd11 100644
--- a/hazma/form_factors/vector/_base.py
+++ b/hazma/form_factors/vector/_base.py
@@ -188,7 +188,7 @@ class VectorFormFactor(abc.ABC):
         single = np.isscalar(q)
         qq = np.atleast_1d(q).astype(np.float64)
 
-        mask = qq > sum(self.fsp_masses)
+        mask = (qq > sum(self.fsp_masses)) & (qq > 2 * mx)
         cs = np.zeros_like(qq)
 
         if np.any(mask):
diff --git a/hazma/form_factors/vector/_pi_pi_pi_pi.py b/hazma/form_factors/vector/_pi_pi_pi_pi.py
index d79445e..60a4417 100644
--- a/hazma/form_factors/vector/_pi_pi_pi_pi.py
+++ b/hazma/form_factors/vector/_pi_pi_pi_pi.py
@@ -855,14 +855,20 @@ class _VectorFormFactorPiPiPiPiBase(VectorFormFactorPPPP):
         single = np.isscalar(q)
         qq = np.atleast_1d(q).astype(np.float64)
 
-        s = qq**2
-        pre = (
-            gvxx**2
-            * (s + 2 * mx**2)
-            / (np.sqrt(s - 4 * mx**2) * ((s - mv**2) ** 2 + (mv * wv) ** 2))
-        )
-        pre = pre * 0.5 * qq
-        cs = pre * self.integrated_form_factor(q=qq, couplings=couplings, npts=npts)
+        mask = qq > 2 * mx
+        cs = np.zeros_like(qq)
+
+        if np.any(mask):
+            s = qq[mask] ** 2
+            pre = (
+                gvxx**2
+                * (s + 2 * mx**2)
+                / (np.sqrt(s - 4 * mx**2) * ((s - mv**2) ** 2 + (mv * wv) ** 2))
+            )
+            pre = pre * 0.5 * qq[mask]
+            cs[mask] = pre * self.integrated_form_factor(
+                q=qq[mask], couplings=couplings, npts=npts
+            )
 
         if single:
             return cs[0]
-- 
2.43.0


From fbf5a67712c4a206ce3db7308db71084071fc5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:03 +0000
Subject: [PATCH 89/92] fix: the v v cross section of the GeV models was zero
 at integer energies

The result was stored in an array of the type of the collision
energies, which truncates every cross section to zero for Python or
numpy integers.
---
 hazma/vector_mediator/_gev/cross_sections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hazma/vector_mediator/_gev/cross_sections.py b/hazma/vector_mediator/_gev/cross_sections.py
index 42e4322..97374d5 100644
--- a/hazma/vector_mediator/_gev/cross_sections.py
+++ b/hazma/vector_mediator/_gev/cross_sections.py
@@ -161,7 +161,7 @@ def sigma_xx_to_v_v(self, cme):
         Cross section.
     """
     scalar = not hasattr(cme, "__len__")
-    q = np.array([cme]) if scalar else np.array(cme)
+    q = np.array([cme] if scalar else cme, dtype=np.float64)
 
     mask = (2 * self.mv < q) & (2 * self.mx < q)
 
-- 
2.43.0


From 6fff1150faab533698e813942c9e4c9d59abb5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:03 +0000
Subject: [PATCH 90/92] fix: boosting a spectrum tabulated at integer energies
 truncated the result

`dnde_boost_array` stored the boosted spectrum in an array of the type of
the energies, and handed back the caller's own array for a product at
rest; `make_boost_function` raised for integer energies.
---
 hazma/spectra/boost.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hazma/spectra/boost.py b/hazma/spectra/boost.py
index a12770d..44b8eec 100644
--- a/hazma/spectra/boost.py
+++ b/hazma/spectra/boost.py
@@ -208,6 +208,9 @@ def dnde_boost_array(dnde, energies, beta: float, mass: float = 0.0):
     dnde_boosted: array
         The boosted spectrum.
     """
+    energies = np.asarray(energies, dtype=float)
+    dnde = np.array(dnde, dtype=float)
+
     if beta < 0 or beta >= 1.0:
         return np.zeros_like(energies)
 
@@ -352,6 +355,7 @@ def make_boost_function(fn: Callable, mass: float, vectorized: bool = True):
         arguments compatible with quad can be specified.
         """
         check_method(method)
+        energies = np.asarray(energies, dtype=float)
         early = kinematic_early_return(energies, beta, args)
         if early is not None:
             return early
-- 
2.43.0


From a25ed4f5150147c6b56777472d0e3b512d1b3438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:36 +0000
Subject: [PATCH 91/92] fix: densities at integer temperatures overflowed

The cube of an integer temperature wraps around above two TeV (64 bit)
or about one GeV (32 bit), giving wrong or negative number and entropy
densities without an error.
---
 hazma/relic_density/_thermal_functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hazma/relic_density/_thermal_functions.py b/hazma/relic_density/_thermal_functions.py
index 75f3776..5f65329 100644
--- a/hazma/relic_density/_thermal_functions.py
+++ b/hazma/relic_density/_thermal_functions.py
@@ -96,7 +96,7 @@ def sm_entropy_density(T: RealOrRealArray) -> RealOrRealArray:
     s: float
         energy entropy of the Standard Model
     """
-    return 2.0 * np.pi**2 / 45.0 * sm_dof_entropy(T) * T**3
+    return 2.0 * np.pi**2 / 45.0 * sm_dof_entropy(T) * T**3.0
 
 
 @overload
@@ -128,7 +128,7 @@ def sm_entropy_density_deriv(T: RealOrRealArray) -> RealOrRealArray:
         * np.pi**2
         / 45.0
         * (_sm_heff_deriv(T) * T + 3.0 * sm_dof_entropy(T))  # type: ignore
-        * T**2
+        * T**2.0
     )
 
 
@@ -185,7 +185,7 @@ def neq(
             * np.sum(eta ** (ns + 1) / ns * kn(2, ns * xs), axis=0)
             / (2.0 * np.pi**2)
         )
-    return g * nbar * Ts**3
+    return g * nbar * Ts**3.0
 
 
 @overload
-- 
2.43.0


From 252b5bfd41235eb265930fcdcd18e36b019f4f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:22 +0000
Subject: [PATCH 92/92] fix: return an empty vector-mediator spectrum for an
 empty energy grid

np.vectorize needs otypes to know the output type when there is no element.
---
 hazma/vector_mediator/_vector_mediator_spectra.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hazma/vector_mediator/_vector_mediator_spectra.py b/hazma/vector_mediator/_vector_mediator_spectra.py
index d87e9ff..9daae0c 100644
--- a/hazma/vector_mediator/_vector_mediator_spectra.py
+++ b/hazma/vector_mediator/_vector_mediator_spectra.py
@@ -12,7 +12,7 @@ from hazma.vector_mediator.vector_mediator_decay_spectrum import (
 
 class VectorMediatorSpectra:
     def dnde_ee(self, e_gams, e_cm, spectrum_type="all"):
-        fsr = np.vectorize(self.dnde_xx_to_v_to_ffg)
+        fsr = np.vectorize(self.dnde_xx_to_v_to_ffg, otypes=[np.float64])
 
         if spectrum_type == "all":
             return self.dnde_ee(e_gams, e_cm, "fsr") + self.dnde_ee(
@@ -29,8 +29,8 @@ class VectorMediatorSpectra:
 
     def dnde_mumu(self, e_gams, e_cm, spectrum_type="all"):
         # todo: this line
-        fsr = np.vectorize(self.dnde_xx_to_v_to_ffg)  # type: ignore
-        decay = np.vectorize(spectra.dnde_photon_muon)
+        fsr = np.vectorize(self.dnde_xx_to_v_to_ffg, otypes=[np.float64])  # type: ignore
+        decay = np.vectorize(spectra.dnde_photon_muon, otypes=[np.float64])
 
         if spectrum_type == "all":
             return self.dnde_mumu(e_gams, e_cm, "fsr") + self.dnde_mumu(
-- 
2.43.0

