From cbc4a113bc7a3faf6eb0c6559b7e44c88601a501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:34 +0000
Subject: [PATCH 01/30] fix: allow import without the optional numba package

---
 src/pystrata/propagation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pystrata/propagation.py b/src/pystrata/propagation.py
index 33f2e0a..7b9c1ae 100644
--- a/src/pystrata/propagation.py
+++ b/src/pystrata/propagation.py
@@ -73,7 +73,6 @@ class AbstractCalculator:
         return self._loc_input
 
 
-@numba.jit(nopython=True)
 def _my_trapz_impl(thickness, prop, depth_max):
     total = 0
     depth = 0
@@ -110,7 +109,7 @@ def _my_trapz_python(thickness, prop, depth_max):
     return total / depth_max
 
 
-my_trapz = _my_trapz_impl if HAS_NUMBA else _my_trapz_python
+my_trapz = numba.jit(nopython=True)(_my_trapz_impl) if HAS_NUMBA else _my_trapz_python
 
 
 def _calc_waves_python(angular_freqs, comp_shear_vels, comp_shear_mods, thicknesses):
-- 
2.43.0


From 32010c1faeaddf88d2ec198a942b5758f98768ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:30 +0000
Subject: [PATCH 02/30] fix: provide pga and pgv for random vibration theory
 motions

---
 src/pystrata/motion.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/pystrata/motion.py b/src/pystrata/motion.py
index b286dac..55280e5 100644
--- a/src/pystrata/motion.py
+++ b/src/pystrata/motion.py
@@ -85,6 +85,18 @@ class Motion:
             self._cav = self.calc_cav()
         return self._cav
 
+    def calc_pgv(self, tf=None):
+        tf = 1 if tf is None else np.asarray(tf)
+        # Compute transfer function from acceleration to velocity
+        # only over non-zero frequencies
+        mask = ~np.isclose(self.angular_freqs, 0)
+        tf_av = np.zeros_like(mask, dtype=complex)
+        tf_av[mask] = 1 / (self.angular_freqs[mask] * 1j)
+        return GRAVITY * 100 * self.calc_peak(tf_av * tf)
+
+    def calc_pga(self, tf=None):
+        return self.calc_peak(tf)
+
     def calc_peak(self, tf: np.typing.ArrayLike | None = None, **kwargs) -> float:
         raise NotImplementedError
 
@@ -167,18 +179,6 @@ class TimeSeriesMotion(Motion):
             ts = np.fft.irfft(tf * self.fourier_amps / self.time_step)
         return ts
 
-    def calc_pgv(self, tf=None):
-        tf = 1 if tf is None else np.asarray(tf)
-        # Compute transfer function from acceleration to velocity
-        # only over non-zero frequencies
-        mask = ~np.isclose(self.angular_freqs, 0)
-        tf_av = np.zeros_like(mask, dtype=complex)
-        tf_av[mask] = 1 / (self.angular_freqs[mask] * 1j)
-        return GRAVITY * 100 * self.calc_peak(tf_av * tf)
-
-    def calc_pga(self, tf=None):
-        return self.calc_peak(tf)
-
     def calc_peak(self, tf=None, **kwargs):
         ts = self.calc_time_series(tf)
         return np.abs(ts).max()
-- 
2.43.0


From d5ce762822dd0770ff0411a5a2d79c40ca5fa46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 03/30] fix: use the absolute change as the relative error of
 an iteration

---
 src/pystrata/site.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 5d286f2..f05d9cc 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -1702,7 +1702,7 @@ class IterativeValue:
     def relative_error(self) -> float:
         """The relative error, in percent, between the two iterations."""
         if np.all(self.value > 0):
-            err = 100.0 * np.max((self.previous - self.value) / self.value)
+            err = 100.0 * np.max(np.abs(self.previous - self.value) / self.value)
         elif np.isclose(self.value, self.previous).all():
             # When value is zero and close to previous
             err = 0
-- 
2.43.0


From 034b963372099faa18c723cadbd8e85251bac9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 04/30] fix: copy layers with their initial shear-wave velocity

---
 src/pystrata/site.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index f05d9cc..f79f6e0 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -1772,7 +1772,9 @@ class Layer:
 
     def copy(self) -> Layer:
         """Return a copy of the Layer instance with previously defined SoilType."""
-        return Layer(self.soil_type, self.thickness, self.shear_vel, self.damping_min)
+        return Layer(
+            self.soil_type, self.thickness, self.initial_shear_vel, self.damping_min
+        )
 
     @property
     def depth(self) -> float:
-- 
2.43.0


From 09ec53a7b47d8475b942b1bf6792f69028af805e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 05/30] fix: discretize a profile from initial properties
 without sharing layers

---
 src/pystrata/site.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index f79f6e0..e4b2a6d 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -2179,7 +2179,7 @@ class Profile(collections.abc.Container):
         layers = []
         for layer in self[:-1]:
             if not nonlinear_only or layer.soil_type.is_nonlinear:
-                opt_thickness = layer.shear_vel / max_freq * wave_frac
+                opt_thickness = layer.initial_shear_vel / max_freq * wave_frac
                 count = max(np.ceil(layer.thickness / opt_thickness).astype(int), 1)
                 thickness = layer.thickness / count
                 for _ in range(count):
@@ -2187,14 +2187,14 @@ class Profile(collections.abc.Container):
                         Layer(
                             layer.soil_type,
                             thickness,
-                            layer.shear_vel,
+                            layer.initial_shear_vel,
                             layer.damping_min,
                         )
                     )
             else:
-                layers.append(layer)
+                layers.append(layer.copy())
         # Add the halfspace
-        layers.append(self[-1])
+        layers.append(self[-1].copy())
 
         return Profile(layers, wt_depth=self.wt_depth)
 
-- 
2.43.0


From bf553782b8aaf66d9eddadf168e58c0963b81b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 06/30] fix: locate the requested layer index among equal
 layers

---
 src/pystrata/site.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index e4b2a6d..fe394bb 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -2273,7 +2273,8 @@ class Profile(collections.abc.Container):
             layer = self[i]
         elif index is not None and depth is None:
             layer = self[index]
-            i = self.index(layer)
+            # Layers may be equal, so don't search for the layer
+            i = range(len(self))[index]
             depth_within = 0
         else:
             raise NotImplementedError
-- 
2.43.0


From dc4ec7db185ce2ab8ec7ba217d40b231ddafd703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 07/30] fix: accumulate depth through layers equal to the last
 layer

---
 src/pystrata/site.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index fe394bb..fe99f4c 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -2137,7 +2137,7 @@ class Profile(collections.abc.Container):
             layer._profile = self
             layer._depth = depth
             layer._stress_vert = stress_vert
-            if layer != self[-1]:
+            if layer is not self[-1]:
                 # Use the layer to compute the values at the base of the
                 # layer, and apply them at the top of the next layer
                 depth = layer.depth_base
-- 
2.43.0


From 84ebcf581bd060bcdd7eeaf4d4aa8296fe9feaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:33 +0000
Subject: [PATCH 08/30] fix: update the layer depths after inserting at any
 list index

---
 src/pystrata/site.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index fe99f4c..69402e3 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -2117,7 +2117,8 @@ class Profile(collections.abc.Container):
 
     def insert(self, index, layer):
         self.layers.insert(index, layer)
-        self.update_layers(index)
+        # Update all layers, as index may be negative or exceed the length
+        self.update_layers()
 
     def reset_layers(self):
         """Set initial properties from the soil types."""
-- 
2.43.0


From ed7782af8eb29e2b511c23db45533f9bd6d56870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:33 +0000
Subject: [PATCH 09/30] fix: include the half-space in Vs30 of profiles
 shallower than 30 m

---
 src/pystrata/site.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 69402e3..a2e0b37 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -2314,6 +2314,8 @@ class Profile(collections.abc.Container):
         """Compute the Vs30 of the profile."""
         tot_time = np.r_[0, np.cumsum(self.thickness / self.initial_shear_vel)[:-1]]
         time = np.interp(30, self.depth, tot_time)
+        # Remaining travel time through the half-space
+        time += max(30 - self[-1].depth, 0) / self[-1].initial_shear_vel
         return 30 / time
 
     def simplified_rayliegh_vel(self):
-- 
2.43.0


From 9bb300585cad944a81eb4c53335c52ddd2291805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:04 +0000
Subject: [PATCH 10/30] fix: keep the half-space minimum damping in thickness
 variation

---
 src/pystrata/variation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/variation.py b/src/pystrata/variation.py
index 4dca245..611ac0c 100644
--- a/src/pystrata/variation.py
+++ b/src/pystrata/variation.py
@@ -276,7 +276,9 @@ class ToroThicknessVariation:
 
         # Add the half-space
         hsl = profile[-1]
-        layers.append(site.Layer(hsl.soil_type, 0, hsl.initial_shear_vel))
+        layers.append(
+            site.Layer(hsl.soil_type, 0, hsl.initial_shear_vel, hsl.damping_min)
+        )
 
         varied = site.Profile(layers, profile.wt_depth)
         return varied
-- 
2.43.0


From 5725ba24e4eb8d1e0c6ac942cf85a799210380af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:04 +0000
Subject: [PATCH 11/30] fix: copy the half-space in half-space depth variation

---
 src/pystrata/variation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystrata/variation.py b/src/pystrata/variation.py
index 611ac0c..0ebce54 100644
--- a/src/pystrata/variation.py
+++ b/src/pystrata/variation.py
@@ -294,7 +294,7 @@ class HalfSpaceDepthVariation:
 
         # Find the layer
         index, depth_within = profile.lookup_depth(varied_depth)
-        half_space = profile[-1]
+        half_space = profile[-1].copy()
 
         if index < (len(profile) - 1):
             # Variation is within the layers
-- 
2.43.0


From e5a62db7b7f46848f3c7e994605cde7ddb766530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:04 +0000
Subject: [PATCH 12/30] fix: copy the half-space in soil-type variation

---
 src/pystrata/variation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystrata/variation.py b/src/pystrata/variation.py
index 0ebce54..9a31176 100644
--- a/src/pystrata/variation.py
+++ b/src/pystrata/variation.py
@@ -930,7 +930,7 @@ class SoilTypeVariation:
 
         # Add the unrandomized bedrock
         if not self.vary_bedrock:
-            layers.append(profile[-1])
+            layers.append(profile[-1].copy())
 
         return site.Profile(layers, profile.wt_depth)
 
-- 
2.43.0


From 48e10a09e0374797653200c2eac8dda7eb015f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:45 +0000
Subject: [PATCH 13/30] fix: adjust damping with layer thicknesses when
 excluded layers are interleaved

---
 src/pystrata/tools.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pystrata/tools.py b/src/pystrata/tools.py
index a7bb6c2..d5bfc12 100644
--- a/src/pystrata/tools.py
+++ b/src/pystrata/tools.py
@@ -451,8 +451,7 @@ def adjust_damping_values(
 
     # Collect the properties
     vel_shear = np.array([layer.initial_shear_vel for layer in layers])
-    depth = np.array([layer.depth for layer in layers])
-    thick = np.r_[np.diff(depth), 0]
+    thick = np.array([layer.thickness for layer in layers])
 
     gamma = np.sum(thick / vel_shear**2) / remainder
     damping = 1 / (2 * gamma * vel_shear)
-- 
2.43.0


From cb7caeb103c85eab86ca35e1467b12c2753fdaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:45 +0000
Subject: [PATCH 14/30] fix: refuse damping adjustment when only the half-space
 is selected

---
 src/pystrata/tools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pystrata/tools.py b/src/pystrata/tools.py
index d5bfc12..8e491af 100644
--- a/src/pystrata/tools.py
+++ b/src/pystrata/tools.py
@@ -453,6 +453,9 @@ def adjust_damping_values(
     vel_shear = np.array([layer.initial_shear_vel for layer in layers])
     thick = np.array([layer.thickness for layer in layers])
 
+    if not np.any(thick > 0):
+        raise RuntimeError("No layers selected")
+
     gamma = np.sum(thick / vel_shear**2) / remainder
     damping = 1 / (2 * gamma * vel_shear)
 
-- 
2.43.0


From ea7219e978d29edeb72bc5c9e33b578849285fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:45 +0000
Subject: [PATCH 15/30] fix: compute scattering attenuation with initial
 velocities

---
 src/pystrata/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystrata/tools.py b/src/pystrata/tools.py
index 8e491af..59599f7 100644
--- a/src/pystrata/tools.py
+++ b/src/pystrata/tools.py
@@ -334,7 +334,7 @@ def calc_atten_scatter(
             site.Layer(
                 site.SoilType(layer.soil_type.name, layer.soil_type.unit_wt, 0, 0.01),
                 layer.thickness,
-                layer.shear_vel,
+                layer.initial_shear_vel,
                 layer.damping_min,
             )
             for layer in profile
-- 
2.43.0


From 11dba4eea701fce7421fd33cb36203b4fcef28d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:45 +0000
Subject: [PATCH 16/30] fix: read nrattle half-space velocities without a
 decimal point

---
 src/pystrata/tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pystrata/tools.py b/src/pystrata/tools.py
index 59599f7..2f88f12 100644
--- a/src/pystrata/tools.py
+++ b/src/pystrata/tools.py
@@ -271,10 +271,10 @@ def read_nrattle_ctl(fpath):
 
     profile = []
     while line := lines.pop(0):
-        try:
-            profile.append(split_line(line, [int, float, float, float, float]))
-        except ValueError:
+        if len(line.split()) < 5:
+            # Half-space properties
             break
+        profile.append(split_line(line, [int, float, float, float, float]))
 
     d["profile"] = np.rec.fromrecords(
         profile, names="layer,thickness,vel_shear,density,inv_qual"
-- 
2.43.0


From bc8096306580ffd1dde203cea1cf6a5bf8b9507e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 17/30] fix: convert Wang and Stokoe index properties to
 decimal only once

---
 src/pystrata/site.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index a2e0b37..ee7956d 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -1294,7 +1294,8 @@ class WangSoilType(SoilType):
             raise ValueError("Invalid soil group")
 
         if damping_min is None:
-            damping_min = cls.calc_damping_min(soil_group, **kwds)
+            # Index properties have already been converted to decimal
+            damping_min = cls.calc_damping_min.__wrapped__(cls, soil_group, **kwds)
 
         gamma_ratio = (100 * strains / gamma_d) ** c
         # Convert damping_min to percent, and then convert the entire form to decimal
-- 
2.43.0


From 33a0237b02a21f133170ef0d09897203f312b6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:25 +0000
Subject: [PATCH 18/30] fix: accept the documented region names of the Kamai et
 al. model

---
 src/pystrata/generic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystrata/generic.py b/src/pystrata/generic.py
index b5be4be..7c609f0 100644
--- a/src/pystrata/generic.py
+++ b/src/pystrata/generic.py
@@ -53,7 +53,7 @@ def kea16_profile(depth: float, vs30: float, region: str) -> pd.DataFrame:
     1710-1723.
     """
     # Coefficients from Table 2 [cite: 184, 185]
-    if region == "california":
+    if region.lower() == "california":
         b1 = 0.25
         b2 = 104
         b3 = 0.22
@@ -62,7 +62,7 @@ def kea16_profile(depth: float, vs30: float, region: str) -> pd.DataFrame:
         b6 = -0.00388
         b7 = 0.0002
         b8 = 0.195
-    elif region == "japan":
+    elif region.lower() == "japan":
         b1 = 0.2
         b2 = 40
         b3 = 0.25
-- 
2.43.0


From 3b7465259723d636e3ff43488d46c6da9bfa26a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:25 +0000
Subject: [PATCH 19/30] fix: accept a scalar depth in the Kamai et al. model

---
 src/pystrata/generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystrata/generic.py b/src/pystrata/generic.py
index 7c609f0..64dad75 100644
--- a/src/pystrata/generic.py
+++ b/src/pystrata/generic.py
@@ -97,7 +97,7 @@ def kea16_profile(depth: float, vs30: float, region: str) -> pd.DataFrame:
 
     df = pd.DataFrame(
         {"vs_median": vs_median, "std_vs_ln_units": std_vs_ln_units},
-        index=pd.Index(depth, name="depth"),
+        index=pd.Index(np.atleast_1d(depth), name="depth"),
     )
 
     return df
-- 
2.43.0


From 730c62f09fe543d6b21c87bfc69bde977d5d6b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:11 +0000
Subject: [PATCH 20/30] fix: support Fourier spectra of odd length

---
 src/pystrata/motion.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pystrata/motion.py b/src/pystrata/motion.py
index 55280e5..33c715e 100644
--- a/src/pystrata/motion.py
+++ b/src/pystrata/motion.py
@@ -174,9 +174,11 @@ class TimeSeriesMotion(Motion):
 
     def calc_time_series(self, tf=None):
         if tf is None:
-            ts = np.fft.irfft(self.fourier_amps / self.time_step)
+            ts = np.fft.irfft(self.fourier_amps / self.time_step, self._fa_length)
         else:
-            ts = np.fft.irfft(tf * self.fourier_amps / self.time_step)
+            ts = np.fft.irfft(
+                tf * self.fourier_amps / self.time_step, self._fa_length
+            )
         return ts
 
     def calc_peak(self, tf=None, **kwargs):
@@ -237,10 +239,11 @@ class TimeSeriesMotion(Motion):
         else:
             n = fa_length
 
+        self._fa_length = n
         self._fourier_amps = np.fft.rfft(self._accels, n)
 
         freq_step = 1.0 / (2 * self._time_step * (n / 2))
-        self._freqs = freq_step * np.arange(1 + n / 2)
+        self._freqs = freq_step * np.arange(1 + n // 2)
 
     def _calc_sdof_tf(self, osc_freq, damping=0.05):
         """Compute the transfer function for a single-degree-of-freedom oscillator.
-- 
2.43.0


From ee2b6acc358290242ace2ef3e1ea9c6f0da60ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:11 +0000
Subject: [PATCH 21/30] fix: start the Arias intensity time series at time zero

---
 src/pystrata/output.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/output.py b/src/pystrata/output.py
index c3e0dbb..ef98bb0 100644
--- a/src/pystrata/output.py
+++ b/src/pystrata/output.py
@@ -405,7 +405,9 @@ class AriasIntensityTSOutput(AccelerationTSOutput):
 
     def _modify_values(self, calc, location, values):
         time_step = calc.motion.time_step
-        values = scipy.integrate.cumulative_trapezoid(values**2, dx=time_step)
+        values = scipy.integrate.cumulative_trapezoid(
+            values**2, dx=time_step, initial=0
+        )
         values *= GRAVITY * np.pi / 2
         return values
 
-- 
2.43.0


From 599b906727f3fd7415607c7ea5c94d2a96cf3dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:11 +0000
Subject: [PATCH 22/30] fix: pad integer results with missing values

---
 src/pystrata/output.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pystrata/output.py b/src/pystrata/output.py
index ef98bb0..48aa593 100644
--- a/src/pystrata/output.py
+++ b/src/pystrata/output.py
@@ -158,6 +158,10 @@ def append_arrays(many, single):
     """
     assert np.ndim(single) == 1
 
+    # Integers cannot represent missing values
+    many = np.asarray(many, dtype=np.result_type(many, float))
+    single = np.asarray(single, dtype=np.result_type(single, float))
+
     # Check if the values need to be padded to for equal length
     diff = single.shape[0] - many.shape[0]
     if diff < 0:
-- 
2.43.0


From 9a581a5db5fd0205d6f2a270c0a387aef0ea241d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 23/30] fix: allow fitting thickness above a half-space without
 thickness

The penalty on the thickness change divided by the half-space thickness,
which is usually zero, so the objective was always NaN.
---
 src/pystrata/propagation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/propagation.py b/src/pystrata/propagation.py
index 7b9c1ae..86e3fc2 100644
--- a/src/pystrata/propagation.py
+++ b/src/pystrata/propagation.py
@@ -529,7 +529,8 @@ class QuarterWaveLenCalculator(AbstractCalculator):
             # Prefer the original values so add the difference to the error
             err += calc_rmse(slowness, _slowness)
             if adjust_thickness:
-                err += calc_rmse(thickness, _thickness)
+                # The half-space is infinite and may have no thickness
+                err += calc_rmse(thickness[:-1], _thickness[:-1])
             if adjust_site_atten:
                 err += calc_rmse(self._site_atten, site_atten)
             return err
-- 
2.43.0


From 8a557b28b3c08bada91d8bcfecbd85e2fa4dc89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 24/30] fix: keep the minimum damping of the layers in
 quarter-wavelength fits

---
 src/pystrata/propagation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystrata/propagation.py b/src/pystrata/propagation.py
index 86e3fc2..b4c94ca 100644
--- a/src/pystrata/propagation.py
+++ b/src/pystrata/propagation.py
@@ -543,7 +543,7 @@ class QuarterWaveLenCalculator(AbstractCalculator):
 
         profile = Profile(
             [
-                Layer(layer.soil_type, thick, 1 / slow)
+                Layer(layer.soil_type, thick, 1 / slow, layer.damping_min)
                 for layer, thick, slow in zip(self.profile, thickness, slowness)
             ],
             self.profile.wt_depth,
-- 
2.43.0


From 361eb2744ee86ab524b11c2effc6dc3e15425ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:32 +0000
Subject: [PATCH 25/30] fix: oscillator damping option of
 plot_amplification_evolv

---
 src/pystrata/output.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/output.py b/src/pystrata/output.py
index 48aa593..e8d80e6 100644
--- a/src/pystrata/output.py
+++ b/src/pystrata/output.py
@@ -59,7 +59,8 @@ def plot_amplification_evolv(
     if freqs is None:
         freqs = np.logspace(-1, 2, num=301)
 
-    osc_damping = 0.05 if "osc_damping" not in kwds else kwds["osc_damping"]
+    # Not an option of the mesh
+    osc_damping = kwds.pop("osc_damping", 0.05)
 
     ln_freqs = np.log(freqs)
     ln_freqs_mot = np.log(calc.motion.freqs)
-- 
2.43.0


From a6ca0c56f7ab2e74e53cfcd29957d55edf9643af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 26/30] fix: logic trees mixing text and float values

---
 src/pystrata/logic_tree.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pystrata/logic_tree.py b/src/pystrata/logic_tree.py
index af0edf9..7e57f17 100644
--- a/src/pystrata/logic_tree.py
+++ b/src/pystrata/logic_tree.py
@@ -4,6 +4,7 @@ import gzip
 import itertools
 import json
 from dataclasses import dataclass, field
+from numbers import Real
 from pathlib import Path
 from typing import Any, Union
 
@@ -59,7 +60,7 @@ class Realization:
         def matches(ref, check):
             if isinstance(ref, list):
                 ret = check in ref
-            elif isinstance(ref, float):
+            elif isinstance(ref, float) and isinstance(check, Real):
                 ret = np.isclose(ref, check)
             else:
                 ret = ref == check
@@ -123,7 +124,7 @@ class Alternative:
         def matches(ref, check):
             if isinstance(ref, list):
                 ret = check in ref
-            elif isinstance(ref, float):
+            elif isinstance(ref, float) and isinstance(check, Real):
                 ret = np.isclose(ref, check)
             else:
                 ret = ref == check
@@ -187,7 +188,9 @@ class Node:
         """
         for a in self.alts:
             if (
-                isinstance(value, float) and np.isclose(a.value, value)
+                isinstance(value, float)
+                and isinstance(a.value, Real)
+                and np.isclose(a.value, value)
             ) or a.value == value:
                 return a
 
-- 
2.43.0


From eabe9088de78066cbef4f9d1f0f0b64b92c4fe82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:54 +0000
Subject: [PATCH 27/30] fix: Toro layering could end in an extra layer of
 rounding-error thickness

---
 src/pystrata/variation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pystrata/variation.py b/src/pystrata/variation.py
index 9a31176..efb1750 100644
--- a/src/pystrata/variation.py
+++ b/src/pystrata/variation.py
@@ -237,7 +237,8 @@ class ToroThicknessVariation:
 
             if depth > depth_total:
                 thickness = depth_total - depth_prev
-                depth = depth_prev + thickness
+                # Exactly the total; otherwise, rounding could add another layer
+                depth = depth_total
 
             depth_mid = (depth_prev + depth) / 2
             yield thickness, depth_mid
-- 
2.43.0


From 40432365f69279c3dac8525e2b8b39c53d60f86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:54 +0000
Subject: [PATCH 28/30] fix: iter_soil_types repeats soil types shared by
 layers

---
 src/pystrata/site.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index ee7956d..6d76518 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -2146,12 +2146,12 @@ class Profile(collections.abc.Container):
                 stress_vert = layer.stress_vert(layer.thickness, effective=False)
 
     def iter_soil_types(self):
-        yielded = set()
+        yielded = []
         for layer in self:
-            if layer.soil_type in yielded:
+            if any(layer.soil_type is st for st in yielded):
                 continue
             else:
-                yielded.add(layer)
+                yielded.append(layer.soil_type)
                 yield layer.soil_type
 
     def auto_discretize(
-- 
2.43.0


From e46547e2da7c85d128b7949c9315b93e60d86005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:17 +0000
Subject: [PATCH 29/30] fix: varied soil type without modulus reduction was
 given NaN values

---
 src/pystrata/variation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pystrata/variation.py b/src/pystrata/variation.py
index efb1750..2dbeab3 100644
--- a/src/pystrata/variation.py
+++ b/src/pystrata/variation.py
@@ -894,6 +894,9 @@ class SoilTypeVariation:
         for attr_name, values in zip(
             ["mod_reduc", "damping"], [varied_mod_reduc, varied_damping]
         ):
+            if getattr(realization, attr_name) is None:
+                # No modulus reduction to vary
+                continue
             try:
                 getattr(realization, attr_name).values = values
             except AttributeError:
-- 
2.43.0


From 36e33cd2412b68e29c52d2de3919f0f667fc9a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 30/30] fix: frequency-dependent damping curves ignored all but
 the first strain

A curve with one column per frequency was evaluated at only the first
strain of a strain spectrum, so frequency-dependent calculators used the
wrong damping at every other frequency.
---
 src/pystrata/site.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pystrata/site.py b/src/pystrata/site.py
index 6d76518..d09d94b 100644
--- a/src/pystrata/site.py
+++ b/src/pystrata/site.py
@@ -171,8 +171,9 @@ class NonlinearCurve(ABC):
             # 1D interpolate
             values = self._interpolater(ln_strains)
         else:
-            ln_strains = np.atleast_1d(ln_strains)
-            values = np.array([i(ln_strains[0]) for i in self._interpolater])
+            # One curve per frequency, each evaluated at its own strain
+            ln_strains = np.broadcast_to(ln_strains, len(self._interpolater))
+            values = np.array([i(s) for i, s in zip(self._interpolater, ln_strains)])
 
         return np.clip(values, *self._limits)
 
-- 
2.43.0

