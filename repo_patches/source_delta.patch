From 43654729ea4be8179ca4e3a4572546533e0525da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 01/75] fix: use the given concentration and coordinate in
 Fourier transforms of untruncated profiles

---
 src/halomod/profiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/halomod/profiles.py b/src/halomod/profiles.py
index 2de41ea..67000e5 100644
--- a/src/halomod/profiles.py
+++ b/src/halomod/profiles.py
@@ -592,7 +592,7 @@ class ProfileInf(Profile, abstract=True):
             co-ordinates [units Mpc/h]. ``x`` is in units of the scale radius
             (r_vir = c), and ``s`` is in units of the virial radius (r_vir = 1).
         """
-        c, K = self._get_k_variables(k, m)
+        c, K = self._get_k_variables(k, m, c, coord)
 
         u = self._p(K) / self._h(c)
 
-- 
2.43.0


From 88cba96e9dde964754163ff8df4d6fac4c4b8821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 02/75] fix: do not sort the caller's wavenumbers in place in
 untruncated profile transforms

---
 src/halomod/profiles.py | 34 ++++++++++------------------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/src/halomod/profiles.py b/src/halomod/profiles.py
index 67000e5..03e1ad9 100644
--- a/src/halomod/profiles.py
+++ b/src/halomod/profiles.py
@@ -851,19 +851,12 @@ class MooreInf(Moore, ProfileInf):
                 k**6 / 46656.0,
             ) / (4 * np.sqrt(3) * np.pi ** (5 / 2) * k)
 
-        if K.ndim == 2:
-            K1 = np.reshape(K, -1)
-            K1.sort()
-        else:
-            K1 = K
-        res = np.zeros(len(K[K < 10**3.2]))
-        for i, k in enumerate(K1[K1 < 10**3.2]):
-            res[i] = G(k)
-
-        fit = spline(np.log(K1[K1 < 10**3.2]), np.log(res), k=1)
-        res = np.reshape(np.exp(fit(np.log(np.reshape(K, -1)))), (len(K[:, 0]), len(K[0, :])))
+        K1 = np.unique(K[K < 10**3.2])
+        res = np.array([float(G(k)) for k in K1])
 
-        return res
+        # The transform is a power law well before the upper limit on K.
+        fit = spline(np.log(K1), np.log(res), k=1)
+        return np.exp(fit(np.log(K)))
 
 
 class Constant(Profile):
@@ -941,19 +934,12 @@ class GeneralizedNFWInf(GeneralizedNFW, ProfileInf):
                 k**2 / 4,
             ) / (np.sqrt(np.pi) * sp.gamma(3 - self.params["alpha"]))
 
-        if len(K.shape) == 2:
-            K1 = np.reshape(K, -1)
-            K1.sort()
-        else:
-            K1 = K
-        res = np.zeros(len(K[K < 10**3.2]))
-        for i, k in enumerate(K1[K1 < 10**3.2]):
-            res[i] = G(k)
-
-        fit = spline(np.log(K1[K1 < 10**3.2]), np.log(res), k=1)
-        res = np.reshape(np.exp(fit(np.log(np.reshape(K, -1)))), (len(K[:, 0]), len(K[0, :])))
+        K1 = np.unique(K[K < 10**3.2])
+        res = np.array([float(G(k)) for k in K1])
 
-        return res
+        # The transform is a power law well before the upper limit on K.
+        fit = spline(np.log(K1), np.log(res), k=1)
+        return np.exp(fit(np.log(K)))
 
 
 class Einasto(Profile):
-- 
2.43.0


From ac5aa89256bc5a8eecd7f1503e8821f49d3abade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 03/75] fix: Meijer-G parameters of the untruncated Moore
 profile's Fourier transform

---
 src/halomod/profiles.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/halomod/profiles.py b/src/halomod/profiles.py
index 03e1ad9..b056038 100644
--- a/src/halomod/profiles.py
+++ b/src/halomod/profiles.py
@@ -835,18 +835,18 @@ class MooreInf(Moore, ProfileInf):
     def _p(self, K):
         def G(k):
             return mpmath.meijerg(
-                [[1.0 / 2.0, 3.0 / 4.0, 1.0], []],
+                [[1.0 / 6.0, 5.0 / 12.0, 11.0 / 12.0], []],
                 [
                     [
-                        1.0 / 12.0,
-                        1.0 / 4.0,
+                        1.0 / 6.0,
+                        1.0 / 6.0,
                         5.0 / 12.0,
                         0.5,
-                        3.0 / 4.0,
-                        3.0 / 4.0,
-                        1.0,
+                        2.0 / 3.0,
+                        5.0 / 6.0,
+                        11.0 / 12.0,
                     ],
-                    [-1.0 / 12.0, 7.0 / 12.0],
+                    [0.0, 1.0 / 3.0],
                 ],
                 k**6 / 46656.0,
             ) / (4 * np.sqrt(3) * np.pi ** (5 / 2) * k)
-- 
2.43.0


From f833f9dad3e0939cf7d338c1c1e59c38c18a5b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 04/75] fix: normalisation of the untruncated generalized NFW
 profile's Fourier transform

---
 src/halomod/profiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/halomod/profiles.py b/src/halomod/profiles.py
index b056038..ea985fa 100644
--- a/src/halomod/profiles.py
+++ b/src/halomod/profiles.py
@@ -932,7 +932,7 @@ class GeneralizedNFWInf(GeneralizedNFW, ProfileInf):
                 ],
                 [[0, 0, 0.5], [-0.5]],
                 k**2 / 4,
-            ) / (np.sqrt(np.pi) * sp.gamma(3 - self.params["alpha"]))
+            ) / (2 ** self.params["alpha"] * np.sqrt(np.pi) * sp.gamma(3 - self.params["alpha"]))
 
         K1 = np.unique(K[K < 10**3.2])
         res = np.array([float(G(k)) for k in K1])
-- 
2.43.0


From 15ea9b3e7db449681a3f653743f118739a241c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 05/75] fix: Moore profile scale radius must be r_vir/c

---
 src/halomod/profiles.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/halomod/profiles.py b/src/halomod/profiles.py
index ea985fa..962aba3 100644
--- a/src/halomod/profiles.py
+++ b/src/halomod/profiles.py
@@ -824,10 +824,6 @@ class Moore(Profile):
 
         return c
 
-    def _rs_from_m(self, m, c=None):
-        r_s = super()._rs_from_m(m, c)
-        return r_s * c / (c / 1.7) ** 0.9
-
 
 class MooreInf(Moore, ProfileInf):
     r"""The same with Moore, but not truncated at x=c."""
-- 
2.43.0


From a008338b10419cdf02dd797abdd2e4b7eec55b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 06/75] fix: constant profile shape function must follow its
 argument's shape

---
 src/halomod/profiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/halomod/profiles.py b/src/halomod/profiles.py
index 962aba3..f3b3838 100644
--- a/src/halomod/profiles.py
+++ b/src/halomod/profiles.py
@@ -864,7 +864,7 @@ class Constant(Profile):
     """
 
     def _f(self, x):
-        return 1.0
+        return np.ones_like(x, dtype=float)
 
     def _h(self, c):
         return c**3 / 3.0
-- 
2.43.0


From 124362319fb4d8b9e17fa010c627d75457ea8894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 07/75] fix: density profile at a single scalar radius and mass

---
 src/halomod/profiles.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/halomod/profiles.py b/src/halomod/profiles.py
index f3b3838..6adeaeb 100644
--- a/src/halomod/profiles.py
+++ b/src/halomod/profiles.py
@@ -356,8 +356,7 @@ class Profile(Component):
             (x(r_vir) = c), and ``s`` is in units of the virial radius (s(r_vir) = 1).
         """
         c, r_s, x = self._get_r_variables(r, m, c, coord)
-        rho = self._f(x) * self._rho_s(c, r_s, norm)
-        rho[x > c] = 0.0
+        rho = np.where(x > c, 0.0, self._f(x) * self._rho_s(c, r_s, norm))
 
         return self._reduce(rho)
 
-- 
2.43.0


From 05480e642d6e12d0ef89eb7f6d2cc6213d73676b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 08/75] fix: numerical profile Fourier transform for
 one-dimensional wavenumbers

---
 src/halomod/profiles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/halomod/profiles.py b/src/halomod/profiles.py
index 6adeaeb..75a3694 100644
--- a/src/halomod/profiles.py
+++ b/src/halomod/profiles.py
@@ -264,9 +264,10 @@ class Profile(Component):
         of the profile, taken to a Hankel transform.
         """
         c = np.atleast_1d(c)
+        K = np.atleast_1d(K)
         if K.ndim < 2:
             # should be len(k) * len(rs)
-            K = np.atleast_2d(K) if len(K) != len(c) else np.atleast_2d(K).T
+            K = np.atleast_2d(K).T if len(K) != len(c) else np.atleast_2d(K)
 
         assert K.ndim == 2
         assert K.shape[1] == len(c)
-- 
2.43.0


From f145aa8876fd213d28f34d04994242225029e51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 09/75] fix: untruncated profile self-convolution is
 mass-normalised by default

---
 src/halomod/profiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/halomod/profiles.py b/src/halomod/profiles.py
index 75a3694..81f5a77 100644
--- a/src/halomod/profiles.py
+++ b/src/halomod/profiles.py
@@ -622,7 +622,7 @@ class ProfileInf(Profile, abstract=True):
 
         return out
 
-    def lam(self, r, m, norm=None, c=None, coord="r"):
+    def lam(self, r, m, norm="m", c=None, coord="r"):
         """
         The density profile convolved with itself.
 
-- 
2.43.0


From 14c06142398880cd52baaa24675736911837da2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 10/75] fix: power-law extrapolation of entirely negative data

---
 src/halomod/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/halomod/tools.py b/src/halomod/tools.py
index 711d299..494acb3 100644
--- a/src/halomod/tools.py
+++ b/src/halomod/tools.py
@@ -531,7 +531,7 @@ class ExtendedSpline:
             return _NormedCallable(fnc, norm)
         elif fnc == "power_law":
             assert np.all(x > 0), "to use a power-law, x must be >= 0"
-            if not np.all(y > 0) or np.all(y < 0):
+            if not (np.all(y > 0) or np.all(y < 0)):
                 warnings.warn(
                     "to use a power-law, y must be all positive or negative. "
                     "Switching to zero extrapolation.",
-- 
2.43.0


From a71323418a9605af55a5e7e3df915dd016ff04a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 11/75] fix: extended splines evaluated at integer coordinates

---
 src/halomod/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/halomod/tools.py b/src/halomod/tools.py
index 494acb3..4e9748a 100644
--- a/src/halomod/tools.py
+++ b/src/halomod/tools.py
@@ -560,7 +560,7 @@ class ExtendedSpline:
             else:
                 return self._spl(x)
         else:
-            x = np.array(x)
+            x = np.array(x, dtype=float)
             out = np.zeros_like(x)
             lmask = x < self.xmin
             umask = x > self.xmax
-- 
2.43.0


From bdddbd66dba13066ca7210dbe05098cdde26446f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 12/75] fix: spline integrals with a bound at zero

---
 src/halomod/tools.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/halomod/tools.py b/src/halomod/tools.py
index 4e9748a..62a6ed5 100644
--- a/src/halomod/tools.py
+++ b/src/halomod/tools.py
@@ -673,12 +673,12 @@ def spline_integral(
     integral
         The integral from ``xmin`` to ``xmax``.
     """
-    if xmin and xmin < x.min():
+    if xmin is not None and xmin < x.min():
         warnings.warn(
             f"Extrapolation occurs in integral! xmin={xmin} while x.min() ={x.min()}",
             stacklevel=2,
         )
-    if xmax and xmax > x.max():
+    if xmax is not None and xmax > x.max():
         warnings.warn(
             f"Extrapolation occurs in integral! xmax={xmax} while x.max() ={x.max()}",
             stacklevel=2,
@@ -692,7 +692,10 @@ def spline_integral(
         )
     else:
         spl = spline(x, f)
-        return spl.integral(xmin or x.min(), xmax or x.max())
+        return spl.integral(
+            xmin if xmin is not None else x.min(),
+            xmax if xmax is not None else x.max(),
+        )
 
 
 def norm_warn(self):
-- 
2.43.0


From 866ec74d2c9b77e5ac895537422042a602acf668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 13/75] fix: halo-halo power of a single halo mass

---
 src/halomod/halo_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index 10a1f65..c78917b 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -595,7 +595,7 @@ class DMHaloModel(MassFunction):
             mmax2 = mmax
 
         if mmin == mmax or mmin2 == mmax2:
-            spl = spline(np.log10(self.m), self.bias)
+            spl = spline(np.log10(self.m), self.halo_bias)
 
         def get_b(mn, mx):
             if mn == mx:
-- 
2.43.0


From bc552903685e23fbdf0db60192c0ce9aecef83f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 14/75] fix: minimum mass from the tracer density for sharp-cut
 occupations

---
 src/halomod/halo_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index c78917b..83def89 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -1685,7 +1685,7 @@ class TracerHaloModel(DMHaloModel):
             "Consider decreasing Mmin,or checking tracer_density."
         )
         if self.hod.sharp_cut:
-            integral = intg.cumtrapz(integrand[::-1], dx=np.log(c.m[1] / c.m[0]))
+            integral = intg.cumulative_trapezoid(integrand[::-1], dx=np.log(c.m[1] / c.m[0]))
 
             if integral[-1] < ng:
                 raise NGException(density_message.format(integral[-1]))
-- 
2.43.0


From b263a91d29e6fa80dce91a949ebd32ce0bd93e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 15/75] fix: large-scale two-halo power with halo exclusion or
 scale-dependent bias

---
 src/halomod/halo_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index 83def89..96ba97b 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -818,14 +818,14 @@ class DMHaloModel(MassFunction):
 
         # Everything below about k=1e-2 is essentially just the linear power biased,
         # and the hankel transform stops working at some small k.
-        mask = self.k_hm < 1e-2
-        if np.any(mask):
+        mask = self.k < 1e-2
+        if np.any(self.k_hm < 1e-2):
             warnings.warn(
                 "power_2h_auto_tracer for k < 1e-2 is not computed directly, but "
                 "is rather just the linear power * effective bias.",
                 stacklevel=2,
             )
-            out[mask] = self.power[mask] * effective_bias
+            out[mask] = self.power[mask] * effective_bias**2
 
         return tools.ExtendedSpline(self.k, out, lower_func="power_law", upper_func=tools._zero)
 
-- 
2.43.0


From c6614fa3d5ce6605be84017859bf5e8ba5d59977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 16/75] fix: radial distances of the angular correlation
 function are in Mpc/h

---
 src/halomod/integrate_corr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/halomod/integrate_corr.py b/src/halomod/integrate_corr.py
index a1adc21..a589ae7 100644
--- a/src/halomod/integrate_corr.py
+++ b/src/halomod/integrate_corr.py
@@ -387,7 +387,7 @@ class AngularCF(HaloModel):
     @cached_quantity
     def xvec(self):
         """Radial distance grid (corresponds to zvec) [Mpc/h]."""
-        return self.cosmo.comoving_distance(self.zvec).value
+        return (self.cosmo.comoving_distance(self.zvec) * self.cosmo.h).value
 
     @cached_quantity
     def theta(self):
-- 
2.43.0


From 3b147b6151d8a74e7a4ef8fa7978f24549a851bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 17/75] fix: explicit zero parameters of the Duffy08 relation

---
 src/halomod/concentration.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/halomod/concentration.py b/src/halomod/concentration.py
index 07dd304..0547b99 100644
--- a/src/halomod/concentration.py
+++ b/src/halomod/concentration.py
@@ -468,9 +468,9 @@ class Duffy08(Bullock01Power):
         parameter_set = set_params.get(self.mdef.colossus_name, set_params["200c"]).get(
             self.params["sample"]
         )
-        a = self.params["a"] or parameter_set["a"]
-        b = self.params["b"] or parameter_set["b"]
-        c = self.params["c"] or parameter_set["c"]
+        a, b, c = (
+            parameter_set[p] if self.params[p] is None else self.params[p] for p in ("a", "b", "c")
+        )
         return self.params["norm"] * self._cm(m, self.params["ms"], a, b, c, z)
 
 
-- 
2.43.0


From c4fa89f4175e3f34fdecc4ddcbb1d38dac86edb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 18/75] fix: WDM-rescaled concentrations must not alter the CDM
 relation's defaults

---
 src/halomod/wdm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/halomod/wdm.py b/src/halomod/wdm.py
index d7433cb..6430bce 100644
--- a/src/halomod/wdm.py
+++ b/src/halomod/wdm.py
@@ -35,8 +35,8 @@ def CMRelationWDMRescaled(name):
         b1 = self.params["beta1"]
         return cm * (1 + g1 * self.m_hm / m) ** (-g2) * (1 + z) ** (b0 * z - b1)
 
-    K = type(name + "WDM", (x,), {})
-    K._defaults.update({"g1": 60, "g2": 0.17, "beta0": 0.026, "beta1": 0.04})
+    wdm_defaults = {"g1": 60, "g2": 0.17, "beta0": 0.026, "beta1": 0.04}
+    K = type(name + "WDM", (x,), {"_defaults": x._defaults | wdm_defaults})
 
     K.__init__ = __init__
     K.cm = cm
-- 
2.43.0


From 053c24eca37c3a676058da13bc155671b86927d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 19/75] fix: lower mass bound of halo-exclusion double
 integrals

---
 src/halomod/halo_exclusion.py | 40 ++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/halomod/halo_exclusion.py b/src/halomod/halo_exclusion.py
index bb41663..f71e88c 100644
--- a/src/halomod/halo_exclusion.py
+++ b/src/halomod/halo_exclusion.py
@@ -383,8 +383,8 @@ class DblSphere(Sphere):
 def integrate_dblsphere(integ, mask, dx, m=None, xmin=None):
     """Integration function for double sphere model.
 
-    When *m* and *xmin* are provided the outer (m1) integral is evaluated via
-    a cubic spline so that the result varies smoothly as *xmin* changes.
+    When *m* and *xmin* are provided both integrals are evaluated via a cubic
+    spline so that the result varies smoothly as *xmin* changes.
 
     Parameters
     ----------
@@ -395,7 +395,7 @@ def integrate_dblsphere(integ, mask, dx, m=None, xmin=None):
     m : np.ndarray or None
         Halo-mass grid (required when *xmin* is set).
     xmin : float or None
-        Smooth lower bound for the outer (m1) integral.  When ``None`` the
+        Smooth lower bound for both integrals.  When ``None`` the
         standard Simpson rule is used.  The caller is responsible for passing
         ``xmin=None`` when ``xmin <= m[0]``; this function does not re-check
         that condition.
@@ -424,9 +424,8 @@ def integrate_dblsphere(integ, mask, dx, m=None, xmin=None):
         for ir in range(mask.shape[0]):
             integrand[ir] = np.outer(integ[ir, ik, :], integ[ir, ik, :])
         integrand[mask] = 0
-        # Inner integral (over m2) uses Simpson's rule; outer uses spline if xmin set.
-        inner = intg.simpson(integrand, dx=dx)
-        out[:, ik] = _outer(inner)
+        # Both integrals have the same lower bound, and use a spline if xmin is set.
+        out[:, ik] = _outer(_outer(integrand))
     return out
 
 
@@ -458,6 +457,10 @@ if USE_NUMBA:
 
         def integrate(self):
             """Integrate the :meth:`raw_integrand` over mass."""
+            if self.xmin is not None:
+                # The fast path has no smooth lower bound.
+                return super().integrate()
+
             integ = self.raw_integrand()  # (r,k,m)
             return integrate_dblsphere_(integ, self.mask, self.dlnx)
 
@@ -515,8 +518,8 @@ class DblEllipsoid(DblSphere):
         for ik in range(integ.shape[1]):
             for ir in range(len(self.r)):
                 integrand[ir] = self.prob[ir] * np.outer(integ[ir, ik, :], integ[ir, ik, :])
-            # Inner integral (m2) uses Simpson's rule; outer (m1) uses spline if xmin set.
-            inner = intg.simpson(integrand, dx=self.dlnx)  # (r, m1)
+            # Both integrals have the same lower bound, and use a spline if xmin is set.
+            inner = self._spline_integrate(integrand)  # (r, m1)
             out[:, ik] = self._spline_integrate(inner)  # (r,)
         return out
 
@@ -529,6 +532,10 @@ if USE_NUMBA:
         @cached_property
         def density_mod(self):  # pragma: no cover
             """The modified density, under new limits."""
+            if self.xmin is not None:
+                # The fast path has no smooth lower bound.
+                return super().density_mod
+
             return density_mod_(
                 self.r,
                 self.r_halo,
@@ -539,10 +546,19 @@ if USE_NUMBA:
         @cached_property
         def prob(self):  # pragma: no cover
             """The probablity distribution used in calculating double integral."""
-            return prob_inner_(self.r, self.r_halo)
+            prob = prob_inner_(self.r, self.r_halo)
+            if self.xmin is not None:
+                # Only the upper triangle is filled, the rest follows by symmetry.
+                upper = np.triu(prob)
+                prob = upper + np.triu(prob, 1).transpose((0, 2, 1))
+            return prob
 
         def integrate(self):  # pragma: no cover
             """Integrate the :meth:`raw_integrand` over mass."""
+            if self.xmin is not None:
+                # The fast path has no smooth lower bound.
+                return super().integrate()
+
             return integrate_dblell(self.raw_integrand(), self.prob, self.dlnx)
 
     @jit(nopython=True)
@@ -621,6 +637,8 @@ class NgMatched(DblEllipsoid):
     def mask(self):
         """Mask Function for matching density."""
         integrand = self.density * self.m
+        if self.xmin is not None:
+            integrand[self.m < self.xmin] = 0
         cumint = intg.cumulative_trapezoid(integrand, dx=self.dlnx, initial=0)  # len m
         cumint = np.outer(np.ones_like(self.r), cumint)  # r,m
         return np.where(
@@ -645,6 +663,8 @@ if USE_NUMBA:
         def mask(self):
             """Mask Function for matching density."""
             integrand = self.density * self.m
+            if self.xmin is not None:
+                integrand[self.m < self.xmin] = 0
             cumint = intg.cumulative_trapezoid(integrand, dx=self.dlnx, initial=0)  # len m
             cumint = np.outer(np.ones_like(self.r), cumint)  # r,m
             return np.where(
@@ -657,7 +677,7 @@ if USE_NUMBA:
             """Integrate the :meth:`raw_integrand` over mass."""
             integ = self.raw_integrand()  # r,k,m
             integ.transpose((1, 0, 2))[:, self.mask] = 0
-            return intg.simpson(integ, dx=self.dlnx) ** 2
+            return self._spline_integrate(integ) ** 2
 
 
 def cumsimps(func, dx):
-- 
2.43.0


From dd98ef8413488b5aca84d2875c7640ff88446334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 20/75] fix: matter and cross correlations must vanish at large
 separations

---
 src/halomod/cross_correlations.py | 2 +-
 src/halomod/halo_model.py         | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/halomod/cross_correlations.py b/src/halomod/cross_correlations.py
index b4013ec..8a3a2d9 100644
--- a/src/halomod/cross_correlations.py
+++ b/src/halomod/cross_correlations.py
@@ -370,7 +370,7 @@ class CrossCorrelations(Framework):
 
     def corr_cross_fnc(self, r):
         """The tracer cross correlation function."""
-        return self.corr_1h_cross_fnc(r) + self.corr_2h_cross_fnc(r) + 1
+        return self.corr_1h_cross_fnc(r) + self.corr_2h_cross_fnc(r)
 
     @property
     def corr_cross(self):
diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index 96ba97b..87045b7 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -679,7 +679,7 @@ class DMHaloModel(MassFunction):
                 intg.trapezoid(integrand, dx=np.log(10) * self.dlog10m) / self.mean_density0**2 - 1
             )
         else:
-            table = tools.hankel_transform(self.power_1h_auto_matter_fnc, self._r_table, "r")
+            table = tools.hankel_transform(self.power_1h_auto_matter_fnc, self._r_table, "r") - 1
 
         return tools.ExtendedSpline(
             self._r_table,
@@ -1658,7 +1658,6 @@ class TracerHaloModel(DMHaloModel):
         return tools._SumCallable(
             self.corr_1h_cross_tracer_matter_fnc,
             self.corr_2h_cross_tracer_matter_fnc,
-            offset=1,
         )
 
     @property
-- 
2.43.0


From dbe815317c13c9cbf4125203fa0505c095738c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 21/75] fix: total correlations beyond the tabulated
 separations are zero, not one

---
 src/halomod/halo_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index 87045b7..3c45c71 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -685,7 +685,7 @@ class DMHaloModel(MassFunction):
             self._r_table,
             table,
             lower_func="power_law",
-            upper_func=tools._zero,
+            upper_func="boundary",
         )
 
     @property
@@ -1363,7 +1363,7 @@ class TracerHaloModel(DMHaloModel):
         else:
             c = tools.hankel_transform(self.power_1h_ss_auto_tracer_fnc, self._r_table, "r")
         return tools.ExtendedSpline(
-            self._r_table, c, lower_func="power_law", upper_func=tools._zero
+            self._r_table, c, lower_func="power_law", upper_func="boundary"
         )
 
     @property
@@ -1421,7 +1421,7 @@ class TracerHaloModel(DMHaloModel):
         c = c / self.mean_tracer_den**2 - 1
 
         return tools.ExtendedSpline(
-            self._r_table, c, lower_func="power_law", upper_func=tools._zero
+            self._r_table, c, lower_func="power_law", upper_func="boundary"
         )
 
     @property
-- 
2.43.0


From efed4b75639710977c743e8d1884d880a48ff1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 22/75] fix: small-scale extrapolation of the two-halo
 correlation without exclusion

---
 src/halomod/halo_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index 3c45c71..73642e6 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -782,7 +782,7 @@ class DMHaloModel(MassFunction):
         # to power.
         corr = tools.hankel_transform(power_primitive, self._r_table, "r", h=1e-4)
 
-        lower_func = "power_law" if isinstance(Exclusion, NoExclusion) else tools._zero
+        lower_func = "power_law" if self.exclusion_model is NoExclusion else tools._zero
         return tools.ExtendedSpline(
             self._r_table, corr, lower_func=lower_func, upper_func=tools._zero
         )
-- 
2.43.0


From 5ff6d7fe28e0a20373ca159d4b71725f08f0dd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 23/75] fix: integrals over sharp-cut occupations keep the
 central amplitude and maximum mass

---
 src/halomod/halo_model.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index 73642e6..338bd4d 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -1192,14 +1192,19 @@ class TracerHaloModel(DMHaloModel):
         """The central occupation to use when integrating over mass.
 
         The reason is because if a sharp cut happens, we need to make sure the spline
-        carries all the way through past the mmin as unity. Setting the pixel below mmin
+        carries all the way through past the mmin as a constant. Setting the pixel below mmin
         to zero causes a bad spline.
         """
-        return (
-            np.ones_like(self.m)
-            if (self.hod.sharp_cut and (self.hod._central or self.hod.central_condition_inherent))
-            else self.central_occupation
-        )
+        if not (
+            self.hod.sharp_cut and (self.hod._central or self.hod.central_condition_inherent)
+        ):
+            return self.central_occupation
+
+        occ = np.array(self.central_occupation, dtype=float)
+        above = self.m >= 10**self.hod.mmin
+        if np.any(above):
+            occ[~above] = occ[above][0]
+        return occ
 
     @property
     def _total_occupation(self):
-- 
2.43.0


From 4351238ddcb1f68056e88a315517ee9951c97589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 24/75] fix: Tinker05 satellites just below the minimum mass
 are zero, not NaN

---
 src/halomod/hod.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/halomod/hod.py b/src/halomod/hod.py
index 5ac52b3..df5b387 100644
--- a/src/halomod/hod.py
+++ b/src/halomod/hod.py
@@ -454,15 +454,15 @@ class Tinker05(Zehavi05):
     def _satellite_occupation(self, m):
         """Amplitude of satellite tracer at mass M."""
         out = self.central_occupation(m)
-        # At m == M_min the denominator is zero; the result is still zero because
-        # central_occupation(M_min) == 1 and exp(-inf) == 0, but numpy raises a
-        # RuntimeWarning for the intermediate division.  Suppress it here.
-        with np.errstate(divide="ignore", invalid="ignore"):
-            return (
-                out
-                * np.exp(-(10 ** self.params["M_cut"]) / (m - 10 ** self.params["M_min"]))
-                * (m / 10 ** self.params["M_1"])
-            )
+        # Only evaluate the cut-off above M_min. Just below it, the exponential
+        # overflows, and at M_min its limit is zero.
+        above = m > 10 ** self.params["M_min"]
+        dm = np.where(above, m - 10 ** self.params["M_min"], 1.0)
+        return np.where(
+            above,
+            out * np.exp(-(10 ** self.params["M_cut"]) / dm) * (m / 10 ** self.params["M_1"]),
+            0.0,
+        )
 
 
 class Zehavi05WithMax(Zehavi05):
-- 
2.43.0


From fc15a0dbe4cf2b65abe309cc315a8af47da11f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 25/75] fix: lower bound of the one-halo tracer power is a
 mass, not its logarithm

---
 src/halomod/halo_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index 338bd4d..9bbefa1 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -1328,7 +1328,7 @@ class TracerHaloModel(DMHaloModel):
         Note: May not exist for every kind of tracer.
         """
         p = self._do_1halo_integral(
-            max_mmin=self.hod.mmin,
+            max_mmin=self.tracer_mmin or self.m[0],
             integrand=self.tracer_profile_ukm**2 * self.dndm * self.hod.ss_pairs(self.m),
             mean_dens=self.mean_tracer_den,
         )
@@ -1389,7 +1389,7 @@ class TracerHaloModel(DMHaloModel):
         Note: May not exist for every kind of tracer.
         """
         p = self._do_1halo_integral(
-            max_mmin=self.hod.mmin,
+            max_mmin=self.tracer_mmin or self.m[0],
             integrand=self.dndm * 2 * self.hod.cs_pairs(self.m) * self.tracer_profile_ukm,
             mean_dens=self.mean_tracer_den,
         )
-- 
2.43.0


From 732e9fda9080a48c2f4e6a089d7c098eb944dea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 26/75] fix: central condition counted twice in the one-halo
 tracer correlation

---
 src/halomod/halo_model.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index 9bbefa1..da5a6bb 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -1460,9 +1460,7 @@ class TracerHaloModel(DMHaloModel):
             for i, (rho, lam) in enumerate(zip(self.tracer_profile_rho, self.tracer_profile_lam)):
                 c[i] = tools.spline_integral(
                     self.m,
-                    self.dndm
-                    * (ss_pairs * lam + 2 * cs_pairs * rho)
-                    * (self._central_occupation if self.hod._central else 1),
+                    self.dndm * (ss_pairs * lam + 2 * cs_pairs * rho),
                     xmin=self.tracer_mmin,
                 )
 
-- 
2.43.0


From 6b6ec3d685552ec601d3a385d4767b9f29f5636f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 27/75] fix: derived minimum mass of Leauthaud11 is set on
 construction

---
 src/halomod/hod.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/halomod/hod.py b/src/halomod/hod.py
index df5b387..23e4f46 100644
--- a/src/halomod/hod.py
+++ b/src/halomod/hod.py
@@ -774,6 +774,10 @@ class Leauthaud11(HODPoisson):
     sharp_cut = False  # or False
     central_condition_inherent = False  # or False
 
+    def __init__(self, **kwargs):
+        super().__init__(**kwargs)
+        self._update_M_min()
+
     def _central_occupation(self, m):
         """Expected number of central galaxies in a halo.
         See Equation 8 of arXiv:1103.2077.
-- 
2.43.0


From 58895682baac70d26b8a8b0d21b2a4f5ee631625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 28/75] fix: fraction of mass in WDM halos at non-zero redshift

---
 src/halomod/wdm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/halomod/wdm.py b/src/halomod/wdm.py
index 6430bce..c88ba7f 100644
--- a/src/halomod/wdm.py
+++ b/src/halomod/wdm.py
@@ -62,7 +62,7 @@ class HaloModelWDM(DMHaloModel, MassFunctionWDM):
     @cached_quantity
     def f_halos(self):
         """The total fraction of mass bound up in halos."""
-        return self.rho_gtm[0] / self.mean_density
+        return self.rho_gtm[0] / self.mean_density0
 
     @cached_quantity
     def power_auto_matter(self):
@@ -112,7 +112,7 @@ class HaloModelWDM(DMHaloModel, MassFunctionWDM):
     @cached_quantity
     def mean_density_smooth(self):
         """Mean density of matter outside halos."""
-        return (1 - self.f_halos) * self.mean_density
+        return (1 - self.f_halos) * self.mean_density0
 
     @parameter("model")
     def halo_concentration_model(self, val):
-- 
2.43.0


From 329ef2ecde83e006b23d948dfcc5cd6c45520902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 29/75] fix: large-scale limit of the WDM halo-halo and
 smooth-halo power

---
 src/halomod/wdm.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/halomod/wdm.py b/src/halomod/wdm.py
index c88ba7f..09090bd 100644
--- a/src/halomod/wdm.py
+++ b/src/halomod/wdm.py
@@ -76,10 +76,10 @@ class HaloModelWDM(DMHaloModel, MassFunctionWDM):
     @cached_quantity
     def power_auto_matter_hh(self) -> np.ndarray:
         """The halo-halo matter power spectrum (includes both 1-halo and 2-halo terms)."""
+        # The 2-halo term is already normalised by the density in halos.
         return (
-            (self.power_1h_auto_matter + self.power_2h_auto_matter)
-            * self.mean_density**2
-            / self.rho_gtm[0] ** 2
+            self.power_1h_auto_matter * self.mean_density0**2 / self.rho_gtm[0] ** 2
+            + self.power_2h_auto_matter
         )
 
     @cached_quantity
@@ -88,8 +88,15 @@ class HaloModelWDM(DMHaloModel, MassFunctionWDM):
         integrand = (
             self.m * self.dndm * self.halo_bias * self.halo_profile.u(self.k_hm, self.m, norm="m")
         )
-        pch = intg.simpson(integrand, x=self.m)
-        return self.bias_smooth * self._power_halo_centres_fnc(self.k_hm) * pch / self.rho_gtm[0]
+        pch = intg.simpson(integrand, x=self.m) / self.rho_gtm[0]
+
+        if self.force_unity_dm_bias:
+            # Normalise the bias of the halos just as for the halo-halo term.
+            pch *= self.bias_effective_matter / self._get_naive_bias_effective(
+                self.m * self.dndm * self.halo_bias, self.rho_gtm[0]
+            )
+
+        return self.bias_smooth * self._power_halo_centres_fnc(self.k_hm) * pch
 
     @cached_quantity
     def power_auto_matter_ss(self) -> np.ndarray:
-- 
2.43.0


From 41edfcf55ee1ac9668c8cec739bb6796fe86a615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 30/75] fix: mock satellites follow the tracer profile

---
 src/halomod/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/halomod/tools.py b/src/halomod/tools.py
index 62a6ed5..c68617e 100644
--- a/src/halomod/tools.py
+++ b/src/halomod/tools.py
@@ -387,7 +387,7 @@ def populate(
         Number of central galaxies. The first H galaxies in pos/halo correspond to centrals.
     """
     if halomodel is not None:
-        profile = halomodel.halo_profile
+        profile = halomodel.tracer_profile
         hodmod = halomodel.hod
 
     masses = np.array(masses)
-- 
2.43.0


From a26d5804becca44fb03b9eb16aebef0fcf2ecf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 31/75] fix: mock centrals are drawn from the number of
 centrals, not the amount of tracer

---
 src/halomod/tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/halomod/tools.py b/src/halomod/tools.py
index c68617e..f99be5d 100644
--- a/src/halomod/tools.py
+++ b/src/halomod/tools.py
@@ -396,7 +396,8 @@ def populate(
         rng = np.random.default_rng()
 
     # Define which halos have central galaxies.
-    cgal = rng.binomial(1, hodmod.central_occupation(masses))
+    ncen_mean = np.broadcast_to(hodmod.nc(masses), masses.shape)
+    cgal = rng.binomial(1, ncen_mean)
     cmask = cgal > 0
     central_halos = np.arange(len(masses))[cmask]
 
-- 
2.43.0


From 3199f920935d57babca8859a2a1ec51a7670b55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 32/75] fix: mean number of mock satellites under the central
 condition

---
 src/halomod/tools.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/halomod/tools.py b/src/halomod/tools.py
index f99be5d..20be87a 100644
--- a/src/halomod/tools.py
+++ b/src/halomod/tools.py
@@ -406,10 +406,12 @@ def populate(
         centres = centres[cmask]
 
     # Calculate the number of satellite galaxies in halos
-    # Using ns gives the correct answer for both central condition and not.
-    # Note that other parts of the algorithm also need to be changed if central condition
-    # is not true.
-    sgal = poisson.rvs(hodmod.ns(masses), random_state=rng)
+    # The average ns is over all halos, so that if satellites are only placed in halos with
+    # a central, there are more of them in each of those halos.
+    nsat_mean = hodmod.ns(masses)
+    if hodmod._central:
+        nsat_mean = nsat_mean / ncen_mean[cmask]
+    sgal = poisson.rvs(nsat_mean, random_state=rng)
 
     # Get an array ready, hopefully speeds things up a bit
     ncen = np.sum(cgal)
-- 
2.43.0


From 38a135f0ddd741555e9fc3946bc22be39662424c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 33/75] fix: populating halos which host no galaxies

---
 src/halomod/tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/halomod/tools.py b/src/halomod/tools.py
index 20be87a..b143cdf 100644
--- a/src/halomod/tools.py
+++ b/src/halomod/tools.py
@@ -460,11 +460,11 @@ def populate(
 
     logger.info(
         f"Took {time.time() - start} seconds, or "
-        f"{(time.time() - start) / nhalos_with_gal} each halo."
+        f"{(time.time() - start) / max(nhalos_with_gal, 1)} each halo."
     )
     logger.info(
         f"NhalosWithGal: {nhalos_with_gal}, Ncentrals: {ncen}, NumGal: {len(halo)}, "
-        f"MeanGal: {float(len(halo)) / nhalos_with_gal}, "
+        f"MeanGal: {float(len(halo)) / max(nhalos_with_gal, 1)}, "
         f"MostGal: {sgal.max() + 1 if len(sgal) > 0 else 1}"
     )
 
-- 
2.43.0


From ce2728aec180fb99450025b981bf298eb0b09fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 34/75] fix: projected correlation at integer separations

---
 src/halomod/integrate_corr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/halomod/integrate_corr.py b/src/halomod/integrate_corr.py
index a589ae7..d388d67 100644
--- a/src/halomod/integrate_corr.py
+++ b/src/halomod/integrate_corr.py
@@ -152,7 +152,7 @@ def projected_corr_gal(
     lnr = np.log(r)
     lnxi = np.log(xir)
 
-    p = np.zeros_like(rp_out)
+    p = np.zeros(len(rp_out))
     fit = _spline(r, xir, k=3)  # [self.corr_gal > 0] maybe?
     f_peak = 0.01
     a = 0
-- 
2.43.0


From 260a9c862158f645192d2276c02b62cbcbec1d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 35/75] fix: populating halos which are all without a tracer

---
 src/halomod/tools.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/halomod/tools.py b/src/halomod/tools.py
index b143cdf..14fe728 100644
--- a/src/halomod/tools.py
+++ b/src/halomod/tools.py
@@ -14,7 +14,6 @@ import numpy as np
 import scipy.integrate as intg
 from scipy.interpolate import InterpolatedUnivariateSpline as spline
 from scipy.interpolate import UnivariateSpline as uspline
-from scipy.stats import poisson
 
 from .hod import HOD
 from .profiles import Profile
@@ -408,10 +407,10 @@ def populate(
     # Calculate the number of satellite galaxies in halos
     # The average ns is over all halos, so that if satellites are only placed in halos with
     # a central, there are more of them in each of those halos.
-    nsat_mean = hodmod.ns(masses)
+    nsat_mean = np.broadcast_to(hodmod.ns(masses), masses.shape)
     if hodmod._central:
         nsat_mean = nsat_mean / ncen_mean[cmask]
-    sgal = poisson.rvs(nsat_mean, random_state=rng)
+    sgal = rng.poisson(nsat_mean)
 
     # Get an array ready, hopefully speeds things up a bit
     ncen = np.sum(cgal)
-- 
2.43.0


From 64b2a0136efaea5f5c004c8639b9ebbb8632e9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 36/75] fix: filtered halo-centre spectra when the filter has
 no zero within the wavenumbers

---
 src/halomod/halo_model.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index da5a6bb..90407cc 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -466,8 +466,7 @@ class DMHaloModel(MassFunction):
         if self.hc_spectrum == "filtered-lin":
             f = TopHat(None, None)
             p = self.power * f.k_space(self.k * 2.0)
-            first_zero = np.where(p <= 0)[0][0]
-            p[first_zero:] = 0
+            p[np.cumsum(p <= 0) > 0] = 0
             return tools.ExtendedSpline(
                 self.k,
                 p,
@@ -478,8 +477,7 @@ class DMHaloModel(MassFunction):
         elif self.hc_spectrum == "filtered-nl":
             f = TopHat(None, None)
             p = self.nonlinear_power * f.k_space(self.k * 3.0)
-            first_zero = np.where(p <= 0)[0][0]
-            p[first_zero:] = 0
+            p[np.cumsum(p <= 0) > 0] = 0
             return tools.ExtendedSpline(
                 self.k,
                 p,
-- 
2.43.0


From ba8ee284882c1f2bc02974e2b4686e3c23f237c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 37/75] fix: correlation from power at integer separations

---
 src/halomod/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/halomod/tools.py b/src/halomod/tools.py
index 14fe728..88081c3 100644
--- a/src/halomod/tools.py
+++ b/src/halomod/tools.py
@@ -296,7 +296,7 @@ def power_to_corr(power_func: callable, r: np.ndarray) -> np.ndarray:
     if not np.iterable(r):
         r = [r]
 
-    corr = np.zeros_like(r)
+    corr = np.zeros(len(r))
 
     # the number of steps to fit into a half-period at high-k. 6 is better than 1e-4.
     minsteps = 8
-- 
2.43.0


From 83e2c5f9bc276d39384c13e6e0b55c5096c00d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:40 +0000
Subject: [PATCH 38/75] fix: Meijer-G Fourier transforms at a single wavenumber
 and mass

---
 src/halomod/profiles.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/halomod/profiles.py b/src/halomod/profiles.py
index 81f5a77..e7f0481 100644
--- a/src/halomod/profiles.py
+++ b/src/halomod/profiles.py
@@ -847,7 +847,8 @@ class MooreInf(Moore, ProfileInf):
                 k**6 / 46656.0,
             ) / (4 * np.sqrt(3) * np.pi ** (5 / 2) * k)
 
-        K1 = np.unique(K[K < 10**3.2])
+        K = np.asarray(K, dtype=float)
+        K1 = np.unique(np.append(K[K < 10**3.2], [10**3, 10**3.2]))
         res = np.array([float(G(k)) for k in K1])
 
         # The transform is a power law well before the upper limit on K.
@@ -930,7 +931,8 @@ class GeneralizedNFWInf(GeneralizedNFW, ProfileInf):
                 k**2 / 4,
             ) / (2 ** self.params["alpha"] * np.sqrt(np.pi) * sp.gamma(3 - self.params["alpha"]))
 
-        K1 = np.unique(K[K < 10**3.2])
+        K = np.asarray(K, dtype=float)
+        K1 = np.unique(np.append(K[K < 10**3.2], [10**3, 10**3.2]))
         res = np.array([float(G(k)) for k in K1])
 
         # The transform is a power law well before the upper limit on K.
-- 
2.43.0


From 5817ac916d95e39ab93d7b3f4c9afe7bb95277a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:53 +0000
Subject: [PATCH 39/75] fix: numerical Fourier transform of profiles at a
 single wavenumber and mass

---
 src/halomod/profiles.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/halomod/profiles.py b/src/halomod/profiles.py
index e7f0481..74385c3 100644
--- a/src/halomod/profiles.py
+++ b/src/halomod/profiles.py
@@ -264,7 +264,7 @@ class Profile(Component):
         of the profile, taken to a Hankel transform.
         """
         c = np.atleast_1d(c)
-        K = np.atleast_1d(K)
+        K = np.atleast_1d(np.asarray(K, dtype=float))
         if K.ndim < 2:
             # should be len(k) * len(rs)
             K = np.atleast_2d(K).T if len(K) != len(c) else np.atleast_2d(K)
@@ -277,7 +277,10 @@ class Profile(Component):
         # We get a shorter vector of different K's to find the integral for, otherwise
         # we need to do a full integral for every K (which is 2D, since K is different
         # for every c).
-        kk = np.logspace(np.log10(K.min()), np.log10(K.max()), 100)
+        kk = np.unique(K)
+        exact = len(kk) <= 100
+        if not exact:
+            kk = np.logspace(np.log10(K.min()), np.log10(K.max()), 100)
 
         intermediate_res = np.zeros((len(c), len(kk)))
 
@@ -308,8 +311,11 @@ class Profile(Component):
         # Now we need to interpolate onto the actual K values we have at each c.
         out = np.zeros_like(K)
         for ic, integral in enumerate(intermediate_res):
-            spl = spline(kk, integral)
-            out[:, ic] = spl(K[:, ic])
+            if exact:
+                out[:, ic] = integral[np.searchsorted(kk, K[:, ic])]
+            else:
+                spl = spline(kk, integral)
+                out[:, ic] = spl(K[:, ic])
 
         return out
 
-- 
2.43.0


From 43418b70987f46bfb53944b7ef61c6223a92ab0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:53 +0000
Subject: [PATCH 40/75] fix: NFW self-convolution at integer separations

---
 src/halomod/profiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/halomod/profiles.py b/src/halomod/profiles.py
index 74385c3..f7bd9ec 100644
--- a/src/halomod/profiles.py
+++ b/src/halomod/profiles.py
@@ -695,7 +695,7 @@ class NFW(Profile):
     def _l(self, x, c):
         x = np.atleast_1d(x)
         c = np.atleast_1d(c)
-        result = np.zeros_like(x)
+        result = np.zeros_like(x, dtype=float)
 
         if np.all(x > 2 * c):
             return result  # Stays as zero
-- 
2.43.0


From 83832d25dbb795ea1369fb019b3940427c784bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:53 +0000
Subject: [PATCH 41/75] fix: enclosed mass fraction from the concentration
 alone

---
 src/halomod/profiles.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/halomod/profiles.py b/src/halomod/profiles.py
index f7bd9ec..2de9beb 100644
--- a/src/halomod/profiles.py
+++ b/src/halomod/profiles.py
@@ -466,9 +466,12 @@ class Profile(Component):
         """
         if c is None:
             c = self.cm_relation(m)
-        r_s = self._rs_from_m(m, c)
+        # Without a mass, there is no scale radius (only needed for coord="r").
+        r_s = None if m is None else self._rs_from_m(m, c)
 
         if coord == "r":
+            if m is None:
+                raise ValueError("m must be specified if coord is 'r'.")
             x = np.divide.outer(r, r_s)
         elif coord == "x":
             x = r
-- 
2.43.0


From de14dad749873ac668529bebb38bd94087c4737d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 42/75] fix: untruncated Hernquist self-convolution is four
 times too large

---
 src/halomod/profiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/halomod/profiles.py b/src/halomod/profiles.py
index 2de9beb..3526180 100644
--- a/src/halomod/profiles.py
+++ b/src/halomod/profiles.py
@@ -796,7 +796,7 @@ class HernquistInf(Hernquist, ProfileInf):
         h1 = (24 + 60 * x + 56 * x**2 + 24 * x**3 + 6 * x**4 + x**5) / (1 + x)
         h2 = 12 * (1 + x) * (2 + 2 * x + x**2) * np.log(1 + x) / x
 
-        return 4 * np.pi * 4 * (h1 - h2) / (x**4 * (2 + x) ** 4)
+        return 4 * np.pi * (h1 - h2) / (x**4 * (2 + x) ** 4)
 
 
 class Moore(Profile):
-- 
2.43.0


From 3f03fd79d5ac40f9a6b1ee88acf94df8f67224bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:41 +0000
Subject: [PATCH 43/75] fix: number of satellites at integer halo masses

---
 src/halomod/hod.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/halomod/hod.py b/src/halomod/hod.py
index 23e4f46..6517a9d 100644
--- a/src/halomod/hod.py
+++ b/src/halomod/hod.py
@@ -341,7 +341,7 @@ class Zheng05(HODPoisson):
 
     def _satellite_occupation(self, m):
         """Amplitude of satellite tracer at mass M."""
-        ns = np.zeros_like(m)
+        ns = np.zeros_like(m, dtype=float)
         ns[m > 10 ** self.params["M_0"]] = (
             (m[m > 10 ** self.params["M_0"]] - 10 ** self.params["M_0"]) / 10 ** self.params["M_1"]
         ) ** self.params["alpha"]
@@ -665,7 +665,7 @@ class Spinelli19(HODPoisson):
 
     def _tracer_per_satellite(self, M):
         """Number of tracer per satellite tracer source."""
-        n_s = np.zeros_like(M)
+        n_s = np.zeros_like(M, dtype=float)
         index = np.logical_and(
             10 ** self.params["M_min_counts"] <= M,
             10 ** self.params["M_max_counts"] >= M,
-- 
2.43.0


From fde61a64c1eb464d26ee5c93c6c8f2eb1c9f416b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:03 +0000
Subject: [PATCH 44/75] fix: colossus components keep their own cosmology

---
 src/halomod/bias.py          | 8 ++++++--
 src/halomod/concentration.py | 6 ++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/halomod/bias.py b/src/halomod/bias.py
index a3fbf76..1762489 100644
--- a/src/halomod/bias.py
+++ b/src/halomod/bias.py
@@ -63,7 +63,7 @@ from __future__ import annotations
 
 import numpy as np
 from astropy.cosmology import FLRW, Planck15
-from colossus.cosmology.cosmology import fromAstropy
+from colossus.cosmology.cosmology import fromAstropy, setCurrent
 from colossus.lss.bias import haloBiasFromNu
 from hmf import Component
 from hmf._internals import pluggable
@@ -815,9 +815,13 @@ def make_colossus_bias(model="comparat17", mdef=SO_MEAN, **defaults):
         def __init__(self, *args, **kwargs):
             super().__init__(*args, **kwargs)
 
-            fromAstropy(self.cosmo, sigma8=self.sigma_8, ns=self.n)
+            self._colossus_cosmo = fromAstropy(
+                self.cosmo, sigma8=self.sigma_8, ns=self.n, cosmo_name=""
+            )
 
         def bias(self):
+            # Another component may have set the global cosmology in the meantime.
+            setCurrent(self._colossus_cosmo)
             return haloBiasFromNu(
                 nu=np.sqrt(self.nu),
                 z=self.z,
diff --git a/src/halomod/concentration.py b/src/halomod/concentration.py
index 0547b99..2d6c998 100644
--- a/src/halomod/concentration.py
+++ b/src/halomod/concentration.py
@@ -53,7 +53,7 @@ from __future__ import annotations
 import warnings
 
 import numpy as np
-from colossus.cosmology.cosmology import fromAstropy
+from colossus.cosmology.cosmology import fromAstropy, setCurrent
 from colossus.halo import concentration
 from hmf import Component
 from hmf._internals import pluggable
@@ -205,11 +205,13 @@ def make_colossus_cm(model="diemer15", **defaults):
                 warnings.filterwarnings(
                     "ignore", "Astropy cosmology class contains massive neutrinos"
                 )
-                fromAstropy(
+                self._colossus_cosmo = fromAstropy(
                     self.cosmo.cosmo, sigma8=self.sigma_8, ns=self.ns, cosmo_name="", persistence=""
                 )
 
         def cm(self, m, z=0):
+            # Another component may have set the global cosmology in the meantime.
+            setCurrent(self._colossus_cosmo)
             return self.norm * concentration.concentration(
                 M=m,
                 mdef=self.mdef.colossus_name,
-- 
2.43.0


From be5be12203ca333c494cefdd93f86e9b0b2cc0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:03 +0000
Subject: [PATCH 45/75] fix: concentrations for masses in any order and of any
 type

---
 src/halomod/concentration.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/halomod/concentration.py b/src/halomod/concentration.py
index 2d6c998..cc42e3b 100644
--- a/src/halomod/concentration.py
+++ b/src/halomod/concentration.py
@@ -300,7 +300,6 @@ class Bullock01(CMRelation):
         gf_fine = self.growth.growth_factor(z_fine)
         g = interp1d(gf_fine[::-1], z_fine[::-1], bounds_error=False, fill_value=(z_fine[-1], 0.0))
         zc = g(np.sqrt(nu))
-        zc[np.logical_or.accumulate(zc == zc.min())] = zc.min()
         # As massive halos have not formed yet,
         # we need to set the formation time of those to the future
         zc[zc < z] = z  # hack?
@@ -590,7 +589,7 @@ class Ludlow16(CMRelation):
             spl = interp1d(lhs - rhs, cvec)
             return spl(0.0)
         else:
-            out = np.zeros_like(m)
+            out = np.zeros_like(m, dtype=float)
             for i in range(len(m)):
                 arg = lhs - rhs[:, i]
 
-- 
2.43.0


From bb2aabed2c95ea324524aa5b1739b7ee1073b81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 46/75] fix: Ludlow16 concentration of a single mass without a
 formation time

---
 src/halomod/concentration.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/halomod/concentration.py b/src/halomod/concentration.py
index cc42e3b..6db6a3b 100644
--- a/src/halomod/concentration.py
+++ b/src/halomod/concentration.py
@@ -585,9 +585,7 @@ class Ludlow16(CMRelation):
         # print("den: ", den[indx_mass])
 
         if np.isscalar(m):
-            rhs = rhs[:, 0]
-            spl = interp1d(lhs - rhs, cvec)
-            return spl(0.0)
+            return self._eq7(f, C, np.array([m], dtype=float), z)[0]
         else:
             out = np.zeros_like(m, dtype=float)
             for i in range(len(m)):
-- 
2.43.0


From 61c56d27877486b779f51bd98b0ad4cd1618866d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 47/75] fix: Ludlow16 concentrations at redshifts above one

---
 src/halomod/concentration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/halomod/concentration.py b/src/halomod/concentration.py
index 6db6a3b..a6ccbcf 100644
--- a/src/halomod/concentration.py
+++ b/src/halomod/concentration.py
@@ -556,8 +556,9 @@ class Ludlow16(CMRelation):
         # Calculate zf for all values in cvec
         cvec, zf = self._eq6_zf(cvec, C, z)
 
-        # Mask out those that are unphysical
-        mask = (np.isnan(zf) | np.isinf(zf)) | (zf < 0)
+        # Mask out those that are unphysical. As for Bullock01, avoid redshifts for which hmf may
+        # switch ODE solvers, causing a normalization inconsistency in growth_factor.
+        mask = (np.isnan(zf) | np.isinf(zf)) | (zf < 0) | (zf > 50)
         zf = zf[~mask]
         cvec = cvec[~mask]
 
-- 
2.43.0


From b59036e765c49b8cc9b1054448f124745b7f981d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:16 +0000
Subject: [PATCH 48/75] fix: formation times in cosmologies with little matter

---
 src/halomod/concentration.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/halomod/concentration.py b/src/halomod/concentration.py
index a6ccbcf..e30056f 100644
--- a/src/halomod/concentration.py
+++ b/src/halomod/concentration.py
@@ -172,6 +172,19 @@ class CMRelation(Component):
             warnings.warn("Minimization failed :(", stacklevel=2)
             return 0
 
+    def _max_growth_redshift(self):
+        """The highest redshift (at most 50) over which the growth factor is consistent.
+
+        Towards the radiation-dominated regime hmf may switch ODE solvers, causing a
+        normalization inconsistency in growth_factor, at a redshift set by the cosmology.
+        """
+        z_max = 50.0
+        while z_max > 1 and not np.isclose(
+            self.growth.growth_factor(np.array([0.0, z_max]))[0], 1.0, rtol=1e-2
+        ):
+            z_max *= 0.9
+        return z_max
+
     def cm(self, m, z=0):
         """
         Return concentration parameter for mass m at z.
@@ -294,9 +307,7 @@ class Bullock01(CMRelation):
         r = self.filter.mass_to_radius(self.params["F"] * m, self.mean_density0)
         nu = self.filter.nu(r, self.delta_c)
         # Build numerical inverse of growth_factor: z as a function of D(z).
-        # z_max=50 avoids the radiation-dominated regime where hmf may switch
-        # ODE solvers, causing a normalization inconsistency in growth_factor.
-        z_fine = np.linspace(0, 50, 5000)
+        z_fine = np.linspace(0, self._max_growth_redshift(), 5000)
         gf_fine = self.growth.growth_factor(z_fine)
         g = interp1d(gf_fine[::-1], z_fine[::-1], bounds_error=False, fill_value=(z_fine[-1], 0.0))
         zc = g(np.sqrt(nu))
@@ -556,9 +567,8 @@ class Ludlow16(CMRelation):
         # Calculate zf for all values in cvec
         cvec, zf = self._eq6_zf(cvec, C, z)
 
-        # Mask out those that are unphysical. As for Bullock01, avoid redshifts for which hmf may
-        # switch ODE solvers, causing a normalization inconsistency in growth_factor.
-        mask = (np.isnan(zf) | np.isinf(zf)) | (zf < 0) | (zf > 50)
+        # Mask out those that are unphysical
+        mask = (np.isnan(zf) | np.isinf(zf)) | (zf < 0) | (zf > self._max_growth_redshift())
         zf = zf[~mask]
         cvec = cvec[~mask]
 
-- 
2.43.0


From ecfc5beb6aebe566b659950f85912780c0cf091d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:02 +0000
Subject: [PATCH 49/75] fix: minimum mass reproduces the requested tracer
 density

---
 src/halomod/halo_model.py | 53 ++++++++++++++-------------------------
 1 file changed, 19 insertions(+), 34 deletions(-)

diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index 90407cc..178d946 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -24,7 +24,7 @@ from hmf._internals import get_mdl
 from hmf.cosmology.cosmo import astropy_to_colossus
 from hmf.density_field.filters import TopHat
 from scipy.interpolate import InterpolatedUnivariateSpline as spline
-from scipy.optimize import minimize
+from scipy.optimize import brentq
 
 # import hmf.tools as ht
 from . import tools
@@ -1677,42 +1677,27 @@ class TracerHaloModel(DMHaloModel):
         _ = self.power  # This just makes sure the power is gotten and copied
         c = self.clone(hod_params={"M_min": self.Mmin}, dlog10m=0.01)
 
-        integrand = c.m[c._tm] * c.dndm[c._tm] * c.total_occupation[c._tm]
+        def density(mmin):
+            c.update(hod_params={"M_min": mmin})
+            return c.mean_tracer_den
 
-        density_message = (
-            f"Maximum mean galaxy density exceeded. User input required density of {ng}, "
-            "but maximum density (with HOD M_min == DM Mmin) is {}. "
-            "Consider decreasing Mmin,or checking tracer_density."
-        )
-        if self.hod.sharp_cut:
-            integral = intg.cumulative_trapezoid(integrand[::-1], dx=np.log(c.m[1] / c.m[0]))
-
-            if integral[-1] < ng:
-                raise NGException(density_message.format(integral[-1]))
-
-            ind = np.where(integral > ng)[0][0]
+        # The largest mass for which the HOD still selects some of the halos.
+        lower, upper = self.Mmin, np.log10(c.m[-3])
 
-            m = c.m[c._tm][::-1][1:][max(ind - 4, 0) : min(ind + 4, len(c.m))]
-            integral = integral[max(ind - 4, 0) : min(ind + 4, len(c.m))]
-
-            spline_int = spline(np.log(integral), np.log(m), k=3)
-            mmin = spline_int(np.log(ng)) / np.log(10)
-        else:
-            # Anything else requires us to do some optimization unfortunately.
-            integral = intg.simpson(integrand, dx=np.log(c.m[1] / c.m[0]))
-            if integral < ng:
-                raise NGException(density_message.format(integral))
-
-            def model(mmin):
-                c.update(hod_params={"M_min": mmin})
-                integrand = c.m[c._tm] * c.dndm[c._tm] * c.total_occupation[c._tm]
-                integral = intg.simpson(integrand, dx=np.log(c.m[1] / c.m[0]))
-                return abs(integral - ng)
-
-            res = minimize(model, 12.0, tol=1e-3, method="Nelder-Mead", options={"maxiter": 200})
-            mmin = res.x[0]
+        if density(lower) < ng:
+            raise NGException(
+                f"Maximum mean galaxy density exceeded. User input required density of {ng}, "
+                f"but maximum density (with HOD M_min == DM Mmin) is {density(lower)}. "
+                "Consider decreasing Mmin,or checking tracer_density."
+            )
+        if density(upper) > ng:
+            raise NGException(
+                f"Minimum mean galaxy density exceeded. User input required density of {ng}, "
+                f"but minimum density (with HOD M_min == DM Mmax) is {density(upper)}. "
+                "Consider other HOD parameters, or checking tracer_density."
+            )
 
-        return mmin
+        return brentq(lambda mmin: density(mmin) - ng, lower, upper, xtol=1e-5)
 
 
 # For compatibility
-- 
2.43.0


From 4c96427428ec9589338881b8b02188f4ee060c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:02 +0000
Subject: [PATCH 50/75] fix: hod_params=None can be passed to update

---
 src/halomod/halo_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index 178d946..60be521 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -976,7 +976,7 @@ class TracerHaloModel(DMHaloModel):
         """Updates any parameter passed."""
         if "tracer_density" in kwargs:
             self.tracer_density = kwargs.pop("tracer_density")
-        elif "hod_params" in kwargs and "M_min" in kwargs["hod_params"]:
+        elif "M_min" in (kwargs.get("hod_params") or {}):
             self.tracer_density = None
 
         super().update(**kwargs)
-- 
2.43.0


From f12ac315771ce6d5f9f4e33a49cb07affeb8d848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:05 +0000
Subject: [PATCH 51/75] fix: halo-exclusion double integrals above a lower mass
 bound in reasonable time

---
 src/halomod/halo_exclusion.py | 36 +++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/halomod/halo_exclusion.py b/src/halomod/halo_exclusion.py
index f71e88c..e0f9576 100644
--- a/src/halomod/halo_exclusion.py
+++ b/src/halomod/halo_exclusion.py
@@ -132,6 +132,18 @@ if USE_NUMBA:
         return dx * dy * tot / 4.0
 
 
+def spline_weights(m: np.ndarray, xmin: float) -> np.ndarray:
+    """Quadrature weights of the integral over log-mass of a cubic spline.
+
+    The dot-product of the weights with values tabulated at ``m`` is the integral from
+    ``xmin`` to ``m[-1]`` of the cubic spline through those values (which is linear in
+    the values).
+    """
+    lnm = np.log(m)
+    lnxmin = np.log(xmin)
+    return np.array([_IUS(lnm, f).integral(lnxmin, lnm[-1]) for f in np.eye(len(m))])
+
+
 # ===============================================================================
 # Halo-Exclusion Models
 # ===============================================================================
@@ -230,13 +242,12 @@ class Exclusion(Component):
         if self.xmin is None:
             return intg.simpson(arr, dx=self.dlnx)
 
-        lnm = np.log(self.m)
-        lnxmin = np.log(self.xmin)
-        return np.apply_along_axis(
-            lambda f: _IUS(lnm, f).integral(lnxmin, lnm[-1]),
-            -1,
-            arr,
-        )
+        return arr @ self._spline_weights
+
+    @cached_property
+    def _spline_weights(self) -> np.ndarray:
+        """Weights of each mass in the spline integral above :attr:`xmin`."""
+        return spline_weights(self.m, self.xmin)
 
     def integrate(self) -> np.ndarray:
         """
@@ -404,17 +415,10 @@ def integrate_dblsphere(integ, mask, dx, m=None, xmin=None):
     integrand = np.zeros_like(mask, dtype=float)
 
     if xmin is not None and m is not None:
-        lnm = np.log(m)
-        lnxmin = np.log(xmin)
+        weights = spline_weights(m, xmin)
 
         def _outer(inner_arr):
-            # Each row of inner_arr corresponds to a different r value and has
-            # distinct values, so a separate spline must be fitted per row.
-            return np.apply_along_axis(
-                lambda g: _IUS(lnm, g).integral(lnxmin, lnm[-1]),
-                -1,
-                inner_arr,
-            )
+            return inner_arr @ weights
     else:
 
         def _outer(inner_arr):
-- 
2.43.0


From 7e57bde4a070e95258b33bbe08501be383f7245c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:58 +0000
Subject: [PATCH 52/75] fix: modified density of excluded pairs is not NaN just
 above a lower mass bound

---
 src/halomod/halo_exclusion.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/halomod/halo_exclusion.py b/src/halomod/halo_exclusion.py
index e0f9576..d53fff9 100644
--- a/src/halomod/halo_exclusion.py
+++ b/src/halomod/halo_exclusion.py
@@ -331,7 +331,8 @@ class Sphere(Exclusion):
         """
         density = np.outer(np.ones_like(self.r), self.density * self.m)
         density[self.mask] = 0
-        return self._spline_integrate(density)
+        # A spline through the edge of the mask may fall slightly below zero.
+        return np.maximum(self._spline_integrate(density), 0)
 
     @cached_property
     def mask(self):
@@ -383,7 +384,7 @@ class DblSphere(Sphere):
             integrand[self.mask[i]] = 0
             inner = self._spline_integrate(integrand)
             out[i] = self._spline_integrate(inner)
-        return np.sqrt(out)
+        return np.sqrt(np.maximum(out, 0))
 
     def integrate(self):
         """Integrate the :meth:`raw_integrand` over mass."""
@@ -511,7 +512,7 @@ class DblEllipsoid(DblSphere):
             return np.sqrt(dbltrapz(integrand, self.dlnx))
         # Spline integration for smooth lower bound: integrate inner (m2), then outer (m1)
         inner = self._spline_integrate(integrand)  # (r, m1)
-        return np.sqrt(self._spline_integrate(inner))  # (r,)
+        return np.sqrt(np.maximum(self._spline_integrate(inner), 0))  # (r,)
 
     def integrate(self):
         """Integrate the :meth:`raw_integrand` over mass."""
-- 
2.43.0


From 67c266d988dcd07e41b35223178f2ed7cd06d3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:21 +0000
Subject: [PATCH 53/75] fix: two-halo power with exclusion below the tabulated
 wavenumbers

---
 src/halomod/halo_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index 60be521..f82f5d3 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -823,7 +823,7 @@ class DMHaloModel(MassFunction):
                 "is rather just the linear power * effective bias.",
                 stacklevel=2,
             )
-            out[mask] = self.power[mask] * effective_bias**2
+        out[mask] = self.power[mask] * effective_bias**2
 
         return tools.ExtendedSpline(self.k, out, lower_func="power_law", upper_func=tools._zero)
 
-- 
2.43.0


From f65995ab448f7ef5384061889985e6ac3962b6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:28 +0000
Subject: [PATCH 54/75] fix: force_unity_dm_bias is a parameter of the model

---
 src/halomod/halo_model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index f82f5d3..a2feb48 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -309,6 +309,11 @@ class DMHaloModel(MassFunction):
         """Suppress 1-halo power on scales larger than a few virial radii."""
         return bool(val)
 
+    @parameter("switch")
+    def force_unity_dm_bias(self, val):
+        """Renormalize the matter bias so that its effective value is unity."""
+        return bool(val)
+
     @parameter("model")
     def exclusion_model(self, val):
         """A string identifier for the type of halo exclusion used (or None)."""
-- 
2.43.0


From bdb05594f9556ff8db1a8a64ad12e7cd3f2180f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:25 +0000
Subject: [PATCH 55/75] fix: power-law extension of scattered data is a single
 power law

---
 src/halomod/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/halomod/tools.py b/src/halomod/tools.py
index 88081c3..f0879ea 100644
--- a/src/halomod/tools.py
+++ b/src/halomod/tools.py
@@ -542,7 +542,7 @@ class ExtendedSpline:
                 return _zero
             neg = y[0] < 0
 
-            spl = uspline(np.log(x), np.log(y * (-1 if neg else 1)), k=1)
+            spl = uspline(np.log(x), np.log(y * (-1 if neg else 1)), k=1, s=np.inf)
 
             return _PowerLawExtension(spl, neg)
         elif fnc == "boundary":
-- 
2.43.0


From 3e4cbafa88f261f45f7a7b9ff15c0075916520a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:07 +0000
Subject: [PATCH 56/75] fix: quantities dropped by a switch are indexed again
 whatever else is updated

---
 src/halomod/halo_model.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index a2feb48..a582eea 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -21,6 +21,7 @@ import numpy as np
 import scipy.integrate as intg
 from hmf import Cosmology, MassFunction, cached_quantity, parameter
 from hmf._internals import get_mdl
+from hmf._internals._cache import hidden_loc
 from hmf.cosmology.cosmo import astropy_to_colossus
 from hmf.density_field.filters import TopHat
 from scipy.interpolate import InterpolatedUnivariateSpline as spline
@@ -174,6 +175,21 @@ class DMHaloModel(MassFunction):
         self.force_unity_dm_bias = force_unity_dm_bias
         self.colossus_params = colossus_params or {}
 
+    def update(self, **kwargs):
+        """Updates any parameter passed."""
+        try:
+            super().update(**kwargs)
+        finally:
+            # Changing a "switch" drops the quantities which depend on it from the index of
+            # dependencies. Other parameters must not flag those as merely out of date, or
+            # they would never be indexed again.
+            indexed = getattr(self, hidden_loc(self, "recalc_prop_par"))
+            recalc = getattr(self, hidden_loc(self, "recalc"))
+            for name in set(recalc) - set(indexed):
+                del recalc[name]
+            for dependents in getattr(self, hidden_loc(self, "recalc_par_prop")).values():
+                dependents.intersection_update(indexed)
+
     # ===============================================================================
     # Parameters
     # ===============================================================================
-- 
2.43.0


From 2cc44b4fcd9579ba54b3a83ccd1850c4fbfbba92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:24 +0000
Subject: [PATCH 57/75] fix: switches of the models within a cross-correlation
 can be changed

---
 src/halomod/halo_model.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index a582eea..58eb345 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -175,6 +175,14 @@ class DMHaloModel(MassFunction):
         self.force_unity_dm_bias = force_unity_dm_bias
         self.colossus_params = colossus_params or {}
 
+    def __delattr__(self, name):
+        # When this model is part of another framework, the quantities of the latter are
+        # indexed here with a leading colon. A switch can not drop those, only flag them.
+        if name.startswith(":"):
+            getattr(self, hidden_loc(self, "recalc"))[name] = True
+        else:
+            super().__delattr__(name)
+
     def update(self, **kwargs):
         """Updates any parameter passed."""
         try:
-- 
2.43.0


From 23902188ec49ae38f7e1c7170a3eda114fbe235e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:31 +0000
Subject: [PATCH 58/75] fix: a quantity that failed does not corrupt the index
 of dependencies

---
 src/halomod/halo_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index 58eb345..99d2c8d 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -185,6 +185,9 @@ class DMHaloModel(MassFunction):
 
     def update(self, **kwargs):
         """Updates any parameter passed."""
+        # Nothing is being calculated now: a quantity that is still marked as such has failed,
+        # and must not be taken to depend on whatever is read later.
+        getattr(self, hidden_loc(self, "active_q")).clear()
         try:
             super().update(**kwargs)
         finally:
-- 
2.43.0


From d3cff44b98aef7a0755adaf5ec3a82e92c2b5af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:31 +0000
Subject: [PATCH 59/75] fix: quantities which depend on optional models follow
 their parameters after a change of model

---
 src/halomod/halo_model.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index 99d2c8d..add5d0c 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -244,7 +244,7 @@ class DMHaloModel(MassFunction):
             )
         return val
 
-    @parameter("model")
+    @parameter("switch")
     def halo_profile_model(self, val):
         """The halo density halo_profile model."""
         return get_mdl(val, "Profile")
@@ -316,7 +316,7 @@ class DMHaloModel(MassFunction):
         """The maximum k bin in log10."""
         return float(val)
 
-    @parameter("model")
+    @parameter("switch")
     def sd_bias_model(self, val):
         """Model of Scale Dependant Bias."""
         if val is None:
@@ -341,7 +341,7 @@ class DMHaloModel(MassFunction):
         """Renormalize the matter bias so that its effective value is unity."""
         return bool(val)
 
-    @parameter("model")
+    @parameter("switch")
     def exclusion_model(self, val):
         """A string identifier for the type of halo exclusion used (or None)."""
         if val is None:
@@ -1048,14 +1048,14 @@ class TracerHaloModel(DMHaloModel):
         assert isinstance(val, dict)
         return val
 
-    @parameter("model")
+    @parameter("switch")
     def tracer_profile_model(self, val):
         """The tracer density halo_profile model."""
         if val is None:
             return val
         return get_mdl(val, "Profile")
 
-    @parameter("model")
+    @parameter("switch")
     def tracer_concentration_model(self, val):
         """The tracer concentration-mass relation."""
         if val is None:
-- 
2.43.0


From 9c12aec4c8e736e3df49998d30f9d4b3fd5d95ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:10 +0000
Subject: [PATCH 60/75] fix: default selection of angular correlations follows
 the redshift range and the kind of distribution

---
 src/halomod/integrate_corr.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/halomod/integrate_corr.py b/src/halomod/integrate_corr.py
index d388d67..35028f8 100644
--- a/src/halomod/integrate_corr.py
+++ b/src/halomod/integrate_corr.py
@@ -281,9 +281,6 @@ class AngularCF(HaloModel):
                 stacklevel=2,
             )
 
-        if p1 is None:
-            p1 = flat_z_dist(zmin, zmax)
-
         self.p1 = p1
         self.p2 = p2
         self.zmin = zmin
@@ -302,7 +299,7 @@ class AngularCF(HaloModel):
 
     @parameter("param")
     def p1(self, val):
-        """The redshift distribution of the sample."""
+        """The distribution of the sample. If None, flat in redshift."""
         return val
 
     @parameter("param")
@@ -389,6 +386,27 @@ class AngularCF(HaloModel):
         """Radial distance grid (corresponds to zvec) [Mpc/h]."""
         return (self.cosmo.comoving_distance(self.zvec) * self.cosmo.h).value
 
+    @cached_quantity
+    def _selection(self):
+        """The distribution of the sample, by default flat in redshift."""
+        if self.p1 is not None:
+            return self.p1
+
+        flat = flat_z_dist(self.zmin, self.zmax)
+        if self.p_of_z:
+            return flat
+
+        # p(x) = p(z) dz/dx
+        z = np.linspace(self.zmin, self.zmax, 1000)
+        x = (self.cosmo.comoving_distance(z) * self.cosmo.h).value
+        z_of_x = _spline(x, z)
+
+        def flat_in_z(x):
+            zz = np.clip(z_of_x(x), self.zmin, self.zmax)
+            return flat(zz) / dxdz(zz, self.cosmo)
+
+        return flat_in_z
+
     @cached_quantity
     def theta(self):
         """Angular separations, [Rad]."""
@@ -423,7 +441,7 @@ class AngularCF(HaloModel):
         return angular_corr_gal(
             self.theta,
             self.corr_auto_tracer_fnc,
-            self.p1,
+            self._selection,
             self.zmin,
             self.zmax,
             self.logu_min,
@@ -453,7 +471,7 @@ class AngularCF(HaloModel):
         return angular_corr_gal(
             self.theta,
             self.corr_auto_matter_fnc,
-            self.p1,
+            self._selection,
             self.zmin,
             self.zmax,
             self.logu_min,
-- 
2.43.0


From 3b5f4d71be6aef218f50a6ee71764190f2609b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:36 +0000
Subject: [PATCH 61/75] fix: validation within an update does not use
 quantities dropped by a switch

---
 src/halomod/halo_model.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index add5d0c..f32cd63 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -191,20 +191,24 @@ class DMHaloModel(MassFunction):
         try:
             super().update(**kwargs)
         finally:
-            # Changing a "switch" drops the quantities which depend on it from the index of
-            # dependencies. Other parameters must not flag those as merely out of date, or
-            # they would never be indexed again.
-            indexed = getattr(self, hidden_loc(self, "recalc_prop_par"))
-            recalc = getattr(self, hidden_loc(self, "recalc"))
-            for name in set(recalc) - set(indexed):
-                del recalc[name]
-            for dependents in getattr(self, hidden_loc(self, "recalc_par_prop")).values():
-                dependents.intersection_update(indexed)
+            self._tidy_index()
+
+    def _tidy_index(self):
+        # Changing a "switch" drops the quantities which depend on it from the index of
+        # dependencies. Other parameters must not flag those as merely out of date, or
+        # they would never be indexed again.
+        indexed = getattr(self, hidden_loc(self, "recalc_prop_par"))
+        recalc = getattr(self, hidden_loc(self, "recalc"))
+        for name in set(recalc) - set(indexed):
+            del recalc[name]
+        for dependents in getattr(self, hidden_loc(self, "recalc_par_prop")).values():
+            dependents.intersection_update(indexed)
 
     # ===============================================================================
     # Parameters
     # ===============================================================================
     def validate(self):
+        self._tidy_index()
         super().validate()
         if not hasattr(self.rmin, "__len__"):
             assert self.rmin < self.rmax, f"rmin >= rmax: {self.rmin}, {self.rmax}"
-- 
2.43.0


From a50d709189264157d4504ad74ba834a5c542dabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:56 +0000
Subject: [PATCH 62/75] fix: tracer profile uses the tracer concentrations when
 only those are given

---
 src/halomod/halo_model.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index f32cd63..042325d 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -1176,15 +1176,20 @@ class TracerHaloModel(DMHaloModel):
     @cached_quantity
     def tracer_profile(self):
         """Object to calculate quantities of the tracer profile."""
-        if self.tracer_profile_model is None:
+        if self.tracer_profile_model is None and self.tracer_concentration_model is None:
             return self.halo_profile
 
-        if not self.tracer_profile_params and self.tracer_profile_model == self.halo_profile_model:
+        # By default, tracers have the profile of the halo, with their own concentrations.
+        model = self.tracer_profile_model or self.halo_profile_model
+
+        if self.tracer_profile_model is None or (
+            not self.tracer_profile_params and model == self.halo_profile_model
+        ):
             tr_params = self.halo_profile_params
         else:
             tr_params = self.tracer_profile_params
 
-        return self.tracer_profile_model(
+        return model(
             cm_relation=self.tracer_concentration,
             mdef=self.mdef,
             z=self.z,
-- 
2.43.0


From 2ed94d09dcc53e203e1b20a9cb7fb4c14d7788da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:31 +0000
Subject: [PATCH 63/75] fix: angular_corr_gal accepts any array-like of angles

---
 src/halomod/integrate_corr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/halomod/integrate_corr.py b/src/halomod/integrate_corr.py
index 35028f8..d7a3dd8 100644
--- a/src/halomod/integrate_corr.py
+++ b/src/halomod/integrate_corr.py
@@ -588,6 +588,7 @@ def angular_corr_gal(
     elif check_p_norm:
         p2 = _check_p(p2, z if p_of_z else x)
 
+    theta = np.atleast_1d(theta)
     p_integ = p1(z) * p2(z) / dxdz(z, cosmo) ** 2 if p_of_z else p1(x) * p2(x)
     R = np.sqrt(np.add.outer(np.outer(theta**2, x**2), u**2)).flatten()
 
-- 
2.43.0


From ad264829e67c3da7b98e9338887ec385dc91f5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:31 +0000
Subject: [PATCH 64/75] fix: tracer concentrations in warm dark matter follow
 the model's half-mode mass

---
 src/halomod/wdm.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/halomod/wdm.py b/src/halomod/wdm.py
index 09090bd..3c9d38a 100644
--- a/src/halomod/wdm.py
+++ b/src/halomod/wdm.py
@@ -144,6 +144,25 @@ class TracerHaloModelWDM(TracerHaloModel, HaloModelWDM):
         kw.setdefault("halo_concentration_model", "Ludlow2016")
         super().__init__(**kw)
 
+    @parameter("switch")
+    def tracer_concentration_model(self, val):
+        """A tracer concentration-mass relation."""
+        if val is None:
+            return val
+        if isinstance(val, str) and val.endswith("WDM"):
+            return CMRelationWDMRescaled(val)
+        return get_mdl(val, "CMRelation")
+
+    @cached_quantity
+    def tracer_concentration(self):
+        """Tracer concentration."""
+        cm = super().tracer_concentration
+
+        if hasattr(cm, "m_hm"):
+            cm.m_hm = self.wdm.m_hm
+
+        return cm
+
 
-class ProjectedCFWDM(ProjectedCF, HaloModelWDM):
+class ProjectedCFWDM(ProjectedCF, TracerHaloModelWDM):
     """Projected Correlation Function for WDM halos."""
-- 
2.43.0


From bb3bbdb245e2c6155d41d2e2a9751f7286e2009d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:05 +0000
Subject: [PATCH 65/75] fix: spectra of Moore profiles use the profile's own
 concentrations

---
 src/halomod/halo_model.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index 042325d..3437947 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -648,18 +648,18 @@ class DMHaloModel(MassFunction):
     @cached_quantity
     def halo_profile_ukm(self):
         """Mass-normalised fourier halo profile, with shape (len(k), len(m))."""
-        return self.halo_profile.u(self.k, self.m, c=self.cmz_relation)
+        return self.halo_profile.u(self.k, self.m)
 
     @cached_quantity
     def halo_profile_rho(self):
         """Mass-normalised halo density profile, with shape (len(r), len(m))."""
-        return self.halo_profile.rho(self._r_table, self.m, norm="m", c=self.cmz_relation)
+        return self.halo_profile.rho(self._r_table, self.m, norm="m")
 
     @cached_quantity
     def halo_profile_lam(self):
         """Mass-normalised halo profile self-convolution, with shape (len(r), len(m))."""
         if self.halo_profile.has_lam:
-            return self.halo_profile.lam(self._r_table, self.m, c=self.cmz_relation)
+            return self.halo_profile.lam(self._r_table, self.m)
         else:
             return None
 
@@ -1340,18 +1340,18 @@ class TracerHaloModel(DMHaloModel):
     @cached_quantity
     def tracer_profile_ukm(self):
         """The mass-normalised fourier density profile of the tracer, shape (len(k), len(m))."""
-        return self.tracer_profile.u(self.k, self.m, c=self.tracer_cmz_relation)
+        return self.tracer_profile.u(self.k, self.m)
 
     @cached_quantity
     def tracer_profile_rho(self):
         """The mass-normalised density profile of the tracer, with shape (len(r), len(m))."""
-        return self.tracer_profile.rho(self._r_table, self.m, norm="m", c=self.tracer_cmz_relation)
+        return self.tracer_profile.rho(self._r_table, self.m, norm="m")
 
     @cached_quantity
     def tracer_profile_lam(self):
         """The mass-normalised profile self-convolution of the tracer, shape (len(r), len(m))."""
         if self.tracer_profile.has_lam:
-            return self.tracer_profile.lam(self._r_table, self.m, c=self.tracer_cmz_relation)
+            return self.tracer_profile.lam(self._r_table, self.m)
         else:
             return None
 
-- 
2.43.0


From 34f55dc87869cc16c0058db5f34515044b629ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:21 +0000
Subject: [PATCH 66/75] fix: get_halomodel works with several lists of
 parameters

---
 src/halomod/functional.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/halomod/functional.py b/src/halomod/functional.py
index e5ed55d..4554cc4 100644
--- a/src/halomod/functional.py
+++ b/src/halomod/functional.py
@@ -18,7 +18,7 @@ def get_halomodel(
     :func:`~hmf.helpers.functional.get_hmf` for input parameters and yields.
     """
     fast_kwargs = fast_kwargs or {
-        "transfer_fit": "BBKS",
+        "transfer_model": "BBKS",
         "lnk_min": -4,
         "lnk_max": 2,
         "dlnk": 1,
@@ -27,9 +27,7 @@ def get_halomodel(
         "rmin": 10,
         "rmax": 20,
         "rnum": 4,
-        "halo_exclusion": "None",
-        "nonlinear": False,
-        "scale_dependent_bias": False,
-        "hod_model": "Zehavi05",
+        "exclusion_model": "NoExclusion",
+        "hc_spectrum": "linear",
     }
     return get_hmf(required_attrs, get_label, kls, fast_kwargs, **kwargs)
-- 
2.43.0


From 6aab2a3f3e69b8b05913ec27d719cca9499977b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:03 +0000
Subject: [PATCH 67/75] fix: models do not share or change the dictionaries of
 parameters given to them

---
 src/halomod/cross_correlations.py |  2 +-
 src/halomod/halo_model.py         | 28 +++++++++++++++++-----------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/halomod/cross_correlations.py b/src/halomod/cross_correlations.py
index 8a3a2d9..2202e19 100644
--- a/src/halomod/cross_correlations.py
+++ b/src/halomod/cross_correlations.py
@@ -209,7 +209,7 @@ class CrossCorrelations(Framework):
 
     @parameter("param")
     def cross_hod_params(self, val):
-        return val
+        return dict(val)
 
     @subframework
     def halo_model_1(self) -> TracerHaloModel:
diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index 3437947..c3062ff 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -33,6 +33,11 @@ from .concentration import CMRelation
 from .halo_exclusion import Exclusion, NoExclusion
 
 
+def _copy_dicts(kwargs):
+    """Keyword arguments with copies of the dictionaries among them."""
+    return {k: dict(v) if isinstance(v, dict) else v for k, v in kwargs.items()}
+
+
 class DMHaloModel(MassFunction):
     """
     Dark-matter-only halo model class.
@@ -137,7 +142,8 @@ class DMHaloModel(MassFunction):
         if "hmf_model" not in hmf_kwargs:
             hmf_kwargs["hmf_model"] = hmf_model
 
-        super().__init__(Mmin=Mmin, Mmax=Mmax, **hmf_kwargs)
+        # Dictionaries are merged in place by updates: those of the user must not be.
+        super().__init__(Mmin=Mmin, Mmax=Mmax, **_copy_dicts(hmf_kwargs))
 
         # Initially save parameters to the class.
         self.halo_profile_model, self.halo_profile_params = (
@@ -189,7 +195,7 @@ class DMHaloModel(MassFunction):
         # and must not be taken to depend on whatever is read later.
         getattr(self, hidden_loc(self, "active_q")).clear()
         try:
-            super().update(**kwargs)
+            super().update(**_copy_dicts(kwargs))
         finally:
             self._tidy_index()
 
@@ -231,7 +237,7 @@ class DMHaloModel(MassFunction):
         """Dictionary of parameters for the Bias model."""
         val = val or {}
         assert isinstance(val, dict)
-        return val
+        return dict(val)
 
     @parameter("switch")
     def hc_spectrum(self, val):
@@ -258,7 +264,7 @@ class DMHaloModel(MassFunction):
         """Dictionary of parameters for the Profile model."""
         val = val or {}
         assert isinstance(val, dict)
-        return val
+        return dict(val)
 
     @parameter("model")
     def halo_concentration_model(self, val):
@@ -270,7 +276,7 @@ class DMHaloModel(MassFunction):
         """Dictionary of parameters for the concentration model."""
         val = val or {}
         assert isinstance(val, dict)
-        return val
+        return dict(val)
 
     @parameter("switch")
     def rmin(self, val):
@@ -333,7 +339,7 @@ class DMHaloModel(MassFunction):
         """Dictionary of parameters for Scale Dependant Bias."""
         val = val or {}
         assert isinstance(val, dict)
-        return val
+        return dict(val)
 
     @parameter("switch")
     def force_1halo_turnover(self, val):
@@ -357,14 +363,14 @@ class DMHaloModel(MassFunction):
         """Options for colossus cosmology not set/derived in the astropy cosmology."""
         val = val or {}
         assert isinstance(val, dict)
-        return val
+        return dict(val)
 
     @parameter("param")
     def exclusion_params(self, val):
         """Dictionary of parameters for the Exclusion model."""
         val = val or {}
         assert isinstance(val, dict)
-        return val
+        return dict(val)
 
     # ===========================================================================
     # Basic Quantities
@@ -1038,7 +1044,7 @@ class TracerHaloModel(DMHaloModel):
         """Dictionary of parameters for the HOD model."""
         val = val or {}
         assert isinstance(val, dict)
-        return val
+        return dict(val)
 
     @parameter("model")
     def hod_model(self, val):
@@ -1050,7 +1056,7 @@ class TracerHaloModel(DMHaloModel):
         """Dictionary of parameters for the tracer Profile model."""
         val = val or {}
         assert isinstance(val, dict)
-        return val
+        return dict(val)
 
     @parameter("switch")
     def tracer_profile_model(self, val):
@@ -1071,7 +1077,7 @@ class TracerHaloModel(DMHaloModel):
         """Dictionary of parameters for tracer concentration-mass relation."""
         val = val or {}
         assert isinstance(val, dict)
-        return val
+        return dict(val)
 
     @parameter("switch")
     def force_1halo_turnover(self, val):
-- 
2.43.0


From 36cc79c069444ddff8a11c7cdb589a61236c2117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:26 +0000
Subject: [PATCH 68/75] fix: angular correlation models can be pickled

---
 src/halomod/integrate_corr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/halomod/integrate_corr.py b/src/halomod/integrate_corr.py
index d7a3dd8..acdc70f 100644
--- a/src/halomod/integrate_corr.py
+++ b/src/halomod/integrate_corr.py
@@ -386,7 +386,7 @@ class AngularCF(HaloModel):
         """Radial distance grid (corresponds to zvec) [Mpc/h]."""
         return (self.cosmo.comoving_distance(self.zvec) * self.cosmo.h).value
 
-    @cached_quantity
+    @property
     def _selection(self):
         """The distribution of the sample, by default flat in redshift."""
         if self.p1 is not None:
-- 
2.43.0


From 5ad2e9e0ac92bff0f372cd479dd9f8e3da3ffcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:00 +0000
Subject: [PATCH 69/75] fix: halo radii and velocities of lists of masses

---
 src/halomod/profiles.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/halomod/profiles.py b/src/halomod/profiles.py
index 3526180..a110127 100644
--- a/src/halomod/profiles.py
+++ b/src/halomod/profiles.py
@@ -138,13 +138,13 @@ class Profile(Component):
         # the radius of a halo of a given mass at a given redshift should only depend on
         # the background density at z=0.
         dens = self.mean_dens if at_z else self.mean_density0
-        return (3 * m / (4 * np.pi * self.delta_halo * dens)) ** (1.0 / 3.0)
+        return (3 * np.asarray(m) / (4 * np.pi * self.delta_halo * dens)) ** (1.0 / 3.0)
 
     def halo_radius_to_mass(self, r, at_z=False):
         """Return the halo mass corresponding to ``r``."""
         dens = self.mean_dens if at_z else self.mean_density0
 
-        return 4 * np.pi * r**3 * self.delta_halo * dens / 3
+        return 4 * np.pi * np.asarray(r) ** 3 * self.delta_halo * dens / 3
 
     def _rs_from_m(self, m, c=None, at_z=False):
         """
@@ -206,7 +206,7 @@ class Profile(Component):
             r = self.halo_mass_to_radius(m)
         else:
             m = self.halo_radius_to_mass(r)
-        return np.sqrt(6.673 * 1e-11 * m / r)
+        return np.sqrt(6.673 * 1e-11 * np.asarray(m) / r)
 
     def _h(self, c=None, m=None) -> [float, np.ndarray]:
         """
-- 
2.43.0


From 7770a2299b55560a2a131dbace1832d9ff3ec43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:39 +0000
Subject: [PATCH 70/75] fix: models keep their own copy of given separations

---
 src/halomod/halo_model.py     | 3 ++-
 src/halomod/integrate_corr.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/halomod/halo_model.py b/src/halomod/halo_model.py
index c3062ff..896871b 100644
--- a/src/halomod/halo_model.py
+++ b/src/halomod/halo_model.py
@@ -281,7 +281,8 @@ class DMHaloModel(MassFunction):
     @parameter("switch")
     def rmin(self, val):
         """Minimum length scale."""
-        return val
+        # The caller's list or array may be changed later on.
+        return val.copy() if isinstance(val, (list, np.ndarray)) else val
 
     @parameter("res")
     def rmax(self, val):
diff --git a/src/halomod/integrate_corr.py b/src/halomod/integrate_corr.py
index acdc70f..f61c863 100644
--- a/src/halomod/integrate_corr.py
+++ b/src/halomod/integrate_corr.py
@@ -59,7 +59,8 @@ class ProjectedCF(HaloModel):
     @parameter("switch")
     def rp_min(self, val):
         """Minimum projected radius."""
-        return val
+        # The caller's list or array may be changed later on.
+        return val.copy() if isinstance(val, (list, np.ndarray)) else val
 
     @parameter("option")
     def rp_log(self, val):
-- 
2.43.0


From 9834977dfb51e53515de8b097d26c50a1b560589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:08 +0000
Subject: [PATCH 71/75] fix: profiles and concentration relations can be
 pickled

---
 src/halomod/profiles.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/halomod/profiles.py b/src/halomod/profiles.py
index a110127..97dbcdb 100644
--- a/src/halomod/profiles.py
+++ b/src/halomod/profiles.py
@@ -72,6 +72,10 @@ def ginc(a, x):
     return gamma(a) * gammainc(a, x)
 
 
+def _unity(x):
+    return 1
+
+
 @pluggable
 class Profile(Component):
     """
@@ -112,7 +116,7 @@ class Profile(Component):
         mdef=SO_MEAN,
         z=0.0,
         cosmo=Planck15,
-        nu_fn=(lambda x: 1),
+        nu_fn=_unity,
         **model_parameters,
     ):
         self.mdef = mdef
-- 
2.43.0


From 231c51932181502e7400c313a58092509f352b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:46 +0000
Subject: [PATCH 72/75] fix: cross-correlations keep their own copy of the
 parameters of their models

---
 src/halomod/cross_correlations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/halomod/cross_correlations.py b/src/halomod/cross_correlations.py
index 2202e19..8e7b2bc 100644
--- a/src/halomod/cross_correlations.py
+++ b/src/halomod/cross_correlations.py
@@ -24,6 +24,7 @@ Cross-correlating the same galaxy samples in different redshifts::
 from __future__ import annotations
 
 from abc import ABC, abstractmethod
+from copy import deepcopy
 
 import numpy as np
 from hmf import Component, Framework
@@ -200,8 +201,9 @@ class CrossCorrelations(Framework):
         self.cross_hod_model = cross_hod_model
         self.cross_hod_params = cross_hod_params or {}
 
-        self._halo_model_1_params = halo_model_1_params or {}
-        self._halo_model_2_params = halo_model_2_params or {}
+        # The models are only made when needed, by when the caller may have changed these.
+        self._halo_model_1_params = deepcopy(halo_model_1_params or {})
+        self._halo_model_2_params = deepcopy(halo_model_2_params or {})
 
     @parameter("model")
     def cross_hod_model(self, val):
-- 
2.43.0


From 5272335898b1c34320e9494a6a73e10702aff4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:11 +0000
Subject: [PATCH 73/75] fix: cross-correlations follow their models whatever
 was read before

---
 src/halomod/cross_correlations.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/halomod/cross_correlations.py b/src/halomod/cross_correlations.py
index 8e7b2bc..6ee2e18 100644
--- a/src/halomod/cross_correlations.py
+++ b/src/halomod/cross_correlations.py
@@ -233,9 +233,14 @@ class CrossCorrelations(Framework):
             [self.halo_model_1.hod, self.halo_model_2.hod], **self.cross_hod_params
         )
 
+    # Quantities which use each other only depend on each other's parameters within a
+    # single framework: the correlations get the power from the models themselves.
     @cached_quantity
     def power_1h_cross_fnc(self):
         """Total 1-halo cross-power."""
+        return self._get_power_1h_cross_fnc()
+
+    def _get_power_1h_cross_fnc(self):
         hm1, hm2 = self.halo_model_1, self.halo_model_2
         mask = np.logical_and(
             np.logical_and(
@@ -268,7 +273,9 @@ class CrossCorrelations(Framework):
     @cached_quantity
     def corr_1h_cross_fnc(self):
         """The 1-halo term of the cross correlation."""
-        corr = tools.hankel_transform(self.power_1h_cross_fnc, self.halo_model_1._r_table, "r")
+        corr = tools.hankel_transform(
+            self._get_power_1h_cross_fnc(), self.halo_model_1._r_table, "r"
+        )
         return tools.ExtendedSpline(
             self.halo_model_1._r_table,
             corr,
@@ -276,7 +283,7 @@ class CrossCorrelations(Framework):
             upper_func=tools._zero,
         )
 
-    @cached_quantity
+    @property
     def corr_1h_cross(self):
         """The 1-halo term of the cross correlation."""
         return self.corr_1h_cross_fnc(self.halo_model_1.r)
@@ -291,6 +298,9 @@ class CrossCorrelations(Framework):
         changed and is consistent with the auto-power spectrum when both
         tracer populations are identical.
         """
+        return self._get_power_2h_cross_fnc()
+
+    def _get_power_2h_cross_fnc(self):
         hm1, hm2 = self.halo_model_1, self.halo_model_2
 
         u1 = hm1.tracer_profile_ukm  # (k, m)
@@ -347,7 +357,7 @@ class CrossCorrelations(Framework):
     def corr_2h_cross_fnc(self):
         """The 2-halo term of the cross-correlation."""
         corr = tools.hankel_transform(
-            self.power_2h_cross_fnc, self.halo_model_1._r_table, "r", h=1e-4
+            self._get_power_2h_cross_fnc(), self.halo_model_1._r_table, "r", h=1e-4
         )
         return tools.ExtendedSpline(
             self.halo_model_1._r_table,
@@ -356,7 +366,7 @@ class CrossCorrelations(Framework):
             upper_func=tools._zero,
         )
 
-    @cached_quantity
+    @property
     def corr_2h_cross(self):
         """The 2-halo term of the cross-correlation."""
         return self.corr_2h_cross_fnc(self.halo_model_1.r)
-- 
2.43.0


From ac69799b2667b93fb223db4163e4474fa8c01045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:58 +0000
Subject: [PATCH 74/75] fix: interpolated Einasto transforms pair wavenumbers
 with their own halo's concentration

---
 src/halomod/profiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/halomod/profiles.py b/src/halomod/profiles.py
index 97dbcdb..c3a268f 100644
--- a/src/halomod/profiles.py
+++ b/src/halomod/profiles.py
@@ -1023,7 +1023,7 @@ class Einasto(Profile):
             pk[pk <= 0] = 1e-8
 
             spl = RectBivariateSpline(np.log(_k), np.log(_c), np.log(pk))
-            cc = np.repeat(c, K.shape[0])
+            cc = np.tile(c, K.shape[0])
             return np.exp(self._reduce(spl.ev(np.log(K.flatten()), np.log(cc)).reshape(K.shape)))
         else:  # Numerical version.
             return super()._p(K, c)
-- 
2.43.0


From 3d5f5d50552613967796762b4b350c767d9bee0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:49 +0000
Subject: [PATCH 75/75] fix: cross-power evaluates the second tracer's profile
 on the wavenumbers and masses it is paired with

---
 src/halomod/cross_correlations.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/halomod/cross_correlations.py b/src/halomod/cross_correlations.py
index 6ee2e18..2a72b26 100644
--- a/src/halomod/cross_correlations.py
+++ b/src/halomod/cross_correlations.py
@@ -233,6 +233,13 @@ class CrossCorrelations(Framework):
             [self.halo_model_1.hod, self.halo_model_2.hod], **self.cross_hod_params
         )
 
+    def _second_ukm(self, k, m):
+        """Fourier profile of the second tracer, whose own grids may be others than these."""
+        hm2 = self.halo_model_2
+        if np.array_equal(k, hm2.k) and np.array_equal(m, hm2.m):
+            return hm2.tracer_profile_ukm
+        return hm2.tracer_profile.u(k, m)
+
     # Quantities which use each other only depend on each other's parameters within a
     # single framework: the correlations get the power from the models themselves.
     @cached_quantity
@@ -252,7 +259,7 @@ class CrossCorrelations(Framework):
 
         m = hm1.m[mask]
         u1 = hm1.tracer_profile_ukm[:, mask]
-        u2 = hm2.tracer_profile_ukm[:, mask]
+        u2 = self._second_ukm(hm1.k, hm1.m)[:, mask]
 
         integ = hm1.dndm[mask] * (
             u1 * u2 * self.cross_hod.ss_cross_pairs(m)
@@ -304,7 +311,7 @@ class CrossCorrelations(Framework):
         hm1, hm2 = self.halo_model_1, self.halo_model_2
 
         u1 = hm1.tracer_profile_ukm  # (k, m)
-        u2 = hm2.tracer_profile_ukm  # (k, m)
+        u2 = self._second_ukm(hm1.k, hm2.m)  # (k, m)
 
         # Build integrands including the m-Jacobian for log-mass integration:
         #   ∫ f(m) dm  =  ∫ f(m)·m  d(ln m)
-- 
2.43.0

