From 10ef746d24a8069606f7978f4f72711febb57abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 01/12] fix: single-lens Jacobian determinant is 1 - 1/|z|^4

---
 src/microjax/point_source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/point_source.py b/src/microjax/point_source.py
index e3ebba1..ebc2555 100644
--- a/src/microjax/point_source.py
+++ b/src/microjax/point_source.py
@@ -147,7 +147,7 @@ def lens_eq_det_jac(z: jax.Array, nlenses: int = 2, **params) -> jax.Array:
     zbar = jnp.conjugate(z)
 
     if nlenses == 1:
-        return 1.0 - 1.0 / jnp.abs(zbar**2)
+        return 1.0 - 1.0 / jnp.abs(zbar**2) ** 2
 
     if nlenses == 2:
         a, e1 = params["a"], params["e1"]
-- 
2.43.0


From b1a89135a4c9b55bcb0c07b198be24f040750a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 02/12] fix: triple-lens mass fraction of the primary in
 mag_extended_source

---
 src/microjax/caustics/extended_source/mag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/caustics/extended_source/mag.py b/src/microjax/caustics/extended_source/mag.py
index ea8716a..b3deea2 100644
--- a/src/microjax/caustics/extended_source/mag.py
+++ b/src/microjax/caustics/extended_source/mag.py
@@ -97,7 +97,7 @@ def mag_extended_source(
         r3, psi = params["r3"], params["psi"]
         a = 0.5 * s
         e1 = q / (1.0 + q + q3)
-        e2 = (1 - q3) / (1.0 + q + q3)
+        e2 = 1.0 / (1.0 + q + q3)
         _params = {"a": a, "r3": r3, "psi": psi, "e1": e1, "e2": e2}
         x_cm = a * (1 - q) / (1 + q)
         w0 -= x_cm
-- 
2.43.0


From f3342af2d09e35a77933456c1bb1eeb9e54eac76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 03/12] fix: forward nlenses to calc_source_limb in
 mag_limb_dark

---
 src/microjax/inverse_ray/extended_source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/inverse_ray/extended_source.py b/src/microjax/inverse_ray/extended_source.py
index 08a18ee..fc47a71 100644
--- a/src/microjax/inverse_ray/extended_source.py
+++ b/src/microjax/inverse_ray/extended_source.py
@@ -119,7 +119,7 @@ def mag_limb_dark(
     
     shifted = 0.5 * s * (1 - q) / (1 + q)  
     w_center_shifted = w_center - shifted
-    image_limb, mask_limb = calc_source_limb(w_center, rho, Nlimb, **_params)
+    image_limb, mask_limb = calc_source_limb(w_center, rho, Nlimb, **_params, nlenses=nlenses)
     r_scan, th_scan = define_regions(image_limb, mask_limb, rho, bins_r=bins_r, bins_th=bins_th, 
                                      margin_r=margin_r, margin_th=margin_th, nlenses=nlenses)
 
-- 
2.43.0


From 72243bcf81b3642d6ff05bd31a990ba14a13275a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 04/12] fix: hexadecapole of a triple lens honours the
 third-lens azimuth psi

---
 src/microjax/multipole.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/microjax/multipole.py b/src/microjax/multipole.py
index 7148f22..3cfeec4 100644
--- a/src/microjax/multipole.py
+++ b/src/microjax/multipole.py
@@ -260,7 +260,8 @@ def mag_hexadecapole(
     **params
         Additional lens parameters in the mid-point coordinate system. For
         binaries this expects ``a`` and ``e1``; for triples ``a``, ``r3``,
-        ``e1`` and ``e2`` in addition to any other configuration details.
+        ``psi`` (azimuth of the third lens, ``0`` when omitted), ``e1`` and
+        ``e2`` in addition to any other configuration details.
 
     Returns
     -------
@@ -291,13 +292,14 @@ def mag_hexadecapole(
         )
     elif nlenses == 3:
         a, r3, e1, e2 = params["a"], params["r3"], params["e1"], params["e2"]
+        r3_complex = r3 * jnp.exp(1j * params.get("psi", 0.0))
         W = (
             lambda k: (-1) ** (k - 1)
             * factorial(k - 1)
             * (
                 e1 / (z - a) ** k
                 + e2 / (z + a) ** k
-                + (1.0 - e1 - e2) / (z - r3) ** k
+                + (1.0 - e1 - e2) / (z - r3_complex) ** k
             )
         )
     else:
-- 
2.43.0


From a79216c73c0572174298e398c9840153b94431b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 05/12] fix: linear_chi2 broadcasts a scalar err (and the
 default) to all points

---
 src/microjax/likelihood.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/microjax/likelihood.py b/src/microjax/likelihood.py
index c99136a..3799f9a 100644
--- a/src/microjax/likelihood.py
+++ b/src/microjax/likelihood.py
@@ -62,6 +62,7 @@ def linear_chi2(x: Array, y: Array, err: Union[float, Array] = 0.0) -> Tuple[flo
     The solution minimizes ``sum_i w_i (y_i - a - b x_i)^2`` with
     ``w_i = 1/err_i^2`` when ``err_i > 0`` else ``w_i = 1``.
     """
+    err = jnp.broadcast_to(jnp.asarray(err, dtype=float), jnp.shape(x))
     wt = jnp.where(err > 0, 1.0 / (err ** 2), 1.0)
     sumw = jnp.sum(wt)
     sumx = jnp.sum(wt * x)
-- 
2.43.0


From bfee9634518ede30976b607e8f24c2c6dee6d4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 06/12] fix: limb darkening is applied in the hexadecapole
 branch of magnifications

---
 src/microjax/caustics/lightcurve.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/microjax/caustics/lightcurve.py b/src/microjax/caustics/lightcurve.py
index b34efb5..a5bc13f 100644
--- a/src/microjax/caustics/lightcurve.py
+++ b/src/microjax/caustics/lightcurve.py
@@ -236,6 +236,9 @@ def magnifications(
         raise ValueError("nlenses must be <= 3")
 
 
+    # The multipole branch sees the same brightness profile as the full branch
+    u1_multi = u1 if limb_darkening else 0.0
+
     # Compute point images for a point source
     z, z_mask = _images_point_source(
         w_points - x_cm, #miyazaki
@@ -246,11 +249,11 @@ def magnifications(
 
     if nlenses==1:
         test = w_points > 2*rho
-        mu_multi, delta_mu_multi = mag_hexadecapole(z, z_mask, rho, nlenses=nlenses, **_params)  # miyazaki
+        mu_multi, delta_mu_multi = mag_hexadecapole(z, z_mask, rho, u1=u1_multi, nlenses=nlenses, **_params)  # miyazaki
     elif nlenses==2:
         # Compute hexadecapole approximation at every point and a test where it is
         # sufficient
-        mu_multi, delta_mu_multi = mag_hexadecapole(z, z_mask, rho, nlenses=nlenses, **_params)
+        mu_multi, delta_mu_multi = mag_hexadecapole(z, z_mask, rho, u1=u1_multi, nlenses=nlenses, **_params)
         test1 = _caustics_proximity_test(
             w_points - x_cm, z, z_mask, rho, delta_mu_multi, nlenses=nlenses,  **_params #miyazaki
             #w_points + x_cm, z, z_mask, rho, delta_mu_multi, nlenses=nlenses,  **_params
-- 
2.43.0


From b90132262352b1e7007c69ebd72f1e9e5f9c5be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 07/12] fix: _merge_final only drops angular regions that were
 merged

---
 src/microjax/inverse_ray/merge_area.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/inverse_ray/merge_area.py b/src/microjax/inverse_ray/merge_area.py
index 3cfe72a..35ead65 100644
--- a/src/microjax/inverse_ray/merge_area.py
+++ b/src/microjax/inverse_ray/merge_area.py
@@ -215,7 +215,7 @@ def _merge_final(r_map: Array, th_map: Array) -> Tuple[Array, Array]:
     th_min_new = jnp.where(th_min_new == 0, th_mins, th_min_new) # (N,)
 
     new_matrix = jnp.stack([r_mins, r_maxs, th_min_new, th_maxs], axis=1)  # (N, 4)
-    cond_vanish = jnp.any(jnp.any(same_r, axis=1)&(th_mins == 0)) & (th_maxs == 2*jnp.pi)  # (N, ) shape
+    cond_vanish = jnp.any(cond_merge, axis=0)  # (N, ) shape, rows absorbed by a partner
     new_matrix = jnp.where(cond_vanish[:, None], 0.0, new_matrix)  # (N, 4) shape
     
     sort_order = jnp.argsort(new_matrix[:, 1] == 0)
-- 
2.43.0


From b1f63931df90d589a9f02f03397a649ebc3e4b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 08/12] fix: limb-darkened A(0) is the flux-weighted mix of its
 two profiles

---
 src/microjax/fastlens/mag_fft_jax.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/microjax/fastlens/mag_fft_jax.py b/src/microjax/fastlens/mag_fft_jax.py
index 4709c93..e0b4264 100644
--- a/src/microjax/fastlens/mag_fft_jax.py
+++ b/src/microjax/fastlens/mag_fft_jax.py
@@ -107,8 +107,8 @@ class mag_limb(mag_):
     def A0(self, rho, a1):
         A0_disk  = (rho**2 + 4)**0.5 / rho 
         A0_term1 = (2 + 1) * (2 * (rho**2 + 2) * ellipe(-rho**2 / 4) - (rho**2 + 4) * ellipk(-rho**2 / 4)) / 3.0 / rho**3 
-        norm = 1.0 - a1
-        return (A0_disk - a1 * A0_term1) / norm 
+        norm = 1.0 - a1 / 3.0
+        return ((1.0 - a1) * A0_disk + 2.0 / 3.0 * a1 * A0_term1) / norm 
 
 # FFT based magnification
 class magnification:
@@ -299,8 +299,8 @@ class mag_limb1(magnification):
     def A0(self, rho):
         A0_disk  = (rho**2 + 4)**0.5 / rho 
         A0_term1 = (2 + 1) * (2 * (rho**2 + 2) * ellipe(-rho**2 / 4) - (rho**2 + 4) * ellipk(-rho**2 / 4)) / 3.0 / rho**3 
-        norm = 1.0 - self.a1
-        return (A0_disk - self.a1 * A0_term1) / norm 
+        norm = 1.0 - self.a1 / 3.0
+        return ((1.0 - self.a1) * A0_disk + 2.0 / 3.0 * self.a1 * A0_term1) / norm 
 
 
 class magnification_limb1(magnification):
-- 
2.43.0


From 4dca07d363398f882f6e56752973bf0213ced41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:56 +0000
Subject: [PATCH 09/12] fix: centre the planetary-caustic exclusion on the
 planetary caustic

Positions passed to _planetary_caustic_test are in the mid-point frame, where
the lens of mass e1 sits at +a, so its caustic is at a - 1/s, not at -1/s.
The multipole value was accepted next to the caustic (3 per cent errors).
---
 src/microjax/caustics/lightcurve.py       | 2 +-
 src/microjax/inverse_ray/cond_extended.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/microjax/caustics/lightcurve.py b/src/microjax/caustics/lightcurve.py
index a5bc13f..3973240 100644
--- a/src/microjax/caustics/lightcurve.py
+++ b/src/microjax/caustics/lightcurve.py
@@ -124,7 +124,7 @@ def _planetary_caustic_test(w, rho, c_p=2., **params):
     s = 2 * a
     q = e1 / (1.0 - e1)
     x_cm = (2*e1 - 1)*a
-    w_pc = -1/s 
+    w_pc = a - 1/s  # mid-point frame: lens of mass e1 at +a
     delta_pc = 3*jnp.sqrt(q)/s
     return (w_pc - w).real**2 + (w_pc - w).imag**2 > c_p*(rho**2 + delta_pc**2)
 
diff --git a/src/microjax/inverse_ray/cond_extended.py b/src/microjax/inverse_ray/cond_extended.py
index 7c7d76f..976fdac 100644
--- a/src/microjax/inverse_ray/cond_extended.py
+++ b/src/microjax/inverse_ray/cond_extended.py
@@ -112,6 +112,6 @@ def _planetary_caustic_test(w: Array, rho: float, c_p: float = 2.0, **params) ->
     s = 2 * a
     q = e1 / (1.0 - e1)
     x_cm = (2*e1 - 1)*a
-    w_pc = -1/s 
+    w_pc = a - 1/s  # mid-point frame: lens of mass e1 at +a
     delta_pc = 3*jnp.sqrt(q)/s
     return (w_pc - w).real**2 + (w_pc - w).imag**2 > c_p*(rho**2 + delta_pc**2)
-- 
2.43.0


From f061fabd04f654f795423e9780cfdb41cfdea541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:54 +0000
Subject: [PATCH 10/12] fix: sum full-ring image regions over exactly one turn
 (angular margins were counted twice)

---
 src/microjax/inverse_ray/extended_source.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/microjax/inverse_ray/extended_source.py b/src/microjax/inverse_ray/extended_source.py
index fc47a71..431dfce 100644
--- a/src/microjax/inverse_ray/extended_source.py
+++ b/src/microjax/inverse_ray/extended_source.py
@@ -169,6 +169,9 @@ def mag_limb_dark(
         """
         r_values = jnp.linspace(r_range[0], r_range[1], r_resolution, endpoint=True)
         th_values = jnp.linspace(th_range[0], th_range[1], th_resolution, endpoint=True)
+        # a region going all the way round is summed over exactly one turn
+        th_turn = th_range[0] + 2.0 * jnp.pi / (th_resolution - 4) * jnp.arange(th_resolution)
+        th_values = jnp.where(th_range[1] - th_range[0] >= 2.0 * jnp.pi, th_turn, th_values)
         area_r = vmap(lambda r: _process_r(r, th_values))(r_values)
         dr = r_values[1] - r_values[0]
         total_area = dr * jnp.sum(area_r) # trapezoidal integration
@@ -305,6 +308,9 @@ def mag_uniform(
         """
         r_values = jnp.linspace(r_range[0], r_range[1], r_resolution, endpoint=True)
         th_values = jnp.linspace(th_range[0], th_range[1], th_resolution, endpoint=True)
+        # a region going all the way round is summed over exactly one turn
+        th_turn = th_range[0] + 2.0 * jnp.pi / (th_resolution - 3) * jnp.arange(th_resolution)
+        th_values = jnp.where(th_range[1] - th_range[0] >= 2.0 * jnp.pi, th_turn, th_values)
         #area_r = jax.checkpoint(vmap(lambda r: _process_r(r, th_values, cubic)))(r_values)
         area_r = vmap(lambda r: _process_r(r, th_values))(r_values)
         dr = r_values[1] - r_values[0]
-- 
2.43.0


From 2a800a19da846540e224bc1a66b129ca864bfb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:21 +0000
Subject: [PATCH 11/12] fix: sign of the limb-darkening normalisation's
 derivative with respect to u1

---
 src/microjax/inverse_ray/limb_darkening.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microjax/inverse_ray/limb_darkening.py b/src/microjax/inverse_ray/limb_darkening.py
index 13db5ce..0cd4195 100644
--- a/src/microjax/inverse_ray/limb_darkening.py
+++ b/src/microjax/inverse_ray/limb_darkening.py
@@ -41,7 +41,7 @@ def Is_limb_1st_jvp(primals, tangents):
     fac = 100.0
     mu = jnp.sqrt(jnp.maximum(1e-3, 1.0 - d**2))
     I0 = 3.0 / jnp.pi / (3.0 - u1)
-    dI0_du1 = -3.0 / jnp.pi / (3.0 - u1)**2
+    dI0_du1 = 3.0 / jnp.pi / (3.0 - u1)**2
     prof = 1.0 - u1 * (1.0 - mu)
     dprof_du1 = - (1.0 - mu)
     dprof_dmu = u1
-- 
2.43.0


From 016874704c512f424449bde2d4aa87ea76017b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:38 +0000
Subject: [PATCH 12/12] fix: radial clustering keeps the innermost and
 outermost limb samples inside the outer bins

---
 src/microjax/inverse_ray/merge_area.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/microjax/inverse_ray/merge_area.py b/src/microjax/inverse_ray/merge_area.py
index 35ead65..b477d57 100644
--- a/src/microjax/inverse_ray/merge_area.py
+++ b/src/microjax/inverse_ray/merge_area.py
@@ -157,8 +157,9 @@ def cluster_1d(arr: Array, bins: int = 100, max_cluster: int = 5, mode_r: bool =
     ``max_cluster`` occupied intervals.
     """
     if mode_r:
-        bin_min = jnp.min(jnp.where(arr == 0, jnp.inf, arr))
-        bin_max = jnp.max(jnp.where(arr == 0, -jnp.inf, arr))
+        # the extreme samples lie strictly inside the outer bins
+        bin_min = jnp.min(jnp.where(arr == 0, jnp.inf, arr)) * (1.0 - 1e-9)
+        bin_max = jnp.max(jnp.where(arr == 0, -jnp.inf, arr)) * (1.0 + 1e-9)
     else:
         # Here I do not want to optimize the intervals so much.
         bin_min = 0
-- 
2.43.0

