From 1f968bbecdb7ac63373b2ad84b7fa20c3a9cc74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:19 +0000
Subject: [PATCH 01/18] fix: dipole term of the static sphere fields outside
 the sphere falls off as R^3/r^3

---
 geoana/em/static/sphere.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geoana/em/static/sphere.py b/geoana/em/static/sphere.py
index 1e2182a..d926076 100644
--- a/geoana/em/static/sphere.py
+++ b/geoana/em/static/sphere.py
@@ -335,7 +335,7 @@ class ElectrostaticSphere:
 
         # total field outside the sphere
         Et[ind0] = E0 * (1. - sig_cur * self.radius ** 3. / r[ind0, None] ** 3) +\
-            3. * (r_vec[ind0] @ E0)[..., None] * sig_cur * self.radius * r_vec[ind0] / r[ind0, None] ** 4
+            3. * (r_vec[ind0] @ E0)[..., None] * sig_cur * self.radius ** 3. * r_vec[ind0] / r[ind0, None] ** 5
 
         # inside the sphere
         Et[~ind0] = 3. * sig0 / (sig1 + 2. * sig0) * E0
@@ -835,7 +835,7 @@ class MagnetostaticSphere:
 
         # total field outside the sphere
         Ht[ind0] = H0 * (1. - mu_cur * self.radius ** 3. / r[ind0, None] ** 3) +\
-            3. * (r_vec[ind0] @ H0)[..., None] * mu_cur * self.radius * r_vec[ind0] / r[ind0, None] ** 4
+            3. * (r_vec[ind0] @ H0)[..., None] * mu_cur * self.radius ** 3. * r_vec[ind0] / r[ind0, None] ** 5
 
         # inside the sphere
         Ht[~ind0] = 3. * mu0 / (mu1 + 2. * mu0) * H0
-- 
2.43.0


From 5d21b17f12fa9a9fecbffd5ef3b4140aac424b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:19 +0000
Subject: [PATCH 02/18] fix: cubic term of the near axis vector potential of a
 circular loop

---
 geoana/em/static/wholespace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/em/static/wholespace.py b/geoana/em/static/wholespace.py
index 5c6058b..4455ea5 100644
--- a/geoana/em/static/wholespace.py
+++ b/geoana/em/static/wholespace.py
@@ -606,7 +606,7 @@ class CircularLoopWholeSpace(BaseEM, BaseDipole):
                 # A(rho=0) = 0
                 rho[small_rho] * a**2 / (4 * temp**3) +  # rho * A'(rho=0)
                 # A''(rho=0) = 0
-                rho[small_rho]**3 * 3 * a**2 / ( a ** 2 - 4 * z[small_rho]**2) / (
+                rho[small_rho]**3 * 3 * a**2 * (a**2 - 4 * z[small_rho]**2) / (
                     32 * np.sqrt(a**2 + z[small_rho]**2)**7
                 )
         )
-- 
2.43.0


From a6eaad50fb9be409cd53efbfaede2c8851efd45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:19 +0000
Subject: [PATCH 03/18] fix: vector transforms between spherical and Cartesian
 coordinates

---
 geoana/spatial.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geoana/spatial.py b/geoana/spatial.py
index 01e1f03..1424855 100644
--- a/geoana/spatial.py
+++ b/geoana/spatial.py
@@ -303,7 +303,7 @@ def spherical_to_cartesian(grid, vec=None):
 
     y = (
         vec[..., 0] * np.sin(theta) * np.sin(phi) +
-        vec[..., 1] * np.cos(theta) +
+        vec[..., 1] * np.cos(phi) +
         vec[..., 2] * np.cos(theta) * np.sin(phi)
     )
 
@@ -397,15 +397,15 @@ def cartesian_to_spherical(grid, vec=None):
         vec[..., 2] * np.cos(theta)
     )
 
-    phi = - vec[..., 0] * np.sin(phi) + vec[..., 1] * np.cos(phi)
+    v_phi = - vec[..., 0] * np.sin(phi) + vec[..., 1] * np.cos(phi)
 
-    theta = (
+    v_theta = (
         vec[..., 0] * np.cos(theta) * np.cos(phi) +
         vec[..., 1] * np.cos(theta) * np.sin(phi) -
         vec[..., 2] * np.sin(theta)
     )
 
-    return np.stack([r, phi, theta], axis=-1)
+    return np.stack([r, v_phi, v_theta], axis=-1)
 
 
 def vector_magnitude(v):
-- 
2.43.0


From 8989383e295698dd1e0f5b679cad6a3287447b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:19 +0000
Subject: [PATCH 04/18] fix: magnetic dipole on a halfspace accepts a scalar
 frequency

---
 geoana/em/fdem/halfspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/em/fdem/halfspace.py b/geoana/em/fdem/halfspace.py
index dce8a39..0b373e2 100644
--- a/geoana/em/fdem/halfspace.py
+++ b/geoana/em/fdem/halfspace.py
@@ -95,7 +95,7 @@ class MagneticDipoleHalfSpace(BaseFDEM, BaseMagneticDipole):
         y = dxy[..., 1]
 
         for dim in range(r.ndim):
-            k = k[:, None]
+            k = k[..., None]
 
         em_x = em_y = em_z = 0
         src_x, src_y, src_z = self.orientation
-- 
2.43.0


From 9f798548c5f3d4a62d5a148694d6581e3f553bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:04 +0000
Subject: [PATCH 05/18] fix: sources keep their own copy of array arguments

The setters kept a reference to the caller's array, so that the
orientation setters normalised the caller's array in place and later
changes to the caller's array silently changed the source.
---
 geoana/earthquake/oksar.py    | 16 ++++++++--------
 geoana/em/base.py             |  6 +++---
 geoana/em/fdem/base.py        |  2 +-
 geoana/em/fdem/wholespace.py  |  2 +-
 geoana/em/static/freespace.py |  2 +-
 geoana/em/tdem/base.py        |  2 +-
 geoana/em/tdem/wholespace.py  |  2 +-
 geoana/gravity.py             |  2 +-
 geoana/shapes.py              |  4 ++--
 9 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index 109d92e..327355f 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -104,7 +104,7 @@ class EarthquakeInterferogram:
     @data.setter
     def data(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError("Location must be a array_like of float")
 
@@ -145,7 +145,7 @@ class EarthquakeInterferogram:
     @location.setter
     def location(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError(
                 "Location must be array_like of float"
@@ -219,7 +219,7 @@ class EarthquakeInterferogram:
     @pixel_size.setter
     def pixel_size(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError("pixel_size must be array_like of float")
         var = np.squeeze(var)
@@ -243,7 +243,7 @@ class EarthquakeInterferogram:
     @ref.setter
     def ref(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError(
                 "ref must be a array_like of float"
@@ -958,7 +958,7 @@ class Oksar:
     @O.setter
     def O(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError("O must be array_like of float")
         var = np.squeeze(var)
@@ -981,7 +981,7 @@ class Oksar:
     @U.setter
     def U(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError(
                 "U must be a array_like of float"
@@ -1006,7 +1006,7 @@ class Oksar:
     @V.setter
     def V(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError("V must be array_like of float")
         var = np.squeeze(var)
@@ -1030,7 +1030,7 @@ class Oksar:
     @center.setter
     def center(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError("center must be array_like of float")
         var = np.squeeze(var)
diff --git a/geoana/em/base.py b/geoana/em/base.py
index 4a5792b..0dbb34a 100644
--- a/geoana/em/base.py
+++ b/geoana/em/base.py
@@ -171,7 +171,7 @@ class BaseDipole:
     def location(self, vec):
 
         try:
-            vec = np.asarray(vec, dtype=float)
+            vec = np.array(vec, dtype=float)
         except:
             raise TypeError(f"location must be array_like of float, got {type(vec)}")
         vec = np.squeeze(vec)
@@ -207,7 +207,7 @@ class BaseDipole:
                 raise ValueError("Orientation must be one of {'X','Y','Z'}")
         else:
             try:
-                var = np.asarray(var, dtype=float)
+                var = np.array(var, dtype=float)
             except:
                 raise TypeError(
                     f"orientation must be str or array_like, got {type(var)}"
@@ -475,7 +475,7 @@ class BaseLineCurrent:
     def nodes(self, xyz):
 
         try:
-            xyz = np.asarray(xyz, dtype=np.float64)
+            xyz = np.array(xyz, dtype=np.float64)
         except:
             raise TypeError(f"nodes must be array_like, got {type(xyz)}")
         xyz = np.atleast_2d(xyz)
diff --git a/geoana/em/fdem/base.py b/geoana/em/fdem/base.py
index 8c575f7..9f197ca 100644
--- a/geoana/em/fdem/base.py
+++ b/geoana/em/fdem/base.py
@@ -207,7 +207,7 @@ class BaseFDEM(BaseEM):
 
         # Ensure float or numpy array of float
         try:
-            value = np.asarray(value, dtype=float)
+            value = np.array(value, dtype=float)
         except:
             raise TypeError(f"frequencies are not a valid type")
         # Enforce positivity and dimensions
diff --git a/geoana/em/fdem/wholespace.py b/geoana/em/fdem/wholespace.py
index 851156e..a1dcaf3 100644
--- a/geoana/em/fdem/wholespace.py
+++ b/geoana/em/fdem/wholespace.py
@@ -982,7 +982,7 @@ class HarmonicPlaneWave(BaseFDEM):
                 var = np.r_[0., 1., 0.]
         else:
             try:
-                var = np.asarray(var, dtype=float)
+                var = np.array(var, dtype=float)
             except:
                 raise TypeError(
                     f"orientation must be str or array_like, got {type(var)}"
diff --git a/geoana/em/static/freespace.py b/geoana/em/static/freespace.py
index 810efea..f9d8dec 100644
--- a/geoana/em/static/freespace.py
+++ b/geoana/em/static/freespace.py
@@ -50,7 +50,7 @@ class MagneticPrism(BasePrism):
     @magnetization.setter
     def magnetization(self, vec):
         try:
-            vec = np.asarray(vec, dtype=float)
+            vec = np.array(vec, dtype=float)
         except:
             raise TypeError(f"location must be array_like of float, got {type(vec)}")
 
diff --git a/geoana/em/tdem/base.py b/geoana/em/tdem/base.py
index e5b918b..998132e 100644
--- a/geoana/em/tdem/base.py
+++ b/geoana/em/tdem/base.py
@@ -165,7 +165,7 @@ class BaseTDEM(BaseEM):
 
         # Ensure float or numpy array of float
         try:
-            value = np.asarray(value, dtype=float)
+            value = np.array(value, dtype=float)
         except:
             raise TypeError(f"times are not a valid type")
 
diff --git a/geoana/em/tdem/wholespace.py b/geoana/em/tdem/wholespace.py
index 8a56ba2..a6aa842 100644
--- a/geoana/em/tdem/wholespace.py
+++ b/geoana/em/tdem/wholespace.py
@@ -659,7 +659,7 @@ class TransientPlaneWave(BaseTDEM):
                 var = np.r_[0., 1., 0.]
         else:
             try:
-                var = np.asarray(var, dtype=float)
+                var = np.array(var, dtype=float)
             except:
                 raise TypeError(
                     f"orientation must be str or array_like, got {type(var)}"
diff --git a/geoana/gravity.py b/geoana/gravity.py
index 5441f5b..7f27586 100644
--- a/geoana/gravity.py
+++ b/geoana/gravity.py
@@ -87,7 +87,7 @@ class PointMass:
     def location(self, vec):
 
         try:
-            vec = np.asarray(vec, dtype=float)
+            vec = np.array(vec, dtype=float)
         except:
             raise TypeError(f"location must be array_like of float, got {type(vec)}")
 
diff --git a/geoana/shapes.py b/geoana/shapes.py
index 0fda9ec..f761617 100644
--- a/geoana/shapes.py
+++ b/geoana/shapes.py
@@ -57,7 +57,7 @@ class BasePrism:
     def min_location(self, vec):
 
         try:
-            vec = np.asarray(vec, dtype=float)
+            vec = np.array(vec, dtype=float)
         except:
             raise TypeError(f"location must be array_like of float, got {type(vec)}")
 
@@ -84,7 +84,7 @@ class BasePrism:
     def max_location(self, vec):
 
         try:
-            vec = np.asarray(vec, dtype=float)
+            vec = np.array(vec, dtype=float)
         except:
             raise TypeError(f"location must be array_like of float, got {type(vec)}")
 
-- 
2.43.0


From ffcfadc27a2edf14313e2da9e6c27f17e12167c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:04 +0000
Subject: [PATCH 06/18] fix: planewaves reject an unknown orientation string

---
 geoana/em/fdem/wholespace.py | 2 ++
 geoana/em/tdem/wholespace.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/geoana/em/fdem/wholespace.py b/geoana/em/fdem/wholespace.py
index a1dcaf3..953e7b6 100644
--- a/geoana/em/fdem/wholespace.py
+++ b/geoana/em/fdem/wholespace.py
@@ -980,6 +980,8 @@ class HarmonicPlaneWave(BaseFDEM):
                 var = np.r_[1., 0., 0.]
             elif var.upper() == 'Y':
                 var = np.r_[0., 1., 0.]
+            else:
+                raise ValueError("Orientation must be one of {'X','Y'}")
         else:
             try:
                 var = np.array(var, dtype=float)
diff --git a/geoana/em/tdem/wholespace.py b/geoana/em/tdem/wholespace.py
index a6aa842..210dc10 100644
--- a/geoana/em/tdem/wholespace.py
+++ b/geoana/em/tdem/wholespace.py
@@ -657,6 +657,8 @@ class TransientPlaneWave(BaseTDEM):
                 var = np.r_[1., 0., 0.]
             elif var.upper() == 'Y':
                 var = np.r_[0., 1., 0.]
+            else:
+                raise ValueError("Orientation must be one of {'X','Y'}")
         else:
             try:
                 var = np.array(var, dtype=float)
-- 
2.43.0


From 456efb1ca1fb20b8203ebcdbb1bb0bdce5d75008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:04 +0000
Subject: [PATCH 07/18] fix: plot2Ddata leaves the caller's contourOpts
 unchanged

---
 geoana/plotting_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geoana/plotting_utils.py b/geoana/plotting_utils.py
index 4307747..aed0cf8 100644
--- a/geoana/plotting_utils.py
+++ b/geoana/plotting_utils.py
@@ -113,6 +113,7 @@ def plot2Ddata(
 
     # Error checking and set vmin, vmax
     vlimits = [None, None]
+    contourOpts = dict(contourOpts)
 
     if clim is not None:
         vlimits = [np.min(clim), np.max(clim)]
-- 
2.43.0


From e168f9dd0d2b7fc8ef305d9524609a819d036f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:12 +0000
Subject: [PATCH 08/18] fix: static sources reject location and field arrays
 that are not of shape (3,)

The check was on the length of the first dimension only, so that a (3, k)
array was accepted.
---
 geoana/em/static/halfspace.py  | 12 ++++++------
 geoana/em/static/sphere.py     | 16 ++++++++--------
 geoana/em/static/wholespace.py |  4 ++--
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/geoana/em/static/halfspace.py b/geoana/em/static/halfspace.py
index 859fb43..e599563 100644
--- a/geoana/em/static/halfspace.py
+++ b/geoana/em/static/halfspace.py
@@ -107,9 +107,9 @@ class PointCurrentHalfSpace:
         except:
             raise TypeError(f"location must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"location must be array_like with shape (3,), got {len(vec)}"
+                f"location must be array_like with shape (3,), got {vec.shape}"
             )
 
         if np.any(vec[..., -1] > 0):
@@ -424,9 +424,9 @@ class DipoleHalfSpace:
         except:
             raise TypeError(f"location must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"location must be array_like with shape (3,), got {len(vec)}"
+                f"location must be array_like with shape (3,), got {vec.shape}"
             )
 
         if np.any(vec[..., -1] > 0):
@@ -456,9 +456,9 @@ class DipoleHalfSpace:
         except:
             raise TypeError(f"location must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"location must be array_like with shape (3,), got {len(vec)}"
+                f"location must be array_like with shape (3,), got {vec.shape}"
             )
 
         if np.any(vec[..., -1] > 0):
diff --git a/geoana/em/static/sphere.py b/geoana/em/static/sphere.py
index d926076..7edbe24 100644
--- a/geoana/em/static/sphere.py
+++ b/geoana/em/static/sphere.py
@@ -113,9 +113,9 @@ class ElectrostaticSphere:
         except:
             raise TypeError(f"primary_field must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"primary_field must be array_like with shape (3,), got {len(vec)}"
+                f"primary_field must be array_like with shape (3,), got {vec.shape}"
             )
 
         self._primary_field = vec
@@ -139,9 +139,9 @@ class ElectrostaticSphere:
         except:
             raise TypeError(f"location must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"location must be array_like with shape (3,), got {len(vec)}"
+                f"location must be array_like with shape (3,), got {vec.shape}"
             )
 
         self._location = vec
@@ -624,9 +624,9 @@ class MagnetostaticSphere:
         except:
             raise TypeError(f"primary_field must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"primary_field must be array_like with shape (3,), got {len(vec)}"
+                f"primary_field must be array_like with shape (3,), got {vec.shape}"
             )
 
         self._primary_field = vec
@@ -650,9 +650,9 @@ class MagnetostaticSphere:
         except:
             raise TypeError(f"location must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"location must be array_like with shape (3,), got {len(vec)}"
+                f"location must be array_like with shape (3,), got {vec.shape}"
             )
 
         self._location = vec
diff --git a/geoana/em/static/wholespace.py b/geoana/em/static/wholespace.py
index 4455ea5..d219c04 100644
--- a/geoana/em/static/wholespace.py
+++ b/geoana/em/static/wholespace.py
@@ -1118,9 +1118,9 @@ class PointCurrentWholeSpace(LineCurrentWholeSpace):
         except:
             raise TypeError(f"location must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"location must be array_like with shape (3,), got {len(vec)}"
+                f"location must be array_like with shape (3,), got {vec.shape}"
             )
         self.nodes[0] = vec
 
-- 
2.43.0


From e7cbd5e7573ba28a360a7434d05401d6a9f7043b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:48 +0000
Subject: [PATCH 09/18] fix: oksar properties read back the value that was set

V read the nonexistent location, event_date read the processed date and
local_rigidity stored its value where it was never read.
---
 geoana/earthquake/oksar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index 327355f..7439c4b 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -399,7 +399,7 @@ class EarthquakeInterferogram:
         except:
             raise TypeError("local_rigidity must be a float")
 
-        self._rigidity = var
+        self._local_rigidity = var
 
     @property
     def processed_by(self):
@@ -645,7 +645,7 @@ class EarthquakeInterferogram:
         datetime.datetime
             The date and time
         """
-        return self._processed_date
+        return self._event_date
 
     @event_date.setter
     def event_date(self, date_time):
@@ -1001,7 +1001,7 @@ class Oksar:
             V direction of the simulation domain
 
         """
-        return self._location
+        return self._V
 
     @V.setter
     def V(self, var):
-- 
2.43.0


From b729ce11535f8e1856aeeb50bf1be3dfa4f4d554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:49 +0000
Subject: [PATCH 10/18] fix: oksar displacement of more than one location

The displacements have the components on the first axis, but were
accumulated in and indexed as an array with the components on the last.
---
 geoana/earthquake/oksar.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index 7439c4b..78d9f52 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -1346,9 +1346,9 @@ class Oksar:
 
         u = self._dc3d3(alpha, X, Y, -dip, al1, al2, aw1, aw2, us, ud)
 
-        UX = ct*u[...,0] + st*u[...,1]
-        UY = -st*u[...,0] + ct*u[...,1]
-        UZ = u[..., 2]
+        UX = ct*u[0] + st*u[1]
+        UY = -st*u[0] + ct*u[1]
+        UZ = u[2]
 
         return np.stack([UX, UY, UZ], axis=-1)
 
@@ -1359,8 +1359,8 @@ class Oksar:
         PI2 = 6.283185307179586
         EPS = 1.0E-6
 
-        u = np.array([F0, F0, F0])
-        dub = np.array([F0, F0, F0])
+        u = np.zeros((3, *X.shape))
+        dub = np.zeros((3, *X.shape))
 
         #  %%dccon0 subroutine
         #  Calculates medium and fault dip constants
@@ -1509,7 +1509,7 @@ class Oksar:
                     du2 = np.array([du2x, du2y, du2z])
                     dub = du2 * (disl1 / PI2)
                 else:
-                    dub = np.zeros(3)
+                    dub = np.zeros((3, *X.shape))
 
                 # dip-slip contribution
                 if(disl2 != F0):
-- 
2.43.0


From 3bea0362843fbef3a0f3e43240a38062f32dfe70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:36 +0000
Subject: [PATCH 11/18] fix: location given to the PointCurrentWholeSpace
 constructor is validated

---
 geoana/em/static/wholespace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geoana/em/static/wholespace.py b/geoana/em/static/wholespace.py
index d219c04..27fbddf 100644
--- a/geoana/em/static/wholespace.py
+++ b/geoana/em/static/wholespace.py
@@ -1097,7 +1097,8 @@ class PointCurrentWholeSpace(LineCurrentWholeSpace):
     def __init__(self, rho, current=1.0, location=None):
         if location is None:
             location = np.r_[0, 0, 0]
-        super().__init__(sigma=1/rho, nodes=location, current=current)
+        super().__init__(sigma=1/rho, nodes=np.r_[0., 0., 0.], current=current)
+        self.location = location
 
     @property
     def location(self):
-- 
2.43.0


From 92cb760671e6ea38867e73fc2e379541d7ee6a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:51 +0000
Subject: [PATCH 12/18] fix: oksar simulation grid spans the U and V directions

The grid is O + a U + b V; the components of U and V were contracted the
wrong way round, which only agrees for U along x and V along y.
---
 geoana/earthquake/oksar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index 78d9f52..a483671 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -1290,7 +1290,7 @@ class Oksar:
             np.linspace(0, 1, shape[1])
         )
         square = np.stack([square[0].flatten(), square[1].flatten()], axis=-1)
-        grid = origin + np.einsum('ij,...j->...i', R, square)
+        grid = origin + np.einsum('ij,...i->...j', R, square)
 
         return grid
 
-- 
2.43.0


From d71d53892de2852b09fe76f51beb109625080efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:34 +0000
Subject: [PATCH 13/18] fix: plot2Ddata draws level contours of vector data

levels and zorder were passed both as keywords and through levelOpts,
so level=True with vec=True raised a TypeError.
---
 geoana/plotting_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/plotting_utils.py b/geoana/plotting_utils.py
index aed0cf8..be966ce 100644
--- a/geoana/plotting_utils.py
+++ b/geoana/plotting_utils.py
@@ -231,7 +231,7 @@ def plot2Ddata(
 
         if level:
             levelOpts = {"levels": levels, "zorder": 3, **levelOpts}
-            CS = ax.contour(X, Y, DATA, levels=levels, zorder=3, **levelOpts)
+            CS = ax.contour(X, Y, DATA, **levelOpts)
 
     if shade:
 
-- 
2.43.0


From 6385c02315f51e5660de2cc7a3bdf5eedf7df1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:34 +0000
Subject: [PATCH 14/18] fix: plot2Ddata saves the figure of the axes it is
 given

figname together with ax raised an UnboundLocalError, and the axes
switched off before saving were the current ones, not the ones drawn on.
---
 geoana/plotting_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geoana/plotting_utils.py b/geoana/plotting_utils.py
index be966ce..638fd8e 100644
--- a/geoana/plotting_utils.py
+++ b/geoana/plotting_utils.py
@@ -139,6 +139,8 @@ def plot2Ddata(
     if ax is None:
         fig = plt.figure()
         ax = plt.subplot(111)
+    else:
+        fig = ax.figure
 
     # interpolate data to grid locations
     xmin, xmax = xyz[:, 0].min(), xyz[:, 0].max()
@@ -270,7 +272,7 @@ def plot2Ddata(
         ax.plot(xyz[:, 0], xyz[:, 1], "k.", ms=2)
     ax.set_aspect("equal", adjustable="box")
     if figname:
-        plt.axis("off")
+        ax.axis("off")
         fig.savefig(figname, dpi=200)
     if level:
         return cont, ax, CS
-- 
2.43.0


From 95fa7cd39d5266c68854fd6dd138781fb9a9dc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:24 +0000
Subject: [PATCH 15/18] fix: oksar plot_displacement along the line of sight of
 an interferogram

The simulation grid was passed as if it were a single location, which
raised, and the line of sight differs from location to location.
---
 geoana/earthquake/oksar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index a483671..f453962 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -1581,8 +1581,8 @@ class Oksar:
         if eq is None:
             LOS = np.array([0, 0, 1])
         else:
-            LOS = eq.get_LOS_vector(grid)
-        data = DIR.dot(LOS)
+            LOS = eq.get_LOS_vector(list(grid)).T
+        data = np.sum(DIR * LOS, axis=-1)
         data = np.flipud(data.reshape(self.shape, order='F').T)
         # data[data == 0] = np.nan
         # data *= self.scaling
-- 
2.43.0


From 5fee9adfe13b65a4e5c316a21b6640c1fd3c17d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:24 +0000
Subject: [PATCH 16/18] fix: oksar plot_displacement draws the displacement the
 right way up

The rows of the simulation grid start at the origin O, where the drawn
rows start too: reversing them mirrored the map.
---
 geoana/earthquake/oksar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index f453962..c8c9175 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -1583,7 +1583,7 @@ class Oksar:
         else:
             LOS = eq.get_LOS_vector(list(grid)).T
         data = np.sum(DIR * LOS, axis=-1)
-        data = np.flipud(data.reshape(self.shape, order='F').T)
+        data = data.reshape(self.shape, order='F').T
         # data[data == 0] = np.nan
         # data *= self.scaling
 
-- 
2.43.0


From 38a5ba584e68fb20f146165f64a7ec7fd3d51d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:07 +0000
Subject: [PATCH 17/18] fix: oksar plot_mask shades the pixels without data

Their values are nan, which matplotlib masks as well, so that nothing
was drawn at all.
---
 geoana/earthquake/oksar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index c8c9175..94743bd 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -769,7 +769,7 @@ class EarthquakeInterferogram:
         out = ax.pcolormesh(
             vectorNx,
             vectorNy,
-            np.ma.masked_where(~np.isnan(data), data),
+            np.ma.masked_where(~np.isnan(data), np.ones_like(data)),
             cmap=cmap
         )
 
-- 
2.43.0


From 92b1b921ecf0a99a8ad815c9d4b111a7f736b124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:20 +0000
Subject: [PATCH 18/18] fix: magnetic field of a line current is finite on the
 extension of its segments

---
 geoana/em/static/wholespace.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/geoana/em/static/wholespace.py b/geoana/em/static/wholespace.py
index 27fbddf..b55a90d 100644
--- a/geoana/em/static/wholespace.py
+++ b/geoana/em/static/wholespace.py
@@ -1010,12 +1010,13 @@ class LineCurrentWholeSpace(BaseLineCurrent, BaseEM):
 
             r0 = np.linalg.norm(r0_vec, axis=-1, keepdims=True)
             r1 = np.linalg.norm(r1_vec, axis=-1, keepdims=True)
-            r0_hat = r0_vec / r0
-            r1_hat = r1_vec / r1
 
             cyl_points = cartesian_to_cylindrical(r0_vec[..., 1:])
 
-            temp_storage[..., 1] = (r1_hat[..., 0] - r0_hat[..., 0])/cyl_points[..., 0]
+            # (x1/r1 - x0/r0)/rho, in a form that vanishes on the extension of the segment
+            r0r1 = r0 * r1
+            scale = l * (r0 + r1) / (r0r1 * (r0r1 + np.sum(r0_vec * r1_vec, axis=-1, keepdims=True)))
+            temp_storage[..., 1] = -cyl_points[..., 0] * scale[..., 0]
             temp_storage[..., 1:] = cylindrical_to_cartesian(cyl_points, temp_storage)
 
             # the undo the local rotation...
-- 
2.43.0

