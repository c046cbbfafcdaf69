From c1014151308daec363008dd031c4a0812b0a8e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:50 +0000
Subject: [PATCH 01/19] fix: azimuthal component in spherical_to_cartesian
 vector transform

The y component of the azimuthal unit vector is cos(phi), with phi the
azimuth, not the cosine of the polar angle.
---
 geoana/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/spatial.py b/geoana/spatial.py
index 01e1f03..ff7402d 100644
--- a/geoana/spatial.py
+++ b/geoana/spatial.py
@@ -303,7 +303,7 @@ def spherical_to_cartesian(grid, vec=None):
 
     y = (
         vec[..., 0] * np.sin(theta) * np.sin(phi) +
-        vec[..., 1] * np.cos(theta) +
+        vec[..., 1] * np.cos(phi) +
         vec[..., 2] * np.cos(theta) * np.sin(phi)
     )
 
-- 
2.43.0


From 64a42ec68e2ac0639aa88e4ae4e5e4fc5bc9a8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:50 +0000
Subject: [PATCH 02/19] fix: polar component in cartesian_to_spherical vector
 transform

The azimuth angle was overwritten by the azimuthal vector component before
it was used to project onto the polar unit vector.
---
 geoana/spatial.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geoana/spatial.py b/geoana/spatial.py
index ff7402d..1424855 100644
--- a/geoana/spatial.py
+++ b/geoana/spatial.py
@@ -397,15 +397,15 @@ def cartesian_to_spherical(grid, vec=None):
         vec[..., 2] * np.cos(theta)
     )
 
-    phi = - vec[..., 0] * np.sin(phi) + vec[..., 1] * np.cos(phi)
+    v_phi = - vec[..., 0] * np.sin(phi) + vec[..., 1] * np.cos(phi)
 
-    theta = (
+    v_theta = (
         vec[..., 0] * np.cos(theta) * np.cos(phi) +
         vec[..., 1] * np.cos(theta) * np.sin(phi) -
         vec[..., 2] * np.sin(theta)
     )
 
-    return np.stack([r, phi, theta], axis=-1)
+    return np.stack([r, v_phi, v_theta], axis=-1)
 
 
 def vector_magnitude(v):
-- 
2.43.0


From 2eafde812e94cf9084b506acc60854f02dff6b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:50 +0000
Subject: [PATCH 03/19] fix: rotation between (nearly) anti-parallel vectors

For anti-parallel inputs that are not exact negatives after normalization,
the cross product is round-off noise which need not be perpendicular to the
input, and the resulting rotation did not map v0 to v1.
---
 geoana/spatial.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/geoana/spatial.py b/geoana/spatial.py
index 1424855..638185b 100644
--- a/geoana/spatial.py
+++ b/geoana/spatial.py
@@ -604,6 +604,13 @@ def rotation_matrix_from_normals(v0, v1, tol=1e-20, as_matrix=True):
 
     # define the rotation axis, which is the cross product of the two vectors
     rotation_axis = np.cross(v0, v1)
+    w = 1 + v0dotv1
+    if v0dotv1 < 0:
+        # both of the above cancel as the vectors become anti-parallel, the same
+        # quantities are well conditioned when written in terms of their sum.
+        v_sum = v0 + v1
+        rotation_axis = np.cross(v0, v_sum)
+        w = 0.5 * v_sum.dot(v_sum)
 
     if np.linalg.norm(rotation_axis) < tol:
         # check if vectors were anti-parallel.
@@ -624,7 +631,6 @@ def rotation_matrix_from_normals(v0, v1, tol=1e-20, as_matrix=True):
                 return Rotation.from_matrix(mat)
 
 
-    w = 1 + v0dotv1
     rot = Rotation.from_quat(np.r_[rotation_axis, w])
 
     if as_matrix:
-- 
2.43.0


From 13cd297f01a9dbe8d528f5dfc8769ce8b6de3edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:50 +0000
Subject: [PATCH 04/19] fix: MagneticDipoleHalfSpace.magnetic_field for a
 scalar frequency

A scalar frequency is a supported value of the frequency property, but the
wavenumber could not be indexed to broadcast it against the locations.
---
 geoana/em/fdem/halfspace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geoana/em/fdem/halfspace.py b/geoana/em/fdem/halfspace.py
index dce8a39..ba7dcdb 100644
--- a/geoana/em/fdem/halfspace.py
+++ b/geoana/em/fdem/halfspace.py
@@ -3,6 +3,7 @@ from scipy.constants import mu_0
 from scipy.special import iv, kv
 from geoana.em.base import BaseMagneticDipole
 from geoana.em.fdem.base import BaseFDEM
+from geoana.utils import append_ndim
 
 __all__ = [
     "MagneticDipoleHalfSpace",
@@ -94,8 +95,7 @@ class MagneticDipoleHalfSpace(BaseFDEM, BaseMagneticDipole):
         x = dxy[..., 0]
         y = dxy[..., 1]
 
-        for dim in range(r.ndim):
-            k = k[:, None]
+        k = append_ndim(k, r.ndim)
 
         em_x = em_y = em_z = 0
         src_x, src_y, src_z = self.orientation
-- 
2.43.0


From 5fe00ce23ae053a7ac21cb8dd6f01cb42e77fc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:50 +0000
Subject: [PATCH 05/19] fix: reject unknown orientation strings for plane waves

An unrecognized string was stored as the orientation and only failed, with
an unrelated error, when evaluating the fields.
---
 geoana/em/fdem/wholespace.py | 2 ++
 geoana/em/tdem/wholespace.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/geoana/em/fdem/wholespace.py b/geoana/em/fdem/wholespace.py
index 851156e..daa095c 100644
--- a/geoana/em/fdem/wholespace.py
+++ b/geoana/em/fdem/wholespace.py
@@ -980,6 +980,8 @@ class HarmonicPlaneWave(BaseFDEM):
                 var = np.r_[1., 0., 0.]
             elif var.upper() == 'Y':
                 var = np.r_[0., 1., 0.]
+            else:
+                raise ValueError("Orientation must be one of {'X','Y'}")
         else:
             try:
                 var = np.asarray(var, dtype=float)
diff --git a/geoana/em/tdem/wholespace.py b/geoana/em/tdem/wholespace.py
index 8a56ba2..7db106b 100644
--- a/geoana/em/tdem/wholespace.py
+++ b/geoana/em/tdem/wholespace.py
@@ -657,6 +657,8 @@ class TransientPlaneWave(BaseTDEM):
                 var = np.r_[1., 0., 0.]
             elif var.upper() == 'Y':
                 var = np.r_[0., 1., 0.]
+            else:
+                raise ValueError("Orientation must be one of {'X','Y'}")
         else:
             try:
                 var = np.asarray(var, dtype=float)
-- 
2.43.0


From 4401841182b861cbeaf51e597a4ab27e6ddf6671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:50 +0000
Subject: [PATCH 06/19] fix: field outside of the electrostatic and
 magnetostatic spheres

The dipolar term is 3 (E_0 . r) r R^3 / r^5, the negative gradient of the
potential; it was evaluated with R / r^4.
---
 geoana/em/static/sphere.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geoana/em/static/sphere.py b/geoana/em/static/sphere.py
index 1e2182a..d926076 100644
--- a/geoana/em/static/sphere.py
+++ b/geoana/em/static/sphere.py
@@ -335,7 +335,7 @@ class ElectrostaticSphere:
 
         # total field outside the sphere
         Et[ind0] = E0 * (1. - sig_cur * self.radius ** 3. / r[ind0, None] ** 3) +\
-            3. * (r_vec[ind0] @ E0)[..., None] * sig_cur * self.radius * r_vec[ind0] / r[ind0, None] ** 4
+            3. * (r_vec[ind0] @ E0)[..., None] * sig_cur * self.radius ** 3. * r_vec[ind0] / r[ind0, None] ** 5
 
         # inside the sphere
         Et[~ind0] = 3. * sig0 / (sig1 + 2. * sig0) * E0
@@ -835,7 +835,7 @@ class MagnetostaticSphere:
 
         # total field outside the sphere
         Ht[ind0] = H0 * (1. - mu_cur * self.radius ** 3. / r[ind0, None] ** 3) +\
-            3. * (r_vec[ind0] @ H0)[..., None] * mu_cur * self.radius * r_vec[ind0] / r[ind0, None] ** 4
+            3. * (r_vec[ind0] @ H0)[..., None] * mu_cur * self.radius ** 3. * r_vec[ind0] / r[ind0, None] ** 5
 
         # inside the sphere
         Ht[~ind0] = 3. * mu0 / (mu1 + 2. * mu0) * H0
-- 
2.43.0


From 048e4d4825a75fc0f0f5d9a3a70d1e3c28fb1c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:50 +0000
Subject: [PATCH 07/19] fix: near axis expansion of the circular loop vector
 potential

The cubic term is proportional to (a^2 - 4 z^2), dividing by it gave nan
on the axis at z = a / 2.
---
 geoana/em/static/wholespace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/em/static/wholespace.py b/geoana/em/static/wholespace.py
index 5c6058b..09b9068 100644
--- a/geoana/em/static/wholespace.py
+++ b/geoana/em/static/wholespace.py
@@ -606,7 +606,7 @@ class CircularLoopWholeSpace(BaseEM, BaseDipole):
                 # A(rho=0) = 0
                 rho[small_rho] * a**2 / (4 * temp**3) +  # rho * A'(rho=0)
                 # A''(rho=0) = 0
-                rho[small_rho]**3 * 3 * a**2 / ( a ** 2 - 4 * z[small_rho]**2) / (
+                rho[small_rho]**3 * 3 * a**2 * ( a ** 2 - 4 * z[small_rho]**2) / (
                     32 * np.sqrt(a**2 + z[small_rho]**2)**7
                 )
         )
-- 
2.43.0


From 620b2bc6cdc257c121bdaf3ed219629349117d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:50 +0000
Subject: [PATCH 08/19] fix: return the stored values of earthquake properties

Oksar.V, EarthquakeInterferogram.local_rigidity and event_date read back an
attribute other than the one their setters store.
---
 geoana/earthquake/oksar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index 109d92e..78875e9 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -399,7 +399,7 @@ class EarthquakeInterferogram:
         except:
             raise TypeError("local_rigidity must be a float")
 
-        self._rigidity = var
+        self._local_rigidity = var
 
     @property
     def processed_by(self):
@@ -645,7 +645,7 @@ class EarthquakeInterferogram:
         datetime.datetime
             The date and time
         """
-        return self._processed_date
+        return self._event_date
 
     @event_date.setter
     def event_date(self, date_time):
@@ -1001,7 +1001,7 @@ class Oksar:
             V direction of the simulation domain
 
         """
-        return self._location
+        return self._V
 
     @V.setter
     def V(self, var):
-- 
2.43.0


From 7b8a7b1509fb3e7e79e480cd76d30e3e6407b861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:50 +0000
Subject: [PATCH 09/19] fix: honor any true value for quasistatic

wavenumber and sigma_hat ignored numpy booleans, unlike skin_depth.
---
 geoana/em/fdem/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geoana/em/fdem/base.py b/geoana/em/fdem/base.py
index 8c575f7..43755c0 100644
--- a/geoana/em/fdem/base.py
+++ b/geoana/em/fdem/base.py
@@ -77,7 +77,7 @@ def wavenumber(
 
     """
     w = omega(frequency)
-    if quasistatic is True:
+    if quasistatic:
         return np.sqrt(-1j * w * mu * sigma)
     return np.sqrt(w**2 * mu * epsilon - 1j * w * mu * sigma)
 
@@ -158,7 +158,7 @@ def sigma_hat(frequency, sigma, epsilon=epsilon_0, quasistatic=False):
         Conductivity with electric displacement for all frequencies provided
 
     """
-    if quasistatic is True:
+    if quasistatic:
         return sigma
     return sigma + 1j*omega(frequency)*epsilon
 
-- 
2.43.0


From 77c0ec9086045e1a443be9faf391e2e8ee033012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:08 +0000
Subject: [PATCH 10/19] fix: copy array valued parameters on assignment

Orientations were normalized in place in the array that was passed in, the
point current location was written into it, and the default dipole location
was one array shared by every instance.
---
 geoana/earthquake/oksar.py    | 16 ++++++++--------
 geoana/em/base.py             |  6 +++---
 geoana/em/fdem/base.py        |  2 +-
 geoana/em/fdem/wholespace.py  |  2 +-
 geoana/em/static/freespace.py |  2 +-
 geoana/em/tdem/base.py        |  2 +-
 geoana/em/tdem/wholespace.py  |  2 +-
 geoana/gravity.py             |  2 +-
 geoana/shapes.py              |  4 ++--
 9 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index 78875e9..7439c4b 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -104,7 +104,7 @@ class EarthquakeInterferogram:
     @data.setter
     def data(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError("Location must be a array_like of float")
 
@@ -145,7 +145,7 @@ class EarthquakeInterferogram:
     @location.setter
     def location(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError(
                 "Location must be array_like of float"
@@ -219,7 +219,7 @@ class EarthquakeInterferogram:
     @pixel_size.setter
     def pixel_size(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError("pixel_size must be array_like of float")
         var = np.squeeze(var)
@@ -243,7 +243,7 @@ class EarthquakeInterferogram:
     @ref.setter
     def ref(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError(
                 "ref must be a array_like of float"
@@ -958,7 +958,7 @@ class Oksar:
     @O.setter
     def O(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError("O must be array_like of float")
         var = np.squeeze(var)
@@ -981,7 +981,7 @@ class Oksar:
     @U.setter
     def U(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError(
                 "U must be a array_like of float"
@@ -1006,7 +1006,7 @@ class Oksar:
     @V.setter
     def V(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError("V must be array_like of float")
         var = np.squeeze(var)
@@ -1030,7 +1030,7 @@ class Oksar:
     @center.setter
     def center(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError("center must be array_like of float")
         var = np.squeeze(var)
diff --git a/geoana/em/base.py b/geoana/em/base.py
index 4a5792b..0dbb34a 100644
--- a/geoana/em/base.py
+++ b/geoana/em/base.py
@@ -171,7 +171,7 @@ class BaseDipole:
     def location(self, vec):
 
         try:
-            vec = np.asarray(vec, dtype=float)
+            vec = np.array(vec, dtype=float)
         except:
             raise TypeError(f"location must be array_like of float, got {type(vec)}")
         vec = np.squeeze(vec)
@@ -207,7 +207,7 @@ class BaseDipole:
                 raise ValueError("Orientation must be one of {'X','Y','Z'}")
         else:
             try:
-                var = np.asarray(var, dtype=float)
+                var = np.array(var, dtype=float)
             except:
                 raise TypeError(
                     f"orientation must be str or array_like, got {type(var)}"
@@ -475,7 +475,7 @@ class BaseLineCurrent:
     def nodes(self, xyz):
 
         try:
-            xyz = np.asarray(xyz, dtype=np.float64)
+            xyz = np.array(xyz, dtype=np.float64)
         except:
             raise TypeError(f"nodes must be array_like, got {type(xyz)}")
         xyz = np.atleast_2d(xyz)
diff --git a/geoana/em/fdem/base.py b/geoana/em/fdem/base.py
index 43755c0..8708c64 100644
--- a/geoana/em/fdem/base.py
+++ b/geoana/em/fdem/base.py
@@ -207,7 +207,7 @@ class BaseFDEM(BaseEM):
 
         # Ensure float or numpy array of float
         try:
-            value = np.asarray(value, dtype=float)
+            value = np.array(value, dtype=float)
         except:
             raise TypeError(f"frequencies are not a valid type")
         # Enforce positivity and dimensions
diff --git a/geoana/em/fdem/wholespace.py b/geoana/em/fdem/wholespace.py
index daa095c..953e7b6 100644
--- a/geoana/em/fdem/wholespace.py
+++ b/geoana/em/fdem/wholespace.py
@@ -984,7 +984,7 @@ class HarmonicPlaneWave(BaseFDEM):
                 raise ValueError("Orientation must be one of {'X','Y'}")
         else:
             try:
-                var = np.asarray(var, dtype=float)
+                var = np.array(var, dtype=float)
             except:
                 raise TypeError(
                     f"orientation must be str or array_like, got {type(var)}"
diff --git a/geoana/em/static/freespace.py b/geoana/em/static/freespace.py
index 810efea..f9d8dec 100644
--- a/geoana/em/static/freespace.py
+++ b/geoana/em/static/freespace.py
@@ -50,7 +50,7 @@ class MagneticPrism(BasePrism):
     @magnetization.setter
     def magnetization(self, vec):
         try:
-            vec = np.asarray(vec, dtype=float)
+            vec = np.array(vec, dtype=float)
         except:
             raise TypeError(f"location must be array_like of float, got {type(vec)}")
 
diff --git a/geoana/em/tdem/base.py b/geoana/em/tdem/base.py
index e5b918b..998132e 100644
--- a/geoana/em/tdem/base.py
+++ b/geoana/em/tdem/base.py
@@ -165,7 +165,7 @@ class BaseTDEM(BaseEM):
 
         # Ensure float or numpy array of float
         try:
-            value = np.asarray(value, dtype=float)
+            value = np.array(value, dtype=float)
         except:
             raise TypeError(f"times are not a valid type")
 
diff --git a/geoana/em/tdem/wholespace.py b/geoana/em/tdem/wholespace.py
index 7db106b..210dc10 100644
--- a/geoana/em/tdem/wholespace.py
+++ b/geoana/em/tdem/wholespace.py
@@ -661,7 +661,7 @@ class TransientPlaneWave(BaseTDEM):
                 raise ValueError("Orientation must be one of {'X','Y'}")
         else:
             try:
-                var = np.asarray(var, dtype=float)
+                var = np.array(var, dtype=float)
             except:
                 raise TypeError(
                     f"orientation must be str or array_like, got {type(var)}"
diff --git a/geoana/gravity.py b/geoana/gravity.py
index 5441f5b..7f27586 100644
--- a/geoana/gravity.py
+++ b/geoana/gravity.py
@@ -87,7 +87,7 @@ class PointMass:
     def location(self, vec):
 
         try:
-            vec = np.asarray(vec, dtype=float)
+            vec = np.array(vec, dtype=float)
         except:
             raise TypeError(f"location must be array_like of float, got {type(vec)}")
 
diff --git a/geoana/shapes.py b/geoana/shapes.py
index 0fda9ec..f761617 100644
--- a/geoana/shapes.py
+++ b/geoana/shapes.py
@@ -57,7 +57,7 @@ class BasePrism:
     def min_location(self, vec):
 
         try:
-            vec = np.asarray(vec, dtype=float)
+            vec = np.array(vec, dtype=float)
         except:
             raise TypeError(f"location must be array_like of float, got {type(vec)}")
 
@@ -84,7 +84,7 @@ class BasePrism:
     def max_location(self, vec):
 
         try:
-            vec = np.asarray(vec, dtype=float)
+            vec = np.array(vec, dtype=float)
         except:
             raise TypeError(f"location must be array_like of float, got {type(vec)}")
 
-- 
2.43.0


From 0f5e4c604a120f292b9c4e0e93452b43e73bff9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:08 +0000
Subject: [PATCH 11/19] fix: plot2Ddata options handling

Do not remove vmin and vmax from the dictionary passed in, accept level with
vector data (levels and zorder were given twice), and save the figure of the
axes that are used when they are passed in.
---
 geoana/plotting_utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/geoana/plotting_utils.py b/geoana/plotting_utils.py
index 4307747..288ca6b 100644
--- a/geoana/plotting_utils.py
+++ b/geoana/plotting_utils.py
@@ -113,6 +113,7 @@ def plot2Ddata(
 
     # Error checking and set vmin, vmax
     vlimits = [None, None]
+    contourOpts = dict(contourOpts)
 
     if clim is not None:
         vlimits = [np.min(clim), np.max(clim)]
@@ -136,7 +137,7 @@ def plot2Ddata(
 
     # create a figure if it doesn't exist
     if ax is None:
-        fig = plt.figure()
+        plt.figure()
         ax = plt.subplot(111)
 
     # interpolate data to grid locations
@@ -230,7 +231,7 @@ def plot2Ddata(
 
         if level:
             levelOpts = {"levels": levels, "zorder": 3, **levelOpts}
-            CS = ax.contour(X, Y, DATA, levels=levels, zorder=3, **levelOpts)
+            CS = ax.contour(X, Y, DATA, **levelOpts)
 
     if shade:
 
@@ -269,8 +270,8 @@ def plot2Ddata(
         ax.plot(xyz[:, 0], xyz[:, 1], "k.", ms=2)
     ax.set_aspect("equal", adjustable="box")
     if figname:
-        plt.axis("off")
-        fig.savefig(figname, dpi=200)
+        ax.axis("off")
+        ax.figure.savefig(figname, dpi=200)
     if level:
         return cont, ax, CS
     else:
-- 
2.43.0


From 9b70ec8b35a55f153d749708d4dc3c633c42beea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:58 +0000
Subject: [PATCH 12/19] fix: span the Oksar simulation grid by its U and V
 directions

The grid used the transpose of (U, V), which only agrees when U and V are
aligned with the x and y axes.
---
 geoana/earthquake/oksar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index 7439c4b..9748b80 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -1290,7 +1290,7 @@ class Oksar:
             np.linspace(0, 1, shape[1])
         )
         square = np.stack([square[0].flatten(), square[1].flatten()], axis=-1)
-        grid = origin + np.einsum('ij,...j->...i', R, square)
+        grid = origin + np.einsum('ji,...j->...i', R, square)
 
         return grid
 
-- 
2.43.0


From 2423eb5395aeae63ff3891a170caef57b12a5f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:55 +0000
Subject: [PATCH 13/19] fix: flux density of a line current beyond the ends of
 a segment

On (or close to) the line through a segment, but outside of it, the
difference of the unit vectors was divided by a vanishing distance, giving
nan or noise where the segment contributes nothing.
---
 geoana/em/static/wholespace.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/geoana/em/static/wholespace.py b/geoana/em/static/wholespace.py
index 09b9068..4351e81 100644
--- a/geoana/em/static/wholespace.py
+++ b/geoana/em/static/wholespace.py
@@ -1015,7 +1015,19 @@ class LineCurrentWholeSpace(BaseLineCurrent, BaseEM):
 
             cyl_points = cartesian_to_cylindrical(r0_vec[..., 1:])
 
-            temp_storage[..., 1] = (r1_hat[..., 0] - r0_hat[..., 0])/cyl_points[..., 0]
+            rho = cyl_points[..., 0]
+            x0, x1 = r0_vec[..., 0], r1_vec[..., 0]
+            # r0_hat and r1_hat become parallel beyond the ends of the segment, there use
+            # an equivalent expression that does not cancel (and vanishes on its line).
+            beyond = x0 * x1 > 0
+            temp_storage[..., 1] = np.where(
+                beyond,
+                -rho * l * (x0 + x1) / (
+                    r0[..., 0] * r1[..., 0]
+                    * np.where(beyond, x1 * r0[..., 0] + x0 * r1[..., 0], 1.0)
+                ),
+                (r1_hat[..., 0] - r0_hat[..., 0]) / np.where(beyond, 1.0, rho)
+            )
             temp_storage[..., 1:] = cylindrical_to_cartesian(cyl_points, temp_storage)
 
             # the undo the local rotation...
-- 
2.43.0


From f3f2459ac5920bad0890c150e773cbadbdfeb6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:52 +0000
Subject: [PATCH 14/19] fix: shape of the Oksar displacement vector

displacement_vector raised a ValueError for any grid not of three points
and the components were stacked along the first axis.
---
 geoana/earthquake/oksar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index 9748b80..9c1857a 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -1509,7 +1509,7 @@ class Oksar:
                     du2 = np.array([du2x, du2y, du2z])
                     dub = du2 * (disl1 / PI2)
                 else:
-                    dub = np.zeros(3)
+                    dub = np.zeros((3,) + np.shape(xi))
 
                 # dip-slip contribution
                 if(disl2 != F0):
@@ -1524,7 +1524,7 @@ class Oksar:
                 dux = dub[0]
                 duy = dub[1]*c0_cd - dub[2]*c0_sd
                 duz = dub[1]*c0_sd + dub[2]*c0_cd
-                du = np.array([dux, duy, duz])
+                du = np.stack([dux, duy, duz], axis=-1)
                 if((j+k) != 3):
                     u = + du + u
                 else:
-- 
2.43.0


From 679b8fd0b746d308395f3c224e76115ccbcf3223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:25 +0000
Subject: [PATCH 15/19] fix: orientation and line of sight of the Oksar
 displacement map

The map was drawn upside down (the grid starts at O, V points up) and the
line of sight vectors were not those of the grid points.
---
 geoana/earthquake/oksar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index 9c1857a..6b54627 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -1581,9 +1581,9 @@ class Oksar:
         if eq is None:
             LOS = np.array([0, 0, 1])
         else:
-            LOS = eq.get_LOS_vector(grid)
-        data = DIR.dot(LOS)
-        data = np.flipud(data.reshape(self.shape, order='F').T)
+            LOS = eq.get_LOS_vector(list(grid)).T
+        data = np.sum(DIR * LOS, axis=-1)
+        data = data.reshape(self.shape, order='F').T
         # data[data == 0] = np.nan
         # data *= self.scaling
 
-- 
2.43.0


From 2950b538a2ad0388aa361643bda3cc8a789b92cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:10 +0000
Subject: [PATCH 16/19] fix: Oksar displacement on the surface trace at the
 fault's ends

Points on the trace at plus or minus half the length are regular for a
buried fault and were meant to be handled, but raised an exception.
---
 geoana/earthquake/oksar.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index 6b54627..f71338e 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -1435,7 +1435,8 @@ class Oksar:
                 c2_x11[(dc_xi < F0) & (dc_q == F0) & (dc_et == F0)] = F0
 
                 ret = c2_r + dc_et
-                if np.any(ret < 1e-14):
+                ind = (dc_et < F0) & (dc_q == F0) & (dc_xi == F0)
+                if np.any((ret < 1e-14) & ~ind):
                     raise Exception('dccon2 b %f %f %f %f %f' % (
                         ret, c2_r, dc_et, dc_q, dc_xi
                     ))
@@ -1443,8 +1444,6 @@ class Oksar:
                 c2_ale = np.log(ret)
                 c2_y11 = F1/(c2_r*ret)
 
-                ind = (dc_et < F0) & (dc_q == F0) & (dc_xi == F0)
-
                 # if((c2_r-dc_et) < 1e-14):
                 #     raise Exception('dccon2 a %f %f %f %f %f' % (
                 #         c2_3-dc_et, c2_r, dc_et, dc_q, dc_xi)
-- 
2.43.0


From 209bfe5519c3e09914a73e91eccb62a160ebb94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:09 +0000
Subject: [PATCH 17/19] fix: draw the mask of an interferogram

The pixels without data carried NaN, which pcolormesh masks, so that
plot_mask drew nothing.
---
 geoana/earthquake/oksar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index f71338e..eac4837 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -769,7 +769,7 @@ class EarthquakeInterferogram:
         out = ax.pcolormesh(
             vectorNx,
             vectorNy,
-            np.ma.masked_where(~np.isnan(data), data),
+            np.ma.masked_where(~np.isnan(data), np.isnan(data)),
             cmap=cmap
         )
 
-- 
2.43.0


From fb58dac0e536f4a959e493102056b1e155a48321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:42 +0000
Subject: [PATCH 18/19] fix: refuse vectors of the wrong shape in the spheres
 and the half-space electrodes

---
 geoana/em/static/halfspace.py | 12 ++++++------
 geoana/em/static/sphere.py    | 16 ++++++++--------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/geoana/em/static/halfspace.py b/geoana/em/static/halfspace.py
index 859fb43..e599563 100644
--- a/geoana/em/static/halfspace.py
+++ b/geoana/em/static/halfspace.py
@@ -107,9 +107,9 @@ class PointCurrentHalfSpace:
         except:
             raise TypeError(f"location must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"location must be array_like with shape (3,), got {len(vec)}"
+                f"location must be array_like with shape (3,), got {vec.shape}"
             )
 
         if np.any(vec[..., -1] > 0):
@@ -424,9 +424,9 @@ class DipoleHalfSpace:
         except:
             raise TypeError(f"location must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"location must be array_like with shape (3,), got {len(vec)}"
+                f"location must be array_like with shape (3,), got {vec.shape}"
             )
 
         if np.any(vec[..., -1] > 0):
@@ -456,9 +456,9 @@ class DipoleHalfSpace:
         except:
             raise TypeError(f"location must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"location must be array_like with shape (3,), got {len(vec)}"
+                f"location must be array_like with shape (3,), got {vec.shape}"
             )
 
         if np.any(vec[..., -1] > 0):
diff --git a/geoana/em/static/sphere.py b/geoana/em/static/sphere.py
index d926076..7edbe24 100644
--- a/geoana/em/static/sphere.py
+++ b/geoana/em/static/sphere.py
@@ -113,9 +113,9 @@ class ElectrostaticSphere:
         except:
             raise TypeError(f"primary_field must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"primary_field must be array_like with shape (3,), got {len(vec)}"
+                f"primary_field must be array_like with shape (3,), got {vec.shape}"
             )
 
         self._primary_field = vec
@@ -139,9 +139,9 @@ class ElectrostaticSphere:
         except:
             raise TypeError(f"location must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"location must be array_like with shape (3,), got {len(vec)}"
+                f"location must be array_like with shape (3,), got {vec.shape}"
             )
 
         self._location = vec
@@ -624,9 +624,9 @@ class MagnetostaticSphere:
         except:
             raise TypeError(f"primary_field must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"primary_field must be array_like with shape (3,), got {len(vec)}"
+                f"primary_field must be array_like with shape (3,), got {vec.shape}"
             )
 
         self._primary_field = vec
@@ -650,9 +650,9 @@ class MagnetostaticSphere:
         except:
             raise TypeError(f"location must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"location must be array_like with shape (3,), got {len(vec)}"
+                f"location must be array_like with shape (3,), got {vec.shape}"
             )
 
         self._location = vec
-- 
2.43.0


From 32c9a9426ec389b43b4fcb02e3933ac3ad43c207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:42 +0000
Subject: [PATCH 19/19] fix: refuse more than one location in the constructor
 of PointCurrentWholeSpace

---
 geoana/em/static/wholespace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geoana/em/static/wholespace.py b/geoana/em/static/wholespace.py
index 4351e81..cde6b4d 100644
--- a/geoana/em/static/wholespace.py
+++ b/geoana/em/static/wholespace.py
@@ -1109,7 +1109,8 @@ class PointCurrentWholeSpace(LineCurrentWholeSpace):
     def __init__(self, rho, current=1.0, location=None):
         if location is None:
             location = np.r_[0, 0, 0]
-        super().__init__(sigma=1/rho, nodes=location, current=current)
+        super().__init__(sigma=1/rho, nodes=np.zeros((1, 3)), current=current)
+        self.location = np.squeeze(location)
 
     @property
     def location(self):
-- 
2.43.0

