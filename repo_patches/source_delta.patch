From 828b49653b51c36716f8a3c9053c23364ad4e977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 01/17] fix: use requested index when listing non-point ground
 surfaces

TsGround.non_point_shaded_surfaces_at and non_point_illum_surfaces_at ignored
their idx argument and always described the first timestep.
---
 pvfactors/geometry/pvground.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvfactors/geometry/pvground.py b/pvfactors/geometry/pvground.py
index f336c2a..1890317 100644
--- a/pvfactors/geometry/pvground.py
+++ b/pvfactors/geometry/pvground.py
@@ -522,7 +522,7 @@ class TsGround(object):
         """
         list_surfaces = []
         for shadow_el in self.shadow_elements:
-            list_surfaces += shadow_el.non_point_surfaces_at(0)
+            list_surfaces += shadow_el.non_point_surfaces_at(idx)
         return list_surfaces
 
     def non_point_illum_surfaces_at(self, idx):
@@ -540,7 +540,7 @@ class TsGround(object):
         """
         list_surfaces = []
         for illum_el in self.illum_elements:
-            list_surfaces += illum_el.non_point_surfaces_at(0)
+            list_surfaces += illum_el.non_point_surfaces_at(idx)
         return list_surfaces
 
     def non_point_surfaces_at(self, idx):
-- 
2.43.0


From 22ef928394f983461568e6d81b427df1dd4cb5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:41 +0000
Subject: [PATCH 02/17] fix: keep the sign of zero rotation for flat PV rows
 given as integers

With integer surface tilts the rotation array was an integer array, so the
-0.0 needed for flat PV rows (GH 125) became 0 and the ground ended up on the
wrong side of the cut points (flat rows saw no ground from their back side).
---
 pvfactors/geometry/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 4cc7d1d..25a5324 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -121,7 +121,7 @@ def _get_rotation_from_tilt_azimuth(surface_azimuth, axis_azimuth, tilt):
 
     # Calculate rotation of PV row (signed tilt angle)
     is_pointing_right = ((surface_azimuth - axis_azimuth) % 360.) > 180.
-    rotation = np.where(is_pointing_right, tilt, -tilt)
+    rotation = np.where(is_pointing_right, tilt, -tilt).astype(float)
     rotation[tilt == 0] = -0.0  # GH 125
     return rotation
 
-- 
2.43.0


From 551c9503d1c8e7ff9079a5fd0b08e0abf93677e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:42 +0000
Subject: [PATCH 03/17] fix: do not overwrite the view factor matrix when
 adding AOI losses

When fAOI functions are used, build_ts_vf_aoi_matrix wrote its results into the
view factor matrix itself, which is also the one saved on the PV array.
---
 pvfactors/viewfactors/calculator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvfactors/viewfactors/calculator.py b/pvfactors/viewfactors/calculator.py
index aa8e844..59e5048 100644
--- a/pvfactors/viewfactors/calculator.py
+++ b/pvfactors/viewfactors/calculator.py
@@ -153,7 +153,7 @@ class VFCalculator(object):
         n_ts_surfaces = pvarray.n_ts_surfaces
         vf_aoi_matrix = np.zeros(
             (n_ts_surfaces + 1, n_ts_surfaces + 1, n_steps),
-            dtype=float) if self.vf_matrix is None else self.vf_matrix
+            dtype=float) if self.vf_matrix is None else self.vf_matrix.copy()
 
         # Get timeseries objects
         ts_ground = pvarray.ts_ground
-- 
2.43.0


From 2199ffe22371d5e96a3a1c35d86cb53a3fdf4ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:42 +0000
Subject: [PATCH 04/17] fix: clip solar zenith when calculating back surface
 circumsolar irradiance

Close to sunrise and sunset the back surface circumsolar irradiance was divided
by a vanishing cos(zenith) and went to infinity; the front surface uses the
clipped value from pvlib.
---
 pvfactors/irradiance/models.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pvfactors/irradiance/models.py b/pvfactors/irradiance/models.py
index 904c44c..24c57f2 100644
--- a/pvfactors/irradiance/models.py
+++ b/pvfactors/irradiance/models.py
@@ -1005,8 +1005,9 @@ class HybridPerezOrdered(BaseModel):
         aoi_back_pvrow = 180. - aoi_front_pvrow
 
         # Will be used for back surface adjustments: from Perez model
-        # FIXME: pvlib clips the angle values to calculate vf -> adjust here
-        vf_circumsolar_backsurface = cosd(aoi_back_pvrow) / cosd(solar_zenith)
+        # pvlib clips the zenith values to calculate vf -> do the same here
+        vf_circumsolar_backsurface = (
+            cosd(aoi_back_pvrow) / np.maximum(cosd(solar_zenith), cosd(85)))
         poa_circumsolar_back = (luminance_circumsolar
                                 * vf_circumsolar_backsurface)
 
-- 
2.43.0


From 20025275e8286a64d4fd81de18453711008523fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:42 +0000
Subject: [PATCH 05/17] fix: let rho initialization work without fAOI functions

PVEngine.with_rho_initialization raised an AttributeError when the VF
calculator had no fAOI functions, instead of using the given or default rho.
---
 pvfactors/engine.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pvfactors/engine.py b/pvfactors/engine.py
index 9d8b252..a920f4c 100644
--- a/pvfactors/engine.py
+++ b/pvfactors/engine.py
@@ -87,12 +87,16 @@ class PVEngine(object):
             PV engine where the rho values have been initialized
         """
         # Calculate global average reflectivity using VF calculator
-        is_back = False
-        rho_front_calculated = (vf_calculator.vf_aoi_methods
-                                .rho_from_faoi_fn(is_back))
-        is_back = True
-        rho_back_calculated = (vf_calculator.vf_aoi_methods
-                               .rho_from_faoi_fn(is_back))
+        # (only possible when the VF calculator has fAOI functions)
+        rho_front_calculated = None
+        rho_back_calculated = None
+        if vf_calculator.vf_aoi_methods is not None:
+            is_back = False
+            rho_front_calculated = (vf_calculator.vf_aoi_methods
+                                    .rho_from_faoi_fn(is_back))
+            is_back = True
+            rho_back_calculated = (vf_calculator.vf_aoi_methods
+                                   .rho_from_faoi_fn(is_back))
         # Initialize rho values for irradiance model
         irradiance_model.rho_front = irradiance_model.initialize_rho(
             irradiance_model.rho_front, rho_front_calculated,
-- 
2.43.0


From b0cc165bb865c71fb594c84dda7e5dccc61ba69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:42 +0000
Subject: [PATCH 06/17] fix: count direct light through the modules on shaded
 fronts in isotropic model

IsotropicOrdered ignored module transparency and spacing in the total irradiance
of shaded front surfaces (used by the fast mode), unlike its own ground values
and unlike HybridPerezOrdered.
---
 pvfactors/irradiance/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvfactors/irradiance/models.py b/pvfactors/irradiance/models.py
index 24c57f2..8ce6cef 100644
--- a/pvfactors/irradiance/models.py
+++ b/pvfactors/irradiance/models.py
@@ -180,7 +180,8 @@ class IsotropicOrdered(BaseModel):
         self.total_perez['front_illum_pvrow'] = perez_front_pvrow['poa_global']
         self.total_perez['front_shaded_pvrow'] = (
             self.total_perez['front_illum_pvrow']
-            - self.direct['front_illum_pvrow'])
+            - self.direct['front_illum_pvrow']
+            + self.direct['front_shaded_pvrow'])
         self.total_perez['ground_shaded'] = (self.DHI
                                              + self.direct['ground_shaded'])
 
-- 
2.43.0


From 07042d008d5073f6689e38fc4e282b883e1424d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:08 +0000
Subject: [PATCH 07/17] fix: do not share default shade collections between PV
 segments

The default collections were created once, so casting a shadow on one segment
added the shaded surface to every other segment built with the defaults.
---
 pvfactors/geometry/base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 25a5324..a136cb2 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -609,8 +609,8 @@ class PVSegment(GeometryCollection):
     call basic geometrical methods and properties on it, eg call length, etc.
     """
 
-    def __init__(self, illum_collection=ShadeCollection(shaded=False),
-                 shaded_collection=ShadeCollection(shaded=True), index=None):
+    def __init__(self, illum_collection=None, shaded_collection=None,
+                 index=None):
         """Initialize PV segment.
 
         Parameters
@@ -626,6 +626,10 @@ class PVSegment(GeometryCollection):
         index : int, optional
             Index of the PV segment (Default = None)
         """
+        if illum_collection is None:
+            illum_collection = ShadeCollection(shaded=False)
+        if shaded_collection is None:
+            shaded_collection = ShadeCollection(shaded=True)
         assert shaded_collection.shaded, "surface should be shaded"
         assert not illum_collection.shaded, "surface should not be shaded"
         self._check_collinear(illum_collection, shaded_collection)
-- 
2.43.0


From ee035ab4c1b8942999e04a1ba199371a81a59c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:08 +0000
Subject: [PATCH 08/17] fix: list the current surfaces after shadows or cuts
 were applied

all_surfaces was cached at first use in PVSegment, BaseSide and PVRow, and kept
returning surfaces that cast_shadow, cut_at_point or merge had replaced.
---
 pvfactors/geometry/base.py  | 18 ++++++------------
 pvfactors/geometry/pvrow.py |  7 +------
 2 files changed, 7 insertions(+), 18 deletions(-)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index a136cb2..037937e 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -636,7 +636,6 @@ class PVSegment(GeometryCollection):
         self._shaded_collection = shaded_collection
         self._illum_collection = illum_collection
         self.index = index
-        self._all_surfaces = None
         super(PVSegment, self).__init__([self._shaded_collection,
                                          self._illum_collection])
 
@@ -917,11 +916,8 @@ class PVSegment(GeometryCollection):
         list of :py:class:`~pvfactors.geometry.base.PVSurface`
             PV surfaces in the PV segment
         """
-        if self._all_surfaces is None:
-            self._all_surfaces = []
-            self._all_surfaces += self._illum_collection.list_surfaces
-            self._all_surfaces += self._shaded_collection.list_surfaces
-        return self._all_surfaces
+        return (self._illum_collection.list_surfaces
+                + self._shaded_collection.list_surfaces)
 
 
 class BaseSide(GeometryCollection):
@@ -939,7 +935,6 @@ class BaseSide(GeometryCollection):
         list_segments = [] if list_segments is None else list_segments
         check_collinear(list_segments)
         self.list_segments = tuple(list_segments)
-        self._all_surfaces = None
         super(BaseSide, self).__init__(list_segments)
 
     @classmethod
@@ -1012,11 +1007,10 @@ class BaseSide(GeometryCollection):
     @property
     def all_surfaces(self):
         """List of all surfaces in the Side object."""
-        if self._all_surfaces is None:
-            self._all_surfaces = []
-            for segment in self.list_segments:
-                self._all_surfaces += segment.all_surfaces
-        return self._all_surfaces
+        all_surfaces = []
+        for segment in self.list_segments:
+            all_surfaces += segment.all_surfaces
+        return all_surfaces
 
     @property
     def surface_indices(self):
diff --git a/pvfactors/geometry/pvrow.py b/pvfactors/geometry/pvrow.py
index 66fe966..2a61f4a 100644
--- a/pvfactors/geometry/pvrow.py
+++ b/pvfactors/geometry/pvrow.py
@@ -695,7 +695,6 @@ class PVRow(GeometryCollection):
         self.back = back_side
         self.index = index
         self.original_linestring = original_linestring
-        self._all_surfaces = None
         super(PVRow, self).__init__([self.front, self.back])
 
     @classmethod
@@ -832,11 +831,7 @@ class PVRow(GeometryCollection):
     @property
     def all_surfaces(self):
         """List of all the surfaces in the PV row."""
-        if self._all_surfaces is None:
-            self._all_surfaces = []
-            self._all_surfaces += self.front.all_surfaces
-            self._all_surfaces += self.back.all_surfaces
-        return self._all_surfaces
+        return self.front.all_surfaces + self.back.all_surfaces
 
     @property
     def surface_indices(self):
-- 
2.43.0


From 8b13dff63b8a24801ceb50acf36772b5257ea8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:08 +0000
Subject: [PATCH 09/17] fix: allow casting a shadow across an already shaded
 area

PVSegment.cast_shadow raised NotImplementedError when the shadow covered two
illuminated surfaces separated by a shaded one.
---
 pvfactors/geometry/base.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 037937e..e6cedff 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -706,11 +706,12 @@ class PVSegment(GeometryCollection):
         if not intersection.is_empty:
             # Split up only if interesects the illuminated collection
             # print(intersection)
-            self._shaded_collection.add_linestring(intersection,
-                                                   normal_vector=self.n_vector)
-            # print(self._shaded_collection.length)
-            self._illum_collection.remove_linestring(intersection)
-            # print(self._illum_collection.length)
+            # There are several lines if part of it was already shaded
+            n_vector = self.n_vector
+            for line in getattr(intersection, 'geoms', [intersection]):
+                self._shaded_collection.add_linestring(
+                    line, normal_vector=n_vector)
+                self._illum_collection.remove_linestring(line)
             super(PVSegment, self).__init__([self._shaded_collection,
                                              self._illum_collection])
 
-- 
2.43.0


From 20af6a3b9b524613ec3136ac77b14fce4a21f85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:08 +0000
Subject: [PATCH 10/17] fix: an empty geometry does not contain any point

The shapely distance to an empty geometry is 0, so cutting a fully shaded
segment at a point was attempted on its empty illuminated collection only.
---
 pvfactors/geometry/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvfactors/geometry/utils.py b/pvfactors/geometry/utils.py
index 8025768..41195ec 100644
--- a/pvfactors/geometry/utils.py
+++ b/pvfactors/geometry/utils.py
@@ -73,7 +73,8 @@ def difference(u, v):
 
 def contains(linestring, point, tol_distance=DISTANCE_TOLERANCE):
     """Fixing floating point errors obtained in shapely for contains"""
-    return linestring.distance(point) < tol_distance
+    return (not linestring.is_empty
+            and linestring.distance(point) < tol_distance)
 
 
 def is_collinear(list_elements):
-- 
2.43.0


From 1ac186321b7e9abe74e3feaeecf3e066ef1a942f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:08 +0000
Subject: [PATCH 11/17] fix: merge surfaces that go down from left to right

ShadeCollection.merge_surfaces always used the rising diagonal of the bounds, so
merging surfaces of PV rows tilted to the right gave a line perpendicular-ish to
the original ones.
---
 pvfactors/geometry/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index e6cedff..04173a8 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -466,6 +466,10 @@ class ShadeCollection(GeometryCollection):
             merged_lines = linemerge(self.list_surfaces)
             minx, miny, maxx, maxy = merged_lines.bounds
             surf_1 = self.list_surfaces[0]
+            (x1, y1), (x2, y2) = surf_1.coords[0], surf_1.coords[-1]
+            if (x2 - x1) * (y2 - y1) < 0:
+                # surfaces are going down from left to right
+                miny, maxy = maxy, miny
             new_pvsurf = PVSurface(
                 coords=[(minx, miny), (maxx, maxy)],
                 shaded=self.shaded, normal_vector=surf_1.n_vector,
-- 
2.43.0


From d1ccb91c9be8b48a4a3bf1f76ddea335c6f13be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:13 +0000
Subject: [PATCH 12/17] fix: make get_full_modeling_vectors work

It called get_modeling_vectors, which no longer exists, and always raised an
AttributeError; it now returns the requested column of the timeseries vectors.
---
 pvfactors/irradiance/models.py | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/pvfactors/irradiance/models.py b/pvfactors/irradiance/models.py
index 8ce6cef..a21ce5a 100644
--- a/pvfactors/irradiance/models.py
+++ b/pvfactors/irradiance/models.py
@@ -277,17 +277,12 @@ class IsotropicOrdered(BaseModel):
             List of total perez transposed irradiance values for all surfaces
             and sky
         """
-        # Sum up the necessary parameters to form the irradiance vector
-        irradiance_vec, rho_vec, inv_rho_vec, total_perez_vec = \
-            self.get_modeling_vectors(pvarray)
-        # Add sky values
-        irradiance_vec.append(self.isotropic_luminance[idx])
-        total_perez_vec.append(self.isotropic_luminance[idx])
-        rho_vec.append(SKY_REFLECTIVITY_DUMMY)
-        inv_rho_vec.append(SKY_REFLECTIVITY_DUMMY)
+        # Select the requested index in the timeseries modeling matrices
+        irradiance_mat, rho_mat, inv_rho_mat, total_perez_mat = \
+            self.get_full_ts_modeling_vectors(pvarray)
 
-        return np.array(irradiance_vec), np.array(rho_vec), \
-            np.array(inv_rho_vec), np.array(total_perez_vec)
+        return irradiance_mat[:, idx], rho_mat[:, idx], \
+            inv_rho_mat[:, idx], total_perez_mat[:, idx]
 
     def get_full_ts_modeling_vectors(self, pvarray):
         """Get the modeling vectors used in matrix calculations of
@@ -772,16 +767,12 @@ class HybridPerezOrdered(BaseModel):
             and sky
         """
 
-        # Sum up the necessary parameters to form the irradiance vector
-        irradiance_vec, rho_vec, inv_rho_vec, total_perez_vec = self.get_modeling_vectors(pvarray)
-        # Add sky values
-        irradiance_vec.append(self.isotropic_luminance[idx])
-        total_perez_vec.append(self.isotropic_luminance[idx])
-        rho_vec.append(SKY_REFLECTIVITY_DUMMY)
-        inv_rho_vec.append(SKY_REFLECTIVITY_DUMMY)
+        # Select the requested index in the timeseries modeling matrices
+        irradiance_mat, rho_mat, inv_rho_mat, total_perez_mat = \
+            self.get_full_ts_modeling_vectors(pvarray)
 
-        return np.array(irradiance_vec), np.array(rho_vec), \
-            np.array(inv_rho_vec), np.array(total_perez_vec)
+        return irradiance_mat[:, idx], rho_mat[:, idx], \
+            inv_rho_mat[:, idx], total_perez_mat[:, idx]
 
     def get_full_ts_modeling_vectors(self, pvarray):
         """Get the modeling vectors used in matrix calculations of
-- 
2.43.0


From 0b273bbd4ef0e18b9e03a6d61e3e3299ecc5c0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:57 +0000
Subject: [PATCH 13/17] fix: nothing is left of a line that another line covers

---
 pvfactors/geometry/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pvfactors/geometry/utils.py b/pvfactors/geometry/utils.py
index 41195ec..5cec625 100644
--- a/pvfactors/geometry/utils.py
+++ b/pvfactors/geometry/utils.py
@@ -67,6 +67,8 @@ def difference(u, v):
             return LineString([ub1, vb2])
         else:
             return u
+    elif v_contains_ub1 and v_contains_ub2:
+        return LineString()
     else:
         return u
 
-- 
2.43.0


From 027e5f024ab953195835d2fd3c388431b133c0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:45 +0000
Subject: [PATCH 14/17] fix: a shadow that only touches a segment leaves no
 shade

---
 pvfactors/geometry/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 04173a8..7bcb582 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -713,6 +713,9 @@ class PVSegment(GeometryCollection):
             # There are several lines if part of it was already shaded
             n_vector = self.n_vector
             for line in getattr(intersection, 'geoms', [intersection]):
+                if line.length < 4 * DISTANCE_TOLERANCE:
+                    # Shadow only touches the surface, up to the buffer size
+                    continue
                 self._shaded_collection.add_linestring(
                     line, normal_vector=n_vector)
                 self._illum_collection.remove_linestring(line)
-- 
2.43.0


From 67bd9c0b5bd5985e0b8d6749af1cd9d6a9ba12bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:18 +0000
Subject: [PATCH 15/17] fix: treat tilts within floating point precision of
 zero as flat

---
 pvfactors/geometry/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 7bcb582..86b304a 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -122,7 +122,9 @@ def _get_rotation_from_tilt_azimuth(surface_azimuth, axis_azimuth, tilt):
     # Calculate rotation of PV row (signed tilt angle)
     is_pointing_right = ((surface_azimuth - axis_azimuth) % 360.) > 180.
     rotation = np.where(is_pointing_right, tilt, -tilt).astype(float)
-    rotation[tilt == 0] = -0.0  # GH 125
+    # Flat within floating point precision: the sign of the rotation would not
+    # agree with the heights of the ends of the PV rows
+    rotation[np.abs(tilt) < 1e-8] = -0.0  # GH 125
     return rotation
 
 
-- 
2.43.0


From d03fcb97227dd9bc73e46bbcf09f2c4009fed5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:44 +0000
Subject: [PATCH 16/17] fix: Perez circumsolar when the sun is in the plane of
 the PV rows

---
 pvfactors/irradiance/utils.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pvfactors/irradiance/utils.py b/pvfactors/irradiance/utils.py
index b25a582..48cf789 100644
--- a/pvfactors/irradiance/utils.py
+++ b/pvfactors/irradiance/utils.py
@@ -67,7 +67,9 @@ def perez_diffuse_luminance(timestamps, surface_tilt, surface_azimuth,
     aoi_proj = irradiance.aoi_projection(
         df_inputs.surface_tilt, df_inputs.surface_azimuth,
         df_inputs.solar_zenith, df_inputs.solar_azimuth)
-    sun_hitting_back_surface = ((aoi_proj < 0) &
+    # (when the sun is in the plane of the surface, rounding errors decide on
+    # the sign of the projection)
+    sun_hitting_back_surface = ((aoi_proj < -1e-12) &
                                 (df_inputs.solar_zenith <= 90))
     df_inputs_back_surface = df_inputs.loc[sun_hitting_back_surface].copy()
     # Reverse the surface normal to switch to back-surface circumsolar calc
@@ -122,6 +124,11 @@ def perez_diffuse_luminance(timestamps, surface_tilt, surface_azimuth,
         columns=['luminance_horizon', 'luminance_circumsolar',
                  'luminance_isotropic']
     )
+    # No circumsolar irradiance to get luminance from if sun in surface plane
+    luminance['luminance_circumsolar'] = np.where(
+        vf_perez['vf_circumsolar'] == 0,
+        df_inputs['dhi'] - luminance['luminance_isotropic'],
+        luminance['luminance_circumsolar'])
     luminance.loc[components['sky_diffuse'] == 0, :] = 0.
 
     # Format components column names
-- 
2.43.0


From 1ca0bd1e33cda5b756bd6613d56fe2e01c79bf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:38 +0000
Subject: [PATCH 17/17] fix: surfaces built from the same parameters do not
 share them

---
 pvfactors/geometry/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 86b304a..53eac1f 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -201,7 +201,8 @@ class BaseSurface(LineString):
             self.n_vector = np.array(normal_vector)
         self.index = index
         self.param_names = param_names
-        self.params = params if params is not None \
+        # Surfaces can be built from the same parameters: do not share them
+        self.params = dict(params) if params is not None \
             else dict.fromkeys(self.param_names)
 
     def _calculate_n_vector(self):
-- 
2.43.0

