From 9da16cb1217619127fc5628f71f16b0822ba9367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:52 +0000
Subject: [PATCH 01/53] fix: FineCoarse.set_proportions_list_of_vectors raises
 the intended assertion for a wrong number of proportions

---
 resqpy/olio/fine_coarse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/olio/fine_coarse.py b/resqpy/olio/fine_coarse.py
index d0301e2..e6d6409 100644
--- a/resqpy/olio/fine_coarse.py
+++ b/resqpy/olio/fine_coarse.py
@@ -287,7 +287,7 @@ class FineCoarse:
             if isinstance(vector, list) or isinstance(vector, tuple):
                 vector = np.array(vector)
             assert isinstance(vector, np.ndarray) and vector.ndim == 1
-            assert len(vector) == count, 'wrong number of proportions for axis: ' + str(axis) + ' slice(0): ' + c0
+            assert len(vector) == count, 'wrong number of proportions for axis: ' + str(axis) + ' slice(0): ' + str(c0)
             assert not np.any(np.isnan(vector))
             assert np.all(vector > 0)
             total = float(np.sum(vector))
-- 
2.43.0


From 89d569f6e4d0c9f037861f35156b18742410c43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:55 +0000
Subject: [PATCH 02/53] fix: switch_axes composes the axis reordering matrices
 in the right order when neither order is easting northing

---
 resqpy/crs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/crs.py b/resqpy/crs.py
index d8366e4..322633a 100644
--- a/resqpy/crs.py
+++ b/resqpy/crs.py
@@ -537,13 +537,13 @@ class Crs(BaseResqpy):
 
 def switch_axes(from_order, to_order, x, y):
     """Return x, y pair converting from one axis order to another."""
-    matrix = np.matmul(axis_reordering[to_order].T, axis_reordering[from_order])
+    matrix = np.matmul(axis_reordering[from_order], axis_reordering[to_order].T)
     return tuple(np.matmul(np.array((x, y), dtype = float), matrix))
 
 
 def switch_axes_array(from_order, to_order, xyz_array):
     """Modify x & y values of array in situ, converting from one axis order to another."""
-    matrix = np.matmul(axis_reordering[to_order].T, axis_reordering[from_order])
+    matrix = np.matmul(axis_reordering[from_order], axis_reordering[to_order].T)
     assert xyz_array.shape[-1] in [2, 3]
     xy = np.matmul(xyz_array[..., :2], matrix)
     xyz_array[..., :2] = xy
-- 
2.43.0


From 88a3776aad4e13112a6fce2aa3a83a55e4f920d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:55 +0000
Subject: [PATCH 03/53] fix: Crs.is_equivalent takes account of rotation units
 when comparing rotations

---
 resqpy/crs.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/resqpy/crs.py b/resqpy/crs.py
index 322633a..0a5a2bc 100644
--- a/resqpy/crs.py
+++ b/resqpy/crs.py
@@ -317,9 +317,14 @@ class Crs(BaseResqpy):
         if (maths.isclose(self.x_offset, other_crs.x_offset, abs_tol = 1e-4) and
                 maths.isclose(self.y_offset, other_crs.y_offset, abs_tol = 1e-4) and
                 maths.isclose(self.z_offset, other_crs.z_offset, abs_tol = 1e-4) and
-                maths.isclose(self.rotation, other_crs.rotation, abs_tol = 1e-4)):
+                maths.isclose(self.rotation,
+                              wam.convert(other_crs.rotation,
+                                          other_crs.rotation_units,
+                                          self.rotation_units,
+                                          quantity = 'plane angle'),
+                              abs_tol = 1e-4)):
             return True
-        # todo: handle and check rotation units; modularly equivalent rotations
+        # todo: modularly equivalent rotations
         return False
 
     def convert_to(self, other_crs: 'Crs', xyz: PointType) -> Tuple[float, float, float]:
-- 
2.43.0


From 9d58cf1cb4e8dcb7b65ed76291fc174b2e7773c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 04/53] fix: unit_vectors no longer zeroes whole rows of a 3D
 array because of one zero vector

---
 resqpy/olio/vector_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/olio/vector_utilities.py b/resqpy/olio/vector_utilities.py
index 1548e83..61f09cd 100644
--- a/resqpy/olio/vector_utilities.py
+++ b/resqpy/olio/vector_utilities.py
@@ -97,7 +97,7 @@ def unit_vectors(v):
     """Returns vectors with same direction as those in v but with unit length."""
     scaling = np.sqrt(np.sum(v * v, axis = -1))
     zero_mask = np.zeros(v.shape, dtype = bool)
-    zero_mask[np.where(scaling == 0.0), :] = True
+    zero_mask[scaling == 0.0] = True
     restore = np.seterr(all = 'ignore')
     result = np.where(zero_mask, 0.0, v / np.expand_dims(scaling, -1))
     np.seterr(**restore)
-- 
2.43.0


From fbb1ddf945b338af63786c7318b980e6173e6645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 05/53] fix: planar_face_points tilts an inclined face into the
 horizontal plane the right way round

---
 resqpy/unstructured/_unstructured_grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/unstructured/_unstructured_grid.py b/resqpy/unstructured/_unstructured_grid.py
index 4611a63..2684ced 100644
--- a/resqpy/unstructured/_unstructured_grid.py
+++ b/resqpy/unstructured/_unstructured_grid.py
@@ -691,11 +691,11 @@ class UnstructuredGrid(BaseResqpy):
         normal = self.face_normal(face_index)
         az = vec.azimuth(normal)
         incl = vec.inclination(normal)
-        vec.tilt_points(face_centre, az, -incl, face_points)  # modifies face_points in situ
+        vec.tilt_points(face_centre, az, incl, face_points)  # modifies face_points in situ
         face_points[..., 2] = 0.0
         if not xy_plane:
             face_centre[2] = 0.0
-            vec.tilt_points(face_centre, az, incl, face_points)  # tilt back to original average normal
+            vec.tilt_points(face_centre, az, -incl, face_points)  # tilt back to original average normal
             if crs.xy_units != crs.z_units:
                 wam.convert_lengths(face_points[:, 2], crs.xy_units, crs.z_units)
             face_points[..., 2] += z_centre
-- 
2.43.0


From ddea9d3c85a2979b2a0ea5fd6e8786dc2f782ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:13 +0000
Subject: [PATCH 06/53] fix: _nanmax and _nanmin ignore a NaN which comes first

---
 resqpy/olio/vector_utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/olio/vector_utilities.py b/resqpy/olio/vector_utilities.py
index 61f09cd..60040ce 100644
--- a/resqpy/olio/vector_utilities.py
+++ b/resqpy/olio/vector_utilities.py
@@ -1540,7 +1540,7 @@ def _nanmax(array):  # pragma: no cover
         col_array = array[:, col]
         max_val = col_array[0]
         for val in col_array:
-            if val > max_val and not np.isnan(val):
+            if val > max_val or np.isnan(max_val):
                 max_val = val
         max_array[col] = max_val
     return max_array
@@ -1555,7 +1555,7 @@ def _nanmin(array):  # pragma: no cover
         col_array = array[:, col]
         min_val = col_array[0]
         for val in col_array:
-            if val < min_val and not np.isnan(val):
+            if val < min_val or np.isnan(min_val):
                 min_val = val
         min_array[col] = min_val
     return min_array
-- 
2.43.0


From 23901fe7ee7784249c2b18a2b926aa6f15c49108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:27 +0000
Subject: [PATCH 07/53] fix: closest time stamp when the first is the last not
 later

---
 resqpy/time_series/_time_series.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/time_series/_time_series.py b/resqpy/time_series/_time_series.py
index e7cdb74..dacd61e 100644
--- a/resqpy/time_series/_time_series.py
+++ b/resqpy/time_series/_time_series.py
@@ -138,7 +138,7 @@ class TimeSeries(ats.AnyTimeSeries):
         if not self.timestamps:
             return None
         before = self.index_for_timestamp_not_later_than(timestamp)
-        if not before:
+        if before is None:
             return 0
         if before == len(self.timestamps) - 1 or self.timestamps[before] == timestamp:
             return before
-- 
2.43.0


From 8321f35d51566924c89d41cb00059ce0de19b864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:06 +0000
Subject: [PATCH 08/53] fix: simplified and cleaned time stamps for geologic
 years

---
 resqpy/time_series/_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/time_series/_functions.py b/resqpy/time_series/_functions.py
index a5b779e..182dbff 100644
--- a/resqpy/time_series/_functions.py
+++ b/resqpy/time_series/_functions.py
@@ -35,7 +35,7 @@ def simplified_timestamp(timestamp):
     if timestamp is None:
         return None
     if isinstance(timestamp, int):
-        return geologic_time_str(int)
+        return geologic_time_str(timestamp)
     timestamp = cleaned_timestamp(timestamp)
     if len(timestamp) > 10:
         timestamp = timestamp[:10] + ' ' + timestamp[11:]
@@ -48,7 +48,7 @@ def cleaned_timestamp(timestamp):
     if timestamp is None:
         return None
     if isinstance(timestamp, int):
-        return geologic_time_str(int)
+        return geologic_time_str(timestamp)
     timestamp = str(timestamp)
     rqts.check_timestamp(timestamp)
     if len(timestamp) < 19 or timestamp[11:19] == '00:00:00':
-- 
2.43.0


From 7a02aadae88834638782201a48d058f275b355bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:12 +0000
Subject: [PATCH 09/53] fix: sign of the bilinear face correction in hexahedral
 cell volumes

The volume of a cell with non-planar faces was neither that beneath the
bilinear faces nor within the range of the two triangulations of each face:
a unit cube with one top corner raised by 1 gave 1.4167 or 1.0833, not 1.25.
The pyramid volumes were already right and are unchanged.
---
 resqpy/olio/volume.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/resqpy/olio/volume.py b/resqpy/olio/volume.py
index 33ba4b5..22c023f 100644
--- a/resqpy/olio/volume.py
+++ b/resqpy/olio/volume.py
@@ -4,7 +4,7 @@ import numpy as np
 
 
 def _pyr(ra, ab, ac, ad, db):  # returns 6 * volume of one quad pyramid, defined by specific vectors
-    return np.dot(ra, np.cross(db, ac)) + 0.5 * np.dot(ac, np.cross(ad, ab))
+    return np.dot(ra, np.cross(db, ac)) - 0.5 * np.dot(ac, np.cross(ad, ab))
 
 
 def pyramid_volume(apex, a, b, c, d, crs_is_right_handed = False):
@@ -25,8 +25,8 @@ def pyramid_volume(apex, a, b, c, d, crs_is_right_handed = False):
     b = np.array(b)
     c = np.array(c)
     d = np.array(d)
-    v = _pyr(a - apex, b - a, c - a, d - a, b - d) / 6.0
-    if not crs_is_right_handed:
+    v = _pyr(a - apex, b - a, c - a, d - a, d - b) / 6.0
+    if crs_is_right_handed:
         v = -v
     return v
 
@@ -115,7 +115,7 @@ def tetra_volumes(cp, centres = None, off_hand = False):
     """
 
     def pyrs(ra, ab, ac, ad, db):  # returns 6 * volume of one quad pyramid (for each cell)
-        return np.sum(ra * np.cross(db, ac), axis = -1) + 0.5 * np.sum(ac * np.cross(ad, ab), axis = -1)
+        return np.sum(ra * np.cross(db, ac), axis = -1) - 0.5 * np.sum(ac * np.cross(ad, ab), axis = -1)
 
     # Pagoda style corner point data
     assert cp.ndim == 7
-- 
2.43.0


From 251727ea433873fe41654e614c3c079a37555f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:05 +0000
Subject: [PATCH 10/53] fix: grid volumes no longer converted in place when
 asked for in other units

The array had been returned to an earlier caller, or belonged to a property whose
values were changed without its unit of measure.
---
 resqpy/grid/_cell_properties.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/grid/_cell_properties.py b/resqpy/grid/_cell_properties.py
index d7ca8da..582bf5c 100644
--- a/resqpy/grid/_cell_properties.py
+++ b/resqpy/grid/_cell_properties.py
@@ -190,7 +190,8 @@ def volume(grid,
 
     if hasattr(grid, 'array_volume'):
         if required_uom != grid.array_volume_uom:
-            grid.array_volume = wam.convert_volumes(grid.array_volume, grid.array_volume_uom, required_uom)
+            grid.array_volume = wam.convert_volumes(grid.array_volume.copy(), grid.array_volume_uom,
+                                                    required_uom)
             grid.array_volume_uom = required_uom
         if cell_kji0 is None:
             return grid.array_volume
-- 
2.43.0


From d6531278355708fdeef023d0116fab59c7c9b92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:05 +0000
Subject: [PATCH 11/53] fix: thickness of a cell from a property, without
 caching

---
 resqpy/grid/_cell_properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid/_cell_properties.py b/resqpy/grid/_cell_properties.py
index 582bf5c..f9101de 100644
--- a/resqpy/grid/_cell_properties.py
+++ b/resqpy/grid/_cell_properties.py
@@ -85,7 +85,7 @@ def thickness(grid,
             grid.array_thickness = thick.copy()
         if cell_kji0 is None:
             return grid.array_thickness
-        return grid.array_thickness[tuple(cell_kji0)]  # could check for nan here and return None
+        return thick[tuple(cell_kji0)]  # could check for nan here and return None
 
     points_root = grid.resolve_geometry_child('Points', child_node = points_root)
     if cache_thickness_array:
-- 
2.43.0


From 0ca7b6ea52afc31b1a79401c38dc00868bed1d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:05 +0000
Subject: [PATCH 12/53] fix: single cell without defined geometry is pinched
 out, as it is when cached

---
 resqpy/grid/_cell_properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid/_cell_properties.py b/resqpy/grid/_cell_properties.py
index f9101de..2f6e756 100644
--- a/resqpy/grid/_cell_properties.py
+++ b/resqpy/grid/_cell_properties.py
@@ -314,7 +314,7 @@ def pinched_out(grid,
             return grid.pinchout
         return grid.pinchout[tuple(cell_kji0)]
     if thick is not None:
-        return thick <= tolerance
+        return not (thick > tolerance)  # NaN (undefined geometry) is treated as pinched out
     return None
 
 
-- 
2.43.0


From 892560877534dc974eb4c938955e4ca91c85bb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:05 +0000
Subject: [PATCH 13/53] fix: inactive cells from pore volumes

---
 resqpy/grid/_cell_properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid/_cell_properties.py b/resqpy/grid/_cell_properties.py
index 2f6e756..a12c48f 100644
--- a/resqpy/grid/_cell_properties.py
+++ b/resqpy/grid/_cell_properties.py
@@ -327,7 +327,7 @@ def cell_inactive(grid, cell_kji0, pv_array = None, pv_tol = 0.01):
     if grid.inactive is not None:
         return grid.inactive[tuple(cell_kji0)]
     if pv_array is not None:  # fabricate an inactive mask from pore volume data
-        grid.inactive = not (pv_array > pv_tol)  # NaN in pv array will end up inactive
+        grid.inactive = np.logical_not(pv_array > pv_tol)  # NaN in pv array will end up inactive
         return grid.inactive[tuple(cell_kji0)]
     return ((not grr_dg.cell_geometry_is_defined(grid, cell_kji0 = cell_kji0)) or
             grid.pinched_out(cell_kji0, cache_pinchout_array = True))
-- 
2.43.0


From 4924db79d9234caaf18e5575821f35af59a0fec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:05 +0000
Subject: [PATCH 14/53] fix: composite_bounding_box() leaves the first of the
 boxes alone

---
 resqpy/grid/_xyz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid/_xyz.py b/resqpy/grid/_xyz.py
index ad05335..07e27b0 100644
--- a/resqpy/grid/_xyz.py
+++ b/resqpy/grid/_xyz.py
@@ -97,7 +97,7 @@ def bounding_box(grid, cell_kji0, points_root = None, cache_cp_array = False):
 def composite_bounding_box(grid, bounding_box_list):
     """Returns the xyz box which envelopes all the boxes in the list, as a numpy array of shape (2, 3)."""
 
-    result = bounding_box_list[0]
+    result = bounding_box_list[0].copy()
     for box in bounding_box_list[1:]:
         result[0] = np.minimum(result[0], box[0])
         result[1] = np.maximum(result[1], box[1])
-- 
2.43.0


From 2472aba9d86ed9eaa20a4e57fbc064aece014f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:05 +0000
Subject: [PATCH 15/53] fix: flipped I edges of cells are noticed between the
 top and base of a grid

---
 resqpy/grid/_xyz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid/_xyz.py b/resqpy/grid/_xyz.py
index 07e27b0..6a14873 100644
--- a/resqpy/grid/_xyz.py
+++ b/resqpy/grid/_xyz.py
@@ -254,7 +254,7 @@ def check_top_and_base_cell_edge_directions(grid):
     # check direction of top edges against corresponding base edges, tolerate upto 90 degree difference
     dot_j = np.sum(top_j_edge_vectors * base_j_edge_vectors, axis = 2)
     dot_i = np.sum(top_i_edge_vectors * base_i_edge_vectors, axis = 2)
-    if not np.all(dot_j >= 0.0) and np.all(dot_i >= 0.0):
+    if not (np.all(dot_j >= 0.0) and np.all(dot_i >= 0.0)):
         log.warning('one or more columns of cell edges flip direction: this grid is probably unusable')
         good = False
     log.debug('checking relative direction of edges in neighbouring cells at top of grid (and base)')
-- 
2.43.0


From 8adabea5af363ffbf3e36d1984d711ba214515e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:05 +0000
Subject: [PATCH 16/53] fix: flipped I edges of neighbouring cells are noticed

---
 resqpy/grid/_xyz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/grid/_xyz.py b/resqpy/grid/_xyz.py
index 6a14873..a0d16f3 100644
--- a/resqpy/grid/_xyz.py
+++ b/resqpy/grid/_xyz.py
@@ -261,12 +261,12 @@ def check_top_and_base_cell_edge_directions(grid):
     # check direction of similar edges on neighbouring cells, tolerate upto 90 degree difference
     dot_jp = np.sum(top_j_edge_vectors[1:, :, :] * top_j_edge_vectors[:-1, :, :], axis = 2)
     dot_ip = np.sum(top_i_edge_vectors[1:, :, :] * top_i_edge_vectors[:-1, :, :], axis = 2)
-    if not np.all(dot_jp >= 0.0) and np.all(dot_ip >= 0.0):
+    if not (np.all(dot_jp >= 0.0) and np.all(dot_ip >= 0.0)):
         log.warning('top cell edges for neighbouring cells flip direction somewhere: this grid is probably unusable')
         good = False
     dot_jp = np.sum(base_j_edge_vectors[1:, :, :] * base_j_edge_vectors[:-1, :, :], axis = 2)
     dot_ip = np.sum(base_i_edge_vectors[1:, :, :] * base_i_edge_vectors[:-1, :, :], axis = 2)
-    if not np.all(dot_jp >= 0.0) and np.all(dot_ip >= 0.0):
+    if not (np.all(dot_jp >= 0.0) and np.all(dot_ip >= 0.0)):
         log.warning('base cell edges for neighbouring cells flip direction somewhere: this grid is probably unusable')
         good = False
     return good
-- 
2.43.0


From d68cc162974bb25e0c62dc9ab8539d9837833c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:59 +0000
Subject: [PATCH 17/53] fix: undefined pillars of a grid with split coordinate
 lines

The flag of a pillar other than the one asked for was inspected, as the pillar
index was split using the number of columns rather than of pillars in a row.
---
 resqpy/grid/_points_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/grid/_points_functions.py b/resqpy/grid/_points_functions.py
index 26ccc95..1c932cf 100644
--- a/resqpy/grid/_points_functions.py
+++ b/resqpy/grid/_points_functions.py
@@ -158,8 +158,8 @@ def point_raw(grid, index = None, points_root = None, cache_array = True):
         if len(index) == 3:
             ji = tuple(index[1:])
         else:
-            ji = tuple(divmod(index[1], grid.ni))
-        if ji[0] < grid.nj and not grr_dg.pillar_geometry_is_defined(grid, ji, cache_array = cache_array):
+            ji = tuple(divmod(index[1], grid.ni + 1))
+        if ji[0] <= grid.nj and not grr_dg.pillar_geometry_is_defined(grid, ji, cache_array = cache_array):
             return None
     if grid.points_cached is not None:
         if index is None:
-- 
2.43.0


From bbd399a977ee2239950ab8266edcf1fb72b85921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:59 +0000
Subject: [PATCH 18/53] fix: cross section points of an unsplit grid with k
 gaps

---
 resqpy/grid/_points_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid/_points_functions.py b/resqpy/grid/_points_functions.py
index 1c932cf..06a0a5b 100644
--- a/resqpy/grid/_points_functions.py
+++ b/resqpy/grid/_points_functions.py
@@ -565,7 +565,7 @@ def split_gap_x_section_points(grid, axis, ref_slice0 = 0, plus_face = False, ma
     if grid.has_split_coordinate_lines:
         points = grid.points_ref(masked = masked)
     else:
-        points = grid.points_ref(masked = masked).reshape((grid.nk_plus_k_gaps, (grid.nj + 1) * (grid.ni + 1), 3))
+        points = grid.points_ref(masked = masked).reshape((grid.nk_plus_k_gaps + 1, (grid.nj + 1) * (grid.ni + 1), 3))
     cpm = grid.create_column_pillar_mapping()
 
     ij_p = 1 if plus_face else 0
-- 
2.43.0


From c0fe46fb2a7cffeb96e43569e00f19fb41fa5bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:19 +0000
Subject: [PATCH 19/53] fix: split column faces at the far edges of a grid are
 found where only one end is split

---
 resqpy/grid/_face_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/grid/_face_functions.py b/resqpy/grid/_face_functions.py
index 8f7fc64..f854621 100644
--- a/resqpy/grid/_face_functions.py
+++ b/resqpy/grid/_face_functions.py
@@ -69,12 +69,12 @@ def split_column_faces(grid):
         if j_p > 0 and j_p < grid.nj:
             if i_p > 0 and grid.is_split_column_face(j_p, i_p - 1, 1, 0):
                 grid.array_j_column_face_split[j_p - 1, i_p - 1] = True
-            if i_p < grid.ni - 1 and grid.is_split_column_face(j_p, i_p, 1, 0):
+            if i_p < grid.ni and grid.is_split_column_face(j_p, i_p, 1, 0):
                 grid.array_j_column_face_split[j_p - 1, i_p] = True
         if i_p > 0 and i_p < grid.ni:
             if j_p > 0 and grid.is_split_column_face(j_p - 1, i_p, 2, 0):
                 grid.array_i_column_face_split[j_p - 1, i_p - 1] = True
-            if j_p < grid.nj - 1 and grid.is_split_column_face(j_p, i_p, 2, 0):
+            if j_p < grid.nj and grid.is_split_column_face(j_p, i_p, 2, 0):
                 grid.array_i_column_face_split[j_p, i_p - 1] = True
     return grid.array_j_column_face_split, grid.array_i_column_face_split
 
-- 
2.43.0


From 3a0225d3ade63757c079e822c148963eb9bf21d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:19 +0000
Subject: [PATCH 20/53] fix: pillars on the far edges of a grid are included
 when checking whether all have geometry defined

---
 resqpy/grid/_defined_geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/grid/_defined_geometry.py b/resqpy/grid/_defined_geometry.py
index e144010..b4f0272 100644
--- a/resqpy/grid/_defined_geometry.py
+++ b/resqpy/grid/_defined_geometry.py
@@ -175,8 +175,8 @@ def geometry_defined_for_all_pillars(grid, cache_array = True, pillar_geometry_i
     is_def_root = grid.resolve_geometry_child('PillarGeometryIsDefined', child_node = pillar_geometry_is_defined_root)
     grid.geometry_defined_for_all_pillars_cached = True
     if is_def_root is not None:
-        for pillar_j in range(grid.nj):
-            for pillar_i in range(grid.ni):
+        for pillar_j in range(grid.nj + 1):
+            for pillar_i in range(grid.ni + 1):
                 if not grid.pillar_geometry_is_defined(
                     [pillar_j, pillar_i], pillar_geometry_is_defined_root = is_def_root, cache_array = False):
                     grid.geometry_defined_for_all_pillars_cached = False
-- 
2.43.0


From 812b5e69e16143d1bde0e6b18d21134abd70eb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:19 +0000
Subject: [PATCH 21/53] fix: cells are found in cross sections which have x,z
 data only

---
 resqpy/grid/_points_functions.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/resqpy/grid/_points_functions.py b/resqpy/grid/_points_functions.py
index 06a0a5b..677cbb5 100644
--- a/resqpy/grid/_points_functions.py
+++ b/resqpy/grid/_points_functions.py
@@ -1188,10 +1188,8 @@ def find_cell_for_x_sect_xz(x_sect, x, z):
     """
 
     def test_cell(p, x_sect, k0, ji0):
-        poly = np.array([
-            x_sect[k0, ji0, 0, 0, 0:3:2], x_sect[k0, ji0, 0, 1, 0:3:2], x_sect[k0, ji0, 1, 1, 0:3:2], x_sect[k0, ji0, 1,
-                                                                                                             0, 0:3:2]
-        ])
+        xz = x_sect[k0, ji0, :, :, ::x_sect.shape[4] - 1]  # x,z points only
+        poly = np.array([xz[0, 0], xz[0, 1], xz[1, 1], xz[1, 0]])
         if np.any(np.isnan(poly)):
             return False
         return pip.pip_cn(p, poly)
-- 
2.43.0


From cbc9673c35b2d8ba59abd7545308d66b2b97887c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:19 +0000
Subject: [PATCH 22/53] fix: string lookup set_string() keeps the limits of the
 keys

---
 resqpy/property/string_lookup.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/resqpy/property/string_lookup.py b/resqpy/property/string_lookup.py
index 5d99ca5..a7fbe64 100644
--- a/resqpy/property/string_lookup.py
+++ b/resqpy/property/string_lookup.py
@@ -114,11 +114,11 @@ class StringLookup(BaseResqpy):
 
         self.str_dict[key] = value
         limits_changed = False
-        if self.min_index is None or value < self.min_index:
-            self.min_index = value
+        if self.min_index is None or key < self.min_index:
+            self.min_index = key
             limits_changed = True
-        if self.max_index is None or value > self.max_index:
-            self.max_index = value
+        if self.max_index is None or key > self.max_index:
+            self.max_index = key
             limits_changed = True
         if self.stored_as_list:
             if limits_changed:
@@ -132,7 +132,7 @@ class StringLookup(BaseResqpy):
         :meta common:
         """
 
-        if key < self.min_index or key > self.max_index:
+        if self.min_index is None or key < self.min_index or key > self.max_index:
             return None
         if self.stored_as_list:
             return self.str_list[key]
-- 
2.43.0


From 8f1c7dd1614aa0c501c9b7d143d65131e93a8972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:19 +0000
Subject: [PATCH 23/53] fix: scan of a polygon which is partly or wholly to the
 left of the pixels

---
 resqpy/olio/point_inclusion.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resqpy/olio/point_inclusion.py b/resqpy/olio/point_inclusion.py
index 11535de..c6baff8 100644
--- a/resqpy/olio/point_inclusion.py
+++ b/resqpy/olio/point_inclusion.py
@@ -175,8 +175,9 @@ def scan(origin, ncol, nrow, dx, dy, poly):
             sx, ex = ix[1], ix[0]
         else:
             sx, ex = ix[0], ix[1]
-        scol = maths.ceil((sx - origin[0]) / dx)
-        ecol = int((ex - origin[0]) / dx)
-        inside[row, scol:ecol + 1] = True
+        scol = max(maths.ceil((sx - origin[0]) / dx), 0)
+        ecol = maths.floor((ex - origin[0]) / dx)
+        if ecol >= scol:
+            inside[row, scol:ecol + 1] = True
 
     return inside
-- 
2.43.0


From 9592c0e3e348bab95db7616ad1e4097024dbe75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:49 +0000
Subject: [PATCH 24/53] fix: pillars nullified for being partly undefined are
 noted as undefined, their cells inactive

---
 resqpy/grid/_defined_geometry.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/resqpy/grid/_defined_geometry.py b/resqpy/grid/_defined_geometry.py
index b4f0272..b1cdb36 100644
--- a/resqpy/grid/_defined_geometry.py
+++ b/resqpy/grid/_defined_geometry.py
@@ -291,6 +291,9 @@ def set_geometry_is_defined(grid,
     if some_areal_dots:
         nan_mask = __handle_areal_dots(areal_dots, grid, nan_mask)
 
+    if nullify_partial_pillars:
+        nan_mask = np.logical_or(nan_mask, np.any(nan_mask, axis = 0))
+
     assert not np.all(nan_mask), 'grid does not have any geometry defined'
 
     points[np.where(np.repeat(np.expand_dims(nan_mask, axis = nan_mask.ndim), 3, axis = -1))] = np.nan
@@ -332,13 +335,7 @@ def set_geometry_is_defined(grid,
 
     cells_update_needed = False
 
-    if nullify_partial_pillars:
-        partial_pillar_mask = np.logical_and(pillar_defined_mask, np.any(nan_mask, axis = 0).flatten())
-        if np.any(partial_pillar_mask):
-            points.reshape((grid.nk_plus_k_gaps + 1, -1, 3))[:, partial_pillar_mask, :] = np.nan
-            grid.geometry_defined_for_all_pillars_cached = False
-            cells_update_needed = True
-    elif complete_partial_pillars:
+    if complete_partial_pillars:
         partial_pillar_mask = np.logical_and(pillar_defined_mask, np.any(nan_mask, axis = 0).flatten())
         if np.any(partial_pillar_mask):
             log.warning('completing geometry for partially defined pillars')
-- 
2.43.0


From 8fbab8b226c0057458ed4de20a11bdb307dbdc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:54 +0000
Subject: [PATCH 25/53] fix: a surface loaded from xml has the surface role
 stored there

---
 resqpy/surface/_surface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resqpy/surface/_surface.py b/resqpy/surface/_surface.py
index d2b183e..9c3f1c1 100644
--- a/resqpy/surface/_surface.py
+++ b/resqpy/surface/_surface.py
@@ -226,6 +226,9 @@ class Surface(rqsb.BaseSurface):
         root_node = self.root
         assert root_node is not None
         self.extract_patches(root_node)
+        role = rqet.find_tag_text(root_node, 'SurfaceRole')
+        if role:
+            self.surface_role = role
         ref_node = rqet.find_tag(root_node, 'RepresentedInterpretation')
         if ref_node is not None:
             interp_root = self.model.referenced_node(ref_node)
-- 
2.43.0


From f96edb4ba0dd4977d1c7007ecb86014e358abddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:54 +0000
Subject: [PATCH 26/53] fix: masked property arrays have nan and zero nulls
 masked out, and inactive cells of points

---
 resqpy/property/property_collection.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 83aaf95..1aaf7ba 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -1697,8 +1697,11 @@ class PropertyCollection():
         """
 
         mask = self._masked_array_apply_inactive(exclude_inactive, points, simple_array)
-        if exclude_value:
-            null_mask = (simple_array == exclude_value)
+        if exclude_value is not None:
+            if np.isnan(exclude_value):
+                null_mask = np.isnan(simple_array)
+            else:
+                null_mask = (simple_array == exclude_value)
             if mask is None:
                 mask = null_mask
             else:
@@ -1719,7 +1722,7 @@ class PropertyCollection():
                 if (self.support.inactive.ndim + 1 == simple_array.ndim and
                         self.support.inactive.shape == tuple(simple_array.shape[:-1])):
                     mask = np.empty(simple_array.shape, dtype = bool)
-                    mask[:] = self.support.inactive[:, np.newaxis]
+                    mask[:] = self.support.inactive[..., np.newaxis]
         return mask
 
     def h5_key_pair_for_part(self, part):
-- 
2.43.0


From 1197eba8eec9f4f9634704f7b7ee9a5ad85de439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:35 +0000
Subject: [PATCH 27/53] fix: mean dip of a fault interpretation is written,
 rather than its mean azimuth

---
 resqpy/organize/fault_interpretation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/organize/fault_interpretation.py b/resqpy/organize/fault_interpretation.py
index 703ef64..fb89a9d 100644
--- a/resqpy/organize/fault_interpretation.py
+++ b/resqpy/organize/fault_interpretation.py
@@ -219,7 +219,7 @@ class FaultInterpretation(BaseResqpy):
         if self.mean_dip is not None:
             dip = rqet.SubElement(fi, ns['resqml2'] + 'MeanDip')
             dip.set(ns['xsi'] + 'type', ns['eml'] + 'PlaneAngleMeasure')
-            dip.text = str(self.mean_azimuth)
+            dip.text = str(self.mean_dip)
 
         if self.throw_interpretation_list is not None and len(self.throw_interpretation_list):
             previous_has_occurred_during = ('never', 'never')
-- 
2.43.0


From 516b1304de2036852a024f74abb749de78de3059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:35 +0000
Subject: [PATCH 28/53] fix: generic interpretations are compared without
 failing

---
 resqpy/organize/generic_interpretation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/organize/generic_interpretation.py b/resqpy/organize/generic_interpretation.py
index 470a868..1d9c382 100644
--- a/resqpy/organize/generic_interpretation.py
+++ b/resqpy/organize/generic_interpretation.py
@@ -64,7 +64,7 @@ class GenericInterpretation(BaseResqpy):
             return False
         if self.domain != other.domain:
             return False
-        if not ou.equivalent_chrono_pairs(self.main_has_occurred_during, other.main_has_occurred_during):
+        if not ou.equivalent_chrono_pairs(self.has_occurred_during, other.has_occurred_during):
             return False
         if check_extra_metadata and not ou.equivalent_extra_metadata(self, other):
             return False
-- 
2.43.0


From d99af0198b07f0a56f1a0ecb904eb5656deee503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:42 +0000
Subject: [PATCH 29/53] fix: a geobody interpretation loaded from xml has the
 domain stored there

---
 resqpy/organize/geobody_interpretation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/organize/geobody_interpretation.py b/resqpy/organize/geobody_interpretation.py
index dd0bfb4..a046898 100644
--- a/resqpy/organize/geobody_interpretation.py
+++ b/resqpy/organize/geobody_interpretation.py
@@ -60,6 +60,7 @@ class GeobodyInterpretation(BaseResqpy):
 
     def _load_from_xml(self):
         root_node = self.root
+        self.domain = rqet.find_tag_text(root_node, 'Domain')
         interp_feature_ref_node = rqet.find_tag(root_node, 'InterpretedFeature')
         assert interp_feature_ref_node is not None
         self.feature_root = self.model.referenced_node(interp_feature_ref_node)
-- 
2.43.0


From 725e70698c169de244c29afb1d49aa55dbd2529c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:57 +0000
Subject: [PATCH 30/53] fix: a deviation survey loaded from xml has its datum,
 interpretation and units of angles

---
 resqpy/well/_deviation_survey.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/resqpy/well/_deviation_survey.py b/resqpy/well/_deviation_survey.py
index 6a67a4b..dfb162a 100644
--- a/resqpy/well/_deviation_survey.py
+++ b/resqpy/well/_deviation_survey.py
@@ -272,6 +272,7 @@ class DeviationSurvey(BaseResqpy):
         # Load XML data
         self.md_uom = rqet.length_units_from_node(rqet.find_tag(node, 'MdUom', must_exist = True))
         self.angle_uom = rqet.find_tag_text(node, 'AngleUom', must_exist = True)
+        self.angles_in_degrees = self.angle_uom.strip().lower().startswith('deg')
         self.station_count = rqet.find_tag_int(node, 'StationCount', must_exist = True)
         self.first_station = rqwu.extract_xyz(rqet.find_tag(node, 'FirstStationLocation', must_exist = True))
         self.is_final = rqet.find_tag_bool(node, 'IsFinal')
@@ -286,7 +287,7 @@ class DeviationSurvey(BaseResqpy):
 
         # Set related objects
         self.md_datum = self._load_related_datum()
-        self.represented_interp = self._load_related_wellbore_interp()
+        self.wellbore_interpretation = self._load_related_wellbore_interp()
 
         # Validate
         assert self.measured_depths is not None
@@ -461,11 +462,9 @@ class DeviationSurvey(BaseResqpy):
     def _load_related_datum(self):
         """Return related MdDatum object from XML if present."""
 
-        md_datum_uuid = bu.uuid_from_string(rqet.find_tag(rqet.find_tag(self.root, 'MdDatum'), 'UUID'))
+        md_datum_uuid = bu.uuid_from_string(rqet.find_nested_tags_text(self.root, ['MdDatum', 'UUID']))
         if md_datum_uuid is not None:
-            md_datum_part = 'obj_MdDatum_' + str(md_datum_uuid) + '.xml'
-            md_datum = rqmdd.MdDatum(self.model,
-                                     md_datum_root = self.model.root_for_part(md_datum_part, is_rels = False))
+            md_datum = rqmdd.MdDatum(self.model, uuid = md_datum_uuid)
         else:
             md_datum = None
         return md_datum
-- 
2.43.0


From b0f86c53d065be4f0bf71587dd5a5d16f01778a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:57 +0000
Subject: [PATCH 31/53] fix: feature for a geobody marker is of a kind which
 there is

---
 resqpy/well/_wellbore_marker_frame.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resqpy/well/_wellbore_marker_frame.py b/resqpy/well/_wellbore_marker_frame.py
index d7c7171..6140794 100644
--- a/resqpy/well/_wellbore_marker_frame.py
+++ b/resqpy/well/_wellbore_marker_frame.py
@@ -201,7 +201,8 @@ class WellboreMarkerFrame(BaseResqpy):
         if feature_type == 'fault':
             tbf = rqo.TectonicBoundaryFeature(model, kind = 'fault', feature_name = feature_name)
         else:
-            tbf = rqo.GeneticBoundaryFeature(model, kind = feature_type, feature_name = feature_name)
+            kind = 'geobody boundary' if feature_type == 'geobody' else feature_type
+            tbf = rqo.GeneticBoundaryFeature(model, kind = kind, feature_name = feature_name)
         tbf.create_xml(reuse = True)
         if feature_type == 'fault':
             fi = rqo.FaultInterpretation(model, tectonic_boundary_feature = tbf, is_normal = True)
-- 
2.43.0


From 53626de80c1c7cd7f737778021638da8621bb7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:58 +0000
Subject: [PATCH 32/53] fix: active cell property for the time of a grid is the
 one used when there are others

---
 resqpy/grid/_extract_functions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/grid/_extract_functions.py b/resqpy/grid/_extract_functions.py
index 16d490f..4394fcd 100644
--- a/resqpy/grid/_extract_functions.py
+++ b/resqpy/grid/_extract_functions.py
@@ -524,6 +524,7 @@ def extract_inactive_mask(grid, check_pinchout = False):
             active_gpc = rprop.selective_version_of_collection(active_gpc,
                                                                time_index = grid.time_index,
                                                                time_series_uuid = grid.time_series_uuid)
+            active_parts = active_gpc.parts()
         else:
             active_parts = []
             for part in active_gpc.parts():
-- 
2.43.0


From cd699ff739ee36dfc17c2ec5b273c481f15a8035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:58 +0000
Subject: [PATCH 33/53] fix: list of local grids of a grid holds their uuids
 rather than its own

---
 resqpy/grid/_extract_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/grid/_extract_functions.py b/resqpy/grid/_extract_functions.py
index 4394fcd..08d5989 100644
--- a/resqpy/grid/_extract_functions.py
+++ b/resqpy/grid/_extract_functions.py
@@ -462,7 +462,7 @@ def extract_children(grid):
                 continue
             parent_uuid = bu.uuid_from_string(parent_uuid)
             if bu.matching_uuids(grid.uuid, parent_uuid):
-                grid.local_grid_uuid_list.append(parent_uuid)
+                grid.local_grid_uuid_list.append(rqet.uuid_for_part_root(related_root))
     return grid.local_grid_uuid_list
 
 
-- 
2.43.0


From 04ae44aae2b2b5da9bb6c242915e9b53d67eeb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:58 +0000
Subject: [PATCH 34/53] fix: points of a faulted grid stored as straight lines
 can be got without other arrays having been loaded

---
 resqpy/grid/_points_functions.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/resqpy/grid/_points_functions.py b/resqpy/grid/_points_functions.py
index 677cbb5..75b92ca 100644
--- a/resqpy/grid/_points_functions.py
+++ b/resqpy/grid/_points_functions.py
@@ -227,7 +227,17 @@ def point_raw(grid, index = None, points_root = None, cache_array = True):
         assert hasattr(grid, 'temp_cp') and grid.temp_cp is not None and grid.temp_cp.shape == (2, pp_count, 3)
         pillar_count = pp_count
         if grid.has_split_coordinate_lines:
-            assert hasattr(grid, 'split_pillar_indices_cached') and grid.split_pillar_indices_cached is not None
+            if not hasattr(grid, 'split_pillar_indices_cached'):
+                pillar_indices_root = rqet.find_tag(grid.resolve_geometry_child('SplitCoordinateLines'),
+                                                    'PillarIndices')
+                h5_key_pair = grid.model.h5_uuid_and_path_for_node(pillar_indices_root)
+                grid.model.h5_array_element(h5_key_pair,
+                                            index = None,
+                                            cache_array = True,
+                                            object = grid,
+                                            array_attribute = 'split_pillar_indices_cached',
+                                            dtype = 'int')
+            assert grid.split_pillar_indices_cached is not None
             pillar_count += grid.split_pillar_indices_cached.size
         cpp = np.empty((2, pillar_count), dtype = float)
         cpp[:, :pp_count] = grid.temp_cpp
-- 
2.43.0


From 634ec82c592444e729b10a9c571e03bbc64523f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:47 +0000
Subject: [PATCH 35/53] fix: K axis of a regular grid made from a mesh is
 aligned with the z axis

---
 resqpy/grid/_regular_grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/grid/_regular_grid.py b/resqpy/grid/_regular_grid.py
index eac0b6c..b583864 100644
--- a/resqpy/grid/_regular_grid.py
+++ b/resqpy/grid/_regular_grid.py
@@ -128,8 +128,8 @@ class RegularGrid(grr_g.Grid):
                 assert mesh.flavour == 'regular'
                 assert dxyz is None and dxyz_dkji is None
                 origin = mesh.regular_origin
-                dxyz_dkji = np.empty((3, 3))
-                dxyz_dkji[0, :] = mesh_dz_dk
+                dxyz_dkji = np.zeros((3, 3))
+                dxyz_dkji[0, 2] = mesh_dz_dk  # K axis aligned with z axis
                 dxyz_dkji[1, :] = mesh.regular_dxyz_dij[1]  # J axis
                 dxyz_dkji[2, :] = mesh.regular_dxyz_dij[0]  # I axis
                 if crs_uuid is None:
-- 
2.43.0


From 8e688cb20ce553c431f8f5604fdbf48264841409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:03 +0000
Subject: [PATCH 36/53] fix: local coarsening with uneven ratios is stored with
 an interval for each coarse slice

---
 resqpy/grid/_create_grid_xml.py        | 5 +----
 resqpy/grid/_write_hdf5_from_caches.py | 3 +--
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/resqpy/grid/_create_grid_xml.py b/resqpy/grid/_create_grid_xml.py
index e66a787..eb055a3 100644
--- a/resqpy/grid/_create_grid_xml.py
+++ b/resqpy/grid/_create_grid_xml.py
@@ -145,10 +145,7 @@ def _create_grid_xml(grid,
             if grid.parent_window.constant_ratios[axis] is not None:
                 interval_count = 1
             else:
-                if grid.is_refinement:
-                    interval_count = grid.parent_window.coarse_extent_kji[axis]
-                else:
-                    interval_count = grid.parent_window.fine_extent_kji[axis]
+                interval_count = grid.parent_window.coarse_extent_kji[axis]
             ic_node = rqet.SubElement(intervals_node, ns['resqml2'] + 'IntervalCount')
             ic_node.set(ns['xsi'] + 'type', ns['xsd'] + 'positiveInteger')
             ic_node.text = str(interval_count)
diff --git a/resqpy/grid/_write_hdf5_from_caches.py b/resqpy/grid/_write_hdf5_from_caches.py
index db82c3b..b78816b 100644
--- a/resqpy/grid/_write_hdf5_from_caches.py
+++ b/resqpy/grid/_write_hdf5_from_caches.py
@@ -149,12 +149,11 @@ def __write_geometry(grid, h5_reg, use_parametric_lines):
                     pcpi = np.array([grid.parent_window.fine_extent_kji[axis]], dtype = int)
                     ccpi = np.array([grid.parent_window.coarse_extent_kji[axis]], dtype = int)
             else:
+                interval_count = grid.parent_window.coarse_extent_kji[axis]
                 if grid.is_refinement:
-                    interval_count = grid.parent_window.coarse_extent_kji[axis]
                     pcpi = np.ones(interval_count, dtype = int)
                     ccpi = np.array(grid.parent_window.vector_ratios[axis], dtype = int)
                 else:
-                    interval_count = grid.parent_window.fine_extent_kji[axis]
                     pcpi = np.array(grid.parent_window.vector_ratios[axis], dtype = int)
                     ccpi = np.ones(interval_count, dtype = int)
             h5_reg.register_dataset(grid.uuid, 'KJI'[axis] + 'Regrid/ParentCountPerInterval', pcpi)
-- 
2.43.0


From c1a41fd7b15e3522c3a996f3df2d9168212e5d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:04 +0000
Subject: [PATCH 37/53] fix: parts are filtered from an empty list, and by
 subdirectory, as documented

---
 resqpy/model/_catalogue.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/model/_catalogue.py b/resqpy/model/_catalogue.py
index 0a74510..84e9f3d 100644
--- a/resqpy/model/_catalogue.py
+++ b/resqpy/model/_catalogue.py
@@ -25,7 +25,7 @@ def _parts(model,
            sort_by = None):
     """Returns a list of parts matching all of the arguments passed."""
 
-    if not parts_list:
+    if parts_list is None:
         parts_list = _list_of_parts(model)
     if uuid is not None:
         part_name = model.uuid_part_dict.get(bu.uuid_as_int(uuid))
@@ -719,7 +719,7 @@ def _filtered_by_epc_subdir(model, parts_list, epc_subdir):
             epc_subdir += '/'
         filtered_list = []
         for part in parts_list:
-            if part.startswith[epc_subdir]:
+            if part.startswith(epc_subdir):
                 filtered_list.append(part)
         return filtered_list
     else:
-- 
2.43.0


From 982395affd7b37feaeaeafbc2d6b7b927f279998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:49 +0000
Subject: [PATCH 38/53] fix: soft relationships are kept for parts without
 other relations, and when loading those after a link to hdf5

---
 resqpy/model/_forestry.py | 11 +++++------
 resqpy/model/_xml.py      |  8 ++++----
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index feaa787..e3c8f85 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -206,17 +206,16 @@ def _add_uuid_soft_relations(model, uuid_int, part):
         if rels_root is not None:
             for relation_node in rels_root:
                 if rqet.stripped_of_prefix(relation_node.tag) != 'Relationship':
-                    return
+                    continue
                 if 'Target' not in relation_node.attrib.keys():
-                    return
+                    continue
                 relation_part_name = relation_node.attrib['Target']
                 relation_uuid_str = rqet.uuid_in_part_name(relation_part_name, return_uuid_str = True)
                 if relation_uuid_str is None:
-                    return  # probably HDF5 external resource
+                    continue  # probably HDF5 external resource
                 relation_uuid_int = _hex_to_int(relation_uuid_str)
-                rels_sets = model.uuid_rels_dict.get(uuid_int)
-                if rels_sets is not None and relation_uuid_int not in rels_sets[
-                        0] and relation_uuid_int not in rels_sets[1]:
+                rels_sets = model.uuid_rels_dict.setdefault(uuid_int, (set(), set(), set()))
+                if relation_uuid_int not in rels_sets[0] and relation_uuid_int not in rels_sets[1]:
                     rels_sets[2].add(relation_uuid_int)
 
 
diff --git a/resqpy/model/_xml.py b/resqpy/model/_xml.py
index a0e5ffd..53da272 100644
--- a/resqpy/model/_xml.py
+++ b/resqpy/model/_xml.py
@@ -629,10 +629,10 @@ def _create_reciprocal_relationship(model, node_a, rel_type_a, node_b, rel_type_
     rel_uuid_a_int = rel_uuid_a.int
     rel_uuid_b_int = rel_uuid_b.int
 
-    value = model.uuid_rels_dict.get(rel_uuid_a_int)
-    if value is not None and rel_uuid_b_int not in value[0] and rel_uuid_b_int not in value[1]:
+    value = model.uuid_rels_dict.setdefault(rel_uuid_a_int, (set(), set(), set()))
+    if rel_uuid_b_int not in value[0] and rel_uuid_b_int not in value[1]:
         value[2].add(rel_uuid_b_int)
 
-    value = model.uuid_rels_dict.get(rel_uuid_b_int)
-    if value is not None and rel_uuid_a_int not in value[0] and rel_uuid_a_int not in value[1]:
+    value = model.uuid_rels_dict.setdefault(rel_uuid_b_int, (set(), set(), set()))
+    if rel_uuid_a_int not in value[0] and rel_uuid_a_int not in value[1]:
         value[2].add(rel_uuid_a_int)
-- 
2.43.0


From 91c15e693ec500d1c6a13a671adbf54b1e469c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:49 +0000
Subject: [PATCH 39/53] fix: a part without relations can be removed

---
 resqpy/model/_forestry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index e3c8f85..ca4841c 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -498,7 +498,9 @@ def _del_uuid_relations(model, part_name):
     uuid = model.uuid_for_part(part_name)
     if uuid is None:
         return
-    relations = model.uuid_rels_dict[uuid.int]
+    relations = model.uuid_rels_dict.get(uuid.int)
+    if relations is None:  # part is not related to any other
+        return
     for related_uuid_int in relations[0]:
         model.uuid_rels_dict[related_uuid_int][1].remove(uuid.int)
     for related_uuid_int in relations[1]:
-- 
2.43.0


From 6895e0ff2c3a5d79d9a08b02fe176f044f542f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:29 +0000
Subject: [PATCH 40/53] fix: a relationship copied with a part from another
 model is not left as a soft one too

---
 resqpy/model/_forestry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/model/_forestry.py b/resqpy/model/_forestry.py
index ca4841c..740bced 100644
--- a/resqpy/model/_forestry.py
+++ b/resqpy/model/_forestry.py
@@ -234,6 +234,7 @@ def _add_uuid_relations(model, uuid_int, part):
             model.uuid_rels_dict[uuid_int] = ({ref_uuid_int}, set(), set())
         else:
             value[0].add(ref_uuid_int)
+            value[2].discard(ref_uuid_int)  # might have been treated as a soft relationship before now
 
         # Adding uuid to the reference uuid key.
         ref_value = model.uuid_rels_dict.get(ref_uuid_int)
@@ -241,6 +242,7 @@ def _add_uuid_relations(model, uuid_int, part):
             model.uuid_rels_dict[ref_uuid_int] = (set(), {uuid_int}, set())
         else:
             ref_value[1].add(uuid_int)
+            ref_value[2].discard(uuid_int)
 
 
 def _copy_dataset_if_requested(copy_from, epc_file, quiet):
-- 
2.43.0


From a2eef67bbfebf7a69dddfe050043d12b021f91f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:48 +0000
Subject: [PATCH 41/53] fix: properties are selected by their unit of measure
 when that is asked for

---
 resqpy/property/_collection_add_part.py | 4 +++-
 resqpy/property/property_collection.py  | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/resqpy/property/_collection_add_part.py b/resqpy/property/_collection_add_part.py
index 24cdb97..1af168b 100644
--- a/resqpy/property/_collection_add_part.py
+++ b/resqpy/property/_collection_add_part.py
@@ -17,7 +17,7 @@ import resqpy.property._collection_get_attributes as pcga
 
 def _add_selected_part_from_other_dict(collection, part, other, realization, support_uuid, uuid, continuous,
                                        categorical, count, points, indexable, property_kind, facet_type, facet,
-                                       citation_title, citation_title_match_mode, time_series_uuid, time_index,
+                                       citation_title, citation_title_match_mode, time_series_uuid, time_index, uom,
                                        string_lookup_uuid, related_uuid, const_value, extra, ignore_clashes):
     if _check_not_none_and_not_equals(realization, other.realization_for_part, part):
         return
@@ -47,6 +47,8 @@ def _add_selected_part_from_other_dict(collection, part, other, realization, sup
         return
     if _check_not_none_and_not_equals(time_index, other.time_index_for_part, part):
         return
+    if _check_not_none_and_not_equals(uom, other.uom_for_part, part):
+        return
     if _check_not_none_and_not_uuid_match(string_lookup_uuid, other.string_lookup_uuid_for_part, part):
         return
     if _check_not_none_and_not_equals(const_value, other.constant_value_for_part, part):
diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 1aaf7ba..04a8003 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -496,8 +496,8 @@ class PropertyCollection():
             pcap._add_selected_part_from_other_dict(self, part, other, realization, support_uuid, uuid, continuous,
                                                     categorical, count, points, indexable, property_kind, facet_type,
                                                     facet, citation_title, citation_title_match_mode, time_series_uuid,
-                                                    time_index, string_lookup_uuid, related_uuid, const_value, extra,
-                                                    ignore_clashes)
+                                                    time_index, uom, string_lookup_uuid, related_uuid, const_value,
+                                                    extra, ignore_clashes)
 
     def inherit_similar_parts_for_time_series_from_other_collection(self,
                                                                     other,
-- 
2.43.0


From d34a58ef6d5aae2e3967e937848b2bba19e40615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:59 +0000
Subject: [PATCH 42/53] fix: only boolean arrays of an imported list are
 packed, not those which follow them too

---
 resqpy/property/property_collection.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index 04a8003..d26a3ae 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -2476,10 +2476,11 @@ class PropertyCollection():
                 uuid = entry[0]
                 cached_name = entry[3]
             tail = 'points_patch0' if entry[18] else 'values_patch0'
+            entry_dtype = dtype
             if use_pack and (str(dtype).startswith('bool') or
                              (dtype is None and str(self.__dict__[cached_name].dtype) == 'bool')):
-                dtype = 'pack'
-            h5_reg.register_dataset(uuid, tail, self.__dict__[cached_name], dtype = dtype)
+                entry_dtype = 'pack'
+            h5_reg.register_dataset(uuid, tail, self.__dict__[cached_name], dtype = entry_dtype)
         h5_reg.write(file = file_name, mode = mode, use_int32 = use_int32)
 
     def write_hdf5_for_part(self,
-- 
2.43.0


From 18968208ca8ca3b2592511e7887cc3905f95d5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:10 +0000
Subject: [PATCH 43/53] fix: string lookup loaded from xml gives the same list
 as that which was stored

---
 resqpy/property/string_lookup.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resqpy/property/string_lookup.py b/resqpy/property/string_lookup.py
index a7fbe64..4e88ce7 100644
--- a/resqpy/property/string_lookup.py
+++ b/resqpy/property/string_lookup.py
@@ -66,6 +66,8 @@ class StringLookup(BaseResqpy):
                 self.min_index = key
             if self.max_index is None or key > self.max_index:
                 self.max_index = key
+        if self.str_dict:
+            self.set_list_from_dict_conditionally()
 
     def load_from_dict(self, int_to_str_dict):
         """Sets the contents of this string lookup based on a dict mapping int to str."""
-- 
2.43.0


From 2174e9741446238e3c209c24bf598f18160b7fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:41 +0000
Subject: [PATCH 44/53] fix: properties can be selected with special values for
 time index

---
 resqpy/property/property_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/property/property_collection.py b/resqpy/property/property_collection.py
index d26a3ae..364655b 100644
--- a/resqpy/property/property_collection.py
+++ b/resqpy/property/property_collection.py
@@ -489,7 +489,7 @@ class PropertyCollection():
         rqp_c.check_and_warn_property_kind(property_kind, 'selecting properties')
         if self.realization is not None and other.realization is not None:
             assert self.realization == other.realization
-        if time_index is not None:
+        if time_index is not None and not isinstance(time_index, str):
             assert time_index >= 0
 
         for (part, info) in other.dict.items():
-- 
2.43.0


From 39aa7113c0e0211670c2a542effbe2ceb7c4f7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:41 +0000
Subject: [PATCH 45/53] fix: no K permeability, rather than an exception, when
 there is none to share or to derive it from

---
 resqpy/property/_collection_get_attributes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/resqpy/property/_collection_get_attributes.py b/resqpy/property/_collection_get_attributes.py
index 4fc6445..7303240 100644
--- a/resqpy/property/_collection_get_attributes.py
+++ b/resqpy/property/_collection_get_attributes.py
@@ -196,6 +196,7 @@ def _get_single_perm_ijk_parts(collection, perms, share_perm_parts, perm_k_mode,
 
 def _get_perm_k_part(collection, perms, perm_k_mode, share_perm_parts, perm_i_part, perm_j_part, perm_k_ratio,
                      ntg_part):
+    perm_k_part = None
     if perm_k_mode == 'shared':
         if share_perm_parts:
             perm_k_part = perm_i_part
-- 
2.43.0


From 9c22ab2e2e8d3c257df098a9082cbd18cb5e8a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:58 +0000
Subject: [PATCH 46/53] fix: areas of thin triangles no longer NaN (or an
 exception) when rounding makes Heron's formula negative

---
 resqpy/olio/transmission.py     | 11 +++--------
 resqpy/olio/vector_utilities.py | 23 +++++++----------------
 2 files changed, 10 insertions(+), 24 deletions(-)

diff --git a/resqpy/olio/transmission.py b/resqpy/olio/transmission.py
index 4704c3f..76faee4 100644
--- a/resqpy/olio/transmission.py
+++ b/resqpy/olio/transmission.py
@@ -1169,13 +1169,8 @@ def projected_tri_area(pa, pb, pc):
     for xyz in range(3):
         xyz_0 = (xyz + 1) % 3
         xyz_1 = (xyz + 2) % 3
-        pap = np.stack((pa[..., xyz_0], pa[..., xyz_1]), axis = -1)  # points projected onto 2D
-        pbp = np.stack((pb[..., xyz_0], pb[..., xyz_1]), axis = -1)
-        pcp = np.stack((pc[..., xyz_0], pc[..., xyz_1]), axis = -1)
-        lap = vec.naive_lengths(pbp - pap)  # 2D triangle edge vector lengths
-        lbp = vec.naive_lengths(pcp - pbp)
-        lcp = vec.naive_lengths(pap - pcp)
-        s = 0.5 * (lap + lbp + lcp)  # 2D triangle semi perimeter lengths
-        area[..., xyz] = np.sqrt(s * (s - lap) * (s - lbp) * (s - lcp))
+        # half magnitude of cross product, in 2D projection
+        area[..., xyz] = 0.5 * np.abs((pb[..., xyz_0] - pa[..., xyz_0]) * (pc[..., xyz_1] - pa[..., xyz_1]) -
+                                      (pb[..., xyz_1] - pa[..., xyz_1]) * (pc[..., xyz_0] - pa[..., xyz_0]))
 
     return area
diff --git a/resqpy/olio/vector_utilities.py b/resqpy/olio/vector_utilities.py
index 60040ce..1bcdfeb 100644
--- a/resqpy/olio/vector_utilities.py
+++ b/resqpy/olio/vector_utilities.py
@@ -1450,29 +1450,20 @@ def nearest_point_projected(p, points, projection):
 def area_of_triangle(a, b, c):
     """Returns the area of the triangle defined by three vertices."""
 
-    # uses Heron's formula
-    la = naive_length(a - b)
-    lb = naive_length(b - c)
-    lc = naive_length(c - a)
-    s = 0.5 * (la + lb + lc)
-    return maths.sqrt(s * (s - la) * (s - lb) * (s - lc))
+    # half the length of the cross product of two of the edges
+    return 0.5 * naive_length(np.cross(b - a, c - a))
 
 
 def area_of_triangles(p, t, xy_projection = False):
     """Returns numpy array of areas of triangles, optionally when projected onto xy plane."""
 
-    # uses Heron's formula
+    # half the length of the cross product of two of the edges
     pt = p[t]
+    e = pt[:, 1, :] - pt[:, 0, :]
+    f = pt[:, 2, :] - pt[:, 0, :]
     if xy_projection:
-        la = naive_2d_lengths(pt[:, 0, :] - pt[:, 1, :])
-        lb = naive_2d_lengths(pt[:, 1, :] - pt[:, 2, :])
-        lc = naive_2d_lengths(pt[:, 2, :] - pt[:, 0, :])
-    else:
-        la = naive_lengths(pt[:, 0, :] - pt[:, 1, :])
-        lb = naive_lengths(pt[:, 1, :] - pt[:, 2, :])
-        lc = naive_lengths(pt[:, 2, :] - pt[:, 0, :])
-    s = 0.5 * (la + lb + lc)
-    return np.sqrt(s * (s - la) * (s - lb) * (s - lc))
+        return 0.5 * np.abs(e[:, 0] * f[:, 1] - e[:, 1] * f[:, 0])
+    return 0.5 * naive_lengths(np.cross(e, f))
 
 
 def clockwise_sorted_indices(p, b):
-- 
2.43.0


From 47e6cef2a962fc6541b1333c62e488ce4e50b670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:08 +0000
Subject: [PATCH 47/53] fix: half cell transmissibility of unfaulted grids with
 K gaps, which failed an assertion for every such grid

---
 resqpy/olio/transmission.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resqpy/olio/transmission.py b/resqpy/olio/transmission.py
index 76faee4..5f89def 100644
--- a/resqpy/olio/transmission.py
+++ b/resqpy/olio/transmission.py
@@ -290,8 +290,8 @@ def half_cell_t_irregular(grid,
                 if grid.k_gaps:
                     half_axis_vectors = 0.125 * np.abs(edge_vectors[1][kp][:, :, 1:] + edge_vectors[1][kp][:, :, :-1] +
                                                        edge_vectors[1][km][:, :, 1:] + edge_vectors[1][km][:, :, :-1])
-                    face_areas = (projected_tri_area(p[km][:, :-1], p[km][:, :, 1:], p[kp][:, :, 1:]) +
-                                  projected_tri_area(p[km][:, :-1], p[kp][:, :, 1:], p[kp][:, :, :-1]))
+                    face_areas = (projected_tri_area(p[km][:, :, :-1], p[km][:, :, 1:], p[kp][:, :, 1:]) +
+                                  projected_tri_area(p[km][:, :, :-1], p[kp][:, :, 1:], p[kp][:, :, :-1]))
                 else:
                     half_axis_vectors = 0.125 * np.abs(edge_vectors[1][1:, :, 1:] + edge_vectors[1][1:, :, :-1] +
                                                        edge_vectors[1][:-1, :, 1:] + edge_vectors[1][:-1, :, :-1])
-- 
2.43.0


From 138994f50440735b847e63d1f8bc3d3092e867d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:25 +0000
Subject: [PATCH 48/53] fix: half cell transmissibility property of a grid is
 found and used, and the tolerance passed on

---
 resqpy/grid/_transmissibility.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/resqpy/grid/_transmissibility.py b/resqpy/grid/_transmissibility.py
index 1c3bf3c..0314e3e 100644
--- a/resqpy/grid/_transmissibility.py
+++ b/resqpy/grid/_transmissibility.py
@@ -382,19 +382,19 @@ def half_cell_transmissibility(grid, use_property = True, realization = None, to
     half_t = None
 
     if use_property:
-        pc = grid.property_collection
+        pc = grid.extract_property_collection()
         half_t_resqml = pc.single_array_ref(property_kind = 'transmissibility',
                                             realization = realization,
                                             continuous = True,
                                             count = 1,
                                             indexable = 'faces per cell')
-        if half_t_resqml:
+        if half_t_resqml is not None:
             assert half_t_resqml.shape == (grid.nk, grid.nj, grid.ni, 6)
-            half_t = pc.combobulate(half_t_resqml)
+            half_t = pc.combobulated_face_array(half_t_resqml)
 
     if half_t is None:
         # note: properties must be identifiable in property_collection
-        half_t = rqtr.half_cell_t(grid, realization = realization)
+        half_t = rqtr.half_cell_t(grid, realization = realization, tolerance = tolerance)
 
     if realization is None:
         grid.array_half_cell_t = half_t
-- 
2.43.0


From 27ec21d4c7ccde881bcc958ebcf595af32070129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:39 +0000
Subject: [PATCH 49/53] fix: transmissibility modifiers apply to internal
 faces, rather than failing on array shapes or a missing collection

---
 resqpy/grid/_transmissibility.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/resqpy/grid/_transmissibility.py b/resqpy/grid/_transmissibility.py
index 0314e3e..b5a2238 100644
--- a/resqpy/grid/_transmissibility.py
+++ b/resqpy/grid/_transmissibility.py
@@ -66,6 +66,8 @@ def transmissibility(grid, tolerance = 1.0e-6, use_tr_properties = True, realiza
 
     k_tr = j_tr = i_tr = None
 
+    pc = grid.extract_property_collection() if use_tr_properties or modifier_mode is not None else None
+
     if realization is None:
         if hasattr(grid, 'array_k_transmissibility') and grid.array_k_transmissibility is not None:
             k_tr = grid.array_k_transmissibility
@@ -76,8 +78,6 @@ def transmissibility(grid, tolerance = 1.0e-6, use_tr_properties = True, realiza
 
     if use_tr_properties and (k_tr is None or j_tr is None or i_tr is None):
 
-        pc = grid.extract_property_collection()
-
         composite_tr = pc.single_array_ref(property_kind = 'transmissibility',
                                            realization = realization,
                                            continuous = True,
@@ -163,7 +163,6 @@ def transmissibility(grid, tolerance = 1.0e-6, use_tr_properties = True, realiza
 
 
 def __faces_per_cell_multiplier(grid, half_t, pc, realization):
-    pc = grid.extract_property_collection()
     half_t_mult = pc.single_array_ref(property_kind = 'transmissibility multiplier',
                                       realization = realization,
                                       continuous = True,
@@ -173,6 +172,7 @@ def __faces_per_cell_multiplier(grid, half_t, pc, realization):
         log.warning('no faces per cell transmissibility multiplier found when calculating transmissibilities')
     else:
         log.debug('applying faces per cell transmissibility multipliers')
+        half_t_mult = pc.combobulated_face_array(half_t_mult)
         half_t = np.where(np.isnan(half_t_mult), half_t, half_t * half_t_mult)
     return half_t, pc
 
@@ -209,6 +209,7 @@ def __set_i_transmissibility(grid, half_t, i_tr, modifier_mode, pc, realization,
         else:
             assert tr_mult.shape == (grid.nk, grid.nj, grid.ni + 1)
             internal_zero_mask = np.logical_or(internal_zero_mask, np.isnan(tr_mult[:, :, 1:-1]))
+            tr_mult = tr_mult[:, :, 1:-1]
     if tr_mult is None:
         tr_mult = 1.0
     tr_abs_r = 0.0
@@ -223,7 +224,8 @@ def __set_i_transmissibility(grid, half_t, i_tr, modifier_mode, pc, realization,
         if tr_abs is not None:
             log.debug('applying absolute I face transmissibility modification')
             assert tr_abs.shape == (grid.nk, grid.nj, grid.ni + 1)
-            internal_zero_mask = np.logical_or(internal_zero_mask, tr_abs[:, :, 1:-1] <= 0.0)
+            tr_abs = tr_abs[:, :, 1:-1]
+            internal_zero_mask = np.logical_or(internal_zero_mask, tr_abs <= 0.0)
             tr_abs_r = np.where(np.logical_or(np.isinf(tr_abs), np.isnan(tr_abs)), 0.0, 1.0 / tr_abs)
     i_tr[:, :, 1:-1] = np.where(internal_zero_mask, 0.0, tr_mult / ((1.0 / slice_a) + tr_abs_r + (1.0 / slice_b)))
     return i_tr
@@ -262,6 +264,7 @@ def __set_j_transmissibility(grid, half_t, j_tr, modifier_mode, pc, realization,
         else:
             assert tr_mult.shape == (grid.nk, grid.nj + 1, grid.ni)
             internal_zero_mask = np.logical_or(internal_zero_mask, np.isnan(tr_mult[:, 1:-1, :]))
+            tr_mult = tr_mult[:, 1:-1, :]
     if tr_mult is None:
         tr_mult = 1.0
     tr_abs_r = 0.0
@@ -276,7 +279,8 @@ def __set_j_transmissibility(grid, half_t, j_tr, modifier_mode, pc, realization,
         if tr_abs is not None:
             log.debug('applying absolute J face transmissibility modification')
             assert tr_abs.shape == (grid.nk, grid.nj + 1, grid.ni)
-            internal_zero_mask = np.logical_or(internal_zero_mask, tr_abs[:, 1:-1, :] <= 0.0)
+            tr_abs = tr_abs[:, 1:-1, :]
+            internal_zero_mask = np.logical_or(internal_zero_mask, tr_abs <= 0.0)
             tr_abs_r = np.where(np.logical_or(np.isinf(tr_abs), np.isnan(tr_abs)), 0.0, 1.0 / tr_abs)
     j_tr[:, 1:-1, :] = np.where(internal_zero_mask, 0.0, tr_mult / ((1.0 / slice_a) + tr_abs_r + (1.0 / slice_b)))
     if realization is None:
@@ -314,6 +318,7 @@ def __set_k_transmissibility(grid, half_t, k_tr, modifier_mode, pc, realization,
         if tr_mult is not None:
             assert tr_mult.shape == (grid.nk + 1, grid.nj, grid.ni)
             internal_zero_mask = np.logical_or(internal_zero_mask, np.isnan(tr_mult[1:-1, :, :]))
+            tr_mult = tr_mult[1:-1, :, :]
     if tr_mult is None:
         tr_mult = 1.0
     tr_abs_r = 0.0
@@ -342,7 +347,8 @@ def __set_k_transmissibility(grid, half_t, k_tr, modifier_mode, pc, realization,
         if tr_abs is not None:
             log.debug('applying absolute K face transmissibility modification')
             assert tr_abs.shape == (grid.nk + 1, grid.nj, grid.ni)
-            internal_zero_mask = np.logical_or(internal_zero_mask, tr_abs[1:-1, :, :] <= 0.0)
+            tr_abs = tr_abs[1:-1, :, :]
+            internal_zero_mask = np.logical_or(internal_zero_mask, tr_abs <= 0.0)
             tr_abs_r = np.where(np.logical_or(np.isinf(tr_abs), np.isnan(tr_abs)), 0.0, 1.0 / tr_abs)
     k_tr[1:-1, :, :] = np.where(internal_zero_mask, 0.0, tr_mult / ((1.0 / slice_a) + tr_abs_r + (1.0 / slice_b)))
     if realization is None:
-- 
2.43.0


From dab1f6f5f52b6f670035fe2d79eff38fadaa8d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:39 +0000
Subject: [PATCH 50/53] fix: transmissibilities kept by a grid are those
 without modifiers

---
 resqpy/grid/_transmissibility.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/resqpy/grid/_transmissibility.py b/resqpy/grid/_transmissibility.py
index b5a2238..3955f67 100644
--- a/resqpy/grid/_transmissibility.py
+++ b/resqpy/grid/_transmissibility.py
@@ -68,7 +68,7 @@ def transmissibility(grid, tolerance = 1.0e-6, use_tr_properties = True, realiza
 
     pc = grid.extract_property_collection() if use_tr_properties or modifier_mode is not None else None
 
-    if realization is None:
+    if realization is None and modifier_mode is None:
         if hasattr(grid, 'array_k_transmissibility') and grid.array_k_transmissibility is not None:
             k_tr = grid.array_k_transmissibility
         if hasattr(grid, 'array_j_transmissibility') and grid.array_j_transmissibility is not None:
@@ -228,6 +228,8 @@ def __set_i_transmissibility(grid, half_t, i_tr, modifier_mode, pc, realization,
             internal_zero_mask = np.logical_or(internal_zero_mask, tr_abs <= 0.0)
             tr_abs_r = np.where(np.logical_or(np.isinf(tr_abs), np.isnan(tr_abs)), 0.0, 1.0 / tr_abs)
     i_tr[:, :, 1:-1] = np.where(internal_zero_mask, 0.0, tr_mult / ((1.0 / slice_a) + tr_abs_r + (1.0 / slice_b)))
+    if realization is None and modifier_mode is None:
+        grid.array_i_transmissibility = i_tr
     return i_tr
 
 
@@ -283,7 +285,7 @@ def __set_j_transmissibility(grid, half_t, j_tr, modifier_mode, pc, realization,
             internal_zero_mask = np.logical_or(internal_zero_mask, tr_abs <= 0.0)
             tr_abs_r = np.where(np.logical_or(np.isinf(tr_abs), np.isnan(tr_abs)), 0.0, 1.0 / tr_abs)
     j_tr[:, 1:-1, :] = np.where(internal_zero_mask, 0.0, tr_mult / ((1.0 / slice_a) + tr_abs_r + (1.0 / slice_b)))
-    if realization is None:
+    if realization is None and modifier_mode is None:
         grid.array_j_transmissibility = j_tr
     return j_tr
 
@@ -351,7 +353,7 @@ def __set_k_transmissibility(grid, half_t, k_tr, modifier_mode, pc, realization,
             internal_zero_mask = np.logical_or(internal_zero_mask, tr_abs <= 0.0)
             tr_abs_r = np.where(np.logical_or(np.isinf(tr_abs), np.isnan(tr_abs)), 0.0, 1.0 / tr_abs)
     k_tr[1:-1, :, :] = np.where(internal_zero_mask, 0.0, tr_mult / ((1.0 / slice_a) + tr_abs_r + (1.0 / slice_b)))
-    if realization is None:
+    if realization is None and modifier_mode is None:
         grid.array_k_transmissibility = k_tr
     return k_tr
 
-- 
2.43.0


From 3ad635fec3bd13a411ea03f242f02bfeb6fb9097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:39 +0000
Subject: [PATCH 51/53] fix: transmissibility of a connection uses the face of
 the second cell, not that of the first

---
 resqpy/fault/_grid_connection_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/fault/_grid_connection_set.py b/resqpy/fault/_grid_connection_set.py
index d094452..a899161 100644
--- a/resqpy/fault/_grid_connection_set.py
+++ b/resqpy/fault/_grid_connection_set.py
@@ -1896,7 +1896,7 @@ class GridConnectionSet(BaseResqpy):
         gi_m = gi_p = 0  # used below in single grid case
         for e in range(count):
             axis_m, polarity_m = self.face_index_inverse_map[self.face_index_pairs[e, 0]]
-            axis_p, polarity_p = self.face_index_inverse_map[self.face_index_pairs[e, 0]]
+            axis_p, polarity_p = self.face_index_inverse_map[self.face_index_pairs[e, 1]]
             if single_grid:
                 kji0_m = kji0[e, 0]
                 kji0_p = kji0[e, 1]
-- 
2.43.0


From 7de19dae5efb0d2f80e8330ec487459c8e588268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:45 +0000
Subject: [PATCH 52/53] fix: horizontal half cell transmissibilities of
 vertical prisms allow for height and are in the order of the faces

---
 resqpy/olio/transmission.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/resqpy/olio/transmission.py b/resqpy/olio/transmission.py
index 5f89def..7625787 100644
--- a/resqpy/olio/transmission.py
+++ b/resqpy/olio/transmission.py
@@ -408,6 +408,9 @@ def half_cell_t_vertical_prism(vpg,
     p = vpg.points_ref()
     t = vpg.triangulation()
     a_t, d_t = half_cell_t_2d_triangular_precursor(p, t)
+    # switch from order of opposite vertices to that of the vertical faces in faces per cell
+    a_t = np.roll(a_t, -1, axis = 1)
+    d_t = np.roll(d_t, -1, axis = 1)
     # find heights of cells and faces
     # find horizontal area of triangles
     triangle_areas = vec.area_of_triangles(p, t, xy_projection = True).reshape((1, -1))
@@ -425,8 +428,8 @@ def half_cell_t_vertical_prism(vpg,
     dt_full = np.empty((vpg.nk, vpg.cell_count // vpg.nk, 3), dtype = float)
     dt_full[:] = d_t
     tr[:, 2:] = np.where(dt_full < tolerance, np.nan,
-                         triple_perm_horizontal.reshape((vpg.nk, -1, 3)) * a_t.reshape((1, -1, 3)) / dt_full).reshape(
-                             (-1, 3))
+                         triple_perm_horizontal.reshape((vpg.nk, -1, 3)) * a_t.reshape((1, -1, 3)) * 2.0 *
+                         half_thickness.reshape((vpg.nk, -1, 1)) / dt_full).reshape((-1, 3))
     if ntg is not None:
         tr[:, 2:] *= ntg.reshape((-1, 1))
 
-- 
2.43.0


From 88226d394585062a491cbb8fa8be0d7a3c66c2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:45 +0000
Subject: [PATCH 53/53] fix: half cell transmissibility property of a vertical
 prism grid is found and used

---
 resqpy/unstructured/_prism_grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resqpy/unstructured/_prism_grid.py b/resqpy/unstructured/_prism_grid.py
index 7551487..8b87443 100644
--- a/resqpy/unstructured/_prism_grid.py
+++ b/resqpy/unstructured/_prism_grid.py
@@ -613,7 +613,7 @@ class VerticalPrismGrid(PrismGrid):
                                          continuous = True,
                                          count = 1,
                                          indexable = 'faces per cell')
-            if half_t:
+            if half_t is not None:
                 assert half_t.size == 5 * self.cell_count
                 half_t = half_t.reshape(self.cell_count, 5)
 
-- 
2.43.0

