From 5feebd24b76d1516abcf5005bab0129c4041f375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:01 +0000
Subject: [PATCH 01/69] fix: projections no longer overwrite the coordinate
 arrays passed to them

---
 py_gnome/gnome/utilities/projections.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/py_gnome/gnome/utilities/projections.py b/py_gnome/gnome/utilities/projections.py
index 88fcf4b..cd19f09 100644
--- a/py_gnome/gnome/utilities/projections.py
+++ b/py_gnome/gnome/utilities/projections.py
@@ -330,8 +330,8 @@ class GeoProjection(GnomeId):
             # add 0.5 to shift to center of pixel
             coords += 0.5
 
-        # shift to pixel center coords
-        coords -= self.offset
+        # shift to pixel center coords (makes a copy -- don't change the input)
+        coords = coords - self.offset
 
         # scale to lat-lon
         coords /= self.scale
@@ -626,7 +626,8 @@ class RectangularGridProjection(NoProjection):
         """
         coords = to_2d_coords(coords)
         # All computation in floats -- convert to int if asked for
-        coords = np.asarray(coords, dtype=np.float64)
+        # (as a copy -- don't change the input)
+        coords = np.array(coords, dtype=np.float64)
         pixel_coords = np.zeros_like(coords, dtype=np.float64)
 
         np.putmask(coords,
@@ -702,9 +703,8 @@ class RectangularGridProjection(NoProjection):
 
         # out of bounds gets clipped to boundary
 
-        np.clip(coords,
-                (0, 0), (self.max_lon_index, self.max_lat_index),
-                out=coords)
+        coords = np.clip(coords,
+                         (0, 0), (self.max_lon_index, self.max_lat_index))
 
         # interpolate to lon-lat_coords
         lon = self._pixel_to_lon_interp(coords[:, 0])
-- 
2.43.0


From 05d4243307e1f63c86c0cae2fccf53363c7b3489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:29 +0000
Subject: [PATCH 02/69] fix: cleanup active range inside one time step is
 credited with its own length only

---
 py_gnome/gnome/weatherers/cleanup.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/weatherers/cleanup.py b/py_gnome/gnome/weatherers/cleanup.py
index 7ba87ee..4c578e7 100644
--- a/py_gnome/gnome/weatherers/cleanup.py
+++ b/py_gnome/gnome/weatherers/cleanup.py
@@ -69,8 +69,9 @@ class RemoveMass(object):
                                           model_time).total_seconds()
 
         if (self.active_range[1] < model_time + dt):
-            self._timestep = (self.active_range[1] -
-                              model_time).total_seconds()
+            # the start may already have been cut off above
+            self._timestep -= (model_time + dt -
+                               self.active_range[1]).total_seconds()
 
     def prepare_for_model_step(self, sc, time_step, model_time):
         '''
-- 
2.43.0


From d27cc02636eb12b0c0068b47e2f9b6e5a1009215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:59 +0000
Subject: [PATCH 03/69] fix: OrderedCollection.replace by index hit the wrong
 object after a removal

---
 py_gnome/gnome/utilities/orderedcollection.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/utilities/orderedcollection.py b/py_gnome/gnome/utilities/orderedcollection.py
index 0bfc136..ff36efd 100644
--- a/py_gnome/gnome/utilities/orderedcollection.py
+++ b/py_gnome/gnome/utilities/orderedcollection.py
@@ -137,8 +137,9 @@ class OrderedCollection(object):
                             f'expected {self.dtype}, got {type(new_elem)}')
 
         if isinstance(ident, int):
-            l__key = self._s_id(self._elems[ident])
-            idx = ident
+            # an index counts the objects in the collection, not the
+            # slots left behind by removed ones (same as get() and remove())
+            l__key = self._s_id(self.get(ident))
         else:
             if ident in self._d_index:
                 l__key = ident
@@ -146,7 +147,7 @@ class OrderedCollection(object):
                 raise KeyError('Cannot find object by this "id" in '
                                'OrderedCollection')
 
-            idx = self._d_index[l__key]
+        idx = self._d_index[l__key]
 
         # found existing object
         del self._d_index[l__key]
-- 
2.43.0


From fea316250dcd04bfc3fc4ee0f869babb4de65775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:41 +0000
Subject: [PATCH 04/69] fix: slices of OrderedCollection with negative or out
 of range bounds

---
 py_gnome/gnome/utilities/orderedcollection.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/py_gnome/gnome/utilities/orderedcollection.py b/py_gnome/gnome/utilities/orderedcollection.py
index ff36efd..bce99e4 100644
--- a/py_gnome/gnome/utilities/orderedcollection.py
+++ b/py_gnome/gnome/utilities/orderedcollection.py
@@ -203,10 +203,7 @@ class OrderedCollection(object):
 
     def _slice_attr(self, ident):
         'support for slice operations like a list'
-        start = (ident.start, 0)[ident.start is None]
-        stop = (ident.stop, len(self))[ident.stop is None]
-        step = (ident.step, 1)[ident.step is None]
-        return (start, stop, step)
+        return ident.indices(len(self))
 
     def __getitem__(self, ident):
         'slicing works just like it does for lists'
-- 
2.43.0


From 6592f9713c74b3f114eb2c377c867d817c348294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:07 +0000
Subject: [PATCH 05/69] fix: TZOffset truncated fractional-hour offsets by a
 minute

---
 py_gnome/gnome/utilities/time_utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/utilities/time_utils.py b/py_gnome/gnome/utilities/time_utils.py
index 4e48b37..c7ceb6b 100644
--- a/py_gnome/gnome/utilities/time_utils.py
+++ b/py_gnome/gnome/utilities/time_utils.py
@@ -75,7 +75,7 @@ class TZOffset:
         if self.offset is None:
             return timedelta(0)
         else:
-            return timedelta(minutes=int(self.offset * 60))
+            return timedelta(minutes=round(self.offset * 60))
 
     def as_iso_string(self):
         """
@@ -91,8 +91,7 @@ class TZOffset:
             return ""
         else:
             sign = "-" if self.offset <0 else "+"
-            hours = int(abs(self.offset))
-            minutes = int((abs(self.offset) - hours) * 60)
+            hours, minutes = divmod(round(abs(self.offset) * 60), 60)
             return f"{sign}{hours:0>2}:{minutes:0>2}"
 
 
-- 
2.43.0


From 59883e1f6c3c6bc8c87d6b86ea9316fd3a2ade50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:15 +0000
Subject: [PATCH 06/69] fix: PointLineRelease.rewind kept the volume released
 by the previous run

---
 py_gnome/gnome/spills/release.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index a4a443d..c2a88ba 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -667,12 +667,6 @@ class PointLineRelease(Release):
                                         time=t,
                                         variables=[lon_ts, lat_ts, z_ts])
 
-    def rewind(self):
-        self._prepared = False
-        self._mass_per_le = 0
-        self._release_ts = None
-        self._pos_ts = None
-
     def prepare_for_model_run(self, ts):
         super(PointLineRelease, self).prepare_for_model_run(ts)
         self._prepared = True
-- 
2.43.0


From c2f6829305a4055a89f3e92f5d3f26d924e9dc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:16 +0000
Subject: [PATCH 07/69] fix: PointLineRelease ignored num_per_timestep

---
 py_gnome/gnome/spills/release.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index c2a88ba..2df20bb 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -288,7 +288,7 @@ class Release(GnomeId):
             method referenced by num_elements_to_release
         '''
         self._num_per_timestep = val
-        if val is not None or val < 0:
+        if val is not None:
             self._num_elements = None
 
     @property
@@ -571,6 +571,7 @@ class PointLineRelease(Release):
         super(PointLineRelease, self).__init__(release_time=release_time,
                                                end_release_time=end_release_time,
                                                num_elements=num_elements,
+                                               num_per_timestep=num_per_timestep,
                                                release_mass = release_mass,
                                                **kwargs)
 
@@ -1445,6 +1446,7 @@ class SubsurfaceRelease(PointLineRelease):
         super(SubsurfaceRelease, self).__init__(release_time=release_time,
                                                end_release_time=end_release_time,
                                                num_elements=num_elements,
+                                               num_per_timestep=num_per_timestep,
                                                release_mass = release_mass,
                                                start_position = start_position,
                                                end_position = end_position,
-- 
2.43.0


From 10531087d66094d10b049833956b055210d8eec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:27 +0000
Subject: [PATCH 08/69] fix: element ids counted on across runs and between
 forecast and uncertain containers

---
 py_gnome/gnome/spill_container.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/py_gnome/gnome/spill_container.py b/py_gnome/gnome/spill_container.py
index a7332e1..f66572b 100644
--- a/py_gnome/gnome/spill_container.py
+++ b/py_gnome/gnome/spill_container.py
@@ -8,6 +8,7 @@ set of arrays. The spills themselves provide some of the arrays themselves
 """
 
 import os
+import copy
 
 import numpy as np
 
@@ -825,6 +826,10 @@ class SpillContainer(AddLogger, SpillContainerData):
                 s.prepare_for_model_run(time_step)
         ats = default_array_types.copy()
         ats.update(array_types)
+        # the 'id' array type carries the counter of the ids given out: each
+        # container needs its own, starting over with each run
+        ats['id'] = copy.copy(ats['id'])
+        ats['id'].initial_value = 0
         self._array_types = ats
 
         # if self._substances_spills is None:
-- 
2.43.0


From c42bcb0d4ec24d977c1bb52e3c4543d2d283e284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:27 +0000
Subject: [PATCH 09/69] fix: PolygonRelease.rewind kept the volume released by
 the previous run

---
 py_gnome/gnome/spills/release.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index 2df20bb..1408ef1 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -883,12 +883,9 @@ class PolygonRelease(Release):
         return [geo_routines.geo_area_of_polygon(p) for p in self.polygons]
 
     def rewind(self):
-        self._prepared = False
-        self._mass_per_le = 0
-        self._release_ts = None
+        super(PolygonRelease, self).rewind()
         self._tris = None
         self._weights = None
-        #self._pos_ts = None
 
     def get_polys_as_tris(self, polys, weights=None):
         #decomposes a
-- 
2.43.0


From 330c5c8dcdbc905aa0a0ba23bf6ba149151b74d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:54 +0000
Subject: [PATCH 10/69] fix: coarse land check let elements jump over land

---
 py_gnome/gnome/cy_gnome/cy_land_check.pyx | 59 ++++++++++++++++++-----
 1 file changed, 47 insertions(+), 12 deletions(-)

diff --git a/py_gnome/gnome/cy_gnome/cy_land_check.pyx b/py_gnome/gnome/cy_gnome/cy_land_check.pyx
index 847ad1d..1d43750 100644
--- a/py_gnome/gnome/cy_gnome/cy_land_check.pyx
+++ b/py_gnome/gnome/cy_gnome/cy_land_check.pyx
@@ -171,6 +171,31 @@ cdef bool c_find_first_pixel(uint8_t* grid,
 
 
 
+cdef bool c_land_in_box(uint8_t* grid,
+                        int32_t m,
+                        int32_t n,
+                        int32_t x0,
+                        int32_t y0,
+                        int32_t x1,
+                        int32_t y1,
+                        ):
+    """
+    returns True if there is any land in the box spanned by the two cells
+
+    Every pixel on the way from one end of a move to the other lies in that
+    box, so no land there means that the move can not hit land. (a line drawn
+    through the cells of a coarse grid does not pass through all the cells
+    that the line drawn on the fine grid passes through)
+    """
+    cdef int32_t x, y
+
+    for x in range(max(min(x0, x1), 0), min(max(x0, x1), m - 1) + 1):
+        for y in range(max(min(y0, y1), 0), min(max(y0, y1), n - 1) + 1):
+            if grid[x * n + y] != 0:
+                return True
+    return False
+
+
 def find_first_pixel(grid, pt1, pt2):
     """
     This finds the first non-zero pixel that is encountered when following
@@ -339,18 +364,28 @@ def check_land_layers(grid_layers,
                 coarse_end[0] = div(end_positions[i,0], grid_ratios[layer]).quot
                 coarse_end[1] = div(end_positions[i,1], grid_ratios[layer]).quot
                 cur_ratio = grid_ratios[layer]
-                did_hit = c_find_first_pixel(dataptrs[layer],
-                                         widths[layer],
-                                         heights[layer],
-                                         coarse_pos[0],
-                                         coarse_pos[1],
-                                         coarse_end[0],
-                                         coarse_end[1],
-                                         &prev_x,
-                                         &prev_y,
-                                         &hit_x,
-                                         &hit_y,
-                                         )
+                if layer < num_ratios - 1:
+                    did_hit = c_land_in_box(dataptrs[layer],
+                                            widths[layer],
+                                            heights[layer],
+                                            coarse_pos[0],
+                                            coarse_pos[1],
+                                            coarse_end[0],
+                                            coarse_end[1],
+                                            )
+                else:
+                    did_hit = c_find_first_pixel(dataptrs[layer],
+                                                 widths[layer],
+                                                 heights[layer],
+                                                 coarse_pos[0],
+                                                 coarse_pos[1],
+                                                 coarse_end[0],
+                                                 coarse_end[1],
+                                                 &prev_x,
+                                                 &prev_y,
+                                                 &hit_x,
+                                                 &hit_y,
+                                                 )
                 if did_hit:
                     if layer == num_ratios - 1:
                         # hit on the lowest layer (confirmed land hit)
-- 
2.43.0


From 3bcf7bd8967d9bf965e4692e9983cd517ef28056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:37 +0000
Subject: [PATCH 11/69] fix: elements that left the map were still weathered in
 that step

---
 py_gnome/gnome/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index 757e1cd..0be467c 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -1025,6 +1025,10 @@ class Model(GnomeId):
             on_land_mask = sc['status_codes'] == oil_status.on_land
             sc['fate_status'][on_land_mask] = fate.non_weather
 
+            # the mass of elements that left the map is already accounted for
+            removed_mask = sc['status_codes'] == oil_status.to_be_removed
+            sc['fate_status'][removed_mask] = fate.non_weather
+
             w_mask = ((sc['status_codes'] == oil_status.in_water)
                       & ~(sc['fate_status'] & fate.skim == fate.skim)
                       & ~(sc['fate_status'] & fate.burn == fate.burn)
-- 
2.43.0


From c419027e13b99dc1a5344d432016f122f3b77735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:45 +0000
Subject: [PATCH 12/69] fix: density of weathered elements was not updated
 while others are not weathering

---
 py_gnome/gnome/ops/density.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/ops/density.py b/py_gnome/gnome/ops/density.py
index 2fb9f68..435521e 100644
--- a/py_gnome/gnome/ops/density.py
+++ b/py_gnome/gnome/ops/density.py
@@ -104,7 +104,7 @@ def recalc_density(sc, water=None, aggregate=True):
             data['density'] = new_rho
             data['oil_density'] = oil_rho
 
-    sc.update_from_fatedataview(fate_status='all')
+    sc.update_from_fatedataview(fate_status='surface_weather')
 
     # also initialize/update aggregated sc
     if aggregate:
-- 
2.43.0


From 9567c5d4daa8a208a403eaa09c43dfc2157343c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:31 +0000
Subject: [PATCH 13/69] fix: RasterMap.in_water looked up pixels outside the
 raster

---
 py_gnome/gnome/maps/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/maps/map.py b/py_gnome/gnome/maps/map.py
index 7411f00..cef39f9 100644
--- a/py_gnome/gnome/maps/map.py
+++ b/py_gnome/gnome/maps/map.py
@@ -1022,7 +1022,7 @@ class RasterMap(GnomeMap):
     def _in_water_pixel(self, coord):
         # if  off the raster, so must be in water,
         # unless not on map, which should have already been checked.
-        if not self._off_raster:
+        if self._off_raster(coord):
             return True
         else:
             return not self.raster[coord[0], coord[1]] & self.land_flag
-- 
2.43.0


From 75f91c1748f46ab5d83cd1dc94a1898d35a72093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:31 +0000
Subject: [PATCH 14/69] fix: ParamMap counted the mass that left the map
 several times

---
 py_gnome/gnome/maps/map.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/py_gnome/gnome/maps/map.py b/py_gnome/gnome/maps/map.py
index cef39f9..18abea4 100644
--- a/py_gnome/gnome/maps/map.py
+++ b/py_gnome/gnome/maps/map.py
@@ -660,7 +660,6 @@ class ParamMap(GnomeMap):
         the land is so simple the collisions are detected via intersection.
         """
         self.resurface_airborne_elements(sc)
-        self._set_off_map_status(sc)
 
         start_pos = sc['positions']
         next_pos = sc['next_positions']
@@ -672,17 +671,10 @@ class ParamMap(GnomeMap):
         move_particles(start_pos, next_pos, status_codes,
                        last_water_positions, self.land_points)
 
-        self._set_off_map_status(sc)
-
-        # todo: need a prepare_for_model_run() so map adds these keys to
-        #     mass_balance as opposed to SpillContainer
-        # update 'off_maps'/'beached' in mass_balance
+        # this updates 'off_maps'/'beached' in mass_balance
         # note: this requires that the elements get removed before the
         #       next timestep, or it would get double counted.
-        sc.mass_balance['beached'] = \
-            sc['mass'][sc['status_codes'] == oil_status.on_land].sum()
-        sc.mass_balance['off_maps'] += \
-            sc['mass'][sc['status_codes'] == oil_status.off_maps].sum()
+        self._set_off_map_status(sc)
 
     def refloat_elements(self, spill_container, time_step, model_time=None):
         """
-- 
2.43.0


From ce6b4977798a4454b3cd20d3ba381e7203b4b165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:31 +0000
Subject: [PATCH 15/69] fix: ShiftLon360/ShiftLon180 left polygons that
 straddle the limit unshifted

---
 py_gnome/gnome/maps/map.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/py_gnome/gnome/maps/map.py b/py_gnome/gnome/maps/map.py
index 18abea4..f4afc70 100644
--- a/py_gnome/gnome/maps/map.py
+++ b/py_gnome/gnome/maps/map.py
@@ -1192,17 +1192,11 @@ class RasterMap(GnomeMap):
 # Fixme -- use utilities.convert_longitude
 
 def ShiftLon360(points):
-    try:
-        points[points[:,0] < 0, 0] = points[:, 0] + 360
-    except ValueError:
-        pass
+    points[points[:, 0] < 0, 0] += 360
     return points
 
 def ShiftLon180(points):
-    try:
-        points[points[:,0] > 180, 0] = points[:, 0] - 360
-    except ValueError:
-        pass
+    points[points[:, 0] > 180, 0] -= 360
     return points
 
 class MapFromBNA(RasterMap):
-- 
2.43.0


From a20370196efc3a972ddc226f64994cf8f4848def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:31 +0000
Subject: [PATCH 16/69] fix: elements released on land refloated to longitude
 0, latitude 0

---
 py_gnome/gnome/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index 0be467c..5c16779 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -1260,6 +1260,8 @@ class Model(GnomeId):
                 # for sc in self.spills.items():
                 on_land = self.map.on_land_points(sc['positions'][-num_released:])
                 sc['status_codes'][-num_released:][on_land] = oil_status.on_land
+                # so that they refloat where they were released
+                sc['last_water_positions'][-num_released:] = sc['positions'][-num_released:]
 
                 for item in self.weatherers:
                     if item.on:
-- 
2.43.0


From 7e7f9aa176dbef360127ab487b1fbda894063219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:31 +0000
Subject: [PATCH 17/69] fix: setting PolygonRelease.polygons raised
 UnboundLocalError

---
 py_gnome/gnome/spills/release.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index 1408ef1..29b6e4e 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -843,7 +843,7 @@ class PolygonRelease(Release):
     @polygons.setter
     def polygons(self, polys):
         #polygons must be list of shapely or geojson (Multi)Polygon
-        for feat, poly in zip(self.features[:], poly):
+        for feat, poly in zip(self.features[:], polys):
             feat.geometry = geojson.loads(geojson.dumps(poly.__geo_interface__))
 
     @property
-- 
2.43.0


From fadc0985e99e954c4008af7911bce4157c7b8eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:26 +0000
Subject: [PATCH 18/69] fix: uncertain current moves used the already perturbed
 eastward move for the northward one

---
 py_gnome/gnome/movers/py_current_movers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/movers/py_current_movers.py b/py_gnome/gnome/movers/py_current_movers.py
index f76dd6f..5139b0f 100644
--- a/py_gnome/gnome/movers/py_current_movers.py
+++ b/py_gnome/gnome/movers/py_current_movers.py
@@ -321,8 +321,9 @@ class CurrentMover(movers.PyMover):
             # make a copy of deltas
             new_deltas = deltas.copy()
             unrec = self._uncertainty_list
-            u = new_deltas[:, 0]
-            v = new_deltas[:, 1]
+            # not views of new_deltas, which is overwritten below
+            u = deltas[:, 0]
+            v = deltas[:, 1]
             lengthS = np.hypot(u, v)
 
             #alpha = unrec.downStream
-- 
2.43.0


From 88e3d812506da4f6e6ebae90ccbc38c387f3d531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:27 +0000
Subject: [PATCH 19/69] fix: uncertain runs crashed when elements were removed
 before the uncertainty's time delay

---
 py_gnome/gnome/movers/py_current_movers.py | 3 ++-
 py_gnome/gnome/movers/py_wind_movers.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/movers/py_current_movers.py b/py_gnome/gnome/movers/py_current_movers.py
index 5139b0f..910ab6a 100644
--- a/py_gnome/gnome/movers/py_current_movers.py
+++ b/py_gnome/gnome/movers/py_current_movers.py
@@ -392,7 +392,8 @@ class CurrentMover(movers.PyMover):
             to_be_removed = np.where(sc['status_codes'] ==
                                      oil_status.to_be_removed)[0]
 
-            if len(to_be_removed) > 0:
+            # no values yet while the uncertainty is delayed
+            if len(to_be_removed) > 0 and len(self._uncertainty_list) > 0:
                 new_uncertainty = np.copy(self._uncertainty_list)
                 #self._uncertainty_list = np.delete(self._uncertainty_list, to_be_removed, axis=0)
                 self._uncertainty_list = np.delete(new_uncertainty, to_be_removed, axis=0)
diff --git a/py_gnome/gnome/movers/py_wind_movers.py b/py_gnome/gnome/movers/py_wind_movers.py
index a558857..3c19b3c 100644
--- a/py_gnome/gnome/movers/py_wind_movers.py
+++ b/py_gnome/gnome/movers/py_wind_movers.py
@@ -209,7 +209,8 @@ class WindMover(movers.PyMover):
             to_be_removed = np.where(sc['status_codes'] ==
                                      oil_status.to_be_removed)[0]
 
-            if len(to_be_removed) > 0:
+            # no values yet while the uncertainty is delayed
+            if len(to_be_removed) > 0 and len(self.uncertainty_list) > 0:
                 new_uncertainty = np.copy(self.uncertainty_list)
                 self.uncertainty_list = np.delete(new_uncertainty, to_be_removed, axis=0)
 
-- 
2.43.0


From 805af84273ceffa77f7914633131b786ffb2d74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:26 +0000
Subject: [PATCH 20/69] fix: output_start_time works for backward runs

Before, a backward run wrote output up to output_start_time and nothing after it.
---
 py_gnome/gnome/outputters/outputter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/outputters/outputter.py b/py_gnome/gnome/outputters/outputter.py
index 5641998..1a8e1b1 100644
--- a/py_gnome/gnome/outputters/outputter.py
+++ b/py_gnome/gnome/outputters/outputter.py
@@ -295,7 +295,8 @@ class Outputter(GnomeId):
         d = timedelta(seconds=time_step)
         if self.output_start_time is not None:
             if self.output_start_time != self._model_start_time:
-                if model_time + d < self.output_start_time:
+                if ((model_time + d < self.output_start_time and time_step > 0) or
+                    (model_time + d > self.output_start_time and time_step < 0)):
                     self._write_step = False
                     return
 
-- 
2.43.0


From a6a996cdbbc5b859dd37597b3a2d1a8498b1e7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:26 +0000
Subject: [PATCH 21/69] fix: output_zero_step=False no longer suppresses every
 step

With no output_timestep, the flag cleared for the zero step was never set again, so only the last step was written.
---
 py_gnome/gnome/outputters/outputter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/outputters/outputter.py b/py_gnome/gnome/outputters/outputter.py
index 1a8e1b1..d9a6e59 100644
--- a/py_gnome/gnome/outputters/outputter.py
+++ b/py_gnome/gnome/outputters/outputter.py
@@ -316,7 +316,9 @@ class Outputter(GnomeId):
             self._write_step = False
             return
 
-        if self._output_timestep is not None:
+        if self._output_timestep is None:
+            self._write_step = True
+        else:
             self._write_step = False
             self._dt_since_lastoutput += time_step
 
-- 
2.43.0


From 80e5ca02242a6269133dc6f835fccd77a1960283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:26 +0000
Subject: [PATCH 22/69] fix: output_timestep keeps its period in backward runs

The remainder of a negative time was taken as a positive one, so steps were skipped unless output_timestep was a multiple of the time step.
---
 py_gnome/gnome/outputters/outputter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/outputters/outputter.py b/py_gnome/gnome/outputters/outputter.py
index d9a6e59..2089b6d 100644
--- a/py_gnome/gnome/outputters/outputter.py
+++ b/py_gnome/gnome/outputters/outputter.py
@@ -324,8 +324,10 @@ class Outputter(GnomeId):
 
             if abs(self._dt_since_lastoutput) >= abs(self._output_timestep):
                 self._write_step = True
-                self._dt_since_lastoutput = (self._dt_since_lastoutput %
-                                             self._output_timestep)
+                # keep the sign: time runs backward in a backward run
+                remainder = abs(self._dt_since_lastoutput) % self._output_timestep
+                self._dt_since_lastoutput = (remainder if time_step > 0
+                                             else -remainder)
 
     def model_step_is_done(self):
         '''
-- 
2.43.0


From ddb450a7fa06f251cdd41b002135a10135ab638b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:26 +0000
Subject: [PATCH 23/69] fix: write_output_post_run follows the same schedule as
 the run

The last step repeated the previous step's decision, and backward steps or steps of a day or more were taken for the wrong length.
---
 py_gnome/gnome/outputters/outputter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/outputters/outputter.py b/py_gnome/gnome/outputters/outputter.py
index 2089b6d..e579968 100644
--- a/py_gnome/gnome/outputters/outputter.py
+++ b/py_gnome/gnome/outputters/outputter.py
@@ -472,12 +472,12 @@ class Outputter(GnomeId):
         last_step = False
 
         for step_num in range(num_time_steps):
-            if (step_num > 0 and step_num < num_time_steps - 1):
+            if step_num > 0:
                 next_ts = (self.cache.load_timestep(step_num).items()[0].
                            current_time_stamp)
                 ts = next_ts - model_time
 
-                self.prepare_for_model_step(ts.seconds, model_time)
+                self.prepare_for_model_step(ts.total_seconds(), model_time)
 
             if step_num == num_time_steps - 1:
                 last_step = True
-- 
2.43.0


From 8f29651c8f91d27a153ce6ae7039c8647796b0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:54 +0000
Subject: [PATCH 24/69] fix: an outputter that is off writes nothing

Most outputters only look at the flag set by the base class, which ignored 'on'.
---
 py_gnome/gnome/outputters/outputter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py_gnome/gnome/outputters/outputter.py b/py_gnome/gnome/outputters/outputter.py
index e579968..60e200d 100644
--- a/py_gnome/gnome/outputters/outputter.py
+++ b/py_gnome/gnome/outputters/outputter.py
@@ -358,6 +358,10 @@ class Outputter(GnomeId):
         :type islast_step: bool
 
         """
+        if not self.on:
+            self._write_step = False
+            return
+
         if step_num == 0:
             if self.output_zero_step or self._single_output_at_start:
                 self._write_step = True  # this is the default
-- 
2.43.0


From af804cfa47f0d7370624751425195cfca7487bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:01 +0000
Subject: [PATCH 25/69] fix: PolygonSet.SetPointsData sets the metadata of the
 polygons

It set an unused attribute (and raised AttributeError without metadata), so the polygons could not be indexed.
---
 py_gnome/gnome/utilities/geometry/polygons.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/utilities/geometry/polygons.py b/py_gnome/gnome/utilities/geometry/polygons.py
index 3dbd25d..ad05772 100644
--- a/py_gnome/gnome/utilities/geometry/polygons.py
+++ b/py_gnome/gnome/utilities/geometry/polygons.py
@@ -290,9 +290,9 @@ class PolygonSet(object):
         self._PointsArray = np.array(PointData[0], self.dtype)
         self._IndexArray = np.array(PointData[1], dtype=np.int32)
         if MetaData is not None:
-            self._DataArray = MetaData
+            self._MetaDataList = list(MetaData)
         else:
-            self._DataArray = [None] * len(self.PointsArray)
+            self._MetaDataList = [None] * len(self)
 
     def Copy(self):
         """
-- 
2.43.0


From e7b540958eaa1cd17443113b807e4a723446a8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:13 +0000
Subject: [PATCH 26/69] fix: Wind converts the units of both components of 'uv'
 data

The string 'uv' was compared with the enum, so the second component kept its unit.
---
 py_gnome/gnome/environment/wind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index ae10b47..ec53b00 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -441,7 +441,7 @@ class Wind(Timeseries, Environment):
         if from_unit != to_unit:
             data[:, 0] = uc.convert('Velocity', from_unit, to_unit, data[:, 0])
 
-            if coord_sys == ts_format.uv:
+            if tsformat(coord_sys) == ts_format.uv:
                 data[:, 1] = uc.convert('Velocity', from_unit, to_unit, data[:, 1])
 
         return data
-- 
2.43.0


From 5d2d1e10e574144da749e37d6edc5b3adbbb669f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:13 +0000
Subject: [PATCH 27/69] fix: Wind no longer converts the units of the caller's
 timeseries array in place

---
 py_gnome/gnome/environment/wind.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index ec53b00..50e29f1 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -373,6 +373,7 @@ class Wind(Timeseries, Environment):
 
             wind_data = self._xform_input_timeseries(value)
             self._timeseries = wind_data.copy()
+            wind_data = wind_data.copy()    # may be the caller's own array
             wind_data['value'] = self._convert_units(wind_data['value'], coord_sys, units,
                                                      'meter per second')
 
-- 
2.43.0


From d43991b727ed98c0ad6e300b307343249054f584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:13 +0000
Subject: [PATCH 28/69] fix: Wind.set_wind_data keeps the timeseries in its own
 units

It stored the data converted to m/s as the timeseries in self.units, and converted the caller's array in place.
---
 py_gnome/gnome/environment/wind.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index 50e29f1..1139a6e 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -578,12 +578,7 @@ class Wind(Timeseries, Environment):
             self._check_units(units)
             self.units = units
 
-            wind_data = self._xform_input_timeseries(wind_data)
-            wind_data['value'] = self._convert_units(wind_data['value'], coord_sys, units,
-                                                     'meter per second')
-
-            super(Wind, self).set_timeseries(wind_data, coord_sys)
-            self._timeseries = wind_data
+            self.new_set_timeseries(wind_data, coord_sys)
         else:
             raise ValueError('Bad timeseries as input')
 
-- 
2.43.0


From 5e1c4030e4966f3ab91843f9c30464a038937986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:13 +0000
Subject: [PATCH 29/69] fix: Wind(filename=...) swapped the station's latitude
 and longitude

---
 py_gnome/gnome/environment/wind.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index 1139a6e..aac2fcd 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -215,8 +215,8 @@ class Wind(Timeseries, Environment):
             self.new_set_timeseries(wind_vel, coord_sys=coord_sys)
 
             if coords != (None, None):
-                self.longitude = coords[1]
-                self.latitude = coords[0]
+                self.longitude = coords[0]
+                self.latitude = coords[1]
 
             self.name = kwargs.pop('name', name)
             self.units = units
-- 
2.43.0


From 8d7408722e6584791f8972357b51f7e9e62c5f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:52 +0000
Subject: [PATCH 30/69] fix: RunningAverage.get_value /
 get_timeseries(datetime) always raised ValueError

---
 py_gnome/gnome/environment/running_average.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/environment/running_average.py b/py_gnome/gnome/environment/running_average.py
index fc7e00e..9a1180f 100644
--- a/py_gnome/gnome/environment/running_average.py
+++ b/py_gnome/gnome/environment/running_average.py
@@ -187,7 +187,7 @@ class RunningAverage(Environment):
             timeval = np.zeros((len(datetime), ),
                                dtype=basic_types.time_value_pair)
             timeval['time'] = date_to_sec(datetime)
-            timeval['value'] = self.ossm.get_time_value(timeval['time'])
+            timeval['value'], _err = self.ossm.get_time_value(timeval['time'])
 
             datetimeval = to_datetime_value_2d(timeval, 'uv')
 
-- 
2.43.0


From b93c44f8432ac21740fdd673bda9558e125df22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:52 +0000
Subject: [PATCH 31/69] fix: TimeseriesVector.at ignored extrapolate

---
 py_gnome/gnome/environment/timeseries_objects_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/environment/timeseries_objects_base.py b/py_gnome/gnome/environment/timeseries_objects_base.py
index 6f9a112..5158650 100644
--- a/py_gnome/gnome/environment/timeseries_objects_base.py
+++ b/py_gnome/gnome/environment/timeseries_objects_base.py
@@ -388,7 +388,7 @@ class TimeseriesVector(GnomeId):
             :rtype: double
         '''
         units = units if units else self._gnome_unit #no need to convert here, its handled in the subcomponents
-        val = np.column_stack([var.at(points, time,  units=units, **kwargs) for var in self.variables])
+        val = np.column_stack([var.at(points, time, units=units, extrapolate=extrapolate, **kwargs) for var in self.variables])
 
         # No need to unit convert since that should be handled by the individual variable objects
         if points is None:
-- 
2.43.0


From bb5dccf32939fc9ff7a598fba9f017b003c2caa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:52 +0000
Subject: [PATCH 32/69] fix: reading an OSSM wind file without a station name
 raised NameError

---
 py_gnome/gnome/environment/wind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index aac2fcd..f6aad48 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -866,7 +866,7 @@ def _read_ossm_header(infile):
     # Line 1: name
     name = infile.readline().strip()
     line_no += 1
-    name = str(filename) if not name else name
+    name = str(infile.name) if not name else name
 
     # line 2: location coords:
     line = infile.readline().strip()
-- 
2.43.0


From 72287a9600f997010cbd07e04821f3778a37210b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:52 +0000
Subject: [PATCH 33/69] fix: Wind.timeseries held u, v instead of speed and
 direction for 'uv' data

---
 py_gnome/gnome/environment/wind.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index f6aad48..4a333c3 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -380,6 +380,9 @@ class Wind(Timeseries, Environment):
             datetime_value_2d = self._xform_input_timeseries(wind_data)
             timeval = to_time_value_pair(wind_data, coord_sys)
             self.ossm.timeseries = timeval
+            if tsformat(coord_sys) == ts_format.uv:
+                # the timeseries property is always speed and direction
+                self._timeseries['value'] = self.get_wind_data()['value']
             if not hasattr(self, '_time') or self._time is None:
                 self._time = Time()
             self.time.data = self._timeseries['time'].astype(datetime.datetime)
-- 
2.43.0


From 6cfea2ecbca0e6c7a853a90308297a2371f0bb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:09 +0000
Subject: [PATCH 34/69] fix: timeseries given as lists were not checked for
 ascending times

---
 py_gnome/gnome/utilities/timeseries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/utilities/timeseries.py b/py_gnome/gnome/utilities/timeseries.py
index 4eec7b2..d6c63db 100644
--- a/py_gnome/gnome/utilities/timeseries.py
+++ b/py_gnome/gnome/utilities/timeseries.py
@@ -130,7 +130,7 @@ class Timeseries(GnomeId):
                         raise TimeseriesError('value: {} '
                                               'is not a timeseries value'
                                               .format(i))
-                return True
+                timeseries = self._xform_input_timeseries(timeseries)
 
         if not self._timeseries_is_ascending(timeseries):
             self.logger.error('{0} - timeseries are not in ascending order. '
-- 
2.43.0


From 262597a5f218f04b8834b42b7f4e41ee34020241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:09 +0000
Subject: [PATCH 35/69] fix: Wind.at ignored the requested units

---
 py_gnome/gnome/environment/wind.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index 4a333c3..8729a18 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -625,6 +625,8 @@ class Wind(Timeseries, Environment):
                        wind - value is the same for all points.
         :param time: Datetime of the time to be queried
 
+        :param units: units of the speed or velocity, 'm/s' by default
+
         :param coord_sys: String describing the coordinate system.
         '''
         if points is None:
@@ -663,7 +665,7 @@ class Wind(Timeseries, Environment):
             if self.extrapolation_is_allowed is None:  # shouldn't happen
                 self.extrapolation_is_allowed = False
         try:
-            data = self.get_wind_data(time, 'm/s', cs)[0]['value']
+            data = self.get_wind_data(time, units or 'm/s', cs)[0]['value']
         except IndexError:
             # CyTimeseries is raising an IndexError
             raise ValueError(f'time specified ({time}) is not within the bounds of the time: '
-- 
2.43.0


From 00d4b542b070dc82c0fd9df18f8a00bb61821d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:39 +0000
Subject: [PATCH 36/69] fix: an object could not be loaded from its .json file

---
 py_gnome/gnome/gnomeobject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/gnomeobject.py b/py_gnome/gnome/gnomeobject.py
index bbe17c3..b38bc46 100644
--- a/py_gnome/gnome/gnomeobject.py
+++ b/py_gnome/gnome/gnomeobject.py
@@ -968,7 +968,7 @@ class GnomeId(AddLogger, metaclass=GnomeObjMeta):
                 with open(saveloc, 'r') as fp:
                     json_ = json.load(fp)
 
-                if 'obj_type' in json:
+                if 'obj_type' in json_:
                     if class_from_objtype(json_['obj_type']) is not cls:
                         raise ValueError("{} does not contain a {}"
                                          .format(saveloc, cls.__name__))
-- 
2.43.0


From 66f8001283322ceec2a456cf1278a3dc91a2930a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:39 +0000
Subject: [PATCH 37/69] fix: comparing objects raised TypeError when one has a
 number where the other has None

---
 py_gnome/gnome/gnomeobject.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/gnomeobject.py b/py_gnome/gnome/gnomeobject.py
index b38bc46..7c2b9f7 100644
--- a/py_gnome/gnome/gnomeobject.py
+++ b/py_gnome/gnome/gnomeobject.py
@@ -739,8 +739,9 @@ class GnomeId(AddLogger, metaclass=GnomeObjMeta):
             elif isinstance(self_attr, float) or isinstance(other_attr, float):
                 # process as a float
                 # using np.allclose rather than math.isclose for consistency
-                if not np.allclose(self_attr, other_attr,
-                                   rtol=self.RTOL, atol=self.ATOL):
+                if (self_attr is None or other_attr is None or
+                    not np.allclose(self_attr, other_attr,
+                                    rtol=self.RTOL, atol=self.ATOL)):
                     diffs.append(f"Difference outside tolerance -- {name}: "
                                  f"self={self_attr!r}, other= {other_attr!r}")
                     if fail_early:
-- 
2.43.0


From e0c3d5432f26837766040df24971f5ecdc7124a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:39 +0000
Subject: [PATCH 38/69] fix: OilBudgetOutput could not be deserialized

---
 py_gnome/gnome/outputters/oil_budget.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/py_gnome/gnome/outputters/oil_budget.py b/py_gnome/gnome/outputters/oil_budget.py
index 665c5ee..6a9651c 100644
--- a/py_gnome/gnome/outputters/oil_budget.py
+++ b/py_gnome/gnome/outputters/oil_budget.py
@@ -71,6 +71,12 @@ class OilBudgetOutput(BaseMassBalanceOutputter, OutputterFilenameMixin):
                                                           self._valid_file_formats))
         self.file_format = file_format
 
+        # these are fixed for this outputter (see below), but are in its
+        # serialization
+        for option in ('output_zero_step', 'output_last_step',
+                       'output_single_step', 'output_start_time'):
+            kwargs.pop(option, None)
+
         super(OilBudgetOutput, self).__init__(filename=filename,
                                               cache=None,
                                               on=True,
-- 
2.43.0


From 68c530c6d6445c59dcbb72c0579be897ec60b8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:17 +0000
Subject: [PATCH 39/69] fix: a wind mover's uncertain times lost a second when
 set from hours (truncated, not rounded)

---
 py_gnome/gnome/movers/c_wind_movers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/movers/c_wind_movers.py b/py_gnome/gnome/movers/c_wind_movers.py
index 5271dbb..84bec32 100644
--- a/py_gnome/gnome/movers/c_wind_movers.py
+++ b/py_gnome/gnome/movers/c_wind_movers.py
@@ -108,7 +108,8 @@ class WindMoversBase(CyMover):
         return seconds / 3600.0
 
     def _hours_to_seconds(self, hours):
-        return hours * 3600.0
+        # stored in whole seconds
+        return round(hours * 3600.0)
 
     @property
     def uncertain_duration(self):
-- 
2.43.0


From 1f26fe2af466fd96ba8f53a2de73ea43a3f2eb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:26 +0000
Subject: [PATCH 40/69] fix: a change of time zone made an instantaneous
 release last (or raised ValueError)

---
 py_gnome/gnome/spills/release.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index 29b6e4e..fc54fff 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -238,7 +238,8 @@ class Release(GnomeId):
                 #but only if the new value is not None
                 off =  timedelta(hours=tzo.offset) - timedelta(hours=self._timezone_offset.offset)
                 self.release_time = self.release_time + off
-                self.end_release_time = self.end_release_time + off
+                if self._end_release_time is not None:  # None: an instantaneous release
+                    self.end_release_time = self._end_release_time + off
         self._timezone_offset = tzo
         
     def __repr__(self):
-- 
2.43.0


From 4f16ee324ab6d90f66a9e756ffcc9805b44681ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:26 +0000
Subject: [PATCH 41/69] fix: release_from_splot_data released 1000 elements
 whatever the number in the file

---
 py_gnome/gnome/spills/release.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index fc54fff..08461f6 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -1651,4 +1651,5 @@ def release_from_splot_data(release_time, filename):
     start_positions = np.repeat(pos, num_per_pos, axis=0)
 
     return Release(release_time=release_time,
+                   num_elements=len(start_positions),
                    custom_positions=start_positions)
-- 
2.43.0


From 9301809603b211d3709933010c0aab4b940c387c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:26 +0000
Subject: [PATCH 42/69] fix: a grid release that retains initial positions
 raised NameError

---
 py_gnome/gnome/spills/release.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index 08461f6..fa4e369 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -1121,7 +1121,7 @@ class GridRelease(Release):
         sc['init_mass'][sl] = self._mass_per_le
 
         if self.retain_initial_positions:
-            sc['init_positions'][sl] = pos
+            sc['init_positions'][sl] = positions
 
 
 
-- 
2.43.0


From 0d14d315d919bf7f0331d3a7151f48b53ddf2344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:26 +0000
Subject: [PATCH 43/69] fix: uncertain elements hardly moved in light winds
 (diffusion multiplied with the wind and without the time step)

---
 py_gnome/gnome/movers/py_wind_movers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/movers/py_wind_movers.py b/py_gnome/gnome/movers/py_wind_movers.py
index 3c19b3c..e11f04a 100644
--- a/py_gnome/gnome/movers/py_wind_movers.py
+++ b/py_gnome/gnome/movers/py_wind_movers.py
@@ -402,8 +402,9 @@ class WindMover(movers.PyMover):
                 if norm[i] < 1:
                     rand1 = np.random.uniform(-1., 1.)
                     rand2 = np.random.uniform(-1., 1.)
-                    deltas[i,0] = u[i] * self.uncertain_diffusion * rand1
-                    deltas[i,1] = v[i] * self.uncertain_diffusion * rand2
+                    # the diffusion is a velocity, added to the wind's
+                    deltas[i,0] = new_deltas[i,0] + self.uncertain_diffusion * rand1 * time_step
+                    deltas[i,1] = new_deltas[i,1] + self.uncertain_diffusion * rand2 * time_step
 
         else:
             raise ValueError("something wrong with uncertainty")
-- 
2.43.0


From 1eca24f6739759bfbb97e26eed01144a6d469330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:26 +0000
Subject: [PATCH 44/69] fix: the refloat half-life of a ParamMap could not be
 read or set (AttributeError)

---
 py_gnome/gnome/maps/map.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_gnome/gnome/maps/map.py b/py_gnome/gnome/maps/map.py
index f4afc70..2f358d9 100644
--- a/py_gnome/gnome/maps/map.py
+++ b/py_gnome/gnome/maps/map.py
@@ -110,6 +110,8 @@ class GnomeMap(GnomeId):
     _schema = GnomeMapSchema
     _ref_as = 'map'
 
+    seconds_in_hour = 60 * 60
+
     def __init__(self,
                  map_bounds=None,
                  spillable_area=None,
-- 
2.43.0


From c790320951bb979d454ddf7ada9648df9d3f290c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:06 +0000
Subject: [PATCH 45/69] fix: TimeseriesData.in_units returned converted data
 that still claimed its old units

---
 py_gnome/gnome/environment/timeseries_objects_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/environment/timeseries_objects_base.py b/py_gnome/gnome/environment/timeseries_objects_base.py
index 5158650..7df974e 100644
--- a/py_gnome/gnome/environment/timeseries_objects_base.py
+++ b/py_gnome/gnome/environment/timeseries_objects_base.py
@@ -212,7 +212,7 @@ class TimeseriesData(GnomeId):
                           'was not copied because it does not support '
                           'multiplication')
 
-        cpy._units = unit
+        cpy.units = unit
 
         return cpy
 
-- 
2.43.0


From 3d2ef0e586eabf4b7b54c5350070f2a1705de61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:06 +0000
Subject: [PATCH 46/69] fix: a PolygonSet made from data kept its metadata as
 an array (append and comparison raised)

---
 py_gnome/gnome/utilities/geometry/polygons.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/utilities/geometry/polygons.py b/py_gnome/gnome/utilities/geometry/polygons.py
index ad05772..fd0d4ee 100644
--- a/py_gnome/gnome/utilities/geometry/polygons.py
+++ b/py_gnome/gnome/utilities/geometry/polygons.py
@@ -201,9 +201,9 @@ class PolygonSet(object):
             self._IndexArray = np.array((0,), dtype=np.int32)
             self._MetaDataList = []
         else:
-            self._PointsArray = np.array(data[0])
-            self._IndexArray = np.array(data[1])
-            self._MetaDataList = np.array(data[2])
+            self._PointsArray = np.array(data[0], dtype=self.dtype)
+            self._IndexArray = np.array(data[1], dtype=np.int32)
+            self._MetaDataList = list(data[2])
 
     def append(self, polygon, metadata=None):
 
-- 
2.43.0


From 4dd651b8623c37891e6c981e98d638803fbca583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:06 +0000
Subject: [PATCH 47/69] fix: PolygonSets that split the same points differently
 compared equal

---
 py_gnome/gnome/utilities/geometry/polygons.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py_gnome/gnome/utilities/geometry/polygons.py b/py_gnome/gnome/utilities/geometry/polygons.py
index fd0d4ee..e24f001 100644
--- a/py_gnome/gnome/utilities/geometry/polygons.py
+++ b/py_gnome/gnome/utilities/geometry/polygons.py
@@ -369,6 +369,7 @@ class PolygonSet(object):
             return False
         else:
             return (np.array_equal(self._PointsArray, other._PointsArray) and
+                    np.array_equal(self._IndexArray, other._IndexArray) and
                     self._MetaDataList == other._MetaDataList)
 
     def __ne__(self, other):
-- 
2.43.0


From 1425ecf1d15744a7fc8ecab81d826adac3bf151c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:17 +0000
Subject: [PATCH 48/69] fix: a constant TimeseriesData could not be given in
 other units

---
 py_gnome/gnome/environment/timeseries_objects_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/environment/timeseries_objects_base.py b/py_gnome/gnome/environment/timeseries_objects_base.py
index 7df974e..1eb65bb 100644
--- a/py_gnome/gnome/environment/timeseries_objects_base.py
+++ b/py_gnome/gnome/environment/timeseries_objects_base.py
@@ -148,7 +148,7 @@ class TimeseriesData(GnomeId):
         pts = _reorganize_spatial_data(points)
         value = None
         if len(self.time) == 1:
-            value = self.data
+            value = np.asarray(self.data)
         else:
             extrapolate = self.extrapolate or extrapolate
             if not extrapolate:
-- 
2.43.0


From 237a2c213964d7de799d996faed2b1d952ee81b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:07 +0000
Subject: [PATCH 49/69] fix: a CurrentMover with a SteadyUniformCurrent can be
 saved and serialized

---
 py_gnome/gnome/movers/py_current_movers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/movers/py_current_movers.py b/py_gnome/gnome/movers/py_current_movers.py
index 910ab6a..251dc02 100644
--- a/py_gnome/gnome/movers/py_current_movers.py
+++ b/py_gnome/gnome/movers/py_current_movers.py
@@ -14,7 +14,7 @@ from gnome.utilities.projections import FlatEarthProjection
 from gnome.utilities.time_utils import TZOffset
 
 
-from gnome.environment import GridCurrent
+from gnome.environment import GridCurrent, SteadyUniformCurrent
 from gnome.environment.gridded_objects_base import Grid_U, VectorVariableSchema
 
 from gnome.movers.movers import TimeRangeSchema, PyMoverSchema
@@ -30,7 +30,8 @@ class CurrentMoverSchema(PyMoverSchema):
     current = GeneralGnomeObjectSchema(save=True, update=True,
                                        save_reference=True,
                                        acceptable_schemas=[VectorVariableSchema,
-                                                           GridCurrent._schema]
+                                                           GridCurrent._schema,
+                                                           SteadyUniformCurrent._schema]
                                        )
     uncertain_along = SchemaNode(
         Float(), missing=drop, save=True, update=True
-- 
2.43.0


From ec58cd377b41b70eb33a6c3bb4cd58605c7b07ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:07 +0000
Subject: [PATCH 50/69] fix: output after a run starts at the first scheduled
 step again

---
 py_gnome/gnome/outputters/outputter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py_gnome/gnome/outputters/outputter.py b/py_gnome/gnome/outputters/outputter.py
index 60e200d..53f2931 100644
--- a/py_gnome/gnome/outputters/outputter.py
+++ b/py_gnome/gnome/outputters/outputter.py
@@ -256,6 +256,7 @@ class Outputter(GnomeId):
             self._write_step = True
 
         self._dt_since_lastoutput = 0
+        self._is_first_output = True
         self._middle_of_run = True
 
         # kludge to catch special case of single output at the model start time
-- 
2.43.0


From 2e4dd2bb881d6bbbe46daf5fc4a3b68c7c6e1b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:47 +0000
Subject: [PATCH 51/69] fix: objects of any name can be saved and found again
 (braces, leading dots, long names)

---
 py_gnome/gnome/persist/base_schema.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/persist/base_schema.py b/py_gnome/gnome/persist/base_schema.py
index 287260d..d9b2f0e 100644
--- a/py_gnome/gnome/persist/base_schema.py
+++ b/py_gnome/gnome/persist/base_schema.py
@@ -990,15 +990,18 @@ def gen_unique_filename(filename_in, zipfile_):
     also sanitizes out illegal characters
     """
     filename_in = sanitize_string(filename_in)
+    # a hidden file would not be found again when loading
+    filename_in = re.sub(r'^\.', '_', filename_in)
     existing_files = set(zipfile_.namelist())
     file_name, extension = get_file_name_ext(filename_in)
-    fmtstring = file_name + '{0}' + extension
-    new_fn = fmtstring.format('')
+    # file systems limit the length of a file name (255 bytes)
+    file_name = file_name[:60]
+    new_fn = file_name + extension
 
     for i in range(255):
         if new_fn not in existing_files:
             return new_fn
         else:
-            new_fn = fmtstring.format(' (' + str(i) + ')')
+            new_fn = '{0} ({1}){2}'.format(file_name, i, extension)
 
     raise ValueError('Same file name used too many times')
-- 
2.43.0


From e8ddb4a08068d5a01febe00ed3ad6ebdc184ba66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:59 +0000
Subject: [PATCH 52/69] fix: data files of the same name from different folders
 are saved separately

---
 py_gnome/gnome/persist/base_schema.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/py_gnome/gnome/persist/base_schema.py b/py_gnome/gnome/persist/base_schema.py
index d9b2f0e..d8be951 100644
--- a/py_gnome/gnome/persist/base_schema.py
+++ b/py_gnome/gnome/persist/base_schema.py
@@ -391,6 +391,12 @@ class ObjType(SchemaType):
         d_fname = os.path.split(raw_path)[1]
         # add datafile to zip archive
 
+        if d_fname in zipfile_.namelist():
+            # another file of the same name, or the same file again?
+            with open(raw_path, 'rb') as datafile:
+                if zipfile_.read(d_fname) != datafile.read():
+                    d_fname = gen_unique_filename(d_fname, zipfile_)
+
         if d_fname not in zipfile_.namelist():
             zipfile_.write(raw_path, d_fname)
 
-- 
2.43.0


From b4b210273d468b275a2c5616a1846c2afe2a12a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:00 +0000
Subject: [PATCH 53/69] fix: a Beaching with its water can be saved

---
 py_gnome/gnome/weatherers/manual_beaching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/weatherers/manual_beaching.py b/py_gnome/gnome/weatherers/manual_beaching.py
index b95f09a..68d88cf 100644
--- a/py_gnome/gnome/weatherers/manual_beaching.py
+++ b/py_gnome/gnome/weatherers/manual_beaching.py
@@ -22,7 +22,7 @@ from gnome.persist import (validators, base_schema, DefaultTupleSchema,
 
 from .core import WeathererSchema
 from .cleanup import RemoveMass
-from gnome.environment.environment import WaterSchema
+from gnome.environment.water import WaterSchema
 
 
 class BeachingTupleSchema(DefaultTupleSchema):
-- 
2.43.0


From 0d4220dffac512c2c65a176166448a1a50a92765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:00 +0000
Subject: [PATCH 54/69] fix: a saved GridRelease can be loaded

---
 py_gnome/gnome/spills/release.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index fa4e369..6c9bec8 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -1023,7 +1023,7 @@ class GridRelease(Release):
 
     _schema = GridReleaseSchema
 
-    def __init__(self, release_time, bounds, resolution, release_mass=0):
+    def __init__(self, release_time, bounds, resolution, release_mass=0, **kwargs):
         """
         Release from a 2-D grid of points.
 
@@ -1062,7 +1062,8 @@ class GridRelease(Release):
         super().__init__(release_time=release_time,
                          # custom_positions=positions,
                          # num_elements=len(positions),
-                         release_mass=release_mass
+                         release_mass=release_mass,
+                         **kwargs
                          )
     @property
     def num_elements(self):
-- 
2.43.0


From 87e128eb1a043c16f2e2aba9af86c0274efa2fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:32 +0000
Subject: [PATCH 55/69] fix: a non-weathering substance keeps its density when
 saved

---
 py_gnome/gnome/spills/substance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/spills/substance.py b/py_gnome/gnome/spills/substance.py
index fb81d66..83bd74d 100644
--- a/py_gnome/gnome/spills/substance.py
+++ b/py_gnome/gnome/spills/substance.py
@@ -24,7 +24,7 @@ from gnome.ops.density import init_density
 
 from gnome.persist import (Float, Int, SchemaNode,
                            Boolean, ObjTypeSchema, GeneralGnomeObjectSchema,
-                           TupleSchema, Range)
+                           TupleSchema, Range, drop)
 
 from gnome.spills.initializers import (InitWindages,
                                        InitRiseVelFromDropletSizeFromDist,
@@ -57,7 +57,7 @@ class SubstanceSchema(ObjTypeSchema):
 
 
 class NonWeatheringSubstanceSchema(SubstanceSchema):
-    pass
+    standard_density = SchemaNode(Float(), missing=drop, save=True, update=True)
 
 
 class Substance(GnomeId):
-- 
2.43.0


From e9838bd39153aa4ecf98b28ef7d6d7fad6786d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:59 +0000
Subject: [PATCH 56/69] fix: a wind keeps its speeds when its units are changed

---
 py_gnome/gnome/environment/wind.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index 8729a18..c82767d 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -435,6 +435,13 @@ class Wind(Timeseries, Environment):
         _check_units if units are incorrect for their type of data
         """
         self._check_units(value)
+        old_units = getattr(self, '_user_units', value)
+        if getattr(self, '_timeseries', None) is not None:
+            # the series is kept (in 'r-theta') in the user's units
+            series = self._timeseries.copy()
+            series['value'] = self._convert_units(series['value'], 'r-theta',
+                                                  old_units, value)
+            self._timeseries = series
         self._user_units = value
 
     def _convert_units(self, data, coord_sys, from_unit, to_unit):
-- 
2.43.0


From 8a402c3030659a53bc18933ca9dcabd0268060d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:02 +0000
Subject: [PATCH 57/69] fix: NetCDF output of an array with a number of columns
 that has no dimension yet

---
 py_gnome/gnome/outputters/netcdf.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/outputters/netcdf.py b/py_gnome/gnome/outputters/netcdf.py
index 3d0bf86..c77831d 100644
--- a/py_gnome/gnome/outputters/netcdf.py
+++ b/py_gnome/gnome/outputters/netcdf.py
@@ -628,10 +628,14 @@ class NetCDFOutput(Outputter, OutputterFilenameMixin):
                                 shape = ('data',)
                                 chunksz = (self._chunksize,)
                             else:
-                                y_sz = d_dims[sc[var_name].shape[1]]
+                                n_cols = sc[var_name].shape[1]
+                                if n_cols not in d_dims:
+                                    d_dims[n_cols] = 'cols_{0}'.format(n_cols)
+                                    rootgrp.createDimension(d_dims[n_cols],
+                                                            n_cols)
+                                y_sz = d_dims[n_cols]
                                 shape = ('data', y_sz)
-                                chunksz = (self._chunksize,
-                                           sc[var_name].shape[1])
+                                chunksz = (self._chunksize, n_cols)
 
                     self._create_nc_var(rootgrp, var_name, dt, shape, chunksz)
 
-- 
2.43.0


From f2b4c03a2ddad3b4dd9ffa00af96c52886bd9339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:02 +0000
Subject: [PATCH 58/69] fix: NetCDF records of forecast and uncertain files go
 behind the elements of their own file

---
 py_gnome/gnome/outputters/netcdf.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/py_gnome/gnome/outputters/netcdf.py b/py_gnome/gnome/outputters/netcdf.py
index c77831d..7be0089 100644
--- a/py_gnome/gnome/outputters/netcdf.py
+++ b/py_gnome/gnome/outputters/netcdf.py
@@ -759,19 +759,21 @@ class NetCDFOutput(Outputter, OutputterFilenameMixin):
                     pc = rg_vars['particle_count']
                     pc[idx] = len(sc)
 
-                    _end_idx = self._start_idx + pc[idx]
+                    # each file has its own number of elements so far
+                    _start_idx = len(rootgrp.dimensions['data'])
+                    _end_idx = _start_idx + len(sc)
 
                     # add the data:
                     for var_name in self.arrays_to_output:
                         # special case positions:
                         if var_name == 'longitude':
-                            rg_vars['longitude'][self._start_idx:_end_idx] = sc['positions'][:, 0]
+                            rg_vars['longitude'][_start_idx:_end_idx] = sc['positions'][:, 0]
                         elif var_name == 'latitude':
-                            rg_vars['latitude'][self._start_idx:_end_idx] = sc['positions'][:, 1]
+                            rg_vars['latitude'][_start_idx:_end_idx] = sc['positions'][:, 1]
                         elif var_name == 'depth':
-                            rg_vars['depth'][self._start_idx:_end_idx] = sc['positions'][:, 2]
+                            rg_vars['depth'][_start_idx:_end_idx] = sc['positions'][:, 2]
                         else:
-                            rg_vars[var_name][self._start_idx:_end_idx] = sc[var_name]
+                            rg_vars[var_name][_start_idx:_end_idx] = sc[var_name]
 
                     # write mass_balance data
                     if sc.mass_balance:
-- 
2.43.0


From 773e2ef7134b2a05d393b599c28a45ad2416ef18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:02 +0000
Subject: [PATCH 59/69] fix: NetCDFOutput.read_data finds the record of a time
 in a backward run

---
 py_gnome/gnome/outputters/netcdf.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/py_gnome/gnome/outputters/netcdf.py b/py_gnome/gnome/outputters/netcdf.py
index 7be0089..bf6a928 100644
--- a/py_gnome/gnome/outputters/netcdf.py
+++ b/py_gnome/gnome/outputters/netcdf.py
@@ -952,11 +952,8 @@ class NetCDFOutput(Outputter, OutputterFilenameMixin):
                 if time is not None:
                     time_offset = nc.date2num(time, time_.units,
                                               calendar=time_.calendar)
-                    if time_offset < 0:
-                        'desired time is before start of model'
-                        index = 0
-                    else:
-                        index = abs(time_[:] - time_offset).argmin()
+                    # closest one (times are negative in a backward run)
+                    index = abs(time_[:] - time_offset).argmin()
                 elif index is not None:
                     if index < 0:
                         index = len(time_) + index
-- 
2.43.0


From 28fc000c2d9e0fd83e2a3fa87bc8a95e33a70e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:02 +0000
Subject: [PATCH 60/69] fix: surface concentration when nearly all of the mass
 is in one element

---
 py_gnome/gnome/utilities/surface_concentration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/utilities/surface_concentration.py b/py_gnome/gnome/utilities/surface_concentration.py
index 6441993..89f0cc9 100644
--- a/py_gnome/gnome/utilities/surface_concentration.py
+++ b/py_gnome/gnome/utilities/surface_concentration.py
@@ -89,7 +89,8 @@ def surface_conc_kde(sc):
                         c[id[id_bin]] = kernel(xy[:, id_bin]) * mass_for_kernel.sum()
                     else:
                         c[id[id_bin]] = kernel(xy[:, id_bin]) * len(mass_for_kernel)
-                except np.linalg.LinAlgError:
+                # ValueError: when (nearly) all of the mass is in one element
+                except (np.linalg.LinAlgError, ValueError):
                     warnings.warn('LinAlg error occurred in surface concentration calculations. '
                                   'This is usually do to all (or many) elements being at the same location')
             t = t + bin_length
-- 
2.43.0


From cb4c24dac844c5ed47cc4e7d47f7ddef4d095f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:02 +0000
Subject: [PATCH 61/69] fix: GeoJSON file of a step holds the forecast elements
 too in uncertain runs

---
 py_gnome/gnome/outputters/geo_json.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/outputters/geo_json.py b/py_gnome/gnome/outputters/geo_json.py
index 1d9c25d..df4437f 100644
--- a/py_gnome/gnome/outputters/geo_json.py
+++ b/py_gnome/gnome/outputters/geo_json.py
@@ -163,8 +163,9 @@ class TrajectoryGeoJsonOutput(Outputter):
                        'uncertain': uc_geojson}
 
         if self.output_dir:
-            output_info['output_filename'] = str(self.output_to_file(c_geojson, step_num))
-            self.output_to_file(uc_geojson, step_num)
+            # one file per step: 'sc_type' tells the two kinds of elements apart
+            all_geojson = FeatureCollection(c_features + uc_features)
+            output_info['output_filename'] = str(self.output_to_file(all_geojson, step_num))
 
         return output_info
 
-- 
2.43.0


From 49c6d098131cace5fd2f5875e996afbd3a745304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:02 +0000
Subject: [PATCH 62/69] fix: GeoJSON output honours round_data=False

---
 py_gnome/gnome/outputters/geo_json.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/outputters/geo_json.py b/py_gnome/gnome/outputters/geo_json.py
index df4437f..12657b2 100644
--- a/py_gnome/gnome/outputters/geo_json.py
+++ b/py_gnome/gnome/outputters/geo_json.py
@@ -199,7 +199,9 @@ class TrajectoryGeoJsonOutput(Outputter):
 
         # refactored to simply use the correct python type:
         if issubclass(data_array.dtype.type, float):
-            data = data_array.round(self.round_to).astype(float).tolist()
+            if self.round_data:
+                data_array = data_array.round(self.round_to)
+            data = data_array.astype(float).tolist()
         elif issubclass(data_array.dtype.type, np.integer):
             data = data_array.astype(int).tolist()
         else:
-- 
2.43.0


From c0ddea6d47b63cd5972e4b0be0a99fe2d9f86acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:02 +0000
Subject: [PATCH 63/69] fix: BinaryOutput zips the files there are when the
 last step is not written

---
 py_gnome/gnome/outputters/binary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/outputters/binary.py b/py_gnome/gnome/outputters/binary.py
index 10bdddf..bfb7b4f 100644
--- a/py_gnome/gnome/outputters/binary.py
+++ b/py_gnome/gnome/outputters/binary.py
@@ -158,7 +158,8 @@ class BinaryOutput(OutputterFilenameMixin,Outputter):
 
 
         if islast_step:
-            num_files = self.file_num + 1
+            # the files so far, with this step's if it is written
+            num_files = self.file_num + (1 if self._write_step else 0)
             self._zip_binary_files(num_files)
             self.cleaned_up = True
 
-- 
2.43.0


From ad4883086033380b62ea98b5c99dc78f32b39220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:02 +0000
Subject: [PATCH 64/69] fix: OilBudgetOutput honours on and cache

---
 py_gnome/gnome/outputters/oil_budget.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/outputters/oil_budget.py b/py_gnome/gnome/outputters/oil_budget.py
index 6a9651c..6ce8c87 100644
--- a/py_gnome/gnome/outputters/oil_budget.py
+++ b/py_gnome/gnome/outputters/oil_budget.py
@@ -78,8 +78,8 @@ class OilBudgetOutput(BaseMassBalanceOutputter, OutputterFilenameMixin):
             kwargs.pop(option, None)
 
         super(OilBudgetOutput, self).__init__(filename=filename,
-                                              cache=None,
-                                              on=True,
+                                              cache=cache,
+                                              on=on,
                                               output_timestep=output_timestep,
                                               # these always should be this way for this
                                               # outputter
-- 
2.43.0


From 6db839ce538d63ed7509603588a85705dc44622e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:02 +0000
Subject: [PATCH 65/69] fix: bundle of unzipped shapefiles holds all of their
 files

---
 py_gnome/gnome/outputters/shape.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/py_gnome/gnome/outputters/shape.py b/py_gnome/gnome/outputters/shape.py
index 0a9a4a5..d932f50 100644
--- a/py_gnome/gnome/outputters/shape.py
+++ b/py_gnome/gnome/outputters/shape.py
@@ -234,22 +234,19 @@ class ShapeOutput(Outputter):
         """Create a shapefile bundle including both certain and uncertain shapefiles"""
         zipf_filename = os.path.join(self.tempdir.name, self.filenamestem)+'_bundle.zip'
         zipf = zipfile.ZipFile(zipf_filename, 'w')
-        # Add the main forcast file
-        dir, file_to_zip = os.path.split(self.shapefile_builder_certain.filename)
-        zipf.write(self.shapefile_builder_certain.filename,
-                   arcname=file_to_zip)
+        builders = [self.shapefile_builder_certain]
         if self.include_certain_boundary:
-            dir, file_to_zip = os.path.split(self.shapefile_builder_certain_boundary.filename)
-            zipf.write(self.shapefile_builder_certain_boundary.filename,
-                       arcname=file_to_zip)
+            builders.append(self.shapefile_builder_certain_boundary)
         if uncertain:
-            dir, file_to_zip = os.path.split(self.shapefile_builder_uncertain.filename)
-            zipf.write(self.shapefile_builder_uncertain.filename,
-                       arcname=file_to_zip)
+            builders.append(self.shapefile_builder_uncertain)
             if self.include_uncertain_boundary:
-                dir, file_to_zip = os.path.split(self.shapefile_builder_uncertain_boundary.filename)
-                zipf.write(self.shapefile_builder_uncertain_boundary.filename,
-                           arcname=file_to_zip)
+                builders.append(self.shapefile_builder_uncertain_boundary)
+        for builder in builders:
+            fn = pathlib.Path(builder.filename)
+            # an unzipped shapefile is more than one file
+            for f in sorted(fn.parent.glob(fn.name if self.zip_output
+                                           else fn.with_suffix('.*').name)):
+                zipf.write(f, arcname=f.name)
         zipf.close()
         return zipf_filename
 
-- 
2.43.0


From 97fb10a1f73532ffdfc45d4e3921899816f54e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:12 +0000
Subject: [PATCH 66/69] fix: northward move of a gridded current with RK2 uses
 the velocities of both ends of the step

---
 py_gnome/lib_gnome/GridCurrentMover_c.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/lib_gnome/GridCurrentMover_c.cpp b/py_gnome/lib_gnome/GridCurrentMover_c.cpp
index fe47b76..0d5a02d 100644
--- a/py_gnome/lib_gnome/GridCurrentMover_c.cpp
+++ b/py_gnome/lib_gnome/GridCurrentMover_c.cpp
@@ -349,7 +349,7 @@ WorldPoint3D GridCurrentMover_c::GetMove(const Seconds& model_time, Seconds time
 		v1.u += v0.u;
 		v1.v += v0.v;
 		dLong = ((v1.u / METERSPERDEGREELAT) * timeStep/2) / LongToLatRatio3 (startPoint.p.pLat);
-		dLat  =  (v0.v / METERSPERDEGREELAT) * timeStep/2;
+		dLat  =  (v1.v / METERSPERDEGREELAT) * timeStep/2;
 		deltaPoint.p.pLong = dLong * 1000000;
 		deltaPoint.p.pLat  = dLat  * 1000000;
 		return deltaPoint;
-- 
2.43.0


From deec4ac47ce1540685e23456a6883b25a0875af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:05 +0000
Subject: [PATCH 67/69] fix: gridded current with RK2 reads each end of the
 step from its own interval of the data

---
 py_gnome/lib_gnome/GridCurrentMover_c.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/py_gnome/lib_gnome/GridCurrentMover_c.cpp b/py_gnome/lib_gnome/GridCurrentMover_c.cpp
index 0d5a02d..09e0b98 100644
--- a/py_gnome/lib_gnome/GridCurrentMover_c.cpp
+++ b/py_gnome/lib_gnome/GridCurrentMover_c.cpp
@@ -324,18 +324,16 @@ WorldPoint3D GridCurrentMover_c::GetMove(const Seconds& model_time, Seconds time
 	}
 	else if (num_method == TRAPEZOID)
 	{
-		WorldPoint3D startPoint, p1, deltaPoint;
+		WorldPoint3D startPoint, p1, deltaPoint = {{0,0},0.};
 		startPoint.p = (*theLE).p;
 		startPoint.z = (*theLE).z;
 		p1.p = (*theLE).p;
 		p1.z = (*theLE).z;
 		VelocityRec v0, v1;
 		double dLong, dLat;
-		if(!fIsOptimizedForStep)
-		{
-			err = timeGrid->SetInterval(errmsg, model_time + timeStep);
-			if (err) return deltaPoint;
-		}
+		// the two ends of the step may lie in different intervals of the data
+		err = timeGrid->SetInterval(errmsg, model_time);
+		if (err) return deltaPoint;
 		v0 = timeGrid->GetScaledPatValue(model_time, startPoint);
 		v0.u *= fCurScale;
 		v0.v *= fCurScale;
@@ -343,6 +341,8 @@ WorldPoint3D GridCurrentMover_c::GetMove(const Seconds& model_time, Seconds time
 		dLat  =  (v0.v / METERSPERDEGREELAT) * timeStep;
 		p1.p.pLong = p1.p.pLong + dLong * 1000000;
 		p1.p.pLat = p1.p.pLat + dLat * 1000000;
+		err = timeGrid->SetInterval(errmsg, model_time + timeStep);
+		if (err) return deltaPoint;
 		v1 = timeGrid->GetScaledPatValue(model_time + timeStep, p1);
 		v1.u *= fCurScale;
 		v1.v *= fCurScale;
-- 
2.43.0


From e87e9fc6ee0f050575519f7d81f0fca4450ee053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:34 +0000
Subject: [PATCH 68/69] fix: gridded current adds its uncertainty with RK2 and
 RK4 as well

---
 py_gnome/lib_gnome/GridCurrentMover_c.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/py_gnome/lib_gnome/GridCurrentMover_c.cpp b/py_gnome/lib_gnome/GridCurrentMover_c.cpp
index 09e0b98..41f1a7d 100644
--- a/py_gnome/lib_gnome/GridCurrentMover_c.cpp
+++ b/py_gnome/lib_gnome/GridCurrentMover_c.cpp
@@ -331,12 +331,17 @@ WorldPoint3D GridCurrentMover_c::GetMove(const Seconds& model_time, Seconds time
 		p1.z = (*theLE).z;
 		VelocityRec v0, v1;
 		double dLong, dLat;
+		Boolean useEddyUncertainty = false;
 		// the two ends of the step may lie in different intervals of the data
 		err = timeGrid->SetInterval(errmsg, model_time);
 		if (err) return deltaPoint;
 		v0 = timeGrid->GetScaledPatValue(model_time, startPoint);
 		v0.u *= fCurScale;
 		v0.v *= fCurScale;
+		if(leType == UNCERTAINTY_LE)
+		{
+			AddUncertainty(setIndex,leIndex,&v0,timeStep,useEddyUncertainty);
+		}
 		dLong = ((v0.u / METERSPERDEGREELAT) * timeStep) / LongToLatRatio3 (startPoint.p.pLat);
 		dLat  =  (v0.v / METERSPERDEGREELAT) * timeStep;
 		p1.p.pLong = p1.p.pLong + dLong * 1000000;
@@ -346,6 +351,10 @@ WorldPoint3D GridCurrentMover_c::GetMove(const Seconds& model_time, Seconds time
 		v1 = timeGrid->GetScaledPatValue(model_time + timeStep, p1);
 		v1.u *= fCurScale;
 		v1.v *= fCurScale;
+		if(leType == UNCERTAINTY_LE)
+		{
+			AddUncertainty(setIndex,leIndex,&v1,timeStep,useEddyUncertainty);
+		}
 		v1.u += v0.u;
 		v1.v += v0.v;
 		dLong = ((v1.u / METERSPERDEGREELAT) * timeStep/2) / LongToLatRatio3 (startPoint.p.pLat);
@@ -365,7 +374,7 @@ WorldPoint3D GridCurrentMover_c::GetMove(const Seconds& model_time, Seconds time
 		startPoint.z = (*theLE).z;
 		VelocityRec scaledVel[4];
 		double dLong, dLat;
-		//Boolean useEddyUncertainty = false;
+		Boolean useEddyUncertainty = false;
 		// check the interval and set if necessary each time
 		/*if(!fIsOptimizedForStep)
 		{
@@ -382,6 +391,10 @@ WorldPoint3D GridCurrentMover_c::GetMove(const Seconds& model_time, Seconds time
 			scaledVel[i] = timeGrid->GetScaledPatValue(model_time + (Seconds)(timeStep*RK_dy_Factors[i]), add_two_WP3D(startPoint, RKDelta));
 			scaledVel[i].u *= fCurScale;
 			scaledVel[i].v *= fCurScale;
+			if(leType == UNCERTAINTY_LE)
+			{
+				AddUncertainty(setIndex,leIndex,&scaledVel[i],timeStep,useEddyUncertainty);
+			}
 			dLong = ((scaledVel[i].u / METERSPERDEGREELAT) * timeStep) / LongToLatRatio3 (startPoint.p.pLat);
 			dLat  =  (scaledVel[i].v / METERSPERDEGREELAT) * timeStep;
 			deltaD[i+1].p.pLong = dLong * 1000000;
-- 
2.43.0


From 056cc4d8b9d64751eecf1581f18ec4c73e54c83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:51 +0000
Subject: [PATCH 69/69] fix: uncertainty of the compiled gridded and ice movers
 in backward runs

---
 py_gnome/lib_gnome/CurrentCycleMover_c.cpp | 2 +-
 py_gnome/lib_gnome/GridCurrentMover_c.cpp  | 2 +-
 py_gnome/lib_gnome/GridWindMover_c.cpp     | 2 +-
 py_gnome/lib_gnome/IceMover_c.cpp          | 2 +-
 py_gnome/lib_gnome/IceWindMover_c.cpp      | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/py_gnome/lib_gnome/CurrentCycleMover_c.cpp b/py_gnome/lib_gnome/CurrentCycleMover_c.cpp
index f1c4a57..991222c 100644
--- a/py_gnome/lib_gnome/CurrentCycleMover_c.cpp
+++ b/py_gnome/lib_gnome/CurrentCycleMover_c.cpp
@@ -138,7 +138,7 @@ OSErr CurrentCycleMover_c::PrepareForModelStep(const Seconds &model_time, const
 	
 	if (uncertain)
 	{
-		Seconds elapsed_time = model_time - fModelStartTime;	// code goes here, how to set start time
+		Seconds elapsed_time = fabs(model_time - fModelStartTime);	// code goes here, how to set start time
 		err = this->UpdateUncertainty(elapsed_time, numLESets, LESetsSizesList);
 	}
 	fIsOptimizedForStep = true;
diff --git a/py_gnome/lib_gnome/GridCurrentMover_c.cpp b/py_gnome/lib_gnome/GridCurrentMover_c.cpp
index 41f1a7d..7cbe010 100644
--- a/py_gnome/lib_gnome/GridCurrentMover_c.cpp
+++ b/py_gnome/lib_gnome/GridCurrentMover_c.cpp
@@ -194,7 +194,7 @@ OSErr GridCurrentMover_c::PrepareForModelStep(const Seconds &model_time, const S
 	
 	if (uncertain)
 	{
-		Seconds elapsed_time = model_time - fModelStartTime;	// code goes here, how to set start time
+		Seconds elapsed_time = fabs(model_time - fModelStartTime);	// code goes here, how to set start time
 		err = this->UpdateUncertainty(elapsed_time, numLESets, LESetsSizesList);
 	}
 	fIsOptimizedForStep = true;
diff --git a/py_gnome/lib_gnome/GridWindMover_c.cpp b/py_gnome/lib_gnome/GridWindMover_c.cpp
index c37483d..af0f49c 100644
--- a/py_gnome/lib_gnome/GridWindMover_c.cpp
+++ b/py_gnome/lib_gnome/GridWindMover_c.cpp
@@ -93,7 +93,7 @@ OSErr GridWindMover_c::PrepareForModelStep(const Seconds& model_time,
 	if (uncertain) {
 		// so uncertainty starts at time zero + uncertain_time_delay,
 		// rather than a time step later
-		Seconds elapsed_time = model_time + time_step - fModelStartTime;
+		Seconds elapsed_time = fabs(model_time + time_step - fModelStartTime);
 		err = this->UpdateUncertainty(elapsed_time, numLESets, LESetsSizesList);
 	}
 
diff --git a/py_gnome/lib_gnome/IceMover_c.cpp b/py_gnome/lib_gnome/IceMover_c.cpp
index 7588367..3ae51cd 100644
--- a/py_gnome/lib_gnome/IceMover_c.cpp
+++ b/py_gnome/lib_gnome/IceMover_c.cpp
@@ -192,7 +192,7 @@ OSErr IceMover_c::PrepareForModelStep(const Seconds &model_time, const Seconds &
 	
 	if (uncertain)
 	{
-		Seconds elapsed_time = model_time - fModelStartTime;	// code goes here, how to set start time
+		Seconds elapsed_time = fabs(model_time - fModelStartTime);	// code goes here, how to set start time
 		err = this->UpdateUncertainty(elapsed_time, numLESets, LESetsSizesList);
 	}
 	fIsOptimizedForStep = true;
diff --git a/py_gnome/lib_gnome/IceWindMover_c.cpp b/py_gnome/lib_gnome/IceWindMover_c.cpp
index bd19324..fce393f 100644
--- a/py_gnome/lib_gnome/IceWindMover_c.cpp
+++ b/py_gnome/lib_gnome/IceWindMover_c.cpp
@@ -138,7 +138,7 @@ OSErr IceWindMover_c::PrepareForModelStep(const Seconds &model_time, const Secon
 	
 	if (uncertain)
 	{
-		Seconds elapsed_time = model_time - fModelStartTime;	// code goes here, how to set start time
+		Seconds elapsed_time = fabs(model_time - fModelStartTime);	// code goes here, how to set start time
 		err = this->UpdateUncertainty(elapsed_time, numLESets, LESetsSizesList);
 	}
 	fIsOptimizedForStep = true;
-- 
2.43.0

