From 78aab9cdc109c476e7be257449f0c955c4d64152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:33 +0000
Subject: [PATCH 01/44] fix: fix_range keeps its input, takes integers and
 stays below the maximum

The adjustment was made in the array passed by the caller, failed with a
UFuncTypeError for integer arrays and real limits, and returned the (excluded)
maximum for values that lie within rounding error below the minimum.
---
 ocbpy/ocb_time.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ocbpy/ocb_time.py b/ocbpy/ocb_time.py
index db915b2..934a211 100644
--- a/ocbpy/ocb_time.py
+++ b/ocbpy/ocb_time.py
@@ -432,6 +432,10 @@ def fix_range(values, min_val, max_val, val_range=None):
     if val_range <= 0.0:
         raise ValueError('Value range must be greater than zero')
 
+    # Copy the input using a data type that can hold the adjusted values
+    fixed_vals = fixed_vals.astype(np.result_type(fixed_vals, min_val,
+                                                  val_range))
+
     # Fix the values, allowing for deviations that are multiples of the
     # value range.  Also propagate NaNs
     ibad = (np.greater_equal(fixed_vals, max_val, where=~np.isnan(fixed_vals))
@@ -449,4 +453,7 @@ def fix_range(values, min_val, max_val, val_range=None):
         ibad = (np.less(fixed_vals, min_val, where=~np.isnan(fixed_vals))
                 & ~np.isnan(fixed_vals))
 
+    # Values just below the minimum may have been rounded up to the maximum
+    fixed_vals[fixed_vals >= max_val] = min_val
+
     return fixed_vals
-- 
2.43.0


From dcec3f7a9165be43dd04138697156c87689d4ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:33 +0000
Subject: [PATCH 02/44] fix: normal_coord does not write fill values into the
 caller's latitudes

Positions outside the hemisphere were set to NaN in the array passed in, which
also fails for integer latitudes.
---
 ocbpy/_boundary.py   | 6 +++++-
 ocbpy/ocb_scaling.py | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index c72db3b..c0af23f 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -607,7 +607,8 @@ class OCBoundary(object):
         if np.any(np.sign(aacgm_lat) != self.hemisphere):
             if np.all(np.sign(aacgm_lat) != self.hemisphere):
                 return ocb_lat, ocb_mlt, r_corr
-            aacgm_lat[np.sign(aacgm_lat) != self.hemisphere] = np.nan
+            aacgm_lat = np.where(np.sign(aacgm_lat) != self.hemisphere, np.nan,
+                                 aacgm_lat)
 
         # Calculate the center of the OCB
         phi_cent_rad = np.radians(self.phi_cent[self.rec_ind])
@@ -1429,6 +1430,9 @@ class DualBoundary(object):
                                                            method=method)
         bound_lat = np.array(ocb_lat)
 
+        # Do not locate positions that are not in this hemisphere
+        aacgm_lat = np.where(np.isnan(ocb_lat), np.nan, aacgm_lat)
+
         if np.isnan(ocb_lat).all():
             if out_shape == ():
                 return bound_lat[0], bound_mlt[0], ocb_lat[0], r_corr[0]
diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 0378157..c709496 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -703,6 +703,10 @@ class VectorData(object):
         # Get the angle at the data vector appended by the AACGM and OCB poles
         self.calc_vec_pole_angle()
 
+        # Vectors without a boundary location have no boundary pole angle
+        self.pole_angle = np.where(np.isnan(self.ocb_lat), np.nan,
+                                   self.pole_angle)
+
         # Set the OCB and Vector quadrants
         if np.any(~np.isnan(self.pole_angle)):
             self.define_quadrants()
-- 
2.43.0


From ff1e07efda93735a8fb2428a96bfba56641397b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:33 +0000
Subject: [PATCH 03/44] fix: get_aacgm_boundary_lat does not alter or reject
 the caller's MLT

The requested MLTs were folded in place, integer arrays failed and values more
than a day out of range were left out of range.
---
 ocbpy/_boundary.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index c0af23f..5d41d49 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -784,9 +784,7 @@ class OCBoundary(object):
         """
 
         # Ensure the boundary longitudes span from 0-360 degrees
-        aacgm_mlt = np.asarray(aacgm_mlt)
-        aacgm_mlt[aacgm_mlt < 0.0] += 24.0
-        aacgm_mlt[aacgm_mlt >= 24.0] -= 24.0
+        aacgm_mlt = ocb_time.fix_range(aacgm_mlt, 0.0, 24.0)
 
         if not hasattr(self, 'aacgm_boundary_mlt'):
             self.aacgm_boundary_mlt = [None for i in range(self.records)]
-- 
2.43.0


From 401d8ede26237094fc4a6379e515181a9dc9a08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:01 +0000
Subject: [PATCH 04/44] fix: an out-of-range dual index leaves both boundaries
 unusable

The distance past the last pair was subtracted from the record counts, so that
indices beyond the first bad one selected an OCB and an EAB record.
---
 ocbpy/_boundary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 5d41d49..f03289b 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1198,7 +1198,7 @@ class DualBoundary(object):
             self.ocb.rec_ind = rec_ind
             self.eab.rec_ind = rec_ind
         elif rec_ind >= self.records:
-            del_ind = self.records - rec_ind
+            del_ind = rec_ind - self.records
             self.ocb.rec_ind = self.ocb.records + del_ind
             self.eab.rec_ind = self.eab.records + del_ind
         else:
-- 
2.43.0


From 1e6693120dde90e2116d6ad2ea72747a983ed6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:15 +0000
Subject: [PATCH 05/44] fix: dual-boundary reversion returns fill values like
 the OCB does

An IndexError was raised when the index was past the last pair, and positions
that are all in the other hemisphere were located as if they were in this one.
---
 ocbpy/_boundary.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index f03289b..3f39f66 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1589,6 +1589,12 @@ class DualBoundary(object):
                                         coords=coords, height=height,
                                         method=method)
 
+        # Without a good boundary pair or positions in this hemisphere the
+        # OCB has provided fill values
+        if(self.rec_ind < 0 or self.rec_ind >= self.records
+           or np.all(np.sign(ocb_lat) != self.hemisphere)):
+            is_ocb = True
+
         # If not already flagged, see if all OCB by location
         if not is_ocb:
             iocb = np.where(abs(ocb_lat) >= abs(self.ocb.boundary_lat))[0]
-- 
2.43.0


From 206a9c1deb5080f8d5fdf34a827fbbe7ef411ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:15 +0000
Subject: [PATCH 06/44] fix: select the heights along with the latitudes when
 reverting

Reverting dual-boundary coordinates to geographic ones failed (or used the
wrong heights) when some of the positions are poleward of the OCB.
---
 ocbpy/_boundary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 3f39f66..f41ea28 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1686,7 +1686,8 @@ class DualBoundary(object):
 
                 # Convert from magnetic coordinates to geo coordinates
                 lat[imag], lon, _ = aacgmv2.convert_latlon_arr(
-                    lat[imag], lon, height, self.dtime[self.rec_ind], method)
+                    lat[imag], lon, height[imag], self.dtime[self.rec_ind],
+                    method)
 
                 # Convert from longitude to solar local time
                 lt[imag] = ocb_time.glon2slt(lon, self.dtime[self.rec_ind])
-- 
2.43.0


From cde1996716947666e878bdc767f36655d9abf518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:01 +0000
Subject: [PATCH 07/44] fix: a NaN attribute does not meet a record selection
 criterion

---
 ocbpy/_boundary.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index f41ea28..e798ac2 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -505,19 +505,23 @@ class OCBoundary(object):
 
             for ckey in kwargs.keys():
                 test_val = getattr(self, ckey)[self.rec_ind]
-                if kwargs[ckey][0] == "min" and test_val <= kwargs[ckey][1]:
+                if kwargs[ckey][0] == "min" and not (
+                        test_val > kwargs[ckey][1]):
                     good = False
                     break
-                elif kwargs[ckey][0] == "mineq" and test_val < kwargs[ckey][1]:
+                elif kwargs[ckey][0] == "mineq" and not (
+                        test_val >= kwargs[ckey][1]):
                     good = False
                     break
                 elif kwargs[ckey][0] == "equal" and test_val != kwargs[ckey][1]:
                     good = False
                     break
-                elif kwargs[ckey][0] == "maxeq" and test_val > kwargs[ckey][1]:
+                elif kwargs[ckey][0] == "maxeq" and not (
+                        test_val <= kwargs[ckey][1]):
                     good = False
                     break
-                elif kwargs[ckey][0] == "max" and test_val >= kwargs[ckey][1]:
+                elif kwargs[ckey][0] == "max" and not (
+                        test_val < kwargs[ckey][1]):
                     good = False
                     break
 
-- 
2.43.0


From 92a0efd4429417014fdcf978163367fe7b19bfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:20 +0000
Subject: [PATCH 08/44] fix: a dual boundary without data has a record index

---
 ocbpy/_boundary.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index e798ac2..c709fcf 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1251,6 +1251,7 @@ class DualBoundary(object):
             self.dtime = None
             self.ocb_ind = None
             self.eab_ind = None
+            self.rec_ind = 0
             return
 
         self.dtime = list()
-- 
2.43.0


From a1b608aeff138cde57b8a54e112282b81191493b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:23 +0000
Subject: [PATCH 09/44] fix: selecting dual-boundary pairs does not alter the
 caller's criteria

---
 ocbpy/_boundary.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index c709fcf..0a64365 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1263,16 +1263,14 @@ class DualBoundary(object):
         self.eab.rec_ind = -1
 
         # Get the good OCB indices
-        if ocb_kwargs is None:
-            ocb_kwargs = {}
+        ocb_kwargs = {} if ocb_kwargs is None else dict(ocb_kwargs)
         ocb_kwargs['min_merit'] = ocb_min_merit
         ocb_kwargs['max_merit'] = ocb_max_merit
         good_ocb = cycle_boundary.retrieve_all_good_indices(self.ocb,
                                                             **ocb_kwargs)
 
         # Initialize the EAB good index selection options
-        if eab_kwargs is None:
-            eab_kwargs = {}
+        eab_kwargs = {} if eab_kwargs is None else dict(eab_kwargs)
         eab_kwargs['min_merit'] = eab_min_merit
         eab_kwargs['max_merit'] = eab_max_merit
 
-- 
2.43.0


From 519a0801f06fb89231446014459e1e8be1cab465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:37 +0000
Subject: [PATCH 10/44] fix: fractional seconds of year may round up to a whole
 minute

---
 ocbpy/ocb_time.py | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/ocbpy/ocb_time.py b/ocbpy/ocb_time.py
index 934a211..9f19594 100644
--- a/ocbpy/ocb_time.py
+++ b/ocbpy/ocb_time.py
@@ -66,24 +66,9 @@ def year_soy_to_datetime(yyyy, soy):
 
     """
 
-    # Calcuate doy, hour, min, seconds of day
-    ss = soy / 86400.0
-    ddd = np.floor(ss)
-
-    ss = (soy - ddd * 86400.0) / 3600.0
-    hh = np.floor(ss)
-
-    ss = (soy - ddd * 86400.0 - hh * 3600.0) / 60.0
-    mm = np.floor(ss)
-
-    ss = soy - ddd * 86400.0 - hh * 3600.0 - mm * 60.0
-
-    # Define format
-    stime = "{:d}-{:.0f}-{:.0f}-{:.0f}-{:.0f}".format(yyyy, ddd + 1, hh, mm,
-                                                      ss)
-
-    # Convert to datetime
-    dtime = dt.datetime.strptime(stime, "%Y-%j-%H-%M-%S")
+    # Add the nearest number of whole seconds to the start of the year, so that
+    # any rounding carries over into the larger time units
+    dtime = dt.datetime(yyyy, 1, 1) + dt.timedelta(seconds=int(np.round(soy)))
 
     return dtime
 
-- 
2.43.0


From 71370acf14e34c69dcd2dab268b85dc2dd646439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:54 +0000
Subject: [PATCH 11/44] fix: pole angle for NaN latitudes, mixed input shapes
 and rounding at a meridian

---
 ocbpy/vectors.py | 46 ++++++++++++++++++++++------------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index d176eb7..cfb5272 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -80,38 +80,34 @@ def calc_vec_pole_angle(data_lt, data_lat, pole_lt, pole_lat):
     del_long = ocb_time.hr2rad(np.asarray(pole_lt) - np.asarray(data_lt),
                                max_range=np.pi)
 
+    # Ensure the latitudes are array-like and all inputs have the same shape
+    del_long, data_lat, pole_lat = np.broadcast_arrays(del_long, data_lat,
+                                                       pole_lat)
+    hemisphere = np.sign(pole_lat)
+
     # Initalize the output
     pole_angle = np.full(shape=del_long.shape, fill_value=np.nan)
 
-    # Ensure the latitudes are array-like
-    data_lat = np.asarray(data_lat)
-    pole_lat = np.asarray(pole_lat)
-
-    # Assign the extreme values
-    if len(del_long.shape) == 0:
-        if del_long in [-np.pi, 0.0, np.pi]:
-            if abs(data_lat) > abs(pole_lat):
-                pole_angle = 180.0
-            else:
-                pole_angle = 0.0
-            return pole_angle
+    # Assign the extreme values, comparing the latitudes in the hemisphere of
+    # the base pole. The antipode of the destination pole reverses directions.
+    data_hlat = hemisphere * data_lat
+    anti_mask = (abs(del_long) == np.pi) & (data_hlat < -abs(pole_lat))
+    line_mask = ((del_long == 0) | (abs(del_long) == np.pi)) & ~anti_mask
+    flat_mask = (line_mask & (data_hlat > abs(pole_lat))) | anti_mask
+    zero_mask = line_mask & (data_hlat <= abs(pole_lat))
+    update_mask = ~zero_mask & ~flat_mask
+
+    if len(pole_angle.shape) == 0:
+        if not update_mask:
+            return 180.0 if flat_mask else 0.0
     else:
-        flat_mask = (((del_long == 0) | (abs(del_long) == np.pi))
-                     & np.greater(abs(data_lat), abs(pole_lat),
-                                  where=~np.isnan(del_long)))
-        zero_mask = (((del_long == 0) | (abs(del_long) == np.pi))
-                     & np.less_equal(abs(data_lat), abs(pole_lat),
-                                     where=~np.isnan(del_long)))
-
         pole_angle[flat_mask] = 180.0
         pole_angle[zero_mask] = 0.0
-        update_mask = (~zero_mask & ~flat_mask)
 
         if not np.any(update_mask):
             return pole_angle
 
     # Find the distance in radians between the two poles
-    hemisphere = np.sign(pole_lat)
     rad_pole = hemisphere * np.pi * 0.5
     del_pole = hemisphere * (rad_pole - np.radians(pole_lat))
 
@@ -128,10 +124,12 @@ def calc_vec_pole_angle(data_lt, data_lat, pole_lt, pole_lat):
         + np.cos(np.radians(data_lat)) * np.cos(np.radians(pole_lat))
         * np.cos(del_long))
 
-    # Use the half-angle formula to get the pole angle
+    # Use the half-angle formula to get the pole angle, keeping rounding errors
+    # near the meridian of the destination pole within the valid range
     sum_sides = 0.5 * (del_vect + del_dest + del_pole)
-    half_angle = np.sqrt(np.sin(sum_sides) * np.sin(sum_sides - del_pole)
-                         / (np.sin(del_vect) * np.sin(del_dest)))
+    half_angle = np.sqrt(np.clip(
+        np.sin(sum_sides) * np.sin(sum_sides - del_pole)
+        / (np.sin(del_vect) * np.sin(del_dest)), 0.0, 1.0))
 
     if pole_angle.shape == ():
         pole_angle = np.degrees(2.0 * np.arccos(half_angle))
-- 
2.43.0


From ff75298906cebb6e552ec756bb214e3820531ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:32 +0000
Subject: [PATCH 12/44] fix: vector adjustment on a meridian, without a
 horizontal part, with NaN and for mixed shapes

---
 ocbpy/vectors.py | 111 +++++++++++++++--------------------------------
 1 file changed, 36 insertions(+), 75 deletions(-)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index cfb5272..87db3b2 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -556,21 +556,14 @@ def adjust_vector(vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad,
         latitude
 
     """
-    # Ensure the input is array-like
-    vect_lt = np.asarray(vect_lt)
-    vect_lat = np.asarray(vect_lat)
-    vect_n = np.asarray(vect_n)
-    vect_e = np.asarray(vect_e)
-    vect_z = np.asarray(vect_z)
-    vect_quad = np.asarray(vect_quad)
-    pole_lt = np.asarray(pole_lt)
-    pole_lat = np.asarray(pole_lat)
-    pole_angle = np.asarray(pole_angle)
-    pole_quad = np.asarray(pole_quad)
+    # Ensure the input is array-like and that all inputs have the same shape
+    (vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad, pole_lt, pole_lat,
+     pole_angle, pole_quad) = np.broadcast_arrays(
+         vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad, pole_lt,
+         pole_lat, pole_angle, pole_quad)
 
     # Initialize the output, ensuring it is the same shape
-    out_shape = (vect_lt + vect_lat + vect_n + vect_e + vect_z + vect_quad
-                 + pole_lt + pole_lat + pole_angle + pole_quad).shape
+    out_shape = vect_lt.shape
     dest_n = np.full(shape=out_shape, fill_value=np.nan)
     dest_e = np.full(shape=out_shape, fill_value=np.nan)
     dest_z = np.full(shape=out_shape, fill_value=np.nan)
@@ -578,18 +571,19 @@ def adjust_vector(vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad,
     # Determine the special case assignments
     zero_mask = (vect_n == 0.0) & (vect_e == 0.0)
     ns_mask = (pole_angle == 0.0) | (pole_angle == 180.0)
-    norm_mask = ~(zero_mask + ns_mask)
+    norm_mask = ~(zero_mask | ns_mask | np.isnan(vect_n) | np.isnan(vect_e)
+                  | np.isnan(pole_angle))
 
-    # There's nothing to adjust if there is no magnitude
+    # There's nothing to adjust if there is no horizontal magnitude
     if np.any(zero_mask):
         if len(out_shape) == 0:
             dest_n = 0.0
             dest_e = 0.0
-            dest_z = 0.0
+            dest_z = float(vect_z)
         else:
             dest_n[zero_mask] = 0.0
             dest_e[zero_mask] = 0.0
-            dest_z[zero_mask] = 0.0
+            dest_z[zero_mask] = vect_z[zero_mask]
 
     # The measurement is aligned with the base and destination poles
     if np.any(ns_mask):
@@ -598,25 +592,21 @@ def adjust_vector(vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad,
             dest_e = float(vect_e)
             dest_z = float(vect_z)
         else:
-            if len(vect_n.shape) == 0:
-                dest_n[ns_mask] = vect_n
-            else:
-                dest_n[ns_mask] = vect_n[ns_mask]
-
-            if len(vect_e.shape) == 0:
-                dest_e[ns_mask] = vect_e
-            else:
-                dest_e[ns_mask] = vect_e[ns_mask]
-
-            if len(vect_z.shape) == 0:
-                dest_z[ns_mask] = vect_z
-            else:
-                dest_z[ns_mask] = vect_z[ns_mask]
-
-        # Determine if the measurement is on or between the poles. This does
-        # not affect the vertical direction
-        sign_mask = (pole_angle == 0.0) & np.greater_equal(
-            vect_lat, pole_lat, where=~np.isnan(vect_lat)) & ~np.isnan(vect_lat)
+            dest_n[ns_mask] = vect_n[ns_mask]
+            dest_e[ns_mask] = vect_e[ns_mask]
+            dest_z[ns_mask] = vect_z[ns_mask]
+
+        # Determine if the measurement is on or between the poles, or between
+        # their antipodes. This does not affect the vertical direction
+        del_long = abs(ocb_time.hr2rad(pole_lt - vect_lt, max_range=np.pi))
+        same_mask = del_long < 1.0e-6
+        opp_mask = del_long > np.pi - 1.0e-6
+        vect_hlat = np.sign(pole_lat) * vect_lat
+        near_mask = vect_hlat >= abs(pole_lat)
+        anti_mask = vect_hlat < -abs(pole_lat)
+        sign_mask = (((pole_angle == 0.0) & near_mask & ~opp_mask)
+                     | ((pole_angle == 180.0)
+                        & ((near_mask & same_mask) | (anti_mask & opp_mask))))
 
         if np.any(sign_mask):
             if len(out_shape) == 0:
@@ -639,22 +629,14 @@ def adjust_vector(vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad,
 
         # Get the unscaled 2D vector magnitude and calculate the AACGM north
         # azimuth in degrees
-        if len(vect_n.shape) == 0 and len(vect_e.shape) == 0:
+        if len(out_shape) == 0:
             vmag = np.sqrt(vect_n**2 + vect_e**2)
             base_naz_angle = np.degrees(np.arccos(vect_n / vmag))
         else:
-            base_naz_angle = np.full(shape=norm_mask.shape, fill_value=np.nan)
-
-            if len(vect_n.shape) == 0:
-                vmag = np.sqrt(vect_n**2 + vect_e[norm_mask]**2)
-                base_naz_angle[norm_mask] = np.degrees(np.arccos(vect_n / vmag))
-            else:
-                if len(vect_e.shape) == 0:
-                    vmag = np.sqrt(vect_n[norm_mask]**2 + vect_e**2)
-                else:
-                    vmag = np.sqrt(vect_n[norm_mask]**2 + vect_e[norm_mask]**2)
-                base_naz_angle[norm_mask] = np.degrees(
-                    np.arccos(vect_n[norm_mask] / vmag))
+            base_naz_angle = np.full(shape=out_shape, fill_value=np.nan)
+            vmag = np.sqrt(vect_n[norm_mask]**2 + vect_e[norm_mask]**2)
+            base_naz_angle[norm_mask] = np.degrees(
+                np.arccos(vect_n[norm_mask] / vmag))
 
         # Get the destination coordinate system north azimuth in radians
         dest_naz_angle = np.radians(calc_dest_polar_angle(
@@ -664,16 +646,6 @@ def adjust_vector(vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad,
         vsigns = calc_dest_vec_sign(pole_quad, vect_quad, base_naz_angle,
                                     pole_angle, north=True, east=True)
 
-        # Scale the vector along the OCB north
-        if len(vect_z.shape) == 0:
-            vz = vect_z
-        else:
-            vz = vect_z[norm_mask]
-            nan_mask = np.isnan(vmag) | (
-                np.isnan(dest_naz_angle) if len(dest_naz_angle.shape) == 0
-                else np.isnan(dest_naz_angle[norm_mask]))
-            vz[nan_mask] = np.nan
-
         # Restrict the OCB angle to result in positive sines and cosines
         lmask = dest_naz_angle > np.pi / 2.0
         if np.any(lmask):
@@ -683,26 +655,15 @@ def adjust_vector(vect_lt, vect_lat, vect_n, vect_e, vect_z, vect_quad,
                 dest_naz_angle[lmask] = np.pi - dest_naz_angle[lmask]
 
         # Calculate the vector components
-        if len(vmag.shape) == 0:
-            if len(dest_naz_angle.shape) == 0:
-                dest_n = np.full(shape=out_shape, fill_value=(
-                    vsigns['north'] * vmag * np.cos(dest_naz_angle)))
-                dest_e = np.full(shape=out_shape, fill_value=(
-                    vsigns['east'] * vmag * np.sin(dest_naz_angle)))
-                dest_z = np.full(shape=out_shape, fill_value=vz)
-            else:
-                nval = vsigns['north'][norm_mask] * vmag * np.cos(
-                    dest_naz_angle)[norm_mask]
-                dest_n = np.full(shape=nval.shape, fill_value=nval)
-                dest_e = np.full(shape=nval.shape, fill_value=(
-                    vsigns['east'][norm_mask] * vmag * np.sin(
-                        dest_naz_angle)[norm_mask]))
-                dest_z = np.full(shape=nval.shape, fill_value=vz)
+        if len(out_shape) == 0:
+            dest_n = vsigns['north'] * vmag * np.cos(dest_naz_angle)
+            dest_e = vsigns['east'] * vmag * np.sin(dest_naz_angle)
+            dest_z = np.full(shape=out_shape, fill_value=vect_z)
         else:
             dest_n[norm_mask] = vsigns['north'][norm_mask] * vmag * np.cos(
                 dest_naz_angle)[norm_mask]
             dest_e[norm_mask] = vsigns['east'][norm_mask] * vmag * np.sin(
                 dest_naz_angle)[norm_mask]
-            dest_z[norm_mask] = vz
+            dest_z[norm_mask] = vect_z[norm_mask]
 
     return dest_n, dest_e, dest_z
-- 
2.43.0


From a4bcd0ff0c97d3c612abc052806c7657c96ec307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:35 +0000
Subject: [PATCH 13/44] fix: pole quadrants have the shape of an array pole
 angle

---
 ocbpy/vectors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index 87db3b2..e77dd31 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -168,10 +168,11 @@ def define_pole_quadrants(data_lt, pole_lt, pole_angle):
 
     """
     # Determine where the destination pole is relative to the data vector
+    pole_angle = np.asarray(pole_angle)
     del_lt = np.asarray(pole_lt) - np.asarray(data_lt)
 
     # Initalize the output
-    pole_quad = np.zeros(shape=np.asarray(del_lt).shape)
+    pole_quad = np.zeros(shape=np.asarray(del_lt + pole_angle).shape)
 
     # Determine which differences need to be
     neg_mask = np.less(del_lt, 0.0, where=~np.isnan(del_lt)) & ~np.isnan(del_lt)
-- 
2.43.0


From b3ab1dbbee65ed2aacde831617277b752b8d8573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:47 +0000
Subject: [PATCH 14/44] fix: scale the rotated, not the original, components of
 a single vector

---
 ocbpy/ocb_scaling.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index c709496..be3da0d 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -804,13 +804,13 @@ class VectorData(object):
             if len(self.ocb_n.shape) == 0:
                 self.ocb_n = np.full(
                     shape=self.ocb_n.shape, fill_value=self.scale_func(
-                        self.vect_n, self.unscaled_r, self.scaled_r))
+                        self.ocb_n, self.unscaled_r, self.scaled_r))
                 self.ocb_e = np.full(
                     shape=self.ocb_e.shape, fill_value=self.scale_func(
-                        self.vect_e, self.unscaled_r, self.scaled_r))
+                        self.ocb_e, self.unscaled_r, self.scaled_r))
                 self.ocb_z = np.full(
                     shape=self.ocb_z.shape, fill_value=self.scale_func(
-                        self.vect_z, self.unscaled_r, self.scaled_r))
+                        self.ocb_z, self.unscaled_r, self.scaled_r))
             else:
                 self.ocb_n = self.scale_func(self.ocb_n, self.unscaled_r,
                                              self.scaled_r)
-- 
2.43.0


From b40905eca6913c9bde31edd800c0abbfeb37974a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:04 +0000
Subject: [PATCH 15/44] fix: vector data uses the time of its boundary record
 and the requested tracing

---
 ocbpy/ocb_scaling.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index be3da0d..1db9109 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -643,9 +643,10 @@ class VectorData(object):
 
         """
         # Update the data values to be in magnetic coordinates
-        dtime = ocb.dtime[ocb.rec_ind] if self.ocb_ind.shape == () else [
+        dtime = ocb.dtime[self.ocb_ind] if self.ocb_ind.shape == () else [
             ocb.dtime[ind] for ind in self.ocb_ind]
-        self.update_vect_coords_to_mag(dtime, ocb.hemisphere)
+        self.update_vect_coords_to_mag(dtime, ocb.hemisphere,
+                                       trace_method=trace_method)
 
         # If the OCB vector coordinates weren't included in the initial info,
         # update them here
@@ -671,7 +672,8 @@ class VectorData(object):
                     if self.ocb_ind.shape == self.dat_ind.shape:
                         out_coord = ocb.normal_coord(self.lat[i], self.lt[i],
                                                      coords=self.loc_coord,
-                                                     height=self.height[i])
+                                                     height=self.height[i],
+                                                     method=trace_method)
                     else:
                         out_coord = ocb.normal_coord(self.lat, self.lt,
                                                      coords=self.loc_coord,
-- 
2.43.0


From 353ae0f482b86a5f9b09d4e2a8598c2b15e6699f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 16/44] fix: vector data keeps one shape and rejects
 inconsistent heights and boundary locations

---
 ocbpy/ocb_scaling.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 1db9109..2b5ee52 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -126,13 +126,13 @@ class VectorData(object):
         self.height = height
         self.loc_coord = loc_coord.lower()
         self.vect_coord = vect_coord.lower()
-        self.vect_mag = vect_mag
 
         # Test the coordinate systems for valid options
         self._test_coords()
 
         # Test the initalization shape and update the vector shapes if needed
         self._test_update_vector_shape()
+        self.vect_mag = vect_mag
 
         # Assign the OCB vector default values
         self.ocb_lat = ocb_lat
@@ -367,15 +367,16 @@ class VectorData(object):
 
         Notes
         -----
-        Sets the `vshape` attribute and updates the shape of `vect_n`,
-        `vect_e`, and `vect_z` if needed
+        Sets the `vshape` attribute and updates the shape of `lat`, `lt`,
+        `height`, `vect_n`, `vect_e`, and `vect_z` if needed
 
         """
 
         # Get the required input shapes
         vshapes = list()
-        for vshape in [self.lat.shape, self.lt.shape, self.dat_ind.shape,
-                       self.vect_n.shape, self.vect_e.shape, self.vect_z.shape]:
+        for vshape in [self.lat.shape, self.lt.shape, self.height.shape,
+                       self.dat_ind.shape, self.vect_n.shape, self.vect_e.shape,
+                       self.vect_z.shape]:
             if vshape not in vshapes:
                 vshapes.append(vshape)
 
@@ -390,6 +391,11 @@ class VectorData(object):
             if self.dat_ind.shape == ():
                 raise ValueError('data index shape must match vector shape')
 
+            # Scalar locations are expanded to the shape of the data index
+            self.lat = self.lat
+            self.lt = self.lt
+            self.height = self.height
+
             # Vector input needs to be the same length
             if self.vect_n.shape == ():
                 self.vect_n = np.full(shape=self.vshape, fill_value=self.vect_n)
@@ -424,7 +430,9 @@ class VectorData(object):
 
         # Compare and update the vector data shape if needed
         if self.ocb_ind.shape == ():
-            oshape = self.vshape
+            if oshape != () and oshape != self.dat_ind.shape:
+                raise ValueError('OCB index and input shapes mismatched')
+            self.vshape = self.dat_ind.shape
         elif self.dat_ind.shape == ():
             self.vshape = oshape
         else:
-- 
2.43.0


From 675dd1164fca10eab26dbd184f74fed13b5bf7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:52 +0000
Subject: [PATCH 17/44] fix: new data or record indices clear the boundary
 locations found for the old ones

---
 ocbpy/ocb_scaling.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 2b5ee52..f74224e 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -504,6 +504,9 @@ class VectorData(object):
             # Test the data and reset if necessary
             self._test_update_vector_shape()
 
+            # Remove boundary locations found for the previous data
+            self._clear_bound_loc()
+
             # Test the boundary shape
             self._test_update_bound_shape()
 
@@ -527,6 +530,9 @@ class VectorData(object):
         else:
             self._ocb_ind = ocb_ind
 
+            # Remove boundary locations found for the previous indices
+            self._clear_bound_loc()
+
             # Test the boundaries and reset if necessary
             try:
                 self._test_update_bound_shape()
@@ -634,6 +640,20 @@ class VectorData(object):
 
         return
 
+    def _clear_bound_loc(self):
+        """Clear boundary locations and radii calculated by `set_ocb`."""
+        if getattr(self, 'calc_bound_loc', False):
+            self.ocb_lat = np.nan
+            self.ocb_mlt = np.nan
+            self.r_corr = np.nan
+            self.calc_bound_loc = False
+
+        for attr in ['unscaled_r', 'scaled_r']:
+            if hasattr(self, attr):
+                delattr(self, attr)
+
+        return
+
     def set_ocb(self, ocb, scale_func=None, trace_method='ALLOWTRACE'):
         """Set the OCBoundary values for provided data (updates all attributes).
 
@@ -660,6 +680,8 @@ class VectorData(object):
         # update them here
         if(np.all(np.isnan(self.ocb_lat)) or np.all(np.isnan(self.ocb_mlt))
            or np.all(np.isnan(self.r_corr))):
+            self.calc_bound_loc = True
+
             # Because the boundary locations and magnetic field are both time
             # dependent, we can't call this function with multiple OCB/EABs
             if self.ocb_ind.shape == ():
-- 
2.43.0


From 96ee2f5f104c20e06a4ebb95df04b77dbf097277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:50 +0000
Subject: [PATCH 18/44] fix: satellite tracks in any direction, for single
 positions and the other hemisphere

---
 ocbpy/cycle_boundary.py | 42 ++++++++++++-----------------------------
 1 file changed, 12 insertions(+), 30 deletions(-)

diff --git a/ocbpy/cycle_boundary.py b/ocbpy/cycle_boundary.py
index 34eb1df..1b6dcc7 100644
--- a/ocbpy/cycle_boundary.py
+++ b/ocbpy/cycle_boundary.py
@@ -282,41 +282,23 @@ def satellite_track(lat, mlt, x1, y1, x2, y2, hemisphere, del_x=1.0, del_y=1.0,
     lat = np.asarray(lat)
     mlt = np.asarray(mlt)
 
-    # Get the equation of the line defining the upper and lower bounds
-    slope = (y1 - y2) / (x1 - x2)
-    high_int = y1 + del_y - slope * (x1 + del_x)
-    low_int = y1 - del_y - slope * (x1 - del_x)
-
     # Determine the Cartesian coordinates of the input point
     rad_in = ocb_time.hr2rad(mlt - 6.0)
     x_in = (90.0 - hemisphere * lat) * np.cos(rad_in)
     y_in = (90.0 - hemisphere * lat) * np.sin(rad_in)
 
-    # Calculate the upper and lower limits for each of the x-inputs
-    y_low = slope * x_in + low_int
-    y_high = slope * x_in + high_int
-
-    good = (y_in >= y_low) & (y_in <= y_high)
-
-    # Ensure the latitude is not too low
-    if np.any(good):
-        r1 = np.sqrt((x1 - x_in)**2 + (y1 - y_in)**2)
-        r2 = np.sqrt((x2 - x_in)**2 + (y2 - y_in)**2)
-
-        # Find which boundary is closest to the good points
-        ione = np.where(good & (r1 <= r2))
-        itwo = np.where(good & (r2 < r1))
-
-        # Evaluate the closest lower boundary limit
-        if len(lat[ione]) > 0:
-            lat_bound = 90.0 - np.sqrt(x1**2 + y1**2) - past_bound
-            ipast = np.where(abs(lat[ione]) < lat_bound)
-            good[ione[0][ipast]] = False
-
-        if len(lat[itwo]) > 0:
-            lat_bound = 90.0 - np.sqrt(x2**2 + y2**2) - past_bound
-            ipast = np.where(abs(lat[itwo]) < lat_bound)
-            good[itwo[0][ipast]] = False
+    # Select the points between the two lines parallel to the track, which may
+    # have any direction, that are offset by the allowable distances
+    off_track = (y_in - y1) * (x1 - x2) - (x_in - x1) * (y1 - y2)
+    good = abs(off_track) <= abs(del_y * (x1 - x2) - del_x * (y1 - y2))
+
+    # Ensure the latitude is not too low by evaluating the lower limit of the
+    # closest boundary
+    r1 = np.sqrt((x1 - x_in)**2 + (y1 - y_in)**2)
+    r2 = np.sqrt((x2 - x_in)**2 + (y2 - y_in)**2)
+    lat_bound = 90.0 - past_bound - np.where(
+        r1 <= r2, np.sqrt(x1**2 + y1**2), np.sqrt(x2**2 + y2**2))
+    good = good & (hemisphere * lat >= lat_bound)
 
     # Return the boolean mask
     return good
-- 
2.43.0


From 7fb6048b382549dbf623789fb5565f8d05d8a2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:27 +0000
Subject: [PATCH 19/44] fix: a missing start or end does not restrict the DMSP
 file time

---
 ocbpy/boundaries/dmsp_ssj_files.py | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/ocbpy/boundaries/dmsp_ssj_files.py b/ocbpy/boundaries/dmsp_ssj_files.py
index 1f58bc4..a7133ab 100644
--- a/ocbpy/boundaries/dmsp_ssj_files.py
+++ b/ocbpy/boundaries/dmsp_ssj_files.py
@@ -198,28 +198,17 @@ def evaluate_dmsp_boundary_file(fname, stime, etime, sat_nums):
     # Initialize the output
     good_file = False
 
-    # Ensure the time bounds will result in the desired range with an evaluation
-    if stime is None:
-        stime = dt.datetime(1900, 1, 1)  # A time before DMSP launched
-
-    if etime is None:
-        etime = dt.datetime.utcnow()  # A time beyond data uploads
-
     # Get the file satelite ID
     sat_id = int(fname.split('dmsp-f')[-1].split('_ssj')[0])
 
     if sat_id in sat_nums:
-        # Test the file time
-        if stime is None and etime is None:
-            good_file = True
-        else:
-            # Get the file time
-            ftime = dt.datetime.strptime(fname.split('_')[3], '%Y%m%d')
+        # Get the file time
+        ftime = dt.datetime.strptime(fname.split('_')[3], '%Y%m%d')
 
-            if (stime is None and ftime < etime) or (
-                    etime is None and ftime >= stime) or (
-                        ftime >= stime and ftime < etime):
-                good_file = True
+        # Test the file time, where missing limits do not restrict the range
+        if (stime is None or ftime >= stime) and (
+                etime is None or ftime < etime):
+            good_file = True
 
     return good_file
 
-- 
2.43.0


From 35407e4ba16ad61aee00eff0d134addabab21d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:30 +0000
Subject: [PATCH 20/44] fix: the default boundary file does not depend on the
 directory order or fail for other instruments

---
 ocbpy/boundaries/files.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/ocbpy/boundaries/files.py b/ocbpy/boundaries/files.py
index cbb3ce6..24fc1df 100644
--- a/ocbpy/boundaries/files.py
+++ b/ocbpy/boundaries/files.py
@@ -87,6 +87,11 @@ def get_boundary_files(bound='ocb'):
            and bfile.find(".py") < 0 and bfile.find("README") < 0
            and bfile[-3:].lower() == bound.lower()):
             file_info = bfile.lower()[:-4].split("_")
+            if len(file_info) < 2 or file_info[1] not in hemi.keys():
+                ocbpy.logger.warning(
+                    'Unknown boundary file present: [{:s}]'.format(bfile))
+                continue
+
             boundary_files[bfile] = {"instrument": file_info[0],
                                      "hemisphere": hemi[file_info[1]]}
 
@@ -95,11 +100,11 @@ def get_boundary_files(bound='ocb'):
                 boundary_files[bfile]["etime"] = etime[file_info[0]]
             else:
                 try:
-                    boundary_files[bfile]["stime"] = dt.datetime.strptime(
-                        file_info[2], '%Y%m%d')
+                    file_stime = dt.datetime.strptime(file_info[2], '%Y%m%d')
                     boundary_files[bfile]["etime"] = dt.datetime.strptime(
                         file_info[3], '%Y%m%d')
-                except ValueError as verr:
+                    boundary_files[bfile]["stime"] = file_stime
+                except (IndexError, ValueError) as verr:
                     err = 'Unknown boundary file present: [{:s}]\n{:}'.format(
                         bfile, verr)
                     ocbpy.logger.warning(err)
@@ -169,9 +174,9 @@ def get_default_file(stime, etime, hemisphere, instrument='', bound='ocb'):
         if bdict['hemisphere'] == hemisphere:
             # Select by instrument
             if bdict['instrument'] in inst:
-                # Select by time
+                # Select by time, skipping files with an unknown time range
                 if(stime is None or etime is None
-                   or (stime <= bdict['etime'] and etime >= bdict['stime'])):
+                   or ('stime' in bdict.keys() and stime <= bdict['etime'] and etime >= bdict['stime'])):
                     good_files.append(bfile)
 
     # Get the default file and instrument (returning at most one)
@@ -184,19 +189,14 @@ def get_default_file(stime, etime, hemisphere, instrument='', bound='ocb'):
         ocbpy.logger.info(estr)
 
         default_file = None
-    elif len(good_files) == 1:
-        default_file = os.path.join(boundary_dir, good_files[0])
-        if boundary_files[good_files[0]]['instrument'] in short_to_long.keys():
-            instrument = short_to_long[boundary_files[good_files[0]][
-                'instrument']]
-        else:
-            instrument = boundary_files[good_files[0]]['instrument']
     else:
-        # Rate files by instrument
+        # Rate files by instrument, with any unknown instruments last, and then
+        # by name to always choose the same file
         default_inst = ['image', 'amp', 'si13', 'si12', 'wic', 'dmsp-ssj']
-        ordered_files = {default_inst.index(boundary_files[bb]['instrument']):
-                         bb for bb in good_files}
-        bfile = ordered_files[min(ordered_files.keys())]
+        ranks = {bb: default_inst.index(boundary_files[bb]['instrument'])
+                 if boundary_files[bb]['instrument'] in default_inst
+                 else len(default_inst) for bb in good_files}
+        bfile = min(good_files, key=lambda bb: (ranks[bb], bb))
         default_file = os.path.join(boundary_dir, bfile)
         if boundary_files[bfile]['instrument'] in short_to_long.keys():
             instrument = short_to_long[boundary_files[bfile]['instrument']]
-- 
2.43.0


From aae874dab3138088cf9dcb116153849297518e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:21 +0000
Subject: [PATCH 21/44] fix: dual-boundary conversions locate every element of
 multi-dimensional input

---
 ocbpy/_boundary.py | 43 ++++++++++++++++++++-----------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 0a64365..0f72bc8 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1454,30 +1454,29 @@ class DualBoundary(object):
         eab_aacgm_boundary = self.eab.aacgm_boundary_lat[self.eab.rec_ind]
 
         # Normalize each of the points using the correct scaling factor
-        imid = np.where((abs(aacgm_lat) < abs(ocb_aacgm_boundary))
-                        & (abs(aacgm_lat) >= abs(eab_aacgm_boundary)))[0]
-        iout = np.where(abs(aacgm_lat) < abs(eab_aacgm_boundary))[0]
+        imid = ((abs(aacgm_lat) < abs(ocb_aacgm_boundary))
+                & (abs(aacgm_lat) >= abs(eab_aacgm_boundary)))
+        iout = abs(aacgm_lat) < abs(eab_aacgm_boundary)
 
         # Test to ensure that all points fall into a region
-        iocb = np.where(abs(ocb_lat) >= abs(self.ocb.boundary_lat))[0]
-        if len(iocb) + len(imid) + len(iout) < len(aacgm_lat):
+        iocb = abs(ocb_lat) >= abs(self.ocb.boundary_lat)
+        ibad = ~(iocb | imid | iout)
+        if ibad.any():
             msg = "not all points fall into a boundary region"
             if np.isnan(ocb_aacgm_boundary).any() or np.isnan(
                     eab_aacgm_boundary).any():
                 msg += ", boundaries are poorly defined"
             logger.warning(msg)
 
-            ibad = [i for i in range(len(aacgm_lat)) if i not in iocb
-                    and i not in imid and i not in iout]
             bound_lat[ibad] = np.nan
 
-        if len(imid) > 0:
+        if imid.any():
             bound_lat[imid] = self.ocb.boundary_lat - (
                 ocb_aacgm_boundary[imid] - aacgm_lat[imid]) * (
                     self.ocb.boundary_lat - self.eab.boundary_lat) / (
                         ocb_aacgm_boundary[imid] - eab_aacgm_boundary[imid])
 
-        if len(iout) > 0:
+        if iout.any():
             bound_lat[iout] = self.eab.boundary_lat - (
                 eab_aacgm_boundary[iout] - aacgm_lat[iout]) * (
                     self.eab.boundary_lat / eab_aacgm_boundary[iout])
@@ -1600,9 +1599,7 @@ class DualBoundary(object):
 
         # If not already flagged, see if all OCB by location
         if not is_ocb:
-            iocb = np.where(abs(ocb_lat) >= abs(self.ocb.boundary_lat))[0]
-
-            if len(ocb_lat) == len(iocb):
+            if np.all(abs(ocb_lat) >= abs(self.ocb.boundary_lat)):
                 is_ocb = True
 
         # Continue calculating the output for the other regions, if needed
@@ -1643,18 +1640,18 @@ class DualBoundary(object):
                 logger.warning(msg)
 
             # Revert each of the points using the correct scaling factor
-            imid = np.where((abs(ocb_lat) < abs(self.ocb.boundary_lat))
-                            & (abs(ocb_lat) >= abs(self.eab.boundary_lat)))[0]
-            iout = np.where(abs(ocb_lat) < abs(self.eab.boundary_lat))[0]
+            imid = ((abs(ocb_lat) < abs(self.ocb.boundary_lat))
+                    & (abs(ocb_lat) >= abs(self.eab.boundary_lat)))
+            iout = abs(ocb_lat) < abs(self.eab.boundary_lat)
 
-            if len(imid) > 0:
+            if imid.any():
                 lat[imid] = ocb_aacgm_boundary[imid] - (
                     self.ocb.boundary_lat - ocb_lat[imid]) * (
                         ocb_aacgm_boundary[imid] - eab_aacgm_boundary[imid]) / (
                             self.ocb.boundary_lat - self.eab.boundary_lat)
                 lt[imid] = aacgm_mlt[imid]
 
-            if len(iout) > 0:
+            if iout.any():
                 lat[iout] = eab_aacgm_boundary[iout] - (
                     self.eab.boundary_lat - ocb_lat[iout]) * (
                     eab_aacgm_boundary[iout] / self.eab.boundary_lat)
@@ -1675,7 +1672,7 @@ class DualBoundary(object):
 
             # If needed, convert from magnetic to geographic coordinates
             if coords.lower().find('mag') < 0:
-                imag = list(imid) + list(iout)
+                imag = imid | iout
 
                 # Convert from mlt to longitude
                 lon = aacgmv2.convert_mlt(aacgm_mlt[imag],
@@ -1798,9 +1795,9 @@ class DualBoundary(object):
                 self.ocb_ind[self.rec_ind]] + r_corr)
 
         # Identify points in the other regions
-        imid = np.where((abs(bound_lat) < abs(self.ocb.boundary_lat))
-                        & (abs(bound_lat) >= abs(self.eab.boundary_lat)))[0]
-        iout = np.where(abs(bound_lat) < abs(self.eab.boundary_lat))[0]
+        imid = ((abs(bound_lat) < abs(self.ocb.boundary_lat))
+                & (abs(bound_lat) >= abs(self.eab.boundary_lat)))
+        iout = abs(bound_lat) < abs(self.eab.boundary_lat)
 
         # Get the boundary locations in AACGM coordinates
         if not overwrite:
@@ -1816,12 +1813,12 @@ class DualBoundary(object):
         eab_aacgm_boundary = self.eab.aacgm_boundary_lat[self.eab.rec_ind]
 
         # Calculate the radii in the auroral region
-        if len(imid) > 0:
+        if imid.any():
             scaled_r[imid] = abs(self.ocb.boundary_lat - self.eab.boundary_lat)
             unscaled_r[imid] = abs(ocb_aacgm_boundary[imid]
                                    - eab_aacgm_boundary[imid])
 
-        if len(iout) > 0:
+        if iout.any():
             scaled_r[iout] = abs(self.eab.boundary_lat)
             unscaled_r[iout] = abs(eab_aacgm_boundary[iout])
 
-- 
2.43.0


From cdcbce1de3714f3823d86c3c5874895146658875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:47 +0000
Subject: [PATCH 22/44] fix: calc_r treats single values beside arrays as if
 repeated

---
 ocbpy/_boundary.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 0f72bc8..476743b 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1772,15 +1772,23 @@ class DualBoundary(object):
         r_corr = np.asarray(r_corr)
 
         isfloat = False
-        if bound_lat.shape == ():
-            bound_lat = np.array([bound_lat])
-            bound_mlt = np.array([bound_mlt])
-            aacgm_mlt = np.array([aacgm_mlt])
-            r_corr = np.array([r_corr])
+        out_shape = max([bound_lat.shape, bound_mlt.shape, aacgm_mlt.shape,
+                         r_corr.shape])
+        if out_shape == ():
             isfloat = True
+            out_shape = (1, )
+
+        # Treat single values provided alongside arrays as if repeated
+        if bound_lat.shape == ():
+            bound_lat = np.full(shape=out_shape, fill_value=float(bound_lat))
+
+        if aacgm_mlt.shape == ():
+            aacgm_mlt = np.full(shape=out_shape, fill_value=float(aacgm_mlt))
+
+        if r_corr.shape == ():
+            r_corr = np.full(shape=out_shape, fill_value=float(r_corr))
 
         # Initialize the output, start by assuming the data is inside the OCB
-        out_shape = max([bound_lat.shape, bound_mlt.shape, r_corr.shape])
         scaled_r = np.full(shape=out_shape,
                            fill_value=90.0 - abs(self.ocb.boundary_lat))
 
-- 
2.43.0


From 39cdf7323c19b696b219c68064616b0791829b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:44 +0000
Subject: [PATCH 23/44] fix: dual reversion repeats a single position for
 several corrections or AACGM MLT

---
 ocbpy/_boundary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 476743b..0d72a5b 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -1558,7 +1558,8 @@ class DualBoundary(object):
         ocb_lat = np.asarray(ocb_lat)
         ocb_mlt = np.asarray(ocb_mlt)
         height = np.asarray(height)
-        out_shape = max([ocb_lat.shape, ocb_mlt.shape, height.shape])
+        out_shape = max([ocb_lat.shape, ocb_mlt.shape, height.shape,
+                         np.shape(r_corr), np.shape(aacgm_mlt)])
 
         if out_shape == ():
             ocb_lat = np.array([ocb_lat])
-- 
2.43.0


From 62ad79cb1df13ff08a9af02000a1291c6f6aba0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:50 +0000
Subject: [PATCH 24/44] fix: the pole location has the shape of the array input

---
 ocbpy/vectors.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index e77dd31..fc2a138 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -38,6 +38,12 @@ def get_pole_loc(phi_cent, r_cent):
     pole_lt = ocb_time.deg2hr(np.asarray(phi_cent))
     pole_lat = 90.0 - np.asarray(r_cent)
 
+    # Repeat a single value provided alongside an array
+    if len(pole_lt.shape) == 0 and len(pole_lat.shape) > 0:
+        pole_lt = np.full(shape=pole_lat.shape, fill_value=pole_lt)
+    elif len(pole_lat.shape) == 0 and len(pole_lt.shape) > 0:
+        pole_lat = np.full(shape=pole_lt.shape, fill_value=pole_lat)
+
     if len(pole_lt.shape) == 0 and len(pole_lat.shape) == 0:
         pole_lt = float(pole_lt)
         pole_lat = float(pole_lat)
-- 
2.43.0


From 7d64dea0de023f2014b66cb5fda8b3ebf370fc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:04 +0000
Subject: [PATCH 25/44] fix: update_loc_coords converts between geodetic and
 geocentric and keeps the name in lower case

---
 ocbpy/ocb_scaling.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index f74224e..abd925b 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -929,7 +929,13 @@ class VectorData(object):
         """
         dtime = None
 
-        if coord.lower() != self.loc_coord:
+        coord = coord.lower()
+
+        if coord != self.loc_coord:
+            # Different geographic systems are converted through AACGM
+            if 'magnetic' not in [coord, self.loc_coord]:
+                self.update_loc_coords(dtimes, trace_method=trace_method)
+
             # Ensure the data is shaped correctly
             if len(self.lt.shape) == 0 and len(self.lat.shape) == 0:
                 if hasattr(dtimes, 'year'):
@@ -956,7 +962,7 @@ class VectorData(object):
             methods = [trace_method]
 
             # Handle the conversion to/from magnetic coordinates separately
-            if coord.lower() == "magnetic":
+            if coord == "magnetic":
                 # Update the method
                 if self.loc_coord == "geocentric":
                     methods.append(self.loc_coord.upper())
@@ -986,7 +992,7 @@ class VectorData(object):
                         self.lat, lon, self.height, dtime, "|".join(methods))
             else:
                 # Update the method
-                if coord.lower() == "geocentric":
+                if coord == "geocentric":
                     methods.append(coord.upper())
                 methods.append("A2G")
 
-- 
2.43.0


From 8cbdba2bef1f242df146675fa6f56c329a652eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:04 +0000
Subject: [PATCH 26/44] fix: converting a single vector location keeps its
 shape

---
 ocbpy/ocb_scaling.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index abd925b..58d48b6 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -1022,9 +1022,10 @@ class VectorData(object):
                     # Convert to SLT
                     new_lt = ocb_time.glon2slt(new_lon, dtime)
 
-            # Update the location attributes
-            self.lat = np.asarray(new_lat)
-            self.lt = np.asarray(new_lt)
+            # Update the location attributes, without changing their shape
+            loc_shape = np.broadcast(self.lat, self.lt).shape
+            self.lat = np.asarray(new_lat).reshape(loc_shape)
+            self.lt = np.asarray(new_lt).reshape(loc_shape)
             self.loc_coord = coord
 
         return
-- 
2.43.0


From 686b77fff05928c2f3021eab93cddc5e463c54af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:04 +0000
Subject: [PATCH 27/44] fix: geographic vectors at several heights find the
 magnetic pole at each

---
 ocbpy/ocb_scaling.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 58d48b6..dc52951 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -1115,10 +1115,14 @@ class VectorData(object):
                     mag_pole_slt.append(ocb_time.glon2slt(out[1], val))
                     mag_pole_glat.append(out[0])
             else:
-                mag_pole_glat, mag_pole_lon, _ = aacgmv2.convert_latlon(
-                    hemisphere * 90.0, 0.0, self.height, dtime,
+                mag_pole_glat, mag_pole_lon, _ = aacgmv2.convert_latlon_arr(
+                    np.full(shape=self.height.shape,
+                            fill_value=hemisphere * 90.0),
+                    np.zeros(shape=self.height.shape), self.height, dtime,
                     method_code='|'.join(methods))
-                mag_pole_slt = ocb_time.glon2slt(mag_pole_lon, dtime)
+                mag_pole_glat = np.reshape(mag_pole_glat, self.height.shape)
+                mag_pole_slt = ocb_time.glon2slt(
+                    np.reshape(mag_pole_lon, self.height.shape), dtime)
 
             mag_pole_glat = np.asarray(mag_pole_glat)
             mag_pole_slt = np.asarray(mag_pole_slt)
-- 
2.43.0


From 3982d542730f0a23cf21c8463d63059cf090d7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:04 +0000
Subject: [PATCH 28/44] fix: southern geographic vectors are rotated to
 magnetic north

---
 ocbpy/ocb_scaling.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index dc52951..6006113 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -1127,6 +1127,13 @@ class VectorData(object):
             mag_pole_glat = np.asarray(mag_pole_glat)
             mag_pole_slt = np.asarray(mag_pole_slt)
 
+            # The north component points away from the southern pole, towards
+            # its antipode
+            if hemisphere < 0:
+                mag_pole_glat = -mag_pole_glat
+                mag_pole_slt = ocb_time.fix_range(mag_pole_slt + 12.0, 0.0,
+                                                  24.0)
+
             # Get the angle at the data vector appended by the AACGM and
             # geographic poles
             pole_angle = vectors.calc_vec_pole_angle(
-- 
2.43.0


From 7a3fcee3bc1633b67b8b46ccab910cf70515794f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:04 +0000
Subject: [PATCH 29/44] fix: geographic vectors use their geographic location
 throughout

---
 ocbpy/ocb_scaling.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 6006113..bd07c76 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -1140,15 +1140,13 @@ class VectorData(object):
                 geo_lt, geo_lat, mag_pole_slt, mag_pole_glat)
 
             # Set the pole and vector quadrants
-            if np.any(~np.isnan(pole_angle)):
-                pole_quad = vectors.define_pole_quadrants(geo_lt, mag_pole_slt,
-                                                          pole_angle)
-                vect_quad = vectors.define_vect_quadrants(self.vect_n,
-                                                          self.vect_e)
+            pole_quad = vectors.define_pole_quadrants(geo_lt, mag_pole_slt,
+                                                      pole_angle)
+            vect_quad = vectors.define_vect_quadrants(self.vect_n, self.vect_e)
 
             # Adjust the geographic vector to AACGM coordinates
             mag_n, mag_e, mag_z = vectors.adjust_vector(
-                mag_lt, mag_lat, self.vect_n, self.vect_e, self.vect_z,
+                geo_lt, geo_lat, self.vect_n, self.vect_e, self.vect_z,
                 vect_quad, mag_pole_slt, mag_pole_glat, pole_angle, pole_quad)
 
             # Assign the new vector data and coordinate specification
-- 
2.43.0


From ca0c6e9c558245c389f4903c26d8ba023424b72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:04 +0000
Subject: [PATCH 30/44] fix: a converted location for several records is used
 record by record

---
 ocbpy/ocb_scaling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index bd07c76..815c48b 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -699,7 +699,7 @@ class VectorData(object):
                 for i, ocb.rec_ind in enumerate(self.ocb_ind):
                     # Handle time different, depending on the OCB and
                     # data shapes. Calcualte the coordinates and save the output
-                    if self.ocb_ind.shape == self.dat_ind.shape:
+                    if self.ocb_ind.shape == self.lat.shape:
                         out_coord = ocb.normal_coord(self.lat[i], self.lt[i],
                                                      coords=self.loc_coord,
                                                      height=self.height[i],
-- 
2.43.0


From c7cc0ddc609ffee6e565610633482b5998b2d319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:04 +0000
Subject: [PATCH 31/44] fix: set_ocb converts geographic locations of magnetic
 vectors

---
 ocbpy/ocb_scaling.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index 815c48b..c2dc0df 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -675,6 +675,7 @@ class VectorData(object):
             ocb.dtime[ind] for ind in self.ocb_ind]
         self.update_vect_coords_to_mag(dtime, ocb.hemisphere,
                                        trace_method=trace_method)
+        self.update_loc_coords(dtime, trace_method=trace_method)
 
         # If the OCB vector coordinates weren't included in the initial info,
         # update them here
-- 
2.43.0


From ca7d4b7d5c97f4b2c2e1d0b6fa8b119503fc52d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:01 +0000
Subject: [PATCH 32/44] fix: define_pole_quadrants accepts integer local times

---
 ocbpy/vectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/vectors.py b/ocbpy/vectors.py
index fc2a138..8ec1072 100644
--- a/ocbpy/vectors.py
+++ b/ocbpy/vectors.py
@@ -175,7 +175,7 @@ def define_pole_quadrants(data_lt, pole_lt, pole_angle):
     """
     # Determine where the destination pole is relative to the data vector
     pole_angle = np.asarray(pole_angle)
-    del_lt = np.asarray(pole_lt) - np.asarray(data_lt)
+    del_lt = np.asarray(pole_lt, dtype=float) - np.asarray(data_lt)
 
     # Initalize the output
     pole_quad = np.zeros(shape=np.asarray(del_lt + pole_angle).shape)
-- 
2.43.0


From ad60a59dd200345615ecf44e23492822e4127a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:00 +0000
Subject: [PATCH 33/44] fix: files without any match to a boundary do not stop
 the conversion

---
 ocbpy/instruments/supermag.py | 4 ++++
 ocbpy/instruments/vort.py     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/ocbpy/instruments/supermag.py b/ocbpy/instruments/supermag.py
index 19beee6..d3ec7b8 100644
--- a/ocbpy/instruments/supermag.py
+++ b/ocbpy/instruments/supermag.py
@@ -154,6 +154,10 @@ def supermag2ascii_ocb(smagfile, outfile, hemisphere=0, ocb=None,
                                         max_tol=max_sdiff, min_merit=min_merit,
                                         max_merit=max_merit, **kwargs)
 
+            if imag is None:
+                # None of the data are close enough to a boundary
+                break
+
             if imag < nmag and ocb.rec_ind < ocb.records:
                 # Get all of the points for this time pairing
                 itime = np.where(mdata['DATETIME'] == mdata['DATETIME'][imag])
diff --git a/ocbpy/instruments/vort.py b/ocbpy/instruments/vort.py
index 3ce7cf7..7f08a7e 100644
--- a/ocbpy/instruments/vort.py
+++ b/ocbpy/instruments/vort.py
@@ -178,6 +178,10 @@ def vort2ascii_ocb(vortfile, outfile, hemisphere=0, ocb=None,
                                          max_tol=max_sdiff, min_merit=min_merit,
                                          max_merit=max_merit, **kwargs)
 
+            if ivort is None:
+                # None of the data are close enough to a boundary
+                break
+
             if ivort < num_vort and ocb.rec_ind < ocb.records:
                 # Use the indexed OCB to convert the AACGM grid coordinate to
                 # one related to the OCB
-- 
2.43.0


From 33cb82a0dc5854033e1a21c6cb4ec467ad3b6cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:55 +0000
Subject: [PATCH 34/44] fix: set_ocb leaves the boundary a record index that
 later steps do not alter in place

---
 ocbpy/ocb_scaling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/ocb_scaling.py b/ocbpy/ocb_scaling.py
index c2dc0df..4247bad 100644
--- a/ocbpy/ocb_scaling.py
+++ b/ocbpy/ocb_scaling.py
@@ -687,7 +687,7 @@ class VectorData(object):
             # dependent, we can't call this function with multiple OCB/EABs
             if self.ocb_ind.shape == ():
                 # Initialise the boundary index
-                ocb.rec_ind = self.ocb_ind
+                ocb.rec_ind = int(self.ocb_ind)
 
                 # Calculate the coordinates and save the output
                 out_coord = ocb.normal_coord(self.lat, self.lt,
-- 
2.43.0


From d143e3f7742b2f6185140478ac345ae7f523ee76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:01 +0000
Subject: [PATCH 35/44] fix: missing SuperMAG magnetic latitudes are NaN like
 the other values

---
 ocbpy/instruments/supermag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/instruments/supermag.py b/ocbpy/instruments/supermag.py
index d3ec7b8..12112c0 100644
--- a/ocbpy/instruments/supermag.py
+++ b/ocbpy/instruments/supermag.py
@@ -306,7 +306,7 @@ def load_supermag_ascii_data(filename):
         else:
             out[k] = np.array(out[k])
 
-            if k in ['BE', 'BN', 'DEC', 'SZA', 'MLT', 'BZ']:
+            if k in ['BE', 'BN', 'DEC', 'SZA', 'MLT', 'MLAT', 'BZ']:
                 out[k][out[k] == fill_val] = np.nan
 
     return header, out
-- 
2.43.0


From 43c197e5116b2f72a597e91d40146e744671077f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:02 +0000
Subject: [PATCH 36/44] fix: load_ascii_data reads single rows and time columns
 anywhere, keeping its input

---
 ocbpy/instruments/general.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/ocbpy/instruments/general.py b/ocbpy/instruments/general.py
index 5afe141..e43ac49 100644
--- a/ocbpy/instruments/general.py
+++ b/ocbpy/instruments/general.py
@@ -102,18 +102,16 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
     Data is assumed to be float unless otherwise stated.
 
     """
-    # Initialize the empty lists
+    # Initialize the empty lists, without altering the input
     if datetime_cols is None:
         datetime_cols = list()
 
-    if int_cols is None:
-        int_cols = list()
+    int_cols = list() if int_cols is None else list(int_cols)
 
     if str_cols is None:
         str_cols = list()
 
-    if header is None:
-        header = list()
+    header = list() if header is None else list(header)
 
     # Test to ensure the file is small enough to read in.  Python can only
     # allocate 2GB of data.  If you load something larger, python will crash
@@ -131,14 +129,16 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
         if max_str_length < dt_str_len:
             max_str_length = dt_str_len
 
-        if datetime_fmt.upper().find("YEAR") >= 0:
+        if(len(datetime_cols) > 0
+           and datetime_fmt.upper().find("YEAR") >= 0):
             ipart = datetime_fmt.upper().find("YEAR")
             case_part = datetime_fmt[ipart:ipart + 4]
-            int_cols.append(dfmt_parts.index(case_part))
-        if datetime_fmt.upper().find("SOY") >= 0:
+            int_cols.append(datetime_cols[dfmt_parts.index(case_part)])
+        if(len(datetime_cols) > 0
+           and datetime_fmt.upper().find("SOY") >= 0):
             ipart = datetime_fmt.upper().find("SOY")
             case_part = datetime_fmt[ipart:ipart + 3]
-            int_cols.append(dfmt_parts.index(case_part))
+            int_cols.append(datetime_cols[dfmt_parts.index(case_part)])
 
     # Open the data file and read the header rows
     with open(filename, "r") as fin:
@@ -195,6 +195,10 @@ def load_ascii_data(filename, hlines, gft_kwargs=dict(), hsplit=None,
     # Open the datafile and read the data rows
     temp = np.genfromtxt(filename, skip_header=hlines, dtype=str, **gft_kwargs)
 
+    # A single row of data is not returned as a row
+    if temp.ndim == 0 or (temp.ndim == 1 and nhead > 1 and temp.size > 0):
+        temp = temp.reshape((1, -1))
+
     if len(temp) > 0:
         # When dtype is specified, output comes as a void np.array
         #
-- 
2.43.0


From 3d8c2894b5ed2a20260f12859d8b8e675ba4fbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:15 +0000
Subject: [PATCH 37/44] fix: a boundary file with a single record can be loaded

---
 ocbpy/_boundary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocbpy/_boundary.py b/ocbpy/_boundary.py
index 0d72a5b..895ba7c 100644
--- a/ocbpy/_boundary.py
+++ b/ocbpy/_boundary.py
@@ -369,8 +369,8 @@ class OCBoundary(object):
             return
 
         # Read the OCB data
-        odata = np.rec.array(np.genfromtxt(self.filename, skip_header=hlines,
-                                           dtype=ldtype))
+        odata = np.rec.array(np.atleast_1d(
+            np.genfromtxt(self.filename, skip_header=hlines, dtype=ldtype)))
         oname = list(odata.dtype.names)
 
         # Load the data into the OCBoundary object
-- 
2.43.0


From affcfa8a065691e1786496bf54eb834b6f98ffe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:34 +0000
Subject: [PATCH 38/44] fix: DMSP files with a single pass are formatted

---
 ocbpy/boundaries/dmsp_ssj_files.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ocbpy/boundaries/dmsp_ssj_files.py b/ocbpy/boundaries/dmsp_ssj_files.py
index a7133ab..250dcec 100644
--- a/ocbpy/boundaries/dmsp_ssj_files.py
+++ b/ocbpy/boundaries/dmsp_ssj_files.py
@@ -341,8 +341,9 @@ def format_ssj_boundary_files(csv_files, ref_alt=830.0,
             header_list = head_line.split("\n")[0].split(",")
 
             # Load the file data
-            data = np.loadtxt(infile, skiprows=skiprows, delimiter=',')
-            if len(data.shape) != 2 or data.shape[1] != len(header_list):
+            data = np.loadtxt(infile, skiprows=skiprows, delimiter=',',
+                              ndmin=2)
+            if data.size == 0 or data.shape[1] != len(header_list):
                 bad_files.append(infile)
             else:
                 # Establish the desired data indices
-- 
2.43.0


From 28110629fd74818760c6efabce579d058b2fe221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:00 +0000
Subject: [PATCH 39/44] fix: a single height is used for all pysat data

---
 ocbpy/instruments/pysat_instruments.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index 1c139f8..9de2277 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -392,6 +392,9 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
     else:
         ocb_coords = [pysat_inst.index.name]
 
+        if len(height.shape) == 0:
+            height = np.full(shape=lat.shape, fill_value=height)
+
     # See if the data has more dimensions than the OCB coordinates
     if len(dat_coords) > len(ocb_coords):
         combo_shape = list(lat.shape)
-- 
2.43.0


From 5b06e50c0fb5e3726e1baea41676718afb5e3c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:00 +0000
Subject: [PATCH 40/44] fix: every pysat vector starts from the default values

---
 ocbpy/instruments/pysat_instruments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index 9de2277..ecc031e 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -487,10 +487,10 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
                                   "loc_coord": loc_coord,
                                   "vect_coord": vect_coord,
                                   "height": height[iout]}
-                vector_init = dict(vector_default)
                 vshape = list()
 
                 for eattr in vector_names.keys():
+                    vector_init = dict(vector_default)
                     oattr = "{:s}_{:s}".format(eattr, bname)
                     for ikey in vector_names[eattr].keys():
                         # Not all vector names are DataFrame names
-- 
2.43.0


From 8f71eb9dcbb66d4289f5d35dc8b245a0ceb3d6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:00 +0000
Subject: [PATCH 41/44] fix: add_ocb_to_data leaves the lists of variables as
 they were

---
 ocbpy/instruments/pysat_instruments.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index ecc031e..cdb8227 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -129,14 +129,14 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
 
     """
     # Test the input
-    if evar_names is None:
-        evar_names = []
-
-    if curl_evar_names is None:
-        curl_evar_names = []
+    evar_names = [] if evar_names is None else list(evar_names)
+    curl_evar_names = [] if curl_evar_names is None else list(curl_evar_names)
 
     if vector_names is None:
         vector_names = {}
+    else:
+        vector_names = {vkey: dict(vector_names[vkey])
+                        for vkey in vector_names.keys()}
 
     if not isinstance(pysat_inst, pysat.Instrument):
         raise ValueError('unknown class, expected pysat.Instrument')
-- 
2.43.0


From ba5b4046da59356b2b65733046c6ea949e6337af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:00 +0000
Subject: [PATCH 42/44] fix: default boundary types are recognised for pysat
 data

---
 ocbpy/instruments/pysat_instruments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index cdb8227..5daca63 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -195,11 +195,11 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
             if ocbfile.lower() in ['eab', 'ocb', 'dual']:
                 ocbfile = "default"
 
-        if fileroot.find("ocb") > 0 and fileroot.find("eab") < 0:
+        if fileroot.find("ocb") >= 0 and fileroot.find("eab") < 0:
             # Initialize the OCBoundary object
             ocb = ocbpy.OCBoundary(ocbfile, stime=dstart, etime=dend,
                                    instrument=instrument, hemisphere=hemisphere)
-        elif fileroot.find("ocb") < 0 and fileroot.find("eab") > 0:
+        elif fileroot.find("ocb") < 0 and fileroot.find("eab") >= 0:
             # Initialize the EABoundary object
             ocb = ocbpy.EABoundary(ocbfile, stime=dstart, etime=dend,
                                    instrument=instrument, hemisphere=hemisphere)
-- 
2.43.0


From bee6ff3596c00dc694ecf59996544f0040a4a1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:10 +0000
Subject: [PATCH 43/44] fix: pysat data without any match to a boundary get
 empty columns

---
 ocbpy/instruments/pysat_instruments.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index 5daca63..9fc7606 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -441,6 +441,10 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
                                     min_merit=min_merit, max_merit=max_merit,
                                     **kwargs)
 
+        if idat is None:
+            # None of the data are close enough to a boundary
+            break
+
         if idat < ndat and ocb.rec_ind < ocb.records:
             time_ind = np.where(dat_ind[0] == uind[idat])[0]
 
-- 
2.43.0


From 4312bf12336e2192f4e4c784074ca2c4006cbb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:14 +0000
Subject: [PATCH 44/44] fix: pysat vectors without a boundary location are NaN

---
 ocbpy/instruments/pysat_instruments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocbpy/instruments/pysat_instruments.py b/ocbpy/instruments/pysat_instruments.py
index 9fc7606..9c408f0 100644
--- a/ocbpy/instruments/pysat_instruments.py
+++ b/ocbpy/instruments/pysat_instruments.py
@@ -520,7 +520,8 @@ def add_ocb_to_data(pysat_inst, mlat_name='', mlt_name='', height_name='',
                     for vattr in ocb_vect_attrs:
                         ovattr = '_'.join([oattr, vattr])
                         ovattr = ovattr.replace('_ocb_', '_')
-                        ocb_output[ovattr][iout] = getattr(vout, vattr)
+                        ocb_output[ovattr][iout] = getattr(vout, vattr,
+                                                            np.nan)
 
             if hasattr(ocb, "ocb"):
                 unscaled_r = ocb.ocb.r[ocb.ocb.rec_ind] + ocb_output[
-- 
2.43.0

