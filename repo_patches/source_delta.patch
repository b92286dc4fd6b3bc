From 1ed145c0a692a651f50102cb7121e3d380dd375b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:36 +0000
Subject: [PATCH 01/31] fix: on-disk median accepts as many frames as it was
 set up for

The limit on appended frames was compared with the number of row sections,
so a stack with fewer sections than frames (large buffer, few rows) was refused.
---
 src/stcal/outlier_detection/median.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stcal/outlier_detection/median.py b/src/stcal/outlier_detection/median.py
index cb3c40a..e3b13ea 100644
--- a/src/stcal/outlier_detection/median.py
+++ b/src/stcal/outlier_detection/median.py
@@ -334,8 +334,8 @@ class _OnDiskMedian:
         Split data into ``nsections`` sections and write/append each section to
         the corresponding temporary file.
         """
-        if self._n_adds >= self.nsections:
-            msg = f"Too many calls to add_image. Expected at most {self.nsections} input models."
+        if self._n_adds >= self._expected_nframes:
+            msg = f"Too many calls to add_image. Expected at most {self._expected_nframes} input models."
             raise IndexError(msg)
         self._validate_data(data)
         self._n_adds += 1
-- 
2.43.0


From 892dcf9196c2d6275eb7bb8eeb3a4fb9bf5d1fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:49 +0000
Subject: [PATCH 02/31] fix: keep one-group suppression when ramps are fit in
 slices

The row slices handed to worker processes lost the suppress_one_group_ramps
setting, so suppressed ramps fell back to the zero frame or to one-group
rates with multiprocessing but not without.
---
 src/stcal/ramp_fitting/ols_fit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stcal/ramp_fitting/ols_fit.py b/src/stcal/ramp_fitting/ols_fit.py
index 86f8a13..ce03b77 100644
--- a/src/stcal/ramp_fitting/ols_fit.py
+++ b/src/stcal/ramp_fitting/ols_fit.py
@@ -521,6 +521,9 @@ def slice_ramp_data(ramp_data, start_row, nrows):
     ramp_data_slice.start_row = start_row
     ramp_data_slice.num_rows = nrows
 
+    # One good group suppression affects how each slice is fit.
+    ramp_data_slice.suppress_one_group_ramps = ramp_data.suppress_one_group_ramps
+
     return ramp_data_slice
 
 
-- 
2.43.0


From e2013ce792257797039a3f8e5dd3a1c490c71da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:58 +0000
Subject: [PATCH 03/31] fix: ramp fitting handles byte-swapped zero frames and
 gives arrays back in their byte order

The zero frame was the one array read by the C extension without regard to
its byte order, and arrays swapped in place for the extension were left
swapped under their old dtype, so a caller's arrays held garbage afterwards.
---
 src/stcal/ramp_fitting/ols_fit.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/stcal/ramp_fitting/ols_fit.py b/src/stcal/ramp_fitting/ols_fit.py
index ce03b77..488f5fa 100644
--- a/src/stcal/ramp_fitting/ols_fit.py
+++ b/src/stcal/ramp_fitting/ols_fit.py
@@ -581,11 +581,14 @@ def ols_ramp_fit_single(ramp_data, save_opt, readnoise_2d, gain_2d, weighting):
     # if they got byteswapped for the C extension, they need to be
     # byteswapped back to properly work in python once returned from
     # ramp fitting.
-    rn_bswap, gain_bswap = bswap
+    # The ramp arrays belong to the caller, too.
+    rn_bswap, gain_bswap, ramp_bswap = bswap
     if rn_bswap:
         readnoise_2d.view(readnoise_2d.dtype.newbyteorder("S")).byteswap(inplace=True)
     if gain_bswap:
         gain_2d.view(gain_2d.dtype.newbyteorder("S")).byteswap(inplace=True)
+    for arr in ramp_bswap:
+        arr.view(arr.dtype.newbyteorder("S")).byteswap(inplace=True)
 
     c_diff = c_end - c_start
     log.info(f"Ramp Fitting C Time: {c_diff}")
@@ -653,6 +656,10 @@ def endianness_handler(ramp_data, gain_2d, readnoise_2d):
 
     readnoise_2d : ndarray
         An ndarray checked and possibly byte swapped.
+
+    bswap : tuple
+        Whether the readnoise and the gain arrays were byte swapped, and the
+        list of ramp arrays that were.
     """
     sys_order = "<" if sys.byteorder == "little" else ">"
 
@@ -662,12 +669,20 @@ def endianness_handler(ramp_data, gain_2d, readnoise_2d):
     gain_2d, gain_bswap = handle_array_endianness(gain_2d, sys_order)
     readnoise_2d, rn_bswap = handle_array_endianness(readnoise_2d, sys_order)
 
-    ramp_data.data, _ = handle_array_endianness(ramp_data.data, sys_order)
-    ramp_data.average_dark_current, _ = handle_array_endianness(ramp_data.average_dark_current, sys_order)
-    ramp_data.groupdq, _ = handle_array_endianness(ramp_data.groupdq, sys_order)
-    ramp_data.pixeldq, _ = handle_array_endianness(ramp_data.pixeldq, sys_order)
-
-    return ramp_data, gain_2d, readnoise_2d, (rn_bswap, gain_bswap)
+    ramp_bswap = []
+    for arr in (
+        ramp_data.data,
+        ramp_data.average_dark_current,
+        ramp_data.groupdq,
+        ramp_data.pixeldq,
+        ramp_data.zeroframe,
+    ):
+        if arr is not None:
+            _, bswap = handle_array_endianness(arr, sys_order)
+            if bswap:
+                ramp_bswap.append(arr)
+
+    return ramp_data, gain_2d, readnoise_2d, (rn_bswap, gain_bswap, ramp_bswap)
 
 
 def discard_miri_groups(ramp_data):
-- 
2.43.0


From b99f46c70970aea0b5110a791148de1d5229a62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:07 +0000
Subject: [PATCH 04/31] fix: jump detection honours minimum_groups in a single
 process too

The setting was used with several processes only; a single process always
required three groups, so the result depended on the number of processes.
---
 src/stcal/jump/jump.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/stcal/jump/jump.py b/src/stcal/jump/jump.py
index 9069ed6..148bd3b 100644
--- a/src/stcal/jump/jump.py
+++ b/src/stcal/jump/jump.py
@@ -90,7 +90,6 @@ def detect_jumps_data(jump_data):
 
     twopt_params = TwoPointParams(jump_data)
     if n_slices == 1:
-        twopt_params.minimum_groups = 3
         gdq, row_below_dq, row_above_dq, total_primary_crs = twopt.find_crs(
             data, gdq, readnoise_2d, twopt_params
         )
-- 
2.43.0


From 3826eb8116c2df301e17ea2b19b65f14faaf122f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:07 +0000
Subject: [PATCH 05/31] fix: sliced jump detection uses the group totals of the
 whole exposure

Each slice chose the detection method (or skipped detection) from its own
rows, so flags depended on the number of processes; when detection was
skipped, the count of cosmic rays was -99 times the number of slices.
---
 src/stcal/jump/jump.py                      | 12 +++++++++++-
 src/stcal/jump/twopoint_difference.py       |  5 ++++-
 src/stcal/jump/twopoint_difference_class.py |  3 +++
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/stcal/jump/jump.py b/src/stcal/jump/jump.py
index 148bd3b..c658e0f 100644
--- a/src/stcal/jump/jump.py
+++ b/src/stcal/jump/jump.py
@@ -149,6 +149,11 @@ def twopoint_diff_multi(twopt_params, data, gdq, readnoise_2d, n_slices):
     total_primary_crs : int
         total number of primary cosmic rays computed
     """
+    # The detection method depends on the usable groups of the whole exposure,
+    # not on those of each slice.
+    nints, ngroups = gdq.shape[:2]
+    twopt_params.ngroups_ans = twopt.groups_all_set_dnu(nints, ngroups, gdq, twopt_params)
+
     slices, yinc = slice_data(twopt_params, data, gdq, readnoise_2d, n_slices)
 
     log.info("Creating %d processes for jump detection ", n_slices)
@@ -206,7 +211,8 @@ def reassemble_sliced_data(real_result, gdq, yinc):
             gdq[:, :, k * yinc : (k + 1) * yinc, :] = resultslice[0]
         row_below_gdq[:, :, :] = resultslice[1]
         row_above_gdq[:, :, :] = resultslice[2]
-        total_primary_crs += resultslice[3]
+        if resultslice[3] >= 0:
+            total_primary_crs += resultslice[3]
         if k != 0:
             # For all but the first slice, flag any CR neighbors in the top
             # row of the previous slice and flag any neighbors in the
@@ -218,6 +224,10 @@ def reassemble_sliced_data(real_result, gdq, yinc):
         # save the neighbors to be flagged that will be in the next slice
         previous_row_above_gdq = row_above_gdq.copy()
 
+    # Jump detection was skipped for the exposure
+    if all(resultslice[3] < 0 for resultslice in real_result):
+        total_primary_crs = -99
+
     return gdq, total_primary_crs
 
 
diff --git a/src/stcal/jump/twopoint_difference.py b/src/stcal/jump/twopoint_difference.py
index 952cb41..e8e1c68 100644
--- a/src/stcal/jump/twopoint_difference.py
+++ b/src/stcal/jump/twopoint_difference.py
@@ -43,7 +43,10 @@ def find_crs(data, group_dq, read_noise, twopt_p):
     row_above_gdq = np.zeros((nints, ngroups, ncols), dtype=np.uint8)
     row_below_gdq = np.zeros((nints, ngroups, ncols), dtype=np.uint8)
 
-    ngroups_ans = groups_all_set_dnu(nints, ngroups, group_dq, twopt_p)
+    # When the data are a slice of an exposure, the totals are those of the exposure.
+    ngroups_ans = getattr(twopt_p, "ngroups_ans", None)
+    if ngroups_ans is None:
+        ngroups_ans = groups_all_set_dnu(nints, ngroups, group_dq, twopt_p)
     min_usable_groups = ngroups_ans[0]
     total_groups = ngroups_ans[1]
     min_usable_diffs = ngroups_ans[2]
diff --git a/src/stcal/jump/twopoint_difference_class.py b/src/stcal/jump/twopoint_difference_class.py
index 5994fda..9714315 100644
--- a/src/stcal/jump/twopoint_difference_class.py
+++ b/src/stcal/jump/twopoint_difference_class.py
@@ -10,6 +10,9 @@ class TwoPointParams:
         jump_data : JumpData
             Class containing parameters and methods to detect jumps.
         """
+        # The group totals of the exposure (see groups_all_set_dnu), if known
+        self.ngroups_ans = None
+
         if jump_data is not None:
             self.normal_rej_thresh = jump_data.rejection_thresh
 
-- 
2.43.0


From 71891de1a142e4f62b9b26411282c1bbafda7d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:30 +0000
Subject: [PATCH 06/31] fix: snowball flagging works for ramps of two groups

---
 src/stcal/jump/jump.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stcal/jump/jump.py b/src/stcal/jump/jump.py
index c658e0f..5d11b2a 100644
--- a/src/stcal/jump/jump.py
+++ b/src/stcal/jump/jump.py
@@ -357,8 +357,10 @@ def flag_large_events(gdq, jump_flag, sat_flag, jump_data):
                 next_sat = np.bitwise_and(next_gdq, sat_flag)
                 not_current_sat = np.logical_not(current_sat)
                 next_new_sat = next_sat * not_current_sat
+                next_sat_ellipses = find_ellipses(next_new_sat, sat_flag, jump_data.min_sat_area)
+            else:
+                next_sat_ellipses = []
 
-            next_sat_ellipses = find_ellipses(next_new_sat, sat_flag, jump_data.min_sat_area)
             sat_ellipses = find_ellipses(new_sat, sat_flag, jump_data.min_sat_area)
 
             # find the ellipse parameters for jump regions
-- 
2.43.0


From 038fb717eb212c9ca21c27e542ff862d73529c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:30 +0000
Subject: [PATCH 07/31] fix: extending saturated cores of snowballs keeps the
 other flags of the groups

---
 src/stcal/jump/jump.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stcal/jump/jump.py b/src/stcal/jump/jump.py
index 5d11b2a..0b048a9 100644
--- a/src/stcal/jump/jump.py
+++ b/src/stcal/jump/jump.py
@@ -458,7 +458,9 @@ def extend_saturation(cube, grp, sat_ellipses, jump_data, persist_jumps):
 
             is_sat = sat_ellipse == satcolor
             for i in range(grp, cube.shape[0]):
-                cube[i][iy1:iy2, ix1:ix2][is_sat] = jump_data.fl_sat
+                # Saturated groups carry no jump flag; their other flags are kept.
+                dq = cube[i][iy1:iy2, ix1:ix2]
+                dq[is_sat] = (dq[is_sat] & ~np.uint8(jump_data.fl_jump)) | jump_data.fl_sat
 
             ax1, ax2 = (ellipse[1][0], ellipse[1][1])
             indx, persist_ellipse = ellipse_subim(ceny, cenx, ax1, ax2, alpha, satcolor, (nrows, ncols))
-- 
2.43.0


From 076d34e6f8763c3a999d44976e83038939357e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:30 +0000
Subject: [PATCH 08/31] fix: shower detection ignores flagged groups whatever
 other flags they carry

---
 src/stcal/jump/jump.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/stcal/jump/jump.py b/src/stcal/jump/jump.py
index 0b048a9..f15fe99 100644
--- a/src/stcal/jump/jump.py
+++ b/src/stcal/jump/jump.py
@@ -1228,13 +1228,8 @@ def nan_invalid_data(data, gdq, jump_data):
     data : ndarray
         NaN'd cience data 4D float
     """
-    jump_dnu_flag = jump_data.fl_jump + jump_data.fl_dnu
-    sat_dnu_flag = jump_data.fl_sat + jump_data.fl_dnu
-    data[gdq == jump_dnu_flag] = np.nan
-    data[gdq == sat_dnu_flag] = np.nan
-    data[gdq == jump_data.fl_sat] = np.nan
-    data[gdq == jump_data.fl_jump] = np.nan
-    data[gdq == jump_data.fl_dnu] = np.nan
+    invalid_flags = jump_data.fl_jump | jump_data.fl_sat | jump_data.fl_dnu
+    data[np.bitwise_and(gdq, invalid_flags) != 0] = np.nan
 
     return data
 
-- 
2.43.0


From ca39c169e011059185ba23cce3dd6de765cf8153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:43 +0000
Subject: [PATCH 09/31] fix: distance of snowballs from the edge in images that
 are not square

---
 src/stcal/jump/jump.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/stcal/jump/jump.py b/src/stcal/jump/jump.py
index f15fe99..df3afb6 100644
--- a/src/stcal/jump/jump.py
+++ b/src/stcal/jump/jump.py
@@ -681,13 +681,14 @@ def make_snowballs(
     """
     nints, ngroups, nrows, ncols = gdq.shape
     low_threshold = jump_data.edge_size
-    high_threshold = max(0, nrows - jump_data.edge_size)
+    high_threshold = max(0, ncols - jump_data.edge_size)
+    high_threshold_row = max(0, nrows - jump_data.edge_size)
 
     # This routine will create a list of snowballs (ellipses) that have the
     # center of the saturation circle within the enclosing jump rectangle.
     snowballs = []
     for jump in jump_ellipses:
-        if near_edge(jump, low_threshold, high_threshold):
+        if near_edge(jump, low_threshold, high_threshold, high_threshold_row):
             # if the jump ellipse is near the edge, do not require saturation in the
             # center of the jump ellipse
             snowballs.append(jump)
@@ -755,7 +756,7 @@ def point_inside_ellipse(point, ellipse):
     return rad_cc <= 1
 
 
-def near_edge(jump, low_threshold, high_threshold):
+def near_edge(jump, low_threshold, high_threshold, high_threshold_row=None):
     """
     Test whether the center of a jump is close to the edge of the detector.
 
@@ -776,16 +777,21 @@ def near_edge(jump, low_threshold, high_threshold):
         High threshold distance from the edge of the detector where saturated cores are not
         required for snowball detection.
 
+    high_threshold_row : int, optional
+        High threshold for the row of the center, if it differs from that for the column.
+
     Returns
     -------
     bool
         True if ellipse is close to the detector's edge.
     """
+    if high_threshold_row is None:
+        high_threshold_row = high_threshold
     return (
         jump[0][0] < low_threshold
         or jump[0][1] < low_threshold
         or jump[0][0] > high_threshold
-        or jump[0][1] > high_threshold
+        or jump[0][1] > high_threshold_row
     )
 
 
-- 
2.43.0


From 89e933d0e31f41ef4f3cf07d8abd81316acaac67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:43 +0000
Subject: [PATCH 10/31] fix: saturated cores of elongated snowballs are looked
 for along the right axis

---
 src/stcal/jump/jump.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/stcal/jump/jump.py b/src/stcal/jump/jump.py
index df3afb6..1e300ce 100644
--- a/src/stcal/jump/jump.py
+++ b/src/stcal/jump/jump.py
@@ -693,13 +693,16 @@ def make_snowballs(
             # center of the jump ellipse
             snowballs.append(jump)
         else:
+            # The angle of an ellipse is that of its major axis from the rows' axis,
+            # so points are given as (row, column).
+            jump_yx = (jump[0][::-1], jump[1], jump[2])
             for sat in sat_ellipses:
-                if point_inside_ellipse(sat[0], jump) and jump not in snowballs:
+                if point_inside_ellipse(sat[0][::-1], jump_yx) and jump not in snowballs:
                     snowballs.append(jump)
             if group < ngroups - 1:
                 # Is there saturation inside the jump in the next group?
                 for next_sat in next_sat_ellipses:
-                    if (point_inside_ellipse(next_sat[0], jump)) and jump not in snowballs:
+                    if point_inside_ellipse(next_sat[0][::-1], jump_yx) and jump not in snowballs:
                         snowballs.append(jump)
 
     # extend the saturated ellipses that are larger than the min_sat_radius
-- 
2.43.0


From 8a902b640ea8fdeb5de84edbddccbf23935d5ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:19 +0000
Subject: [PATCH 11/31] fix: grow saturation in images smaller than the growth
 box

---
 src/stcal/saturation/saturation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/stcal/saturation/saturation.py b/src/stcal/saturation/saturation.py
index bf9512f..caa9264 100644
--- a/src/stcal/saturation/saturation.py
+++ b/src/stcal/saturation/saturation.py
@@ -298,6 +298,12 @@ def _adjacent_pixels(plane_gdq, saturated, n_pix_grow_sat=1, inplace=False):
     dilated = only_sat.copy()
     box_dim = (n_pix_grow_sat * 2) + 1
 
+    # The loops below need room for the whole box
+    if min(only_sat.shape) < box_dim:
+        struct = np.ones((box_dim, box_dim), dtype=bool)
+        cgdq[ndimage.binary_dilation(only_sat, structure=struct)] |= saturated
+        return None if inplace else cgdq
+
     # The for loops below are equivalent to
     #
     # struct = np.ones((box_dim, box_dim)).astype(bool)
-- 
2.43.0


From c195bfb6fe0f11da9e9a3b6dae9dd496ede7f866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:08 +0000
Subject: [PATCH 12/31] fix: segments of an exposure get the averaged dark of
 the last integration

---
 src/stcal/dark_current/dark_sub.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/stcal/dark_current/dark_sub.py b/src/stcal/dark_current/dark_sub.py
index d792ef0..d030ac1 100644
--- a/src/stcal/dark_current/dark_sub.py
+++ b/src/stcal/dark_current/dark_sub.py
@@ -281,20 +281,12 @@ def average_dark_frames_4d(dark_data, nints, ngroups, nframes, groupgap):
     # Do a direct copy of the 2-d DQ array into the new dark
     avg_dark.groupdq = dark_data.groupdq
 
-    # check if the number of integrations in dark reference file
-    # is less than science data.  If so then we only need to find the
-    # average for dint integrations, otherwise we find the average for
-    # nints.  (if science data only has 1 integration then there is no
-    # need to average the second integration of the dark refefence file)
-    num_ints = dint
-    if dint > nints:
-        num_ints = nints
-
-    # Loop over valid integrations in dark reference file
+    # Loop over all integrations in dark reference file (a segment of an
+    # exposure uses the last of them whatever its number of integrations)
     # Loop over the groups of the input science data, copying or
     # averaging the dark frames to match the group structure
 
-    for it in range(num_ints):
+    for it in range(dint):
         start = 0
         for group in range(ngroups):
             end = start + nframes
-- 
2.43.0


From 0623b8cd31cce7cd592e2eb9e1c9ba44e1b03e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:02 +0000
Subject: [PATCH 13/31] fix: a request for zero cores means one process

---
 src/stcal/multiprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stcal/multiprocessing.py b/src/stcal/multiprocessing.py
index fc3b490..3693f9a 100644
--- a/src/stcal/multiprocessing.py
+++ b/src/stcal/multiprocessing.py
@@ -27,7 +27,7 @@ def compute_num_cores(max_cores, nchunks, max_available):
     """
     number_slices = 1
     if max_cores.isnumeric():
-        number_slices = int(max_cores)
+        number_slices = int(max_cores) or 1
     elif max_cores.lower() == "none" or max_cores.lower() == "one":
         number_slices = 1
     elif max_cores == "quarter":
-- 
2.43.0


From 560d7402f4a466e1f2523865d62794e0a6bc920c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:30 +0000
Subject: [PATCH 14/31] fix: jump detection skips exposures of a single group
 instead of failing

---
 src/stcal/jump/twopoint_difference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stcal/jump/twopoint_difference.py b/src/stcal/jump/twopoint_difference.py
index e8e1c68..1b200d1 100644
--- a/src/stcal/jump/twopoint_difference.py
+++ b/src/stcal/jump/twopoint_difference.py
@@ -61,7 +61,7 @@ def find_crs(data, group_dq, read_noise, twopt_p):
     if min_usable_groups < twopt_p.minimum_groups:
         total_noise_min_grps_fails = True
 
-    if total_noise_min_grps_fails and sig_clip_grps_fails:
+    if ngroups < 2 or (total_noise_min_grps_fails and sig_clip_grps_fails):
         log.info("Jump Step was skipped because exposure has less than the minimum number of usable groups")
         return group_dq, row_below_gdq, row_above_gdq, -99
 
-- 
2.43.0


From 57b2167dfa811f26421850c0188face7854002a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:27 +0000
Subject: [PATCH 15/31] fix: an image without valid sky does not fail global
 sky matching

---
 src/stcal/skymatch/skymatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stcal/skymatch/skymatch.py b/src/stcal/skymatch/skymatch.py
index 12881d9..fbe1441 100644
--- a/src/stcal/skymatch/skymatch.py
+++ b/src/stcal/skymatch/skymatch.py
@@ -305,7 +305,7 @@ drizzlepac/astrodrizzle.html>`_.
         for img in images:
             sky = img.calc_sky(delta=not subtract)[0]
             sky_deltas.append(sky)
-            if do_global and (minsky is None or sky < minsky):
+            if do_global and sky is not None and (minsky is None or sky < minsky):
                 minsky = sky
 
         if do_global:
-- 
2.43.0


From a8086f6415b789ebf33923b9b10f960d98cbf53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:27 +0000
Subject: [PATCH 16/31] fix: resetting a resampling leaves nothing of models
 added before

---
 src/stcal/resample/resample.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/stcal/resample/resample.py b/src/stcal/resample/resample.py
index 4315f6f..ab327b4 100644
--- a/src/stcal/resample/resample.py
+++ b/src/stcal/resample/resample.py
@@ -644,9 +644,13 @@ class Resample:
 
         """
         # set up an empty output model (don't allocate arrays at this time):
-        if not hasattr(self, "_output_model") or self.is_finalized():
+        if not hasattr(self, "_output_model") or self.is_finalized() or self._n_res_models:
             self._output_model = self.create_output_model()
 
+        # models added before the reset are not part of the new output model:
+        self._group_ids = []
+        self._n_res_models = 0
+
         if n_input_models is None:
             max_ctx_id = None
         else:
-- 
2.43.0


From 47b4d40d24571d30db10aa9b23f36c4763610037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:27 +0000
Subject: [PATCH 17/31] fix: resampled variances do not reuse the variance of
 an earlier model

---
 src/stcal/resample/resample.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/stcal/resample/resample.py b/src/stcal/resample/resample.py
index ab327b4..61a7a67 100644
--- a/src/stcal/resample/resample.py
+++ b/src/stcal/resample/resample.py
@@ -1144,7 +1144,10 @@ class Resample:
                     model=model,
                     **pars,
                 )
-                self._variance_info[varname]["var"] = var
+            else:
+                # do not keep the variance of a previous model
+                var = None
+            self._variance_info[varname]["var"] = var
 
         # Set the weight for the image from the weight type
         if self.weight_type.startswith("ivm"):
@@ -1154,6 +1157,9 @@ class Resample:
                 mask = (rn_var > 0) & np.isfinite(rn_var)
                 weight = np.zeros(self.output_array_shape)
                 weight[mask] = np.reciprocal(rn_var[mask])
+            else:
+                # equal weighting, as for the data
+                weight = np.ones(self.output_array_shape)
 
         elif self.weight_type == "exptime":
             t, _ = get_tmeasure(model)
-- 
2.43.0


From 8c248edb7c385109f1ae1db22f9175f9afff5b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:27 +0000
Subject: [PATCH 18/31] fix: errors from variances resample the variances they
 need

---
 src/stcal/resample/resample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stcal/resample/resample.py b/src/stcal/resample/resample.py
index 61a7a67..c1c762c 100644
--- a/src/stcal/resample/resample.py
+++ b/src/stcal/resample/resample.py
@@ -268,7 +268,7 @@ class Resample:
         self._n_res_models = 0
 
         self._enable_ctx = enable_ctx
-        self._enable_var = enable_var
+        self._enable_var = enable_var or compute_err == "from_var"
         self._compute_err = compute_err
         self._propagate_dq = propagate_dq
 
-- 
2.43.0


From 415b7879296428bd6e647f5276cd1f8445abad2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:27 +0000
Subject: [PATCH 19/31] fix: a single ramp gets parameters and variances of the
 documented shape

---
 src/stcal/ramp_fitting/ols_cas22_fit.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/stcal/ramp_fitting/ols_cas22_fit.py b/src/stcal/ramp_fitting/ols_cas22_fit.py
index 533cebd..45b8ba9 100644
--- a/src/stcal/ramp_fitting/ols_cas22_fit.py
+++ b/src/stcal/ramp_fitting/ols_cas22_fit.py
@@ -133,10 +133,6 @@ def fit_ramps_casertano(
     variances = output.variances.reshape(orig_shape[1:] + (3,))
     dq = output.dq.reshape(orig_shape)
 
-    if resultants.shape != orig_shape:
-        parameters = parameters[0]
-        variances = variances[0]
-
     if resultants_unit is not None:
         parameters = parameters * resultants_unit
 
-- 
2.43.0


From df540c1a7b311732ac27ad848cab39f9e9b9d880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:34 +0000
Subject: [PATCH 20/31] fix: likelihood fits do not use the values of flagged
 groups

---
 src/stcal/ramp_fitting/likely_fit.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/stcal/ramp_fitting/likely_fit.py b/src/stcal/ramp_fitting/likely_fit.py
index 978f1dc..69f1461 100644
--- a/src/stcal/ramp_fitting/likely_fit.py
+++ b/src/stcal/ramp_fitting/likely_fit.py
@@ -246,9 +246,12 @@ def mask_jumps(
     # jumps (which is what we are looking for) since we'll be using
     # likelihoods and chi squared; getting the covariance matrix
     # reasonably close to correct is important.
-    count_rate_guess = np.median(loc_diff, axis=0)[np.newaxis, :]
+    # Differences that are not used say nothing about the count rate.
+    with warnings.catch_warnings():
+        warnings.simplefilter("ignore")
+        count_rate_guess = np.nanmedian(np.where(diffs2use > 0, loc_diff, np.nan), axis=0)[np.newaxis, :]
 
-    count_rate_guess *= count_rate_guess > 0
+    count_rate_guess = np.where(count_rate_guess > 0, count_rate_guess, 0)
 
     # boolean arrays to be used later
     recheck = np.ones(loc_diff.shape[1]) == 1
@@ -584,7 +587,8 @@ def fit_ramps(
     # Mask group differences that should be ignored.  This is half
     # of what we need to do to mask these group differences; the
     # rest comes later.
-    diff_mask = diffs * diffs2use
+    # Not a product: a difference that is not used need not be finite.
+    diff_mask = np.where(diffs2use > 0, diffs, 0)
     beta = beta * diffs2use[1:] * diffs2use[:-1]
 
     # All definitions and formulas here are in the paper.
-- 
2.43.0


From 6dd53530e4e6bc37161afc82a027c539324dba06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:34 +0000
Subject: [PATCH 21/31] fix: likelihood fits find jumps in evenly sampled faint
 ramps

---
 src/stcal/ramp_fitting/likely_fit.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/stcal/ramp_fitting/likely_fit.py b/src/stcal/ramp_fitting/likely_fit.py
index 69f1461..fc3f1db 100644
--- a/src/stcal/ramp_fitting/likely_fit.py
+++ b/src/stcal/ramp_fitting/likely_fit.py
@@ -750,8 +750,10 @@ def compute_jump_detects(result, ndiffs, diffs2use, dC, dB, A, B, C, scale, beta
     with warnings.catch_warnings():
         warnings.simplefilter("ignore")
         # best-fit a, b, c
-        c = bcpj_fac / cpj_fac - (B * dC[1:] - dB[1:] * C) / cjck_fac
-        c /= cjck_fac / cpj_fac - (dC[1:] ** 2 - C * Cinv_diag[1:]) / cjck_fac
+        # (cjck_fac is zero for some evenly sampled ramps without photon noise:
+        # do not divide by it)
+        c = bcpj_fac * cjck_fac - (B * dC[1:] - dB[1:] * C) * cpj_fac
+        c /= cjck_fac**2 - (dC[1:] ** 2 - C * Cinv_diag[1:]) * cpj_fac
         b = (bcpj_fac - c * cjck_fac) / cpj_fac
         a = (B - b * dC[:-1] - c * dC[1:]) / C
         result.countrate_two_omit = a
-- 
2.43.0


From 7a83034deaa94b15a196170fb72425d3547c43d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:34 +0000
Subject: [PATCH 22/31] fix: likelihood fits reject one candidate at a time

---
 src/stcal/ramp_fitting/likely_fit.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/stcal/ramp_fitting/likely_fit.py b/src/stcal/ramp_fitting/likely_fit.py
index fc3f1db..89c3818 100644
--- a/src/stcal/ramp_fitting/likely_fit.py
+++ b/src/stcal/ramp_fitting/likely_fit.py
@@ -310,7 +310,12 @@ def mask_jumps(
         # drop, count the number of ramps affected, and drop them.
         # If no ramps were affected break the loop.
         dropone = (dchisq_one == best_dchisq) & (onedropbetter)
-        droptwo = (dchisq_two == best_dchisq) & (~onedropbetter)
+        droptwo = (dchisq_two == best_dchisq) & (~onedropbetter) & two_omit_ok[:, np.newaxis]
+
+        # Where several are equally good, drop the first of them only: the
+        # others are tried again in the next round.
+        dropone &= np.cumsum(dropone, axis=0) == 1
+        droptwo &= np.cumsum(droptwo, axis=0) == 1
 
         drop = np.any([np.sum(dropone, axis=0), np.sum(droptwo, axis=0)], axis=0)
 
-- 
2.43.0


From 3ef53d75d166ec1477edbe8866871c17455f8acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:34 +0000
Subject: [PATCH 23/31] fix: corners of combined footprints survive points
 close to them

---
 src/stcal/alignment/resample_utils.py | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/stcal/alignment/resample_utils.py b/src/stcal/alignment/resample_utils.py
index 93c7a5e..471593e 100644
--- a/src/stcal/alignment/resample_utils.py
+++ b/src/stcal/alignment/resample_utils.py
@@ -194,31 +194,24 @@ def _simplify_by_angle(coords, point_thresh=5e-2, angle_thresh=1e-6):
     np.ndarray
         2D array of shape (M, 2) representing the simplified polygon vertices.
     """
-    # Indices for previous, current, next points (wrap around)
-    n = len(coords)
-    idx_prev = np.arange(-1, n - 1)
-    idx_curr = np.arange(n)
-    idx_next = np.arange(1, n + 1) % n
-
-    p0 = coords[idx_prev]
-    p1 = coords[idx_curr]
-    p2 = coords[idx_next]
-
-    # Vectors
-    v1 = p1 - p0
-    v2 = p2 - p1
-
     # Check closeness
     # We only need to check closeness in one direction, to avoid removing both points
     # if there's a duplicated pair. Wrapped indices ensure no bugs with first/last points.
-    close = (np.abs(v1[:, 0]) < point_thresh) & (np.abs(v1[:, 1]) < point_thresh)
+    # Points that are too close go first, so that they do not count as the neighbors
+    # of the corners that are left.
+    step = np.abs(coords - np.roll(coords, 1, axis=0))
+    coords = coords[(step >= point_thresh).any(axis=1)]
+
+    # Vectors from the previous and to the next points (wrap around)
+    v1 = coords - np.roll(coords, 1, axis=0)
+    v2 = np.roll(coords, -1, axis=0) - coords
 
     # Slopes
     m1 = v1[:, 1] / (v1[:, 0] + 1e-12)
     m2 = v2[:, 1] / (v2[:, 0] + 1e-12)
     delta_theta = np.arctan((m2 - m1) / (1 + m1 * m2))
 
-    collinear = close | (np.abs(delta_theta) < angle_thresh)
+    collinear = np.abs(delta_theta) < angle_thresh
 
     # Keep only non-collinear points
     return coords[~collinear]
-- 
2.43.0


From 6d05c73aeda9e1d26c5bd621594a16a55c09ad9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:34 +0000
Subject: [PATCH 24/31] fix: combined footprints may be cut into parts or only
 touched by the window

---
 src/stcal/alignment/resample_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/stcal/alignment/resample_utils.py b/src/stcal/alignment/resample_utils.py
index 471593e..6d7faca 100644
--- a/src/stcal/alignment/resample_utils.py
+++ b/src/stcal/alignment/resample_utils.py
@@ -165,8 +165,10 @@ def _intersect_with_bbox(polygons, bbox):
     for polygon in polygons:
         polygon = shapely.geometry.Polygon(polygon)
         intersection = shapely.intersection(polygon, intersect_polygon)
-        if not intersection.is_empty:
-            final_polygons.append(_convert_to_array(intersection))
+        # It may come in several parts; where the two only touch it is a line or a point.
+        for part in shapely.get_parts(intersection):
+            if isinstance(part, shapely.geometry.Polygon) and not part.is_empty:
+                final_polygons.append(_convert_to_array(part))
     return final_polygons
 
 
-- 
2.43.0


From d1f5f65d2beb0fc8055b08d4d27e4b1893296d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:34 +0000
Subject: [PATCH 25/31] fix: combined footprints may have different numbers of
 vertices

---
 src/stcal/alignment/resample_utils.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/stcal/alignment/resample_utils.py b/src/stcal/alignment/resample_utils.py
index 6d7faca..98a594b 100644
--- a/src/stcal/alignment/resample_utils.py
+++ b/src/stcal/alignment/resample_utils.py
@@ -38,18 +38,17 @@ def combine_sregions(sregion_list, det2world, intersect_footprint=None):
     ValueError
         If there is no overlap between the input s_regions and the intersection footprint.
     """
-    footprints = np.array(
-        [
-            util.sregion_to_footprint(sregion) if isinstance(sregion, str) else sregion
-            for sregion in sregion_list
-        ]
-    )
+    footprints = [
+        util.sregion_to_footprint(sregion) if isinstance(sregion, str) else sregion
+        for sregion in sregion_list
+    ]
 
     # convert from world to pixel coordinates
-    footprints_flat = footprints.reshape(-1, 2)
     world2det = det2world.inverse
-    x, y = world2det(footprints_flat[:, 0], footprints_flat[:, 1])
-    footprints_pixels = np.vstack([x, y]).T.reshape(footprints.shape)
+    footprints_pixels = []
+    for footprint in footprints:
+        x, y = world2det(footprint[:, 0], footprint[:, 1])
+        footprints_pixels.append(np.vstack([x, y]).T)
 
     # combine footprints with Shapely
     combined_polygons = combine_footprints(footprints_pixels)
-- 
2.43.0


From fceceb35257e2d621141ff7d8d42eaf665e2f1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:08 +0000
Subject: [PATCH 26/31] fix: slivers of combined footprints do not become empty
 outlines

---
 src/stcal/alignment/resample_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/stcal/alignment/resample_utils.py b/src/stcal/alignment/resample_utils.py
index 98a594b..2d9dcae 100644
--- a/src/stcal/alignment/resample_utils.py
+++ b/src/stcal/alignment/resample_utils.py
@@ -167,7 +167,10 @@ def _intersect_with_bbox(polygons, bbox):
         # It may come in several parts; where the two only touch it is a line or a point.
         for part in shapely.get_parts(intersection):
             if isinstance(part, shapely.geometry.Polygon) and not part.is_empty:
-                final_polygons.append(_convert_to_array(part))
+                vertices = _convert_to_array(part)
+                # of a sliver there is nothing left to outline
+                if len(vertices) > 2:
+                    final_polygons.append(vertices)
     return final_polygons
 
 
-- 
2.43.0


From 058c1c630c6104605c6854605cbac616313dce91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:57 +0000
Subject: [PATCH 27/31] fix: a reference catalog of no sources is empty rather
 than complete

---
 src/stcal/tweakreg/astrometric_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stcal/tweakreg/astrometric_utils.py b/src/stcal/tweakreg/astrometric_utils.py
index 7b084d7..afaacd7 100644
--- a/src/stcal/tweakreg/astrometric_utils.py
+++ b/src/stcal/tweakreg/astrometric_utils.py
@@ -106,7 +106,7 @@ def create_astrometric_catalog(
     # 'num_sources' sources.
     if num_sources is not None:
         indx = -1 * num_sources
-        ref_table = ref_table[:indx] if num_sources < 0 else ref_table[indx:]
+        ref_table = ref_table[:indx] if num_sources < 0 else ref_table[max(len(ref_table) + indx, 0) :]
 
     # Write out table to a file, if specified
     if output is not None:
-- 
2.43.0


From 3200f17dd8ff2222b0e5c9b1f4eefb7808ac2cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:57 +0000
Subject: [PATCH 28/31] fix: searching outside of what the tiled catalog covers
 finds nothing rather than fails

---
 src/stcal/tweakreg/_s3_catalog.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stcal/tweakreg/_s3_catalog.py b/src/stcal/tweakreg/_s3_catalog.py
index d8539a3..2edacc3 100644
--- a/src/stcal/tweakreg/_s3_catalog.py
+++ b/src/stcal/tweakreg/_s3_catalog.py
@@ -128,6 +128,9 @@ def _depth_29_ranges_to_filters(dr):
 
 
 def _read_table(paths, fs, filters, columns):
+    if not paths:
+        # no part of the catalog lies in the search area
+        return Table(names=columns, masked=True)
     ds = pq.ParquetDataset(paths, filesystem=fs, filters=filters).read(columns=columns)
     table = Table({name: ds[name].to_numpy() for name in ds.column_names}, masked=True)
     # mask na values
-- 
2.43.0


From c03c9b9f1a79a5ce10ac4e30486b2105c8c32faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:57 +0000
Subject: [PATCH 29/31] fix: cone searches of the tiled catalog no longer miss
 sources in pixels they barely touch

---
 src/stcal/tweakreg/_s3_catalog.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/stcal/tweakreg/_s3_catalog.py b/src/stcal/tweakreg/_s3_catalog.py
index 2edacc3..286876f 100644
--- a/src/stcal/tweakreg/_s3_catalog.py
+++ b/src/stcal/tweakreg/_s3_catalog.py
@@ -79,8 +79,14 @@ def _get_partition_info(uri):
 
 
 def _cone_search(ra, dec, search_radius, depth):
-    hp = HEALPix(nside=2**depth, order="nested")
-    return hp.cone_search_lonlat(ra * u.deg, dec * u.deg, search_radius * u.deg)
+    # cone_search_lonlat may miss pixels the cone covers only in part: search
+    # smaller pixels, in a cone larger by the largest distance from the center
+    # of one to its corners, for the pixels that contain them
+    fine_depth = min(depth + 2, 29)
+    hp = HEALPix(nside=2**fine_depth, order="nested")
+    radius = min(search_radius * u.deg + 1.1 * hp.pixel_resolution, 180 * u.deg)
+    pixels = hp.cone_search_lonlat(ra * u.deg, dec * u.deg, radius)
+    return np.unique(pixels >> (2 * (fine_depth - depth)))
 
 
 def _generate_depth_29_ranges(pixels, depth):
-- 
2.43.0


From bc6c764e32561bbe668173f5cc06645afd4206b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:45 +0000
Subject: [PATCH 30/31] fix: calc_pixmap fails on images narrower than the
 interpolation order needs

With stepsize > 1 the interpolating spline needs more than 'order' points
along each axis. Images (or bounding boxes) only a few pixels wide, or
bounding boxes beyond the image, made it raise. Use the full calculation
for them.
---
 src/stcal/resample/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stcal/resample/utils.py b/src/stcal/resample/utils.py
index d729335..eb1fe6a 100644
--- a/src/stcal/resample/utils.py
+++ b/src/stcal/resample/utils.py
@@ -154,7 +154,8 @@ def calc_pixmap(wcs_from, wcs_to, shape=None, disable_bbox="to", stepsize=1, ord
     eff_height = ymax - ymin + 1
 
     try:
-        if stepsize == 1 or max(eff_width, eff_height) <= 10:
+        # the interpolating spline needs more than "order" points along each axis
+        if stepsize == 1 or max(eff_width, eff_height) <= 10 or min(eff_width, eff_height) <= order:
             y, x = np.indices(shape, dtype=np.float64)
             x, y = wcs_to.world_to_pixel_values(*wcs_from.pixel_to_world_values(x, y))
         else:
-- 
2.43.0


From ad48a4bbb1a520df5ce8a7f20e1de7698cc23921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:01 +0000
Subject: [PATCH 31/31] fix: in-memory medians refuse images of the wrong shape
 instead of repeating them

---
 src/stcal/outlier_detection/median.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stcal/outlier_detection/median.py b/src/stcal/outlier_detection/median.py
index e3b13ea..36dafa1 100644
--- a/src/stcal/outlier_detection/median.py
+++ b/src/stcal/outlier_detection/median.py
@@ -115,6 +115,9 @@ class MedianComputer:
             if idx is None:
                 msg = "Index must be provided when using in-memory median"
                 raise ValueError(msg)
+            if np.shape(data) != tuple(self.full_shape[1:]):
+                msg = f"Data shape {np.shape(data)} does not match expected shape {tuple(self.full_shape[1:])}."
+                raise ValueError(msg)
             # populate pre-allocated memory with the drizzled data
             self._median_computer[idx] = data
         else:
-- 
2.43.0

