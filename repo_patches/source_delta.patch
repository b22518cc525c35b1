From 0cb8d7da5a8863f4adba90de6b3cdbffa8e51ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:59 +0000
Subject: [PATCH 01/23] fix: roi.bar ignored the supplied pixel values for
 vertical bars

---
 skbeam/core/roi.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/skbeam/core/roi.py b/skbeam/core/roi.py
index c09be46..7a259bf 100644
--- a/skbeam/core/roi.py
+++ b/skbeam/core/roi.py
@@ -607,9 +607,10 @@ def bar(edges, shape, horizontal=True, values=None):
             "r=0 outward"
         )
     if values is None:
-        values = np.repeat(range(shape[0]), shape[1])
-    if not horizontal:
-        values = np.tile(range(shape[1]), shape[0])
+        if horizontal:
+            values = np.repeat(range(shape[0]), shape[1])
+        else:
+            values = np.tile(range(shape[1]), shape[0])
 
     return _make_roi(values, edges, shape)
 
-- 
2.43.0


From f685d243ddd0d8cdc33791ad152fc8fd772d3a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:41 +0000
Subject: [PATCH 02/23] fix: roi.rectangles labelled pixels for a rectangle
 lying wholly before the image origin

---
 skbeam/core/roi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/roi.py b/skbeam/core/roi.py
index 7a259bf..987ea9a 100644
--- a/skbeam/core/roi.py
+++ b/skbeam/core/roi.py
@@ -81,8 +81,8 @@ def rectangles(coords, shape):
     labels_grid = np.zeros(shape, dtype=np.int64)
 
     for i, (col_coor, row_coor, col_val, row_val) in enumerate(coords):
-        left, right = np.max([col_coor, 0]), np.min([col_coor + col_val, shape[0]])
-        top, bottom = np.max([row_coor, 0]), np.min([row_coor + row_val, shape[1]])
+        left, right = np.max([col_coor, 0]), np.max([np.min([col_coor + col_val, shape[0]]), 0])
+        top, bottom = np.max([row_coor, 0]), np.max([np.min([row_coor + row_val, shape[1]]), 0])
 
         slc1 = slice(left, right)
         slc2 = slice(top, bottom)
-- 
2.43.0


From 74857032a497643a67942eb919c7253fcbb92e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:41 +0000
Subject: [PATCH 03/23] fix: roi.ring_edges rejected a spacing list one shorter
 than the width list

---
 skbeam/core/roi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/roi.py b/skbeam/core/roi.py
index 987ea9a..17c28eb 100644
--- a/skbeam/core/roi.py
+++ b/skbeam/core/roi.py
@@ -185,7 +185,7 @@ def ring_edges(inner_radius, width, spacing=0, num_rings=None):
     width_is_list = isinstance(width, collections.abc.Iterable)
     spacing_is_list = isinstance(spacing, collections.abc.Iterable)
     if width_is_list and spacing_is_list:
-        if len(width) != len(spacing) - 1:
+        if len(spacing) != len(width) - 1:
             raise ValueError("List of spacings must be one less than list " "of widths.")
     if num_rings is None:
         try:
-- 
2.43.0


From 8f1fc42e86d934f6b756d9b58f08a17cce375abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:54 +0000
Subject: [PATCH 04/23] fix: roi.segmented_rings gave pixels outside the
 angular segments the label of a neighbouring ring

---
 skbeam/core/roi.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/roi.py b/skbeam/core/roi.py
index 17c28eb..a3fa83a 100644
--- a/skbeam/core/roi.py
+++ b/skbeam/core/roi.py
@@ -280,6 +280,10 @@ def segmented_rings(edges, segments, center, shape, offset_angle=0):
         segments = np.linspace(0, 2 * np.pi, num=1 + segments, endpoint=True)
         segments += offset_angle
 
+    # the angles wrap around at the first segment edge
+    agrid[agrid < segments[0]] += 2 * np.pi
+    agrid[agrid >= segments[0] + 2 * np.pi] -= 2 * np.pi
+
     # the indices of the bins(angles) to which each value in input
     #  array(angle_grid) belongs.
     ind_grid = (np.digitize(np.ravel(agrid), segments, right=False)).reshape(shape)
@@ -290,8 +294,9 @@ def segmented_rings(edges, segments, center, shape, offset_angle=0):
 
     # assign indices value according to angles then rings
     len_segments = len(segments)
+    in_segment = (ind_grid > 0) & (ind_grid < len_segments)
     for i in range(len(edges) // 2):
-        indices = (edges[2 * i] <= rgrid) & (rgrid < edges[2 * i + 1])
+        indices = (edges[2 * i] <= rgrid) & (rgrid < edges[2 * i + 1]) & in_segment
         # Combine "segment #" and "ring #" to get unique label for each.
         label_array[indices] = ind_grid[indices] + (len_segments - 1) * i
 
-- 
2.43.0


From 6884191b492af84c68e6ee181e4a3562042f191d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:54 +0000
Subject: [PATCH 05/23] fix: roi.mean_intensity raised for label arrays without
 background pixels

---
 skbeam/core/roi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skbeam/core/roi.py b/skbeam/core/roi.py
index a3fa83a..44565cc 100644
--- a/skbeam/core/roi.py
+++ b/skbeam/core/roi.py
@@ -401,7 +401,8 @@ def mean_intensity(images, labeled_array, index=None):
     # handle various input for `index`
     if index is None:
         index = list(np.unique(labeled_array))
-        index.remove(0)
+        if 0 in index:
+            index.remove(0)
     try:
         len(index)
     except TypeError:
-- 
2.43.0


From 866c60bdadb48f38fba63692ec7ac33f7c48dbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:47 +0000
Subject: [PATCH 06/23] fix: utils.bin_grid default bins ended before the
 largest radius

---
 skbeam/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index d7a6821..748bd73 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -1244,7 +1244,7 @@ def bin_grid(image, r_array, pixel_sizes, statistic="mean", mask=None, bins=None
         mask = np.ones(image.shape, dtype=int).astype(bool)
     if bins is None:
         res = np.hypot(*pixel_sizes)
-        bins = np.arange(np.min(r_array) - res * 0.5, np.max(r_array) + res * 0.5, res)
+        bins = np.arange(np.min(r_array) - res * 0.5, np.max(r_array) + res, res)
 
     int_stat, bin_edge, bin_num = sts.binned_statistic(r_array[mask], image[mask], statistic=statistic, bins=bins)
 
-- 
2.43.0


From a56db62e11869a21dbc3f54c2e69f37e683a5af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:55 +0000
Subject: [PATCH 07/23] fix: mask.margin with edge size 0 masked the whole
 image

---
 skbeam/core/mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/mask.py b/skbeam/core/mask.py
index 4298d02..9b78439 100644
--- a/skbeam/core/mask.py
+++ b/skbeam/core/mask.py
@@ -130,7 +130,7 @@ def margin(img_shape, edge_size):
         The mask array, bad pixels are 0
     """
     mask = np.ones(img_shape, dtype=bool)
-    mask[edge_size:-edge_size, edge_size:-edge_size] = 0.0
+    mask[edge_size : img_shape[0] - edge_size, edge_size : img_shape[1] - edge_size] = 0.0
     return ~mask
 
 
-- 
2.43.0


From f413b9542ee9f25821a6c99fde57a39832e1bc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:55 +0000
Subject: [PATCH 08/23] fix: mask.binned_outlier assigned pixels on a bin edge
 to the wrong bin

---
 skbeam/core/mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/mask.py b/skbeam/core/mask.py
index 9b78439..8d66446 100644
--- a/skbeam/core/mask.py
+++ b/skbeam/core/mask.py
@@ -170,7 +170,7 @@ def binned_outlier(img, r, alpha, bins, mask=None):
     msk_img = img[working_mask]
     msk_r = r[working_mask]
 
-    int_r = np.digitize(r, bins[:-1], True) - 1
+    int_r = np.digitize(r, bins[:-1]) - 1
     # integration
     mean = sts.binned_statistic(msk_r, msk_img, bins=bins, statistic="mean")[0]
     std = sts.binned_statistic(msk_r, msk_img, bins=bins, statistic=np.std)[0]
-- 
2.43.0


From 59b9fc9500d247c3408381121703241c5bbe3c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:55 +0000
Subject: [PATCH 09/23] fix: spectroscopy.find_largest_peak did not clip its
 window at the first sample

---
 skbeam/core/spectroscopy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/spectroscopy.py b/skbeam/core/spectroscopy.py
index 485ffec..99c7bc8 100644
--- a/skbeam/core/spectroscopy.py
+++ b/skbeam/core/spectroscopy.py
@@ -131,7 +131,7 @@ def find_largest_peak(x, y, window=None):
     # get the bin with the largest number of counts
     j = np.argmax(y)
     if window is not None:
-        roi = slice(np.max(j - window, 0), j + window + 1)
+        roi = slice(max(j - window, 0), j + window + 1)
     else:
         roi = slice(0, -1)
 
-- 
2.43.0


From 4645519d8d9303287bc912df60a82ac24d2e9d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:55 +0000
Subject: [PATCH 10/23] fix: spectroscopy.integrate_ROI_spectrum used right bin
 edges as bin centers

---
 skbeam/core/spectroscopy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/spectroscopy.py b/skbeam/core/spectroscopy.py
index 99c7bc8..1103d8c 100644
--- a/skbeam/core/spectroscopy.py
+++ b/skbeam/core/spectroscopy.py
@@ -178,7 +178,7 @@ def integrate_ROI_spectrum(bin_edges, counts, x_min, x_max):
 
     """
     bin_edges = np.asarray(bin_edges)
-    return integrate_ROI(bin_edges[:-1] + np.diff(bin_edges), counts, x_min, x_max)
+    return integrate_ROI(bin_edges[:-1] + np.diff(bin_edges) / 2, counts, x_min, x_max)
 
 
 def _formatter_array_regions(x, centers, window=1, tab_count=0):
-- 
2.43.0


From f738999ba4b4347ba995eb530c8d566bb8fc49ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:55 +0000
Subject: [PATCH 11/23] fix: image.construct_circ_avg_image ignored its left
 and right fill values

---
 skbeam/core/image.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/image.py b/skbeam/core/image.py
index cc8e8bf..3f14c44 100644
--- a/skbeam/core/image.py
+++ b/skbeam/core/image.py
@@ -101,7 +101,7 @@ def _corr_ax1(input_image):
     return np.histogram(est_by_row, bins=np.arange(0, dim + 1))
 
 
-def construct_circ_avg_image(radii, intensities, dims=None, center=None, pixel_size=(1, 1), left=0, right=0):
+def construct_circ_avg_image(radii, intensities, dims=None, center=None, pixel_size=(1, 1), left=None, right=0):
     """
     Constructs a 2D image from circular averaged data
     where radii are given in units of pixels.
@@ -169,7 +169,7 @@ def construct_circ_avg_image(radii, intensities, dims=None, center=None, pixel_s
         center = (dims[0] - 1) / 2.0, (dims[1] - 1) / 2.0
 
     radial_val = utils.radial_grid(center, dims, pixel_size)
-    CIMG = np.interp(radial_val, radii, intensities, right=0)
+    CIMG = np.interp(radial_val, radii, intensities, left=left, right=right)
 
     return CIMG
 
-- 
2.43.0


From 1d35d14a5ffdd77cfcf69de5dbce6a85da8264db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:55 +0000
Subject: [PATCH 12/23] fix: image.construct_rphi_avg_image modified the
 caller's angles and image

---
 skbeam/core/image.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/image.py b/skbeam/core/image.py
index 3f14c44..fc5f2fe 100644
--- a/skbeam/core/image.py
+++ b/skbeam/core/image.py
@@ -233,7 +233,7 @@ def construct_rphi_avg_image(radii, angles, image, mask=None, center=None, shape
                 )
             else:
                 raise ValueError("Mask not right dimensions." "Expected 2 got {}".format(mask.ndim))
-        image[np.where(mask == 0)] = np.nan
+        image = np.where(mask == 0, np.nan, image)
     if shape is None:
         if center is not None:
             raise ValueError(
@@ -254,7 +254,7 @@ def construct_rphi_avg_image(radii, angles, image, mask=None, center=None, shape
 
     # 1.a : subtract minimum
     anglemin = angles[0]
-    angles -= anglemin
+    angles = angles - anglemin
     # 1.b : modulo 2*pi
     angles = angles % (2 * np.pi)
     # 1.c : find any extra cross-overs and ignore them
-- 
2.43.0


From b1581486c75dc232609ea04fad1d9e36ad48da35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:19 +0000
Subject: [PATCH 13/23] fix: cdi.generate_box_support wrapped around for a
 radius larger than half the image

---
 skbeam/core/cdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/cdi.py b/skbeam/core/cdi.py
index 17ebdee..5a40b0e 100644
--- a/skbeam/core/cdi.py
+++ b/skbeam/core/cdi.py
@@ -201,7 +201,7 @@ def generate_box_support(sup_radius, shape_v):
     sup : array
         support with a box area
     """
-    slc_list = [slice(s // 2 - sup_radius, s // 2 + sup_radius) for s in shape_v]
+    slc_list = [slice(max(s // 2 - sup_radius, 0), s // 2 + sup_radius) for s in shape_v]
     sup = np.zeros(shape_v)
     sup[tuple(slc_list)] = 1
     return sup
-- 
2.43.0


From 7420c9cc73f03487a1f3da2a73e5b51457858d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:19 +0000
Subject: [PATCH 14/23] fix: cdi.cdi_recon called its callback on every
 iteration or never instead of every cb_step iterations

---
 skbeam/core/cdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skbeam/core/cdi.py b/skbeam/core/cdi.py
index 5a40b0e..a439e5d 100644
--- a/skbeam/core/cdi.py
+++ b/skbeam/core/cdi.py
@@ -379,7 +379,7 @@ def cdi_recon(
                     sup_error[n] = np.sum(sup_old)
                     sup_old = np.array(sup)
 
-        if cb_function and n_iterations % cb_step == 0:
+        if cb_function and (n + 1) % cb_step == 0:
             cb_function(sample_obj, obj_error, diff_error, sup_error)
 
         if n > start_avg * n_iterations:
-- 
2.43.0


From aa275a116b2d70c1fa6aa2a83e5fc50e7b0ac59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:34 +0000
Subject: [PATCH 15/23] fix: cdi.cdi_recon overwrote the caller's initial
 sample

---
 skbeam/core/cdi.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skbeam/core/cdi.py b/skbeam/core/cdi.py
index a439e5d..dbcfda8 100644
--- a/skbeam/core/cdi.py
+++ b/skbeam/core/cdi.py
@@ -318,6 +318,7 @@ def cdi_recon(
 
     diffracted_pattern = np.array(diffracted_pattern)  # diffraction data
     diffracted_pattern = np.fft.fftshift(diffracted_pattern)
+    sample_obj = np.array(sample_obj)  # updated in place below
 
     pi_modulus_flag = pi_modulus_flag.lower()
     real_operation = False
-- 
2.43.0


From 9d5afacb99072b5ec112e1a8623b1ffcb44f1ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:17 +0000
Subject: [PATCH 16/23] fix: dpc.reconstruct_phase_from_partial_info ignored
 scale=False and failed for unscaled gradients with negate=False

---
 skbeam/core/dpc.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/skbeam/core/dpc.py b/skbeam/core/dpc.py
index acd8d97..42825fd 100644
--- a/skbeam/core/dpc.py
+++ b/skbeam/core/dpc.py
@@ -519,20 +519,17 @@ def reconstruct_phase_from_partial_info(
     """
     if weighting < 0 or weighting > 1:
         raise ValueError("weighting should be within the range of [0, 1]!")
-    gx = None
+    gx = dpc_state.gx
     gy = dpc_state.gy
-    if pixel_size and focus_to_det:
+    if scale and pixel_size and focus_to_det:
         # Convert to wavelength
         lambda_ = 12.4e-4 / energy
         # pre-compute the scaling factor
-        scale = pixel_size / (lambda_ * focus_to_det)
-        gx = dpc_state.gx * len(dpc_state.ref_fx) * scale
-        gy = dpc_state.gy * len(dpc_state.ref_fy) * scale
+        factor = pixel_size / (lambda_ * focus_to_det)
+        gx = gx * len(dpc_state.ref_fx) * factor
+        gy = gy * len(dpc_state.ref_fy) * factor
     if negate:
-        if gx is not None:
-            gx *= -1
-        else:
-            gx = dpc_state.gx * -1
+        gx = gx * -1
     # Reconstruct the final phase image
     phase = recon(gx, gy, scan_xstep, scan_ystep, padding, weighting)
 
-- 
2.43.0


From 505cd71d95c6f53af5116b3b2951c9de3a248774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:52 +0000
Subject: [PATCH 17/23] fix: MD_dict and RCParamDict no longer destroy or
 invent entries on reads and on paths through a leaf

---
 skbeam/core/utils.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index 748bd73..e6c2588 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -106,14 +106,12 @@ class MD_dict(MutableMapping):
         key_split = key.split(self._split)
         tmp = self._dict
         for k in key_split[:-1]:
-            try:
-                tmp = tmp[k]._dict
-            except Exception:
+            if k not in tmp:
                 tmp[k] = type(self)()
-                tmp = tmp[k]._dict
-            if isinstance(tmp, md_value):
+            elif isinstance(tmp[k], md_value):
                 # TODO make message better
                 raise KeyError("trying to use a leaf node as a branch")
+            tmp = tmp[k]._dict
 
         # if passed in an md_value, set it and return
         if isinstance(val, md_value):
@@ -128,29 +126,26 @@ class MD_dict(MutableMapping):
         try:
             # if the second element is a string or None, cast to named tuple
             if isinstance(val[1], string_types) or val[1] is None:
-                print("here")
                 tmp[key_split[-1]] = md_value(*val)
             # else, assume whole thing is the value with no units
             else:
                 tmp[key_split[-1]] = md_value(val, None)
         # catch any type errors from trying to index into non-indexable things
-        # or from trying to use iterables longer than 2
-        except TypeError:
+        # or from trying to use iterables longer than 2, and values too short
+        # to have a second element
+        except (TypeError, IndexError, KeyError):
             tmp[key_split[-1]] = md_value(val, None)
 
     def __getitem__(self, key):
         key_split = key.split(self._split)
         tmp = self._dict
         for k in key_split[:-1]:
-            try:
-                tmp = tmp[k]._dict
-            except Exception:
-                tmp[k] = type(self)()
-                tmp = tmp[k]._dict
-
-            if isinstance(tmp, md_value):
+            if k not in tmp:
+                return None
+            if isinstance(tmp[k], md_value):
                 # TODO make message better
                 raise KeyError("trying to use a leaf node as a branch")
+            tmp = tmp[k]._dict
 
         return tmp.get(key_split[-1], None)
 
@@ -262,7 +257,10 @@ class RCParamDict(MutableMapping):
         # try to split the key
         splt_key = key.split(self._delim, 1)
         if len(splt_key) > 1:
-            return self._dict[splt_key[0]][splt_key[1]]
+            tmp = self._dict[splt_key[0]]
+            if not isinstance(tmp, RCParamDict):
+                raise KeyError("name space is borked")
+            return tmp[splt_key[1]]
         else:
             return self._dict[key]
 
-- 
2.43.0


From 11bf604b7125e1707b776763a5dcc21dceff84dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:52 +0000
Subject: [PATCH 18/23] fix: grid3d keeps the largest q for negative q, accepts
 integer q and 0/1 masks

---
 skbeam/core/utils.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/skbeam/core/utils.py b/skbeam/core/utils.py
index e6c2588..b3a2c65 100644
--- a/skbeam/core/utils.py
+++ b/skbeam/core/utils.py
@@ -891,7 +891,7 @@ def grid3d(
             "".format(img_stack.shape, img_stack[0].shape, binary_mask.shape)
         )
 
-    q = np.atleast_2d(q)
+    q = np.atleast_2d(np.asarray(q, dtype=float))
     if q.ndim != 2:
         raise ValueError(
             "q.ndim must be a 2-D array of shape Nx3 array. "
@@ -908,16 +908,19 @@ def grid3d(
     qmax = np.max(q, axis=0)
     dqn = [_defaults["nx"], _defaults["ny"], _defaults["nz"]]
 
-    # pad the upper edge by just enough to ensure that all of the
-    # points are in-bounds with the binning rules: lo <= val < hi
-    qmax += np.spacing(qmax)
-
     # check for non-default input
     for target, input_vals in ((dqn, (nx, ny, nz)), (qmin, (xmin, ymin, zmin)), (qmax, (xmax, ymax, zmax))):
         for j, in_val in enumerate(input_vals):
             if in_val is not None:
                 target[j] = in_val
 
+    # pad the default upper edges by just enough to ensure that all of the
+    # points are in-bounds with the binning rules: lo <= val < hi, whatever
+    # the sign of the values
+    for j, in_val in enumerate((xmax, ymax, zmax)):
+        if in_val is None:
+            qmax[j] += 4 * np.spacing(max(abs(qmin[j]), abs(qmax[j])))
+
     # format bounds
     bounds = np.array([qmin, qmax, dqn]).T
 
@@ -925,7 +928,7 @@ def grid3d(
     # getting the intensity value for each pixel
     q = np.insert(q, 3, np.ravel(img_stack), axis=1)
     if binary_mask is not None:
-        q = q[np.ravel(binary_mask)]
+        q = q[np.ravel(binary_mask).astype(bool)]
 
     # 3D grid of the data set
     # starting time for gridding
-- 
2.43.0


From a4495973cacc369524b8af7c42da6528da82e37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:52 +0000
Subject: [PATCH 19/23] fix: c_grid3d clears each thread's arrays with a
 private counter, no NaN standard error, ignore_nan parsed as int

---
 src/ctrans.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/ctrans.c b/src/ctrans.c
index 61f7bc0..a6b51af 100644
--- a/src/ctrans.c
+++ b/src/ctrans.c
@@ -45,7 +45,7 @@
 #else
 
 #define omp_get_thread_num() 0
-#define omp_get_max_threads() 0
+#define omp_get_max_threads() 1
 #define omp_get_num_threads() 1
 
 #endif
@@ -319,7 +319,7 @@ static PyObject* gridder_3D(PyObject *self, PyObject *args, PyObject *kwargs){
   static char *kwlist[] = { "data", "xrange", "yrange", "zrange", "ignore_nan",
                             "gridout", "grid2out", "nout", NULL };
 
-  if(!PyArg_ParseTupleAndKeywords(args, kwargs, "O(ddd)(ddd)(lll)|dOOO", kwlist,
+  if(!PyArg_ParseTupleAndKeywords(args, kwargs, "O(ddd)(ddd)(lll)|iOOO", kwlist,
 				  &_I,
 				  &grid_start[0], &grid_start[1], &grid_start[2],
 				  &grid_stop[0], &grid_stop[1], &grid_stop[2],
@@ -452,10 +452,12 @@ int c_grid3d(double *dout, double *d2out, unsigned long *nout, double *stderror,
     if((_d2out != NULL) && (_dout != NULL) && (_nout != NULL)){
 
       // Clear the arrays ....
-      for(j=0;j<grid_size;j++){
-        _dout[j] = 0.0;
-        _d2out[j] = 0.0;
-        _nout[j] = 0;
+      // (the counter has to be private to the thread)
+      unsigned long k;
+      for(k=0;k<grid_size;k++){
+        _dout[k] = 0.0;
+        _d2out[k] = 0.0;
+        _nout[k] = 0;
       }
 
 #pragma omp for
@@ -534,6 +536,8 @@ int c_grid3d(double *dout, double *d2out, unsigned long *nout, double *stderror,
       stderror[j] = 0.0;
     } else {
       double var = (d2out[j] - pow(dout[j], 2) / nout[j]) / nout[j];
+      // the variance of equal values can come out negative by rounding
+      if(var < 0) var = 0.0;
       stderror[j] = pow(var, 0.5) / pow(nout[j], 0.5);
     }
   }
-- 
2.43.0


From 45ccfb7d3b84322d282771acf8fb9235301debac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:52 +0000
Subject: [PATCH 20/23] fix: Histogram never indexes past the last bin and
 honours strided coordinates in N-d fills

---
 skbeam/core/accumulators/histogram.pyx | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/skbeam/core/accumulators/histogram.pyx b/skbeam/core/accumulators/histogram.pyx
index b4cbd54..b9fde3b 100644
--- a/skbeam/core/accumulators/histogram.pyx
+++ b/skbeam/core/accumulators/histogram.pyx
@@ -168,11 +168,12 @@ class Histogram:
         cdef cnp.float_t low = self._lows[0]
         cdef cnp.float_t high = self._highs[0]
         cdef cnp.float_t binsize = self._binsizes[0]
+        cdef long nbin = self._nbins[0]
         cdef int i
         cdef int wstride = 0 if weight.size == 1 else 1
         cdef int xlen = len(xval)
         for i in range(xlen):
-            xidx = find_indices(xval[i], low, high, binsize)
+            xidx = find_indices(xval[i], low, high, binsize, nbin)
             if xidx == -1:
                 continue
             data[xidx] += weight[wstride * i]
@@ -186,15 +187,17 @@ class Histogram:
         cdef cnp.float_t [:] low = self._lows
         cdef cnp.float_t [:] high = self._highs
         cdef cnp.float_t [:] binsize = self._binsizes
+        cdef long xnbin = self._nbins[0]
+        cdef long ynbin = self._nbins[1]
         cdef int i
         cdef int xlen = len(xval)
         cdef int ylen = len(yval)
         cdef int wstride = 0 if weight.size == 1 else 1
         for i in range(xlen):
-            xidx = find_indices(xval[i], low[0], high[0], binsize[0])
+            xidx = find_indices(xval[i], low[0], high[0], binsize[0], xnbin)
             if xidx == -1:
                 continue
-            yidx = find_indices(yval[i], low[1], high[1], binsize[1])
+            yidx = find_indices(yval[i], low[1], high[1], binsize[1], ynbin)
             if yidx == -1:
                 continue
             data[xidx][yidx] += weight[wstride * i]
@@ -217,8 +220,10 @@ class Histogram:
         istrides //= self._values.itemsize
         cdef int dataindexstrides[MAX_DIMENSIONS]
         cdef int i
+        cdef long nbin[MAX_DIMENSIONS]
         for i in range(self.ndims):
             dataindexstrides[i] = istrides[i]
+            nbin[i] = self._nbins[coordsorder[i]]
         mylows = self._lows[coordsorder]
         myhighs = self._highs[coordsorder]
         mybinsizes = self._binsizes[coordsorder]
@@ -226,6 +231,8 @@ class Histogram:
         cdef cnp.float_t [:] high = myhighs
         cdef cnp.float_t [:] binsize = mybinsizes
         cdef cnp.float_t* data = <cnp.float_t*> _getarrayptr(self._values)
+        # the loop below walks plain pointers, strided views have to be copied
+        coords = [np.ascontiguousarray(x) for x in coords]
         # distribute coordinates in each dimension according to their
         # numerical type.  follow the same order as in numtypes.
         for x in coords:
@@ -247,7 +254,7 @@ class Histogram:
             for k in range(aint_count):
                 j = k
                 xidx = find_indices(aint_ptr[k][i],
-                                    low[j], high[j], binsize[j])
+                                    low[j], high[j], binsize[j], nbin[j])
                 if xidx == -1:
                     didx = -1
                     break
@@ -257,7 +264,7 @@ class Histogram:
             for k in range(afloat_count):
                 j = k + aint_count
                 xidx = find_indices(afloat_ptr[k][i],
-                                    low[j], high[j], binsize[j])
+                                    low[j], high[j], binsize[j], nbin[j])
                 if xidx == -1:
                     didx = -1
                     break
@@ -283,16 +290,17 @@ class Histogram:
         return [bin_edges_to_centers(edge) for edge in self.edges]
 
 
-cdef long find_indices(coordnumtype pos, double low, double high, double binsize):
+cdef long find_indices(coordnumtype pos, double low, double high, double binsize, long nbin):
     if not (low <= pos < high):
         return -1
-    return int((pos - low) / binsize)
+    # rounding in the division may reach nbin for values just below high
+    return min(<long> ((pos - low) / binsize), nbin - 1)
 
 
 cdef void fillonecy(coordnumtype xval, wnumtype weight,
                     cnp.float_t* pdata,
-                    double low, double high, double binsize):
-    iidx = find_indices(xval, low, high, binsize)
+                    double low, double high, double binsize, long nbin):
+    iidx = find_indices(xval, low, high, binsize, nbin)
     if iidx == -1:
         return
     pdata[iidx] += weight
-- 
2.43.0


From b725b83f19b161b4eac30e7b44600ad2b14ae61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:52 +0000
Subject: [PATCH 21/23] fix: binned statistics do not alter the sample, put
 near-edge points in the right bin, map unequal bins correctly

---
 skbeam/core/accumulators/binned_statistic.py | 30 ++++++++------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/skbeam/core/accumulators/binned_statistic.py b/skbeam/core/accumulators/binned_statistic.py
index 913870b..6a42f5a 100644
--- a/skbeam/core/accumulators/binned_statistic.py
+++ b/skbeam/core/accumulators/binned_statistic.py
@@ -111,7 +111,6 @@ class BinnedStatisticDD(object):
         self.nbin = np.empty(self.D, int)
         self.edges = self.D * [None]
         self._centers = self.D * [None]
-        dedges = self.D * [None]
 
         try:
             M = len(bins)
@@ -146,19 +145,13 @@ class BinnedStatisticDD(object):
                 self.edges[i] = np.asarray(bins[i], float)
                 self.nbin[i] = len(self.edges[i]) + 1  # +1 for outlier bins
             self._centers[i] = bin_edges_to_centers(self.edges[i])
-            dedges[i] = np.diff(self.edges[i])
 
         self.nbin = np.asarray(self.nbin)
 
         # Compute the bin number each sample falls into.
         Ncount = {}
         for i in np.arange(self.D):
-            # Apply mask in a non-ideal way by setting value outside range.
-            # Would be better to do this using bincount "weights", perhaps.
-            thissample = sample[:, i]
-            if mask is not None:
-                thissample[mask == 0] = self.edges[i][0] - 0.01 * (1 + np.fabs(self.edges[i][0]))
-            Ncount[i] = np.digitize(thissample, self.edges[i])
+            Ncount[i] = np.digitize(sample[:, i], self.edges[i])
 
         # Using digitize, values that fall on an edge are put in the
         # right bin.  For the rightmost bin, we want values equal to
@@ -166,12 +159,13 @@ class BinnedStatisticDD(object):
         # outlier.
 
         for i in np.arange(self.D):
-            # Rounding precision
-            decimal = int(-np.log10(dedges[i].min())) + 6
             # Find which points are on the rightmost edge.
-            on_edge = np.where(np.around(sample[:, i], decimal) == np.around(self.edges[i][-1], decimal))[0]
+            on_edge = np.where(sample[:, i] == self.edges[i][-1])[0]
             # Shift these points one bin to the left.
             Ncount[i][on_edge] -= 1
+            # Put the masked points in the lower outlier bin.
+            if mask is not None:
+                Ncount[i][np.asarray(mask) == 0] = 0
 
         # Compute the sample indices in the flattened statistic matrix.
         self.ni = self.nbin.argsort()
@@ -201,12 +195,10 @@ class BinnedStatisticDD(object):
         denominator = 1
 
         for i in range(self.D):
-            ind = self.D - i - 1
-            subbinmap = self.xy // denominator
-            if i < self.D - 1:
-                subbinmap = subbinmap % self.nbin[self.ni[ind - 1]]
-            binmap[ind] = subbinmap
-            denominator *= self.nbin[self.ni[ind]]
+            # self.xy is flattened with the dimensions in the order self.ni
+            ind = self.ni[self.D - i - 1]
+            binmap[ind] = self.xy // denominator % self.nbin[ind]
+            denominator *= self.nbin[ind]
 
         return binmap
 
@@ -298,7 +290,9 @@ class BinnedStatisticDD(object):
             flatsum = np.bincount(self.xy, values)
             flatsum2 = np.bincount(self.xy, values**2)
             a = self.flatcount.nonzero()
-            self.result[a] = np.sqrt(flatsum2[a] / self.flatcount[a] - (flatsum[a] / self.flatcount[a]) ** 2)
+            var = flatsum2[a] / self.flatcount[a] - (flatsum[a] / self.flatcount[a]) ** 2
+            # the variance of equal values can come out negative by rounding
+            self.result[a] = np.sqrt(np.maximum(var, 0))
         elif statistic == "count":
             self.result.fill(0)
             a = np.arange(len(self.flatcount))
-- 
2.43.0


From 83d31fda903517222203bcdcde75b72d524f8e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:52 +0000
Subject: [PATCH 22/23] fix: xsvs combines disjoint pairs of windows and
 averages whole image sets

---
 skbeam/core/speckle.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skbeam/core/speckle.py b/skbeam/core/speckle.py
index 5d62378..272b56b 100644
--- a/skbeam/core/speckle.py
+++ b/skbeam/core/speckle.py
@@ -196,7 +196,9 @@ def xsvs(image_sets, label_array, number_of_img, timebin_num=2, max_cts=None):
 
             while level < num_times:
                 if not track_level[level]:
+                    # wait for the next image of the lower level
                     track_level[level] = 1
+                    break
                 else:
                     prev = 1 + (cur[level - 1] - 2) % timebin_num
                     cur[level] = 1 + cur[level] % timebin_num
@@ -219,8 +221,8 @@ def xsvs(image_sets, label_array, number_of_img, timebin_num=2, max_cts=None):
                     )
                     level += 1
 
-            prob_k_all += (prob_k - prob_k_all) / (i + 1)
-            prob_k_pow_all += (prob_k_pow - prob_k_pow_all) / (i + 1)
+        prob_k_all += (prob_k - prob_k_all) / (i + 1)
+        prob_k_pow_all += (prob_k_pow - prob_k_pow_all) / (i + 1)
 
     prob_k_std_dev = np.power((prob_k_pow_all - np.power(prob_k_all, 2)), 0.5)
 
-- 
2.43.0


From 72803b7693f5cf8c07aa60c9ce52c6201ecc1e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:52 +0000
Subject: [PATCH 23/23] fix: GSAS ESD and FXYE files scale only the intensities
 and ESD padding is not read as data

---
 skbeam/io/gsas_file_reader.py   | 5 +++++
 skbeam/io/save_powder_output.py | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/skbeam/io/gsas_file_reader.py b/skbeam/io/gsas_file_reader.py
index 642a0a8..fbd14e3 100644
--- a/skbeam/io/gsas_file_reader.py
+++ b/skbeam/io/gsas_file_reader.py
@@ -163,9 +163,14 @@ def _get_esd_data(file):
         start = float(S[0].split()[5]) / 100.0
         step = float(S[0].split()[6]) / 100.0
 
+        # number of data values (the last record may be padded)
+        nch = int(S[0].split()[2])
+
         j = 0
         for line in S[1:]:
             for i in range(0, 80, 16):
+                if j >= nch:
+                    break
                 xi = start + step * j
                 yi = _sfloat(line[i : i + 8])
                 ei = _sfloat(line[i + 8 : i + 16])
diff --git a/skbeam/io/save_powder_output.py b/skbeam/io/save_powder_output.py
index cb4f804..171dc58 100644
--- a/skbeam/io/save_powder_output.py
+++ b/skbeam/io/save_powder_output.py
@@ -211,7 +211,7 @@ def gsas_writer(tth, intensity, output_name, mode=None, err=None, dir_path=None)
             0,
         )
         lines.append("%-80s" % l_bank)
-        l_recs = ["%8.0f%8.0f" % (ii, ee * scale) for ii, ee in zip(intensity, err)]
+        l_recs = ["%8.0f%8.0f" % (ii * scale, ee * scale) for ii, ee in zip(intensity, err)]
         for i in range(0, len(l_recs), 5):
             lines.append("".join(l_recs[i : i + 5]))
     elif mode == "FXYE":
@@ -227,7 +227,7 @@ def gsas_writer(tth, intensity, output_name, mode=None, err=None, dir_path=None)
         )
         lines.append("%-80s" % l_bank)
         l_recs = [
-            "%22.10f%22.10f%24.10f" % (xx * scale, yy * scale, ee * scale)
+            "%22.10f%22.10f%24.10f" % (xx, yy * scale, ee * scale)
             for xx, yy, ee in zip(tth, intensity, err)
         ]
         for i in range(len(l_recs)):
-- 
2.43.0

