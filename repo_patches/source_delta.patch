From dd4304b5888e186627636777ef243805a6f3cedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:27 +0000
Subject: [PATCH 01/71] fix: normalize_data overflows in integer/half
 arithmetic and compares ranges by identity

Integer inputs were subtracted and multiplied in their own dtype, so e.g.
uint8 -> (0, 65535), int16 or uint16 -> (0, 255) wrapped around. The
'already normalized' test compared ints by identity, which never matched for
16 bit data.
---
 src/viqa/utils/loading.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index ba93da4..0c6c584 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -850,7 +850,7 @@ def normalize_data(
         raise ValueError("Data type not supported")
 
     # Check if data is already normalized
-    if info.max is not data_range_output[1] or info.min is not data_range_output[0]:
+    if info.max != data_range_output[1] or info.min != data_range_output[0]:
         # Normalize data
         if automatic_data_range:
             img_min = np.min(img)  # Get minimum value of numpy array
@@ -863,9 +863,11 @@ def normalize_data(
             else:
                 img_min = data_range_input[0]
                 img_max = data_range_input[1]
-        # Normalize numpy array
+        # Normalize numpy array in double precision as integer (or half precision)
+        # arithmetic would overflow
+        img_min, img_max = np.float64(img_min), np.float64(img_max)
         img = (
-            (img - img_min)
+            (img.astype(np.float64) - img_min)
             * (data_range_output[1] - data_range_output[0])
             / (img_max - img_min)
         ) + data_range_output[0]
-- 
2.43.0


From 9bab7b629b519072b6bb23cc2680a68d69bffcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:27 +0000
Subject: [PATCH 02/71] fix: normalize_data divides by zero for constant images

A constant image became NaN (or an undefined integer after the cast); it now
maps to the lower end of the output range.
---
 src/viqa/utils/loading.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index 0c6c584..a80df0c 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -866,11 +866,14 @@ def normalize_data(
         # Normalize numpy array in double precision as integer (or half precision)
         # arithmetic would overflow
         img_min, img_max = np.float64(img_min), np.float64(img_max)
-        img = (
-            (img.astype(np.float64) - img_min)
-            * (data_range_output[1] - data_range_output[0])
-            / (img_max - img_min)
-        ) + data_range_output[0]
+        if img_max == img_min:  # Constant image, avoid division by zero
+            img = np.zeros_like(img, dtype=np.float64) + data_range_output[0]
+        else:
+            img = (
+                (img.astype(np.float64) - img_min)
+                * (data_range_output[1] - data_range_output[0])
+                / (img_max - img_min)
+            ) + data_range_output[0]
 
         # Change data type
         # If data range is 255 (8 bit)
-- 
2.43.0


From 366ff76fd2f4fc0a21e7b0f0e01d8f6d165332da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:27 +0000
Subject: [PATCH 03/71] fix: crop_image rejects crops that keep one axis whole
 and all color images

Only crops larger than the image are to be rejected; the color axis was
compared with the two crop axes.
---
 src/viqa/utils/loading.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index a80df0c..4d4ebf5 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -937,22 +937,25 @@ def crop_image(
 
     if img.ndim == 2 or (img.ndim == 3 and img.shape[-1] == 3):  # If image is 2D
         crop_shape = np.array((x[1] - x[0], y[1] - y[0]))
-        if (crop_shape < img_shape).all():  # If cropping is smaller than original image
+        img_shape = img_shape[:2]  # Ignore color channels
+        if (crop_shape == img_shape).all():  # If image is already cropped
+            warn("Image is already cropped.", RuntimeWarning)
+            img_crop = img
+        # If cropping is not larger than original image
+        elif (crop_shape <= img_shape).all():
             if z is not None:
                 warn("Image is 2D. Parameter z will be ignored.", RuntimeWarning)
             img_crop = img[x[0] : x[1], y[0] : y[1]]
-        elif (crop_shape == img_shape).all():  # If image is already cropped
-            warn("Image is already cropped.", RuntimeWarning)
-            img_crop = img
         else:  # If cropping is larger than original image
             raise ValueError("Cropped image shape must be smaller than original image.")
     elif img.ndim == 3 and z is not None:  # If image is 3D
         crop_shape = np.array((x[1] - x[0], y[1] - y[0], z[1] - z[0]))
-        if (crop_shape < img_shape).all():  # If cropping is smaller than original image
-            img_crop = img[x[0] : x[1], y[0] : y[1], z[0] : z[1]]
-        elif (crop_shape == img_shape).all():  # If image is already cropped
+        if (crop_shape == img_shape).all():  # If image is already cropped
             warn("Image is already cropped.", RuntimeWarning)
             img_crop = img
+        # If cropping is not larger than original image
+        elif (crop_shape <= img_shape).all():
+            img_crop = img[x[0] : x[1], y[0] : y[1], z[0] : z[1]]
         else:  # If cropping is larger than original image
             raise ValueError("Cropped image shape must be smaller than original image.")
     else:  # If image is not 2D or 3D
-- 
2.43.0


From ceaea2fd8906a8ce893db1c4b14f394f17d5e3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:27 +0000
Subject: [PATCH 04/71] fix: load_mhd drops the last header line without a
 trailing newline

ElementDataFile is the last line of a MetaImage header, so a header without a
final newline could not be loaded. Empty lines, a '=' inside a value and CRLF
line ends are read as well, and the header file is closed.
---
 src/viqa/utils/loading.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index 4d4ebf5..c3a8c43 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -429,14 +429,14 @@ def load_mhd(file_dir: str | os.PathLike, file_name: str | os.PathLike) -> np.nd
     """
     file_path = os.path.join(file_dir, file_name)  # Complete file path
 
-    f = open(file=file_path)  # Open header file
-
-    file_header_txt = f.read().split("\n")  # Extract header lines
+    with open(file=file_path) as f:  # Open header file
+        file_header_txt = f.read().splitlines()  # Extract header lines
     # Create dictionary from lines
     file_header = {
-        key: value
-        for line in file_header_txt[0:-1]
-        for key, value in [line.split(" = ")]
+        key.strip(): value.strip()
+        for line in file_header_txt
+        if line.strip()
+        for key, value in [line.split("=", 1)]
     }
 
     data_file_path = os.path.join(
-- 
2.43.0


From 955f9cfb2273a3b2154846522851e2f4552b3f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:27 +0000
Subject: [PATCH 05/71] fix: raw data files with an incomplete trailing element
 are accepted

---
 src/viqa/utils/loading.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index c3a8c43..8927492 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -596,7 +596,9 @@ def _load_binary(data_file_path, data_type, dim_size):
             file=f, dtype=data_type
         )  # Read data file into numpy array according to data type
 
-    if img_arr_orig.size != np.prod(np.array(dim_size).astype(np.int64)):
+    # Compare sizes in bytes, np.fromfile ignores an incomplete trailing element
+    expected_size = np.prod(np.array(dim_size).astype(np.int64))
+    if os.path.getsize(data_file_path) != expected_size * np.dtype(data_type).itemsize:
         raise ValueError(
             "Size of data file ("
             + data_file_path
-- 
2.43.0


From c27df7a00caa5ed85d69d7eaa1c8df2c0011c50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:33 +0000
Subject: [PATCH 06/71] fix: export_results overwrites the score of
 uncalculated metrics with a string

---
 src/viqa/utils/export.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viqa/utils/export.py b/src/viqa/utils/export.py
index e2d0dd9..7ed0f1d 100644
--- a/src/viqa/utils/export.py
+++ b/src/viqa/utils/export.py
@@ -95,10 +95,10 @@ def export_results(metrics, output_path, filename, return_dict=False):
         writer.writerow(["Metric", "Value"])
         for metric in metrics:
             if metric.score_val is None:
-                metric.score_val = "n/a"
+                results_dict[metric._name] = "n/a"
             else:
                 writer.writerow([metric._name, metric.score_val])
-            results_dict[metric._name] = metric.score_val
+                results_dict[metric._name] = metric.score_val
     if return_dict:
         return results_dict
 
-- 
2.43.0


From 244cac807b2acfa761dc2c8de6a0cf34b995f4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:35 +0000
Subject: [PATCH 07/71] fix: SNR has no name and returns a tuple instead of the
 score

SNR.score returned and stored (value, parameters) for grayscale images, so the
score could not be printed, compared, exported or used in Batch-/MultipleMetrics,
which also failed on the missing name. The luminance SNR of RGB images failed
for the same reason.
---
 src/viqa/nr_metrics/snr.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 9b54718..fddecb2 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -106,6 +106,7 @@ class SNR(NoReferenceMetricsInterface):
         super().__init__(
             data_range=data_range, normalize=normalize, name=name, **kwargs
         )
+        self._name = name
 
     def score(self, img, **kwargs):
         """Calculate the signal-to-noise ratio (SNR) for an image.
@@ -144,6 +145,8 @@ class SNR(NoReferenceMetricsInterface):
         self.parameters.update(kwargs)
 
         score_val = signal_to_noise_ratio(img, **kwargs)
+        if isinstance(score_val[-1], dict):  # Grayscale image, drop used parameters
+            score_val = score_val[0]
         self.score_val = score_val
         return score_val
 
@@ -1071,7 +1074,7 @@ def signal_to_noise_ratio(
                     region_type,
                     auto_center=False,
                     yuv=False,
-                )
+                )[0]
             )
             snr_val = [
                 np.float64(np.mean(signal[..., i]) / sdev[i]) if sdev[i] != 0 else 0
-- 
2.43.0


From ca107c6ebef27af6b08e77881c3adf4bb73c2aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:35 +0000
Subject: [PATCH 08/71] fix: YUV conversion multiplies with the transposed
 weighting matrix

---
 src/viqa/utils/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/utils/misc.py b/src/viqa/utils/misc.py
index f897d97..f59be64 100644
--- a/src/viqa/utils/misc.py
+++ b/src/viqa/utils/misc.py
@@ -46,7 +46,7 @@ def _rgb_to_yuv(img):
             [0.615, -0.55861, -0.05639],
         ]
     )
-    img_yuv = img @ weights
+    img_yuv = img @ weights.T
     return img_yuv
 
 
-- 
2.43.0


From 77c159710b0cb5ca0eaa0c9ce496a318630ae45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:35 +0000
Subject: [PATCH 09/71] fix: cubic regions of color images fail with a mask of
 wrong shape

---
 src/viqa/utils/misc.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/viqa/utils/misc.py b/src/viqa/utils/misc.py
index f59be64..f57fadd 100644
--- a/src/viqa/utils/misc.py
+++ b/src/viqa/utils/misc.py
@@ -622,9 +622,6 @@ def _to_cubic(img, center, radius):
             center[0] - radius : center[0] + radius,
             center[1] - radius : center[1] + radius,
         ] = 1
-
-        if img.ndim == 3:  # 2D color image
-            mask = np.repeat(mask[:, :, np.newaxis], 3, axis=2)
     elif img.ndim == 3 and img.shape[-1] > 3:
         if len(center) != 3:
             raise ValueError("Center must be 3D.")
-- 
2.43.0


From b53edd1305c1003c46db5f98cb325aa6cfc26ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:55 +0000
Subject: [PATCH 10/71] fix: CNR/SNR ignore explicit centers and keep the
 parameters of failed calls

A center or radius passed without the others was silently replaced by the
stored one, and a call that raised had already overwritten the stored
parameters used by the next call.
---
 src/viqa/nr_metrics/cnr.py | 19 +++++++------------
 src/viqa/nr_metrics/snr.py | 18 ++++++++----------
 2 files changed, 15 insertions(+), 22 deletions(-)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index 430095f..6a41fb2 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -123,21 +123,16 @@ class CNR(NoReferenceMetricsInterface):
         """
         img = self.load_images(img)
 
-        # check if signal_center, background_center and radius are provided
-        if not {"signal_center", "background_center", "radius"}.issubset(kwargs):
-            if not {"signal_center", "background_center", "radius"}.issubset(
-                self.parameters.keys()
-            ):
-                raise ValueError("No center or radius provided.")
-
-            kwargs["signal_center"] = self.parameters["signal_center"]
-            kwargs["background_center"] = self.parameters["background_center"]
-            kwargs["radius"] = self.parameters["radius"]
+        # use the .parameters attribute for everything that is not provided
+        for key in ("signal_center", "background_center", "radius"):
+            if key not in kwargs:
+                if key not in self.parameters:
+                    raise ValueError("No center or radius provided.")
+                kwargs[key] = self.parameters[key]
 
+        score_val = contrast_to_noise_ratio(img, **kwargs)
         # write kwargs to .parameters attribute
         self.parameters.update(kwargs)
-
-        score_val = contrast_to_noise_ratio(img, **kwargs)
         self.score_val = score_val
         return score_val
 
diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index fddecb2..cd34fcf 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -130,23 +130,21 @@ class SNR(NoReferenceMetricsInterface):
         #  what happens when auto_center is True but region_type != "full"
         img = self.load_images(img)
 
-        # check if signal_center and radius are provided
-        if not {"signal_center", "radius"}.issubset(kwargs):
-            if not {"signal_center", "radius"}.issubset(self.parameters.keys()):
-                raise ValueError("No center or radius provided.")
-
-            kwargs["signal_center"] = self.parameters["signal_center"]
-            kwargs["radius"] = self.parameters["radius"]
+        # use the .parameters attribute for everything that is not provided
+        for key in ("signal_center", "radius"):
+            if key not in kwargs:
+                if key not in self.parameters:
+                    raise ValueError("No center or radius provided.")
+                kwargs[key] = self.parameters[key]
 
         # TODO: Write standard params of signal to noise ratio to .parameters attribute
         #  if not already done
 
-        # write kwargs to .parameters attribute
-        self.parameters.update(kwargs)
-
         score_val = signal_to_noise_ratio(img, **kwargs)
         if isinstance(score_val[-1], dict):  # Grayscale image, drop used parameters
             score_val = score_val[0]
+        # write kwargs to .parameters attribute
+        self.parameters.update(kwargs)
         self.score_val = score_val
         return score_val
 
-- 
2.43.0


From ff2429bfabdf18c525e84b605239eb7dd43e3a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:55 +0000
Subject: [PATCH 11/71] fix: CNR/SNR accept regions that reach beyond the upper
 image border

Only the lower border was checked, so a region was silently cut off (or
empty) at the other end of an axis.
---
 src/viqa/nr_metrics/cnr.py | 13 +++++++++++++
 src/viqa/nr_metrics/snr.py |  7 +++++++
 2 files changed, 20 insertions(+)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index 6a41fb2..d8ee313 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -813,6 +813,19 @@ def contrast_to_noise_ratio(
     if img.ndim != len(signal_center) or img.ndim != len(background_center):
         raise ValueError("Centers have to be in the same dimension as img.")
 
+    # Check if centers are too close to the upper border
+    for name, centers in (
+        ("Signal", signal_center),
+        ("Background", background_center),
+    ):
+        if any(
+            center + radius > dim_size
+            for center, dim_size in zip(centers, img.shape, strict=False)
+        ):
+            raise ValueError(
+                f"{name} center has to be at least the radius away from the border."
+            )
+
     # Define regions
     if region_type in {"full", "original"}:
         if not auto_center:
diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index cd34fcf..efbfa5d 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -1038,6 +1038,13 @@ def signal_to_noise_ratio(
         if img.ndim != len(signal_center):
             raise ValueError("Center has to be in the same dimension as img.")
 
+    # Check if center is too close to the upper border
+    if any(
+        center + radius > dim_size
+        for center, dim_size in zip(signal_center, img.shape, strict=False)
+    ):
+        raise ValueError("Center has to be at least the radius away from the border.")
+
     # Color images
     if img.ndim == 3 and (img.shape[-1] == 3):  # 2D RGB image
         if yuv:
-- 
2.43.0


From 98c3e87087e823ba6fa84dc0474bf02277e88c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:28 +0000
Subject: [PATCH 12/71] fix: BatchMetrics reuses results of another region or
 image size

An identical consecutive pair was skipped although its ROI differs, and the
no-reference results of an image were reused for another ROI or although the
modified image is resized to a reference image of another shape.
---
 src/viqa/multiple.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/viqa/multiple.py b/src/viqa/multiple.py
index a516f35..e00e9d4 100644
--- a/src/viqa/multiple.py
+++ b/src/viqa/multiple.py
@@ -254,12 +254,23 @@ class BatchMetrics(_MultipleInterface):
         prev_ref_path = None
         modified_img = None
         prev_mod_path = None
+        prev_roi = None
+        prev_target = None
         metric_results = None
         for pair_num, pair in enumerate(tqdm(self.pairs)):
             reference_path = os.path.join(self.file_dir, pair["reference_image"])
             modified_path = os.path.join(self.file_dir, pair["modified_image"])
+            if self.global_roi is None and self.rois is not None:
+                roi = self.rois[pair_num]
+            # Results can only be reused for the same region of interest
+            same_roi = roi == prev_roi
+            prev_roi = roi
             # Skip calculation if the images are the same as in the previous pair
-            if reference_path == prev_ref_path and modified_path == prev_mod_path:
+            if (
+                reference_path == prev_ref_path
+                and modified_path == prev_mod_path
+                and same_roi
+            ):
                 self.results[str(pair_num)] = metric_results
                 warn("Skipping calculation for identical image pair.", UserWarning)
                 continue
@@ -269,16 +280,19 @@ class BatchMetrics(_MultipleInterface):
                 prev_ref_path = reference_path
                 prev_result_reference = None
             else:
-                prev_result_reference = metric_results
+                prev_result_reference = metric_results if same_roi else None
+            # The modified image is resized to the reference image
+            target = (reference_img.shape, reference_img.dtype)
+            same_target = target == prev_target
+            prev_target = target
             if modified_path != prev_mod_path:
                 modified_img = load_data(modified_path, **kwargs)
                 prev_mod_path = modified_path
                 prev_result_modified = None
             else:
-                prev_result_modified = metric_results
-
-            if self.global_roi is None and self.rois is not None:
-                roi = self.rois[pair_num]
+                prev_result_modified = (
+                    metric_results if same_roi and same_target else None
+                )
 
             metric_results = _calc(
                 self.metrics,
-- 
2.43.0


From defa9bfe31a4f5661b3f921059de45b3191e725f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:28 +0000
Subject: [PATCH 13/71] fix: Batch-/MultipleMetrics normalize the images again
 after cropping

The region of interest was stretched to the full data range (for float data),
so the scores differed from those of the metrics with the same ROI.
---
 src/viqa/multiple.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/viqa/multiple.py b/src/viqa/multiple.py
index e00e9d4..109659a 100644
--- a/src/viqa/multiple.py
+++ b/src/viqa/multiple.py
@@ -696,7 +696,8 @@ def _calc(metrics, metrics_parameters, img_r, img_m, **kwargs):
         img_r = crop_image(img_r, *roi)
         img_m = crop_image(img_m, *roi)
 
-    img_r, img_m = _check_imgs(img_r, img_m, **kwargs)
+    # Images are already normalized, only check them
+    img_r, img_m = _check_imgs(img_r, img_m)
 
     metric_results = {}
     for metric, parameters in tqdm(
-- 
2.43.0


From 616d02520a239a28d1941e3cd1a5ea498426d217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:28 +0000
Subject: [PATCH 14/71] fix: FSIM, VSI, MS-SSIM and VIFp ignore dim for full
 volumes

The mean over all slices was always taken along the last axis, and invalid
values of dim were accepted.
---
 src/viqa/fr_metrics/fsim.py   | 9 +++++++--
 src/viqa/fr_metrics/msssim.py | 9 +++++++--
 src/viqa/fr_metrics/vif.py    | 9 +++++++--
 src/viqa/fr_metrics/vsi.py    | 9 +++++++--
 4 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/viqa/fr_metrics/fsim.py b/src/viqa/fr_metrics/fsim.py
index 7809db6..e40f04e 100644
--- a/src/viqa/fr_metrics/fsim.py
+++ b/src/viqa/fr_metrics/fsim.py
@@ -242,9 +242,14 @@ class FSIM(FullReferenceMetricsInterface):
                     "im_slice is not given. Calculating FSIM for full volume.",
                     RuntimeWarning,
                 )
+                if dim not in (0, 1, 2):
+                    raise ValueError(
+                        "Invalid dim value. Must be integer of 0, 1 or 2."
+                    )
+                # Slices are taken from the last axis
                 img_r_tensor, img_m_tensor = _check_chromatic(
-                    img_r,
-                    img_m,
+                    np.moveaxis(img_r, dim, -1),
+                    np.moveaxis(img_m, dim, -1),
                     self.parameters["chromatic"],
                 )
                 score_val = fsim(
diff --git a/src/viqa/fr_metrics/msssim.py b/src/viqa/fr_metrics/msssim.py
index ae20403..4abdc69 100644
--- a/src/viqa/fr_metrics/msssim.py
+++ b/src/viqa/fr_metrics/msssim.py
@@ -245,9 +245,14 @@ class MSSSIM(FullReferenceMetricsInterface):
                     "im_slice is not given. Calculating MS-SSIM for full volume.",
                     RuntimeWarning,
                 )
+                if dim not in (0, 1, 2):
+                    raise ValueError(
+                        "Invalid dim value. Must be integer of 0, 1 or 2."
+                    )
+                # Slices are taken from the last axis
                 img_r_tensor, img_m_tensor = _check_chromatic(
-                    img_r,
-                    img_m,
+                    np.moveaxis(img_r, dim, -1),
+                    np.moveaxis(img_m, dim, -1),
                     self.parameters["chromatic"],
                 )
                 score_val = multi_scale_ssim(
diff --git a/src/viqa/fr_metrics/vif.py b/src/viqa/fr_metrics/vif.py
index c2e1b42..d51e24d 100644
--- a/src/viqa/fr_metrics/vif.py
+++ b/src/viqa/fr_metrics/vif.py
@@ -218,9 +218,14 @@ class VIFp(FullReferenceMetricsInterface):
                     "im_slice is not given. Calculating VIFp for full volume.",
                     RuntimeWarning,
                 )
+                if dim not in (0, 1, 2):
+                    raise ValueError(
+                        "Invalid dim value. Must be integer of 0, 1 or 2."
+                    )
+                # Slices are taken from the last axis
                 img_r_tensor, img_m_tensor = _check_chromatic(
-                    img_r,
-                    img_m,
+                    np.moveaxis(img_r, dim, -1),
+                    np.moveaxis(img_m, dim, -1),
                     self.parameters["chromatic"],
                 )
                 score_val = vif_p(
diff --git a/src/viqa/fr_metrics/vsi.py b/src/viqa/fr_metrics/vsi.py
index c862272..f24b691 100644
--- a/src/viqa/fr_metrics/vsi.py
+++ b/src/viqa/fr_metrics/vsi.py
@@ -239,9 +239,14 @@ class VSI(FullReferenceMetricsInterface):
                     "im_slice is not given. Calculating VSI for full volume.",
                     RuntimeWarning,
                 )
+                if dim not in (0, 1, 2):
+                    raise ValueError(
+                        "Invalid dim value. Must be integer of 0, 1 or 2."
+                    )
+                # Slices are taken from the last axis
                 img_r_tensor, img_m_tensor = _check_chromatic(
-                    img_r,
-                    img_m,
+                    np.moveaxis(img_r, dim, -1),
+                    np.moveaxis(img_m, dim, -1),
                     self.parameters["chromatic"],
                 )
                 score_val = vsi(
-- 
2.43.0


From 440d1aee8361c85e249d86f604ed78b669aff255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:28 +0000
Subject: [PATCH 15/71] fix: VSI treats color images as volumes

---
 src/viqa/fr_metrics/vsi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viqa/fr_metrics/vsi.py b/src/viqa/fr_metrics/vsi.py
index f24b691..00bcd2d 100644
--- a/src/viqa/fr_metrics/vsi.py
+++ b/src/viqa/fr_metrics/vsi.py
@@ -186,7 +186,7 @@ class VSI(FullReferenceMetricsInterface):
         """
         img_r, img_m = self.load_images(img_r, img_m)
 
-        if img_r.ndim == 3:
+        if img_r.ndim == 3 and img_r.shape[-1] != 3:
             if (
                 dim is not None and type(im_slice) is int
             ):  # if dim and im_slice are given
@@ -261,7 +261,7 @@ class VSI(FullReferenceMetricsInterface):
                 raise ValueError(
                     "If images are 3D, dim and im_slice (optional) must be given."
                 )
-        elif img_r.ndim == 2:
+        elif img_r.ndim == 2 or (img_r.ndim == 3 and img_r.shape[-1] == 3):
             if dim or im_slice:
                 warn("dim and im_slice are ignored for 2D images.", RuntimeWarning)
             # Calculate VSI for 2D images
-- 
2.43.0


From 43f8002edd2037b6e8e0ac4e14dfc31a14196e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:19 +0000
Subject: [PATCH 16/71] fix: flipped float images cannot be converted to
 tensors

---
 src/viqa/utils/misc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/viqa/utils/misc.py b/src/viqa/utils/misc.py
index f57fadd..5d62515 100644
--- a/src/viqa/utils/misc.py
+++ b/src/viqa/utils/misc.py
@@ -419,8 +419,9 @@ def gabor_convolve(
 
 def _check_chromatic(img_r, img_m, chromatic):
     """Permute image based on dimensions and chromaticity."""
-    img_r = _to_float(img_r, np.float32)
-    img_m = _to_float(img_m, np.float32)
+    # tensors do not support e.g. negative strides of flipped images
+    img_r = np.ascontiguousarray(_to_float(img_r, np.float32))
+    img_m = np.ascontiguousarray(_to_float(img_m, np.float32))
     # check if chromatic
     if chromatic is False:
         if img_r.ndim == 3:
-- 
2.43.0


From 255250bedf2ed5e8105fa53713c009371a61c310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:56 +0000
Subject: [PATCH 17/71] fix: UQI is calculated with the stabilising constants
 of SSIM

The constants were passed as k_1 and k_2, which structural_similarity ignores.
---
 src/viqa/fr_metrics/uqi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viqa/fr_metrics/uqi.py b/src/viqa/fr_metrics/uqi.py
index 8b567cf..fcd2520 100644
--- a/src/viqa/fr_metrics/uqi.py
+++ b/src/viqa/fr_metrics/uqi.py
@@ -155,8 +155,8 @@ class UQI(FullReferenceMetricsInterface):
             img_r,
             img_m,
             data_range=self.parameters["data_range"],
-            k_1=0,
-            k_2=0,
+            K1=0,
+            K2=0,
             alpha=1,
             beta=1,
             gamma=1,
-- 
2.43.0


From 7f563a909b34bfe99856e676dbe2b7cfbe4c4ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:01 +0000
Subject: [PATCH 18/71] fix: concurrent MAD calculations share their parameters
 via module globals

---
 src/viqa/fr_metrics/mad.py | 85 ++++++++++++++++++++------------------
 1 file changed, 44 insertions(+), 41 deletions(-)

diff --git a/src/viqa/fr_metrics/mad.py b/src/viqa/fr_metrics/mad.py
index 8443af2..62901bd 100644
--- a/src/viqa/fr_metrics/mad.py
+++ b/src/viqa/fr_metrics/mad.py
@@ -53,12 +53,6 @@ from viqa.utils import (
     gabor_convolve,
 )
 
-# Global preinitialized variables
-M = 0
-N = 0
-BLOCK_SIZE = 0
-STRIDE = 0
-
 
 class MAD(FullReferenceMetricsInterface):
     """Class to calculate the most apparent distortion (MAD) between two images.
@@ -493,17 +487,12 @@ def most_apparent_distortion(
     # No License attached to the original code.
     # Permission to use the code was granted by Eric Larson.
 
-    # Set global variables
-    global M, N
-    M, N = img_r.shape
-    global BLOCK_SIZE, STRIDE
-    if block_size > M or block_size > N:
+    if block_size > min(img_r.shape):
         raise ValueError("block_size must be smaller than the image dimensions.")
     elif block_size > 0:
-        BLOCK_SIZE = block_size
         if block_overlap >= 1 or block_overlap < 0:
             raise ValueError("block_overlap must be between 0 and smaller than 1.")
-        STRIDE = BLOCK_SIZE - int(block_overlap * BLOCK_SIZE)
+        stride = block_size - int(block_overlap * block_size)
     else:
         raise ValueError("block_size must be positive.")
 
@@ -524,9 +513,18 @@ def most_apparent_distortion(
             )
 
     # Hiqh quality index
-    d_detect = _high_quality(img_r, img_m, data_range=data_range, **kwargs)
+    d_detect = _high_quality(
+        img_r,
+        img_m,
+        data_range=data_range,
+        block_size=block_size,
+        stride=stride,
+        **kwargs,
+    )
     # Low quality index
-    d_appear = _low_quality(img_r, img_m, **kwargs)
+    d_appear = _low_quality(
+        img_r, img_m, block_size=block_size, stride=stride, **kwargs
+    )
 
     # Combine single metrics with weighting
     alpha = 1 / (1 + beta_1 * d_detect**beta_2)  # weighting factor
@@ -569,6 +567,9 @@ def _high_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
     # No License attached to the original code.
     # Permission to use the code was granted by Eric Larson.
 
+    rows, cols = img_r.shape
+    block_size = kwargs.pop("block_size", 16)
+    stride = kwargs.pop("stride", 4)
     account_monitor = kwargs.pop("account_monitor", False)
     # Account for display function of monitor
     if account_monitor:
@@ -588,8 +589,8 @@ def _high_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
     csf_function = kwargs.pop("csf_function", {"lambda_csf": 0.114, "f_peak": 7.8909})
     # Calculate contrast sensitivity function
     csf = _contrast_sensitivity_function(
-        M,
-        N,
+        rows,
+        cols,
         cycles_per_degree,
         lambda_csf=csf_function["lambda_csf"],
         f_peak=csf_function["f_peak"],
@@ -616,8 +617,8 @@ def _high_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
     # i_org_blocks = np.fromiter(
     #     _extract_blocks(
     #         i_org,
-    #         block_size=BLOCK_SIZE,
-    #         stride=STRIDE
+    #         block_size=block_size,
+    #         stride=stride
     #     ),
     #     dtype=np.float32,
     #     count=-1
@@ -625,31 +626,31 @@ def _high_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
     # i_err_blocks = np.fromiter(
     #     _extract_blocks(
     #         i_err,
-    #         block_size=BLOCK_SIZE,
-    #         stride=STRIDE
+    #         block_size=block_size,
+    #         stride=stride
     #     ),
     #     dtype=np.float32,
     #     count=-1
     # )
-    i_org_blocks = _extract_blocks(i_org, block_size=BLOCK_SIZE, stride=STRIDE)
-    i_err_blocks = _extract_blocks(i_err, block_size=BLOCK_SIZE, stride=STRIDE)
+    i_org_blocks = _extract_blocks(i_org, block_size=block_size, stride=stride)
+    i_err_blocks = _extract_blocks(i_err, block_size=block_size, stride=stride)
 
     # Calculate local statistics
     mu_org_p = np.mean(i_org_blocks, axis=(1, 2))
     std_err_p = np.std(i_err_blocks, axis=(1, 2), ddof=1)
 
-    # std_org = _min_std(i_org, block_size=BLOCK_SIZE, stride=STRIDE)  # Legacy function
-    std_org = statisticscalc.minstd(i_org, BLOCK_SIZE, STRIDE)
+    # std_org = _min_std(i_org, block_size=block_size, stride=stride)  # Legacy function
+    std_org = statisticscalc.minstd(i_org, block_size, stride)
 
     mu_org = np.zeros(i_org.shape)
     std_err = np.zeros(i_err.shape)
 
     # Assign local statistics to image blocks of size stride x stride
     block_n = 0
-    for x in range(0, i_org.shape[0] - STRIDE * 3, STRIDE):
-        for y in range(0, i_org.shape[1] - STRIDE * 3, STRIDE):
-            mu_org[x : x + STRIDE, y : y + STRIDE] = mu_org_p[block_n]
-            std_err[x : x + STRIDE, y : y + STRIDE] = std_err_p[block_n]
+    for x in range(0, i_org.shape[0] - stride * 3, stride):
+        for y in range(0, i_org.shape[1] - stride * 3, stride):
+            mu_org[x : x + stride, y : y + stride] = mu_org_p[block_n]
+            std_err[x : x + stride, y : y + stride] = std_err_p[block_n]
             block_n += 1
     del mu_org_p, std_err_p  # free memory
 
@@ -688,12 +689,12 @@ def _high_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
     msk /= ms_scale
 
     # Use lum_mse and weight by distortion mask
-    win = np.ones((BLOCK_SIZE, BLOCK_SIZE)) / BLOCK_SIZE**2
+    win = np.ones((block_size, block_size)) / block_size**2
     lum_mse = convolve((_to_float(img_r) - _to_float(img_m)) ** 2, win, mode="reflect")
 
     # Kill the edges
     mp = msk * lum_mse
-    mp2 = mp[BLOCK_SIZE:-BLOCK_SIZE, BLOCK_SIZE:-BLOCK_SIZE]
+    mp2 = mp[block_size:-block_size, block_size:-block_size]
 
     # Calculate high quality index by using the 2-norm
     d_detect = (
@@ -737,6 +738,8 @@ def _low_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
     # No License attached to the original code.
     # Permission to use the code was granted by Eric Larson.
 
+    block_size = kwargs.pop("block_size", 16)
+    stride = kwargs.pop("stride", 4)
     orientations_num = kwargs.pop("orientations_num", 4)
     scales_num = kwargs.pop("scales_num", 5)
     weights = kwargs.pop("weights", [0.5, 0.75, 1, 5, 6])
@@ -765,30 +768,30 @@ def _low_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
     )
 
     # Calculate statistics for each filterband
-    stats = np.zeros((M, N))
+    stats = np.zeros(img_r.shape)
     for scale_n in range(scales_num):
         for orientation_n in range(orientations_num):
             # Legacy function
             # std_ref, skw_ref, krt_ref = _get_statistics(
             #     np.abs(gabor_org[scale_n, orientation_n]),
-            #     block_size=BLOCK_SIZE,
-            #     stride=STRIDE,
+            #     block_size=block_size,
+            #     stride=stride,
             # )
             # std_dst, skw_dst, krt_dst = _get_statistics(
             #     np.abs(gabor_dst[scale_n, orientation_n]),
-            #     block_size=BLOCK_SIZE,
-            #     stride=STRIDE,
+            #     block_size=block_size,
+            #     stride=stride,
             # )
 
             std_ref, skw_ref, krt_ref = statisticscalc.getstatistics(
                 np.abs(gabor_org[scale_n, orientation_n]),
-                BLOCK_SIZE,
-                STRIDE,
+                block_size,
+                stride,
             )
             std_dst, skw_dst, krt_dst = statisticscalc.getstatistics(
                 np.abs(gabor_dst[scale_n, orientation_n]),
-                BLOCK_SIZE,
-                STRIDE,
+                block_size,
+                stride,
             )
             # Combine statistics
             stats += weights[scale_n] * (
@@ -798,7 +801,7 @@ def _low_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
             )
 
     # Kill the edges
-    mp2 = stats[BLOCK_SIZE:-BLOCK_SIZE, BLOCK_SIZE:-BLOCK_SIZE]
+    mp2 = stats[block_size:-block_size, block_size:-block_size]
 
     # Calculate low quality index by using the 2-norm
     d_appear = np.linalg.norm(mp2) / np.sqrt(np.prod(mp2.shape))
-- 
2.43.0


From 9566925d944bd2ea17aa0179dbf7a352b19e41fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:01 +0000
Subject: [PATCH 19/71] fix: MAD misplaces or fails to place blocks for
 overlaps other than 0.75 and odd image sizes

---
 src/viqa/fr_metrics/mad.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viqa/fr_metrics/mad.py b/src/viqa/fr_metrics/mad.py
index 62901bd..7b2826e 100644
--- a/src/viqa/fr_metrics/mad.py
+++ b/src/viqa/fr_metrics/mad.py
@@ -647,8 +647,8 @@ def _high_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
 
     # Assign local statistics to image blocks of size stride x stride
     block_n = 0
-    for x in range(0, i_org.shape[0] - stride * 3, stride):
-        for y in range(0, i_org.shape[1] - stride * 3, stride):
+    for x in range(0, i_org.shape[0] - (block_size - 1), stride):
+        for y in range(0, i_org.shape[1] - (block_size - 1), stride):
             mu_org[x : x + stride, y : y + stride] = mu_org_p[block_n]
             std_err[x : x + stride, y : y + stride] = std_err_p[block_n]
             block_n += 1
-- 
2.43.0


From 7f0091543042d7da6142ba7542ffabdc91fb06ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:01 +0000
Subject: [PATCH 20/71] fix: MAD normalizes the weights of the caller in place

---
 src/viqa/fr_metrics/mad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/fr_metrics/mad.py b/src/viqa/fr_metrics/mad.py
index 7b2826e..4ba1d7d 100644
--- a/src/viqa/fr_metrics/mad.py
+++ b/src/viqa/fr_metrics/mad.py
@@ -743,7 +743,7 @@ def _low_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
     orientations_num = kwargs.pop("orientations_num", 4)
     scales_num = kwargs.pop("scales_num", 5)
     weights = kwargs.pop("weights", [0.5, 0.75, 1, 5, 6])
-    weights /= np.sum(weights)
+    weights = np.asarray(weights) / np.sum(weights)
     if len(weights) != scales_num:
         raise ValueError(f"weights must be of length scales_num ({scales_num}).")
 
-- 
2.43.0


From 96123e8c0e3916c42c4f88456c2ef257a3b9b13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:01 +0000
Subject: [PATCH 21/71] fix: block statistics swap rows and columns and access
 memory out of bounds

---
 src/viqa/fr_metrics/stat_utils/statisticsmodule.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
index e89af3d..65d0fb3 100644
--- a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
+++ b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
@@ -64,8 +64,8 @@ static PyObject
     }
     if (NULL == matin) return NULL;
     // Get dimensions of input array
-    n = dims[0] = matin->dimensions[0];
-    m = dims[1] = matin->dimensions[1];
+    m = dims[0] = matin->dimensions[0];
+    n = dims[1] = matin->dimensions[1];
 
     // Create output arrays
     matout=(PyArrayObject *) PyArray_SimpleNew(2, dims, NPY_DOUBLE);
@@ -155,8 +155,8 @@ static PyObject
     if (NULL == matin) return NULL;
 
     // Get dimensions of input array
-    n = dims[0] = matin->dimensions[0];
-    m = dims[1] = matin->dimensions[1];
+    m = dims[0] = matin->dimensions[0];
+    n = dims[1] = matin->dimensions[1];
 
     // Create output arrays
     stdevout=(PyArrayObject *) PyArray_SimpleNew(2, dims, NPY_DOUBLE);
-- 
2.43.0


From c7505f92b1d2ec38a9937f6204a388ff7b0cf586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:51 +0000
Subject: [PATCH 22/71] fix: block statistics of strided and non-double arrays
 are wrong and leak memory

---
 src/viqa/fr_metrics/stat_utils/statisticsmodule.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
index 65d0fb3..ea12d25 100644
--- a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
+++ b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
@@ -62,6 +62,8 @@ static PyObject
     if (!PyArg_ParseTuple(args, "O!ii", &PyArray_Type, &matin, &iblocksize, &istride)) {
         return NULL;
     }
+    // Copy the input array if it is not a contiguous array of doubles
+    matin=(PyArrayObject *) PyArray_FROM_OTF((PyObject *) matin, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
     if (NULL == matin) return NULL;
     // Get dimensions of input array
     m = dims[0] = matin->dimensions[0];
@@ -134,6 +136,8 @@ static PyObject
     free_Carrayptrs(cin);
     free_Carrayptrs(cout);
     free_Carrayptrs(tmp_data);
+    Py_DECREF(matin);
+    Py_DECREF(tmp);
 
     // Return output array
     return PyArray_Return(matout);
@@ -152,6 +156,8 @@ static PyObject
     if (!PyArg_ParseTuple(args, "O!ii", &PyArray_Type, &matin, &iblocksize, &istride)) {
         return NULL;
     }
+    // Copy the input array if it is not a contiguous array of doubles
+    matin=(PyArrayObject *) PyArray_FROM_OTF((PyObject *) matin, NPY_DOUBLE, NPY_ARRAY_IN_ARRAY);
     if (NULL == matin) return NULL;
 
     // Get dimensions of input array
@@ -224,9 +230,10 @@ static PyObject
     free_Carrayptrs(stdev_data);
     free_Carrayptrs(skw_data);
     free_Carrayptrs(krt_data);
+    Py_DECREF(matin);
 
     // Return output arrays as Python tuple
-    return PyTuple_Pack(3, stdevout, skwout, krtout);
+    return Py_BuildValue("NNN", stdevout, skwout, krtout);
 }
 
 /*
-- 
2.43.0


From 23d234d43f704ce7a718ec3d1a5f9a6bab3d7aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:51 +0000
Subject: [PATCH 23/71] fix: minstd searches the minimum only for the first
 area of the image

---
 src/viqa/fr_metrics/stat_utils/statisticsmodule.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
index ea12d25..621fc30 100644
--- a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
+++ b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
@@ -114,8 +114,8 @@ static PyObject
         for (j = 0; j < n-(iblocksize-1); j += istride) {
             // Look for minimum standard deviation in blocks of size istride x istride
             val = tmp_data[i][j];
-            for (u = i; u < (iblocksize/2); u += (istride+1)) {
-                for (v = j; v < (iblocksize/2); v += (istride+1)) {
+            for (u = i; u < i+(iblocksize/2) && u < m-(iblocksize-1); u += (istride+1)) {
+                for (v = j; v < j+(iblocksize/2) && v < n-(iblocksize-1); v += (istride+1)) {
                     if (tmp_data[u][v] < val)
                     {
                         val = tmp_data[u][v];
-- 
2.43.0


From c8704e00b899197f94f57064c2b785479f43d32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:56 +0000
Subject: [PATCH 24/71] fix: GSM wraps around for unsigned integer images

---
 src/viqa/fr_metrics/gsm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/viqa/fr_metrics/gsm.py b/src/viqa/fr_metrics/gsm.py
index 85556a0..cf42dd8 100644
--- a/src/viqa/fr_metrics/gsm.py
+++ b/src/viqa/fr_metrics/gsm.py
@@ -408,6 +408,10 @@ def gradient_similarity(img_r, img_m, data_range=255, c=200, p=0.1):
     gradients_r = []
     gradients_m = []
 
+    # Integer arithmetic would wrap around
+    img_r = _to_float(img_r)
+    img_m = _to_float(img_m)
+
     if img_r.ndim == 3:
         kernels = KERNELS_3D
     elif img_r.ndim == 2:
-- 
2.43.0


From db050759a18e5ad81a2c9caabd3c2d8bba2d93d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:46 +0000
Subject: [PATCH 25/71] fix: correlate_convolve_abs does not center the kernel
 on the pixel

---
 src/viqa/utils/misc.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/viqa/utils/misc.py b/src/viqa/utils/misc.py
index 5d62515..48b9057 100644
--- a/src/viqa/utils/misc.py
+++ b/src/viqa/utils/misc.py
@@ -122,20 +122,21 @@ def correlate_convolve_abs(
         kernel = np.flip(kernel)  # Flip kernel
 
     kernel_size = kernel.shape[0]  # Get kernel size
+    pad_size = kernel_size // 2  # Center kernel on each pixel
     ndim = len(img.shape)  # Get number of dimensions
 
     # Pad image
     match border_mode:
         case "constant":
-            origin = np.pad(img, kernel_size, mode="constant", constant_values=value)
+            origin = np.pad(img, pad_size, mode="constant", constant_values=value)
         case "reflect":
-            origin = np.pad(img, kernel_size, mode="reflect")
+            origin = np.pad(img, pad_size, mode="reflect")
         case "nearest":
-            origin = np.pad(img, kernel_size, mode="edge")
+            origin = np.pad(img, pad_size, mode="edge")
         case "mirror":
-            origin = np.pad(img, kernel_size, mode="symmetric")
+            origin = np.pad(img, pad_size, mode="symmetric")
         case "wrap":
-            origin = np.pad(img, kernel_size, mode="wrap")
+            origin = np.pad(img, pad_size, mode="wrap")
         case _:
             raise ValueError("Border mode not supported")
 
-- 
2.43.0


From 52b08b32e67c7d02b1a591333a2cedb379f397b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:51 +0000
Subject: [PATCH 26/71] fix: histogram of integer images is not stored

---
 src/viqa/utils/loading.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index 8927492..ad45a3e 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -218,7 +218,7 @@ class ImageArray(np.ndarray):
         self.skewness = skew(self.view(), axis=None)
         self.kurtosis = kurtosis(self.view(), axis=None)
         if self.view().dtype.kind in ["u", "i"]:
-            self.view().histogram = np.histogram(
+            self.histogram = np.histogram(
                 self.view(), bins=np.iinfo(self.view().dtype).max
             )
         else:
-- 
2.43.0


From dd957ed08d86c1ea8e91cdf10d77bc473ce4a50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:51 +0000
Subject: [PATCH 27/71] fix: visualize_3d accepts a slice one beyond the image

---
 src/viqa/utils/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/utils/visualization.py b/src/viqa/utils/visualization.py
index 6af9c00..53942ba 100644
--- a/src/viqa/utils/visualization.py
+++ b/src/viqa/utils/visualization.py
@@ -674,7 +674,7 @@ def visualize_3d(img, slices, export_path=None, **kwargs):
     if img.ndim != 3:
         raise ValueError("The image must be 3D.")
     if not all(
-        -img.shape[i] <= slice_ <= img.shape[i] for i, slice_ in enumerate(slices)
+        -img.shape[i] <= slice_ < img.shape[i] for i, slice_ in enumerate(slices)
     ):
         raise ValueError("The slices are out of bounds.")
 
-- 
2.43.0


From 29d33094a5f3096c82aacc253deafb1e7c8eeb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:09 +0000
Subject: [PATCH 28/71] fix: interactive center selections of different metrics
 overwrite each other

---
 src/viqa/nr_metrics/cnr.py | 19 +++++++++----------
 src/viqa/nr_metrics/snr.py | 38 ++++++++++++++------------------------
 2 files changed, 23 insertions(+), 34 deletions(-)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index d8ee313..36d4129 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -58,10 +58,6 @@ from viqa.utils._module import check_interactive_vis_deps, is_ipython, try_impor
 widgets, has_ipywidgets = try_import("ipywidgets")
 display, has_ipython = try_import("IPython.display", "display")
 
-glob_signal_center = ()
-glob_background_center = ()
-glob_radius = None
-
 FIGSIZE_CNR_2D_ = tuple(f"{val}in" for val in FIGSIZE_CNR_2D)
 FIGSIZE_CNR_3D_ = tuple(f"{val}in" for val in FIGSIZE_CNR_3D)
 
@@ -327,6 +323,11 @@ class CNR(NoReferenceMetricsInterface):
 
         # Prepare visualization functions and widgets
 
+        # Currently selected values of this selection
+        glob_signal_center = ()
+        glob_background_center = ()
+        glob_radius = None
+
         # Define output layout
         def _output_layout(out, figsize_variable):
             figsize = kwargs.get("figsize", figsize_variable)
@@ -337,9 +338,8 @@ class CNR(NoReferenceMetricsInterface):
                 "height": height,
             }
 
-        # Define function to save values from global variables to .parameters attribute
+        # Define function to save values of this selection to .parameters attribute
         def _save_values(_):
-            global glob_signal_center, glob_background_center, glob_radius
             self.parameters.update(
                 {
                     "signal_center": glob_signal_center,
@@ -348,10 +348,10 @@ class CNR(NoReferenceMetricsInterface):
                 }
             )
 
-        # Define function to save values to global variables
+        # Define function to save values of this selection
         def _write_values_to_global(signal_value, background_value, radius_value):
-            # Set global variables
-            global glob_signal_center, glob_background_center, glob_radius
+            # Set variables of this selection
+            nonlocal glob_signal_center, glob_background_center, glob_radius
             glob_signal_center = signal_value
             glob_background_center = background_value
             glob_radius = radius_value
@@ -426,7 +426,6 @@ class CNR(NoReferenceMetricsInterface):
 
         _write_values_to_global(signal_start, background_start, radius_start)
 
-        global glob_signal_center, glob_background_center, glob_radius
         # Check if background_center and signal_center are the right shape for 2d and 3d
         if img.ndim != len(glob_signal_center) or img.ndim != len(
             glob_background_center
diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index efbfa5d..ea10135 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -58,14 +58,6 @@ from viqa.utils._module import check_interactive_vis_deps, is_ipython, try_impor
 widgets, has_ipywidgets = try_import("ipywidgets")
 display, has_ipython = try_import("IPython.display", "display")
 
-glob_signal_center = ()
-glob_radius = None
-glob_region_type = None
-glob_iterations = None
-glob_lower_threshold = None
-glob_upper_threshold = None
-glob_signal = None
-
 
 class SNR(NoReferenceMetricsInterface):
     """Class to calculate the signal-to-noise ratio (SNR) for an image.
@@ -392,6 +384,15 @@ class SNR(NoReferenceMetricsInterface):
 
         # Prepare visualization functions and widgets
 
+        # Currently selected values of this selection
+        glob_signal_center = ()
+        glob_radius = None
+        glob_region_type = None
+        glob_iterations = None
+        glob_lower_threshold = None
+        glob_upper_threshold = None
+        glob_signal = None
+
         # Define output layout
         def _output_layout(out, figsize):
             figsize = list(vis_kwargs.get("figsize", figsize))
@@ -404,16 +405,8 @@ class SNR(NoReferenceMetricsInterface):
                 "height": height,
             }
 
-        # Define function to save values from global variables to .parameters attribute
+        # Define function to save values of this selection to .parameters attribute
         def _save_values(_):
-            global \
-                glob_signal, \
-                glob_signal_center, \
-                glob_radius, \
-                glob_region_type, \
-                glob_iterations, \
-                glob_lower_threshold, \
-                glob_upper_threshold
             if glob_region_type == "full":
                 parameters = {
                     "region_type": glob_region_type,
@@ -455,7 +448,7 @@ class SNR(NoReferenceMetricsInterface):
 
         # Calculate region
         def _calculate_region(_):
-            global \
+            nonlocal \
                 glob_region_type, \
                 glob_signal, \
                 glob_iterations, \
@@ -482,10 +475,10 @@ class SNR(NoReferenceMetricsInterface):
             # TODO: Change to automatic visualization update
             dropdown_region_type.value = "full"
 
-        # Define function to save values to global variables
+        # Define function to save values of this selection
         def _write_values_to_global(signal_value, radius_value, region_type):
-            # Set global variables
-            global glob_signal_center, glob_radius, glob_region_type
+            # Set variables of this selection
+            nonlocal glob_signal_center, glob_radius, glob_region_type
             glob_signal_center = signal_value
             glob_radius = radius_value
             glob_region_type = region_type
@@ -503,7 +496,6 @@ class SNR(NoReferenceMetricsInterface):
 
             _write_values_to_global(signal_center, radius, region_type)
 
-            global glob_signal
             _visualize_snr_2d(
                 img=img,
                 signal_center=signal_center,
@@ -530,7 +522,6 @@ class SNR(NoReferenceMetricsInterface):
 
             _write_values_to_global(signal_center, radius, region_type)
 
-            global glob_signal
             _visualize_snr_3d(
                 img=img,
                 signal_center=signal_center,
@@ -592,7 +583,6 @@ class SNR(NoReferenceMetricsInterface):
 
         _write_values_to_global(signal_start, radius_start, region_type_start)
 
-        global glob_signal_center, glob_radius, glob_region_type
         # Check if background_center and signal_center are the right shape for 2d and 3d
         if len(glob_signal_center) != img.ndim:
             raise ValueError("Signal center has to be in the same dimension as img.")
-- 
2.43.0


From 4a74f899c663a1a4779997e20d1fe6d9361d269d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:54 +0000
Subject: [PATCH 29/71] fix: visualizing or setting CNR centers fails without a
 region type

---
 src/viqa/nr_metrics/cnr.py      |  6 ++++++
 src/viqa/utils/visualization.py | 24 ++++++++++++++++--------
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index 36d4129..cd27566 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -230,6 +230,9 @@ class CNR(NoReferenceMetricsInterface):
         _check_border_too_close(signal_center, radius)
         _check_border_too_close(background_center, radius)
 
+        # The type of the regions is drawn as well
+        kwargs.setdefault("region_type", self.parameters.get("region_type", "cubic"))
+
         # Visualize centers
         if img.ndim == 3 and img.shape[-1] != 3:  # 3D image
             _visualize_cnr_3d(
@@ -321,6 +324,9 @@ class CNR(NoReferenceMetricsInterface):
         # Load image
         img = self.load_images(img)
 
+        # The type of the regions is drawn as well
+        kwargs.setdefault("region_type", self.parameters.get("region_type", "cubic"))
+
         # Prepare visualization functions and widgets
 
         # Currently selected values of this selection
diff --git a/src/viqa/utils/visualization.py b/src/viqa/utils/visualization.py
index 53942ba..d508b4f 100644
--- a/src/viqa/utils/visualization.py
+++ b/src/viqa/utils/visualization.py
@@ -82,7 +82,8 @@ def _visualize_cnr_2d(
             edgecolor="#ca0020",
             facecolor="none",
         )
-
+    else:
+        patch_1 = None
     if patch_1:
         axs[0].add_patch(patch_1)
 
@@ -112,7 +113,8 @@ def _visualize_cnr_2d(
             edgecolor="#0571b0",
             facecolor="none",
         )
-
+    else:
+        patch_2 = None
     if patch_2:
         axs[1].add_patch(patch_2)
 
@@ -168,7 +170,8 @@ def _visualize_cnr_3d(
             edgecolor="#ffffbf",
             facecolor="none",
         )
-
+    else:
+        patch_1 = None
     if patch_1:
         axs[0][0].add_patch(patch_1)
 
@@ -200,7 +203,8 @@ def _visualize_cnr_3d(
             edgecolor="#ffffbf",
             facecolor="none",
         )
-
+    else:
+        patch_2 = None
     if patch_2:
         axs[0][1].add_patch(patch_2)
 
@@ -232,7 +236,8 @@ def _visualize_cnr_3d(
             edgecolor="#ffffbf",
             facecolor="none",
         )
-
+    else:
+        patch_3 = None
     if patch_3:
         axs[0][2].add_patch(patch_3)
 
@@ -265,7 +270,8 @@ def _visualize_cnr_3d(
             edgecolor="#abd9e9",
             facecolor="none",
         )
-
+    else:
+        patch_4 = None
     if patch_4:
         axs[1][0].add_patch(patch_4)
 
@@ -297,7 +303,8 @@ def _visualize_cnr_3d(
             edgecolor="#abd9e9",
             facecolor="none",
         )
-
+    else:
+        patch_5 = None
     if patch_5:
         axs[1][1].add_patch(patch_5)
 
@@ -329,7 +336,8 @@ def _visualize_cnr_3d(
             edgecolor="#abd9e9",
             facecolor="none",
         )
-
+    else:
+        patch_6 = None
     if patch_6:
         axs[1][2].add_patch(patch_6)
 
-- 
2.43.0


From d1b4ad4c980f396e83eb9bdaebc9dc1b251f8717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:18 +0000
Subject: [PATCH 30/71] fix: 2D CNR/SNR visualizations mark the transposed
 region in a mirrored image

---
 src/viqa/utils/visualization.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/viqa/utils/visualization.py b/src/viqa/utils/visualization.py
index d508b4f..55e9424 100644
--- a/src/viqa/utils/visualization.py
+++ b/src/viqa/utils/visualization.py
@@ -65,8 +65,8 @@ def _visualize_cnr_2d(
     if region_type in ["cubic", "cube", "square"]:
         patch_1 = patches.Rectangle(
             (
-                background_center[0] - radius,
                 background_center[1] - radius,
+                background_center[0] - radius,
             ),
             radius * 2,
             radius * 2,
@@ -76,7 +76,7 @@ def _visualize_cnr_2d(
         )
     elif region_type in ["spherical", "sphere", "circle"]:
         patch_1 = patches.Circle(
-            (background_center[0], background_center[1]),
+            (background_center[1], background_center[0]),
             radius,
             linewidth=1,
             edgecolor="#ca0020",
@@ -87,7 +87,7 @@ def _visualize_cnr_2d(
     if patch_1:
         axs[0].add_patch(patch_1)
 
-    axs[1].imshow(img[..., ::-1], cmap="gray")
+    axs[1].imshow(img, cmap="gray")
     axs[1].set_title("Signal")
     axs[1].set_xlabel("x")
     axs[1].set_ylabel("y")
@@ -96,8 +96,8 @@ def _visualize_cnr_2d(
     if region_type in ["cubic", "cube", "square"]:
         patch_2 = patches.Rectangle(
             (
-                signal_center[0] - radius,
                 signal_center[1] - radius,
+                signal_center[0] - radius,
             ),
             radius * 2,
             radius * 2,
@@ -107,7 +107,7 @@ def _visualize_cnr_2d(
         )
     elif region_type in ["spherical", "sphere", "circle"]:
         patch_2 = patches.Circle(
-            (signal_center[0], signal_center[1]),
+            (signal_center[1], signal_center[0]),
             radius,
             linewidth=1,
             edgecolor="#0571b0",
@@ -380,7 +380,7 @@ def _visualize_snr_2d(
     fig, ax = plt.subplots(1, 1, figsize=figsize, dpi=dpi)
     fig.suptitle("Signal Region for SNR Calculation", y=0.92)
 
-    ax.imshow(img[..., ::-1], cmap="gray")
+    ax.imshow(img, cmap="gray")
 
     if region_type == "full":
         ax.imshow(signal, cmap="viridis", alpha=0.5)
@@ -392,8 +392,8 @@ def _visualize_snr_2d(
     if region_type in ["cubic", "cube", "square"]:
         patch = patches.Rectangle(
             (
-                signal_center[0] - radius,
                 signal_center[1] - radius,
+                signal_center[0] - radius,
             ),
             radius * 2,
             radius * 2,
@@ -403,7 +403,7 @@ def _visualize_snr_2d(
         )
     elif region_type in ["spherical", "sphere", "circle"]:
         patch = patches.Circle(
-            (signal_center[0], signal_center[1]),
+            (signal_center[1], signal_center[0]),
             radius,
             linewidth=1,
             edgecolor="#0571b0",
-- 
2.43.0


From 755b8c25f9d41bcb86361ed9ada9d7be45ae3d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:18 +0000
Subject: [PATCH 31/71] fix: changing the radius in a 2D SNR selection fails

---
 src/viqa/nr_metrics/snr.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index ea10135..89cc77e 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -652,11 +652,9 @@ class SNR(NoReferenceMetricsInterface):
             slider_signal_center_x.max = img.shape[0] - (change.new + 1)
             slider_signal_center_y.min = change.new + 1
             slider_signal_center_y.max = img.shape[1] - (change.new + 1)
-            try:
+            if slider_signal_center_z is not None:
                 slider_signal_center_z.min = change.new + 1
                 slider_signal_center_z.max = img.shape[2] - (change.new + 1)
-            except NameError:
-                pass
 
         slider_radius.observe(_update_values, "value")
 
-- 
2.43.0


From afcc7eeb9aa77300ab7d9a966373a02eb2e0aa99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:18 +0000
Subject: [PATCH 32/71] fix: SNR centers cannot be set again after a selection
 was saved

---
 src/viqa/nr_metrics/snr.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 89cc77e..851f18a 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -539,16 +539,14 @@ class SNR(NoReferenceMetricsInterface):
 
         # Check if starting parameters are provided
         if "signal_center" not in kwargs.keys():
-            try:
-                signal_start = self.parameters["signal_center"]
-            except KeyError:
+            signal_start = self.parameters.get("signal_center")
+            if signal_start is None:
                 signal_start = center_point
         else:
             signal_start = kwargs.pop("signal_center")
         if "radius" not in kwargs.keys():
-            try:
-                radius_start = self.parameters["radius"]
-            except KeyError:
+            radius_start = self.parameters.get("radius")
+            if radius_start is None:
                 radius_start = 1
         else:
             radius_start = kwargs.pop("radius")
@@ -560,23 +558,20 @@ class SNR(NoReferenceMetricsInterface):
         else:
             region_type_start = kwargs.pop("region_type")
         if "iterations" not in kwargs.keys():
-            try:
-                iterations_start = self.parameters["iterations"]
-            except KeyError:
+            iterations_start = self.parameters.get("iterations")
+            if iterations_start is None:
                 iterations_start = 2
         else:
             iterations_start = kwargs.pop("iterations")
         if "lower_threshold" not in kwargs.keys():
-            try:
-                lower_threshold_start = self.parameters["lower_threshold"]
-            except KeyError:
+            lower_threshold_start = self.parameters.get("lower_threshold")
+            if lower_threshold_start is None:
                 lower_threshold_start = 90
         else:
             lower_threshold_start = kwargs.pop("lower_threshold")
         if "upper_threshold" not in kwargs.keys():
-            try:
-                upper_threshold_start = self.parameters["upper_threshold"]
-            except KeyError:
+            upper_threshold_start = self.parameters.get("upper_threshold")
+            if upper_threshold_start is None:
                 upper_threshold_start = 99
         else:
             upper_threshold_start = kwargs.pop("upper_threshold")
-- 
2.43.0


From b6a226346a4880821d6f6c22f82f2b387e908589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:59 +0000
Subject: [PATCH 33/71] fix: crop and reduce scripts swap width and height of
 non-square slices

---
 src/scripts/crop_image.py         | 2 +-
 src/scripts/reduce_projections.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scripts/crop_image.py b/src/scripts/crop_image.py
index 967a369..24518cc 100644
--- a/src/scripts/crop_image.py
+++ b/src/scripts/crop_image.py
@@ -46,7 +46,7 @@ def load_volume(file, size, bitdepth):
     slices = []
     for i in range(size[2]):
         slice = vol[i * size[0] * size[1] : (i + 1) * size[0] * size[1]]
-        slice = slice.reshape(size[0], size[1])
+        slice = slice.reshape(size[1], size[0])
         slices.append(slice)
     return np.stack(slices, axis=0)
 
diff --git a/src/scripts/reduce_projections.py b/src/scripts/reduce_projections.py
index bf41956..9d70a47 100644
--- a/src/scripts/reduce_projections.py
+++ b/src/scripts/reduce_projections.py
@@ -45,7 +45,7 @@ def load_projection(file, size, bitdepth):
     projections = []
     for i in range(size[2]):
         projection = vol[i * size[0] * size[1] : (i + 1) * size[0] * size[1]]
-        projection = projection.reshape(size[0], size[1])
+        projection = projection.reshape(size[1], size[0])
         projections.append(projection)
     return projections
 
-- 
2.43.0


From dbd6f68dccece94e36b93bfea726d35bece97fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:59 +0000
Subject: [PATCH 34/71] fix: combine_stack transposes the images and stacks
 them in arbitrary order

---
 src/scripts/combine_stack.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/scripts/combine_stack.py b/src/scripts/combine_stack.py
index c6184d3..aafcc6d 100644
--- a/src/scripts/combine_stack.py
+++ b/src/scripts/combine_stack.py
@@ -27,15 +27,16 @@ from viqa.utils.loading import _load_binary, _parse_bitdepth
 
 def combine_image_stack(input_path, size, bitdepth, file_type="raw"):
     """Combine a stack of single images to a volume."""
-    files = glob.glob(os.path.join(input_path, f"*.{file_type}"))
+    files = sorted(glob.glob(os.path.join(input_path, f"*.{file_type}")))
     data_type = _parse_bitdepth(bitdepth)
 
     if len(files) != 0:
         vol = []
         for file in files:
-            vol.append(_load_binary(file, data_type, size))
+            # Order of the axes in the volume file is (z, y, x)
+            vol.append(_load_binary(file, data_type, size).transpose(2, 1, 0))
 
-        vol = np.array(vol)
+        vol = np.concatenate(vol, axis=0)
         return vol
 
 
-- 
2.43.0


From 8a61dfc517e1f64cdc78d47878208d4dfe0a2c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:59 +0000
Subject: [PATCH 35/71] fix: write_to_csv fails without copy argument and for
 existing folders

---
 src/scripts/write_to_csv.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/scripts/write_to_csv.py b/src/scripts/write_to_csv.py
index 1228d99..bf94ca4 100644
--- a/src/scripts/write_to_csv.py
+++ b/src/scripts/write_to_csv.py
@@ -27,15 +27,15 @@ def write_to_csv(path_modified, path_reference, path_csv, copy=False):
     """Write pairs of reference and modified images to a CSV file."""
     if not os.path.exists(path_csv):
         os.makedirs(path_csv)
-        if copy:
-            os.makedirs(os.path.join(path_csv, "images"))
+    if copy:
+        os.makedirs(os.path.join(path_csv, "images"), exist_ok=True)
     with open(os.path.join(path_csv, "pairs.csv"), mode="w", newline="") as file:
         writer = csv.writer(file)
         writer.writerow(["reference_image", "modified_image"])
-        for file_reference in glob.glob(path_reference):
+        for file_reference in sorted(glob.glob(path_reference)):
             filename_reference = os.path.basename(file_reference)
             img_ref_name = filename_reference.split(".")[0]
-            for file_modified in glob.glob(path_modified):
+            for file_modified in sorted(glob.glob(path_modified)):
                 filename_modified = os.path.basename(file_modified)
                 img_mod_name = filename_modified[:3]
                 if img_ref_name == img_mod_name:
@@ -62,7 +62,7 @@ if __name__ == "__main__":
         path_modified = sys.argv[1]
         path_reference = sys.argv[2]
         path_csv = sys.argv[3]
-        if sys.argv[4] == "copy":
+        if len(sys.argv) > 4 and sys.argv[4] == "copy":
             copy = True
             print(
                 f"Copying images from {path_modified} and {path_reference} "
-- 
2.43.0


From 606fc176dccad70b20e2d955c5c4b2d2089fc3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:59 +0000
Subject: [PATCH 36/71] fix: gray values of color images with more than 8 bit
 are clipped to 255

---
 src/viqa/utils/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/utils/misc.py b/src/viqa/utils/misc.py
index 48b9057..739e1ec 100644
--- a/src/viqa/utils/misc.py
+++ b/src/viqa/utils/misc.py
@@ -33,7 +33,7 @@ def _to_grayscale(img):
     """Convert an image to grayscale."""
     img = _to_float(img)
     img_gray = ski.color.rgb2gray(img)
-    img_gray[img_gray > 255] = 255
+    img_gray[img_gray > img.max()] = img.max()  # rounding errors only
     return img_gray
 
 
-- 
2.43.0


From 7d44e0142748b4d7850e4b6c88584ee185c8d6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:59 +0000
Subject: [PATCH 37/71] fix: gray images with a width of three pixels are
 treated as color images

---
 src/viqa/utils/loading.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index ad45a3e..c9af8a6 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -1010,12 +1010,13 @@ def _check_imgs(
 
     if not isinstance(img_r_loaded, list):
         # Check if images are chromatic
-        if chromatic is False and img_r_loaded.shape[-1] == 3:
+        is_color = img_r_loaded.ndim == 3 and img_r_loaded.shape[-1] == 3
+        if chromatic is False and is_color:
             # Convert to grayscale as backup if falsely claimed to be non-chromatic
             warn("Images are chromatic. Converting to grayscale.")
             img_r_loaded = _to_grayscale(img_r_loaded)
             img_m_loaded = _to_grayscale(img_m_loaded)
-        elif chromatic is True and img_r_loaded.shape[-1] != 3:
+        elif chromatic is True and not is_color:
             raise ValueError("Images are not chromatic.")
 
     return img_r_loaded, img_m_loaded
-- 
2.43.0


From 3cc171f70df61dfca2f3ce3295564806b06ae2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:14 +0000
Subject: [PATCH 38/71] fix: CNR/SNR of half float images overflow

---
 src/viqa/nr_metrics/cnr.py | 2 ++
 src/viqa/nr_metrics/snr.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index cd27566..ba58a7a 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -755,6 +755,8 @@ def contrast_to_noise_ratio(
         https://doi.org/10.1117/12.844640
     """
     img = load_data(img, **kwargs)
+    if img.dtype == np.float16:  # sums of a region exceed the range of half floats
+        img = img.astype(np.float32)
 
     if auto_center is True:
         warn(
diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 851f18a..6f9074e 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -968,6 +968,8 @@ def signal_to_noise_ratio(
     .. [2] https://www.imatest.com/docs/color-tone-esfriso-noise/#chromanoise
     """
     img = load_data(img, **kwargs)
+    if img.dtype == np.float16:  # sums of a region exceed the range of half floats
+        img = img.astype(np.float32)
 
     # Auto detect center
     if auto_center is True:
-- 
2.43.0


From 1e20040554d9f75ad16d7005361304aac9ab569e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:06 +0000
Subject: [PATCH 39/71] fix: normalize_data may map the maximum to one below
 the upper limit

---
 src/viqa/utils/loading.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index c9af8a6..a95259c 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -871,11 +871,15 @@ def normalize_data(
         if img_max == img_min:  # Constant image, avoid division by zero
             img = np.zeros_like(img, dtype=np.float64) + data_range_output[0]
         else:
+            is_max = img == img_max
             img = (
                 (img.astype(np.float64) - img_min)
                 * (data_range_output[1] - data_range_output[0])
                 / (img_max - img_min)
             ) + data_range_output[0]
+            # The quotient may be rounded below the upper limit, which would be
+            # truncated to the next smaller integer
+            img[is_max] = data_range_output[1]
 
         # Change data type
         # If data range is 255 (8 bit)
-- 
2.43.0


From a1d1f8a90d013ab44f7129266a7cb37ae7146e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:00 +0000
Subject: [PATCH 40/71] fix: SSIM and UQI treat almost flat windows as
 identical

---
 src/viqa/fr_metrics/ssim.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/viqa/fr_metrics/ssim.py b/src/viqa/fr_metrics/ssim.py
index 16c211e..59bfc9e 100644
--- a/src/viqa/fr_metrics/ssim.py
+++ b/src/viqa/fr_metrics/ssim.py
@@ -390,6 +390,11 @@ def structural_similarity(
     vxy = cov_norm * (uxy - ux * uy)
     del uxy
 
+    # variances of (almost) flat windows may become negative due to rounding
+    vxy[(vx <= 0) | (vy <= 0)] = 0
+    vx = np.maximum(vx, 0)
+    vy = np.maximum(vy, 0)
+
     c_1 = (k_1 * data_range) ** 2
     c_2 = (k_2 * data_range) ** 2
     c_3 = c_2 / 2
-- 
2.43.0


From 849962974da8a320180a65337643ef7d01032933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:43 +0000
Subject: [PATCH 41/71] fix: CNR/SNR of constant regions of float images are
 not zero

---
 src/viqa/nr_metrics/cnr.py | 2 +-
 src/viqa/nr_metrics/snr.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index ba58a7a..b78b338 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -849,7 +849,7 @@ def contrast_to_noise_ratio(
             raise ValueError("Region type not valid.")
 
     # Calculate CNR
-    if np.std(background) == 0:
+    if np.min(background) == np.max(background):  # standard deviation is 0
         cnr_val = 0
     else:
         cnr_val = (np.mean(signal) - np.mean(background)) / np.std(background)
diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 6f9074e..4e46737 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -1048,6 +1048,8 @@ def signal_to_noise_ratio(
                 raise ValueError("Region type not valid.")
 
         sdev = np.std(signal, axis=(0, 1))
+        # avoid rounding errors for constant channels
+        sdev[np.min(signal, axis=(0, 1)) == np.max(signal, axis=(0, 1))] = 0
 
         if yuv:
             snr_val = [
@@ -1086,7 +1088,7 @@ def signal_to_noise_ratio(
             raise ValueError("Region type not valid.")
 
     # Calculate SNR
-    if np.std(signal) == 0:
+    if np.min(signal) == np.max(signal):  # standard deviation is 0
         snr_val = 0
     else:
         snr_val = np.mean(signal) / np.std(signal)
-- 
2.43.0


From fc767b18fca02c0630c74919f26eebc5b3ec2d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:37 +0000
Subject: [PATCH 42/71] fix: statistics of constant blocks suffer from rounding
 errors

The mean of a block of equal values may differ from the value in the last
digit. The deviation was then not zero and skewness and kurtosis were +-1 and 1
instead of 0.
---
 src/viqa/fr_metrics/stat_utils/statisticsmodule.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
index 621fc30..f8824c1 100644
--- a/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
+++ b/src/viqa/fr_metrics/stat_utils/statisticsmodule.c
@@ -55,7 +55,7 @@ static PyObject
     // Declare variables
     PyArrayObject *matin, *matout, *tmp;
     double **cin, **cout, **tmp_data, mean, stdev, val;
-    int iblocksize, istride, i, j, u, v, n, m;
+    int iblocksize, istride, i, j, u, v, n, m, constant;
     npy_intp dims[2];
 
     // Parse input arguments
@@ -83,12 +83,15 @@ static PyObject
         for (j = 0; j < n-(iblocksize-1); j += istride) {
             // Calculate the mean for each block
             mean = 0;
+            constant = 1;
             for (u = i; u < i+iblocksize; u++) {
                 for (v = j; v < j+iblocksize; v++) {
                     mean += cin[u][v];
+                    constant = constant && cin[u][v] == cin[i][j];
                 }
             }
             mean /= pow(iblocksize, 2);
+            if (constant) mean = cin[i][j]; // No rounding errors for constant blocks
 
             // Calculate the standard deviation for each block
             stdev = 0;
@@ -149,7 +152,7 @@ static PyObject
     // Declare variables
     PyArrayObject *matin, *stdevout, *skwout, *krtout;
     double **cin, **stdev_data, **skw_data, **krt_data, tmp, stmp, mean, stdev, krt, skw;
-    int iblocksize, istride, i, j, u, v, n, m;
+    int iblocksize, istride, i, j, u, v, n, m, constant;
     npy_intp dims[2];
 
     // Parse input arguments
@@ -180,12 +183,15 @@ static PyObject
         for (j = 0; j < n-(iblocksize-1); j += istride) {
             // Calculate the mean for each block
             mean = 0;
+            constant = 1;
             for (u=i; u<i+iblocksize; u++) {
                 for (v=j; v<j+iblocksize; v++) {
                     mean += cin[u][v];
+                    constant = constant && cin[u][v] == cin[i][j];
                 }
             }
             mean /= pow((iblocksize), 2);
+            if (constant) mean = cin[i][j]; // No rounding errors for constant blocks
 
             // Calculate the standard deviation, skewness and kurtosis for each block
             stdev = 0;
-- 
2.43.0


From a5a26424269c2124f06acf1fe9f617c0588f8816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:14 +0000
Subject: [PATCH 43/71] fix: masks of type ImageArray cannot be used in where
 arguments

---
 src/viqa/utils/loading.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index a95259c..ad024a0 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -177,6 +177,8 @@ class ImageArray(np.ndarray):
             )
         else:
             outputs = (None,) * ufunc.nout
+        if isinstance(kwargs.get("where"), ImageArray):
+            kwargs["where"] = kwargs["where"].view(np.ndarray)
         # call numpys implementation of __array_ufunc__
         results = super().__array_ufunc__(ufunc, method, *args, **kwargs)
         if results is NotImplemented:
-- 
2.43.0


From a5265ba8b50bf292ace8f6c9df34df8cea5d5126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:47 +0000
Subject: [PATCH 44/71] fix: statistics of 32 bit integer images allocate
 billions of histogram bins

---
 src/viqa/utils/loading.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index ad024a0..11de68f 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -221,7 +221,7 @@ class ImageArray(np.ndarray):
         self.kurtosis = kurtosis(self.view(), axis=None)
         if self.view().dtype.kind in ["u", "i"]:
             self.histogram = np.histogram(
-                self.view(), bins=np.iinfo(self.view().dtype).max
+                self.view(), bins=min(np.iinfo(self.view().dtype).max, 65535)
             )
         else:
             self.histogram = np.histogram(self.view(), bins=255)
-- 
2.43.0


From 0486176c184289362dacea0d9939e02899ef0525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:41 +0000
Subject: [PATCH 45/71] fix: log-Gabor filters are displaced for images with
 odd size

fftshift moves the zero frequency of the filter to the last element of
odd axes, so every filter is applied to the wrong frequencies.
---
 src/viqa/utils/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/viqa/utils/misc.py b/src/viqa/utils/misc.py
index 739e1ec..9aace84 100644
--- a/src/viqa/utils/misc.py
+++ b/src/viqa/utils/misc.py
@@ -409,7 +409,8 @@ def gabor_convolve(
         # filtering
         for scale_n, _scale in enumerate(scales):  # for each scale
             # compute final filter
-            filter_ = fft.fftshift(radial_components[scale_n] * spread)
+            # move zero frequency to the first element, also for odd sizes
+            filter_ = fft.ifftshift(radial_components[scale_n] * spread)
             filter_[0, 0] = 0
 
             # apply filter
-- 
2.43.0


From b000fed6444c9fc825cf6b0dc282b0f7a7e3acf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:26 +0000
Subject: [PATCH 46/71] fix: diagonal 2D gradient kernels of GSM have
 interchanged center rows

The two diagonal kernels did not measure the gradient along the
diagonals, unlike their 3D counterparts and the publication.
---
 src/viqa/kernels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viqa/kernels.py b/src/viqa/kernels.py
index ed1df80..d7f199b 100644
--- a/src/viqa/kernels.py
+++ b/src/viqa/kernels.py
@@ -395,7 +395,7 @@ def gsm_kernel_2d_xy():
         [
             [0, 0, -1, 0, 0],
             [0, 0, -3, -8, 0],
-            [-1, -3, 0, 3, 1],
+            [1, 3, 0, -3, -1],
             [0, 8, 3, 0, 0],
             [0, 0, 1, 0, 0],
         ]
@@ -408,7 +408,7 @@ def gsm_kernel_2d_yx():
         [
             [0, 0, -1, 0, 0],
             [0, -8, -3, 0, 0],
-            [1, 3, 0, -3, -1],
+            [-1, -3, 0, 3, 1],
             [0, 0, 3, 8, 0],
             [0, 0, 1, 0, 0],
         ]
-- 
2.43.0


From fb9246ea9ad225948fb2afe38143d3af365dcbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:55 +0000
Subject: [PATCH 47/71] fix: print_score of MSSSIM, VSI and VIFp does not issue
 the documented warning

---
 src/viqa/fr_metrics/msssim.py | 2 +-
 src/viqa/fr_metrics/vif.py    | 2 +-
 src/viqa/fr_metrics/vsi.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/viqa/fr_metrics/msssim.py b/src/viqa/fr_metrics/msssim.py
index 4abdc69..a300127 100644
--- a/src/viqa/fr_metrics/msssim.py
+++ b/src/viqa/fr_metrics/msssim.py
@@ -304,4 +304,4 @@ class MSSSIM(FullReferenceMetricsInterface):
         if self.score_val is not None:
             print("MS-SSIM: {}".format(np.round(self.score_val, decimals)))
         else:
-            print("No score value for MS-SSIM. Run score() first.")
+            warn("No score value for MS-SSIM. Run score() first.", RuntimeWarning)
diff --git a/src/viqa/fr_metrics/vif.py b/src/viqa/fr_metrics/vif.py
index d51e24d..354012e 100644
--- a/src/viqa/fr_metrics/vif.py
+++ b/src/viqa/fr_metrics/vif.py
@@ -277,4 +277,4 @@ class VIFp(FullReferenceMetricsInterface):
         if self.score_val is not None:
             print("VIFp: {}".format(np.round(self.score_val, decimals)))
         else:
-            print("No score value for VIFp. Run score() first.")
+            warn("No score value for VIFp. Run score() first.", RuntimeWarning)
diff --git a/src/viqa/fr_metrics/vsi.py b/src/viqa/fr_metrics/vsi.py
index 00bcd2d..81a4b47 100644
--- a/src/viqa/fr_metrics/vsi.py
+++ b/src/viqa/fr_metrics/vsi.py
@@ -298,4 +298,4 @@ class VSI(FullReferenceMetricsInterface):
         if self.score_val is not None:
             print("VSI: {}".format(np.round(self.score_val, decimals)))
         else:
-            print("No score value for VSI. Run score() first.")
+            warn("No score value for VSI. Run score() first.", RuntimeWarning)
-- 
2.43.0


From c07c19af84594922ce10fcd520941bf3963b13f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:11 +0000
Subject: [PATCH 48/71] fix: exported visualizations are empty if showing
 closes the figure

Interactive and notebook backends close the figure on show, so it has
to be saved before.
---
 src/viqa/utils/visualization.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/viqa/utils/visualization.py b/src/viqa/utils/visualization.py
index 55e9424..d888dec 100644
--- a/src/viqa/utils/visualization.py
+++ b/src/viqa/utils/visualization.py
@@ -118,10 +118,10 @@ def _visualize_cnr_2d(
     if patch_2:
         axs[1].add_patch(patch_2)
 
-    if show:
-        plt.show()
     if export_path:
         plt.savefig(export_path, bbox_inches="tight", pad_inches=0.5)
+    if show:
+        plt.show()
 
 
 def _visualize_cnr_3d(
@@ -341,10 +341,10 @@ def _visualize_cnr_3d(
     if patch_6:
         axs[1][2].add_patch(patch_6)
 
-    if show:
-        plt.show()
     if export_path:
         plt.savefig(export_path, bbox_inches="tight", pad_inches=0.5)
+    if show:
+        plt.show()
 
 
 def _visualize_snr_2d(
@@ -415,10 +415,10 @@ def _visualize_snr_2d(
     if patch:
         ax.add_patch(patch)
 
-    if show:
-        plt.show()
     if export_path:
         plt.savefig(export_path, bbox_inches="tight", pad_inches=0.5)
+    if show:
+        plt.show()
 
 
 def _visualize_snr_3d(
@@ -574,10 +574,10 @@ def _visualize_snr_3d(
     if patch_3:
         axs[2].add_patch(patch_3)
 
-    if show:
-        plt.show()
     if export_path:
         plt.savefig(export_path, bbox_inches="tight", pad_inches=0.5)
+    if show:
+        plt.show()
 
 
 def _create_slider_widget(**kwargs):
@@ -639,9 +639,9 @@ def visualize_2d(img, export_path=None, **kwargs):
     plt.xlabel("x")
     plt.ylabel("y")
     plt.gca().invert_yaxis()
-    plt.show()
     if export_path:
         plt.savefig(export_path, bbox_inches="tight", pad_inches=0.5)
+    plt.show()
 
 
 def visualize_3d(img, slices, export_path=None, **kwargs):
@@ -719,6 +719,6 @@ def visualize_3d(img, slices, export_path=None, **kwargs):
     axs[2].axvline(x=x, color="#1b9e77", linestyle="--")
     axs[2].set_title(f"z-axis, slice: {z}", c="#7570b3")
 
-    plt.show()
     if export_path:
         plt.savefig(export_path, bbox_inches="tight", pad_inches=0.5)
+    plt.show()
-- 
2.43.0


From c6529111fb66868f5ec9de505c10576a1c94cdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:11 +0000
Subject: [PATCH 49/71] fix: visualize_3d marks negative slices outside of the
 image

---
 src/viqa/utils/visualization.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/viqa/utils/visualization.py b/src/viqa/utils/visualization.py
index d888dec..87f31c1 100644
--- a/src/viqa/utils/visualization.py
+++ b/src/viqa/utils/visualization.py
@@ -686,9 +686,8 @@ def visualize_3d(img, slices, export_path=None, **kwargs):
     ):
         raise ValueError("The slices are out of bounds.")
 
-    x = slices[0]
-    y = slices[1]
-    z = slices[2]
+    # Negative slices count from the end
+    x, y, z = (slice_ % n for slice_, n in zip(slices, img.shape))
 
     figsize = kwargs.pop("figsize", (14, 6))
     dpi = kwargs.pop("dpi", 300)
-- 
2.43.0


From 59dd2555950f1bcd16c21dbd6c745cc6561bbf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:11 +0000
Subject: [PATCH 50/71] fix: color images cannot be visualized

---
 src/viqa/utils/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/utils/visualization.py b/src/viqa/utils/visualization.py
index 87f31c1..3602378 100644
--- a/src/viqa/utils/visualization.py
+++ b/src/viqa/utils/visualization.py
@@ -625,7 +625,7 @@ def visualize_2d(img, export_path=None, **kwargs):
     -------
     None
     """
-    if img.ndim != 2:
+    if not (img.ndim == 2 or (img.ndim == 3 and img.shape[-1] == 3)):
         raise ValueError("The image must be 2D.")
 
     figsize = kwargs.pop("figsize", (6, 6))
-- 
2.43.0


From 375d4b46981f68e3f6c3cbaef59f2ebfc67da194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:11 +0000
Subject: [PATCH 51/71] fix: export_image accepts several axes if their slices
 are equal

---
 src/viqa/utils/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/utils/export.py b/src/viqa/utils/export.py
index 7ed0f1d..be326ec 100644
--- a/src/viqa/utils/export.py
+++ b/src/viqa/utils/export.py
@@ -229,7 +229,7 @@ def export_image(
     elif img_r.ndim == 3:
         if {x, y, z} == {None}:
             raise ValueError("One axis must be specified")
-        if len({x, y, z} - {None}) != 1:
+        if sum(axis is not None for axis in (x, y, z)) != 1:
             raise ValueError("Only one axis can be specified")
 
         # For 3D images, plot the specified area
-- 
2.43.0


From 634796f3c1523f572c9def9f8df8a5292e561328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:04 +0000
Subject: [PATCH 52/71] fix: SNR.visualize_centers fails for a given signal
 region

---
 src/viqa/nr_metrics/snr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 4e46737..2b101b1 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -226,7 +226,7 @@ class SNR(NoReferenceMetricsInterface):
                 region_type = self.parameters["region_type"]
             except KeyError:
                 raise ValueError("No region type provided.") from None
-        if not signal:
+        if signal is None:
             try:
                 signal = self._region
             except AttributeError:
-- 
2.43.0


From 55ed1f5487ffee0080db5dc2c1721a7d887c26a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:04 +0000
Subject: [PATCH 53/71] fix: SNR region is visualized at the wrong center after
 a full region was set

The region stored by an earlier selection made visualize_centers ignore
the stored center and radius of cubic and spherical regions.
---
 src/viqa/nr_metrics/snr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 2b101b1..f123eb9 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -232,7 +232,7 @@ class SNR(NoReferenceMetricsInterface):
             except AttributeError:
                 signal = None
 
-        if signal is None and region_type not in {"full", "original"}:
+        if region_type not in {"full", "original"}:
             if not signal_center:
                 try:
                     signal_center = self.parameters["signal_center"]
-- 
2.43.0


From 411ae6410693f3fe216bf05b5320c624cb08a9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:46 +0000
Subject: [PATCH 54/71] fix: CNR.set_centers fails for given starting points if
 centers are stored

---
 src/viqa/nr_metrics/cnr.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index b78b338..c2ce971 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -418,6 +418,10 @@ class CNR(NoReferenceMetricsInterface):
             img = _to_grayscale(img)
 
         center_point = tuple(val // 2 for val in img.shape)
+        # Starting points
+        background_start = kwargs.pop("background_center", center_point)
+        signal_start = kwargs.pop("signal_center", center_point)
+        radius_start = kwargs.pop("radius", 1)
         # Check if background_center and signal_center are provided
         if {"background_center", "signal_center", "radius"}.issubset(
             self.parameters.keys()
@@ -425,10 +429,6 @@ class CNR(NoReferenceMetricsInterface):
             background_start = self.parameters["background_center"]
             signal_start = self.parameters["signal_center"]
             radius_start = self.parameters["radius"]
-        else:
-            background_start = kwargs.pop("background_center", center_point)
-            signal_start = kwargs.pop("signal_center", center_point)
-            radius_start = kwargs.pop("radius", 1)
 
         _write_values_to_global(signal_start, background_start, radius_start)
 
-- 
2.43.0


From da6ffc68f5ab772dda7a492abc67458b5c8cad1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:46 +0000
Subject: [PATCH 55/71] fix: largest radius of the interactive center selection
 fails

The sliders for the center have no valid range for a radius of half of
the image size.
---
 src/viqa/nr_metrics/cnr.py | 2 +-
 src/viqa/nr_metrics/snr.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index c2ce971..5a9005d 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -452,7 +452,7 @@ class CNR(NoReferenceMetricsInterface):
 
         # Create slider for radius
         slider_radius = _create_slider_widget(
-            max=min(img.shape) // 2,
+            max=min(img.shape) // 2 - 1,
             min=1,
             value=radius_start,
             description="Radius",
diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index f123eb9..4e5122b 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -611,7 +611,7 @@ class SNR(NoReferenceMetricsInterface):
 
         # Create slider for radius
         slider_radius = _create_slider_widget(
-            max=min(img.shape) // 2,
+            max=min(img.shape) // 2 - 1,
             min=1,
             value=radius_start,
             description="Radius",
-- 
2.43.0


From a41c9a9c3ee68f725eda2c35430f84dcc6b597b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:46 +0000
Subject: [PATCH 56/71] fix: interactive SNR selection calculates another
 region than the score

The full region was calculated with the region type selected before.
---
 src/viqa/nr_metrics/snr.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 4e5122b..559edab 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -449,7 +449,6 @@ class SNR(NoReferenceMetricsInterface):
         # Calculate region
         def _calculate_region(_):
             nonlocal \
-                glob_region_type, \
                 glob_signal, \
                 glob_iterations, \
                 glob_lower_threshold, \
@@ -464,7 +463,7 @@ class SNR(NoReferenceMetricsInterface):
 
             _, _, signal_region = find_largest_region(
                 img=binary_foreground,
-                region_type=glob_region_type,
+                region_type="full",
                 iterations=iterations_slider.value,
             )
 
-- 
2.43.0


From 5c7aeb231b2f941a4cdfd58429274d23989800b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:00 +0000
Subject: [PATCH 57/71] fix: opening an SNR selection again discards the stored
 full region

Iterations, thresholds and the region itself were overwritten with None.
---
 src/viqa/nr_metrics/snr.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 559edab..45b571c 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -576,6 +576,13 @@ class SNR(NoReferenceMetricsInterface):
             upper_threshold_start = kwargs.pop("upper_threshold")
 
         _write_values_to_global(signal_start, radius_start, region_type_start)
+        glob_iterations = iterations_start
+        glob_lower_threshold = lower_threshold_start
+        glob_upper_threshold = upper_threshold_start
+        # Keep the region of an earlier selection in an image of this size
+        region = getattr(self, "_region", None)
+        if region is not None and region.shape == img.shape:
+            glob_signal = region
 
         # Check if background_center and signal_center are the right shape for 2d and 3d
         if len(glob_signal_center) != img.ndim:
-- 
2.43.0


From 83a0ff012739c33a53936692a0579bc9ac666ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:02 +0000
Subject: [PATCH 58/71] fix: reduce_projections fails for output files in the
 working directory

---
 src/scripts/reduce_projections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scripts/reduce_projections.py b/src/scripts/reduce_projections.py
index 9d70a47..4958edc 100644
--- a/src/scripts/reduce_projections.py
+++ b/src/scripts/reduce_projections.py
@@ -63,7 +63,7 @@ def get_n_projections(slices, reducing_factor):
 def save_volume(output, vol, bitdepth):
     """Save the volume to a binary file."""
     output_folder = os.path.dirname(output)
-    if not os.path.exists(output_folder):
+    if output_folder and not os.path.exists(output_folder):
         os.makedirs(output_folder)
     data_type = _parse_bitdepth(bitdepth)
     vol = vol.astype(data_type)
-- 
2.43.0


From 0d446a01d7fd6696ebc8287451983d67b50cd924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:06 +0000
Subject: [PATCH 59/71] fix: MAD fails if only one parameter of the contrast
 sensitivity function is given

---
 src/viqa/fr_metrics/mad.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/viqa/fr_metrics/mad.py b/src/viqa/fr_metrics/mad.py
index 4ba1d7d..173f0d2 100644
--- a/src/viqa/fr_metrics/mad.py
+++ b/src/viqa/fr_metrics/mad.py
@@ -592,8 +592,7 @@ def _high_quality(img_r: np.ndarray, img_m: np.ndarray, **kwargs) -> float:
         rows,
         cols,
         cycles_per_degree,
-        lambda_csf=csf_function["lambda_csf"],
-        f_peak=csf_function["f_peak"],
+        **csf_function,
     )
 
     # Convert to perceived lightness
-- 
2.43.0


From ede2c7efb0d048d93cf9c6667dd681139206b3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:07 +0000
Subject: [PATCH 60/71] fix: Q-Measure reads double and non-contiguous volumes
 as contiguous single precision data

---
 src/viqa/nr_metrics/qmeasure.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/viqa/nr_metrics/qmeasure.py b/src/viqa/nr_metrics/qmeasure.py
index 27602b3..4ab1dc0 100644
--- a/src/viqa/nr_metrics/qmeasure.py
+++ b/src/viqa/nr_metrics/qmeasure.py
@@ -43,7 +43,6 @@ import numpy as np
 
 from viqa._metrics import NoReferenceMetricsInterface
 from viqa.nr_metrics.qmeasure_utils import qmeasurecalc
-from viqa.utils import _to_float
 
 
 class QMeasure(NoReferenceMetricsInterface):
@@ -140,7 +139,7 @@ class QMeasure(NoReferenceMetricsInterface):
             )
 
         # Convert to float and get min and max values
-        img = _to_float(img, np.float32)
+        img = np.ascontiguousarray(img, dtype=np.float32)
         img_min = int(img.min())
         img_max = int(img.max())
 
-- 
2.43.0


From 10453e4e2f17be838f0b014365bcce7f147baf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:32 +0000
Subject: [PATCH 61/71] fix: RMSE and PSNR overflow for single precision images
 with large values

---
 src/viqa/fr_metrics/psnr.py | 5 ++++-
 src/viqa/fr_metrics/rmse.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/viqa/fr_metrics/psnr.py b/src/viqa/fr_metrics/psnr.py
index 1796098..265c48c 100644
--- a/src/viqa/fr_metrics/psnr.py
+++ b/src/viqa/fr_metrics/psnr.py
@@ -122,8 +122,11 @@ class PSNR(FullReferenceMetricsInterface):
         if np.array_equal(img_r, img_m):
             score_val = np.inf  # PSNR of identical images is infinity
         else:
+            # Double precision prevents an overflow of the squared differences
             score_val = peak_signal_noise_ratio(
-                img_r, img_m, data_range=self.parameters["data_range"]
+                img_r.astype(np.float64),
+                img_m.astype(np.float64),
+                data_range=self.parameters["data_range"],
             )
         self.score_val = score_val
         return score_val
diff --git a/src/viqa/fr_metrics/rmse.py b/src/viqa/fr_metrics/rmse.py
index 23415b7..43b57b4 100644
--- a/src/viqa/fr_metrics/rmse.py
+++ b/src/viqa/fr_metrics/rmse.py
@@ -107,7 +107,10 @@ class RMSE(FullReferenceMetricsInterface):
         img_r, img_m = self.load_images(img_r, img_m)
 
         # Calculate score
-        score_val = np.sqrt(mean_squared_error(img_r, img_m))
+        # Double precision prevents an overflow of the squared differences
+        score_val = np.sqrt(
+            mean_squared_error(img_r.astype(np.float64), img_m.astype(np.float64))
+        )
         self.score_val = score_val
         return score_val
 
-- 
2.43.0


From 3ccf78ce788337ad674c3dfd3ff63bcbac1ffd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:06 +0000
Subject: [PATCH 62/71] fix: CNR.visualize_centers ignores given values if
 others are taken from the parameters

---
 src/viqa/nr_metrics/cnr.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/viqa/nr_metrics/cnr.py b/src/viqa/nr_metrics/cnr.py
index 5a9005d..255ef22 100644
--- a/src/viqa/nr_metrics/cnr.py
+++ b/src/viqa/nr_metrics/cnr.py
@@ -200,15 +200,17 @@ class CNR(NoReferenceMetricsInterface):
         # Load image
         img = self.load_images(img)
 
-        if not signal_center or not background_center or not radius:
-            if not {"signal_center", "background_center", "radius"}.issubset(
-                self.parameters.keys()
-            ):
-                raise ValueError("No center or radius provided.")
-
-            signal_center = self.parameters["signal_center"]
-            background_center = self.parameters["background_center"]
-            radius = self.parameters["radius"]
+        # Use the stored values for everything that is not given
+        given = {
+            "signal_center": signal_center,
+            "background_center": background_center,
+            "radius": radius,
+        }
+        missing = {key for key, val in given.items() if not val}
+        if not missing.issubset(self.parameters.keys()):
+            raise ValueError("No center or radius provided.")
+        given.update({key: self.parameters[key] for key in missing})
+        signal_center, background_center, radius = given.values()
 
         # Check if img and signal_center have the same dimension
         if img.shape[-1] == 3:
-- 
2.43.0


From a0b167558f9e31bbefb04db84de0c8aa4f44e2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:50 +0000
Subject: [PATCH 63/71] fix: BatchMetrics accepts an empty list of ROIs for a
 list of pairs and fails only when calculating

---
 src/viqa/multiple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/multiple.py b/src/viqa/multiple.py
index 109659a..2f79824 100644
--- a/src/viqa/multiple.py
+++ b/src/viqa/multiple.py
@@ -205,7 +205,7 @@ class BatchMetrics(_MultipleInterface):
         self.file_dir = file_dir
         self.pairs_file = pairs_file
         self.pairs = _read_pairs(self.pairs_file)
-        if rois and len(self.pairs) != len(rois):
+        if rois is not None and len(self.pairs) != len(rois):
             raise ValueError(
                 "The number of pairs and ROIs must be equal. "
                 f"Got {len(self.pairs)} pairs and {len(rois)} ROIs."
-- 
2.43.0


From 34d8b269a06208537dd698485f0cf57147f810ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:50 +0000
Subject: [PATCH 64/71] fix: load_data silently skips the normalization for a
 data range of 0

---
 src/viqa/utils/loading.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index 11de68f..e88c9dd 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -759,7 +759,7 @@ def load_data(
             )
 
     # Normalize data
-    if normalize and data_range:
+    if normalize:
         # TODO: Deprecate in version 4.0.0
         if batch:
             img_arr = [
-- 
2.43.0


From 340a01cd6ca1078ac4a854155321ab4bd3b1a153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:01 +0000
Subject: [PATCH 65/71] fix: load_mhd raises a KeyError instead of a ValueError
 for incomplete headers

---
 src/viqa/utils/loading.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index e88c9dd..1111253 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -440,6 +440,9 @@ def load_mhd(file_dir: str | os.PathLike, file_name: str | os.PathLike) -> np.nd
         if line.strip()
         for key, value in [line.split("=", 1)]
     }
+    for key in ("ElementDataFile", "DimSize", "ElementType"):
+        if key not in file_header:
+            raise ValueError(f"No {key} found in header file")
 
     data_file_path = os.path.join(
         file_dir, file_header["ElementDataFile"]
-- 
2.43.0


From 33d76ecc1f8ebfae6aa3749a687ce746b2ef0cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:01 +0000
Subject: [PATCH 66/71] fix: load_data takes any gzipped file with nii
 somewhere in its name for a NIfTI file

---
 src/viqa/utils/loading.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index 1111253..9c163f5 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -380,7 +380,7 @@ def _load_data_from_disk(file_dir: str | os.PathLike, file_name: str) -> ImageAr
         img_arr = load_nifti(file_path)
         return ImageArray(img_arr)
     elif file_ext == ".gz":
-        if re.search(".nii", file_name):
+        if file_name.endswith(".nii.gz"):
             img_arr = load_nifti(file_path)
             return ImageArray(img_arr)
         else:
-- 
2.43.0


From 8fffdc6c28d42314bc46acb5dc7090b1e1658995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:21 +0000
Subject: [PATCH 67/71] fix: gradient_similarity_3d iterates over another
 dimension than documented by default

---
 src/viqa/fr_metrics/gsm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/fr_metrics/gsm.py b/src/viqa/fr_metrics/gsm.py
index cf42dd8..447fc20 100644
--- a/src/viqa/fr_metrics/gsm.py
+++ b/src/viqa/fr_metrics/gsm.py
@@ -274,7 +274,7 @@ class GSM(FullReferenceMetricsInterface):
             warn("No score value for GSM. Run score() first.", RuntimeWarning)
 
 
-def gradient_similarity_3d(img_r, img_m, dim=0, experimental=False, **kwargs):
+def gradient_similarity_3d(img_r, img_m, dim=2, experimental=False, **kwargs):
     """Calculate the gradient similarity (GSM) between two 3D images.
 
     Parameters
-- 
2.43.0


From d87a9aa70252d310b897f047aa78f32304f23f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:01 +0000
Subject: [PATCH 68/71] fix: report fails without file_path instead of writing
 to the working directory

---
 src/viqa/multiple.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/viqa/multiple.py b/src/viqa/multiple.py
index 2f79824..173fcac 100644
--- a/src/viqa/multiple.py
+++ b/src/viqa/multiple.py
@@ -348,6 +348,9 @@ class BatchMetrics(_MultipleInterface):
         y = kwargs.pop("y", None)
         z = kwargs.pop("z", None)
 
+        if file_path is None:
+            file_path = "."
+
         if csv:
             self.export_results(
                 file_path=file_path,
@@ -579,6 +582,9 @@ class MultipleMetrics(_MultipleInterface):
         y = kwargs.pop("y", None)
         z = kwargs.pop("z", None)
 
+        if file_path is None:
+            file_path = "."
+
         if export_image_:
             img_file_path = file_path
         else:
-- 
2.43.0


From 42a781eddf6ecb705682938db99c8490b2ab5646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:01 +0000
Subject: [PATCH 69/71] fix: report of a batch ignores additional parameters
 for the images

---
 src/viqa/multiple.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/viqa/multiple.py b/src/viqa/multiple.py
index 173fcac..8d43a2f 100644
--- a/src/viqa/multiple.py
+++ b/src/viqa/multiple.py
@@ -370,6 +370,7 @@ class BatchMetrics(_MultipleInterface):
                 ),
             )
         if image:
+            kwargs.pop("roi", None)  # Regions of the calculation are used
             roi = self.global_roi
             for pair_num, pair in enumerate(tqdm(self.pairs)):
                 img_r = os.path.join(self.file_dir, pair["reference_image"])
@@ -391,6 +392,7 @@ class BatchMetrics(_MultipleInterface):
                     y=y,
                     z=z,
                     roi=roi,
+                    **kwargs,
                 )
 
     def export_results(self, file_path=".", file_name="results.csv"):
-- 
2.43.0


From 9618a4ea3843076843d00f088a4356eca4ea62e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:21 +0000
Subject: [PATCH 70/71] fix: SNR.set_centers outside of a notebook ignores the
 given center, radius and region type

---
 src/viqa/nr_metrics/snr.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/viqa/nr_metrics/snr.py b/src/viqa/nr_metrics/snr.py
index 45b571c..83cab36 100644
--- a/src/viqa/nr_metrics/snr.py
+++ b/src/viqa/nr_metrics/snr.py
@@ -371,7 +371,12 @@ class SNR(NoReferenceMetricsInterface):
         if not is_ipython():
             try:
                 warn("Trying to visualize in a non-interactive environment.")
-                self.visualize_centers(img, **vis_kwargs)
+                start = {
+                    key: kwargs[key]
+                    for key in ("signal_center", "radius", "region_type")
+                    if key in kwargs
+                }
+                self.visualize_centers(img, **{**start, **vis_kwargs})
                 return
             except Exception:
                 raise ImportError(
-- 
2.43.0


From 1df4c5113e03b39d2db165a0bf7f08c947c31a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:53 +0000
Subject: [PATCH 71/71] fix: images loaded from uncompressed NIfTI files change
 with the file

---
 src/viqa/utils/loading.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viqa/utils/loading.py b/src/viqa/utils/loading.py
index 9c163f5..644f57e 100644
--- a/src/viqa/utils/loading.py
+++ b/src/viqa/utils/loading.py
@@ -589,7 +589,7 @@ def load_nifti(file_path: str | os.PathLike) -> np.ndarray:
     -----
     This function wraps the nibabel function :py:func:`nibabel.loadsave.load`.
     """
-    img = nib.load(file_path)
+    img = nib.load(file_path, mmap=False)  # Independent of later changes to the file
     img_arr = img.get_fdata()  # type: ignore[attr-defined]
     return img_arr
 
-- 
2.43.0

