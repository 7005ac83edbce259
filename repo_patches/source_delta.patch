From 7e6a3773b6b6e895a9bb6ee3c11fee914ca8d1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:32 +0000
Subject: [PATCH 01/16] fix: return flags when the original psf fit fails

The failure branch left g1, g2 undefined and tripped the navg assertion,
so a failed psf fit crashed instead of setting PSF_FAILURE.
---
 metadetect/lsst/metadetect.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/metadetect/lsst/metadetect.py b/metadetect/lsst/metadetect.py
index 2bc7deb..6138304 100644
--- a/metadetect/lsst/metadetect.py
+++ b/metadetect/lsst/metadetect.py
@@ -635,13 +635,15 @@ def fit_original_psfs_mbexp(mbexp, rng, wgts, config):
         flags = procflags.PSF_FAILURE
         e1 = -9999.0
         e2 = -9999.0
+        g1 = -9999.0
+        g2 = -9999.0
         T = -9999.0
 
         perband = None
-
-    assert navg == len(shear_band_indices), (
-        f'summed {navg} but expected {len(shear_band_indices)}'
-    )
+    else:
+        assert navg == len(shear_band_indices), (
+            f'summed {navg} but expected {len(shear_band_indices)}'
+        )
 
     return {
         'flags': flags,
-- 
2.43.0


From 26dcfa1798de454fb33dbae5e21b318db0c270f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:32 +0000
Subject: [PATCH 02/16] fix: index the mfrac image as [row, col]

The stamp was cut out with x and y swapped, so masked fractions were
measured at the transposed position.
---
 metadetect/lsst/metadetect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadetect/lsst/metadetect.py b/metadetect/lsst/metadetect.py
index 6138304..6fc87a8 100644
--- a/metadetect/lsst/metadetect.py
+++ b/metadetect/lsst/metadetect.py
@@ -408,7 +408,7 @@ def measure_weighted_mfrac(
         if yend > ny:
             yend = ny
 
-        sub_mfrac = mfrac[xstart:xend, ystart:yend]
+        sub_mfrac = mfrac[ystart:yend, xstart:xend]
         if sub_mfrac.size == 0:
             mfracs.append(1.0)
         else:
-- 
2.43.0


From 47a6e31a6661024d855020b692878ea329346b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:32 +0000
Subject: [PATCH 03/16] fix: return three values from DetectAndDeblendTask.run
 when coadding fails

---
 metadetect/lsst/measure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadetect/lsst/measure.py b/metadetect/lsst/measure.py
index e29ddef..e8881fa 100644
--- a/metadetect/lsst/measure.py
+++ b/metadetect/lsst/measure.py
@@ -175,7 +175,7 @@ class DetectAndDeblendTask(Task):
         if len(mbexp.singles) > 1:
             detexp = util.coadd_exposures(mbexp.singles)
             if detexp is None:
-                return [], None
+                return [], None, None
         else:
             detexp = mbexp.singles[0]
 
-- 
2.43.0


From 391642c478004f341ef530ad5b19d653563721b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:32 +0000
Subject: [PATCH 04/16] fix: look up bmask for the source being measured

The bmask list was built for all sources but indexed by the child
enumeration, so children got the bmask of another source.
---
 metadetect/lsst/measure.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/metadetect/lsst/measure.py b/metadetect/lsst/measure.py
index e8881fa..ec955be 100644
--- a/metadetect/lsst/measure.py
+++ b/metadetect/lsst/measure.py
@@ -361,15 +361,13 @@ def measure(
     wcs = mbexp.singles[0].getWcs()
     results = []
 
-    bmasks = get_bmasks(sources=sources, exposure=detexp)
-
     extractor = _get_extractor(
         mbexp=mbexp,
         sources=sources,
         model_data=model_data,
     )
 
-    for i, source in enumerate(extractor.children()):
+    for source in extractor.children():
 
         # perform basic measurements using stack algorithms
         # see DetectAndDeblendConfig for details
@@ -377,7 +375,7 @@ def measure(
 
         source_id = source.getId()
 
-        bmask = bmasks[i]
+        bmask = get_bmask(source=source, exposure=detexp)
 
         stamp_flags = 0
         try:
-- 
2.43.0


From 0c3bb4e462b9ecc618f5ad574f0ec3bedaf50cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:32 +0000
Subject: [PATCH 05/16] fix: use the bands of the MultibandExposure in
 MBObsExtractor.get_stamp

---
 metadetect/lsst/mbobs_extractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadetect/lsst/mbobs_extractor.py b/metadetect/lsst/mbobs_extractor.py
index aeac9ed..9c0882b 100644
--- a/metadetect/lsst/mbobs_extractor.py
+++ b/metadetect/lsst/mbobs_extractor.py
@@ -130,7 +130,7 @@ class MBObsExtractor(object):
             clip=clip,
         )
 
-        exposures = [self.mbexp[band][bbox] for band in self.bands]
+        exposures = [self.mbexp[band][bbox] for band in self.mbexp.bands]
         return util.get_mbexp(exposures)
 
     def get_mbobs(
-- 
2.43.0


From d53afcdb348c5cefc42c6da07e67b7afc8b1c154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:32 +0000
Subject: [PATCH 06/16] fix: ModelSubtractor.footprints holds footprints, not
 (parent_id, footprint)

---
 metadetect/lsst/model_subtractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metadetect/lsst/model_subtractor.py b/metadetect/lsst/model_subtractor.py
index 9548bbb..c566a74 100644
--- a/metadetect/lsst/model_subtractor.py
+++ b/metadetect/lsst/model_subtractor.py
@@ -409,7 +409,7 @@ class ModelSubtractor(object):
                     )
 
         else:
-            parent_id, fp = self.footprints[source_id]
+            fp = self.footprints[source_id]
             bbox = fp.getBBox()
 
         return bbox
-- 
2.43.0


From 9645d6d16ea3f4e03b99eb72a8dbce213cd76d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:57 +0000
Subject: [PATCH 07/16] fix: accept mfrac_mbexp=None

mfrac_mbexp is documented as optional, but leaving it out crashed in zip.
No mfrac means nothing was masked.
---
 metadetect/lsst/metadetect.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/metadetect/lsst/metadetect.py b/metadetect/lsst/metadetect.py
index 6fc87a8..02fa952 100644
--- a/metadetect/lsst/metadetect.py
+++ b/metadetect/lsst/metadetect.py
@@ -490,6 +490,9 @@ def get_mfrac_mbexp(mbexp, mfrac_mbexp):
 
     wsum = 0.0
 
+    if mfrac_mbexp is None:
+        mfrac_mbexp = [None] * len(mbexp)
+
     mfrac = None
     for exp, mfrac_exp in zip(mbexp, mfrac_mbexp):
         varray = exp.variance.array
@@ -503,10 +506,15 @@ def get_mfrac_mbexp(mbexp, mfrac_mbexp):
         wgts.append(wgt)
         wsum += wgt
 
+        if mfrac_exp is None:
+            mfrac_image = np.zeros(varray.shape)
+        else:
+            mfrac_image = mfrac_exp.image.array
+
         if mfrac is None:
-            mfrac = wgt * mfrac_exp.image.array
+            mfrac = wgt * mfrac_image
         else:
-            mfrac += wgt * mfrac_exp.image.array
+            mfrac += wgt * mfrac_image
 
     mfrac *= 1.0 / wsum
 
-- 
2.43.0


From 49caa81eb97782945a79ada9e3a70a49871eeb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:57 +0000
Subject: [PATCH 08/16] fix: apply a stamp_size override

It was written to the temporary dict returned by toDict() and lost.
---
 metadetect/lsst/util.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/metadetect/lsst/util.py b/metadetect/lsst/util.py
index 942d006..4b409cd 100644
--- a/metadetect/lsst/util.py
+++ b/metadetect/lsst/util.py
@@ -1229,10 +1229,7 @@ def override_config(config, config_override: dict):
             # Use recursion to allow for arbitrarily nested config objects.
             override_config(subconfig, value)
         else:
-            if key == 'stamp_size':
-                config.toDict()[key] = value
-            else:
-                setattr(config, key, value)
+            setattr(config, key, value)
 
 
 def get_fitter(config, rng=None):
-- 
2.43.0


From c5658aafd945928e45872492845eaae083191ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:57 +0000
Subject: [PATCH 09/16] fix: use the configured deblender in run_photometry

---
 metadetect/lsst/photometry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metadetect/lsst/photometry.py b/metadetect/lsst/photometry.py
index 972debc..de0c3c4 100644
--- a/metadetect/lsst/photometry.py
+++ b/metadetect/lsst/photometry.py
@@ -68,6 +68,7 @@ def run_photometry(
 
     dbtask = measure.get_detect_and_deblend_task(
         thresh=config['detect']['thresh'],
+        deblender=config['deblender'],
         rng=rng,
     )
     sources, detexp, model_data = dbtask.run(
-- 
2.43.0


From cd0bf507e915ed3a18c644bf38a394cd7494d184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:57 +0000
Subject: [PATCH 10/16] fix: do not modify config overrides sent by the caller

The threshold and number of iterations were written into the dict the
caller passed in.
---
 metadetect/lsst/measure.py | 3 ++-
 metadetect/lsst/skysub.py  | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/metadetect/lsst/measure.py b/metadetect/lsst/measure.py
index ec955be..dfe9489 100644
--- a/metadetect/lsst/measure.py
+++ b/metadetect/lsst/measure.py
@@ -1,5 +1,6 @@
 import logging
 import warnings
+from copy import deepcopy
 import numpy as np
 import esutil as eu
 import ngmix
@@ -290,7 +291,7 @@ def get_detect_and_deblend_task(
     sources, detexp
         The sources and the detection exposure
     """
-    config_override = config if config is not None else {}
+    config_override = deepcopy(config) if config is not None else {}
     if thresh:
         if 'detect' not in config_override:
             config_override['detect'] = {}
diff --git a/metadetect/lsst/skysub.py b/metadetect/lsst/skysub.py
index 91de57e..519df59 100644
--- a/metadetect/lsst/skysub.py
+++ b/metadetect/lsst/skysub.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 import lsst.afw.table as afw_table
 from lsst.meas.algorithms import (
     SubtractBackgroundTask,
@@ -142,7 +144,7 @@ def subtract_sky_mbexp(mbexp, thresh=DEFAULT_THRESH, config=None):
     thresh: float
         Threshold for detection
     """
-    config_override = config if config is not None else {}
+    config_override = deepcopy(config) if config is not None else {}
 
     if thresh:
         if 'iterate_detection_and_skysub' not in config_override:
@@ -187,7 +189,7 @@ def iterate_detection_and_skysub(
     if niter < 1:
         raise ValueError(f'niter {niter} is less than 1')
 
-    config_override = config if config is not None else {}
+    config_override = deepcopy(config) if config is not None else {}
 
     # set threshold
     if 'detect' not in config_override:
-- 
2.43.0


From 61473a9a7d8abaee0b202370bb9bd8e447045868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:34 +0000
Subject: [PATCH 11/16] fix: do not modify the fitter config sent by the caller

The default weight fwhm for the joint fitters was written into the dicts
of the config passed by the caller.
---
 metadetect/metadetect.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metadetect/metadetect.py b/metadetect/metadetect.py
index 9f9547c..77f2efe 100644
--- a/metadetect/metadetect.py
+++ b/metadetect/metadetect.py
@@ -271,10 +271,10 @@ class Metadetect(dict):
                 # we set this defualt
                 # it may be used to set the masked fraction measurement
                 # aperture
-                if "weight" not in cfg:
-                    cfg["weight"] = {}
-                if "fwhm" not in cfg["weight"]:
-                    cfg["weight"]["fwhm"] = 1.2
+                # work on copies, cfg belongs to the caller
+                weight_cfg = dict(cfg.get("weight", {}))
+                weight_cfg.setdefault("fwhm", 1.2)
+                cfg = dict(cfg, weight=weight_cfg)
 
                 coadd = cfg.get("coadd", False)
             else:
-- 
2.43.0


From e7bde2a016cfa36e17c4dc7a88b3e967c79637a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:34 +0000
Subject: [PATCH 12/16] fix: use the fallback position for ra, dec when the
 centroid is nan

---
 metadetect/lsst/measure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metadetect/lsst/measure.py b/metadetect/lsst/measure.py
index dfe9489..44ee422 100644
--- a/metadetect/lsst/measure.py
+++ b/metadetect/lsst/measure.py
@@ -652,8 +652,6 @@ def get_output(wcs, source, res, bmask, stamp_size, exp_bbox):
 
     orig_cen = source.getCentroid()
 
-    skypos = wcs.pixelToSky(orig_cen)
-
     peak = source.getFootprint().getPeaks()[0]
     peak_loc = peak.getI()
 
@@ -666,6 +664,8 @@ def get_output(wcs, source, res, bmask, stamp_size, exp_bbox):
             orig_cen.getY() - peak_loc.getY(),
         )
 
+    skypos = wcs.pixelToSky(orig_cen)
+
     output['stamp_size'] = stamp_size
     output['row0'] = exp_bbox.getBeginY()
     output['col0'] = exp_bbox.getBeginX()
-- 
2.43.0


From 12aaf435ada2dbceacddb88981780d6faecab891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:34 +0000
Subject: [PATCH 13/16] fix: clip positions to the image when looking up the
 ormask

A position off the low edge wrapped around to the other side of the mask,
and one off the high edge raised an IndexError.
---
 metadetect/lsst/metadetect.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metadetect/lsst/metadetect.py b/metadetect/lsst/metadetect.py
index 02fa952..3723a12 100644
--- a/metadetect/lsst/metadetect.py
+++ b/metadetect/lsst/metadetect.py
@@ -434,12 +434,18 @@ def add_ormask(ormask, res):
     """
     copy in ormask values using the row, col positions
     """
+    nrow, ncol = ormask.shape
+
     for i in range(res.size):
         row_diff = res['row'][i] - res['row0'][i]
         col_diff = res['col'][i] - res['col0'][i]
         local_row = int(np.floor(row_diff + 0.5))
         local_col = int(np.floor(col_diff + 0.5))
 
+        # centroids can land outside the image
+        local_row = min(max(local_row, 0), nrow - 1)
+        local_col = min(max(local_col, 0), ncol - 1)
+
         res['ormask'][i] = ormask[local_row, local_col]
 
 
-- 
2.43.0


From 0d1d90e7c38f787d1c2be1a119192b7084277b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:18 +0000
Subject: [PATCH 14/16] fix: treat an mfrac stamp off the low edge as empty

A negative end index counts from the other side of the image, so the
stamp held pixels far from the object.
---
 metadetect/lsst/metadetect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metadetect/lsst/metadetect.py b/metadetect/lsst/metadetect.py
index 3723a12..c44e21d 100644
--- a/metadetect/lsst/metadetect.py
+++ b/metadetect/lsst/metadetect.py
@@ -395,9 +395,9 @@ def measure_weighted_mfrac(
         iy = int(np.floor(y[i] + 0.5))
 
         xstart = ix - box_rad
-        xend = ix + box_rad + 1
+        xend = max(ix + box_rad + 1, 0)
         ystart = iy - box_rad
-        yend = iy + box_rad + 1
+        yend = max(iy + box_rad + 1, 0)
 
         if xstart < 0:
             xstart = 0
-- 
2.43.0


From 9bf2b4f21fbfebc730380d2093d7ebf7f07fab89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:18 +0000
Subject: [PATCH 15/16] fix: give zero weight to exposures with no positive
 variance in coadd_exposures

The median of an empty array is nan, so one such exposure made the whole
coadd nan and the wsum <= 0 check could never trigger.
---
 metadetect/lsst/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadetect/lsst/util.py b/metadetect/lsst/util.py
index 4b409cd..27ccef7 100644
--- a/metadetect/lsst/util.py
+++ b/metadetect/lsst/util.py
@@ -500,6 +500,10 @@ def coadd_exposures(exposures):
         coadd_exp.mask.array |= exp.mask.array
 
         w = np.where(exp.variance.array > 0)
+        if w[0].size == 0:
+            # no usable pixels, this one gets no weight
+            continue
+
         medvar = np.median(exp.variance.array[w])
         this_weight = 1.0 / medvar
 
-- 
2.43.0


From 680866bc0a95aee40de5b3b8cc245384aa4980e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:51 +0000
Subject: [PATCH 16/16] fix: return a copy of the image when there are no bad
 pixels to interpolate

---
 metadetect/interpolate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metadetect/interpolate.py b/metadetect/interpolate.py
index 7130ae9..3df10f1 100644
--- a/metadetect/interpolate.py
+++ b/metadetect/interpolate.py
@@ -155,6 +155,10 @@ def interpolate_image_at_mask(
     npix = bad_msk.size
 
     nbad = bad_msk.sum()
+    if nbad == 0:
+        # the interpolator cannot be built without points
+        return image.copy()
+
     bm_frac = nbad/npix
     if bm_frac <= maxfrac and nbad < npix:
         interp_image = image.copy()
-- 
2.43.0

