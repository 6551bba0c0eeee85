From 9e397f22bb354e04e20f10f13ff9ee40fabaf6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 01/53] fix: RM synthesis and RMSF on Faraday depth grids that
 are not symmetric about zero

The transform was evaluated at the reversed depth list with the opposite sign,
which equals exp(-2i phi lambda^2) only if the list is symmetric about zero.
---
 RMutils/util_RM.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index 265c36b..d056946 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -202,7 +202,8 @@ def do_rmsynth_planes(
         finufft.nufft1d3(
             x=a,
             c=np.ascontiguousarray(pCube.T),
-            s=(phiArr_radm2[::-1] * 2).astype(a.dtype),
+            s=(phiArr_radm2 * 2).astype(a.dtype),
+            isign=-1,
             eps=eps,
         )
         * KArr[..., None]
@@ -403,7 +404,8 @@ def get_rmsf_planes(
             finufft.nufft1d3(
                 x=a,
                 c=np.ascontiguousarray(weightCube.T),
-                s=(phi2Arr[::-1] * 2).astype(a.dtype),
+                s=(phi2Arr * 2).astype(a.dtype),
+                isign=-1,
                 eps=eps,
             )
             * KArr[..., None]
-- 
2.43.0


From 87a2a1038e3580631b408f0843f16671102be6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 02/53] fix: report RM-CLEAN iteration counts when a process
 pool is used

---
 RMutils/util_RM.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index d056946..5d5440b 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -626,6 +626,9 @@ def do_rmclean_hogbom(
         ccArr[:, yi, xi] = output[i][2]
         cleanFDF[:, yi, xi] = output[i][0]
         residFDF[:, yi, xi] = output[i][1]
+        # Must be taken from the output: worker processes have their own copy
+        # of the iteration count array
+        iterCountArr[yi, xi] = output[i][3]
 
     # Restore the residual to the CLEANed FDF (moved outside of loop:
     # will now work for pixels/spectra without clean components)
@@ -650,6 +653,8 @@ class CleanLoopResults(NamedTuple):
     """The residual Faraday dispersion function cube"""
     ccArr: np.ndarray
     """The clean components cube"""
+    iterCount: int
+    """The number of iterations performed"""
 
 
 class RMcleaner:
@@ -777,7 +782,9 @@ class RMcleaner:
         residFDF = np.squeeze(residFDF)
         ccArr = np.squeeze(ccArr)
 
-        return CleanLoopResults(cleanFDF=cleanFDF, residFDF=residFDF, ccArr=ccArr)
+        return CleanLoopResults(
+            cleanFDF=cleanFDF, residFDF=residFDF, ccArr=ccArr, iterCount=iterCount
+        )
 
 
 # -----------------------------------------------------------------------------#
-- 
2.43.0


From 86f50d63784b155e1bfad3c5c3452f65ba81e11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 03/53] fix: RM-CLEAN window around a component near the start
 of the Faraday depth axis

---
 RMutils/util_RM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index 5d5440b..7091c10 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -739,7 +739,7 @@ class RMcleaner:
         dPhi = self.phiArr_radm2[1] - self.phiArr_radm2[0]
         fwhmRMSFArr_pix = fwhmRMSFArr / dPhi
         for i in np.where(mask)[0]:
-            start = int(i - fwhmRMSFArr_pix / 2)
+            start = max(0, int(i - fwhmRMSFArr_pix / 2))
             end = int(i + fwhmRMSFArr_pix / 2)
             mask[start:end] = True
         residFDF_mask = np.ma.array(residFDF, mask=~mask)
-- 
2.43.0


From ac21d48800a8eaa6b64e6d25e819123bd4ce42ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 04/53] fix: apply the pixel mask given to do_rmclean_hogbom

---
 RMutils/util_RM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index 7091c10..8b69c2d 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -566,7 +566,7 @@ def do_rmclean_hogbom(
 
     # Determine which pixels have components above the cutoff
     absFDF = np.abs(np.nan_to_num(dirtyFDF))
-    mskCutoff = np.where(np.max(absFDF, axis=0) >= cutoff, 1, 0)
+    mskCutoff = np.where((np.max(absFDF, axis=0) >= cutoff) & (mskArr > 0), 1, 0)
     xyCoords = np.rot90(np.where(mskCutoff > 0))
 
     # Feeback to user
-- 
2.43.0


From 0c5635cd63891232cf8c81844d7f875f655d41ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 05/53] fix: fits_make_lin_axis returns one value per pixel
 (rounding, negative step)

---
 RMutils/util_RM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index 8b69c2d..fbf16fc 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -801,7 +801,7 @@ def fits_make_lin_axis(head, axis=0, dtype="f4"):
     stop = (
         head["CRVAL" + i] + (head["NAXIS" + i] - head["CRPIX" + i]) * head["CDELT" + i]
     )
-    nChan = int(abs(start - stop) / head["CDELT" + i] + 1)
+    nChan = head["NAXIS" + i]
 
     return np.linspace(start, stop, nChan).astype(dtype)
 
-- 
2.43.0


From 57bc98215080df4050517693d075a1fdf27fb8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:14 +0000
Subject: [PATCH 06/53] fix: do not count flagged channels as degrees of
 freedom of the Stokes I fit

---
 RMutils/util_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index cb3c30c..eb3c99c 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -516,7 +516,7 @@ def fit_StokesI_model(freqArr, IArr, dIArr, polyOrd, fit_function="log") -> FitR
         )
         aic = 2 * (polyOrd + 1) + mp.fnorm
 
-    dof = len(freqArr) - polyOrd - 1
+    dof = np.count_nonzero(goodchan) - polyOrd - 1
     return FitResult(
         params=mp.params,
         fitStatus=int(np.abs(mp.status)),
-- 
2.43.0


From bd9fe00304465c60dcb53201c3f8a0f1085acb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 07/53] fix: error propagation of log-polynomial Stokes I
 models to a new reference frequency

---
 RMutils/util_misc.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index eb3c99c..f399344 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -658,7 +658,7 @@ def renormalize_StokesI_model(
                 + 30 * lnx**6 * cov[0, 2]
                 + 20 * lnx**5 * cov[0, 3]
                 + 10 * lnx**4 * cov[0, 4]
-                + 16 * lnx**6 * cov[0, 5]
+                + 16 * lnx**6 * cov[1, 1]
                 + 24 * lnx**5 * cov[1, 2]
                 + 16 * lnx**4 * cov[1, 3]
                 + 8 * lnx**3 * cov[1, 4]
@@ -671,25 +671,28 @@ def renormalize_StokesI_model(
             ),
             np.abs(g2)
             * np.sqrt(
-                lnx**10 * cov[0, 0]
-                + 2 * lnx**9 * cov[0, 1]
-                + 2 * lnx**8 * cov[0, 2]
-                + 2 * lnx**7 * cov[0, 3]
-                + 2 * lnx**6 * cov[0, 4]
+                np.log(10) ** 2
+                * (
+                    lnx**10 * cov[0, 0]
+                    + 2 * lnx**9 * cov[0, 1]
+                    + 2 * lnx**8 * cov[0, 2]
+                    + 2 * lnx**7 * cov[0, 3]
+                    + 2 * lnx**6 * cov[0, 4]
+                    + lnx**8 * cov[1, 1]
+                    + 2 * lnx**7 * cov[1, 2]
+                    + 2 * lnx**6 * cov[1, 3]
+                    + 2 * lnx**5 * cov[1, 4]
+                    + lnx**6 * cov[2, 2]
+                    + 2 * lnx**5 * cov[2, 3]
+                    + 2 * lnx**4 * cov[2, 4]
+                    + lnx**4 * cov[3, 3]
+                    + 2 * lnx**3 * cov[3, 4]
+                    + lnx**2 * cov[4, 4]
+                )
                 + 2 * lnx**5 / g * np.log(10) * cov[0, 5]
-                + lnx**8 * cov[1, 1]
-                + 2 * lnx**7 * cov[1, 2]
-                + 2 * lnx**6 * cov[1, 3]
-                + 2 * lnx**5 * cov[1, 4]
                 + 2 * lnx**4 / g * np.log(10) * cov[1, 5]
-                + lnx**6 * cov[2, 2]
-                + 2 * lnx**5 * cov[2, 3]
-                + 2 * lnx**4 * cov[2, 4]
                 + 2 * lnx**3 / g * np.log(10) * cov[2, 5]
-                + lnx**4 * cov[3, 3]
-                + 2 * lnx**3 * cov[3, 4]
                 + 2 * lnx**2 / g * np.log(10) * cov[3, 5]
-                + lnx**2 * cov[4, 4]
                 + 2 * lnx / g * np.log(10) * cov[4, 5]
                 + 1 / g**2 * cov[5, 5]
             ),
-- 
2.43.0


From 2306bf0a038379648abe3f41a3aad1528c37eda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:56 +0000
Subject: [PATCH 08/53] fix: exclude channels flagged in U from the RMSF, noise
 and channel counts of 1-D synthesis

---
 RMtools_1D/do_RMsynth_1D.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/RMtools_1D/do_RMsynth_1D.py b/RMtools_1D/do_RMsynth_1D.py
index d4cd489..930cfb6 100755
--- a/RMtools_1D/do_RMsynth_1D.py
+++ b/RMtools_1D/do_RMsynth_1D.py
@@ -298,6 +298,9 @@ def run_rmsynth(
     if verbose:
         log("Weight type is '%s'." % weightType)
 
+    # Channels flagged in either q or u are not used.
+    flagArr = ~np.logical_and(np.isfinite(qArr), np.isfinite(uArr))
+
     startTime = time.time()
 
     # Perform RM-synthesis on the spectrum
@@ -317,7 +320,7 @@ def run_rmsynth(
         lambdaSqArr_m2=lambdaSqArr_m2,
         phiArr_radm2=phiArr_radm2,
         weightArr=weightArr,
-        mskArr=~np.isfinite(qArr),
+        mskArr=flagArr,
         lam0Sq_m2=lam0Sq_m2,
         double=True,
         fitRMSF=fitRMSF or super_resolution,
@@ -365,7 +368,7 @@ def run_rmsynth(
     dirtyFDF *= Ifreq0  # FDF is in fracpol units initially, convert back to flux
 
     # Calculate the theoretical noise in the FDF !!Old formula only works for wariance weights!
-    weightArr = np.where(np.isnan(weightArr), 0.0, weightArr)
+    weightArr = np.where(np.logical_or(flagArr, np.isnan(weightArr)), 0.0, weightArr)
     dFDFth = np.abs(Ifreq0) * np.sqrt(
         np.nansum(weightArr**2 * np.nan_to_num(dquArr) ** 2) / (np.sum(weightArr)) ** 2
     )
@@ -404,7 +407,7 @@ def run_rmsynth(
         log("Caution: Stokes I model has low signal-to-noise.")
 
     # Add information on nature of channels:
-    good_channels = np.where(np.logical_and(weightArr != 0, np.isfinite(qArr)))[0]
+    good_channels = np.where(weightArr != 0)[0]
     mDict["min_freq"] = float(np.min(freqArr_Hz[good_channels]))
     mDict["max_freq"] = float(np.max(freqArr_Hz[good_channels]))
     mDict["N_channels"] = good_channels.size
-- 
2.43.0


From a0ad5ee3b0562babb2a975b3fa8a93dfd44c0098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 09/53] fix: create and assemble chunks when the cube fits into
 a single chunk

---
 RMtools_3D/assemble_chunks.py | 2 +-
 RMtools_3D/create_chunks.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMtools_3D/assemble_chunks.py b/RMtools_3D/assemble_chunks.py
index be2892b..c419f0b 100644
--- a/RMtools_3D/assemble_chunks.py
+++ b/RMtools_3D/assemble_chunks.py
@@ -137,7 +137,7 @@ def main():
         #       large.flush()
         chunk.close()
 
-    i += 1
+    i = num_chunks - 1
     file = chunkfiles[i]
     idx = base_idx_arr + i * Nperchunk
     idx = idx[idx < Npix_image]
diff --git a/RMtools_3D/create_chunks.py b/RMtools_3D/create_chunks.py
index 8afe8d8..2c3e16e 100644
--- a/RMtools_3D/create_chunks.py
+++ b/RMtools_3D/create_chunks.py
@@ -106,7 +106,7 @@ def main():
         filename = ("{}.C{" + prntcode + "}.fits").format(prefix, i)
         pf.writeto(filename, np.transpose(newdata), new_header, overwrite=True)
 
-    i += 1
+    i = num_chunks - 1
     idx = base_idx_arr + i * Nperchunk
     idx = idx[idx < Npix_image]
     xarr = idx // y_image
-- 
2.43.0


From ca6569e332dd09150015fa9f3c94a2e2dc44ec0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 10/53] fix: extract_region dropped the last row and column of
 2-D images

---
 RMtools_3D/extract_region.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_3D/extract_region.py b/RMtools_3D/extract_region.py
index 2776a72..46b9d66 100644
--- a/RMtools_3D/extract_region.py
+++ b/RMtools_3D/extract_region.py
@@ -166,7 +166,7 @@ def main():
             zlim[0] - 1 : zlim[1], box[2] - 1 : box[3], box[0] - 1 : box[1]
         ]
     elif header["NAXIS"] == 2:
-        data = hdu[0].data[box[2] - 1 : box[3] - 1, box[0] - 1 : box[1] - 1]
+        data = hdu[0].data[box[2] - 1 : box[3], box[0] - 1 : box[1]]
     else:
         raise Exception("Number of dimensions is some nonsupported value!")
 
-- 
2.43.0


From e49ba198b22530a1860d277be88bac326269185c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 11/53] fix: extract_region accepts -1 as the documented
 maximum of an axis

---
 RMtools_3D/extract_region.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/RMtools_3D/extract_region.py b/RMtools_3D/extract_region.py
index 46b9d66..5c8fefb 100644
--- a/RMtools_3D/extract_region.py
+++ b/RMtools_3D/extract_region.py
@@ -98,10 +98,11 @@ def main():
             args.box[2] + args.box[3],
         ]
 
-    if box[0] > box[1]:
+    # A maximum of -1 selects the end of the axis.
+    if (box[1] != -1) and (box[0] > box[1]):
         raise Exception("Box dimensions incorrect! x_max < x_min!")
 
-    if box[2] > box[3]:
+    if (box[3] != -1) and (box[2] > box[3]):
         raise Exception("Box dimensions incorrect! y_max < y_min!")
 
     hdu = pf.open(args.infile, memmap=True)
-- 
2.43.0


From a7515854367db4c5012c1b771a85cec0cda1afd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:38 +0000
Subject: [PATCH 12/53] fix: rmsynth1dFITS takes the requested pixel for every
 axis order

---
 RMtools_1D/do_RMsynth_1D_fromFITS.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/RMtools_1D/do_RMsynth_1D_fromFITS.py b/RMtools_1D/do_RMsynth_1D_fromFITS.py
index 8dae6af..45ebc60 100644
--- a/RMtools_1D/do_RMsynth_1D_fromFITS.py
+++ b/RMtools_1D/do_RMsynth_1D_fromFITS.py
@@ -50,6 +50,7 @@ from astropy import wcs
 from astropy.io import fits
 
 from RMtools_1D.do_RMsynth_1D import run_rmsynth, saveOutput
+from RMtools_3D.do_RMsynth_3D import find_freq_axis
 from RMtools_3D.make_freq_file import get_freq_array
 
 
@@ -218,7 +219,7 @@ def main():
 
     hduList = fits.open(args.dataFile[0])
     if args.sky_coords:
-        imgwcs = wcs.WCS(hduList[0].header, naxis=(1, 2))
+        imgwcs = wcs.WCS(hduList[0].header).celestial
         xcoords, ycoords = np.round(
             imgwcs.all_world2pix(args.xcoords, args.ycoords, 0)
         ).astype(int)
@@ -274,7 +275,24 @@ def main():
 
 def get_data_Q_U(filename, ycoords, xcoords):
     hduList = fits.open(filename)
-    return hduList[0].data[:, ycoords, xcoords]
+    header = hduList[0].header
+    Ndim = header["NAXIS"]
+    # The frequency axis can be any one; assume it's the last if not identified.
+    freq_axis = find_freq_axis(header)
+    if freq_axis == 0:
+        freq_axis = Ndim
+    # The sky axes are the first two other axes, ignoring a Stokes axis.
+    sky_axes = [
+        i
+        for i in range(1, Ndim + 1)
+        if i != freq_axis and "STOKES" not in str(header.get(f"CTYPE{i}", "")).upper()
+    ]
+    # Degenerate axes: take first (only) plane. Numpy axes are in reverse order.
+    index = [0] * Ndim
+    index[Ndim - freq_axis] = slice(None)
+    index[Ndim - sky_axes[0]] = xcoords
+    index[Ndim - sky_axes[1]] = ycoords
+    return hduList[0].data[tuple(index)]
 
 
 # -----------------------------------------------------------------------------#
-- 
2.43.0


From 5d1c52fc7a42ef650422ca62f2e550ceb1f3583a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:51 +0000
Subject: [PATCH 13/53] fix: 3-D synthesis RMSF flags the voxels that the FDF
 leaves out (U, Stokes I)

---
 RMtools_3D/do_RMsynth_3D.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/RMtools_3D/do_RMsynth_3D.py b/RMtools_3D/do_RMsynth_3D.py
index fab7abc..d10bc70 100755
--- a/RMtools_3D/do_RMsynth_3D.py
+++ b/RMtools_3D/do_RMsynth_3D.py
@@ -192,6 +192,11 @@ def run_rmsynth(
         qArr = dataQ
         uArr = dataU
 
+    # Voxels without valid Q, U (and I) are flagged
+    mskArr = ~(np.isfinite(qArr) & np.isfinite(uArr))
+    qArr = np.where(mskArr, np.nan, qArr)
+    uArr = np.where(mskArr, np.nan, uArr)
+
     # Perform RM-synthesis on the cube
     if not not_rmsynth:
         FDFcube, lam0Sq_m2 = do_rmsynth_planes(
@@ -213,7 +218,7 @@ def run_rmsynth(
             lambdaSqArr_m2=lambdaSqArr_m2,
             phiArr_radm2=phiArr_radm2,
             weightArr=weightArr,
-            mskArr=~np.isfinite(dataQ),
+            mskArr=mskArr,
             lam0Sq_m2=lam0Sq_m2,
             double=True,
             fitRMSF=fitRMSF or super_resolution,
-- 
2.43.0


From 6fef1fdebc53f064f9b5f160361e64963a244f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:59 +0000
Subject: [PATCH 14/53] fix: Stokes I at the reference frequency is
 interpolated between the enclosing channels of 3-D cubes

---
 RMtools_3D/RMpeakfit_3D.py  | 14 ++------------
 RMtools_3D/do_RMsynth_3D.py | 12 +++---------
 RMutils/util_misc.py        | 16 ++++++++++++++++
 3 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index d218f06..8eeec73 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -17,7 +17,7 @@ from astropy.constants import c as speed_of_light
 from tqdm.auto import trange
 
 from RMtools_3D.do_RMsynth_3D import readFitsCube, readFreqFile
-from RMutils.util_misc import interp_images, remove_header_third_fourth_axis
+from RMutils.util_misc import interp_planes, remove_header_third_fourth_axis
 from RMutils.util_RM import fits_make_lin_axis, measure_FDF_parms
 
 
@@ -74,17 +74,7 @@ def pixelwise_peak_fitting(
     freqArr_Hz = speed_of_light.value / np.sqrt(lamSqArr_m2)
     freq0_Hz = speed_of_light.value / np.sqrt(lam0Sq)
     if stokesIcube is not None:
-        idx = np.abs(freqArr_Hz - freq0_Hz).argmin()
-        if freqArr_Hz[idx] < freq0_Hz:
-            Ifreq0Arr = interp_images(
-                stokesIcube[idx, :, :], stokesIcube[idx + 1, :, :], f=0.5
-            )
-        elif freqArr_Hz[idx] > freq0_Hz:
-            Ifreq0Arr = interp_images(
-                stokesIcube[idx - 1, :, :], stokesIcube[idx, :, :], f=0.5
-            )
-        else:
-            Ifreq0Arr = stokesIcube[idx, :, :]
+        Ifreq0Arr = interp_planes(freqArr_Hz, stokesIcube, freq0_Hz)
     else:
         Ifreq0Arr = np.ones(map_size)
         stokesIcube = np.ones((freqArr_Hz.size, map_size[0], map_size[1]))
diff --git a/RMtools_3D/do_RMsynth_3D.py b/RMtools_3D/do_RMsynth_3D.py
index d10bc70..2f2f0c8 100755
--- a/RMtools_3D/do_RMsynth_3D.py
+++ b/RMtools_3D/do_RMsynth_3D.py
@@ -44,7 +44,7 @@ import astropy.io.fits as pf
 import numpy as np
 from astropy.constants import c as speed_of_light
 
-from RMutils.util_misc import interp_images, remove_header_third_fourth_axis
+from RMutils.util_misc import interp_planes, remove_header_third_fourth_axis
 from RMutils.util_RM import do_rmsynth_planes, get_rmsf_planes
 
 if sys.version_info.major == 2:
@@ -244,16 +244,10 @@ def run_rmsynth(
         )
 
     if dataI is not None and not not_rmsynth:  # if we created an FDF cube
-        idx = np.abs(freqArr_Hz - freq0_Hz).argmin()
-        if freqArr_Hz[idx] < freq0_Hz:
-            Ifreq0Arr = interp_images(dataI[idx, :, :], dataI[idx + 1, :, :], f=0.5)
-        elif freqArr_Hz[idx] > freq0_Hz:
-            Ifreq0Arr = interp_images(dataI[idx - 1, :, :], dataI[idx, :, :], f=0.5)
-        else:
-            Ifreq0Arr = dataI[idx, :, :]
+        Ifreq0Arr = interp_planes(freqArr_Hz, dataI, freq0_Hz)
 
         # Multiply the dirty FDF by Ifreq0 to recover the PI
-        FDFcube *= Ifreq0Arr
+        FDFcube *= np.reshape(Ifreq0Arr, FDFcube.shape[1:])
 
     if not_rmsf:  # only RMsynth
         dataArr = [FDFcube, phiArr_radm2, lam0Sq_m2, lambdaSqArr_m2]
diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index f399344..580858b 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -21,6 +21,7 @@
 #  calc_parabola_vertex ... interpolate the peak position using a parabola    #
 #  create_frac_spectra  ... fit a Stokes I model and divide into other Stokes #
 #  interp_images        ... interpolate between two image planes              #
+#  interp_planes        ... interpolate between the planes of a cube           #
 #  fit_spec_poly5       ... fit a >=5th order polynomial to a spectrum        #
 #  poly5                ... function to evaluate a 5th order polynomial       #
 #  nanmedian            ... np.median ignoring NaNs                           #
@@ -895,6 +896,21 @@ def interp_images(arr1, arr2, f=0.5):
     return interpArr
 
 
+def interp_planes(xArr, cube, x0):
+    """Interpolate linearly between the planes (first axis) of a cube, located
+    at the coordinates xArr (in any order), to the coordinate x0."""
+
+    if x0 in xArr:
+        return cube[np.flatnonzero(xArr == x0)[0]]
+
+    order = np.argsort(xArr)
+    i = np.clip(np.searchsorted(xArr[order], x0), 1, len(xArr) - 1)
+    lo, hi = order[i - 1], order[i]
+    f = (x0 - xArr[lo]) / (xArr[hi] - xArr[lo])
+
+    return (1 - f) * cube[lo] + f * cube[hi]
+
+
 # -----------------------------------------------------------------------------#
 def fit_spec_poly5(xData, yData, dyData=None, order=5, fit_function="log"):
     """Fit a 5th order polynomial to a spectrum. To avoid overflow errors the
-- 
2.43.0


From 1c3840a543c5dd500a604f77a25ff38e54f0908f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:56 +0000
Subject: [PATCH 15/53] fix: maps made by 3-D synthesis keep the sky axes when
 the frequency axis is not the last

---
 RMtools_3D/do_RMsynth_3D.py | 14 +++++++++-----
 RMutils/util_misc.py        | 35 +++++++++++++++++++++++++++++++++++
 2 files changed, 44 insertions(+), 5 deletions(-)

diff --git a/RMtools_3D/do_RMsynth_3D.py b/RMtools_3D/do_RMsynth_3D.py
index 2f2f0c8..76a1960 100755
--- a/RMtools_3D/do_RMsynth_3D.py
+++ b/RMtools_3D/do_RMsynth_3D.py
@@ -44,7 +44,7 @@ import astropy.io.fits as pf
 import numpy as np
 from astropy.constants import c as speed_of_light
 
-from RMutils.util_misc import interp_planes, remove_header_third_fourth_axis
+from RMutils.util_misc import find_sky_axes, interp_planes, make_map_header
 from RMutils.util_RM import do_rmsynth_planes, get_rmsf_planes
 
 if sys.version_info.major == 2:
@@ -497,8 +497,12 @@ def writefits(
         rmsffwhm_header = header.copy()
         rmsffwhm_header["BUNIT"] = "rad/m^2"
         rmsffwhm_header.pop("BTYPE", None)
-        # Remove 3rd and 4th axis, RMSF_FWHM is a plane, like the 2D peak maps
-        rmsffwhm_header = remove_header_third_fourth_axis(rmsffwhm_header)
+        # Keep only the sky axes, RMSF_FWHM is a plane, like the 2D peak maps
+        sky_axes = find_sky_axes(rmsffwhm_header, freq_axis)
+        fwhmRMSFCube = np.reshape(
+            fwhmRMSFCube, [header["NAXIS" + str(i)] for i in reversed(sky_axes)]
+        )
+        rmsffwhm_header = make_map_header(rmsffwhm_header, freq_axis)
 
         if write_seperate_FDF:  # more memory efficient as well
             header = _setStokes(header, "Q")
@@ -629,7 +633,7 @@ def writefits(
             log("> %s" % fitsFileOut)
         pf.writeto(
             fitsFileOut,
-            np.expand_dims(maxPI.astype(dtFloat), axis=0),
+            np.expand_dims(maxPI.astype(dtFloat), axis=Ndim - freq_axis),
             header,
             overwrite=True,
             output_verify="fix",
@@ -642,7 +646,7 @@ def writefits(
             log("> %s" % fitsFileOut)
         pf.writeto(
             fitsFileOut,
-            np.expand_dims(peakRM, axis=0),
+            np.expand_dims(peakRM, axis=Ndim - freq_axis),
             header,
             overwrite=True,
             output_verify="fix",
diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index 580858b..37175b9 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -178,6 +178,41 @@ def remove_header_third_fourth_axis(header):
     return header
 
 
+def find_sky_axes(header, cube_axis):
+    """Returns the (FITS) numbers of the two sky axes of a cube: the first two
+    that are neither the frequency or Faraday depth axis (cube_axis) nor a
+    Stokes axis."""
+    return [
+        i
+        for i in range(1, header["NAXIS"] + 1)
+        if i != cube_axis and "STOKES" not in str(header.get(f"CTYPE{i}", "")).upper()
+    ][:2]
+
+
+def make_map_header(header, cube_axis):
+    """Creates the header of a 2-D map of the sky pixels of a cube, which has
+    its frequency or Faraday depth axis at cube_axis (FITS axis number)."""
+    map_header = header.copy()
+    sky_axes = find_sky_axes(header, cube_axis)
+
+    if sky_axes != [1, 2]:
+        # Renumber the sky axes
+        keys = ["NAXIS", "CTYPE", "CRVAL", "CRPIX", "CDELT", "CUNIT", "CROTA"]
+        moved = {}
+        for i, ax_i in enumerate(sky_axes, 1):
+            moved.update({f"{key}{i}": f"{key}{ax_i}" for key in keys})
+            for j, ax_j in enumerate(sky_axes, 1):
+                for key in ["PC", "CD"]:
+                    moved[f"{key}{i}_{j}"] = f"{key}{ax_i}_{ax_j}"
+        for new_key, old_key in moved.items():
+            if old_key in header:
+                map_header[new_key] = (header[old_key], header.comments[old_key])
+            else:
+                map_header.pop(new_key, None)
+
+    return remove_header_third_fourth_axis(map_header)
+
+
 # -----------------------------------------------------------------------------#
 @deprecated(
     deprecated_in="1.3.1",
-- 
2.43.0


From 6d0385f7e7ff962b3eb9ed6dff497fb65b7b8191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:56 +0000
Subject: [PATCH 16/53] fix: 3-D RM-CLEAN keeps the axes of cubes that are one
 pixel wide

---
 RMtools_3D/do_RMclean_3D.py | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/RMtools_3D/do_RMclean_3D.py b/RMtools_3D/do_RMclean_3D.py
index 8e7a9a8..01b593f 100755
--- a/RMtools_3D/do_RMclean_3D.py
+++ b/RMtools_3D/do_RMclean_3D.py
@@ -145,22 +145,14 @@ def run_rmclean(
     if verbose:
         log("Saving the clean FDF and ancillary FITS files")
 
-    # Move FD axis back to original position, and restore dimensionality:
+    # Restore degenerate axes (the FD axis is first, the others are in the order
+    # of the header), then move the FD axis back to its original position.
     old_Ndim, FD_axis = find_axes(head)
-    new_Ndim = cleanFDF.ndim
-    # The difference is the number of dimensions that need to be added:
-    if old_Ndim - new_Ndim != 0:  # add missing (degenerate) dimensions back in
-        cleanFDF = np.expand_dims(cleanFDF, axis=tuple(range(old_Ndim - new_Ndim)))
-        ccArr = np.expand_dims(ccArr, axis=tuple(range(old_Ndim - new_Ndim)))
-        residFDF = np.expand_dims(residFDF, axis=tuple(range(old_Ndim - new_Ndim)))
-    # New dimensions are added to the beginning of the axis ordering
-    # (revserse of FITS ordering)
-
-    # Move the FDF axis to it's original spot. Hopefully this means that all
-    # axes are in their original place after all of that.
-    cleanFDF = np.moveaxis(cleanFDF, old_Ndim - new_Ndim, old_Ndim - FD_axis)
-    ccArr = np.moveaxis(ccArr, old_Ndim - new_Ndim, old_Ndim - FD_axis)
-    residFDF = np.moveaxis(residFDF, old_Ndim - new_Ndim, old_Ndim - FD_axis)
+    shape = [head["NAXIS" + str(i)] for i in range(old_Ndim, 0, -1) if i != FD_axis]
+    shape.insert(0, len(phiArr_radm2))
+    cleanFDF = np.moveaxis(np.reshape(cleanFDF, shape), 0, old_Ndim - FD_axis)
+    ccArr = np.moveaxis(np.reshape(ccArr, shape), 0, old_Ndim - FD_axis)
+    residFDF = np.moveaxis(np.reshape(residFDF, shape), 0, old_Ndim - FD_axis)
 
     return cleanFDF, ccArr, iterCountArr, residFDF, head
 
-- 
2.43.0


From c5b8916347ca31b3e33438e0d5c6d36fb82bd83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:45 +0000
Subject: [PATCH 17/53] fix: RM-CLEAN iteration map keeps the sky axes when the
 Faraday depth axis is not the last

---
 RMtools_3D/do_RMclean_3D.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/RMtools_3D/do_RMclean_3D.py b/RMtools_3D/do_RMclean_3D.py
index 01b593f..5a78c2e 100755
--- a/RMtools_3D/do_RMclean_3D.py
+++ b/RMtools_3D/do_RMclean_3D.py
@@ -49,6 +49,7 @@ except:
     parallel_available = False
 
 from RMtools_3D.do_RMsynth_3D import _setStokes
+from RMutils.util_misc import find_sky_axes
 from RMutils.util_RM import do_rmclean_hogbom, fits_make_lin_axis
 
 
@@ -298,14 +299,16 @@ def writefits(
     # Because there can be problems with different axes having different FITS keywords,
     # don't try to remove the FD axis, but just make it degenerate.
 
-    if headtemp["NAXIS"] > 2:
-        header["NAXIS3"] = 1
-        header["CTYPE3"] = ("DEGENERATE", "Axis left in to avoid FITS errors")
-        header["CUNIT3"] = ""
-    if headtemp["NAXIS"] == 4:
-        header["NAXIS4"] = 1
-        header["CTYPE4"] = ("DEGENERATE", "Axis left in to avoid FITS errors")
-        header["CUNIT4"] = ""
+    Ndim, FD_axis = find_axes(headtemp)
+    sky_axes = find_sky_axes(headtemp, FD_axis)
+    for i in range(1, Ndim + 1):
+        if i not in sky_axes:
+            header["NAXIS" + str(i)] = 1
+            header["CTYPE" + str(i)] = (
+                "DEGENERATE",
+                "Axis left in to avoid FITS errors",
+            )
+            header["CUNIT" + str(i)] = ""
 
     # Save the iteration count mask
     fitsFileOut = outDir + "/" + prefixOut + "CLEAN_nIter.fits"
@@ -315,9 +318,9 @@ def writefits(
     if "STOKES" in header:
         del header["STOKES"]
     hdu0 = pf.PrimaryHDU(
-        np.expand_dims(
+        np.reshape(
             iterCountArr.astype(dtFloat),
-            axis=tuple(range(headtemp["NAXIS"] - iterCountArr.ndim)),
+            [header["NAXIS" + str(i)] for i in range(Ndim, 0, -1)],
         ),
         header,
     )
-- 
2.43.0


From 48f776c31ddf94684ce3074d9c6d007c9c15ee8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:45 +0000
Subject: [PATCH 18/53] fix: rmclean3d with --chunk but a single core runs
 serially (serial pools have no imap)

---
 RMtools_3D/do_RMclean_3D.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/RMtools_3D/do_RMclean_3D.py b/RMtools_3D/do_RMclean_3D.py
index 5a78c2e..e51ae84 100755
--- a/RMtools_3D/do_RMclean_3D.py
+++ b/RMtools_3D/do_RMclean_3D.py
@@ -521,9 +521,7 @@ def main():
         )
 
     # If parallelization requested use it, otherwise use the old-fashioned way.
-    if parallel_available == True and (
-        args.n_cores != 1 or args.chunk != None or args.mpi != False
-    ):
+    if parallel_available == True and (args.n_cores != 1 or args.mpi != False):
         pool = schwimmbad.choose_pool(mpi=args.mpi, processes=args.n_cores)
         if args.mpi:
             if not pool.is_master():
-- 
2.43.0


From 4d583aa3b27e228df60fdf54eab27248bf3d3dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:17 +0000
Subject: [PATCH 19/53] fix: 3-D RM-CLEAN and peak fitting find companion files
 whatever the directory and prefix names

---
 RMtools_3D/RMpeakfit_3D.py  | 17 +++++++++--------
 RMtools_3D/do_RMclean_3D.py | 20 +++++++++++++++-----
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index 8eeec73..28e5447 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -9,6 +9,7 @@
 """
 
 import os
+import re
 import sys
 
 import astropy.io.fits as pf
@@ -16,6 +17,7 @@ import numpy as np
 from astropy.constants import c as speed_of_light
 from tqdm.auto import trange
 
+from RMtools_3D.do_RMclean_3D import component_filename
 from RMtools_3D.do_RMsynth_3D import readFitsCube, readFreqFile
 from RMutils.util_misc import interp_planes, remove_header_third_fourth_axis
 from RMutils.util_RM import fits_make_lin_axis, measure_FDF_parms
@@ -252,7 +254,7 @@ def read_files(FDF_filename, freq_filename):
     """
 
     HDUreal = pf.open(
-        FDF_filename.replace("_tot", "_real").replace("_im", "_real"),
+        component_filename(FDF_filename, "real"),
         "readonly",
         memmap=True,
     )
@@ -260,7 +262,7 @@ def read_files(FDF_filename, freq_filename):
     FDFreal = HDUreal[0].data
 
     HDUimag = pf.open(
-        FDF_filename.replace("_tot", "_im").replace("_real", "_im"),
+        component_filename(FDF_filename, "im"),
         "readonly",
         memmap=True,
     )
@@ -284,13 +286,12 @@ def read_files(FDF_filename, freq_filename):
 
     phiArr_radm2 = fits_make_lin_axis(head, axis=FD_axis - 1)
 
+    path, name = os.path.split(FDF_filename)
+    name = re.sub(
+        r"(.*)FDF_(?:(?:tot|real|im)_dirty|clean_(?:tot|real|im))", r"\1RMSF_FWHM", name
+    )
     HDUfwhm = pf.open(
-        FDF_filename.replace("FDF_tot_dirty", "RMSF_FWHM")
-        .replace("FDF_real_dirty", "RMSF_FWHM")
-        .replace("FDF_im_dirty", "RMSF_FWHM")
-        .replace("FDF_clean_tot", "RMSF_FWHM")
-        .replace("FDF_clean_real", "RMSF_FWHM")
-        .replace("FDF_clean_im", "RMSF_FWHM"),
+        os.path.join(path, name),
         "readonly",
         memmap=True,
     )
diff --git a/RMtools_3D/do_RMclean_3D.py b/RMtools_3D/do_RMclean_3D.py
index e51ae84..20bd4ad 100755
--- a/RMtools_3D/do_RMclean_3D.py
+++ b/RMtools_3D/do_RMclean_3D.py
@@ -35,6 +35,7 @@
 # =============================================================================#
 
 import os
+import re
 import sys
 import time
 
@@ -110,9 +111,7 @@ def run_rmclean(
 
     RMSFArr, headRMSF, FD_axis = read_FDF_cubes(fitsRMSF)
     HDULst = pf.open(
-        fitsRMSF.replace("_real", "_FWHM")
-        .replace("_im", "_FWHM")
-        .replace("_tot", "_FWHM"),
+        component_filename(fitsRMSF, "FWHM"),
         "readonly",
         memmap=True,
     )
@@ -380,6 +379,15 @@ def find_axes(header):
     return Ndim, FD_axis
 
 
+def component_filename(filename, component):
+    """Name of the file that holds another component (real, im, tot or FWHM).
+    Only the component in the file name itself is replaced, so that prefix and
+    directory can have any name."""
+    path, name = os.path.split(filename)
+    name = re.sub(r"(.*)_(real|im|tot)(?=[_.])", rf"\1_{component}", name)
+    return os.path.join(path, name)
+
+
 def read_FDF_cubes(filename):
     """Read in a FDF/RMSF cube. Input filename can be any of real, imag, or tot components.
     Figures out which axis is Faraday depth and
@@ -387,7 +395,7 @@ def read_FDF_cubes(filename):
     Returns: (complex_cube, header,FD_axis)
     """
     HDUreal = pf.open(
-        filename.replace("_tot", "_real").replace("_im", "_real"),
+        component_filename(filename, "real"),
         "readonly",
         memmap=True,
     )
@@ -395,7 +403,9 @@ def read_FDF_cubes(filename):
     FDFreal = HDUreal[0].data
 
     HDUimag = pf.open(
-        filename.replace("_tot", "_im").replace("_real", "_im"), "readonly", memmap=True
+        component_filename(filename, "im"),
+        "readonly",
+        memmap=True,
     )
     FDFimag = HDUimag[0].data
     complex_cube = FDFreal + 1j * FDFimag
-- 
2.43.0


From 844feed7cef63780b25690e96434413ab83d5c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:17 +0000
Subject: [PATCH 20/53] fix: peak maps of cubes one pixel wide, or with the
 Faraday depth axis not last, describe the right sky pixels

---
 RMtools_3D/RMpeakfit_3D.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index 28e5447..952c8d3 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -19,7 +19,7 @@ from tqdm.auto import trange
 
 from RMtools_3D.do_RMclean_3D import component_filename
 from RMtools_3D.do_RMsynth_3D import readFitsCube, readFreqFile
-from RMutils.util_misc import interp_planes, remove_header_third_fourth_axis
+from RMutils.util_misc import find_sky_axes, interp_planes, make_map_header
 from RMutils.util_RM import fits_make_lin_axis, measure_FDF_parms
 
 
@@ -161,10 +161,8 @@ def save_maps(map_dict, prefix_path, FDFheader):
         prefix_path: the full or relative path to save the files, plus the file
             prefix to be given to the files.
     """
-    # Set up generic FITS header
-    product_header = FDFheader.copy()
-    # Remove extra axes:
-    product_header = remove_header_third_fourth_axis(product_header)
+    # Set up generic FITS header, without the extra axes:
+    product_header = make_map_header(FDFheader, find_axes(FDFheader)[1])
 
     product_header["HISTORY"] = (
         "Polarization peak maps created with RM-Tools RMpeakfit_3D"
@@ -277,7 +275,8 @@ def read_files(FDF_filename, freq_filename):
         complex_cube = np.moveaxis(complex_cube, Ndim - FD_axis, 0)
 
     # Remove degenerate axes to prevent problems with later steps.
-    complex_cube = complex_cube.squeeze()
+    map_shape = [head["NAXIS" + str(i)] for i in reversed(find_sky_axes(head, FD_axis))]
+    complex_cube = complex_cube.reshape([complex_cube.shape[0]] + map_shape)
 
     lam0Sq = head["LAMSQ0"]
 
@@ -295,7 +294,7 @@ def read_files(FDF_filename, freq_filename):
         "readonly",
         memmap=True,
     )
-    fwhmRMSF = HDUfwhm[0].data.squeeze()
+    fwhmRMSF = HDUfwhm[0].data.reshape(map_shape)
 
     return complex_cube, phiArr_radm2, fwhmRMSF, lambdaSqArr_m2, lam0Sq, head
 
@@ -468,6 +467,8 @@ def main():
     ):  # When inputting chunks made from createchunks, it drops an axis and breaks things. Re-add to fix things.
         FDF = np.expand_dims(FDF, axis=1)
         fwhmRMSF = np.expand_dims(fwhmRMSF, axis=0)
+    if dataI is not None:
+        dataI = np.reshape(dataI, (-1,) + FDF.shape[1:])
 
     # Fit peaks
     map_dict = pixelwise_peak_fitting(
-- 
2.43.0


From e1d525fc94a10dd1fc2d566c5c5ecbf9b930d95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:35 +0000
Subject: [PATCH 21/53] fix: rmtools_fitIcube accepts cubes without a BUNIT
 keyword

---
 RMtools_3D/do_fitIcube.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_3D/do_fitIcube.py b/RMtools_3D/do_fitIcube.py
index 1a0e951..db9860d 100755
--- a/RMtools_3D/do_fitIcube.py
+++ b/RMtools_3D/do_fitIcube.py
@@ -563,7 +563,7 @@ def make_model_I(
             results = pool.map(func, args_list)
 
     headcoeff = remove_header_third_fourth_axis(header=header.copy())
-    del headcoeff["BUNIT"]
+    headcoeff.pop("BUNIT", None)
 
     endTime = time.time()
     cputime = endTime - startTime
-- 
2.43.0


From 2cdf8bee29435b964d03d23ac8563d57bd39aa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:35 +0000
Subject: [PATCH 22/53] fix: rmtools_fitIcube keeps the axes of cubes that are
 one pixel wide

---
 RMtools_3D/do_fitIcube.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/RMtools_3D/do_fitIcube.py b/RMtools_3D/do_fitIcube.py
index db9860d..5d86c0a 100755
--- a/RMtools_3D/do_fitIcube.py
+++ b/RMtools_3D/do_fitIcube.py
@@ -515,10 +515,9 @@ def make_model_I(
 
     coeffs = np.array([mskArr] * 6, dtype=dtFloat)
     coeffs_error = np.array([mskArr] * 6, dtype=dtFloat)
-    reffreq = np.squeeze(np.array([mskArr], dtype=dtFloat))
+    reffreq = np.array(mskArr, dtype=dtFloat)
 
     covars = np.array([[mskArr] * 6] * 6, dtype=dtFloat)
-    datacube = np.squeeze(datacube)
 
     # Select only the spectra with emission
     srcData = np.rot90(datacube[:, mskSrc > 0])
-- 
2.43.0


From 231b1bf83542828bb096711bf927b2536036db32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:05 +0000
Subject: [PATCH 23/53] fix: rmtools_fitIcube accepts any order of the cube
 axes and labels those of the model cube

---
 RMtools_3D/do_fitIcube.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/RMtools_3D/do_fitIcube.py b/RMtools_3D/do_fitIcube.py
index 5d86c0a..e05e520 100755
--- a/RMtools_3D/do_fitIcube.py
+++ b/RMtools_3D/do_fitIcube.py
@@ -45,13 +45,15 @@ import astropy.io.fits as pf
 import numpy as np
 from tqdm.contrib.concurrent import process_map
 
-from RMtools_3D.do_RMsynth_3D import readFitsCube
+from RMtools_3D.do_RMsynth_3D import find_freq_axis, readFitsCube
 from RMtools_3D.make_freq_file import get_freq_array
 from RMutils.util_FITS import strip_fits_dims
 from RMutils.util_misc import (
     MAD,
     calculate_StokesI_model,
+    find_sky_axes,
     fit_StokesI_model,
+    make_map_header,
     remove_header_third_fourth_axis,
 )
 
@@ -288,7 +290,7 @@ def cube_noise(datacube, header, freqArr_Hz, threshold=-5):
     print("Measuring the per-channel noise and creating an emission mask")
     rmsArr = np.zeros_like(freqArr_Hz)
     medSky = np.zeros_like(freqArr_Hz)
-    mskSrc = np.zeros((header["NAXIS2"], header["NAXIS1"]), dtype=dtFloat)
+    mskSrc = np.zeros(datacube.shape[1:], dtype=dtFloat)
 
     # start = time.time()
     for i in range(nChan):
@@ -385,6 +387,17 @@ def savefits_model_I(data, header, outDir, prefixOut):
     nDim = data.ndim
     nBits = np.abs(header["BITPIX"])
 
+    # The model cube has the sky axes first and the frequency axis third
+    freq_axis = find_freq_axis(header)
+    if freq_axis > 0 and (freq_axis != 3 or find_sky_axes(header, 3) != [1, 2]):
+        input_header = header
+        header = make_map_header(input_header, freq_axis)
+        header["NAXIS"] = 3
+        header.set("NAXIS3", input_header[f"NAXIS{freq_axis}"], after="NAXIS2")
+        for key in ["CTYPE", "CRVAL", "CRPIX", "CDELT", "CUNIT"]:
+            if f"{key}{freq_axis}" in input_header:
+                header[f"{key}3"] = input_header[f"{key}{freq_axis}"]
+
     headModelCube = strip_fits_dims(header=header, minDim=nDim)
     headModelCube["NAXIS1"] = header["NAXIS1"]
     headModelCube["NAXIS2"] = header["NAXIS2"]
@@ -495,7 +508,7 @@ def make_model_I(
     mskArr = np.where(mskSrc > 0, 1.0, np.nan)
 
     if not apply_mask:
-        mskSrc = np.ones((header["naxis2"], header["naxis1"]), dtype=dtFloat)
+        mskSrc = np.ones(datacube.shape[1:], dtype=dtFloat)
         mskArr = np.where(mskSrc > 0, 1.0, np.nan)
 
     srcCoords = np.rot90(np.where(mskSrc > 0))
@@ -561,7 +574,7 @@ def make_model_I(
         with mp.Pool(processes=num_cores) as pool:
             results = pool.map(func, args_list)
 
-    headcoeff = remove_header_third_fourth_axis(header=header.copy())
+    headcoeff = make_map_header(header, find_freq_axis(header))
     headcoeff.pop("BUNIT", None)
 
     endTime = time.time()
-- 
2.43.0


From 7f2a2789f3d9bb371bd98a05fe6012bd043a46d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:05 +0000
Subject: [PATCH 24/53] fix: rescaled Stokes I coefficient maps include the
 highest order when a lower order is zero everywhere

---
 RMtools_3D/rescale_I_model_3D.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/RMtools_3D/rescale_I_model_3D.py b/RMtools_3D/rescale_I_model_3D.py
index a2eb9a7..dd34f2e 100644
--- a/RMtools_3D/rescale_I_model_3D.py
+++ b/RMtools_3D/rescale_I_model_3D.py
@@ -322,9 +322,8 @@ def write_new_parameters(
 
     # Work out highest order of polynomial:
     # if any of the 6 possible coeff planes contain non-zero and non-nan values, it's a 'good' plane.
-    max_order = (
-        np.sum(np.any((new_coeffs != 0.0) & (~np.isnan(new_coeffs)), axis=(1, 2))) - 1
-    )
+    good_planes = np.any((new_coeffs != 0.0) & (~np.isnan(new_coeffs)), axis=(1, 2))
+    max_order = 5 - np.argmax(good_planes) if np.any(good_planes) else 0
 
     for i in range(max_order + 1):
         pf.writeto(
-- 
2.43.0


From c097786dfc93e9866d45f3e1a68940d9d3889f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:04 +0000
Subject: [PATCH 25/53] fix: rmtools_fitIcube with a frequency file fits in
 double precision

---
 RMtools_3D/do_fitIcube.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/RMtools_3D/do_fitIcube.py b/RMtools_3D/do_fitIcube.py
index e05e520..3bfe5c6 100755
--- a/RMtools_3D/do_fitIcube.py
+++ b/RMtools_3D/do_fitIcube.py
@@ -244,14 +244,12 @@ def get_frequencies(datacube, header, freqFile):
     freqArr_Hz: frequency array
     """
 
-    nBits = np.abs(header["BITPIX"])
-    dtFloat = "float" + str(nBits)
-
     nChan = datacube.shape[0]  # for now, assumes frequency is the first axis
 
-    # Read the frequency vector
+    # Read the frequency vector (in double precision: the fits are done in the
+    # precision of the frequencies, and need more than that of the images)
     print("Reading frequency vector from '%s'." % freqFile)
-    freqArr_Hz = np.loadtxt(freqFile, dtype=dtFloat)
+    freqArr_Hz = np.loadtxt(freqFile, dtype="float64")
     if nChan != len(freqArr_Hz):
         print("Err: frequency vector and frequency axis of cube unequal length.")
         sys.exit()
-- 
2.43.0


From a7f0d5af669dbf026e81c3ca7fd88555241a69ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:35 +0000
Subject: [PATCH 26/53] fix: slab and internal-dispersion QU models have their
 limit, not NaN, where the thickness and dispersion vanish

---
 RMtools_1D/models_ns/m12.py | 5 ++++-
 RMtools_1D/models_ns/m5.py  | 4 ++--
 RMtools_1D/models_ns/m6.py  | 7 +++----
 RMtools_1D/models_ns/m7.py  | 5 ++++-
 4 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/RMtools_1D/models_ns/m12.py b/RMtools_1D/models_ns/m12.py
index 8d9d0d4..78d50ad 100644
--- a/RMtools_1D/models_ns/m12.py
+++ b/RMtools_1D/models_ns/m12.py
@@ -28,13 +28,16 @@ def model(pDict, lamSqArr_m2):
         2.0 * lamSqArr_m2**2 * pDict["sigmaRM_radm2"] ** 2
         - 2j * lamSqArr_m2 * pDict["deltaRM_radm2"]
     )
+    # (1 - exp(-S)) / S tends to 1 as S vanishes
+    safe_S = np.where(para_S == 0, 1, para_S)
+    depol = np.where(para_S == 0, 1, -np.expm1(-safe_S) / safe_S)
 
     quArr = (
         pArr
         * np.exp(
             2j * (np.radians(pDict["psi0_deg"]) + pDict["RM_screen"] * lamSqArr_m2)
         )
-        * ((1 - np.exp(-1.0 * para_S)) / para_S)
+        * depol
         * np.exp(-2.0 * pDict["sigmaRM_radm2_FG"] ** 2.0 * lamSqArr_m2**2.0)
     )
 
diff --git a/RMtools_1D/models_ns/m5.py b/RMtools_1D/models_ns/m5.py
index 16ede4d..3e26f2d 100644
--- a/RMtools_1D/models_ns/m5.py
+++ b/RMtools_1D/models_ns/m5.py
@@ -32,8 +32,8 @@ def model(pDict, lamSqArr_m2):
     quArr = (pArr * np.exp( 2j * (np.radians(pDict["psi0_deg"]) +
                                   (0.5*pDict["deltaRM_radm2"] +
                                    pDict["RM_radm2"]) * lamSqArr_m2))
-             * np.sin(pDict["deltaRM_radm2"] * lamSqArr_m2) /
-               (pDict["deltaRM_radm2"] * lamSqArr_m2))
+             # np.sinc(x/pi) = sin(x)/x, including x = 0
+             * np.sinc(pDict["deltaRM_radm2"] * lamSqArr_m2 / np.pi))
     # fmt: on
 
     return quArr
diff --git a/RMtools_1D/models_ns/m6.py b/RMtools_1D/models_ns/m6.py
index aa23660..682214c 100644
--- a/RMtools_1D/models_ns/m6.py
+++ b/RMtools_1D/models_ns/m6.py
@@ -39,10 +39,9 @@ def model(pDict, lamSqArr_m2):
     quArr2 = pArr2 * np.exp( 2j * (np.radians(pDict["psi02_deg"]) +
                                    (0.5*pDict["deltaRM2_radm2"] +
                                     pDict["RM2_radm2"]) * lamSqArr_m2))
-    quArr = (quArr1 * np.sin(pDict["deltaRM1_radm2"] * lamSqArr_m2) /
-             (pDict["deltaRM1_radm2"] * lamSqArr_m2) +
-             quArr2 * np.sin(pDict["deltaRM2_radm2"] * lamSqArr_m2) /
-             (pDict["deltaRM2_radm2"] * lamSqArr_m2))
+    # np.sinc(x/pi) = sin(x)/x, including x = 0
+    quArr = (quArr1 * np.sinc(pDict["deltaRM1_radm2"] * lamSqArr_m2 / np.pi) +
+             quArr2 * np.sinc(pDict["deltaRM2_radm2"] * lamSqArr_m2 / np.pi))
     # fmt: on
 
     return quArr
diff --git a/RMtools_1D/models_ns/m7.py b/RMtools_1D/models_ns/m7.py
index 50c594f..7361a41 100644
--- a/RMtools_1D/models_ns/m7.py
+++ b/RMtools_1D/models_ns/m7.py
@@ -31,9 +31,12 @@ def model(pDict, lamSqArr_m2):
     pArr = pDict["fracPol"] * np.ones_like(lamSqArr_m2)
     para_S = (2. * lamSqArr_m2**2 * pDict["sigmaRM_radm2"]**2 -
              2j * lamSqArr_m2 * pDict["deltaRM_radm2"])
+    # (1 - exp(-S)) / S tends to 1 as S vanishes
+    safe_S = np.where(para_S == 0, 1, para_S)
+    depol = np.where(para_S == 0, 1, -np.expm1(-safe_S) / safe_S)
     quArr = (pArr * np.exp( 2j * (np.radians(pDict["psi0_deg"]) +
                                   pDict["RM_radm2"] * lamSqArr_m2)) *
-            (1 - np.exp(-1.*para_S)) / para_S)
+            depol)
     # fmt: on
 
     return quArr
-- 
2.43.0


From 055383577f31ff7b806f7d2724451c40d683e149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:19 +0000
Subject: [PATCH 27/53] fix: the AICc of a QU fit is the AIC plus the
 small-sample correction

---
 RMtools_1D/do_QUfit_1D_mnest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_1D/do_QUfit_1D_mnest.py b/RMtools_1D/do_QUfit_1D_mnest.py
index ea39a21..f6cfb6f 100644
--- a/RMtools_1D/do_QUfit_1D_mnest.py
+++ b/RMtools_1D/do_QUfit_1D_mnest.py
@@ -456,7 +456,7 @@ def run_qufit(
     chiSq = chisq_model(parNames, p, lamSqArr_m2, qArr, dqArr, uArr, duArr, model)
     chiSqRed = chiSq / dof
     AIC = 2.0 * nFree - 2.0 * lnLike
-    AICc = 2.0 * nFree * (nFree + 1) / (nData - nFree - 1) - 2.0 * lnLike
+    AICc = AIC + 2.0 * nFree * (nFree + 1) / (nData - nFree - 1)
     BIC = nFree * np.log(nData) - 2.0 * lnLike
 
     # Summary of run
-- 
2.43.0


From fdf5de172c16e19941821a5c22be5bc773980034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:19 +0000
Subject: [PATCH 28/53] fix: QU-fit degrees of freedom, AICc and BIC do not
 count flagged channels as data

---
 RMtools_1D/do_QUfit_1D_mnest.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/RMtools_1D/do_QUfit_1D_mnest.py b/RMtools_1D/do_QUfit_1D_mnest.py
index f6cfb6f..82bca58 100644
--- a/RMtools_1D/do_QUfit_1D_mnest.py
+++ b/RMtools_1D/do_QUfit_1D_mnest.py
@@ -451,7 +451,8 @@ def run_qufit(
         )
 
     # Calculate goodness-of-fit parameters
-    nData = 2.0 * len(lamSqArr_m2)
+    # (flagged (NaN) values are not data)
+    nData = float(np.sum(np.isfinite(qArr / dqArr)) + np.sum(np.isfinite(uArr / duArr)))
     dof = nData - nFree - 1
     chiSq = chisq_model(parNames, p, lamSqArr_m2, qArr, dqArr, uArr, duArr, model)
     chiSqRed = chiSq / dof
-- 
2.43.0


From 9d7f01fc728a8fd45fef0949c00b97dace26d6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:19 +0000
Subject: [PATCH 29/53] fix: QU-fit angles straddling the 0/180 deg wrap evenly
 are reported at the wrap, not at 90 deg

---
 RMtools_1D/do_QUfit_1D_mnest.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/RMtools_1D/do_QUfit_1D_mnest.py b/RMtools_1D/do_QUfit_1D_mnest.py
index 82bca58..c4d69af 100644
--- a/RMtools_1D/do_QUfit_1D_mnest.py
+++ b/RMtools_1D/do_QUfit_1D_mnest.py
@@ -412,8 +412,9 @@ def run_qufit(
             and wraps[i] == "periodic"
         ):
             # Only try to do it if the units is in deg, bounded within [0., 180.], and is a periodic variable
-            summary_tmp = result.get_one_dimensional_median_and_error_bar(parNames[i])
-            if summary_tmp.median < 45.0 or summary_tmp.median >= 135.0:
+            # (on a circle of 180 deg, are the samples centred closer to 0 or to 90?)
+            angles = np.asarray(result.posterior[parNames[i]])
+            if np.mean(np.cos(np.radians(2.0 * angles))) > 0.0:
                 # Shift PA by 90 deg
                 result.samples[:, i] += 90.0
                 # Keep all values within [0, 180)
-- 
2.43.0


From e62d89cbb23efb5d29b0d937c93996121063c67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:19 +0000
Subject: [PATCH 30/53] fix: QU-fit angles are unwrapped in the right sample
 column, and fixed parameters kept, when a model has fixed parameters

---
 RMtools_1D/do_QUfit_1D_mnest.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/RMtools_1D/do_QUfit_1D_mnest.py b/RMtools_1D/do_QUfit_1D_mnest.py
index c4d69af..24640dd 100644
--- a/RMtools_1D/do_QUfit_1D_mnest.py
+++ b/RMtools_1D/do_QUfit_1D_mnest.py
@@ -416,15 +416,17 @@ def run_qufit(
             angles = np.asarray(result.posterior[parNames[i]])
             if np.mean(np.cos(np.radians(2.0 * angles))) > 0.0:
                 # Shift PA by 90 deg
-                result.samples[:, i] += 90.0
+                # (fixed parameters have no column in the samples)
+                col = result.search_parameter_keys.index(parNames[i])
+                result.samples[:, col] += 90.0
                 # Keep all values within [0, 180)
-                result.samples[:, i] -= (result.samples[:, i] >= 180.0) * 180.0
+                result.samples[:, col] -= (result.samples[:, col] >= 180.0) * 180.0
                 # Keep track of which parameters have been rotated
                 rotated_parNames.append(parNames[i])
 
     # Update the posterior values
     if len(rotated_parNames) > 0:
-        result.samples_to_posterior()
+        result.samples_to_posterior(priors=result.priors)
 
     # Best guess here - taking the maximum likelihood value
     lnLike = np.max(result.log_likelihood_evaluations)
@@ -543,14 +545,15 @@ def run_qufit(
     for i in range(nDim):
         if parNames[i] in rotated_parNames:
             # Rotate back by the 90 deg
-            result.samples[:, i] -= 90.0
+            col = result.search_parameter_keys.index(parNames[i])
+            result.samples[:, col] -= 90.0
             if p[i] > 135.0:
                 # In case the PA shown would be << 0 deg
-                result.samples[:, i] += 180.0
+                result.samples[:, col] += 180.0
 
     # Resampling to make sure the results show
     if len(rotated_parNames) > 0:
-        result.samples_to_posterior()
+        result.samples_to_posterior(priors=result.priors)
 
     cornerFig = result.plot_corner()
 
-- 
2.43.0


From 6f0a7f2149d36f19422a819784192b17fce59b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:52 +0000
Subject: [PATCH 31/53] fix: the clean-component QU model tool opens the files
 it is given

---
 RMtools_1D/clean_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMtools_1D/clean_model.py b/RMtools_1D/clean_model.py
index 14ab545..dfa0d2a 100755
--- a/RMtools_1D/clean_model.py
+++ b/RMtools_1D/clean_model.py
@@ -139,11 +139,11 @@ def main():
     args = parser.parse_args()
 
     phiArr, CCArr, Iparms, lambdaSq_0, freqArr = read_files(
-        args.freqfile, args.rmSynthfile, args.CCfile
+        args.freqfile[0], args.rmSynthfile[0], args.CCfile[0]
     )
     QUarr, Imodel = calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms)
 
-    save_model(args.outfile, freqArr, Imodel, QUarr)
+    save_model(args.outfile[0], freqArr, Imodel, QUarr)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 4ee732c530f9f67f4c3c69982668a947b0346743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:52 +0000
Subject: [PATCH 32/53] fix: Q and U predicted from clean components do not
 count the Stokes I flux twice

---
 RMtools_1D/clean_model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/RMtools_1D/clean_model.py b/RMtools_1D/clean_model.py
index dfa0d2a..7859abd 100755
--- a/RMtools_1D/clean_model.py
+++ b/RMtools_1D/clean_model.py
@@ -56,7 +56,10 @@ def calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms=None):
     )
     StokesI_model = calculate_StokesI_model(fit_result, freqArr)
 
-    QUarr = StokesI_model * quarr
+    # The clean components are in flux units at the reference frequency, so only
+    # the shape of the Stokes I model applies to them.
+    StokesI_0 = calculate_StokesI_model(fit_result, fit_result.reference_frequency_Hz)
+    QUarr = StokesI_model / StokesI_0 * quarr
 
     return QUarr, StokesI_model
 
-- 
2.43.0


From e4ca1bf3cb061012b5b1925f70d923dba7e8000f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:52 +0000
Subject: [PATCH 33/53] fix: the clean-component QU model uses the Stokes I
 function and reference frequency that RM synthesis recorded

---
 RMtools_1D/clean_model.py | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/RMtools_1D/clean_model.py b/RMtools_1D/clean_model.py
index 7859abd..86df60b 100755
--- a/RMtools_1D/clean_model.py
+++ b/RMtools_1D/clean_model.py
@@ -17,7 +17,15 @@ from RMtools_1D.do_RMsynth_1D import readFile as read_freqFile
 from RMutils.util_misc import FitResult, calculate_StokesI_model
 
 
-def calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms=None):
+def calculate_QU_model(
+    freqArr,
+    phiArr,
+    CCArr,
+    lambdaSq_0,
+    Iparms=None,
+    fit_function="log",
+    reference_frequency_Hz=None,
+):
     """Compute the predicted Stokes Q and U values for each channel from a
     set of clean components (CCs), with optional accounting for Stokes I model.
     Inputs: freqArr: array of channel frequencies, in Hz
@@ -27,11 +35,12 @@ def calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms=None):
                         which all the polarization angles are referenced.
             Iparms: list of Stokes I polynomial values. If None, all Stokes I
                     values will be set to 1.
+            fit_function: 'linear' or 'log', the function of the Stokes I model.
+            reference_frequency_Hz: reference frequency of the Stokes I model.
+                    If None, that of lambdaSq_0.
     Returns:
         model: array of complex values, one per channel, of Stokes Q and U
                 predictions based on the clean component model.
-
-    CURRENTLY ASSUMES THAT STOKES I MODEL IS LOG MODEL. SHOULD BE FIXED!
     """
 
     lambdaSqArr_m2 = np.power(speed_of_light.value / freqArr, 2.0)
@@ -39,7 +48,8 @@ def calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms=None):
     a = lambdaSqArr_m2 - lambdaSq_0
     quarr = np.sum(CCArr[:, np.newaxis] * np.exp(2.0j * np.outer(phiArr, a)), axis=0)
 
-    # TODO: Pass in fit function, which is currently not output by rmsynth1d
+    if reference_frequency_Hz is None:
+        reference_frequency_Hz = speed_of_light.value / np.sqrt(lambdaSq_0)
     fit_result = FitResult(
         params=Iparms if Iparms is not None else [0, 0, 0, 0, 0, 1],
         fitStatus=0,
@@ -48,11 +58,11 @@ def calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms=None):
         AIC=0,
         polyOrd=0,
         nIter=0,
-        reference_frequency_Hz=speed_of_light.value / np.sqrt(lambdaSq_0),
+        reference_frequency_Hz=reference_frequency_Hz,
         dof=0,
         pcov=None,
         perror=None,
-        fit_function="log",
+        fit_function=fit_function,
     )
     StokesI_model = calculate_StokesI_model(fit_result, freqArr)
 
@@ -144,7 +154,16 @@ def main():
     phiArr, CCArr, Iparms, lambdaSq_0, freqArr = read_files(
         args.freqfile[0], args.rmSynthfile[0], args.CCfile[0]
     )
-    QUarr, Imodel = calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms)
+    synth_mDict = json.load(open(args.rmSynthfile[0], "r"))
+    QUarr, Imodel = calculate_QU_model(
+        freqArr,
+        phiArr,
+        CCArr,
+        lambdaSq_0,
+        Iparms,
+        fit_function=synth_mDict.get("fit_function", "log"),
+        reference_frequency_Hz=synth_mDict.get("freq0_Hz"),
+    )
 
     save_model(args.outfile[0], freqArr, Imodel, QUarr)
 
-- 
2.43.0


From 52cb298bdff20f2df9e10953ca7b778d11785342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:20 +0000
Subject: [PATCH 34/53] fix: rmtools_bwdepol accepts an array of channel widths

---
 RMtools_1D/rmtools_bwdepol.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index ccb5d11..27d72e9 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -307,7 +307,7 @@ def bwdepol_simulation(peak_rm, freqArr_Hz, widths_Hz):
          [freq_Hz, q, u,  dq, du]
 
     """
-    if widths_Hz == None:
+    if widths_Hz is None:
         widths_Hz = estimate_channel_bandwidth(freqArr_Hz)
 
     p_tilda = analytical_chan_pol(freqArr_Hz, widths_Hz, peak_rm)
@@ -935,7 +935,7 @@ def do_adjoint_rmsynth_planes(
         progress(40, 0)
 
     # calculate channel widths if necessary
-    if widths_Hz == None:
+    if widths_Hz is None:
         widths_Hz = estimate_channel_bandwidth(freqArr_Hz)
     for i in range(nPhi):
         if verbose:
@@ -1260,7 +1260,7 @@ def run_adjoint_rmsynth(
     mDict["min_freq"] = float(np.min(freqArr_Hz[good_channels]))
     mDict["max_freq"] = float(np.max(freqArr_Hz[good_channels]))
     mDict["N_channels"] = good_channels.size
-    if widths_Hz != None:
+    if widths_Hz is not None:
         mDict["median_channel_width"] = float(np.median(widths_Hz))
     else:
         mDict["median_channel_width"] = float(np.median(np.diff(freqArr_Hz)))
-- 
2.43.0


From d0da4727ec6d7c86b26a863e2d91bc199a6070fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:20 +0000
Subject: [PATCH 35/53] fix: rmtools_bwdepol reads 6-column input (widths, no
 Stokes I)

---
 RMtools_1D/rmtools_bwdepol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index 27d72e9..57277a2 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -1041,7 +1041,8 @@ def run_adjoint_rmsynth(
                 "> Six columns found, trying [freq_Hz, widths_Hz, Q, U, dQ, dU]",
                 end=" ",
             )
-        freqArr_Hz, width_Hz, QArr, UArr, dQArr, dUArr = data
+        freqArr_Hz, widths_Hz, QArr, UArr, dQArr, dUArr = data
+        noStokesI = True
     elif data.shape[0] == 5:
         if verbose:
             log("> Five columns found, trying [freq_Hz, Q, U, dQ, dU]", end=" ")
-- 
2.43.0


From 943a0188c249f03198ec8963dbb6666074cbb9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:20 +0000
Subject: [PATCH 36/53] fix: rmtools_bwdepol noise curve ignores channels
 without weight instead of becoming NaN

---
 RMtools_1D/rmtools_bwdepol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index 57277a2..466a045 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -185,6 +185,8 @@ def adjoint_theory(adjoint_vars, dQUArr, show_progress=False, log=print):
     """
 
     widths_Hz, freqArr_Hz, phiArr_radm2, K, weightArr = adjoint_vars
+    # Channels without weight do not contribute, whatever their noise
+    dQUArr = np.where(weightArr == 0, 0.0, dQUArr)
     adjoint_noise = np.ones(len(phiArr_radm2))
     adjoint_sens = np.ones(len(phiArr_radm2))
 
-- 
2.43.0


From ff2d26b2c23c8e8cacf02143542a2a313d980e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:21 +0000
Subject: [PATCH 37/53] fix: rmtools_bwdepol evaluates the Stokes I model it
 fitted, at the reference frequency

---
 RMtools_1D/rmtools_bwdepol.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index 466a045..b5d1ef6 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -47,9 +47,9 @@ from matplotlib.ticker import MaxNLocator
 from RMtools_1D.do_RMsynth_1D import saveOutput
 from RMutils.util_misc import (
     MAD,
+    calculate_StokesI_model,
     create_frac_spectra,
     nanmedian,
-    poly5,
     progress,
     toscalar,
 )
@@ -1089,7 +1089,7 @@ def run_adjoint_rmsynth(
         if verbose:
             log("Plotting the input data and spectral index fit.")
         freqHirArr_Hz = np.linspace(freqArr_Hz[0], freqArr_Hz[-1], 10000)
-        IModHirArr = poly5(fit_result.params)(freqHirArr_Hz / 1e9)
+        IModHirArr = calculate_StokesI_model(fit_result, freqHirArr_Hz / 1e9)
         specFig = plt.figure(figsize=(12.0, 8))
         plot_Ipqu_spectra_fig(
             freqArr_Hz=freqArr_Hz,
@@ -1218,7 +1218,8 @@ def run_adjoint_rmsynth(
     # Determine the Stokes I value at lam0Sq_m2 from the Stokes I model
     # Multiply the dirty FDF by Ifreq0 to recover the PI
     freq0_Hz = speed_of_light.value / m.sqrt(lam0Sq_m2)
-    Ifreq0 = poly5(fit_result.params)(freq0_Hz / 1e9)
+    # (the Stokes I model was fit with frequencies in GHz)
+    Ifreq0 = calculate_StokesI_model(fit_result, freq0_Hz / 1e9)
     dirtyFDF *= Ifreq0  # FDF is in fracpol units initially, convert back to flux
 
     # Calculate the theoretical noise in the FDF !!
-- 
2.43.0


From b27bee10ddd2f82f79a89d4076a4ca386fa9bb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:21 +0000
Subject: [PATCH 38/53] fix: rmtools_bwdepol RMSF and channel summary leave out
 channels flagged in Stokes U

---
 RMtools_1D/rmtools_bwdepol.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index b5d1ef6..e430d24 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -1168,6 +1168,9 @@ def run_adjoint_rmsynth(
     if verbose:
         log("Weight type is '%s'." % weightType)
 
+    # Channels flagged in either q or u are not used.
+    flagArr = ~np.logical_and(np.isfinite(qArr), np.isfinite(uArr))
+
     startTime = time.time()
 
     # Perform adjoint RM-synthesis on the spectrum
@@ -1199,7 +1202,7 @@ def run_adjoint_rmsynth(
         widths_Hz=widths_Hz,
         phiArr_radm2=phiArr_radm2,
         weightArr=weightArr,
-        mskArr=~np.isfinite(qArr),
+        mskArr=flagArr,
         lam0Sq_m2=lam0Sq_m2,
         double=True,
         fitRMSF=fitRMSF,
@@ -1260,7 +1263,7 @@ def run_adjoint_rmsynth(
         log("Caution: Stokes I model has low signal-to-noise.")
 
     # Add information on nature of channels:
-    good_channels = np.where(np.logical_and(weightArr != 0, np.isfinite(qArr)))[0]
+    good_channels = np.where(np.logical_and(weightArr != 0, ~flagArr))[0]
     mDict["min_freq"] = float(np.min(freqArr_Hz[good_channels]))
     mDict["max_freq"] = float(np.max(freqArr_Hz[good_channels]))
     mDict["N_channels"] = good_channels.size
-- 
2.43.0


From 8fac1fc394147196ee31de959a28156f312b3b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:21 +0000
Subject: [PATCH 39/53] fix: rmtools_bwdepol RMSF is sampled at the Faraday
 depths it is reported with

---
 RMtools_1D/rmtools_bwdepol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index e430d24..a800e59 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -631,7 +631,7 @@ def bwdepol_get_rmsf_planes(
         freqArr_Hz,
         RMSF_data[1],
         RMSF_data[2],
-        phiArr_radm2,
+        phi2Arr,
         widths_Hz=widths_Hz,
         weightArr=weightArr,
         lam0Sq_m2=lam0Sq_m2,
@@ -1356,7 +1356,7 @@ def run_adjoint_rmsynth(
         bwdepol_plot_rmsf_fdf_fig(
             phiArr=phiArr_radm2,
             FDF=(dirtyFDF / adjoint_sens),
-            phi2Arr=phiArr_radm2,
+            phi2Arr=phi2Arr_radm2,
             RMSFArr=RMSFArr,
             peak_rm=peak_rm,
             fwhmRMSF=fwhmRMSF,
-- 
2.43.0


From 367a42565226c2614cfbc76f754b788fc07a2071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:21 +0000
Subject: [PATCH 40/53] fix: rmtools_bwdepol -v no longer fails on a missing
 key before saving

---
 RMtools_1D/rmtools_bwdepol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index a800e59..a1b7ba9 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -1339,7 +1339,7 @@ def run_adjoint_rmsynth(
             % (mDict["ampPeakPIfit"], mDict["dAmpPeakPIfit"], units)
         )
         log("QU Noise = %.4g %s" % (mDict["dQU"], units))
-        log("FDF Noise (theory)   = %.4g %s" % (mDict["dFDFth"], units))
+        log("FDF Noise (theory)   = %.4g %s" % (dFDFth, units))
         log("FDF Noise (Corrected MAD) = %.4g %s" % (mDict["dFDFcorMAD"], units))
         log("FDF SNR = %.4g " % (mDict["snrPIfit"]))
         log(
-- 
2.43.0


From a16914d994bd831cb69373f03798243b14844945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:59 +0000
Subject: [PATCH 41/53] fix: MAD works along any axis, counted from the front
 or the back

---
 RMutils/util_misc.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index 37175b9..f721d80 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -1118,12 +1118,8 @@ def MAD(a, c=0.6745, axis=None):
         d = ma.median(a)
         m = ma.median(ma.fabs(a - d) / c)
     else:
-        d = ma.median(a, axis=axis)
-        if axis > 0:
-            aswp = ma.swapaxes(a, 0, axis)
-        else:
-            aswp = a
-        m = ma.median(ma.fabs(aswp - d) / c, axis=0)
+        d = ma.median(a, axis=axis, keepdims=True)
+        m = ma.median(ma.fabs(a - d) / c, axis=axis)
 
     return m
 
-- 
2.43.0


From f9c4601c990e97fc92855ea5ef305f53f179a37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:09 +0000
Subject: [PATCH 42/53] fix: blank channels do not count as scatter-free data
 in calc_sigma_add

---
 RMutils/util_RM.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index fbf16fc..96a79e5 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -1164,7 +1164,7 @@ def calc_sigma_add(xArr, yArr, dyArr, yMed=None, noise=None, nSamp=1000, suffix=
     # Measure the median and MADFM of the input data if not provided.
     # Used to overplot a normal distribution when debugging.
     if yMed is None:
-        yMed = np.median(yArr)
+        yMed = np.nanmedian(yArr)
     if noise is None:
         noise = MAD(yArr)
 
@@ -1176,11 +1176,13 @@ def calc_sigma_add(xArr, yArr, dyArr, yMed=None, noise=None, nSamp=1000, suffix=
     # Model deviation from Gaussian as an additional noise term.
     # Loop through the range of i additional noise samples and calculate
     # chi-squared and sum(ln(sigma_total)), used later to calculate likelihood.
-    nData = len(xArr)
+    # Blank data (NaN) are not part of the sample.
+    good = ~np.isnan(yArr)
+    nData = np.count_nonzero(good)
     chiSqArr = np.zeros_like(sigmaAddArr)
     lnSigmaSumArr = np.zeros_like(sigmaAddArr)
     for i, sigmaAdd in enumerate(sigmaAddArr):
-        sigmaSqTot = dyArr**2.0 + sigmaAdd**2.0
+        sigmaSqTot = np.where(good, dyArr**2.0 + sigmaAdd**2.0, np.nan)
         lnSigmaSumArr[i] = np.nansum(np.log(np.sqrt(sigmaSqTot)))
         chiSqArr[i] = np.nansum((yArr - yMed) ** 2.0 / sigmaSqTot)
     dof = nData - 1
-- 
2.43.0


From e99a6d82e8de382137e0d79f319e308706972be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:11 +0000
Subject: [PATCH 43/53] fix: Burn depolarisation of simulated spectra goes with
 the square of the Faraday dispersion

---
 RMutils/util_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index f721d80..f055824 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -1249,7 +1249,7 @@ def create_pqu_spectra_burn(
     pArr = fracPolArr * np.ones((nComps, nChans), dtype="f8")
     quArr = pArr * (
         np.exp(2j * (np.radians(psi0Arr_deg) + RMArr_radm2 * lamSqArr_m2))
-        * np.exp(-2.0 * sigmaRMArr_radm2 * np.power(lamArr_m, 4.0))
+        * np.exp(-2.0 * sigmaRMArr_radm2**2.0 * np.power(lamArr_m, 4.0))
     )
 
     # Sum along the component axis to create the final spectra
-- 
2.43.0


From f13af71ec5f6f6902b53eb935ed56641232a64ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:11 +0000
Subject: [PATCH 44/53] fix: create_pqu_spectra_diff accepts angles in a list,
 like its other arguments

---
 RMutils/util_misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index f055824..c3d2ff5 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -1302,7 +1302,8 @@ def create_pqu_spectra_diff(freqArr_Hz, fracPolArr, psi0Arr_deg, RMArr_radm2):
     # Convert lists to arrays
     freqArr_Hz = np.array(freqArr_Hz, dtype="f8")
     fracPolArr = np.array(fracPolArr, dtype="f8")
-    psi0Arr_rad = np.radians(psi0Arr_deg, dtype="f8")
+    psi0Arr_deg = np.array(psi0Arr_deg, dtype="f8")
+    psi0Arr_rad = np.radians(psi0Arr_deg)
     RMArr_radm2 = np.array(RMArr_radm2, dtype="f8")
 
     # Calculate some prerequsites
-- 
2.43.0


From 3102f7e973d6b95d2963a265ebb007c318a0fd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:20 +0000
Subject: [PATCH 45/53] fix: flagged channels of simulated flat-spectrum
 sources are blank in Stokes I too

---
 RMutils/util_misc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index c3d2ff5..083c91d 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -1286,6 +1286,7 @@ def create_IQU_spectra_burn(
 
     # Create the absolute value spectra
     IArr = fluxI * np.power(freqArr_Hz / freq0_Hz, SI)
+    IArr = np.where(np.isnan(freqArr_Hz), np.nan, IArr)  # NaN**0 is 1
     PArr = IArr * pArr
     QArr = IArr * qArr
     UArr = IArr * uArr
@@ -1352,6 +1353,7 @@ def create_IQU_spectra_diff(
 
     # Create the absolute value spectra
     IArr = fluxI * np.power(freqArr_Hz / freq0_Hz, SI)
+    IArr = np.where(np.isnan(freqArr_Hz), np.nan, IArr)  # NaN**0 is 1
     PArr = IArr * pArr
     QArr = IArr * qArr
     UArr = IArr * uArr
@@ -1385,6 +1387,7 @@ def create_IQU_spectra_RMthin(
     if freq0_Hz is None:
         freq0_Hz = freqArr_Hz[0]
     IArr = fluxI * np.power(freqArr_Hz / freq0_Hz, SI)
+    IArr = np.where(np.isnan(freqArr_Hz), np.nan, IArr)  # NaN**0 is 1
     PArr = IArr * pArr
     QArr = IArr * qArr
     UArr = IArr * uArr
-- 
2.43.0


From 13b769fd97c94ef8b2ffec1ef5e8711fce6f76d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:32 +0000
Subject: [PATCH 46/53] fix: calculate_RMSF reads whole-number frequencies and
 weights without integer overflow

---
 RMtools_1D/calculate_RMSF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMtools_1D/calculate_RMSF.py b/RMtools_1D/calculate_RMSF.py
index 486251a..c1352be 100755
--- a/RMtools_1D/calculate_RMSF.py
+++ b/RMtools_1D/calculate_RMSF.py
@@ -105,7 +105,7 @@ def main():
     # Order of priority: frequency file takes precedence over -i flag.
     #                   weight file takes precedence over 2nd column of frequency file.
     if args.freqFile != None:
-        data = np.genfromtxt(args.freqFile, encoding=None, dtype=None)
+        data = np.genfromtxt(args.freqFile, dtype=float)
         if len(data.shape) == 2:
             freq_array = data[:, 0]
             weights_array = data[:, 1]
@@ -122,7 +122,7 @@ def main():
         weights_array = np.ones_like(freq_array)
 
     if args.weightFile != None:
-        weights_array = np.genfromtxt(args.weightFile, encoding=None, dtype=None)
+        weights_array = np.genfromtxt(args.weightFile, dtype=float)
         if len(weights_array) != len(freq_array):
             raise Exception(
                 "Weights file does not have same number of channels as frequency source"
-- 
2.43.0


From ce58f6011e4f70e0ff6eeef36870974e3e8a35d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:09 +0000
Subject: [PATCH 47/53] fix: rmsynth3d accepts cubes whose axes are not named,
 or named in lower case

---
 RMtools_3D/do_RMsynth_3D.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMtools_3D/do_RMsynth_3D.py b/RMtools_3D/do_RMsynth_3D.py
index 76a1960..1dc906f 100755
--- a/RMtools_3D/do_RMsynth_3D.py
+++ b/RMtools_3D/do_RMsynth_3D.py
@@ -620,7 +620,7 @@ def writefits(
 
         stokes_axis = None
         for axis in range(1, header["NAXIS"] + 1):
-            if "STOKES" in header[f"CTYPE{axis}"]:
+            if "STOKES" in str(header.get(f"CTYPE{axis}", "")).upper():
                 stokes_axis = axis
         if stokes_axis is not None:
             header[f"CTYPE{stokes_axis}"] = (
@@ -674,7 +674,7 @@ def _setStokes(header, stokes):
     outheader = header.copy()
     stokes_axis = None
     for axis in range(1, header["NAXIS"] + 1):
-        if "STOKES" in header[f"CTYPE{axis}"]:
+        if "STOKES" in str(header.get(f"CTYPE{axis}", "")).upper():
             stokes_axis = axis
 
     if stokes_axis is not None:
-- 
2.43.0


From b2e5ef849feff9491a832471290dcf2ca2c3deb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:05 +0000
Subject: [PATCH 48/53] fix: the QU-fit chi-squared keeps the other Stokes
 parameter of a channel flagged in one

---
 RMtools_1D/do_QUfit_1D_mnest.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/RMtools_1D/do_QUfit_1D_mnest.py b/RMtools_1D/do_QUfit_1D_mnest.py
index 24640dd..be827e6 100644
--- a/RMtools_1D/do_QUfit_1D_mnest.py
+++ b/RMtools_1D/do_QUfit_1D_mnest.py
@@ -645,9 +645,8 @@ def chisq_model(parNames, p, lamSqArr_m2, qArr, dqArr, uArr, duArr, model):
     # Evaluate the model and calculate chisq
     pDict = {k: v for k, v in zip(parNames, p)}
     quMod = model(pDict, lamSqArr_m2)
-    chisq = np.nansum(
-        np.power((qArr - quMod.real) / dqArr, 2)
-        + np.power((uArr - quMod.imag) / duArr, 2)
+    chisq = np.nansum(np.power((qArr - quMod.real) / dqArr, 2)) + np.nansum(
+        np.power((uArr - quMod.imag) / duArr, 2)
     )
 
     return chisq
-- 
2.43.0


From a4e388e1e333486ee77425593fd6d72ae102f064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:05 +0000
Subject: [PATCH 49/53] fix: analytical_chan_pol applies the initial
 polarisation angle it is given

---
 RMtools_1D/rmtools_bwdepol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index a1b7ba9..791fa5c 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -281,7 +281,7 @@ def analytical_chan_pol(f, ban, phi, xi_knot=0, p=1):
         phi,
     )  # check orig for xi_knot
 
-    i = p * (yb - ya)
+    i = p * np.exp(2.0j * xi_knot) * (yb - ya)
     avg_p_tilda = i / ban
 
     return avg_p_tilda
-- 
2.43.0


From 1ad3cdcc66ebc2eed83a51657e95365236d4ecce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:55 +0000
Subject: [PATCH 50/53] fix: the derotated-angle error counts the channels in
 use, not the flagged ones

---
 RMtools_1D/do_RMclean_1D.py   | 2 +-
 RMtools_1D/do_RMsynth_1D.py   | 2 +-
 RMtools_1D/rmtools_bwdepol.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/RMtools_1D/do_RMclean_1D.py b/RMtools_1D/do_RMclean_1D.py
index 612afbe..69f7a53 100755
--- a/RMtools_1D/do_RMclean_1D.py
+++ b/RMtools_1D/do_RMclean_1D.py
@@ -170,7 +170,7 @@ def run_rmclean(
         phiArr=phiArr_radm2,
         fwhmRMSF=mDict["fwhmRMSF"],
         dFDF=mDict["dFDFth"],
-        lamSqArr_m2=lambdaSqArr_m2,
+        lamSqArr_m2=lambdaSqArr_m2[weightArr != 0],
         lam0Sq=mDict["lam0Sq_m2"],
     )
     mDict_cl["cleanCutoff"] = cutoff
diff --git a/RMtools_1D/do_RMsynth_1D.py b/RMtools_1D/do_RMsynth_1D.py
index 930cfb6..b0f2b48 100755
--- a/RMtools_1D/do_RMsynth_1D.py
+++ b/RMtools_1D/do_RMsynth_1D.py
@@ -380,7 +380,7 @@ def run_rmsynth(
         phiArr=phiArr_radm2,
         fwhmRMSF=fwhmRMSF,
         dFDF=dFDFth,
-        lamSqArr_m2=lambdaSqArr_m2,
+        lamSqArr_m2=lambdaSqArr_m2[weightArr != 0],
         lam0Sq=lam0Sq_m2,
     )
     mDict["Ifreq0"] = toscalar(Ifreq0)
diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index 791fa5c..c579c6f 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -1242,7 +1242,7 @@ def run_adjoint_rmsynth(
         adjoint_sens=adjoint_sens,
         adjoint_noise=adjoint_noise,
         dFDF=dFDFth,
-        lamSqArr_m2=lambdaSqArr_m2,
+        lamSqArr_m2=lambdaSqArr_m2[np.logical_and(weightArr != 0, ~flagArr)],
         lam0Sq=lam0Sq_m2,
     )
 
-- 
2.43.0


From ca55710e9dd942aeae10be5fe66db3a58e316dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:08 +0000
Subject: [PATCH 51/53] fix: extract_region's plane limits accept -1 and clip
 to the axis, as documented for every coordinate

---
 RMtools_3D/extract_region.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/RMtools_3D/extract_region.py b/RMtools_3D/extract_region.py
index 5c8fefb..a0fbd6d 100644
--- a/RMtools_3D/extract_region.py
+++ b/RMtools_3D/extract_region.py
@@ -139,7 +139,11 @@ def main():
         cube_axis = 2
 
     if args.zlim != None:
-        zlim = args.zlim
+        zlim = list(args.zlim)
+        if zlim[0] < 1:
+            zlim[0] = 1
+        if (zlim[1] == -1) or (zlim[1] > header["NAXIS" + str(cube_axis)]):
+            zlim[1] = header["NAXIS" + str(cube_axis)]
     elif cube_axis > 2:
         zlim = [1, header["NAXIS" + str(cube_axis)]]
 
-- 
2.43.0


From e7f5e2f865c4b6da73df92bb4d0e438cc196910e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:47 +0000
Subject: [PATCH 52/53] fix: the median channel width of descending channels is
 positive

---
 RMtools_1D/do_RMsynth_1D.py   | 2 +-
 RMtools_1D/rmtools_bwdepol.py | 2 +-
 RMtools_3D/RMpeakfit_3D.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/RMtools_1D/do_RMsynth_1D.py b/RMtools_1D/do_RMsynth_1D.py
index b0f2b48..907ec39 100755
--- a/RMtools_1D/do_RMsynth_1D.py
+++ b/RMtools_1D/do_RMsynth_1D.py
@@ -411,7 +411,7 @@ def run_rmsynth(
     mDict["min_freq"] = float(np.min(freqArr_Hz[good_channels]))
     mDict["max_freq"] = float(np.max(freqArr_Hz[good_channels]))
     mDict["N_channels"] = good_channels.size
-    mDict["median_channel_width"] = float(np.median(np.diff(freqArr_Hz)))
+    mDict["median_channel_width"] = float(np.median(np.abs(np.diff(freqArr_Hz))))
 
     # Measure the complexity of the q and u spectra
     # Use 'ampPeakPIfitEff' for bias correct PI
diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index c579c6f..46af21e 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -1270,7 +1270,7 @@ def run_adjoint_rmsynth(
     if widths_Hz is not None:
         mDict["median_channel_width"] = float(np.median(widths_Hz))
     else:
-        mDict["median_channel_width"] = float(np.median(np.diff(freqArr_Hz)))
+        mDict["median_channel_width"] = float(np.median(np.abs(np.diff(freqArr_Hz))))
 
     # Measure the complexity of the q and u spectra
     mDict["fracPol"] = mDict["ampPeakPIfit"] / (Ifreq0)
diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index 952c8d3..d718c33 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -128,7 +128,7 @@ def pixelwise_peak_fitting(
             mDict["min_freq"] = float(np.min(freqArr_Hz))
             mDict["max_freq"] = float(np.max(freqArr_Hz))
             mDict["N_channels"] = lamSqArr_m2.size
-            mDict["median_channel_width"] = float(np.median(np.diff(freqArr_Hz)))
+            mDict["median_channel_width"] = float(np.median(np.abs(np.diff(freqArr_Hz))))
             if dFDF_pix is not None:
                 mDict["dFDFth"] = dFDF_pix
             else:
-- 
2.43.0


From 97cc33d5d9880e90679ba982526a083b73745d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:39 +0000
Subject: [PATCH 53/53] fix: the fitted model cube's frequency axis comes from
 the last axis when none is named

---
 RMtools_3D/do_fitIcube.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/RMtools_3D/do_fitIcube.py b/RMtools_3D/do_fitIcube.py
index 3bfe5c6..1013b02 100755
--- a/RMtools_3D/do_fitIcube.py
+++ b/RMtools_3D/do_fitIcube.py
@@ -387,7 +387,12 @@ def savefits_model_I(data, header, outDir, prefixOut):
 
     # The model cube has the sky axes first and the frequency axis third
     freq_axis = find_freq_axis(header)
-    if freq_axis > 0 and (freq_axis != 3 or find_sky_axes(header, 3) != [1, 2]):
+    if freq_axis == 0:
+        # Not identified: the last (non-degenerate) axis, as when reading the cube
+        freq_axis = max(
+            i for i in range(1, header["NAXIS"] + 1) if header[f"NAXIS{i}"] > 1
+        )
+    if freq_axis != 3 or find_sky_axes(header, 3) != [1, 2]:
         input_header = header
         header = make_map_header(input_header, freq_axis)
         header["NAXIS"] = 3
-- 
2.43.0

