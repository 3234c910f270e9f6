From a3ec1dcb3c4cfca3067ee057ea7bf95f69d8ee93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 001/123] fix: pad_crop accepts numpy integer sizes and keeps
 the input dtype as documented

---
 falco/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/falco/util.py b/falco/util.py
index 00fd321..43a2529 100644
--- a/falco/util.py
+++ b/falco/util.py
@@ -224,14 +224,15 @@ def pad_crop(arrayIn, outsize, extrapval=0):
     try:
         if len(sh1) != 2:
             raise TypeError('Output dimensions must have 2 elements')
-        if (not isinstance(sh1[0], int)) or (not isinstance(sh1[1], int)):
+        if (not isinstance(sh1[0], int_types)) or \
+                (not isinstance(sh1[1], int_types)):
             raise TypeError('Output dimensions must be integers')
         if (sh1[0] <= 0) or (sh1[1] <= 0):
             raise TypeError('Output dimensions must be positive ' + 'integers')
     except TypeError:
         raise TypeError('outsize must be an iterable')
 
-    arrayOut = extrapval * np.ones(sh1, dtype=arrayIn.dtype)
+    arrayOut = np.full(sh1, extrapval, dtype=arrayIn.dtype)
 
     xneg = min(sh0[1]//2, sh1[1]//2)
     xpos = min(sh0[1] - sh0[1]//2, sh1[1] - sh1[1]//2)
-- 
2.43.0


From a8960ed6ec58d98824c357779bff9c89ba1e141d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 002/123] fix: bin_downsample raises the ValueError for
 indivisible array sizes

---
 falco/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/util.py b/falco/util.py
index 43a2529..2f720ba 100644
--- a/falco/util.py
+++ b/falco/util.py
@@ -567,7 +567,7 @@ def bin_downsample(Ain, dsfac):
     # Array Sizes
     ny0, nx0 = Ain.shape
     if (nx0 % dsfac != 0) or (ny0 % dsfac != 0):
-        ValueError('The size of Ain must be divisible by dsfac.')
+        raise ValueError('The size of Ain must be divisible by dsfac.')
 
     nx1 = int(nx0/dsfac)
     ny1 = int(ny0/dsfac)
-- 
2.43.0


From 8655ee91c368c675df9e7332cbf328b12b973760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 003/123] fix: mft_f2p uses deta for the vertical focal-plane
 coordinates

---
 falco/prop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/prop.py b/falco/prop.py
index 1b91514..23c43e9 100644
--- a/falco/prop.py
+++ b/falco/prop.py
@@ -158,7 +158,7 @@ def mft_f2p(E_foc, fl, wavelength, dxi, deta, dx, N, centering='pixel'):
 
     # Focal-plane coordinates
     xi = util.create_axis(Nxi, dxi, centering=centering)[:, None]  # Broadcast to column vector
-    eta = util.create_axis(Neta, dxi, centering=centering)[None, :]  # Broadcast to row vector
+    eta = util.create_axis(Neta, deta, centering=centering)[None, :]  # Broadcast to row vector
 
     # Pupil-plane coordinates
     x = util.create_axis(N, dx, centering=centering)[None, :]  # Broadcast to row vector
-- 
2.43.0


From ed87b26ee6153b68aa23ff1fb9074f3dc9666acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 004/123] fix: ifft2d inverts fft2d for odd-sized arrays

---
 falco/prop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/prop.py b/falco/prop.py
index 23c43e9..eede15e 100644
--- a/falco/prop.py
+++ b/falco/prop.py
@@ -254,7 +254,7 @@ def fft2d(arrayIn):
 
 def ifft2d(arrayIn):
     check.twoD_array(arrayIn, 'arrayIn', TypeError)
-    return np.fft.ifftshift(np.fft.ifft2(np.fft.fftshift(arrayIn), norm='ortho'))
+    return np.fft.fftshift(np.fft.ifft2(np.fft.ifftshift(arrayIn), norm='ortho'))
 
 
 def mft_p2v2p(pupilPre, charge, beamRadius, inVal, outVal, reverseGradient=False):
-- 
2.43.0


From 27a85f01a955e8e1a3e0c879c905a2b2f8c46bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:11 +0000
Subject: [PATCH 005/123] fix: enforce_constraints clamps the total (command
 plus bias) voltage to its limits

---
 falco/dm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/falco/dm.py b/falco/dm.py
index 3c42546..8aae71d 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -915,14 +915,15 @@ def enforce_constraints(dm):
 
     # Min voltage limit
     Vtotal = dm.V + dm.biasMap
+    biasVec = np.broadcast_to(dm.biasMap, dm.V.shape).flatten()
     new_inds = np.nonzero(Vtotal.flatten() < dm.Vmin)[0]  # linear indices of new actuators breaking their bounds
-    new_vals = dm.Vmin*np.ones(new_inds.size)
+    new_vals = dm.Vmin - biasVec[new_inds]  # command is relative to the bias
     dm.pinned = np.hstack([dm.pinned, new_inds])  # Augment the vector of pinned actuator linear indices
     dm.Vpinned = np.hstack([dm.Vpinned, new_vals])  # Augment the vector of pinned actuator values
 
     # Max voltage limit
     new_inds = np.nonzero(Vtotal.flatten() > dm.Vmax)[0]  # linear indices of new actuators breaking their bounds
-    new_vals = dm.Vmax*np.ones(new_inds.size)
+    new_vals = dm.Vmax - biasVec[new_inds]  # command is relative to the bias
     dm.pinned = np.hstack([dm.pinned, new_inds])     # Augment the vector of pinned actuator linear indices
     dm.Vpinned = np.hstack([dm.Vpinned, new_vals])  # Augment the vector of pinned actuator values
 
-- 
2.43.0


From b1396c3f3d5d0a868630ae89c3ac4d3b29820846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 006/123] fix: making a DM surface leaves the stored commands
 and pinned actuators unchanged

---
 falco/dm.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/falco/dm.py b/falco/dm.py
index 8aae71d..9764a53 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -1,4 +1,5 @@
 """Module for DM-related functions."""
+import copy
 import os
 from math import sin, cos, radians
 
@@ -64,8 +65,10 @@ def gen_surf_from_act(dm, dx, Nout):
 
     bm = proper.prop_begin(Narray*dx, wl_dummy, Narray, pupil_ratio)
 
-    # Apply various constraints to DM commands
-    dm = enforce_constraints(dm)
+    # Apply various constraints to DM commands. Work on a shallow copy so that
+    # making a surface does not change the stored commands or pinned actuators.
+    dmStored = dm
+    dm = enforce_constraints(copy.copy(dmStored))
 
     # Quantization of DM actuation steps based on least significant bit of the
     # DAC (digital-analog converter). In height, so called HminStep
@@ -115,6 +118,7 @@ def gen_surf_from_act(dm, dx, Nout):
                     spacing=dm.dm_spacing, XTILT=dm.xtilt, YTILT=dm.ytilt, ZTILT=dm.zrot,
                     ZYX=True, inf_sign=dm.inf_sign, inf_fn=dm.inf_fn,
                 )
+            dmStored.differentiableModel = dm.differentiableModel
         else:
             dm.differentiableModel.update(heightMap)
             
-- 
2.43.0


From 38915a9f7c453e04a04ef22f44239b9b7a344452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 007/123] fix: out-of-range commands do not overwrite the
 values of pinned actuators

---
 falco/dm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/falco/dm.py b/falco/dm.py
index 9764a53..be66305 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -921,12 +921,14 @@ def enforce_constraints(dm):
     Vtotal = dm.V + dm.biasMap
     biasVec = np.broadcast_to(dm.biasMap, dm.V.shape).flatten()
     new_inds = np.nonzero(Vtotal.flatten() < dm.Vmin)[0]  # linear indices of new actuators breaking their bounds
+    new_inds = new_inds[~np.isin(new_inds, dm.pinned)]  # pinned actuators keep their values
     new_vals = dm.Vmin - biasVec[new_inds]  # command is relative to the bias
     dm.pinned = np.hstack([dm.pinned, new_inds])  # Augment the vector of pinned actuator linear indices
     dm.Vpinned = np.hstack([dm.Vpinned, new_vals])  # Augment the vector of pinned actuator values
 
     # Max voltage limit
     new_inds = np.nonzero(Vtotal.flatten() > dm.Vmax)[0]  # linear indices of new actuators breaking their bounds
+    new_inds = new_inds[~np.isin(new_inds, dm.pinned)]  # pinned actuators keep their values
     new_vals = dm.Vmax - biasVec[new_inds]  # command is relative to the bias
     dm.pinned = np.hstack([dm.pinned, new_inds])     # Augment the vector of pinned actuator linear indices
     dm.Vpinned = np.hstack([dm.Vpinned, new_vals])  # Augment the vector of pinned actuator values
-- 
2.43.0


From 9ff5ac758050aeb1e0aab12a415c8deeda98836b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 008/123] fix: influence-function datacube is not shifted by
 half a pixel for interpixel centering

---
 falco/dm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/falco/dm.py b/falco/dm.py
index be66305..59fe712 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -768,7 +768,8 @@ def gen_poke_cube(dm, mp, dx_dm, **kwargs):
 
         # Find the locations of the postage stamps arrays in the larger pupilPad array
         dm.xy_cent_act_inPix = dm.xy_cent_act*(dm.dm_spacing/dx_dm)  # Convert units to pupil-plane pixels
-        dm.xy_cent_act_inPix = dm.xy_cent_act_inPix + 0.5  # For the half-pixel offset if pixel centered.
+        if dm.centering == 'pixel':
+            dm.xy_cent_act_inPix = dm.xy_cent_act_inPix + 0.5  # For the half-pixel offset if pixel centered.
         dm.xy_cent_act_box = np.round(dm.xy_cent_act_inPix)  # Center locations of the postage stamps (in between pixels), in actuator widths
         dm.xy_cent_act_box_inM = dm.xy_cent_act_box*dx_dm  # now in meters
         dm.xy_box_lowerLeft = dm.xy_cent_act_box + (dm.NdmPad-Nbox)/2 - 0  # index of pixel in lower left of the postage stamp within the whole pupilPad array. +0 for Python, +1 for Matlab
-- 
2.43.0


From 3b5f4b01d74ae710a3fe4baed658cb77faf6c421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:15 +0000
Subject: [PATCH 009/123] fix: interpixel centering offset of a clocked DM
 surface is applied in the wavefront frame

---
 falco/dm.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/falco/dm.py b/falco/dm.py
index 59fe712..58c29a6 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -132,13 +132,13 @@ def gen_surf_from_act(dm, dx, Nout):
     else:
         if flagXYZ:
             DMsurf = falco.dm.propcustom_dm(
-                bm, heightMap, dm.xc-cshift, dm.yc-cshift, dm.dm_spacing,
+                bm, heightMap, dm.xc, dm.yc, dm.dm_spacing, GRID_SHIFT=-cshift*dm.dm_spacing,
                 XTILT=dm.xtilt, YTILT=dm.ytilt, ZTILT=dm.zrot, XYZ=True,
                 inf_sign=dm.inf_sign, inf_fn=dm.inf_fn,
             )
         else:
             DMsurf = falco.dm.propcustom_dm(
-                bm, heightMap, dm.xc-cshift, dm.yc-cshift, dm.dm_spacing,
+                bm, heightMap, dm.xc, dm.yc, dm.dm_spacing, GRID_SHIFT=-cshift*dm.dm_spacing,
                 XTILT=dm.xtilt, YTILT=dm.ytilt, ZTILT=dm.zrot, ZYX=True,
                 inf_sign=dm.inf_sign, inf_fn=dm.inf_fn,
             )
@@ -260,6 +260,10 @@ def propcustom_dm(wf, dm_z0, dm_xc, dm_yc, spacing=0., **kwargs):
     XYZ or ZYX : bool
         Specifies the rotation order if two or more of XTILT, YTILT, or ZTILT
         are specified. The default is /XYZ for X, Y, then Z rotations.
+    GRID_SHIFT : float
+        Offset in meters, along both axes of the wavefront grid, of the pixel
+        centers at which the surface is sampled (half a pixel for arrays with
+        interpixel centering). Default is 0.
     inf_fn : string
         specify a new influence function as a FITS file with the same header keywords as 
         PROPER's default influence function. Needs these values in info.PrimaryData.Keywords:
@@ -415,8 +419,11 @@ def propcustom_dm(wf, dm_z0, dm_xc, dm_yc, spacing=0., **kwargs):
     if ydim > n:
         ydim = n
 
-    x = np.ones((ydim, 1)) * ((np.arange(xdim) - xdim // 2) * dx_surf)
-    y = (np.ones((xdim, 1)) * ((np.arange(ydim) - ydim // 2) * dx_surf)).T
+    # offset of the pixel centers in the (un-rotated) wavefront frame
+    grid_shift = kwargs.get("GRID_SHIFT", 0.)
+
+    x = np.ones((ydim, 1)) * ((np.arange(xdim) - xdim // 2) * dx_surf + grid_shift)
+    y = (np.ones((xdim, 1)) * ((np.arange(ydim) - ydim // 2) * dx_surf + grid_shift)).T
     # x = np.ones((ydim, 1), dtype=int) * ((np.arange(xdim) - xdim // 2) * dx_surf)
     # y = (np.ones((xdim, 1), dtype=int) * ((np.arange(ydim) - ydim // 2) * dx_surf)).T
 
-- 
2.43.0


From 20f49ee0ec2d3a02898770b3181367943373b0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:22 +0000
Subject: [PATCH 010/123] fix: fit_surf_to_act accounts for the DM orientation

---
 falco/dm.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/falco/dm.py b/falco/dm.py
index 58c29a6..464d085 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -1037,6 +1037,17 @@ def fit_surf_to_act(dm, surfaceToFit):
     else:
         raise ValueError('Invalid or missing value of dm.surfFitMethod')
 
+    # Undo the orientation change made to the commands in gen_surf_from_act().
+    if hasattr(dm, 'orientation'):
+        orientation = dm.orientation.lower()
+        rotations = {'rot0': 0, 'rot90': 1, 'rot180': 2, 'rot270': 3}
+        if orientation.replace('flipx', '', 1) not in rotations:
+            raise ValueError('invalid value of dm.orientation')
+        nRot = rotations[orientation.replace('flipx', '', 1)]
+        heightAtActRes = np.rot90(heightAtActRes, -nRot)
+        if orientation.startswith('flipx'):
+            heightAtActRes = np.fliplr(heightAtActRes)
+
     Vout = heightAtActRes/dm.VtoH
     Vout[np.isinf(Vout)] = 0
 
-- 
2.43.0


From a656a1a0bcfbf196ecb3f7c1322fe8f5fc87a95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 011/123] fix: build_prefilter stores each actuator's response
 as a column, as the fit assumes

---
 falco/dm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/falco/dm.py b/falco/dm.py
index 464d085..92fe527 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -1530,7 +1530,8 @@ def build_prefilter(nrow, ncol, inf_func, ppa_in):
         act_effect[j, :] = dm_surface.ravel()
         pass
 
-    return act_effect.tocsr()  # Want CSR for fast matrix solve later
+    # Each actuator's effect is a column of the matrix.
+    return act_effect.T.tocsr()  # Want CSR for fast matrix solve later
 
 
 def resample_inf_func(inf_func, ppa_in, ppa_out):
-- 
2.43.0


From ce235db0923f97afab6923f4b4c4a0be3071fc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:11 +0000
Subject: [PATCH 012/123] fix: surface fitting applies the interpixel offset of
 a clocked DM in the wavefront frame

---
 falco/dm.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/falco/dm.py b/falco/dm.py
index 92fe527..a8f3a7b 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -1017,14 +1017,16 @@ def fit_surf_to_act(dm, surfaceToFit):
         cshift = -wArray/2./nSurface/dm.dm_spacing if(dm.centering == 'interpixel') else 0.
         if flagXYZ:
             gridDerotAtActRes = derotate_resize_surface(
-                surfaceToFit, dm.dx, dm.Nact, dm.xc-cshift, dm.yc-cshift,
-                dm.dm_spacing, XTILT=dm.xtilt, YTILT=dm.ytilt, ZTILT=dm.zrot,
-                XYZ=True, inf_sign=dm.inf_sign, inf_fn=dm.inf_fn)
+                surfaceToFit, dm.dx, dm.Nact, dm.xc, dm.yc, dm.dm_spacing,
+                XTILT=dm.xtilt, YTILT=dm.ytilt, ZTILT=dm.zrot, XYZ=True,
+                inf_sign=dm.inf_sign, inf_fn=dm.inf_fn,
+                GRID_SHIFT=-cshift*dm.dm_spacing)
         else:
             gridDerotAtActRes = derotate_resize_surface(
-                surfaceToFit, dm.dx, dm.Nact, dm.xc-cshift, dm.yc-cshift,
-                dm.dm_spacing, XTILT=dm.xtilt, YTILT=dm.ytilt, ZTILT=dm.zrot,
-                ZYX=True, inf_sign=dm.inf_sign, inf_fn=dm.inf_fn)
+                surfaceToFit, dm.dx, dm.Nact, dm.xc, dm.yc, dm.dm_spacing,
+                XTILT=dm.xtilt, YTILT=dm.ytilt, ZTILT=dm.zrot, ZYX=True,
+                inf_sign=dm.inf_sign, inf_fn=dm.inf_fn,
+                GRID_SHIFT=-cshift*dm.dm_spacing)
 
     elif nSurface < dm.Nact:
         raise ValueError('surfaceToFit cannot be smaller than [Nact x Nact].')
@@ -1145,6 +1147,11 @@ def derotate_resize_surface(surfaceToFit, dx, Nact, dm_xc, dm_yc, spacing,
         Specifies the rotation order if two or more of XTILT, YTILT, or ZTILT
         are specified. The default is /XYZ for X, Y, then Z rotations.
 
+    GRID_SHIFT : float
+        Offset in meters, along both axes of the wavefront grid, of the pixel
+        centers at which the surface is sampled (half a pixel for arrays with
+        interpixel centering). Default is 0.
+
    inf_fn : string
         specify a new influence function as a FITS file with the same header keywords as
         PROPER's default influence function. Needs these values in info.PrimaryData.Keywords:
@@ -1198,6 +1205,9 @@ def derotate_resize_surface(surfaceToFit, dx, Nact, dm_xc, dm_yc, spacing,
     else:
         ztilt = 0.
 
+    # offset of the pixel centers in the (un-rotated) wavefront frame
+    grid_shift = kwargs.get("GRID_SHIFT", 0.)
+
     dm_z = np.eye(Nact)
 
     if "inf_fn" in kwargs:
@@ -1326,6 +1336,8 @@ def derotate_resize_surface(surfaceToFit, dx, Nact, dm_xc, dm_yc, spacing,
     dy_dxs = (new_xyz[0, 1] - new_xyz[1, 1]) / (edge[0, 0] - edge[1, 0])
     dy_dys = (new_xyz[1, 1] - new_xyz[2, 1]) / (edge[1, 1] - edge[2, 1])
 
+    x = x + grid_shift
+    y = y + grid_shift
     xs = (x/dx_dxs - y*dx_dys/(dx_dxs*dy_dys)) / \
         (1 - dy_dxs*dx_dys/(dx_dxs*dy_dys))
     ys = (y/dy_dys - x*dy_dxs/(dx_dxs*dy_dys)) / \
-- 
2.43.0


From 3e07b2927fc477fa911524e21bf81bfa52bc2083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 013/123] fix: full model and Jacobian use the same (phase)
 Zernike term as the compact model

---
 falco/model/jacobians.py | 2 +-
 falco/model/models.py    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/falco/model/jacobians.py b/falco/model/jacobians.py
index cc91428..b0a0249 100644
--- a/falco/model/jacobians.py
+++ b/falco/model/jacobians.py
@@ -114,7 +114,7 @@ def precomp(mp):
             zernMat = np.squeeze(falco.zern.gen_norm_zern_maps(
                 mp.P1.compact.Nbeam, mp.centering, indsZnoll))
             zernMat = pad_crop(zernMat, mp.P1.compact.Narr)
-            Ein *= zernMat*(2*np.pi/wvl)*mp.jac.Zcoef[
+            Ein *= zernMat*(2*np.pi*1j/wvl)*mp.jac.Zcoef[
                 mp.jac.zerns == modvar.zernIndex]
 
         """ Masks and DM surfaces """
diff --git a/falco/model/models.py b/falco/model/models.py
index cc82748..7fdc55d 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -99,8 +99,8 @@ def full(mp, modvar, isNorm=True):
                                                            mp.centering,
                                                            indsZnoll))
         zernMat = pad_crop(zernMat, mp.P1.full.Narr)
-        Ein = Ein*zernMat*(2*np.pi/wvl)*mp.jac.Zcoef[mp.jac.zerns ==
-                                                     modvar.zernIndex]
+        Ein = Ein*zernMat*(2*np.pi*1j/wvl)*mp.jac.Zcoef[mp.jac.zerns ==
+                                                        modvar.zernIndex]
 
     # %% Pre-compute the FPM first for HLC
     if mp.Nsbp > 1 and mp.Nwpsbp > 1:
-- 
2.43.0


From 89c64ed4134164cd5a154de375547380dda6aee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 014/123] fix: DM wavefront error maps are applied in every
 model instead of raising

---
 falco/model/jacobians.py | 16 ++++++++--------
 falco/model/models.py    | 15 ++++++++++-----
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/falco/model/jacobians.py b/falco/model/jacobians.py
index b0a0249..7e83e36 100644
--- a/falco/model/jacobians.py
+++ b/falco/model/jacobians.py
@@ -152,11 +152,11 @@ def precomp(mp):
         # This block is for BMC surface error testing
         if mp.flagDMwfe:  # if(mp.flagDMwfe && (mp.P1.full.Nbeam==mp.P1.compact.Nbeam))
             if any(mp.dm_ind == 1):
-                Edm1WFE = np.exp(2*np.pi*1j/wvl*pad_crop(mp.dm1.compact.wfe, NdmPad, 'extrapval', 0))
+                Edm1WFE = np.exp(2*np.pi*1j/wvl*pad_crop(mp.dm1.compact.wfe, NdmPad, extrapval=0))
             else:
                 Edm1WFE = np.ones((NdmPad, NdmPad))
             if any(mp.dm_ind == 2):
-                Edm2WFE = np.exp(2*np.pi*1j/wvl*pad_crop(mp.dm2.compact.wfe, NdmPad, 'extrapval', 0))
+                Edm2WFE = np.exp(2*np.pi*1j/wvl*pad_crop(mp.dm2.compact.wfe, NdmPad, extrapval=0))
             else:
                 Edm2WFE = np.ones((NdmPad, NdmPad))
         else:
@@ -331,11 +331,11 @@ def lyot(mp, imode, idm, iact):
     # This block is for BMC surface error testing
     if mp.flagDMwfe:  # if(mp.flagDMwfe && (mp.P1.full.Nbeam==mp.P1.compact.Nbeam))
         # if any(mp.dm_ind == 1):
-        #     Edm1WFE = np.exp(2*np.pi*1j/wvl*pad_crop(mp.dm1.compact.wfe, NdmPad, 'extrapval', 0))
+        #     Edm1WFE = np.exp(2*np.pi*1j/wvl*pad_crop(mp.dm1.compact.wfe, NdmPad, extrapval=0))
         # else:
         #     Edm1WFE = np.ones((NdmPad, NdmPad))
         if any(mp.dm_ind == 2):
-            Edm2WFE = np.exp(2*np.pi*1j/wvl*pad_crop(mp.dm2.compact.wfe, NdmPad, 'extrapval', 0))
+            Edm2WFE = np.exp(2*np.pi*1j/wvl*pad_crop(mp.dm2.compact.wfe, NdmPad, extrapval=0))
         else:
             Edm2WFE = np.ones((NdmPad, NdmPad))
     else:
@@ -774,12 +774,12 @@ def vortex(mp, imode, idm, iact):
     if mp.flagDMwfe:
         # if any(mp.dm_ind == 1):
         #     Edm1WFE = np.exp(2*np.pi*1j/wvl*pad_crop(mp.dm1.compact.wfe,
-        #                                              NdmPad, 'extrapval', 0))
+        #                                              NdmPad, extrapval=0))
         # else:
         #     Edm1WFE = np.ones((NdmPad, NdmPad))
         if any(mp.dm_ind == 2):
             Edm2WFE = np.exp(2*np.pi*1j/wvl*pad_crop(mp.dm2.compact.wfe,
-                                                     NdmPad, 'extrapval', 0))
+                                                     NdmPad, extrapval=0))
         else:
             Edm2WFE = np.ones((NdmPad, NdmPad))
     else:
@@ -1098,12 +1098,12 @@ def no_fpm(mp, imode, idm, iact):
     if mp.flagDMwfe:
         # if any(mp.dm_ind == 1):
         #     Edm1WFE = np.exp(2*np.pi*1j/wvl*pad_crop(mp.dm1.compact.wfe,
-        #                                              NdmPad, 'extrapval', 0))
+        #                                              NdmPad, extrapval=0))
         # else:
         #     Edm1WFE = np.ones((NdmPad, NdmPad))
         if any(mp.dm_ind == 2):
             Edm2WFE = np.exp(2*np.pi*1j/wvl*pad_crop(mp.dm2.compact.wfe,
-                                                     NdmPad, 'extrapval', 0))
+                                                     NdmPad, extrapval=0))
         else:
             Edm2WFE = np.ones((NdmPad, NdmPad))
     else:
diff --git a/falco/model/models.py b/falco/model/models.py
index 7fdc55d..2211abf 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -257,9 +257,14 @@ def full_Fourier(mp, wvl, Ein, normFac, flagScaleFPM=False):
         DM2stop = np.ones((NdmPad, NdmPad))
 
     if mp.flagDMwfe:
-        pass
-        # if(any(mp.dm_ind==1));  Edm1WFE = exp(2*np.pi*1j/wvl*pad_crop(mp.dm1.wfe,NdmPad,'extrapval',0)); else; Edm1WFE = ones(NdmPad); end
-        # if(any(mp.dm_ind==2));  Edm2WFE = exp(2*np.pi*1j/wvl*pad_crop(mp.dm2.wfe,NdmPad,'extrapval',0)); else; Edm2WFE = ones(NdmPad); end
+        if any(mp.dm_ind == 1):
+            Edm1WFE = np.exp(2*np.pi*1j/wvl*pad_crop(mp.dm1.wfe, NdmPad, extrapval=0))
+        else:
+            Edm1WFE = np.ones((NdmPad, NdmPad))
+        if any(mp.dm_ind == 2):
+            Edm2WFE = np.exp(2*np.pi*1j/wvl*pad_crop(mp.dm2.wfe, NdmPad, extrapval=0))
+        else:
+            Edm2WFE = np.ones((NdmPad, NdmPad))
     else:
         Edm1WFE = np.ones((NdmPad, NdmPad))
         Edm2WFE = np.ones((NdmPad, NdmPad))
@@ -872,13 +877,13 @@ def compact_general(mp, wvl, Ein, normFac, flagEval, flagScaleFPM=False,
         if any(mp.dm_ind == 1):
             Edm1WFE = np.exp(2*np.pi*1j/wvl *
                              pad_crop(mp.dm1.compact.wfe,
-                                      NdmPad, 'extrapval', 0))
+                                      NdmPad, extrapval=0))
         else:
             Edm1WFE = np.ones((NdmPad, NdmPad))
         if any(mp.dm_ind == 2):
             Edm2WFE = np.exp(2*np.pi*1j/wvl *
                              pad_crop(mp.dm2.compact.wfe,
-                                      NdmPad, 'extrapval', 0))
+                                      NdmPad, extrapval=0))
         else:
             Edm2WFE = np.ones((NdmPad, NdmPad))
     else:
-- 
2.43.0


From de476c31056b445d2d3cd9f024183653a0010efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 015/123] fix: a DM1 aperture stop can be generated

---
 falco/setup.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/falco/setup.py b/falco/setup.py
index a03b259..575618e 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -1296,6 +1296,10 @@ def falco_configure_dm1_and_dm2(mp):
 
 def falco_gen_dm_stops(mp):
     """Generate circular aperture stops for the DMs."""
+    if not hasattr(mp.dm1, 'full'):
+        mp.dm1.full = falco.config.Object()
+    if not hasattr(mp.dm1, 'compact'):
+        mp.dm1.compact = falco.config.Object()
     if not hasattr(mp.dm2, 'full'):
         mp.dm2.full = falco.config.Object()
     if not hasattr(mp.dm2, 'compact'):
-- 
2.43.0


From a0421cc2512bb78588a00995026e2b799b44eca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 016/123] fix: full model, compact model and Jacobian scale the
 FPM with wavelength in the same cases

---
 falco/model/jacobians.py | 3 ++-
 falco/model/models.py    | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/falco/model/jacobians.py b/falco/model/jacobians.py
index 7e83e36..180a231 100644
--- a/falco/model/jacobians.py
+++ b/falco/model/jacobians.py
@@ -251,7 +251,8 @@ def lyot(mp, imode, idm, iact):
     surfIntoPhase = 2.  # Phase change is twice the DM surface height.
 
     # Default is that FPM sampling does not vary with wavelength
-    if mp.layout.lower() == 'fpm_scale':
+    if mp.layout.lower() == 'fpm_scale' or \
+            (mp.coro.upper() == 'HLC' and mp.layout.lower() != 'fourier'):
         scaleFac = wvl/mp.lambda0
     else:
         scaleFac = 1
diff --git a/falco/model/models.py b/falco/model/models.py
index 2211abf..1e7e6f8 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -314,8 +314,8 @@ def full_Fourier(mp, wvl, Ein, normFac, flagScaleFPM=False):
         #  MFT from FPM to Lyot Plane (i.e., F3 to P4)
         EP4subtrahend = falco.prop.mft_f2p(EF3, mp.fl, wvl,
                                            fpmScaleFac*mp.F3.full.dxi,
-                                           mp.F3.full.deta,
-                                           fpmScaleFac*mp.P4.full.dx,
+                                           fpmScaleFac*mp.F3.full.deta,
+                                           mp.P4.full.dx,
                                            mp.P4.full.Narr, mp.centering)
         # Babinet's principle at P4
         EP4noFPM = falco.prop.relay(EP3, NrelayFactor*mp.Nrelay3to4, mp.centering)
@@ -761,7 +761,7 @@ def compact(mp, modvar, isNorm=True, isEvalMode=False, useFPM=True,
 
     elif mp.layout.lower() in ('roman_phasec_proper', 'wfirst_phaseb_proper',
                                'proper', 'fpm_scale'):
-        if mp.coro.upper() == 'HLC':
+        if mp.coro.upper() == 'HLC' or mp.layout.lower() == 'fpm_scale':
             Eout = compact_general(mp, wvl, Ein, normFac, flagEval,
                                    flagScaleFPM=True, useFPM=useFPM,
                                    forRevGradModel=forRevGradModel)
-- 
2.43.0


From 0d435046e76e9021994fabd05c830df40e5aa7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 017/123] fix: full model accepts the AVC coronagraph type like
 the other models

---
 falco/model/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index 1e7e6f8..0373592 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -374,7 +374,7 @@ def full_Fourier(mp, wvl, Ein, normFac, flagScaleFPM=False):
                                  mp.P4.full.Narr, mp.centering)
         EP4 = falco.prop.relay(EP4, NrelayFactor*mp.Nrelay3to4 - 1, mp.centering)
 
-    elif mp.coro.upper() in ('VORTEX', 'VC'):
+    elif mp.coro.upper() in ('VORTEX', 'VC', 'AVC'):
         # Get FPM charge
         if isinstance(mp.F3.VortexCharge, np.ndarray):
             # Passing an array for mp.F3.VortexCharge with
-- 
2.43.0


From e54a016a9ae707c97105a5c851550f774552710d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 018/123] fix: vortex Jacobian for DM1 uses the Lyot-plane
 sampling

---
 falco/model/jacobians.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/model/jacobians.py b/falco/model/jacobians.py
index 180a231..ceb289f 100644
--- a/falco/model/jacobians.py
+++ b/falco/model/jacobians.py
@@ -887,7 +887,7 @@ def vortex(mp, imode, idm, iact):
 
         # MFT to camera
         EP4 = fp.relay(EP4, NrelayFactor*mp.NrelayFend, mp.centering)  # Rotate the final image 180 degrees if necessary
-        EFend = fp.mft_p2f(EP4, mp.fl, wvl, mp.P2.compact.dx, mp.Fend.dxi, mp.Fend.Nxi, mp.Fend.deta, mp.Fend.Neta, mp.centering)
+        EFend = fp.mft_p2f(EP4, mp.fl, wvl, mp.P4.compact.dx, mp.Fend.dxi, mp.Fend.Nxi, mp.Fend.deta, mp.Fend.Neta, mp.centering)
 
         Gchunk = EFend[mp.Fend.corr.maskBool]/np.sqrt(mp.Fend.compact.I00[modvar.sbpIndex])
 
-- 
2.43.0


From 98b9d4460396700661f897af68ed537fa25a148f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 019/123] fix: parallel Jacobian indexes columns by position in
 act_ele and skips unused DMs

---
 falco/model/models.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index 0373592..481c007 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -1161,14 +1161,18 @@ def jacobian(mp):
             #     )
             # results_tuple = tuple(result)
 
-            results_order_dm1 = [(imode, idm, iact) for iact in mp.dm1.act_ele for idm in [1, ] for imode in range(mp.jac.Nmode)]
-            results_order_dm2 = [(imode, idm, iact) for iact in mp.dm2.act_ele for idm in [2, ] for imode in range(mp.jac.Nmode)]
+            results_order_dm1 = []
+            results_order_dm2 = []
+            if any(mp.dm_ind == 1):
+                results_order_dm1 = [(imode, 1, index, iact) for index, iact in enumerate(mp.dm1.act_ele) for imode in range(mp.jac.Nmode)]
+            if any(mp.dm_ind == 2):
+                results_order_dm2 = [(imode, 2, index, iact) for index, iact in enumerate(mp.dm2.act_ele) for imode in range(mp.jac.Nmode)]
             results_order = results_order_dm1 + results_order_dm2
 
             with PoolExecutor(max_workers=mp.Nthreads) as executor:
                 result = executor.map(
                     lambda p: _jac_middle_layer(*p),
-                    [(mp, imode, idm, iact) for imode, idm, iact in results_order]
+                    [(mp, imode, idm, iact) for imode, idm, _, iact in results_order]
                 )
             results_tuple = tuple(result)
 
@@ -1176,15 +1180,11 @@ def jacobian(mp):
             for ii in range(len(results_order)):
                 imode = results_order[ii][0]
                 idm = results_order[ii][1]
-                iact = results_order[ii][2]
+                index = results_order[ii][2]
                 if idm == 1:
-                    jacStruct.G1[:, iact, imode] = results_tuple[ii]
+                    jacStruct.G1[:, index, imode] = results_tuple[ii]
                 if idm == 2:
-                    jacStruct.G2[:, iact, imode] = results_tuple[ii]
-                if idm == 8:
-                    jacStruct.G8[:, iact, imode] = results_tuple[ii]
-                if idm == 9:
-                    jacStruct.G9[:, iact, imode] = results_tuple[ii]
+                    jacStruct.G2[:, index, imode] = results_tuple[ii]
 
             print('done.')
 
-- 
2.43.0


From c6823132da76355351183facea47141adfb9070a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 020/123] fix: reassemble_jac_from_slices enumerates the
 actuators

---
 falco/model/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index 481c007..1805117 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -1291,11 +1291,11 @@ def reassemble_jac_from_slices(mp):
     # Reorder Jacobian by mode and DM from the list
     for imode in range(mp.jac.Nmode):
 
-        for index, iact in mp.dm1.act_ele:
+        for index, iact in enumerate(mp.dm1.act_ele):
             fn_dm1 = os.path.join(mp.path.jac, 'jac_mode%d_dm1_act%d.npy' % (imode, iact))
             jacStruct.G1[:, index, imode] = np.load(fn_dm1)
 
-        for index, iact in mp.dm2.act_ele:
+        for index, iact in enumerate(mp.dm2.act_ele):
             fn_dm2 = os.path.join(mp.path.jac, 'jac_mode%d_dm2_act%d.npy' % (imode, iact))
             jacStruct.G2[:, index, imode] = np.load(fn_dm2)
 
-- 
2.43.0


From d9ad382517d0ddaa470b584b7fa71cd7984bc1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:49 +0000
Subject: [PATCH 021/123] fix: Jacobian of the unocculted peak is evaluated at
 the peak's pixel for any centering, star position and FPM

---
 falco/model/jacobians.py | 48 +++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/falco/model/jacobians.py b/falco/model/jacobians.py
index ceb289f..3cc3aea 100644
--- a/falco/model/jacobians.py
+++ b/falco/model/jacobians.py
@@ -17,6 +17,7 @@ def precomp(mp):
     mp.jac.Edm1_list = []
     mp.jac.Edm2_list = []
     mp.jac.Epeak_list = []
+    mp.jac.indPeak_list = []
     mp.jac.Eocculted_list = []
 
     # For vortex only
@@ -172,6 +173,7 @@ def precomp(mp):
             indPeak = np.unravel_index(np.argmax(np.abs(Eunocculted), axis=None), Eunocculted.shape)
             Epeak = Eunocculted[indPeak]
             mp.jac.Epeak_list.append(Epeak)
+            mp.jac.indPeak_list.append(indPeak)
             mp.jac.Eocculted_list.append(Eocculted)
 
         # Define pupil P1 and Propagate to pupil P2
@@ -1021,20 +1023,17 @@ def no_fpm(mp, imode, idm, iact):
     else:
         NrelayFactor = 0  # zero out the number of relays
 
-    """Input E-fields"""
-
-    # Include the star position and weight in the starting wavefront
-    iStar = modvar.starIndex
-    xiOffset = mp.compact.star.xiOffsetVec[iStar]
-    etaOffset = mp.compact.star.etaOffsetVec[iStar]
-    # starWeight = mp.compact.star.weights[iStar]
-    TTphase = (-1)*(2*np.pi*(xiOffset*mp.P2.compact.XsDL +
-                             etaOffset*mp.P2.compact.YsDL))
-    Ett = np.exp(1j*TTphase*mp.lambda0/wvl)
-    # Ein = np.sqrt(starWeight) * Ett * \
-    #     np.squeeze(mp.P1.compact.E[:, :, modvar.sbpIndex])
-
-    EttUndoAtP2 = 1./falco.prop.relay(Ett, NrelayFactor*mp.Nrelay1to2)
+    # Fourier kernel of the pixel of the unocculted PSF peak, at the final
+    # pupil and re-imaged to P2
+    indEtaPeak, indXiPeak = mp.jac.indPeak_list[imode]
+    xiPeak = falco.util.create_axis(mp.Fend.Nxi, mp.Fend.dxi, centering=mp.centering)[indXiPeak]
+    etaPeak = falco.util.create_axis(mp.Fend.Neta, mp.Fend.deta, centering=mp.centering)[indEtaPeak]
+    xP2 = falco.util.create_axis(NdmPad, mp.P2.compact.dx, centering=mp.centering)
+    kernelAtP2 = np.exp(-2*np.pi*1j/(wvl*mp.fl)*np.add.outer(etaPeak*xP2, xiPeak*xP2))
+    kernelAtP2 = falco.prop.relay(
+        kernelAtP2,
+        NrelayFactor*(mp.Nrelay2to3+mp.Nrelay3to4+mp.NrelayFend),
+        mp.centering)
 
     # # Apply a Zernike (in amplitude) at input pupil
     # # Used only for Zernike sensitivity control.
@@ -1057,12 +1056,12 @@ def no_fpm(mp, imode, idm, iact):
         else:
             lyotStopReimaged = falco.prop.relay(
                 pad_crop(mp.P4.compact.maskAtP1res, NdmPad),
-                NrelayFactor*(mp.Nrelay2to3+mp.Nrelay3to4))
+                NrelayFactor*(mp.Nrelay2to3+mp.Nrelay3to4), mp.centering)
 
     else:
         lyotStopReimaged = falco.prop.relay(
             pad_crop(mp.P4.compact.mask, NdmPad),
-            NrelayFactor*(mp.Nrelay2to3+mp.Nrelay3to4))
+            NrelayFactor*(mp.Nrelay2to3+mp.Nrelay3to4), mp.centering)
 
     # pupil = pad_crop(mp.P1.compact.mask, NdmPad)
     # Ein = pad_crop(Ein, NdmPad)
@@ -1111,7 +1110,10 @@ def no_fpm(mp, imode, idm, iact):
         # Edm1WFE = np.ones((NdmPad, NdmPad))
         Edm2WFE = np.ones((NdmPad, NdmPad))
 
-    transOuterFPM = 1
+    if mp.coro.upper() == 'HLC':
+        transOuterFPM = mp.compact.fpmCube[0, 0, modvar.sbpIndex]
+    else:
+        transOuterFPM = 1
 
     """Propagation"""
     # # Get the unocculted peak E-field and coronagraphic E-field
@@ -1157,7 +1159,7 @@ def no_fpm(mp, imode, idm, iact):
         Edm2WFEpad = pad_crop(Edm2WFE, mp.dm1.compact.NdmPad)  # Pad or crop for expected sub-array indexing
         apodReimaged = pad_crop(apodReimaged, mp.dm1.compact.NdmPad)
         lyotStopReimaged = pad_crop(lyotStopReimaged, mp.dm1.compact.NdmPad)
-        EttUndoAtP2 = pad_crop(EttUndoAtP2, mp.dm1.compact.NdmPad)
+        kernelAtP2 = pad_crop(kernelAtP2, mp.dm1.compact.NdmPad)
 
         # Propagate each actuator from DM1 through the optical system
         # Gindex = 0  # initialize index counter
@@ -1176,8 +1178,8 @@ def no_fpm(mp, imode, idm, iact):
         # Apply the reimaged apodizer at P2
         dEP2box = apodReimaged[indBoxAS] * dEP2box
 
-        # Put the star back on-axis (if it isn't already)
-        dEP2box = EttUndoAtP2[indBoxAS] * dEP2box
+        # Evaluate at the pixel of the PSF peak
+        dEP2box = kernelAtP2[indBoxAS] * dEP2box
 
         # Apply the reimaged Lyot stop at P2
         dEP2box = lyotStopReimaged[indBoxAS] * dEP2box
@@ -1204,7 +1206,7 @@ def no_fpm(mp, imode, idm, iact):
         # DM2stopPad = pad_crop(DM2stop, mp.dm2.compact.NdmPad)
         # Edm2WFEpad = pad_crop(Edm2WFE, mp.dm2.compact.NdmPad)
         lyotStopReimaged = pad_crop(lyotStopReimaged, mp.dm2.compact.NdmPad)
-        EttUndoAtP2 = pad_crop(EttUndoAtP2, mp.dm2.compact.NdmPad)
+        kernelAtP2 = pad_crop(kernelAtP2, mp.dm2.compact.NdmPad)
 
         # # Propagate full field to DM2 before back-propagating in small boxes
         # Edm2inc = pad_crop(fp.ptp(Edm1out, mp.compact.NdmPad*mp.P2.compact.dx, wvl, mp.d_dm1_dm2), mp.dm2.compact.NdmPad)  # E-field incident upon DM2
@@ -1233,8 +1235,8 @@ def no_fpm(mp, imode, idm, iact):
         # Apply the reimaged apodizer at P2
         dEP2box = apodReimaged[indBoxAS] * dEP2box
 
-        # Put the star back on-axis (if it isn't already)
-        dEP2box = EttUndoAtP2[indBoxAS] * dEP2box
+        # Evaluate at the pixel of the PSF peak
+        dEP2box = kernelAtP2[indBoxAS] * dEP2box
 
         # Apply the reimaged Lyot stop at P2
         dEP2box = lyotStopReimaged[indBoxAS] * dEP2box
-- 
2.43.0


From eba9bf60cc1049251cede71fce256431e46dadc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:49 +0000
Subject: [PATCH 022/123] fix: full model picks the HLC mask of the requested
 wavelength

---
 falco/model/models.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index 1805117..800bb6a 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -107,8 +107,7 @@ def full(mp, modvar, isNorm=True):
         # Weird indexing is because interior wavelengths at
         # edges of sub-bands are the same, and the fpmCube
         # contains only the minimal set of masks.
-        ilam = (modvar.sbpIndex-2)*mp.Nwpsbp + modvar.wpsbpIndex + \
-            (mp.Nsbp-modvar.sbpIndex+1)
+        ilam = modvar.sbpIndex*(mp.Nwpsbp-1) + modvar.wpsbpIndex
     elif mp.Nsbp == 1 and mp.Nwpsbp > 1:
         ilam = modvar.wpsbpIndex
     elif mp.Nwpsbp == 1:
-- 
2.43.0


From 52aed8ccdbc02b73f39b035957a3e1302e946fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:10 +0000
Subject: [PATCH 023/123] fix: a chromatic vortex charge is interpolated and
 used instead of being dropped

---
 falco/model/jacobians.py |  4 ++--
 falco/model/models.py    | 15 ++++++---------
 falco/prop.py            |  2 +-
 3 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/falco/model/jacobians.py b/falco/model/jacobians.py
index 3cc3aea..63248d7 100644
--- a/falco/model/jacobians.py
+++ b/falco/model/jacobians.py
@@ -71,9 +71,9 @@ def precomp(mp):
                 # corresponding wavelengths mp.F3.VortexCharge_lambdas
                 # represents a chromatic vortex FPM
                 if mp.F3.VortexCharge.size == 1:
-                    charge = mp.F3.VortexCharge
+                    charge = mp.F3.VortexCharge.item()
                 else:
-                    np.interp(wvl, mp.F3.VortexCharge_lambdas, mp.F3.VortexCharge, 'linear', 'extrap')
+                    charge = np.interp(wvl, mp.F3.VortexCharge_lambdas, mp.F3.VortexCharge)
             elif isinstance(mp.F3.VortexCharge, int) or isinstance(mp.F3.VortexCharge, float):
                 # single value indicates fully achromatic mask
                 charge = mp.F3.VortexCharge
diff --git a/falco/model/models.py b/falco/model/models.py
index 800bb6a..df2cc13 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -380,10 +380,9 @@ def full_Fourier(mp, wvl, Ein, normFac, flagScaleFPM=False):
             # corresponding wavelengths mp.F3.VortexCharge_lambdas
             # represents a chromatic vortex FPM
             if mp.F3.VortexCharge.size == 1:
-                charge = mp.F3.VortexCharge
+                charge = mp.F3.VortexCharge.item()
             else:
-                np.interp(wvl, mp.F3.VortexCharge_lambdas, mp.F3.VortexCharge,
-                          'linear', 'extrap')
+                charge = np.interp(wvl, mp.F3.VortexCharge_lambdas, mp.F3.VortexCharge)
 
         elif isinstance(mp.F3.VortexCharge, (int, float)):
             # single value indicates fully achromatic mask
@@ -560,10 +559,9 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
                 # corresponding wavelengths mp.F3.VortexCharge_lambdas
                 # represents a chromatic vortex FPM
                 if mp.F3.VortexCharge.size == 1:
-                    charge = mp.F3.VortexCharge
+                    charge = mp.F3.VortexCharge.item()
                 else:
-                    np.interp(wvl, mp.F3.VortexCharge_lambdas,
-                              mp.F3.VortexCharge, 'linear', 'extrap')
+                    charge = np.interp(wvl, mp.F3.VortexCharge_lambdas, mp.F3.VortexCharge)
 
             elif isinstance(mp.F3.VortexCharge, (int, float)):
                 # single value indicates fully achromatic mask
@@ -939,10 +937,9 @@ def compact_general(mp, wvl, Ein, normFac, flagEval, flagScaleFPM=False,
                 # corresponding wavelengths mp.F3.VortexCharge_lambdas
                 # represents a chromatic vortex FPM
                 if mp.F3.VortexCharge.size == 1:
-                    charge = mp.F3.VortexCharge
+                    charge = mp.F3.VortexCharge.item()
                 else:
-                    np.interp(wvl, mp.F3.VortexCharge_lambdas,
-                              mp.F3.VortexCharge, 'linear', 'extrap')
+                    charge = np.interp(wvl, mp.F3.VortexCharge_lambdas, mp.F3.VortexCharge)
 
             elif isinstance(mp.F3.VortexCharge, (int, float)):
                 # single value indicates fully achromatic mask
diff --git a/falco/prop.py b/falco/prop.py
index eede15e..b8ac212 100644
--- a/falco/prop.py
+++ b/falco/prop.py
@@ -287,7 +287,7 @@ def mft_p2v2p(pupilPre, charge, beamRadius, inVal, outVal, reverseGradient=False
 
     """
     check.twoD_array(pupilPre, 'pupilPre', TypeError)
-    check.scalar_integer(charge, 'charge', TypeError)
+    check.real_scalar(charge, 'charge', TypeError)
     check.real_positive_scalar(beamRadius, 'beamRadius', TypeError)
     check.real_positive_scalar(inVal, 'inVal', TypeError)
     check.real_positive_scalar(outVal, 'outVal', TypeError)
-- 
2.43.0


From ce1deb0ceb895cff59520554d98034c59bd540cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:24 +0000
Subject: [PATCH 024/123] fix: AD-EFC gradient includes the true penalty term,
 DM2 stop and WFE, and the wavelength-dependent FPM

---
 falco/model/models.py | 45 +++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index df2cc13..eb301c9 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -462,12 +462,6 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
     isEvalMode = False
     useFPM = True
 
-    # Complex trans of points outside FPM
-    if mp.coro.upper() == 'HLC':
-        transOuterFPM = mp.F3.compact.mask[0, 0]
-    else:
-        transOuterFPM = 1.
-
     if mp.flagRotation:
         NrelayFactor = 1
     else:
@@ -540,6 +534,25 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
         total_cost += mp.jac.weights[imode] * int_in_dh
         # normFacADweightedSum += mp.jac.weights[imode] / normFacAD
 
+        # FPM at this wavelength (as set by the compact model), and its
+        # complex transmission outside the mask
+        if mp.coro.upper() in ('LC', 'APLC', 'FLC', 'SPLC', 'HLC'):
+            fpm = mp.F3.compact.mask
+        if mp.coro.upper() == 'HLC':
+            transOuterFPM = fpm[0, 0]
+        else:
+            transOuterFPM = 1.
+
+        # The FPM scales with wavelength in the same cases as in the compact model
+        if mp.layout.lower() == 'fpm_scale' or \
+                (mp.coro.upper() == 'HLC' and mp.layout.lower() != 'fourier'):
+            scaleFac = wvl/mp.lambda0
+        else:
+            scaleFac = 1.
+        if mp.coro.upper() in ('LC', 'APLC', 'FLC', 'SPLC', 'HLC'):
+            dxiF3 = scaleFac*mp.F3.compact.dxi
+            detaF3 = scaleFac*mp.F3.compact.deta
+
         # Gradient
         Fend_masked = mp.jac.weights[imode]*2/np.sqrt(I00)*EdhNew*mp.Fend.corr.maskBool
 
@@ -574,19 +587,19 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
         elif mp.coro.upper() == 'FLC' or mp.coro.upper() == 'SPLC':
 
             EP4_grad = falco.prop.relay(EP4_grad, NrelayFactor*mp.Nrelay3to4-1, mp.centering)
-            EF3_grad = falco.prop.mft_p2f(EP4_grad, -mp.fl, wvl, mp.P2.compact.dx, mp.F3.compact.dxi, mp.F3.compact.Nxi, mp.F3.compact.deta, mp.F3.compact.Neta, mp.centering)  # E-field incident upon the FPM
-            EF3_grad = np.conj(mp.F3.compact.mask) * EF3_grad
-            EP3_grad = falco.prop.mft_f2p(EF3_grad, -mp.fl, wvl, mp.F3.compact.dxi, mp.F3.compact.deta, mp.P4.compact.dx, NdmPad, mp.centering) # Subtrahend term for Babinet's principle 
+            EF3_grad = falco.prop.mft_p2f(EP4_grad, -mp.fl, wvl, mp.P2.compact.dx, dxiF3, mp.F3.compact.Nxi, detaF3, mp.F3.compact.Neta, mp.centering)  # E-field incident upon the FPM
+            EF3_grad = np.conj(fpm) * EF3_grad
+            EP3_grad = falco.prop.mft_f2p(EF3_grad, -mp.fl, wvl, dxiF3, detaF3, mp.P4.compact.dx, NdmPad, mp.centering) # Subtrahend term for Babinet's principle 
 
         elif mp.coro.upper() in ('LC', 'APLC', 'HLC'):
             # MFT Method
-            EP4noFPM_grad = EP4_grad
+            EP4noFPM_grad = np.conj(transOuterFPM) * EP4_grad
             EP3noFPM_grad = pad_crop(falco.prop.relay(EP4noFPM_grad, NrelayFactor*mp.Nrelay3to4, mp.centering), NdmPad)
             EP4subtr_grad = -EP4_grad
             EP4subtr_grad = falco.prop.relay(EP4subtr_grad, NrelayFactor*mp.Nrelay3to4 - 1, mp.centering)
-            auxEP4subtr_grad = falco.prop.mft_p2f(EP4subtr_grad, -mp.fl, wvl, mp.P2.compact.dx, mp.F3.compact.dxi, mp.F3.compact.Nxi, mp.F3.compact.deta, mp.F3.compact.Neta, mp.centering)  # E-field incident upon the FPM
-            EF3_grad = np.conj(transOuterFPM - mp.F3.compact.mask) * auxEP4subtr_grad
-            EP3subtr_grad = falco.prop.mft_f2p(EF3_grad, -mp.fl, wvl, mp.F3.compact.dxi, mp.F3.compact.deta, mp.P4.compact.dx, NdmPad, mp.centering)  # Subtrahend term for Babinet's principle 
+            auxEP4subtr_grad = falco.prop.mft_p2f(EP4subtr_grad, -mp.fl, wvl, mp.P2.compact.dx, dxiF3, mp.F3.compact.Nxi, detaF3, mp.F3.compact.Neta, mp.centering)  # E-field incident upon the FPM
+            EF3_grad = np.conj(transOuterFPM - fpm) * auxEP4subtr_grad
+            EP3subtr_grad = falco.prop.mft_f2p(EF3_grad, -mp.fl, wvl, dxiF3, detaF3, mp.P4.compact.dx, NdmPad, mp.centering)  # Subtrahend term for Babinet's principle 
             EP3_grad = EP3noFPM_grad + EP3subtr_grad
 
         else:
@@ -605,9 +618,13 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
             Edm2_grad = falco.prop.ptp(EP2eff_grad, mp.P2.compact.dx*EP2eff_grad.shape[0], wvl, d_p2_to_dm2)
 
         Edm2_grad = np.conj(np.exp(1j*kk*DM2surf)) * Edm2_grad
+        if mp.flagDMwfe and any(mp.dm_ind == 2):
+            Edm2_grad = np.exp(-2*np.pi*1j/wvl*pad_crop(mp.dm2.compact.wfe, NdmPad, extrapval=0)) * Edm2_grad
         surf_dm2_bar = -kk*np.imag(Edm2_grad * np.conj(Edm2pre))
 
         # To DM1
+        if mp.flagDM2stop:
+            Edm2_grad = pad_crop(mp.dm2.compact.mask, NdmPad) * Edm2_grad
         Edm1_grad = falco.prop.ptp(Edm2_grad, mp.P2.compact.dx*Edm2_grad.shape[0], wvl, -mp.d_dm1_dm2)
         surf_dm1_bar = -kk*np.imag(Edm1_grad * np.conj(Edm1post))
 
@@ -634,7 +651,7 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
     gradient = np.concatenate((Vout1.reshape([mp.dm1.NactTotal])[mp.dm1.act_ele],
                                Vout2.reshape([mp.dm2.NactTotal])[mp.dm2.act_ele]),
                               axis=None)
-    gradient += 2 * utu_coef * gradient
+    gradient += 2 * utu_coef * command_vec
 
     return total_cost, gradient
 
-- 
2.43.0


From da8e9321f6e42db3b4451fbaa22c462481131779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:07 +0000
Subject: [PATCH 025/123] fix: culling maps Jacobian columns to the right
 actuators when the DMs in use change

---
 falco/ctrl.py | 141 ++++++++++++++++++++++++--------------------------
 falco/wfsc.py |   1 +
 2 files changed, 69 insertions(+), 73 deletions(-)

diff --git a/falco/ctrl.py b/falco/ctrl.py
index 5c83f1a..87d7dd5 100644
--- a/falco/ctrl.py
+++ b/falco/ctrl.py
@@ -127,6 +127,52 @@ def wrapper(mp, cvar, jacStruct):
     return None
 
 
+def _is_new_cull_due(mp, cvar):
+    """Tell whether actuators are culled anew in the current iteration."""
+    if cvar.Itr == 0:  # Cull in first iteration
+        return True
+
+    # Cull when actuators used change
+    if hasattr(mp, 'dm_ind_sched'):
+        schedPre = np.sort(mp.dm_ind_sched[cvar.Itr-1])
+        schedNow = np.sort(mp.dm_ind_sched[cvar.Itr])
+        return not np.array_equal(schedPre, schedNow)
+
+    return False
+
+
+def _update_number_of_actuators(mp):
+    """Set the number of control actuators of each DM from its actuator list."""
+    for idm, dm in ((1, mp.dm1), (2, mp.dm2), (8, mp.dm8), (9, mp.dm9)):
+        dm.Nele = len(dm.act_ele) if np.any(mp.dm_ind == idm) else 0
+
+
+def reinclude_actuators(mp, cvar):
+    """
+    Include all actuators of the DMs in use again before a new cull.
+
+    Has to be called before the control Jacobian is computed, so that the
+    Jacobian has a column for every actuator that the cull chooses from.
+
+    Parameters
+    ----------
+    mp : ModelParameters
+        Structure containing optical model parameters
+    cvar : ModelParameters
+        Structure containing controller variables
+
+    Returns
+    -------
+    None
+        Changes are made by reference to mp.
+    """
+    if _is_new_cull_due(mp, cvar):
+        for idm, dm in ((1, mp.dm1), (2, mp.dm2), (8, mp.dm8), (9, mp.dm9)):
+            if np.any(mp.dm_ind == idm):
+                dm.act_ele = np.arange(dm.NactTotal)
+        _update_number_of_actuators(mp)
+
+
 def cull_weak_actuators(mp, cvar, jacStruct):
     """
     Remove weak actuators from the controlled set.
@@ -148,49 +194,15 @@ def cull_weak_actuators(mp, cvar, jacStruct):
     if type(mp) is not falco.config.ModelParameters:
         raise TypeError('Input "mp" must be of type ModelParameters')
 
-    if cvar.Itr == 0:  # Cull in first iteration
-        cvar.flagCullAct = True
-    else:  # Cull when actuators used change
-        if hasattr(mp, 'dm_ind_sched'):
-            schedPre = np.sort(mp.dm_ind_sched[cvar.Itr-1])
-            schedNow = np.sort(mp.dm_ind_sched[cvar.Itr])
-            cvar.flagCullAct = not np.array_equal(schedPre, schedNow)
-        else:
-            cvar.flagCullAct = False
+    cvar.flagCullAct = _is_new_cull_due(mp, cvar)
 
     if not hasattr(mp, 'flagCullActHist'):
         mp.flagCullActHist = np.zeros((mp.Nitr, ))
     mp.flagCullActHist[cvar.Itr] = cvar.flagCullAct
 
-    # Before performing new cull, include all actuators again
+    # Update the number of elements used per DM
     if cvar.flagCullAct:
-        # Re-include all actuators in the basis set.
-        if np.any(mp.dm_ind == 1):
-            mp.dm1.act_ele = list(range(mp.dm1.NactTotal))
-        if np.any(mp.dm_ind == 2):
-            mp.dm2.act_ele = list(range(mp.dm2.NactTotal))
-        if np.any(mp.dm_ind == 8):
-            mp.dm8.act_ele = list(range(mp.dm8.NactTotal))
-        if np.any(mp.dm_ind == 9):
-            mp.dm9.act_ele = list(range(mp.dm9.NactTotal))
-
-        # Update the number of elements used per DM
-        if np.any(mp.dm_ind == 1):
-            mp.dm1.Nele = len(mp.dm1.act_ele)
-        else:
-            mp.dm1.Nele = 0
-        if np.any(mp.dm_ind == 2):
-            mp.dm2.Nele = len(mp.dm2.act_ele)
-        else:
-            mp.dm2.Nele = 0
-        if np.any(mp.dm_ind == 8):
-            mp.dm8.Nele = len(mp.dm8.act_ele)
-        else:
-            mp.dm8.Nele = 0
-        if np.any(mp.dm_ind == 9):
-            mp.dm9.Nele = len(mp.dm9.act_ele)
-        else:
-            mp.dm9.Nele = 0
+        _update_number_of_actuators(mp)
 
     # Reduce the number of actuators used based on their relative strength
     # in the Jacobian
@@ -200,57 +212,40 @@ def cull_weak_actuators(mp, cvar, jacStruct):
         if any(mp.dm_ind == 1):
             G1intNorm = np.sum(np.mean(np.abs(jacStruct.G1)**2, axis=2), axis=0)
             G1intNorm = G1intNorm/np.max(G1intNorm)
-            mp.dm1.act_ele = np.nonzero(G1intNorm >= 10**(mp.logGmin))[0]
+            keep1 = G1intNorm >= 10**(mp.logGmin)
             del G1intNorm
         if any(mp.dm_ind == 2):
             G2intNorm = np.sum(np.mean(np.abs(jacStruct.G2)**2, axis=2), axis=0)
             G2intNorm = G2intNorm/np.max(G2intNorm)
-            mp.dm2.act_ele = np.nonzero(G2intNorm >= 10**(mp.logGmin))[0]
+            keep2 = G2intNorm >= 10**(mp.logGmin)
             del G2intNorm
         if any(mp.dm_ind == 8):
             G8intNorm = np.sum(np.mean(np.abs(jacStruct.G8)**2, axis=2), axis=0)
             G8intNorm = G8intNorm/np.max(G8intNorm)
-            mp.dm8.act_ele = np.nonzero(G8intNorm >= 10**(mp.logGmin))[0]
+            keep8 = G8intNorm >= 10**(mp.logGmin)
             del G8intNorm
         if any(mp.dm_ind == 9):
             G9intNorm = np.sum(np.mean(np.abs(jacStruct.G9)**2, axis=2), axis=0)
             G9intNorm = G9intNorm/np.max(G9intNorm)
-            mp.dm9.act_ele = np.nonzero(G9intNorm >= 10**(mp.logGmin))[0]
+            keep9 = G9intNorm >= 10**(mp.logGmin)
             del G9intNorm
 
         # Add back in all actuators that are tied (to make the tied actuator
         # logic easier)
         if any(mp.dm_ind == 1):
-            for ti in range(mp.dm1.tied.shape[0]):
-                if not (any(mp.dm1.act_ele == mp.dm1.tied[ti, 0])):
-                    mp.dm1.act_ele = np.hstack([mp.dm1.act_ele, mp.dm1.tied[ti, 0]])
-                if not (any(mp.dm1.act_ele == mp.dm1.tied[ti, 1])):
-                    mp.dm1.act_ele = np.hstack([mp.dm1.act_ele, mp.dm1.tied[ti, 1]])
-            # Need to sort for the logic in model_Jacobian.m
-            mp.dm1.act_ele = np.sort(mp.dm1.act_ele)
+            keep1 |= np.isin(mp.dm1.act_ele, mp.dm1.tied)
+        if any(mp.dm_ind == 2):
+            keep2 |= np.isin(mp.dm2.act_ele, mp.dm2.tied)
 
+        # The columns of the Jacobian belong to the actuators in act_ele
+        if any(mp.dm_ind == 1):
+            mp.dm1.act_ele = np.asarray(mp.dm1.act_ele)[keep1]
         if any(mp.dm_ind == 2):
-            for ti in range(mp.dm2.tied.shape[0]):
-                if not any(mp.dm2.act_ele == mp.dm2.tied[ti, 0]):
-                    mp.dm2.act_ele = np.hstack([mp.dm2.act_ele, mp.dm2.tied[ti, 0]])
-                if not any(mp.dm2.act_ele == mp.dm2.tied[ti, 1]):
-                    mp.dm2.act_ele = np.hstack([mp.dm2.act_ele, mp.dm2.tied[ti, 1]])
-            # Need to sort for the logic in model_Jacobian.m
-            mp.dm2.act_ele = np.sort(mp.dm2.act_ele)
-#            if(any(mp.dm_ind == 8))
-#                for ti=1:size(mp.dm8.tied,1)
-#                    if(any(mp.dm8.act_ele==mp.dm8.tied(ti,1))==false);  mp.dm8.act_ele = [mp.dm8.act_ele; mp.dm8.tied(ti,1)];  end
-#                    if(any(mp.dm8.act_ele==mp.dm8.tied(ti,2))==false);  mp.dm8.act_ele = [mp.dm8.act_ele; mp.dm8.tied(ti,2)];  end
-#                end
-#                mp.dm8.act_ele = sort(mp.dm8.act_ele);
-#            end
-#            if(any(mp.dm_ind == 9))
-#                for ti=1:size(mp.dm9.tied,1)
-#                    if(any(mp.dm9.act_ele==mp.dm9.tied(ti,1))==false);  mp.dm9.act_ele = [mp.dm9.act_ele; mp.dm9.tied(ti,1)];  end
-#                    if(any(mp.dm9.act_ele==mp.dm9.tied(ti,2))==false);  mp.dm9.act_ele = [mp.dm9.act_ele; mp.dm9.tied(ti,2)];  end
-#                end
-#                mp.dm9.act_ele = sort(mp.dm9.act_ele);
-#            end
+            mp.dm2.act_ele = np.asarray(mp.dm2.act_ele)[keep2]
+        if any(mp.dm_ind == 8):
+            mp.dm8.act_ele = np.asarray(mp.dm8.act_ele)[keep8]
+        if any(mp.dm_ind == 9):
+            mp.dm9.act_ele = np.asarray(mp.dm9.act_ele)[keep9]
 
         # Update the number of elements used per DM
         if any(mp.dm_ind == 1):
@@ -277,13 +272,13 @@ def cull_weak_actuators(mp, cvar, jacStruct):
 
         # Crop out unused actuators from the control Jacobian
         if any(mp.dm_ind == 1):
-            jacStruct.G1 = jacStruct.G1[:, mp.dm1.act_ele, :]
+            jacStruct.G1 = jacStruct.G1[:, keep1, :]
         if any(mp.dm_ind == 2):
-            jacStruct.G2 = jacStruct.G2[:, mp.dm2.act_ele, :]
+            jacStruct.G2 = jacStruct.G2[:, keep2, :]
         if any(mp.dm_ind == 8):
-            jacStruct.G8 = jacStruct.G8[:, mp.dm8.act_ele, :]
+            jacStruct.G8 = jacStruct.G8[:, keep8, :]
         if any(mp.dm_ind == 9):
-            jacStruct.G9 = jacStruct.G9[:, mp.dm9.act_ele, :]
+            jacStruct.G9 = jacStruct.G9[:, keep9, :]
 
     return None
 
diff --git a/falco/wfsc.py b/falco/wfsc.py
index cae6fc2..fc0a78d 100644
--- a/falco/wfsc.py
+++ b/falco/wfsc.py
@@ -78,6 +78,7 @@ def loop(mp, out):
             # Compute the control Jacobians for each DM
             cvar.flagRelin = np.any(mp.relinItrVec == Itr) or Itr == 0
             if cvar.flagRelin:
+                falco.ctrl.reinclude_actuators(mp, cvar)
                 jacStruct = falco.model.jacobian(mp)
 
             falco.ctrl.cull_weak_actuators(mp, cvar, jacStruct)
-- 
2.43.0


From b631fbcb8180ca57bf67dec507aa13e547d1effa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:07 +0000
Subject: [PATCH 026/123] fix: spatial weights no longer accumulate in the
 stored control Jacobian

---
 falco/ctrl.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/falco/ctrl.py b/falco/ctrl.py
index 87d7dd5..0cb5e46 100644
--- a/falco/ctrl.py
+++ b/falco/ctrl.py
@@ -1047,6 +1047,13 @@ def apply_spatial_weighting_to_Jacobian(mp, jacStruct):
     None.
 
     """
+    # Weight copies so that the arrays of other copies of jacStruct keep their
+    # values.
+    if np.any(mp.dm_ind == 1):
+        jacStruct.G1 = jacStruct.G1.copy()
+    if np.any(mp.dm_ind == 2):
+        jacStruct.G2 = jacStruct.G2.copy()
+
     for iStar in range(mp.compact.star.count):
 
         if np.any(mp.dm_ind == 1):
-- 
2.43.0


From 665852b48956548306c0f904a73b7544869e8a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:07 +0000
Subject: [PATCH 027/123] fix: parallel grid search returns the expected image
 of the best candidate

---
 falco/ctrl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/falco/ctrl.py b/falco/ctrl.py
index 0cb5e46..9a9409b 100644
--- a/falco/ctrl.py
+++ b/falco/ctrl.py
@@ -347,6 +347,7 @@ def _grid_search_efc(mp, cvar):
         # Convert from a list to arrays:
         for ni in range(Nvals):
             InormVec[ni] = results_ctrl[ni][0]
+            ImCube[ni, :, :] = results_ctrl[ni][1].Itotal
             if any(mp.dm_ind == 1):
                 dDM1V_store[:, :, ni] = results_ctrl[ni][1].dDM1V
             if any(mp.dm_ind == 2):
-- 
2.43.0


From 9354a5e1b93f78a529449cc6db70746fe9c7a99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:19 +0000
Subject: [PATCH 028/123] fix: controller handles a single kept actuator and
 reads the DM8 command from DM8

---
 falco/ctrl.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/falco/ctrl.py b/falco/ctrl.py
index 9a9409b..f668b27 100644
--- a/falco/ctrl.py
+++ b/falco/ctrl.py
@@ -57,13 +57,13 @@ def wrapper(mp, cvar, jacStruct):
 
             Gstack = np.zeros((mp.Fend.corr.Npix, 1), dtype=complex)  # Initialize a row to concatenate onto
             if any(mp.dm_ind == 1):
-                Gstack = np.hstack((Gstack, np.squeeze(jacStruct.G1[:, :, iMode])))
+                Gstack = np.hstack((Gstack, jacStruct.G1[:, :, iMode]))
             if any(mp.dm_ind == 2):
-                Gstack = np.hstack((Gstack, np.squeeze(jacStruct.G2[:, :, iMode])))
+                Gstack = np.hstack((Gstack, jacStruct.G2[:, :, iMode]))
             if any(mp.dm_ind == 8):
-                Gstack = np.hstack((Gstack, np.squeeze(jacStruct.G8[:, :, iMode])))
+                Gstack = np.hstack((Gstack, jacStruct.G8[:, :, iMode]))
             if any(mp.dm_ind == 9):
-                Gstack = np.hstack((Gstack, np.squeeze(jacStruct.G9[:, :, iMode])))
+                Gstack = np.hstack((Gstack, jacStruct.G9[:, :, iMode]))
             Gstack = Gstack[:, 1:]  # Remove the column used for initialization
 
             # Square matrix part stays the same if no re-linearization has occurrred.
@@ -1110,7 +1110,7 @@ def init(mp, cvar):
     # Make the vector of total DM commands from before
     u1 = mp.dm1.V.reshape(mp.dm1.NactTotal)[mp.dm1.act_ele] if any(mp.dm_ind == 1) else np.array([])
     u2 = mp.dm2.V.reshape(mp.dm2.NactTotal)[mp.dm2.act_ele] if any(mp.dm_ind == 2) else np.array([])
-    u8 = mp.dm9.V.reshape(mp.dm8.NactTotal)[mp.dm8.act_ele] if any(mp.dm_ind == 8) else np.array([])
+    u8 = mp.dm8.V.reshape(mp.dm8.NactTotal)[mp.dm8.act_ele] if any(mp.dm_ind == 8) else np.array([])
     u9 = mp.dm9.V.reshape(mp.dm9.NactTotal)[mp.dm9.act_ele] if any(mp.dm_ind == 9) else np.array([])
     cvar.uVec = np.concatenate((u1, u2, u8, u9))
     cvar.NeleAll = cvar.uVec.size
@@ -1223,9 +1223,9 @@ def set_utu_scale_fac(mp):
 
         Gstack = np.zeros((mp.Fend.corr.Npix, 1), dtype=complex)  # Initialize a row to concatenate onto
         if any(mp.dm_ind == 1):
-            Gstack = np.hstack((Gstack, np.squeeze(jacStruct.G1[:, :, iMode])))
+            Gstack = np.hstack((Gstack, jacStruct.G1[:, :, iMode]))
         if any(mp.dm_ind == 2):
-            Gstack = np.hstack((Gstack, np.squeeze(jacStruct.G2[:, :, iMode])))
+            Gstack = np.hstack((Gstack, jacStruct.G2[:, :, iMode]))
         Gstack = Gstack[:, 1:]  # Remove the column used for initialization
 
         # Square matrix part stays the same if no re-linearization has occurrred.
-- 
2.43.0


From 37f07e3fa428dbd9e942e3836288abe37b4d6a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:39 +0000
Subject: [PATCH 029/123] fix: parallel images include every star and the
 noise, and workers no longer share model settings

---
 falco/imaging.py | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/falco/imaging.py b/falco/imaging.py
index 316435c..c3cd698 100644
--- a/falco/imaging.py
+++ b/falco/imaging.py
@@ -1,4 +1,6 @@
 """Functions for generating images in FALCO."""
+import copy
+
 import numpy as np
 import multiprocessing
 from concurrent.futures import ThreadPoolExecutor as PoolExecutor
@@ -9,6 +11,22 @@ import falco
 from falco import check
 
 
+def _copy_mp_for_worker(mp):
+    """
+    Make a copy of mp whose full-model settings can be changed by one worker.
+
+    The full model stores the polarization state and the focal plane mask of
+    the wavelength being computed in mp. Workers running in parallel must not
+    see each other's values.
+    """
+    mpWorker = copy.copy(mp)
+    mpWorker.full = copy.copy(mp.full)
+    mpWorker.F3 = copy.copy(mp.F3)
+    mpWorker.F3.full = copy.copy(mp.F3.full)
+
+    return mpWorker
+
+
 def add_noise_to_subband_image(mp, imageIn, iSubband):
     """
     Add noise (photon shot, dark current, & read) to a simulated image.
@@ -235,6 +253,7 @@ def _model_full_norm_wrapper(mp, ilist, inds_list):
     si = inds_list[ilist][0]
     wi = inds_list[ilist][1]
 
+    mp = _copy_mp_for_worker(mp)
     modvar = falco.config.ModelVariables()
     modvar.sbpIndex = si  # mp.full.indsLambdaMat[ilam, 0]
     modvar.wpsbpIndex = wi  # mp.full.indsLambdaMat[ilam, 1]
@@ -267,7 +286,9 @@ def get_summed_image(mp):
     if type(mp) is not falco.config.ModelParameters:
         raise TypeError('Input "mp" must be of type ModelParameters')
 
-    if not (mp.flagParallel and mp.flagSim):
+    # Noise is added to each subband image, so noisy images are always computed
+    # subband by subband.
+    if not (mp.flagParallel and mp.flagSim) or mp.flagImageNoise:
         summedImage = 0
         for si in range(mp.Nsbp):
             summedImage += mp.sbp_weights[si] * get_sbp_image(mp, si)
@@ -275,9 +296,10 @@ def get_summed_image(mp):
     else:  # Compute simulated images in parallel
 
         # Initializations
-        vals_list = [(ilam, pol) for ilam in range(mp.full.NlamUnique)
-                     for pol in mp.full.pol_conds]
-        Nvals = mp.full.NlamUnique*len(mp.full.pol_conds)
+        vals_list = [(ilam, pol, iStar) for ilam in range(mp.full.NlamUnique)
+                     for pol in mp.full.pol_conds
+                     for iStar in range(mp.star.count)]
+        Nvals = len(vals_list)
 
 #         result = map(
 #             lambda p: _get_single_sim_full_image(*p),
@@ -347,14 +369,16 @@ def _get_single_sim_full_image(mp, ilist, vals_list):
     """Use only with get_summed_image."""
     ilam = vals_list[ilist][0]
     pol = vals_list[ilist][1]
+    iStar = vals_list[ilist][2]
 
     modvar = falco.config.ModelVariables()  # Initialize the new structure
     modvar.sbpIndex = mp.full.indsLambdaMat[mp.full.indsLambdaUnique[ilam], 0]
     modvar.wpsbpIndex = mp.full.indsLambdaMat[mp.full.indsLambdaUnique[ilam],
                                               1]
+    mp = _copy_mp_for_worker(mp)
     mp.full.polaxis = pol  # mp.full.pol_conds[ipol]
     modvar.whichSource = 'star'
-    modvar.starIndex = 0
+    modvar.starIndex = iStar
     Estar = falco.model.full(mp, modvar)
 
     return np.abs(Estar)**2  # Apply spectral weighting outside this function
@@ -481,6 +505,7 @@ def _get_subband_image_component(mp, si, ilist, inds_list):
     modvar = falco.config.ModelVariables()
     modvar.sbpIndex = si
     modvar.wpsbpIndex = wi
+    mp = _copy_mp_for_worker(mp)
     mp.full.polaxis = mp.full.pol_conds[ipol]
     modvar.whichSource = 'star'
     modvar.starIndex = iStar
-- 
2.43.0


From aa675d961043bd83d8296e5664a1ddc44b2986d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:39 +0000
Subject: [PATCH 030/123] fix: perfect estimator sums the images of all stars
 in serial and allows non-square images in parallel

---
 falco/est.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/falco/est.py b/falco/est.py
index 6e38f8e..47dd291 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -129,7 +129,7 @@ def perfect(mp, ev):
         # pool.join()
 
         # Re-order for easier indexing
-        EmatArray = np.zeros((mp.Fend.Nxi, mp.Fend.Neta, mp.jac.Nmode, mp.Nwpsbp), dtype=complex)
+        EmatArray = np.zeros((mp.Fend.Neta, mp.Fend.Nxi, mp.jac.Nmode, mp.Nwpsbp), dtype=complex)
         EvecArray = np.zeros((mp.Fend.corr.Npix, mp.jac.Nmode, mp.Nwpsbp), dtype=complex)
         for iv in range(Nvals):
             iMode = inds_list[iv][0]  # Index of the Jacobian mode
@@ -190,7 +190,7 @@ def perfect(mp, ev):
                 EmatSubband += mp.full.lambda_weights[wi] * E2D
 
             if isPiston:
-                ev.imageArray[:, :, 0, modvar.sbpIndex] = np.abs(EmatSubband)**2
+                ev.imageArray[:, :, 0, modvar.sbpIndex] += np.abs(EmatSubband)**2
 
             Eest[:, iMode] = EmatSubband[mp.Fend.corr.maskBool]
 
@@ -207,6 +207,7 @@ def _est_perfect_Efield_with_Zernikes_in_parallel(mp, ilist, inds_list):
     iMode = inds_list[ilist][0]  # Index of the Jacobian mode
     wi = inds_list[ilist][1]   # Index of the wavelength in the sub-bandpass
 
+    mp = falco.imaging._copy_mp_for_worker(mp)
     modvar = falco.config.ModelVariables()
     modvar.sbpIndex = mp.jac.sbp_inds[iMode]
     modvar.zernIndex = mp.jac.zern_inds[iMode]
-- 
2.43.0


From 62b3283b13c6aa57d3d06d48a72f67b7ca2dd42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:42 +0000
Subject: [PATCH 031/123] fix: pairwise probing restores the command of a DM
 that is not in use

---
 falco/est.py | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/falco/est.py b/falco/est.py
index 47dd291..774954d 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -277,12 +277,11 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
                              'enough values for all WFSC iterations.')
 
     # Temporarily augment which DMs are used if the probing DM isn't used for control.
-    mp.dm_ind_init = mp.dm_ind.copy()
-    mp.dm_ind = list(mp.dm_ind)
-    if whichDM == 1 and ~np.any(mp.dm_ind == 1):
-        mp.dm_ind = np.concatenate((mp.dm_ind, [1]))
-    elif whichDM == 2 and ~np.any(mp.dm_ind == 2):
-        mp.dm_ind = np.concatenate((mp.dm_ind, [2]))
+    mp.dm_ind_init = mp.dm_ind
+    if whichDM in (1, 2) and whichDM not in list(mp.dm_ind):
+        mp.dm_ind = np.concatenate((mp.dm_ind, [whichDM]))
+    else:
+        mp.dm_ind = np.array(mp.dm_ind)
 
     # Select number of actuators across based on chosen DM for the probing
     if whichDM == 1:
@@ -292,16 +291,9 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
     else:
         raise ValueError('mp.est.probe.whichDM must equal 1 or 2.')
 
-    # Store the initial DM commands
-    if np.any(mp.dm_ind == 1):
-        DM1Vnom = mp.dm1.V.copy()
-    else:
-        DM1Vnom = np.zeros((mp.dm1.Nact, mp.dm1.Nact))
-
-    if np.any(mp.dm_ind == 2):
-        DM2Vnom = mp.dm2.V.copy()
-    else:
-        DM2Vnom = np.zeros((mp.dm2.Nact, mp.dm2.Nact))
+    # Store the initial DM commands (also of a DM that is not being used)
+    DM1Vnom = mp.dm1.V.copy()
+    DM2Vnom = mp.dm2.V.copy()
 
     # Initialize output arrays
     Npairs = mp.est.probe.Npairs  # Number of image PAIRS
@@ -707,10 +699,8 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
         # plt.gca().invert_yaxis()
 
     # Reset nominal values that were changed
-    if np.any(mp.dm_ind == 1):
-        mp.dm1.V = DM1Vnom
-    if np.any(mp.dm_ind == 2):
-        mp.dm2.V = DM2Vnom
+    mp.dm1.V = DM1Vnom
+    mp.dm2.V = DM2Vnom
     mp.dm_ind = mp.dm_ind_init
 
     print('Completed pairwise probing estimation.')
-- 
2.43.0


From 31e70bc9ad99d426ac4511304dae1c6476ff6336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:42 +0000
Subject: [PATCH 032/123] fix: scheduled probe intensity is indexed instead of
 called

---
 falco/est.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/est.py b/falco/est.py
index 774954d..0d2dfa3 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -416,7 +416,7 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
                                      ev.InormProbeMax])
                 print('Chosen probe intensity: %.2e' % InormProbe)
             else:
-                InormProbe = mp.est.probeSchedule.InormProbeVec(Itr)
+                InormProbe = mp.est.probeSchedule.InormProbeVec[Itr]
                 print('Scheduled probe intensity: %.2e' % InormProbe)
 
             # Perform the probing
-- 
2.43.0


From 6a1ddaa7d2cbac13643406cbba008c813e2fd4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:42 +0000
Subject: [PATCH 033/123] fix: pairwise probing works when the DMs have
 different numbers of actuators

---
 falco/est.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/falco/est.py b/falco/est.py
index 0d2dfa3..5eddcbf 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -510,7 +510,10 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
             ev.iStar = iStar
             dDMVplus = np.zeros_like(DM1Vplus)
             for ii in range(Npairs):
-                dDMVplus[:, :, ii] = DM1Vplus[:, :, ii] - DM1Vnom
+                if whichDM == 1:
+                    dDMVplus[:, :, ii] = DM1Vplus[:, :, ii] - DM1Vnom
+                elif whichDM == 2:
+                    dDMVplus[:, :, ii] = DM2Vplus[:, :, ii] - DM2Vnom
             falco.plot.pairwise_probes(mp, ev, dDMVplus, ampSq2Dcube, iSubband)
 
             # ################# Perform the estimation #######################
-- 
2.43.0


From 45c73878ea300fbb530a96e89faa2a3f2a3397f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:42 +0000
Subject: [PATCH 034/123] fix: Jacobian-based probe response is the matrix
 product with the probe command

---
 falco/est.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/falco/est.py b/falco/est.py
index 5eddcbf..98ee27b 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -528,13 +528,13 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
                     if whichDM == 1:
                         dV = DM1Vplus[:, :, iProbe] - DM1Vnom
                         dEplus[:, iProbe] = \
-                            np.squeeze(jacStruct.G1[:, :, iSubband]) * \
-                            dV[mp.dm1.act_ele]
+                            jacStruct.G1[:, :, modeIndex] @ \
+                            dV.ravel()[mp.dm1.act_ele] / mp.dm1.weight
                     elif whichDM == 2:
                         dV = DM2Vplus[:, :, iProbe] - DM2Vnom
                         dEplus[:, iProbe] = \
-                            np.squeeze(jacStruct.G2[:, :, iSubband]) * \
-                            dV[mp.dm2.act_ele]
+                            jacStruct.G2[:, :, modeIndex] @ \
+                            dV.ravel()[mp.dm2.act_ele] / mp.dm2.weight
 
             # Get the probe phase from the model
             # and the probe amplitude from the measurements
-- 
2.43.0


From 0487ad5757090297ba2f9b79dfadcbd63afa1f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:42 +0000
Subject: [PATCH 035/123] fix: a probe radius beyond the DM is limited without
 changing the setting

---
 falco/est.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/falco/est.py b/falco/est.py
index 98ee27b..9e79465 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -761,21 +761,20 @@ def gen_pairwise_probe_square(mp, InormDes, psi, badAxis, rotation):
         YS = RS*np.sin(THETAS-rotRad)
 
     # Restrict the probing region if it is not possible to achieve
-    if mp.est.probe.radius > Nact/2.0:
-        mp.est.probe.radius = Nact/2.0
+    radius = min(mp.est.probe.radius, Nact/2.0)
 
     # Generate the DM command for the probe
     magn = 4*np.pi*mp.lambda0*np.sqrt(InormDes)  # surface height to get desired intensity [meters]
     if badAxis.lower() == 'y':
-        mX = mp.est.probe.radius
-        mY = 2*mp.est.probe.radius
-        omegaX = mp.est.probe.radius/2
+        mX = radius
+        mY = 2*radius
+        omegaX = radius/2
         probeSurf = magn*np.sinc(mX*XS)*np.sinc(mY*YS)*np.cos(2*np.pi*omegaX*XS + psi)
 
     elif badAxis.lower() == 'x':
-        mX = 2*mp.est.probe.radius
-        mY = mp.est.probe.radius
-        omegaY = mp.est.probe.radius/2
+        mX = 2*radius
+        mY = radius
+        omegaY = radius/2
         probeSurf = magn*np.sinc(mX*XS)*np.sinc(mY*YS)*np.cos(2*np.pi*omegaY*YS + psi)
 
     elif badAxis.lower() in ('m'):  # alternate between x and y
@@ -789,7 +788,7 @@ def gen_pairwise_probe_square(mp, InormDes, psi, badAxis, rotation):
     # Option to use just the sincs for a zero phase shift. This avoids the
     # phase discontinuity along one axis (for this probe only!).
     if psi == 0:
-        m = 2*mp.est.probe.radius
+        m = 2*radius
         probeSurf = magn*np.sinc(m*XS)*np.sinc(m*YS)
 
     probeCmd = falco.dm.fit_surf_to_act(dm, probeSurf)
-- 
2.43.0


From 757b40410af0664abda882ece6063fb8d974d05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:02 +0000
Subject: [PATCH 036/123] fix: controlled Zernike modes may be listed in any
 order

---
 falco/setup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/setup.py b/falco/setup.py
index 575618e..0efc521 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -591,7 +591,7 @@ def falco_set_jacobian_modal_weights(mp):
 
     if not np.any(mp.jac.zerns == 1):
         raise ValueError('Piston must be included as a controlled Zernike.')
-    elif list(mp.jac.zerns) != list(set(mp.jac.zerns)):
+    elif len(mp.jac.zerns) != len(set(mp.jac.zerns)):
         raise ValueError('mp.jac.zerns cannot have repeated values.')
     else:
         # Reset coefficient for piston term to 1
@@ -602,7 +602,7 @@ def falco_set_jacobian_modal_weights(mp):
     for izern in range(mp.jac.Nzern):
         whichZern = mp.jac.zerns[izern]
         if whichZern == 1:  # Include all wavelengths for piston Zernike mode
-            mp.jac.weightMat[:, 0] = np.ones(mp.Nsbp)
+            mp.jac.weightMat[:, izern] = np.ones(mp.Nsbp)
         else:  # Include just middle and end wavelengths for non-piston
             mp.jac.weightMat[0, izern] = 1
             mp.jac.weightMat[mp.si_ref, izern] = 1
-- 
2.43.0


From 4bdd048b0b418ffab6652fe94d4161852bbb6f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:02 +0000
Subject: [PATCH 037/123] fix: storing intensities no longer rescales the
 incoherent estimate

---
 falco/wfsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/wfsc.py b/falco/wfsc.py
index fc0a78d..afad68a 100644
--- a/falco/wfsc.py
+++ b/falco/wfsc.py
@@ -343,7 +343,7 @@ def store_intensities(mp, out, ev, Itr):
 
     # Apply subband weights and then sum over subbands
     Iest = np.abs(ev.Eest)**2
-    Iinco = ev.IincoEst
+    Iinco = ev.IincoEst.copy()
     for iMode in range(mp.jac.Nmode):
         iSubband = mp.jac.sbp_inds[iMode]
         Iest[:, iMode] = mp.sbp_weights[iSubband] * Iest[:, iMode]
-- 
2.43.0


From d5021e25bc5eb161a8615cf23951ed9374674d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:02 +0000
Subject: [PATCH 038/123] fix: expected image uses the estimate columns of the
 unaberrated modes and includes every star

---
 falco/imaging.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/falco/imaging.py b/falco/imaging.py
index c3cd698..fd8739d 100644
--- a/falco/imaging.py
+++ b/falco/imaging.py
@@ -554,16 +554,20 @@ def get_expected_summed_image(mp, cvar, dDM):
 
     # Initialize variables
     Ibandavg = 0
-    EnewTempVecArray = np.zeros((mp.Fend.corr.Npix, mp.Nsbp), dtype=complex)
-    EoldTempVecArray = np.zeros((mp.Fend.corr.Npix, mp.Nsbp), dtype=complex)
+    # Columns of the estimate without an extra Zernike: one per subband and star
+    modeInds = np.nonzero(np.asarray(mp.jac.zern_inds) == 1)[0]
+    Nmode = len(modeInds)
+    EnewTempVecArray = np.zeros((mp.Fend.corr.Npix, Nmode), dtype=complex)
+    EoldTempVecArray = np.zeros((mp.Fend.corr.Npix, Nmode), dtype=complex)
 
     # Generate the model-based E-field with the new DM setting
     modvar = falco.config.ModelVariables()  # Initialize the new structure
     modvar.whichSource = 'star'
-    for si in range(mp.Nsbp):
-        modvar.sbpIndex = si
+    for ii, iMode in enumerate(modeInds):
+        modvar.sbpIndex = mp.jac.sbp_inds[iMode]
+        modvar.starIndex = mp.jac.star_inds[iMode]
         Etemp = falco.model.compact(mp, modvar)
-        EnewTempVecArray[:, si] = Etemp[mp.Fend.corr.maskBool]
+        EnewTempVecArray[:, ii] = Etemp[mp.Fend.corr.maskBool]
 
     # Revert to the previous DM commands
     if any(mp.dm_ind == 1):
@@ -578,15 +582,17 @@ def get_expected_summed_image(mp, cvar, dDM):
     # Generate the model-based E-field with the previous DM setting
     modvar.whichSource = 'star'
     modvar.wpsbpIndex = 0  # Dummy, placeholder value
-    for si in range(mp.Nsbp):
-        modvar.sbpIndex = si
+    for ii, iMode in enumerate(modeInds):
+        modvar.sbpIndex = mp.jac.sbp_inds[iMode]
+        modvar.starIndex = mp.jac.star_inds[iMode]
         Etemp = falco.model.compact(mp, modvar)
-        EoldTempVecArray[:, si] = Etemp[mp.Fend.corr.maskBool]
+        EoldTempVecArray[:, ii] = Etemp[mp.Fend.corr.maskBool]
 
     # Compute the expected new 2-D intensity image
-    for si in range(mp.Nsbp):
-        EexpectedVec = cvar.Eest[:, si] + \
-            (EnewTempVecArray[:, si] - EoldTempVecArray[:, si])
+    for ii, iMode in enumerate(modeInds):
+        si = mp.jac.sbp_inds[iMode]
+        EexpectedVec = cvar.Eest[:, iMode] + \
+            (EnewTempVecArray[:, ii] - EoldTempVecArray[:, ii])
         Eexpected2D = np.zeros((mp.Fend.Neta, mp.Fend.Nxi), dtype=complex)
         Eexpected2D[mp.Fend.corr.maskBool] = EexpectedVec
 
-- 
2.43.0


From 6801743ef88b4e66eeb76344fa6b64a4f9095de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:28 +0000
Subject: [PATCH 039/123] fix: intensity histories have one column per
 controlled mode

---
 falco/setup.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/falco/setup.py b/falco/setup.py
index 0efc521..3af8947 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -1481,10 +1481,10 @@ def init_storage_arrays(mp):
 
     out.normIntMeasCorr = np.zeros((mp.Nitr, mp.Nsbp))  # Measured raw NI in correction region of dark hole.
     out.normIntMeasScore = np.zeros((mp.Nitr, mp.Nsbp))  # Measured raw NI in scoring region of dark hole.
-    out.normIntModCorr = np.zeros((mp.Nitr, mp.Nsbp*mp.compact.star.count))  # Estimated modulated NI in correction region of dark hole.
-    out.normIntModScore = np.zeros((mp.Nitr, mp.Nsbp*mp.compact.star.count))  # Estimated modulated NI in scoring region of dark hole.
-    out.normIntUnmodCorr = np.zeros((mp.Nitr, mp.Nsbp*mp.compact.star.count))  # Estimated unmodulated NI in correction region of dark hole.
-    out.normIntUnmodScore = np.zeros((mp.Nitr, mp.Nsbp*mp.compact.star.count))  # Estimated unmodulated NI in correction region of dark hole.
+    out.normIntModCorr = np.zeros((mp.Nitr, mp.jac.Nmode))  # Estimated modulated NI in correction region of dark hole.
+    out.normIntModScore = np.zeros((mp.Nitr, mp.jac.Nmode))  # Estimated modulated NI in scoring region of dark hole.
+    out.normIntUnmodCorr = np.zeros((mp.Nitr, mp.jac.Nmode))  # Estimated unmodulated NI in correction region of dark hole.
+    out.normIntUnmodScore = np.zeros((mp.Nitr, mp.jac.Nmode))  # Estimated unmodulated NI in correction region of dark hole.
 
     # Storage array for throughput at each iteration
     out.thput = np.zeros(mp.Nitr + 1)
-- 
2.43.0


From ec6683a4b62d1edacf003085bd93084c39b082ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:28 +0000
Subject: [PATCH 040/123] fix: band-averaged intensities leave out the modes
 with an extra Zernike

---
 falco/wfsc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/falco/wfsc.py b/falco/wfsc.py
index afad68a..e7710f3 100644
--- a/falco/wfsc.py
+++ b/falco/wfsc.py
@@ -349,8 +349,10 @@ def store_intensities(mp, out, ev, Itr):
         Iest[:, iMode] = mp.sbp_weights[iSubband] * Iest[:, iMode]
         Iinco[:, iMode] = mp.sbp_weights[iSubband] * Iinco[:, iMode]
 
-    IestAllBands = np.sum(Iest, axis=1)
-    IincoAllBands = np.sum(Iinco, axis=1)
+    # Modes with an extra Zernike are not part of the dark hole's intensity.
+    isPiston = np.asarray(mp.jac.zern_inds) == 1
+    IestAllBands = np.sum(Iest[:, isPiston], axis=1)
+    IincoAllBands = np.sum(Iinco[:, isPiston], axis=1)
 
     # Put intensities back into 2-D arrays to use correct indexing of scoring region.
     # Modulated
-- 
2.43.0


From 75af7722697ec136caef0e45f77e47796a7097d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:00 +0000
Subject: [PATCH 041/123] fix: complex projection and correlation use the
 conjugate transpose

---
 falco/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/plot.py b/falco/plot.py
index c9b52b2..b49d3e0 100644
--- a/falco/plot.py
+++ b/falco/plot.py
@@ -200,11 +200,11 @@ def delta_efield(mp, out, Eest, EestPrev, Esim, EsimPrev, Itr):
         dEsimNonzero = dEsim[indsNonzero].reshape([-1, 1])
 
         out.complexProjection[Itr-1, iSubband] = \
-            (np.abs(dEsimNonzero.T @ dEmeasNonzero) / np.abs(dEsimNonzero.T @ dEsimNonzero)).item()
+            (np.abs(dEsimNonzero.conj().T @ dEmeasNonzero) / np.abs(dEsimNonzero.conj().T @ dEsimNonzero)).item()
         print('Complex projection of deltaE is %3.2f    for subband %d/%d' %
               (out.complexProjection[Itr-1, iSubband], iSubband, mp.Nsbp-1))
         out.complexCorrelation[Itr-1, iSubband] = \
-            (np.abs(dEsimNonzero.T @ dEmeasNonzero/(np.sqrt(np.abs(dEmeasNonzero.T @ dEmeasNonzero))*np.sqrt(np.abs(dEsimNonzero.T @ dEsimNonzero))))).item()
+            (np.abs(dEsimNonzero.conj().T @ dEmeasNonzero/(np.sqrt(np.abs(dEmeasNonzero.conj().T @ dEmeasNonzero))*np.sqrt(np.abs(dEsimNonzero.conj().T @ dEsimNonzero))))).item()
         print('Complex correlation of deltaE is %3.2f    for subband %d/%d' %
               (out.complexCorrelation[Itr-1, iSubband], iSubband, mp.Nsbp-1))
 
-- 
2.43.0


From ed14c72da69330fad32b41022b44a8be1ef62723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:00 +0000
Subject: [PATCH 042/123] fix: delta E-field metrics pair each subband with its
 own estimate column

---
 falco/plot.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/falco/plot.py b/falco/plot.py
index b49d3e0..579beca 100644
--- a/falco/plot.py
+++ b/falco/plot.py
@@ -186,8 +186,13 @@ def delta_efield(mp, out, Eest, EestPrev, Esim, EsimPrev, Itr):
     None.
 
     """
+    # Columns of the estimate without an extra Zernike, for the first star only
+    modeInds = np.nonzero((np.asarray(mp.jac.zern_inds) == 1) &
+                          (np.asarray(mp.jac.star_inds) == 0))[0]
+
     for iSubband in range(mp.Nsbp):
-        dEmeas = np.squeeze(Eest[:, iSubband] - EestPrev[:, iSubband])
+        iMode = modeInds[iSubband]
+        dEmeas = np.squeeze(Eest[:, iMode] - EestPrev[:, iMode])
         dEmeas2D = np.zeros((mp.Fend.Neta, mp.Fend.Nxi), dtype=complex)
         dEmeas2D[mp.Fend.corr.maskBool] = dEmeas  # 2-D for plotting
         indsNonzero = np.nonzero(dEmeas != 0)[0]
-- 
2.43.0


From 5b39f3ad38f3e94dcea37239e2d6bd0a8f35d153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:35 +0000
Subject: [PATCH 043/123] fix: singular mode spectrum uses the Jacobians that
 exist

---
 falco/plot.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/falco/plot.py b/falco/plot.py
index 579beca..2cb1ace 100644
--- a/falco/plot.py
+++ b/falco/plot.py
@@ -245,11 +245,10 @@ def delta_efield(mp, out, Eest, EestPrev, Esim, EsimPrev, Itr):
 
 def singular_mode_spectrum_of_Efield(mp, out, jacStruct, Eest, Itr):
 
+    # Only DMs 1 and 2 have a control Jacobian
     iMode = 0
     Gcomplex = np.concatenate((jacStruct.G1[:, :, iMode],
-                               jacStruct.G2[:, :, iMode],
-                               jacStruct.G8[:, :, iMode],
-                               jacStruct.G9[:, :, iMode]), axis=1)
+                               jacStruct.G2[:, :, iMode]), axis=1)
     Gall = np.zeros((mp.jac.Nmode*Gcomplex.shape[0], Gcomplex.shape[1]),
                     dtype=complex)
     Eall = np.zeros((mp.jac.Nmode*Eest.shape[0], 1), dtype=complex)
@@ -257,9 +256,7 @@ def singular_mode_spectrum_of_Efield(mp, out, jacStruct, Eest, Itr):
     for iMode in range(mp.jac.Nmode):
         N = Gcomplex.shape[0]
         Gcomplex = np.concatenate((jacStruct.G1[:, :, iMode],
-                                   jacStruct.G2[:, :, iMode],
-                                   jacStruct.G8[:, :, iMode],
-                                   jacStruct.G9[:, :, iMode]), axis=1)
+                                   jacStruct.G2[:, :, iMode]), axis=1)
         Gall[iMode*N:(iMode+1)*N, :] = Gcomplex
         Eall[iMode*N:(iMode+1)*N, 0] = Eest[:, iMode]
 
-- 
2.43.0


From 20608b2df7a41aa33fd496eafac1ce8bb8c89938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:35 +0000
Subject: [PATCH 044/123] fix: Zernike sensitivities of a single mode

---
 falco/zern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/zern.py b/falco/zern.py
index 4a17202..228202a 100644
--- a/falco/zern.py
+++ b/falco/zern.py
@@ -207,7 +207,7 @@ def calc_zern_sens(mp):
 
     # Compute Zernike sensitivity values averaged across each annulus in dark hole
     # |dE|^2 averaged over wavelength and polarization state
-    dE2cube = np.squeeze(np.mean(np.mean(np.abs(dEZarray)**2, axis=3), axis=2))
+    dE2cube = np.mean(np.mean(np.abs(dEZarray)**2, axis=3), axis=2)
     dE2mat = np.zeros((Nzern, Nannuli))
     for iz in range(Nzern):
         dEtemp = np.squeeze(dE2cube[:, :, iz])
-- 
2.43.0


From cdd7833d1a5925dae538602a49071b41abe75a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:09 +0000
Subject: [PATCH 045/123] fix: scheduled probe settings are checked with
 complete arguments

---
 falco/est.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/falco/est.py b/falco/est.py
index 9e79465..be14863 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -250,28 +250,32 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
     # If scheduled, change some aspects of the probe.
     # None values mean they are not scheduled.
     if mp.est.probeSchedule.xOffsetVec is not None:
-        check.oneD_array(mp.est.probeSchedule.xOffsetVec)
+        check.oneD_array(mp.est.probeSchedule.xOffsetVec,
+                         'mp.est.probeSchedule.xOffsetVec', TypeError)
         if len(mp.est.probeSchedule.xOffsetVec) < mp.Nitr:
             raise ValueError('mp.est.probeSchedule.xOffsetVec must have '
                              'enough values for all WFSC iterations.')
         mp.est.probe.xOffset = mp.est.probeSchedule.xOffsetVec[Itr]
 
     if mp.est.probeSchedule.yOffsetVec is not None:
-        check.oneD_array(mp.est.probeSchedule.yOffsetVec)
+        check.oneD_array(mp.est.probeSchedule.yOffsetVec,
+                         'mp.est.probeSchedule.yOffsetVec', TypeError)
         if len(mp.est.probeSchedule.yOffsetVec) < mp.Nitr:
             raise ValueError('mp.est.probeSchedule.yOffsetVec must have '
                              'enough values for all WFSC iterations.')
         mp.est.probe.yOffset = mp.est.probeSchedule.yOffsetVec[Itr]
 
     if mp.est.probeSchedule.rotationVec is not None:
-        check.oneD_array(mp.est.probeSchedule.rotationVec)
+        check.oneD_array(mp.est.probeSchedule.rotationVec,
+                         'mp.est.probeSchedule.rotationVec', TypeError)
         if len(mp.est.probeSchedule.rotationVec) < mp.Nitr:
             raise ValueError('mp.est.probeSchedule.rotationVec must have '
                              'enough values for all WFSC iterations.')
         mp.est.probe.rotation = mp.est.probeSchedule.rotationVec[Itr]
 
     if mp.est.probeSchedule.InormProbeVec is not None:
-        check.oneD_array(mp.est.probeSchedule.InormProbeVec)
+        check.oneD_array(mp.est.probeSchedule.InormProbeVec,
+                         'mp.est.probeSchedule.InormProbeVec', TypeError)
         if len(mp.est.probeSchedule.InormProbeVec) < mp.Nitr:
             raise ValueError('mp.est.probeSchedule.InormProbeVec must have '
                              'enough values for all WFSC iterations.')
-- 
2.43.0


From c39b15364951188c276ba5b4518633d0b612a11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:09 +0000
Subject: [PATCH 046/123] fix: Jacobian-based probing uses an observation
 matrix with one row per probe pair

---
 falco/est.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/est.py b/falco/est.py
index be14863..0e76326 100644
--- a/falco/est.py
+++ b/falco/est.py
@@ -599,7 +599,7 @@ def pairwise_probing(mp, ev, jacStruct=np.array([])):
 
                     if mp.est.flagUseJac:
                         dE = dEplus[ipix, :].T
-                        H = np.array([np.real(dE), np.imag(dE)])
+                        H = np.array([np.real(dE), np.imag(dE)]).T
                         Epix = np.linalg.pinv(H) @ zAll[:, ipix]  # Batch processing
                     else:
                         allProbeInds = np.arange(Npairs, dtype=int)
-- 
2.43.0


From c7f022026d4df573803afadd1aafc708565f1272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:21 +0000
Subject: [PATCH 047/123] fix: off-axis image uses the spectral weights of the
 piston mode

---
 falco/imaging.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/falco/imaging.py b/falco/imaging.py
index fd8739d..57e55f9 100644
--- a/falco/imaging.py
+++ b/falco/imaging.py
@@ -646,6 +646,8 @@ def get_sim_offaxis_image_compact(mp, x_offset, y_offset, isEvalMode=False):
     modvar.x_offset = x_offset
     modvar.y_offset = y_offset
 
+    iPiston = np.nonzero(np.atleast_1d(mp.jac.zerns) == 1)[0][0]
+
     Iout = 0.
     for iStar in range(mp.star.count):
         modvar.starIndex = iStar
@@ -655,7 +657,7 @@ def get_sim_offaxis_image_compact(mp, x_offset, y_offset, isEvalMode=False):
             modvar.zernIndex = 1
 
             E2D = falco.model.compact(mp, modvar, isEvalMode=isEvalMode)
-            Iout += (np.abs(E2D)**2) * mp.jac.weightMat[si, 0]
+            Iout += (np.abs(E2D)**2) * mp.jac.weightMat[si, iPiston]
 
     return Iout
 
-- 
2.43.0


From 28ee5fce199e232c20103691ccf761cbdca187b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:46 +0000
Subject: [PATCH 048/123] fix: Zernike aberrations use the grid size of their
 own wavefront

---
 falco/proper/prop_zernikes.py | 2 +-
 falco/zern.py                 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/proper/prop_zernikes.py b/falco/proper/prop_zernikes.py
index d961472..226f54e 100644
--- a/falco/proper/prop_zernikes.py
+++ b/falco/proper/prop_zernikes.py
@@ -110,7 +110,7 @@ def prop_zernikes(a, zernike_num, zernike_val, eps = 0., **kwargs):
     """
     zernike_num = np.asarray(zernike_num)
     zernike_val = np.asarray(zernike_val)
-    n = proper.n
+    n = proper.prop_get_gridsize(a)
     
     if proper.print_it and not proper.switch_set("NO_APPLY",**kwargs):
         if "NAME" in kwargs:
diff --git a/falco/zern.py b/falco/zern.py
index 228202a..20c389a 100644
--- a/falco/zern.py
+++ b/falco/zern.py
@@ -496,7 +496,7 @@ def propcustom_zernikes(a, zernike_num, zernike_val, eps=0., **kwargs):
     """
     zernike_num = np.asarray(zernike_num)
     zernike_val = np.asarray(zernike_val)
-    n = proper.n
+    n = proper.prop_get_gridsize(a)
 
     if proper.print_it and not ("NO_APPLY" in kwargs and kwargs["NO_APPLY"]):
         if "NAME" in kwargs:
-- 
2.43.0


From 6f2ccdf80154fb46d381ca73bcc4ce3a19de24da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:57 +0000
Subject: [PATCH 049/123] fix: scoring region keeps its own vertical offset

---
 falco/setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/setup.py b/falco/setup.py
index 3af8947..ff880fa 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -1122,7 +1122,7 @@ def falco_configure_dark_hole_region(mp):
             mp.Fend.xiOffset = np.atleast_1d(mp.Fend.xiOffset)
             SCORE["xiOffset"] = mp.Fend.xiOffset[iZone]
         if hasattr(mp.Fend, 'etaOffset'):
-            mp.Fend.etaOffset = np.atleast_1d(mp.Fend.xiOffset)
+            mp.Fend.etaOffset = np.atleast_1d(mp.Fend.etaOffset)
             SCORE["etaOffset"] = mp.Fend.etaOffset[iZone]
 
         [maskTemp, _, _] = falco.mask.falco_gen_SW_mask(SCORE)
-- 
2.43.0


From 93db91a6e523be609139f3bed964f40c903c399f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:57 +0000
Subject: [PATCH 050/123] fix: wavelengths merged at picometer level keep their
 total weight

---
 falco/setup.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/falco/setup.py b/falco/setup.py
index ff880fa..93ee871 100644
--- a/falco/setup.py
+++ b/falco/setup.py
@@ -547,19 +547,13 @@ def falco_set_spectral_properties(mp):
             counter = counter+1;
 
     # Get rid of redundant wavelengths in the complete list, and sum weights for repeated wavelengths
-    unused_1, inds_unique = np.unique(np.round(1e12*lambdas), return_index=True)  # Check equality at picometer level
+    _, inds_unique, inds_inverse = np.unique(
+        np.round(1e12*lambdas), return_index=True, return_inverse=True)  # Check equality at picometer level
     mp.full.indsLambdaUnique = inds_unique
-    duplicate_inds = np.setdiff1d(np.arange(len(lambdas), dtype=int), inds_unique)
-    # duplicate_values = lambda_weights_all[duplicate_inds] # duplicate weight values
 
     # Shorten the vectors to contain only unique values. Combine weights for repeated wavelengths.
     mp.full.lambdas = lambdas[inds_unique]
-    mp.full.lambda_weights_all = lambda_weights_all[inds_unique]
-    for idup in range(len(duplicate_inds)):
-        wvl = lambdas[duplicate_inds[idup]]
-        weight = lambda_weights_all[duplicate_inds[idup]]
-        ind = np.where(np.abs(mp.full.lambdas-wvl) <= 1e-11)
-        mp.full.lambda_weights_all[ind] = mp.full.lambda_weights_all[ind] + weight
+    mp.full.lambda_weights_all = np.bincount(np.ravel(inds_inverse), weights=lambda_weights_all)
     mp.full.NlamUnique = len(inds_unique)
     pass
 
-- 
2.43.0


From f8298e3dd33fa27198998a4c66896ea4cc5dcb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:57 +0000
Subject: [PATCH 051/123] fix: field of view holds a square dark hole at every
 clocking

---
 falco/mask.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/falco/mask.py b/falco/mask.py
index 16075a5..61d6759 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -609,7 +609,9 @@ def falco_gen_SW_mask(inputs):
     xiOffset = inputs.get("xiOffset", 0.)
     etaOffset = inputs.get("etaOffset", 0.)
     if darkHoleShape in {'square', 'rect', 'rectangle'}:
-        maxExtent = np.max((1, 2*np.abs(np.cos(np.radians(clockAngDeg)))))
+        cosAng = np.abs(np.cos(np.radians(clockAngDeg)))
+        sinAng = np.abs(np.sin(np.radians(clockAngDeg)))
+        maxExtent = np.max((1, 2*cosAng, cosAng + sinAng))
     else:
         maxExtent = 1
     minFOVxi = inputs.get("xiFOV", maxExtent*FOV + np.abs(xiOffset))
-- 
2.43.0


From 4eaa24162bbd55087596ef2cef7a7bddcfe534d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:38 +0000
Subject: [PATCH 052/123] fix: loading a configuration no longer changes
 yaml.SafeLoader for the whole program

---
 falco/config/yaml_loader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/falco/config/yaml_loader.py b/falco/config/yaml_loader.py
index 9c971a3..c9df6cd 100644
--- a/falco/config/yaml_loader.py
+++ b/falco/config/yaml_loader.py
@@ -37,8 +37,10 @@ def _eval_constructor(eval_globals, eval_locals):
     return _result
 
 def _get_loader(eval_globals, eval_locals, ctors_dict):
-    """Add constructors to PyYAML loader."""
-    loader = yaml.SafeLoader
+    """Make a PyYAML loader with our constructors, leaving yaml.SafeLoader alone."""
+    class loader(yaml.SafeLoader):
+        pass
+
     loader.add_constructor(u'tag:yaml.org,2002:map', object_constructor(Object))
     loader.add_constructor("!eval", _eval_constructor(eval_globals, eval_locals))
 
-- 
2.43.0


From 3143c026e66fd7eff020c410c311ae7f65205c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:38 +0000
Subject: [PATCH 053/123] fix: configurations loaded with the same context keep
 their own mp

---
 falco/config/ModelParameters.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/falco/config/ModelParameters.py b/falco/config/ModelParameters.py
index 3441450..2627944 100755
--- a/falco/config/ModelParameters.py
+++ b/falco/config/ModelParameters.py
@@ -1,5 +1,6 @@
 # import copy
 import math
+from collections import ChainMap
 from pathlib import Path
 
 import numpy
@@ -245,9 +246,9 @@ class ModelParameters(Object):
 
         result = ModelParameters()
 
-        if context is None:
-            context = {}
-        context['mp'] = result
+        # Leave the caller's dictionary alone: another file loaded with the same
+        # context must not redirect the `mp` of this one.
+        context = ChainMap({'mp': result}, {} if context is None else context)
 
         data = load_from_str(
             text,
-- 
2.43.0


From e98d3d529bdc12c725797e873f8bcaf316a35d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:38 +0000
Subject: [PATCH 054/123] fix: threads reading the same derived setting no
 longer report a circular dependency

---
 falco/config/Eval.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/falco/config/Eval.py b/falco/config/Eval.py
index b2b10b3..ae0d43a 100644
--- a/falco/config/Eval.py
+++ b/falco/config/Eval.py
@@ -1,5 +1,6 @@
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 import copy
+import threading
 
 @dataclass
 class Eval:
@@ -26,23 +27,25 @@ class Eval:
     code: str
     "The injected code to be run lazily."
 
-    in_progress = False
+    in_progress: set = field(default_factory=set, init=False, repr=False, compare=False)
     """
-    Whether evaluation is currently in progress.
+    The threads in which evaluation is currently in progress.
     
     If a circular dependency happens, this variable is used to detect it.
+    Several threads may evaluate the same parameter at once.
     """
 
     def evaluate(self):
         """Runs the code."""
-        if self.in_progress:
+        thread = threading.get_ident()
+        if thread in self.in_progress:
             raise ValueError("Circular parameter evaluation dependency detected.")
 
-        self.in_progress = True
+        self.in_progress.add(thread)
         try:
             result = eval(self.code, self.globals, self.locals)
         finally:
-            self.in_progress = False
+            self.in_progress.discard(thread)
         return result
     
     def __deepcopy__(self, memo):
-- 
2.43.0


From ce4eadfdefa35b3cc2c8db03a098a6771202a09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:38 +0000
Subject: [PATCH 055/123] fix: generators and lambdas in derived settings can
 refer to mp and the context

---
 falco/config/Eval.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/falco/config/Eval.py b/falco/config/Eval.py
index ae0d43a..0548aea 100644
--- a/falco/config/Eval.py
+++ b/falco/config/Eval.py
@@ -43,7 +43,8 @@ class Eval:
 
         self.in_progress.add(thread)
         try:
-            result = eval(self.code, self.globals, self.locals)
+            # One namespace, so that nested scopes (generators, lambdas) see everything.
+            result = eval(self.code, {**self.globals, **self.locals})
         finally:
             self.in_progress.discard(thread)
         return result
-- 
2.43.0


From ed622b8ad251e4fb082cef4da27b12f14e705d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:57 +0000
Subject: [PATCH 056/123] fix: configurations with derived settings can be
 pickled and compared

---
 falco/config/Eval.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/falco/config/Eval.py b/falco/config/Eval.py
index 0548aea..22af86f 100644
--- a/falco/config/Eval.py
+++ b/falco/config/Eval.py
@@ -1,6 +1,8 @@
 from dataclasses import dataclass, field
 import copy
+import importlib
 import threading
+from types import ModuleType
 
 @dataclass
 class Eval:
@@ -17,7 +19,7 @@ class Eval:
     Use this to provide libraries, i.e. `{"np": numpy}`
     """
 
-    locals: any
+    locals: any = field(repr=False, compare=False)
     """
     The locals exposed to the injected code, in a dictionary.
     This can be used to provide recursive access to the parsed config object.
@@ -49,5 +51,19 @@ class Eval:
             self.in_progress.discard(thread)
         return result
     
+    def __getstate__(self):
+        # Modules cannot be pickled, so store their names instead.
+        state = dict(self.__dict__, in_progress=set())
+        state["modules"] = {name: value.__name__ for name, value in self.globals.items()
+                            if isinstance(value, ModuleType)}
+        state["globals"] = {name: value for name, value in self.globals.items()
+                            if not isinstance(value, ModuleType)}
+        return state
+
+    def __setstate__(self, state):
+        modules = state.pop("modules")
+        self.__dict__.update(state)
+        self.globals.update({name: importlib.import_module(value) for name, value in modules.items()})
+
     def __deepcopy__(self, memo):
         return Eval(self.globals, copy.deepcopy(self.locals, memo), self.code)
-- 
2.43.0


From 310e0ac3003356327c4727bf154e8fca6e03ed7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:30 +0000
Subject: [PATCH 057/123] fix: configuration objects keep one value per setting
 for both access syntaxes

---
 falco/config/Object.py | 56 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 47 insertions(+), 9 deletions(-)

diff --git a/falco/config/Object.py b/falco/config/Object.py
index 4c2244a..78184ad 100644
--- a/falco/config/Object.py
+++ b/falco/config/Object.py
@@ -12,14 +12,31 @@ class Object:
     Automatically evaluates `Eval` lazy parameters.
     """
 
+    # Each setting lives in exactly one place: in `self.data` if it was given to the
+    # constructor (or in a file) or is an `Eval`, otherwise in `self.__dict__`.
+
     def __init__(self, **kwargs):
-        data = kwargs if kwargs is not None else {}
-        if self.__dict__ is not None:
-            data = deepmerge.conservative_merger.merge(data, self.__dict__)
-        self.__dict__ = {"data": data}
+        self.__dict__ = {"data": {**self._record(), **kwargs}}
+
+    def _record(self):
+        """All settings in one dictionary, with `Eval` parameters left unevaluated."""
+        own = {key: value for key, value in self.__dict__.items() if key != "data"}
+        return {**self.__dict__.get("data", {}), **own}
+
+    def as_dict(self):
+        """All settings in a new dictionary, with `Eval` parameters evaluated."""
+        return {key: self[key] for key in self._record()}
+
+    def __copy__(self):
+        result = self.__class__.__new__(self.__class__)
+        result.__dict__.update(self.__dict__, data=dict(self.data))
+        return result
 
     def merge(self, **kwargs):
-        deepmerge.always_merger.merge(self.data, kwargs)
+        record = self._record()
+        deepmerge.always_merger.merge(record, kwargs)
+        for key in kwargs:
+            self[key] = record[key]
 
     def __getattr__(self, item):
         # Normally `self.data` exists in `self.__dict__`, so referring to `self.data`
@@ -28,7 +45,7 @@ class Object:
         # and any `__getattr__` call for any attribute will recurse later in the function.
         # So we just create the dictionary now because it needs to exist anyway.
         if item == 'data':
-            self.data = {}
+            self.__dict__['data'] = {}
             return self.data
 
         if item not in self.data:
@@ -38,17 +55,38 @@ class Object:
             return self.data[item].evaluate()
         return self.data[item]
 
+    def __setattr__(self, key, value):
+        if key in self.__dict__.get("data", {}) or isinstance(value, Eval):
+            self.data[key] = value
+            self.__dict__.pop(key, None)
+        else:
+            object.__setattr__(self, key, value)
+
+    def __delattr__(self, key):
+        if key in self.__dict__.get("data", {}):
+            del self.data[key]
+        else:
+            object.__delattr__(self, key)
+
     def __getitem__(self, item):
+        if item in self.__dict__ and item != "data":
+            return self.__dict__[item]
         return self.__getattr__(item)
 
     def __setitem__(self, key, value):
-        self.data[key] = value
+        if key in self.__dict__ and key != "data":
+            setattr(self, key, value)
+        else:
+            self.data[key] = value
+
+    def __delitem__(self, key):
+        delattr(self, key)
 
     def __eq__(self, other):
         if not isinstance(other, Object):
             return False
-        return self.data == other.data and self.__dict__ == other.__dict__
+        return self._record() == other._record()
 
     def show(self):
         """Print self as a dictionary"""
-        print(self.data)
+        print(self._record())
-- 
2.43.0


From 0eb22c700c6c74802a988355717def8997304756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:30 +0000
Subject: [PATCH 058/123] fix: settings of the full model given in a file reach
 the PROPER prescription

---
 falco/model/models.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index eb301c9..a01a3cc 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -1,5 +1,4 @@
 """Compact and full diffractive optical models."""
-import copy
 import os
 import pickle
 
@@ -132,7 +131,7 @@ def full(mp, modvar, isNorm=True):
 
     elif mp.layout.lower() == 'proper':
 
-        optval = copy.copy(vars(mp.full))
+        optval = mp.full.as_dict()
 
         if any(mp.dm_ind == 1):
             optval['use_dm1'] = True
@@ -161,7 +160,7 @@ def full(mp, modvar, isNorm=True):
         del optval
 
     elif mp.layout.lower() in ('wfirst_phaseb_proper', 'roman_phasec_proper'):
-        optval = copy.copy(vars(mp.full))
+        optval = mp.full.as_dict()
         optval['use_dm1'] = True
         optval['use_dm2'] = True
         optval['dm1_m'] = mp.dm1.V*mp.dm1.VtoH + mp.full.dm1.flatmap
-- 
2.43.0


From c263ba88bd17c1d3115d2a6f01a72af44d33c283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:50 +0000
Subject: [PATCH 059/123] fix: a derived setting can be overwritten while
 another thread reads it

---
 falco/config/Object.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/falco/config/Object.py b/falco/config/Object.py
index 78184ad..7983898 100644
--- a/falco/config/Object.py
+++ b/falco/config/Object.py
@@ -51,9 +51,10 @@ class Object:
         if item not in self.data:
             raise AttributeError
 
-        if isinstance(self.data[item], Eval):
-            return self.data[item].evaluate()
-        return self.data[item]
+        value = self.data[item]  # Read once: another thread may overwrite it.
+        if isinstance(value, Eval):
+            return value.evaluate()
+        return value
 
     def __setattr__(self, key, value):
         if key in self.__dict__.get("data", {}) or isinstance(value, Eval):
-- 
2.43.0


From cfd6335c1410d0be4c2418f6f569626bb2c4363a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:41 +0000
Subject: [PATCH 060/123] fix: the full HLC model no longer overwrites the
 focal-plane mask other threads are using

---
 falco/model/models.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/falco/model/models.py b/falco/model/models.py
index a01a3cc..cced1d6 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -1,4 +1,5 @@
 """Compact and full diffractive optical models."""
+import copy
 import os
 import pickle
 
@@ -113,6 +114,10 @@ def full(mp, modvar, isNorm=True):
         ilam = modvar.sbpIndex
 
     if mp.coro.upper() == 'HLC':
+        # Other threads may be using another wavelength's mask.
+        mp = copy.copy(mp)
+        mp.F3 = copy.copy(mp.F3)
+        mp.F3.full = copy.copy(mp.F3.full)
         if mp.layout.lower() == 'fourier' or mp.layout.lower() == 'proper':
             if hasattr(mp.full, 'fpmCube'):
                 mp.F3.full.mask = mp.full.fpmCube[:, :, ilam]
-- 
2.43.0


From 0f9e531bdf262c24a375332c800e31f284e9c430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:37 +0000
Subject: [PATCH 061/123] fix: a saved optical state is restored, and ending a
 session deletes only its own files

---
 falco/proper/__init__.py           |  2 +-
 falco/proper/prop_end_savestate.py |  7 ++++++-
 falco/proper/prop_state.py         | 11 +++++++----
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/falco/proper/__init__.py b/falco/proper/__init__.py
index fe6c5c3..887d855 100644
--- a/falco/proper/__init__.py
+++ b/falco/proper/__init__.py
@@ -168,7 +168,7 @@ old_opd = 0
 phase_offset = False
 print_total_intensity = False
 do_table = False
-save_state = 1
+save_state = 0
 save_state_lam = []
 statefile = ""
 total_original_pupil = 0
diff --git a/falco/proper/prop_end_savestate.py b/falco/proper/prop_end_savestate.py
index 3738d59..b436c37 100644
--- a/falco/proper/prop_end_savestate.py
+++ b/falco/proper/prop_end_savestate.py
@@ -30,8 +30,13 @@ def prop_end_savestate():
     proper.save_state_lam = []
 
     statefile = proper.statefile
+    proper.statefile = ""
 
-    sfiles = glob('*' + statefile)
+    # without a session there is nothing to delete
+    if statefile == "":
+        return
+
+    sfiles = glob('*' + statefile + '.npz')
     if len(sfiles) > 0:
         for sfile in sfiles:
             os.remove(sfile)
diff --git a/falco/proper/prop_state.py b/falco/proper/prop_state.py
index fcd75a2..9f4cf31 100644
--- a/falco/proper/prop_state.py
+++ b/falco/proper/prop_state.py
@@ -44,9 +44,12 @@ def prop_state(wf):
     proper.n = int(0)
     proper.first_pass = np.fix(0)
     
-    statedata = np.load(statefile_lam)
-    proper.total_original_pupil = statedata["total_original_pupil"]
-    wf = statedata["wf"].tolist()
+    with np.load(statefile_lam, allow_pickle = True) as statedata:
+        proper.total_original_pupil = statedata["total_original_pupil"].item()
+        saved = statedata["wf"].item()
+
+    # the caller holds on to its object, so give it the saved contents
+    wf.__dict__.update(saved.__dict__)
     proper.n = wf.wfarr.shape[0]
-        
+
     return
-- 
2.43.0


From 388f1bbc572ddb2d1a6467f088c12fca774f3950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:36 +0000
Subject: [PATCH 062/123] fix: a lens that collimates a beam, or meets one
 brought to a plane, no longer divides by zero

---
 falco/proper/prop_lens.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/falco/proper/prop_lens.py b/falco/proper/prop_lens.py
index d38ad6e..907d496 100644
--- a/falco/proper/prop_lens.py
+++ b/falco/proper/prop_lens.py
@@ -53,7 +53,7 @@ def prop_lens(wf, lens_fl, surface_name = ""):
     if (wf.z - wf.z_w0) != 0.0:     # lens is not at focus or entrance pupil
         gR_beam_old = (wf.z - wf.z_w0) + wf.z_Rayleigh**2 / (wf.z - wf.z_w0)
         gR_beam_old_inf = 0.
-        if gR_beam_old != lens_fl:
+        if 1./gR_beam_old != 1./lens_fl:
             gR_beam = 1./(1./gR_beam_old - 1./lens_fl)
             gR_beam_inf = 0
             if proper.verbose:
@@ -118,7 +118,10 @@ def prop_lens(wf, lens_fl, surface_name = ""):
     elif wf.propagator_type == "INSIDE__to_OUTSIDE":
         lens_phase = 1./lens_fl + 1./R_beam
     elif wf.propagator_type == "OUTSIDE_to_INSIDE_":
-        lens_phase = 1./lens_fl - 1./R_beam_old        
+        if R_beam_old == 0.0:       # the beam was brought to a plane
+            lens_phase = 1./lens_fl
+        else:
+            lens_phase = 1./lens_fl - 1./R_beam_old
     elif  wf.propagator_type == "OUTSIDE_to_OUTSIDE":
         if R_beam_old == 0.0:
             lens_phase = 1./lens_fl + 1./R_beam
-- 
2.43.0


From e7b206df3c39ed225764f500e685252d5dacdd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:36 +0000
Subject: [PATCH 063/123] fix: the surface table lists beam diameters, not
 radii, after propagations

---
 falco/proper/prop_propagate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/proper/prop_propagate.py b/falco/proper/prop_propagate.py
index 524634a..30ea529 100644
--- a/falco/proper/prop_propagate.py
+++ b/falco/proper/prop_propagate.py
@@ -78,7 +78,7 @@ def prop_propagate(wf, dz, surface_name = "", **kwargs):
     if proper.do_table:
         proper.sampling_list[proper.action_num] = wf.dx
         proper.distance_list[proper.action_num] = dz
-        proper.beam_diam_list[proper.action_num] = 1 * proper.prop_get_beamradius(wf)
+        proper.beam_diam_list[proper.action_num] = 2 * proper.prop_get_beamradius(wf)
         
         if surface_name != "":
            proper.surface_name_list[proper.action_num] = surface_name
-- 
2.43.0


From f13d8109fee7751368d0b7294398d52c93ef1841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:00 +0000
Subject: [PATCH 064/123] fix: prop_end extracts the central part of the field

---
 falco/proper/prop_end.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/falco/proper/prop_end.py b/falco/proper/prop_end.py
index ce54a4d..a20485e 100644
--- a/falco/proper/prop_end.py
+++ b/falco/proper/prop_end.py
@@ -47,8 +47,10 @@ def prop_end(wf, **kwargs):
         wf.wfarr = proper.prop_shift_center(np.abs(wf.wfarr)**2)
 
     if "EXTRACT" in kwargs:
-        EXTRACT = kwargs["EXTRACT"]
+        EXTRACT = int(kwargs["EXTRACT"])
         ny, nx = wf.wfarr.shape
-        wf.wfarr = wf.wfarr[ny/2-EXTRACT/2:ny/2+EXTRACT/2,nx/2-EXTRACT/2:nx/2+EXTRACT/2]
+        y1 = ny//2 - EXTRACT//2
+        x1 = nx//2 - EXTRACT//2
+        wf.wfarr = wf.wfarr[y1:y1+EXTRACT,x1:x1+EXTRACT]
 
     return (wf.wfarr, sampling)
-- 
2.43.0


From 3dfaa1f03c7680c9c9984b0d0e183f26ea1451ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:00 +0000
Subject: [PATCH 065/123] fix: a wavelength table with a single row can be run

---
 falco/proper/prop_run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/proper/prop_run.py b/falco/proper/prop_run.py
index 612aefd..4a2bc91 100644
--- a/falco/proper/prop_run.py
+++ b/falco/proper/prop_run.py
@@ -113,7 +113,7 @@ def prop_run(routine_name, lambda0, gridsize, **kwargs):
 
     if type(lambda0) == str:
         try:
-            lam, throughput = np.loadtxt(lambda0, unpack = True, usecols = (0,1))
+            lam, throughput = np.loadtxt(lambda0, unpack = True, usecols = (0,1), ndmin = 2)
         except IOError:
             raise IOError("Unable to open wavelength file %s" %(lambda0))
 
-- 
2.43.0


From 416adb13cc76d5fa94d2b69f2dfe9cbe5424739b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:33 +0000
Subject: [PATCH 066/123] fix: amplitude error maps can be applied (NameError)

---
 falco/proper/prop_errormap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/proper/prop_errormap.py b/falco/proper/prop_errormap.py
index bc2e502..359dfad 100644
--- a/falco/proper/prop_errormap.py
+++ b/falco/proper/prop_errormap.py
@@ -89,7 +89,7 @@ def prop_errormap(wf, filename, xshift = 0., yshift = 0., **kwargs):
         If map type is MIRROR_SURFACE, WAVEFRONT, or AMPLITUDE.
     """
 
-    if proper.switch_set("AMPLITUDE",**kwargs) and (proper.switch_set("NM",**kwargs) or proper_switch_set("MICRONS",**kwargs)):
+    if proper.switch_set("AMPLITUDE",**kwargs) and (proper.switch_set("NM",**kwargs) or proper.switch_set("MICRONS",**kwargs)):
         raise SystemExit("ERRORMAP: Cannot specify NM or MICRON for an amplitude map")
     
     if proper.switch_set("NM",**kwargs) and proper.switch_set("MICRONS",**kwargs):
-- 
2.43.0


From a99d8dce76c1db69679d5b3ab26ad9d460b21d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:33 +0000
Subject: [PATCH 067/123] fix: error maps are shifted by yshift vertically

---
 falco/proper/prop_resamplemap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/proper/prop_resamplemap.py b/falco/proper/prop_resamplemap.py
index 8369f27..b95c982 100644
--- a/falco/proper/prop_resamplemap.py
+++ b/falco/proper/prop_resamplemap.py
@@ -63,7 +63,7 @@ def prop_resamplemap(wf, dmap, pixscale, xc, yc, xshift = 0., yshift = 0.):
     
     y = np.arange(n, dtype = np.float64) - int(n/2)
     y = y * proper.prop_get_sampling(wf) / pixscale
-    y += yc - xshift/pixscale
+    y += yc - yshift/pixscale
 
     if proper.use_cubic_conv:
         dmap = proper.prop_cubic_conv(dmap.T, x, y, GRID=True)
-- 
2.43.0


From 2c4068230ddab8a34a76c0fc98ef237a7eb57c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:33 +0000
Subject: [PATCH 068/123] fix: making a PSD error map no longer changes the FFT
 library setting of the user

---
 falco/proper/prop_psd_errormap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/proper/prop_psd_errormap.py b/falco/proper/prop_psd_errormap.py
index 61b4d45..15cb5ee 100644
--- a/falco/proper/prop_psd_errormap.py
+++ b/falco/proper/prop_psd_errormap.py
@@ -183,7 +183,7 @@ def prop_psd_errormap(wf, amp, b, c, **kwargs):
             kpsd[kpsd > max_frequency] = 0.0
             psd2d *= (kpsd)
 
-        if proper.prop_use_fftw() == 1:
+        if proper.use_fftw:
             dmap_fft = proper.prop_shift_center(np.sqrt(psd2d)/dk*np.exp(i*phase))
             proper.prop_fftw(dmap_fft, directionFFTW = 'FFTW_FORWARD')
             dmap_fft /= np.size(psd2d)
-- 
2.43.0


From 3688f7ebf781d53370d34fe5111d5b0d9b20b467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:33 +0000
Subject: [PATCH 069/123] fix: limiting the frequencies of a PSD error map
 leaves the others as they are

---
 falco/proper/prop_psd_errormap.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/falco/proper/prop_psd_errormap.py b/falco/proper/prop_psd_errormap.py
index 15cb5ee..77c1a8f 100644
--- a/falco/proper/prop_psd_errormap.py
+++ b/falco/proper/prop_psd_errormap.py
@@ -180,8 +180,7 @@ def prop_psd_errormap(wf, amp, b, c, **kwargs):
         # if specified, zero-out spatial frequencies > max_frequency
         if "MAX_FREQUENCY" in kwargs:
             max_frequency = kwargs["MAX_FREQUENCY"]
-            kpsd[kpsd > max_frequency] = 0.0
-            psd2d *= (kpsd)
+            psd2d *= (kpsd <= max_frequency)
 
         if proper.use_fftw:
             dmap_fft = proper.prop_shift_center(np.sqrt(psd2d)/dk*np.exp(i*phase))
-- 
2.43.0


From f70d61851c8c69db635ed4e30ab7603112351a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:33 +0000
Subject: [PATCH 070/123] fix: the rotation of a PSD error map is a rotation

---
 falco/proper/prop_psd_errormap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/proper/prop_psd_errormap.py b/falco/proper/prop_psd_errormap.py
index 77c1a8f..6ecc8ae 100644
--- a/falco/proper/prop_psd_errormap.py
+++ b/falco/proper/prop_psd_errormap.py
@@ -161,8 +161,8 @@ def prop_psd_errormap(wf, amp, b, c, **kwargs):
         xk = np.tile(np.arange(n, dtype = np.float64), (n,1)) - int(n/2)
         yk = xk.T
 
-        xk = xk * np.cos(-rot_angle) - yk * np.sin(-rot_angle)
-        yk = xk * np.sin(-rot_angle) + yk * np.cos(-rot_angle)
+        xk, yk = (xk * np.cos(-rot_angle) - yk * np.sin(-rot_angle),
+                  xk * np.sin(-rot_angle) + yk * np.cos(-rot_angle))
         yk = yk * np.cos(-inc_angle)
         kpsd = np.sqrt(xk**2 + yk**2) * dk   # cycles/meter
         if proper.switch_set("TPF",**kwargs):
-- 
2.43.0


From 46dbd1f883cc2a92e45525d0156c639618cc61a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:18 +0000
Subject: [PATCH 071/123] fix: rotating an error map interpolates about its
 centre pixel instead of smoothing it

---
 falco/proper/prop_rotate.py | 58 ++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 33 deletions(-)

diff --git a/falco/proper/prop_rotate.py b/falco/proper/prop_rotate.py
index 4380588..ca4ec10 100644
--- a/falco/proper/prop_rotate.py
+++ b/falco/proper/prop_rotate.py
@@ -13,9 +13,9 @@ import numpy as np
 
 if not proper.use_cubic_conv:
     try:
-        from scipy.ndimage import rotate
+        from scipy.ndimage import map_coordinates
     except:
-        from scipy.ndimage.interpolation import rotate
+        from scipy.ndimage.interpolation import map_coordinates
         
 
 
@@ -56,41 +56,33 @@ def prop_rotate(old_image, theta, **kwargs):
         is_complex = 0
         
     new_image = np.copy(old_image)
-    
+
+    ny, nx = old_image.shape
+    XC = kwargs.get("XC", nx//2)
+    YC = kwargs.get("YC", ny//2)
+    xshift = kwargs.get("XSHIFT", 0.)
+    yshift = kwargs.get("YSHIFT", 0.)
+    missing = kwargs.get("MISSING", 0.)
+
+    t = -theta * np.pi / 180.
+
+    x0 = np.arange(nx, dtype = np.float64) - XC - xshift
+
     if proper.use_cubic_conv:
-        n = old_image.shape[0]
-    
-        if not "XC" in kwargs:
-            XC = int(n / 2)
-        
-        if not "YC" in kwargs:
-            YC = int(n / 2)
-        
-        if not "XSHIFT" in kwargs:
-            xshift = 0.
-    
-        if not "YSHIFT" in kwargs:
-            yshift = 0.        
-        
-        if not "MISSING" in kwargs:
-            missing = 0.    
-        
-        t = -theta * np.pi / 180.
-    
-        x0 = np.arange(n, dtype = np.float64) - XC - xshift
-    
-        for j in range(n):
+        for j in range(ny):
             y0 = j - YC - yshift
-            xi = x0 * np.cos(t) - y0 * np.sin(t) + YC
-            yi = x0 * np.sin(t) + y0 * np.cos(t) + XC
-        
+            xi = x0 * np.cos(t) - y0 * np.sin(t) + XC
+            yi = x0 * np.sin(t) + y0 * np.cos(t) + YC
+
             new_image[j,:] = proper.prop_cubic_conv(old_image, xi, yi, GRID = False)
     else:
-        theta = -1. * theta
+        y0 = np.arange(ny, dtype = np.float64)[:,None] - YC - yshift
+        yx = np.array([x0 * np.sin(t) + y0 * np.cos(t) + YC, x0 * np.cos(t) - y0 * np.sin(t) + XC])
+
         if is_complex:
-            new_image.real = rotate(old_image.real, theta, reshape = False, prefilter = True) 
-            new_image.imag = rotate(old_image.imag, theta, reshape = False, prefilter = True)
+            new_image.real = map_coordinates(old_image.real, yx, order = 3, mode = "grid-constant", cval = missing)
+            new_image.imag = map_coordinates(old_image.imag, yx, order = 3, mode = "grid-constant", cval = missing)
         else:
-            new_image = rotate(old_image, theta, reshape = False, prefilter = False)
-    
+            new_image = map_coordinates(old_image, yx, order = 3, mode = "grid-constant", cval = missing)
+
     return new_image
-- 
2.43.0


From ab2d8ace60849351401d30330e2debbef1539a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:18 +0000
Subject: [PATCH 072/123] fix: error maps that are not square are centred

---
 falco/proper/prop_readmap.py  | 4 ++--
 falco/proper/prop_writemap.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/falco/proper/prop_readmap.py b/falco/proper/prop_readmap.py
index 88815f6..33e2d30 100644
--- a/falco/proper/prop_readmap.py
+++ b/falco/proper/prop_readmap.py
@@ -75,8 +75,8 @@ def prop_readmap(wf, filename, xshift = 0, yshift = 0, **kwargs):
     
     if not "XC_MAP" in kwargs:
         s = dmap.shape
-        xc = s[0]//2
-        yc = s[1]//2
+        xc = s[1]//2
+        yc = s[0]//2
     else:
         xc = kwargs["XC_MAP"]
         yc = kwargs["YC_MAP"]
diff --git a/falco/proper/prop_writemap.py b/falco/proper/prop_writemap.py
index 5d9ed71..e977c53 100644
--- a/falco/proper/prop_writemap.py
+++ b/falco/proper/prop_writemap.py
@@ -52,7 +52,7 @@ def prop_writemap(dmap, filename, **kwargs):
         raise ValueError('PROP_WRITEMAP: Either SAMPLING or RADIUS_PIX keyword \
                     is required. Stopping.')
 
-    nx, ny = dmap.shape
+    ny, nx = dmap.shape
 
     if proper.switch_set("AMPLITUDE",**kwargs):
         maptype = "amplitude"
-- 
2.43.0


From bcab69891fb89b292da0da52b53d07a420f46f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:23 +0000
Subject: [PATCH 073/123] fix: fused silica can be given by its full name

---
 falco/thinfilm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/thinfilm.py b/falco/thinfilm.py
index d0d0cfd..955d3ac 100644
--- a/falco/thinfilm.py
+++ b/falco/thinfilm.py
@@ -165,7 +165,7 @@ def calc_complex_trans_matrix(substrate, metal, dielectric, lam, aoi, t_Ti,
     # Define Material Properties
     # ---------------------------------------------
     # Substrate properties
-    if substrate.upper() in ('FS', 'FUSEDSILICA, FUSED_SILICA'):
+    if substrate.upper() in ('FS', 'FUSEDSILICA', 'FUSED_SILICA'):
         A1 = 0.68374049400
         A2 = 0.42032361300
         A3 = 0.58502748000
-- 
2.43.0


From 96908a5c279ed18ee8222cb5e28f7696c0fd9e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:23 +0000
Subject: [PATCH 074/123] fix: evanescent waves in the transmission medium
 decay instead of growing

---
 falco/thinfilm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/falco/thinfilm.py b/falco/thinfilm.py
index 955d3ac..12ac5cc 100644
--- a/falco/thinfilm.py
+++ b/falco/thinfilm.py
@@ -385,6 +385,7 @@ def solver(n, d0, theta, lam, tetm=False):
     kx = 2*np.pi*n[0]*np.sin(theta)/lam
     # sign agrees with measurement convention:
     kz = -np.sqrt((2*np.pi*n/lam)**2 - kx*kx)
+    kz[np.imag(kz) < 0] *= -1  # evanescent waves decay away from the interface
 
     if tetm:
         kzz = kz/(n*n)
-- 
2.43.0


From 6a5a3fad56ffd04b194f7adabdfa84f57ee64372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:23 +0000
Subject: [PATCH 075/123] fix: reflections of the two polarizations no longer
 cancel in their mean

---
 falco/thinfilm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/falco/thinfilm.py b/falco/thinfilm.py
index 12ac5cc..4befdb7 100644
--- a/falco/thinfilm.py
+++ b/falco/thinfilm.py
@@ -407,6 +407,10 @@ def solver(n, d0, theta, lam, tetm=False):
 
     rr = A[1, 0] / A[0, 0]
     tt = 1 / A[0, 0]
+    if tetm:
+        # From the magnetic to the electric field. TE and TM are then the same
+        # at normal incidence instead of cancelling in their mean.
+        rr = -rr
 
     # transmitted power flux (Poynting vector . surface) depends on index of
     # the substrate and angle
-- 
2.43.0


From 7e27405262c465f7a80f04165b9c4ce4f32df750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:53 +0000
Subject: [PATCH 076/123] fix: stored thin-film tables are used only for the
 exact values they were made for

---
 falco/thinfilm.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/falco/thinfilm.py b/falco/thinfilm.py
index 4befdb7..5fb7f8b 100644
--- a/falco/thinfilm.py
+++ b/falco/thinfilm.py
@@ -2,6 +2,7 @@
 import numpy as np
 from os.path import isfile
 import os
+import hashlib
 
 from falco.check import real_scalar, real_positive_scalar,\
                             real_nonnegative_scalar, scalar_integer,\
@@ -453,18 +454,30 @@ def gen_complex_trans_table(mp, flagRefl=False):
     # mp.F3.metal = 'Ni'
     # mp.F3.diel = 'PMGI'
 
-    fn_compact = ('ct_cube_%s_Ti%.1fnm_%s_%.1fto%.1fby%.2f_%s_%.1fto%.1fby%.2f_wvl%dnm_BW%.1fN%d_%.1fdeg_compact.npy' %
+    # The readable part of the file name is rounded. The last part of it stands
+    # for the exact values of everything that the table depends on.
+    inputs = [mp.F3.substrate, mp.t_Ti_nm, mp.F3.metal, mp.F3.dielectric,
+              mp.aoi, mp.F3.d0fac]
+    vectors = [mp.t_metal_nm_vec, mp.t_diel_nm_vec]
+
+    def hash_of(lambdas):
+        text = repr([str(item) for item in inputs] +
+                    [np.ravel(vec).tolist() for vec in vectors + [lambdas]])
+        return hashlib.md5(text.encode()).hexdigest()[:12]
+
+    fn_compact = ('ct_cube_%s_Ti%.1fnm_%s_%.1fto%.1fby%.2f_%s_%.1fto%.1fby%.2f_wvl%dnm_BW%.1fN%d_%.1fdeg_compact_%s.npy' %
         (mp.F3.substrate, mp.t_Ti_nm, mp.F3.metal, np.min(mp.t_metal_nm_vec),
          np.max(mp.t_metal_nm_vec), mp.dt_metal_nm, mp.F3.dielectric,
          np.min(mp.t_diel_nm_vec), np.max(mp.t_diel_nm_vec), mp.dt_diel_nm,
-         1e9*mp.lambda0, 100*mp.fracBW, mp.Nsbp, mp.aoi))
+         1e9*mp.lambda0, 100*mp.fracBW, mp.Nsbp, mp.aoi,
+         hash_of(mp.sbp_centers)))
     fn_cube_compact = os.path.join(localpath, 'data', 'material', fn_compact)
 
-    fn_full = ('ct_cube_%s_Ti%.1fnm_%s_%.1fto%.1fby%.2f_%s_%.1fto%.1fby%.2f_wvl%dnm_BW%.1f_%dN%d_%.1fdeg_full.npy' %
+    fn_full = ('ct_cube_%s_Ti%.1fnm_%s_%.1fto%.1fby%.2f_%s_%.1fto%.1fby%.2f_wvl%dnm_BW%.1f_%dN%d_%.1fdeg_full_%s.npy' %
         (mp.F3.substrate, mp.t_Ti_nm, mp.F3.metal, np.min(mp.t_metal_nm_vec), np.max(mp.t_metal_nm_vec), mp.dt_metal_nm,
          mp.F3.dielectric, np.min(mp.t_diel_nm_vec), np.max(mp.t_diel_nm_vec),
          mp.dt_diel_nm, (1e9*mp.lambda0), 100*mp.fracBW, mp.Nsbp, mp.Nwpsbp,
-         mp.aoi))
+         mp.aoi, hash_of(mp.full.lambdas)))
     fn_cube_full = os.path.join(localpath, 'data', 'material', fn_full)
 
     if flagRefl:
-- 
2.43.0


From 90f0b635f10f6310d2a8fc7d740c9981d55d2ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:53 +0000
Subject: [PATCH 077/123] fix: the full model looks up the HLC mask at its own
 wavelength

---
 falco/hlc.py      | 9 +++++----
 falco/thinfilm.py | 4 ++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/falco/hlc.py b/falco/hlc.py
index 08be1de..f94937b 100644
--- a/falco/hlc.py
+++ b/falco/hlc.py
@@ -43,10 +43,11 @@ def gen_fpm_from_LUT(mp, si, wi, modelType):
         # Index of the wavelength in mp.sbp_centers
         ilam = si
     elif modelType.lower() == 'full':
-        # size = (Ndiel,Nmetal,mp.Nsbp*mp.Nwpsbp)
+        # size = (Ndiel, Nmetal, len(mp.full.lambdas))
         complexTransCube = mp.complexTransFull
-        # Index of the wavelength in mp.lam_array
-        ilam = (si-1)*mp.Nwpsbp + wi
+        # Index of the wavelength in mp.full.lambdas
+        ilam = np.argmin(np.abs(mp.full.lambdas -
+                                mp.full.lambdasMat[si, wi]))
     else:
         raise ValueError('modelType must specify full or compact model.')
 
@@ -107,7 +108,7 @@ def gen_fpm_cube_from_LUT(mp, modelType):
         complexTransCube = mp.complexTransCompact
         lamVec = mp.sbp_centers
     elif modelType.lower() == 'full':
-        # size = (Ndiel,Nmetal,mp.Nsbp*mp.Nwpsbp)
+        # size = (Ndiel, Nmetal, len(mp.full.lambdas))
         complexTransCube = mp.complexTransFull
         lamVec = mp.full.lambdas
     else:
diff --git a/falco/thinfilm.py b/falco/thinfilm.py
index 5fb7f8b..d8652e7 100644
--- a/falco/thinfilm.py
+++ b/falco/thinfilm.py
@@ -536,9 +536,9 @@ def gen_complex_trans_table(mp, flagRefl=False):
         if mp.Nwpsbp == 1:
             complexTransFull = complexTransCompact
         else:
-            complexTransFull = np.zeros((lenDiel, lenMetal, mp.Nsbp*mp.Nwpsbp),
-                                        dtype=complex)
             lambdas = mp.full.lambdas
+            complexTransFull = np.zeros((lenDiel, lenMetal, len(lambdas)),
+                                        dtype=complex)
 
             # Parallel/distributed computing
             # To be completed later
-- 
2.43.0


From 1d3e9c6fc01894815a700a294c895baa7faf8509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:53 +0000
Subject: [PATCH 078/123] fix: NaN is neither positive nor nonnegative

---
 falco/check.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/check.py b/falco/check.py
index bf514fe..08275b0 100644
--- a/falco/check.py
+++ b/falco/check.py
@@ -120,7 +120,7 @@ def real_positive_scalar(var, vname, vexc):
         raise vexc(vname + ' must be scalar')
     if not np.isrealobj(var):
         raise vexc(vname + ' must be real')
-    if var <= 0:
+    if not var > 0:  # also not NaN
         raise vexc(vname + ' must be positive')
     return var
 
@@ -295,7 +295,7 @@ def real_nonnegative_scalar(var, vname, vexc):
         raise vexc(vname + ' must be scalar')
     if not np.isrealobj(var):
         raise vexc(vname + ' must be real')
-    if var < 0:
+    if not var >= 0:  # also not NaN
         raise vexc(vname + ' must be nonnegative')
     return var
 
-- 
2.43.0


From 997dfbd47fbe2a8b9e8be22c0a140750968bb1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:53 +0000
Subject: [PATCH 079/123] fix: ragged lists raise the exception that the caller
 asked for

---
 falco/check.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/falco/check.py b/falco/check.py
index 08275b0..2656a88 100644
--- a/falco/check.py
+++ b/falco/check.py
@@ -38,6 +38,16 @@ def _checkexc(vexc):
     pass
 
 
+def _asarray(var, vname, vexc):
+    """
+    Internal cast to an array, which ragged nested lists do not allow
+    """
+    try:
+        return np.asarray(var)
+    except ValueError:
+        raise vexc(vname + ' must be castable to an array')
+
+
 def centering(var):
     """
     Check whether an object is in the values ['pixel', 'interpixel'].
@@ -141,7 +151,7 @@ def real_array(var, vname, vexc):
     _checkname(vname)
     _checkexc(vexc)
 
-    var = np.asarray(var)  # cast to array
+    var = _asarray(var, vname, vexc)
     if len(var.shape) == 0:
         raise vexc(vname + ' must have length > 0')
     if not np.isrealobj(var):
@@ -168,7 +178,7 @@ def oneD_array(var, vname, vexc):
     _checkname(vname)
     _checkexc(vexc)
 
-    var = np.asarray(var) # cast to array
+    var = _asarray(var, vname, vexc)
     if len(var.shape) != 1:
         raise vexc(vname + ' must be a 1D array')
     if (not np.isrealobj(var)) and (not np.iscomplexobj(var)):
@@ -192,7 +202,7 @@ def twoD_array(var, vname, vexc):
     _checkname(vname)
     _checkexc(vexc)
 
-    var = np.asarray(var) # cast to array
+    var = _asarray(var, vname, vexc)
     if len(var.shape) != 2:
         raise vexc(vname + ' must be a 2D array')
     if (not np.isrealobj(var)) and (not np.iscomplexobj(var)):
@@ -216,7 +226,7 @@ def twoD_square_array(var, vname, vexc):
     _checkname(vname)
     _checkexc(vexc)
 
-    var = np.asarray(var) # cast to array
+    var = _asarray(var, vname, vexc)
     if len(var.shape) != 2:
         raise vexc(vname + ' must be a 2D array')
     else: # is 2-D
@@ -243,7 +253,7 @@ def threeD_array(var, vname, vexc):
     _checkname(vname)
     _checkexc(vexc)
 
-    var = np.asarray(var) # cast to array
+    var = _asarray(var, vname, vexc)
     if len(var.shape) != 3:
         raise vexc(vname + ' must be a 3D array')
     if (not np.isrealobj(var)) and (not np.iscomplexobj(var)):
-- 
2.43.0


From 3c076477739e416d0efb015ea1daff7773477e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:31 +0000
Subject: [PATCH 080/123] fix: resampled DM surfaces have exactly the requested
 sampling

---
 falco/diff_dm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/falco/diff_dm.py b/falco/diff_dm.py
index 4290949..bc50027 100644
--- a/falco/diff_dm.py
+++ b/falco/diff_dm.py
@@ -435,7 +435,9 @@ def fourier_resample(f, zoom):
     F = fftutils.fftshift(fftutils.fft2(fftutils.ifftshift(f), norm='ortho'))
     # F = fftutils.fftshift(fftutils.fft2(fftutils.ifftshift(f)))
 
-    Mx, My = setup_mft_matricies_scalars((M, N), F.shape, 1, 1)
+    # M and N are rounded, but the sampling has to be exactly that asked for.
+    Mx, My = setup_mft_matricies_scalars((M, N), F.shape,
+                                         n*zoom[1]/N, m*zoom[0]/M)
     fprime = imft2_core(F, Mx, My).real
     fprime *= np.sqrt((zoom[0]*zoom[1]))
     # fprime *= np.sqrt((zoom[0]*zoom[1]))/(np.sqrt(f.size))
-- 
2.43.0


From a9ced6c6debe4c1d1db4f42b8f05e4b391058cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:31 +0000
Subject: [PATCH 081/123] fix: the gradient of a resampled DM surface is the
 exact adjoint

---
 falco/diff_dm.py | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/falco/diff_dm.py b/falco/diff_dm.py
index bc50027..f7456cd 100644
--- a/falco/diff_dm.py
+++ b/falco/diff_dm.py
@@ -446,6 +446,36 @@ def fourier_resample(f, zoom):
     return fprime
 
 
+def fourier_resample_adjoint(g, zoom, shape):
+    """
+    Apply the adjoint of fourier_resample().
+
+    Parameters
+    ----------
+    g : numpy.ndarray
+        array with the shape of the output of fourier_resample
+    zoom : float
+        zoom factor of fourier_resample
+    shape : tuple of int, length 2
+        shape of the input of fourier_resample
+
+    Returns
+    -------
+    numpy.ndarray
+        array with the shape of the input of fourier_resample
+
+    """
+    if zoom == 1:
+        return g
+
+    M, N = g.shape
+    m, n = shape
+    Mx, My = setup_mft_matricies_scalars((M, N), shape, n*zoom/N, m*zoom/M)
+    G = mft2_core(g, Mx, My)
+    out = fftutils.fftshift(fftutils.ifft2(fftutils.ifftshift(G), norm='ortho')).real
+    return zoom * out
+
+
 def forward_ft_unit(dx, samples, shift=True):
     """Compute the units resulting from a fourier transform.
 
@@ -725,9 +755,8 @@ class DM:
         """Gradient backpropagation for self.render."""
         protograd = util.pad_crop(protograd, self.Nintermediate)
         if self.upsample != 1:
-            upsample = self.ifn.shape[0]/protograd.shape[0]
-            protograd = fourier_resample(protograd, upsample)
-            protograd /= upsample**2
+            protograd = fourier_resample_adjoint(protograd, self.upsample,
+                                                 self.ifn.shape)
 
         if wfe:
             protograd *= (2*self.obliquity)
-- 
2.43.0


From 7561a5ec1d24aa674dd00a67996dcb2a198529be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:31 +0000
Subject: [PATCH 082/123] fix: the gradient of a tilted DM accounts for its
 foreshortening

---
 falco/diff_dm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/falco/diff_dm.py b/falco/diff_dm.py
index f7456cd..1cba9cc 100644
--- a/falco/diff_dm.py
+++ b/falco/diff_dm.py
@@ -639,6 +639,8 @@ class DM:
 
             fwd, rev = prepare_fwd_reverse_projection_coordinates(s, rot, use_zyx_order)
             self.projx, self.projy = fwd
+            self.projdet = abs(np.linalg.det(
+                make_rotation_matrix(rot, use_zyx_order)[:2, :2]))
             self.invprojx, self.invprojy = rev
 
         # shift data
@@ -763,7 +765,8 @@ class DM:
 
         # return protograd
         if self.needs_rot:
-            protograd = warp(protograd, self.invprojx, self.invprojy)
+            # The projection compresses areas by its determinant.
+            protograd = self.projdet * warp(protograd, self.invprojx, self.invprojy)
 
         # return protograd
         in_actuator_space = apply_precomputed_transfer_function(protograd, np.conj(self.tf))
-- 
2.43.0


From 24d589c540b9e04ae8415ad44809264af4de09f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:10 +0000
Subject: [PATCH 083/123] fix: the differentiable DM places any number of
 actuators at their exact offset

---
 falco/diff_dm.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/falco/diff_dm.py b/falco/diff_dm.py
index 1cba9cc..790d871 100644
--- a/falco/diff_dm.py
+++ b/falco/diff_dm.py
@@ -158,8 +158,8 @@ def dm_init_falco_wrapper(dm,dx,Narray,dm_z0, dm_xc, dm_yc, spacing=0.,**kwargs)
     #intrpolate tine infuence function to the new coordinates
     #inf_scaled = ndimage.map_coordinates(inf, (Ynew[:], Xnew[:]))
 
-    shiftx = -1*int((dm.xc - dm.Nact//2 + 0.5) * inf_mag)
-    shifty = -1*int((dm.yc - dm.Nact//2 + 0.5) * inf_mag)
+    shiftx = -1*(dm.xc - (dm.Nact - 1)/2) * inf_mag
+    shifty = -1*(dm.yc - (dm.Nact - 1)/2) * inf_mag
 
     inf_pad = util.pad_crop(inf, int(nx_grid))
 
@@ -386,10 +386,8 @@ def prepare_actuator_lattice(shape, Nact, sep, dtype):
     cy, cx = [s//2 for s in shape]
     Nactx, Nacty = Nact
     skip_samples_x, skip_samples_y = sep
-    # python trick; floor division (//) rounds to negative inf, not zero
-    # because FFT grid alignment biases things to the left, if Nact is odd
-    # we want more on the negative side;
-    # this will make that so
+    # if Nact is odd, the central actuator is on the central sample;
+    # if it is even, the sample is between the two central actuators
     offx = 0
     offy = 0
     # TODO: does falco have an is_odd?  Did not see it in util
@@ -398,10 +396,10 @@ def prepare_actuator_lattice(shape, Nact, sep, dtype):
     if Nacty % 2 == 0:
         offy = skip_samples_y // 2
 
-    neg_extreme_x = cx + -Nactx//2 * skip_samples_x + offx
-    neg_extreme_y = cy + -Nacty//2 * skip_samples_y + offy
-    pos_extreme_x = cx + Nactx//2 * skip_samples_x + offx
-    pos_extreme_y = cy + Nacty//2 * skip_samples_y + offy
+    neg_extreme_x = cx - (Nactx//2) * skip_samples_x + offx
+    neg_extreme_y = cy - (Nacty//2) * skip_samples_y + offy
+    pos_extreme_x = neg_extreme_x + Nactx * skip_samples_x
+    pos_extreme_y = neg_extreme_y + Nacty * skip_samples_y
 
     ix = slice(neg_extreme_x, pos_extreme_x, skip_samples_x)
     iy = slice(neg_extreme_y, pos_extreme_y, skip_samples_y)
-- 
2.43.0


From 13a93597c8e7a8571ef6f93fb560e7c9d2b862a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:10 +0000
Subject: [PATCH 084/123] fix: the differentiable DM obeys interpixel centering

---
 falco/diff_dm.py | 45 +++++++++++++++++++++++++++++----------------
 falco/dm.py      |  8 ++++----
 2 files changed, 33 insertions(+), 20 deletions(-)

diff --git a/falco/diff_dm.py b/falco/diff_dm.py
index 790d871..ac1cdf0 100644
--- a/falco/diff_dm.py
+++ b/falco/diff_dm.py
@@ -150,6 +150,7 @@ def dm_init_falco_wrapper(dm,dx,Narray,dm_z0, dm_xc, dm_yc, spacing=0.,**kwargs)
     ny_grid = ny_dm * inf_mag + 2 * margin
 
     surf_mag = dx_inf / dx_surf
+    grid_shift = kwargs.get("GRID_SHIFT", 0.) / dx_surf
 
     #scale and recenter to calculate the new coordinates
     #xnew = (np.arange(xdim) - xdim//2) * dx_inf/dx_surf + nx_inf//2
@@ -158,8 +159,8 @@ def dm_init_falco_wrapper(dm,dx,Narray,dm_z0, dm_xc, dm_yc, spacing=0.,**kwargs)
     #intrpolate tine infuence function to the new coordinates
     #inf_scaled = ndimage.map_coordinates(inf, (Ynew[:], Xnew[:]))
 
-    shiftx = -1*(dm.xc - (dm.Nact - 1)/2) * inf_mag
-    shifty = -1*(dm.yc - (dm.Nact - 1)/2) * inf_mag
+    shiftx = -1*(dm_xc - (dm.Nact - 1)/2) * inf_mag
+    shifty = -1*(dm_yc - (dm.Nact - 1)/2) * inf_mag
 
     inf_pad = util.pad_crop(inf, int(nx_grid))
 
@@ -171,7 +172,8 @@ def dm_init_falco_wrapper(dm,dx,Narray,dm_z0, dm_xc, dm_yc, spacing=0.,**kwargs)
     dmModel = DM(
         inf_pad, NoutDefault=Narray, Nact=dm.Nact, sep=inf_mag,
         upsample=surf_mag, shift=(shiftx, shifty),
-        rot=(-1*ztilt, ytilt, xtilt), rot_order=rot_order)
+        rot=(-1*ztilt, ytilt, xtilt), rot_order=rot_order,
+        grid_shift=grid_shift)
     dmModel.update(dm_z_commanded)
 
     return dmModel
@@ -415,8 +417,9 @@ def prepare_actuator_lattice(shape, Nact, sep, dtype):
     }
 
 
-def fourier_resample(f, zoom):
-    if zoom == 1:
+def fourier_resample(f, zoom, shift=0):
+    # shift = offset of the output samples, in output samples
+    if zoom == 1 and shift == 0:
         return f
 
     if isinstance(zoom, (float, int)):
@@ -435,7 +438,7 @@ def fourier_resample(f, zoom):
 
     # M and N are rounded, but the sampling has to be exactly that asked for.
     Mx, My = setup_mft_matricies_scalars((M, N), F.shape,
-                                         n*zoom[1]/N, m*zoom[0]/M)
+                                         n*zoom[1]/N, m*zoom[0]/M, shift)
     fprime = imft2_core(F, Mx, My).real
     fprime *= np.sqrt((zoom[0]*zoom[1]))
     # fprime *= np.sqrt((zoom[0]*zoom[1]))/(np.sqrt(f.size))
@@ -444,7 +447,7 @@ def fourier_resample(f, zoom):
     return fprime
 
 
-def fourier_resample_adjoint(g, zoom, shape):
+def fourier_resample_adjoint(g, zoom, shape, shift=0):
     """
     Apply the adjoint of fourier_resample().
 
@@ -456,6 +459,8 @@ def fourier_resample_adjoint(g, zoom, shape):
         zoom factor of fourier_resample
     shape : tuple of int, length 2
         shape of the input of fourier_resample
+    shift : float
+        shift of fourier_resample
 
     Returns
     -------
@@ -463,12 +468,13 @@ def fourier_resample_adjoint(g, zoom, shape):
         array with the shape of the input of fourier_resample
 
     """
-    if zoom == 1:
+    if zoom == 1 and shift == 0:
         return g
 
     M, N = g.shape
     m, n = shape
-    Mx, My = setup_mft_matricies_scalars((M, N), shape, n*zoom/N, m*zoom/M)
+    Mx, My = setup_mft_matricies_scalars((M, N), shape, n*zoom/N, m*zoom/M,
+                                         shift)
     G = mft2_core(g, Mx, My)
     out = fftutils.fftshift(fftutils.ifft2(fftutils.ifftshift(G), norm='ortho')).real
     return zoom * out
@@ -511,14 +517,15 @@ def imft2_core(A, Mx, My):
     return My @ (A @ Mx)
 
 
-def setup_mft_matricies_scalars(shape_space, shape_frequency, zoomx, zoomy):
+def setup_mft_matricies_scalars(shape_space, shape_frequency, zoomx, zoomy,
+                                shift=0):
     # the sampling increment of an FFT is 1/Nin
     # zoom applies to someone's expectation of FFT sampling, so the spatial array
     # shape (Nin) is used instead of the frequency array shape (Nout)
     incy = shape_space[0]*zoomy
     incx = shape_space[1]*zoomx
 
-    y, x = [util.create_axis(S, 1) for S in shape_space]
+    y, x = [util.create_axis(S, 1) + shift for S in shape_space]
     fy, fx = [util.create_axis(S, 1/inc) for S, inc in zip(shape_frequency, (incy, incx))]
 
     Ex = np.exp(-2j * np.pi * np.outer(x, fx))
@@ -533,7 +540,8 @@ def setup_mft_matricies_scalars(shape_space, shape_frequency, zoomx, zoomy):
 
 class DM:
     """A DM whose actuators fill a rectangular region on a perfect grid, and have the same influence function."""
-    def __init__(self, ifn, NoutDefault, Nact=50, sep=10, shift=(0, 0), rot=(0, 0, 0), upsample=1, rot_order='zyx'):
+    def __init__(self, ifn, NoutDefault, Nact=50, sep=10, shift=(0, 0), rot=(0, 0, 0), upsample=1, rot_order='zyx',
+                 grid_shift=0):
         """Create a new DM model.
 
         This model is based on convolution of a 'poke lattice' with the influence
@@ -577,6 +585,9 @@ class DM:
             if 'zyx', rotations will be applied around axis Z, then Y, then X,
             in that order. If 'xyz', rotations will be appied in that order.
             This convention agrees with FALCO/PROPER.
+        grid_shift : float
+            offset of the output samples from those centered on the array, in
+            units of output samples: 0.5 for interpixel centering.
 
         Notes
         -----
@@ -610,6 +621,7 @@ class DM:
         self.rot = rot
         self.upsample = upsample
         self.rot_order = rot_order
+        self.grid_shift = grid_shift
 
         # prepare the poke array and supplimentary integer arrays needed to
         # copy it into the working array
@@ -707,8 +719,8 @@ class DM:
         if wfe:
             warped *= (2*self.obliquity)
 
-        if self.upsample != 1:
-            warped = fourier_resample(warped, self.upsample)
+        if self.upsample != 1 or self.grid_shift != 0:
+            warped = fourier_resample(warped, self.upsample, self.grid_shift)
 
         self.Nintermediate = warped.shape
         warped = util.pad_crop(warped, Nout)
@@ -754,9 +766,10 @@ class DM:
         """
         """Gradient backpropagation for self.render."""
         protograd = util.pad_crop(protograd, self.Nintermediate)
-        if self.upsample != 1:
+        if self.upsample != 1 or self.grid_shift != 0:
             protograd = fourier_resample_adjoint(protograd, self.upsample,
-                                                 self.ifn.shape)
+                                                 self.ifn.shape,
+                                                 self.grid_shift)
 
         if wfe:
             protograd *= (2*self.obliquity)
diff --git a/falco/dm.py b/falco/dm.py
index a8f3a7b..7275704 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -108,14 +108,14 @@ def gen_surf_from_act(dm, dx, Nout):
             print("Initializing differentiable DM model.")
             if flagXYZ:
                 dm.differentiableModel = diff_dm.dm_init_falco_wrapper(
-                    dm, dx, Nout, heightMap, dm.xc-cshift, dm.yc-cshift, 
-                    spacing=dm.dm_spacing, XTILT=dm.xtilt, YTILT=dm.ytilt, ZTILT=dm.zrot,
+                    dm, dx, Nout, heightMap, dm.xc, dm.yc,
+                    spacing=dm.dm_spacing, GRID_SHIFT=-cshift*dm.dm_spacing, XTILT=dm.xtilt, YTILT=dm.ytilt, ZTILT=dm.zrot,
                     XYZ=True, inf_sign=dm.inf_sign, inf_fn=dm.inf_fn,
                 )
             else:
                 dm.differentiableModel = diff_dm.dm_init_falco_wrapper(
-                    dm, dx, Nout, heightMap, dm.xc-cshift, dm.yc-cshift, 
-                    spacing=dm.dm_spacing, XTILT=dm.xtilt, YTILT=dm.ytilt, ZTILT=dm.zrot,
+                    dm, dx, Nout, heightMap, dm.xc, dm.yc,
+                    spacing=dm.dm_spacing, GRID_SHIFT=-cshift*dm.dm_spacing, XTILT=dm.xtilt, YTILT=dm.ytilt, ZTILT=dm.zrot,
                     ZYX=True, inf_sign=dm.inf_sign, inf_fn=dm.inf_fn,
                 )
             dmStored.differentiableModel = dm.differentiableModel
-- 
2.43.0


From bae6b26a9715f8ee193fec5b3b79cd9512c8acb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:10 +0000
Subject: [PATCH 085/123] fix: the differentiable DM no longer rounds commands
 to single precision

---
 falco/diff_dm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/diff_dm.py b/falco/diff_dm.py
index ac1cdf0..3949be5 100644
--- a/falco/diff_dm.py
+++ b/falco/diff_dm.py
@@ -108,7 +108,7 @@ def dm_init_falco_wrapper(dm,dx,Narray,dm_z0, dm_xc, dm_yc, spacing=0.,**kwargs)
     dir_path = os.path.join(os.path.dirname(os.path.realpath(__file__)),
                             "data")
     inf = proper.prop_fits_read(os.path.join(dir_path, inf_fn))
-    inf = sign_factor*np.squeeze(inf)
+    inf = sign_factor*np.squeeze(inf).astype(float)  # commands get this type too
 
     s = inf.shape
     nx_inf = s[1]
-- 
2.43.0


From fc9eb87c2086121e0ce6204de97dc7486fd4bdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:10 +0000
Subject: [PATCH 086/123] fix: the differentiable DM follows changes of its
 sampling and geometry

---
 falco/dm.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/falco/dm.py b/falco/dm.py
index 7275704..1d242a5 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -103,8 +103,12 @@ def gen_surf_from_act(dm, dx, Nout):
             raise ValueError('invalid value of dm.orientation')
 
     if dm.useDifferentiableModel:
-        if not hasattr(dm, "differentiableModel"):  # or dm.differentiableModel.Nout!=Narray:
-            # Initialize the model object if this is the first time
+        geometry = (dx, cshift, flagXYZ, dm.Nact, dm.xc, dm.yc, dm.dm_spacing,
+                    dm.xtilt, dm.ytilt, dm.zrot, dm.inf_sign, dm.inf_fn)
+        if not hasattr(dm, "differentiableModel") or \
+                dm.differentiableModel.geometry != geometry:
+            # Initialize the model object if this is the first time, or if it
+            # was made for another sampling or geometry
             print("Initializing differentiable DM model.")
             if flagXYZ:
                 dm.differentiableModel = diff_dm.dm_init_falco_wrapper(
@@ -118,6 +122,7 @@ def gen_surf_from_act(dm, dx, Nout):
                     spacing=dm.dm_spacing, GRID_SHIFT=-cshift*dm.dm_spacing, XTILT=dm.xtilt, YTILT=dm.ytilt, ZTILT=dm.zrot,
                     ZYX=True, inf_sign=dm.inf_sign, inf_fn=dm.inf_fn,
                 )
+            dm.differentiableModel.geometry = geometry
             dmStored.differentiableModel = dm.differentiableModel
         else:
             dm.differentiableModel.update(heightMap)
-- 
2.43.0


From d95085bcd600990bf7bec3985bd723d9a1e9bd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:09 +0000
Subject: [PATCH 087/123] fix: the AD-EFC gradient is taken at the commands of
 its cost

---
 falco/model/models.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index cced1d6..d9367a2 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -514,16 +514,14 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
 
         # Get model-based E-field before deltas. Should be pre-computed for speed.
         EFendA = EFend_list[imode]
-        Edm1post = Edm1post_list[imode]
-        Edm2pre = Edm2pre_list[imode]
-        DM2surf = DM2surf_list[imode]
 
         # Get model-based E-field With delta DM commands applied.
         mp.dm1.V = mp.dm1.V0 + dv_dm1
         mp.dm2.V = mp.dm2.V0 + dv_dm2
-        EFendB = compact(
+        # The gradient is taken at these commands, so use their E-fields and surface.
+        EFendB, Edm1post, Edm2pre, _, DM2surf = compact(
            mp, modvar, isNorm=True, isEvalMode=isEvalMode, useFPM=useFPM,
-           forRevGradModel=False)
+           forRevGradModel=True)
         # Reset DM commands
         mp.dm1.V = mp.dm1.V0.copy()
         mp.dm2.V = mp.dm2.V0.copy()
-- 
2.43.0


From a7c951afafe567b5096c713ca8a0a6986708f940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:09 +0000
Subject: [PATCH 088/123] fix: the AD-EFC gradient uses the sampling of the
 Lyot stop in the Lyot plane

---
 falco/model/models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index d9367a2..26ef66d 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -589,9 +589,9 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
         elif mp.coro.upper() == 'FLC' or mp.coro.upper() == 'SPLC':
 
             EP4_grad = falco.prop.relay(EP4_grad, NrelayFactor*mp.Nrelay3to4-1, mp.centering)
-            EF3_grad = falco.prop.mft_p2f(EP4_grad, -mp.fl, wvl, mp.P2.compact.dx, dxiF3, mp.F3.compact.Nxi, detaF3, mp.F3.compact.Neta, mp.centering)  # E-field incident upon the FPM
+            EF3_grad = falco.prop.mft_p2f(EP4_grad, -mp.fl, wvl, mp.P4.compact.dx, dxiF3, mp.F3.compact.Nxi, detaF3, mp.F3.compact.Neta, mp.centering)  # E-field incident upon the FPM
             EF3_grad = np.conj(fpm) * EF3_grad
-            EP3_grad = falco.prop.mft_f2p(EF3_grad, -mp.fl, wvl, dxiF3, detaF3, mp.P4.compact.dx, NdmPad, mp.centering) # Subtrahend term for Babinet's principle 
+            EP3_grad = falco.prop.mft_f2p(EF3_grad, -mp.fl, wvl, dxiF3, detaF3, mp.P2.compact.dx, NdmPad, mp.centering) # Subtrahend term for Babinet's principle 
 
         elif mp.coro.upper() in ('LC', 'APLC', 'HLC'):
             # MFT Method
-- 
2.43.0


From 2990ab40a85961b85f7a4c0e717c840abadd6e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:09 +0000
Subject: [PATCH 089/123] fix: the AD-EFC gradient accounts for the orientation
 of the DM

---
 falco/dm.py           | 62 ++++++++++++++++++++++++++++++-------------
 falco/model/models.py |  6 +++--
 2 files changed, 47 insertions(+), 21 deletions(-)

diff --git a/falco/dm.py b/falco/dm.py
index 1d242a5..9a60ae0 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -82,25 +82,7 @@ def gen_surf_from_act(dm, dx, Nout):
     else:  # Quantization not desired; send raw, continuous voltages
         heightMap = dm.VtoH * dm.V
 
-    if hasattr(dm, 'orientation'):
-        if dm.orientation.lower() == 'rot0':
-            pass  # no change
-        elif dm.orientation.lower() == 'rot90':
-            heightMap = np.rot90(heightMap, 1)
-        elif dm.orientation.lower() == 'rot180':
-            heightMap = np.rot90(heightMap, 2)
-        elif dm.orientation.lower() == 'rot270':
-            heightMap = np.rot90(heightMap, 3)
-        elif dm.orientation.lower() == 'flipxrot0':
-            heightMap = np.fliplr(heightMap)
-        elif dm.orientation.lower() == 'flipxrot90':
-            heightMap = np.rot90(np.fliplr(heightMap), 1)
-        elif dm.orientation.lower() == 'flipxrot180':
-            heightMap = np.rot90(np.fliplr(heightMap), 2)
-        elif dm.orientation.lower() == 'flipxrot270':
-            heightMap = np.rot90(np.fliplr(heightMap), 3)
-        else:
-            raise ValueError('invalid value of dm.orientation')
+    heightMap = orient_actuators(dm, heightMap)
 
     if dm.useDifferentiableModel:
         geometry = (dx, cshift, flagXYZ, dm.Nact, dm.xc, dm.yc, dm.dm_spacing,
@@ -153,6 +135,48 @@ def gen_surf_from_act(dm, dx, Nout):
     return DMsurf
 
 
+def orient_actuators(dm, actMap, inverse=False):
+    """
+    Flip and rotate a map of the actuators as given by dm.orientation.
+
+    Parameters
+    ----------
+    dm : ModelParameters
+        Structure containing parameter values for the DM
+    actMap : array_like
+        2-D map of values at the actuators
+    inverse : bool
+        Whether to undo the change of orientation instead.
+
+    Returns
+    -------
+    actMap : array_like
+        2-D map in its new orientation
+
+    """
+    if not hasattr(dm, 'orientation'):
+        return actMap
+
+    orientation = dm.orientation.lower()
+    flipx = orientation.startswith('flipx')
+    rotations = ('rot0', 'rot90', 'rot180', 'rot270')
+    rotation = orientation[len('flipx'):] if flipx else orientation
+    if rotation not in rotations:
+        raise ValueError('invalid value of dm.orientation')
+    nRot = rotations.index(rotation)
+
+    if inverse:
+        actMap = np.rot90(actMap, -nRot)
+        if flipx:
+            actMap = np.fliplr(actMap)
+    else:
+        if flipx:
+            actMap = np.fliplr(actMap)
+        actMap = np.rot90(actMap, nRot)
+
+    return actMap
+
+
 def discretize_surf(dm, HminStepMethod):
     """
     Discretize the DM commands used to make the DM surface map.
diff --git a/falco/model/models.py b/falco/model/models.py
index 26ef66d..1b5723f 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -648,8 +648,10 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
     else:
         raise ValueError('mp.dm1.useDifferentiableModel and mp.dm2.useDifferentiableModel must be True for AD-EFC.')
 
-    Vout1 *= mp.dm1.VtoH * np.conj(~mp.dm1.dead_map)
-    Vout2 *= mp.dm2.VtoH * np.conj(~mp.dm2.dead_map)
+    Vout1 = falco.dm.orient_actuators(mp.dm1, Vout1, inverse=True)
+    Vout2 = falco.dm.orient_actuators(mp.dm2, Vout2, inverse=True)
+    Vout1 = Vout1 * mp.dm1.VtoH * np.conj(~mp.dm1.dead_map)
+    Vout2 = Vout2 * mp.dm2.VtoH * np.conj(~mp.dm2.dead_map)
     gradient = np.concatenate((Vout1.reshape([mp.dm1.NactTotal])[mp.dm1.act_ele],
                                Vout2.reshape([mp.dm2.NactTotal])[mp.dm2.act_ele]),
                               axis=None)
-- 
2.43.0


From 15a337a6c62a475e774c7a81e13b19d8800d459e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:45 +0000
Subject: [PATCH 090/123] fix: AD-EFC can control a single DM

---
 falco/model/models.py | 37 ++++++++++++++-----------------------
 1 file changed, 14 insertions(+), 23 deletions(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index 1b5723f..197a818 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -478,15 +478,13 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
     mp.dm1.V0 = mp.dm1.V.copy()
     mp.dm2.V0 = mp.dm2.V.copy()
 
-    # dDM1Vvec = np.zeros(mp.dm1.NactTotal)
-    # dDM1Vvec[mp.dm1.act_ele] = mp.dm1.weight*duVec[cvar.uLegend == 1]
-    # dDM.dDM1V = dDM1Vvec.reshape((mp.dm1.Nact, mp.dm1.Nact))
-
     # Calculate new cumulative DM commands and put into 2-D arrays
     dDM1Vvec = np.zeros(mp.dm1.NactTotal)
     dDM2Vvec = np.zeros(mp.dm2.NactTotal)
-    dDM1Vvec[mp.dm1.act_ele] = command_vec[mp.ctrl.uLegend == 1]
-    dDM2Vvec[mp.dm2.act_ele] = command_vec[mp.ctrl.uLegend == 2]
+    if any(mp.dm_ind == 1):
+        dDM1Vvec[mp.dm1.act_ele] = command_vec[mp.ctrl.uLegend == 1]
+    if any(mp.dm_ind == 2):
+        dDM2Vvec[mp.dm2.act_ele] = command_vec[mp.ctrl.uLegend == 2]
     dv_dm1 = dDM1Vvec.reshape((mp.dm1.Nact, mp.dm1.Nact))
     dv_dm2 = dDM2Vvec.reshape((mp.dm2.Nact, mp.dm2.Nact))
 
@@ -639,23 +637,16 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
     # print('normFacADweightedSum = %.4g' % normFacADweightedSum)
     # print('utu_coef = %.4g' % utu_coef)
 
-    if mp.dm1.useDifferentiableModel and mp.dm2.useDifferentiableModel:
-        Vout1 = mp.dm1.differentiableModel.render_backprop(
-            surf_dm1_bar_total, wfe=False)
-        Vout2 = mp.dm2.differentiableModel.render_backprop(
-            surf_dm2_bar_total, wfe=False)
-
-    else:
-        raise ValueError('mp.dm1.useDifferentiableModel and mp.dm2.useDifferentiableModel must be True for AD-EFC.')
-
-    Vout1 = falco.dm.orient_actuators(mp.dm1, Vout1, inverse=True)
-    Vout2 = falco.dm.orient_actuators(mp.dm2, Vout2, inverse=True)
-    Vout1 = Vout1 * mp.dm1.VtoH * np.conj(~mp.dm1.dead_map)
-    Vout2 = Vout2 * mp.dm2.VtoH * np.conj(~mp.dm2.dead_map)
-    gradient = np.concatenate((Vout1.reshape([mp.dm1.NactTotal])[mp.dm1.act_ele],
-                               Vout2.reshape([mp.dm2.NactTotal])[mp.dm2.act_ele]),
-                              axis=None)
-    gradient += 2 * utu_coef * command_vec
+    gradient = 2 * utu_coef * command_vec
+    for idm, dm, surf_bar in ((1, mp.dm1, surf_dm1_bar_total), (2, mp.dm2, surf_dm2_bar_total)):
+        if not any(mp.dm_ind == idm):
+            continue
+        if not dm.useDifferentiableModel:
+            raise ValueError('mp.dm%d.useDifferentiableModel must be True for AD-EFC.' % idm)
+        Vout = dm.differentiableModel.render_backprop(surf_bar, wfe=False)
+        Vout = falco.dm.orient_actuators(dm, Vout, inverse=True)
+        Vout = Vout * dm.VtoH * np.conj(~dm.dead_map)
+        gradient[mp.ctrl.uLegend == idm] += Vout.reshape(dm.NactTotal)[dm.act_ele]
 
     return total_cost, gradient
 
-- 
2.43.0


From ddbb36eedea73f59c2d8006056a14b7c37d301d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:45 +0000
Subject: [PATCH 091/123] fix: the AD-EFC gradient accounts for tied and pinned
 actuators

---
 falco/dm.py           | 30 ++++++++++++++++++++++++++++++
 falco/model/models.py |  2 +-
 2 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/falco/dm.py b/falco/dm.py
index 9a60ae0..4ce45f3 100644
--- a/falco/dm.py
+++ b/falco/dm.py
@@ -993,6 +993,36 @@ def enforce_constraints(dm):
     return dm
 
 
+def enforce_constraints_backprop(dm, Vbar):
+    """
+    Propagate a gradient backwards through enforce_constraints().
+
+    Parameters
+    ----------
+    dm : ModelParameters
+        Structure containing parameter values for the DM
+    Vbar : array_like
+        2-D gradient with respect to the constrained commands
+
+    Returns
+    -------
+    Vbar : array_like
+        2-D gradient with respect to the commands before constraining them.
+
+    """
+    Vflat = np.array(Vbar, dtype=float).flatten()
+    if dm.tied.size > 0:
+        # The first actuator of a pair commands both
+        tied = dm.tied.astype(int)
+        Vtied = Vflat[tied[:, 1]]
+        Vflat[tied[:, 1]] = 0
+        np.add.at(Vflat, tied[:, 0], Vtied)
+    Vflat[dm.pinned.astype(int)] = 0
+    Vbar = Vflat.reshape(np.shape(Vbar))
+
+    return Vbar * ~dm.dead_map
+
+
 def fit_surf_to_act(dm, surfaceToFit):
     """
     Compute the deformable mirror (DM) commands to best fit a given surface.
diff --git a/falco/model/models.py b/falco/model/models.py
index 197a818..57e9bf0 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -645,7 +645,7 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
             raise ValueError('mp.dm%d.useDifferentiableModel must be True for AD-EFC.' % idm)
         Vout = dm.differentiableModel.render_backprop(surf_bar, wfe=False)
         Vout = falco.dm.orient_actuators(dm, Vout, inverse=True)
-        Vout = Vout * dm.VtoH * np.conj(~dm.dead_map)
+        Vout = falco.dm.enforce_constraints_backprop(dm, Vout * dm.VtoH)
         gradient[mp.ctrl.uLegend == idm] += Vout.reshape(dm.NactTotal)[dm.act_ele]
 
     return total_cost, gradient
-- 
2.43.0


From ba940efc63ba25bf4917e4e6cfdfa35f49518ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:45 +0000
Subject: [PATCH 092/123] fix: AD-EFC optimizes the weighted DM commands that
 get applied

---
 falco/ctrl.py         | 8 ++++----
 falco/model/models.py | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/falco/ctrl.py b/falco/ctrl.py
index f668b27..d0fd944 100644
--- a/falco/ctrl.py
+++ b/falco/ctrl.py
@@ -937,8 +937,8 @@ def _ad_efc(ni, vals_list, mp, cvar):
         dm1ub = mp.dm1.Vmax - (dm1vec + mp.dm1.biasMap.flatten())
         # dm1ub[dm1ub > mp.ctrl.ad.dv_max] = mp.ctrl.ad.dv_max
         dm0[cvar.uLegend == 1] = np.zeros(mp.dm1.Nele)  # dm1vec
-        bounds[cvar.uLegend == 1, 0] = dm1lb[mp.dm1.act_ele]
-        bounds[cvar.uLegend == 1, 1] = dm1ub[mp.dm1.act_ele]
+        bounds[cvar.uLegend == 1, 0] = dm1lb[mp.dm1.act_ele]/mp.dm1.weight
+        bounds[cvar.uLegend == 1, 1] = dm1ub[mp.dm1.act_ele]/mp.dm1.weight
 
     if any(mp.dm_ind == 2):
         dm2vec = mp.dm2.V.flatten()
@@ -947,8 +947,8 @@ def _ad_efc(ni, vals_list, mp, cvar):
         dm2ub = mp.dm2.Vmax - (dm2vec + mp.dm2.biasMap.flatten())
         # dm2ub[dm2ub > mp.ctrl.ad.dv_max] = mp.ctrl.ad.dv_max
         dm0[cvar.uLegend == 2] = np.zeros(mp.dm2.Nele)  # dm2vec
-        bounds[cvar.uLegend == 2, 0] = dm2lb[mp.dm2.act_ele]
-        bounds[cvar.uLegend == 2, 1] = dm2ub[mp.dm2.act_ele]
+        bounds[cvar.uLegend == 2, 0] = dm2lb[mp.dm2.act_ele]/mp.dm2.weight
+        bounds[cvar.uLegend == 2, 1] = dm2ub[mp.dm2.act_ele]/mp.dm2.weight
 
     EFend_list = []
     Edm1post_list = []
diff --git a/falco/model/models.py b/falco/model/models.py
index 57e9bf0..cd30a49 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -482,9 +482,9 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
     dDM1Vvec = np.zeros(mp.dm1.NactTotal)
     dDM2Vvec = np.zeros(mp.dm2.NactTotal)
     if any(mp.dm_ind == 1):
-        dDM1Vvec[mp.dm1.act_ele] = command_vec[mp.ctrl.uLegend == 1]
+        dDM1Vvec[mp.dm1.act_ele] = mp.dm1.weight*command_vec[mp.ctrl.uLegend == 1]
     if any(mp.dm_ind == 2):
-        dDM2Vvec[mp.dm2.act_ele] = command_vec[mp.ctrl.uLegend == 2]
+        dDM2Vvec[mp.dm2.act_ele] = mp.dm2.weight*command_vec[mp.ctrl.uLegend == 2]
     dv_dm1 = dDM1Vvec.reshape((mp.dm1.Nact, mp.dm1.Nact))
     dv_dm2 = dDM2Vvec.reshape((mp.dm2.Nact, mp.dm2.Nact))
 
@@ -646,7 +646,7 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
         Vout = dm.differentiableModel.render_backprop(surf_bar, wfe=False)
         Vout = falco.dm.orient_actuators(dm, Vout, inverse=True)
         Vout = falco.dm.enforce_constraints_backprop(dm, Vout * dm.VtoH)
-        gradient[mp.ctrl.uLegend == idm] += Vout.reshape(dm.NactTotal)[dm.act_ele]
+        gradient[mp.ctrl.uLegend == idm] += dm.weight * Vout.reshape(dm.NactTotal)[dm.act_ele]
 
     return total_cost, gradient
 
-- 
2.43.0


From e149009edd129830fa3bd4f24fc4167abf782fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:11 +0000
Subject: [PATCH 093/123] fix: the AD-EFC gradient reverses the Lyot plane
 steps in order

---
 falco/model/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/model/models.py b/falco/model/models.py
index cd30a49..52945c3 100644
--- a/falco/model/models.py
+++ b/falco/model/models.py
@@ -594,7 +594,7 @@ def compact_reverse_gradient(command_vec, log10reg, mp, EestAll, EFend_list, Edm
         elif mp.coro.upper() in ('LC', 'APLC', 'HLC'):
             # MFT Method
             EP4noFPM_grad = np.conj(transOuterFPM) * EP4_grad
-            EP3noFPM_grad = pad_crop(falco.prop.relay(EP4noFPM_grad, NrelayFactor*mp.Nrelay3to4, mp.centering), NdmPad)
+            EP3noFPM_grad = falco.prop.relay(pad_crop(EP4noFPM_grad, NdmPad), NrelayFactor*mp.Nrelay3to4, mp.centering)
             EP4subtr_grad = -EP4_grad
             EP4subtr_grad = falco.prop.relay(EP4subtr_grad, NrelayFactor*mp.Nrelay3to4 - 1, mp.centering)
             auxEP4subtr_grad = falco.prop.mft_p2f(EP4subtr_grad, -mp.fl, wvl, mp.P2.compact.dx, dxiF3, mp.F3.compact.Nxi, detaF3, mp.F3.compact.Neta, mp.centering)  # E-field incident upon the FPM
-- 
2.43.0


From 0abb2953f0148c135a6cf2bfc6b813ada2167b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:23 +0000
Subject: [PATCH 094/123] fix: the gradient of a tilted DM is the exact adjoint

---
 falco/diff_dm.py | 45 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/falco/diff_dm.py b/falco/diff_dm.py
index 3949be5..07c51af 100644
--- a/falco/diff_dm.py
+++ b/falco/diff_dm.py
@@ -329,6 +329,46 @@ def warp(img, xnew, ynew):
     return ndimage.map_coordinates(img, (ynew, xnew))
 
 
+def warp_adjoint(img, xnew, ynew):
+    """
+    Apply the adjoint of warp(), which puts ("pushes") values back.
+
+    Parameters
+    ----------
+    img : numpy.ndarray
+        2D ndarray with the shape of the output of warp
+    xnew : numpy.ndarray
+        2D array of the x or column coordinates given to warp
+    ynew : numpy.ndarray
+        2D array of the y or row coordinates given to warp
+
+    Returns
+    -------
+    numpy.ndarray
+        2D array with the shape of the input of warp
+
+    """
+    ny, nx = img.shape
+    x0 = np.floor(xnew).astype(int)
+    y0 = np.floor(ynew).astype(int)
+    inside = (xnew >= 0) & (xnew <= nx-1) & (ynew >= 0) & (ynew <= ny-1)
+
+    def spline_weights(f):
+        # of the cubic B-splines at the four samples around the coordinate
+        return ((1-f)**3/6, (3*f**3 - 6*f**2 + 4)/6,
+                (-3*f**3 + 3*f**2 + 3*f + 1)/6, f**3/6)
+
+    out = np.zeros(ny*nx)
+    for iy, wy in enumerate(spline_weights(ynew - y0), start=-1):
+        for ix, wx in enumerate(spline_weights(xnew - x0), start=-1):
+            x, y = x0 + ix, y0 + iy
+            use = inside & (x >= 0) & (x < nx) & (y >= 0) & (y < ny)
+            out += np.bincount((y*nx + x)[use], (wy*wx*img)[use], ny*nx)
+
+    # The filter that turns samples into spline coefficients is symmetric.
+    return ndimage.spline_filter(out.reshape(ny, nx))
+
+
 def apply_homography(M, x, y):
     points = pack_xy_to_homographic_points(x, y)
     xp, yp, w = M @ points
@@ -649,8 +689,6 @@ class DM:
 
             fwd, rev = prepare_fwd_reverse_projection_coordinates(s, rot, use_zyx_order)
             self.projx, self.projy = fwd
-            self.projdet = abs(np.linalg.det(
-                make_rotation_matrix(rot, use_zyx_order)[:2, :2]))
             self.invprojx, self.invprojy = rev
 
         # shift data
@@ -776,8 +814,7 @@ class DM:
 
         # return protograd
         if self.needs_rot:
-            # The projection compresses areas by its determinant.
-            protograd = self.projdet * warp(protograd, self.invprojx, self.invprojy)
+            protograd = warp_adjoint(protograd, self.projx, self.projy)
 
         # return protograd
         in_actuator_space = apply_precomputed_transfer_function(protograd, np.conj(self.tf))
-- 
2.43.0


From 333d29041ca3a976a33373dcab08559e1eb4a8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:27 +0000
Subject: [PATCH 095/123] fix: an interruption while saving no longer loses the
 results saved before

---
 falco/wfsc.py | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/falco/wfsc.py b/falco/wfsc.py
index e7710f3..5010438 100644
--- a/falco/wfsc.py
+++ b/falco/wfsc.py
@@ -167,8 +167,7 @@ def loop(mp, out):
         # Save just the 'out' object to a pickle file
         fnSnippet = os.path.join(mp.path.brief, (mp.runLabel + '_snippet.pkl'))
         print('Saving data snippet to:\n\t%s  ...' % (fnSnippet), end='')
-        with open(fnSnippet, 'wb') as f:
-            pickle.dump(out, f)
+        _save_pickle(out, fnSnippet)
         print('done.', end='\n\n')
 
         # END OF ESTIMATION + CONTROL LOOP
@@ -193,8 +192,7 @@ def loop(mp, out):
     # Save just the 'out' object to a pickle file
     fnSnippet = os.path.join(mp.path.brief, (mp.runLabel + '_snippet.pkl'))
     print('\nSaving data snippet to:\n\t%s...' % (fnSnippet), end='')
-    with open(fnSnippet, 'wb') as f:
-        pickle.dump(out, f)
+    _save_pickle(out, fnSnippet)
     print('done.\n')
 
     # Save out the data from the workspace
@@ -246,6 +244,33 @@ def loop(mp, out):
     return None
 
 
+def _save_pickle(data, fn):
+    """
+    Save data to a pickle file.
+
+    The file is replaced only once the new one is complete, so an interruption
+    does not lose what was saved before.
+
+    Parameters
+    ----------
+    data : object
+        What to save
+    fn : str
+        Name of the pickle file
+
+    Returns
+    -------
+    None.
+
+    """
+    fnTemp = fn + '.tmp'
+    with open(fnTemp, 'wb') as f:
+        pickle.dump(data, f)
+    os.replace(fnTemp, fn)
+
+    return None
+
+
 def store_dm_command_history(mp, out, Itr):
     """
     Store the latest DM commands in the out object.
-- 
2.43.0


From cdaffa7ca611d7c7f53d432e234752fc798b5366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:27 +0000
Subject: [PATCH 096/123] fix: saving the workspace failed instead of writing
 its file

---
 falco/wfsc.py | 56 +++++++++++++++++++--------------------------------
 1 file changed, 21 insertions(+), 35 deletions(-)

diff --git a/falco/wfsc.py b/falco/wfsc.py
index 5010438..4035a9a 100644
--- a/falco/wfsc.py
+++ b/falco/wfsc.py
@@ -1,5 +1,5 @@
 """WFSC Loop Function."""
-from copy import copy
+from copy import copy, deepcopy
 import numpy as np
 import os
 import time
@@ -197,42 +197,28 @@ def loop(mp, out):
 
     # Save out the data from the workspace
     if mp.flagSaveWS:
-        del cvar
-        del G
-        del h
-        del jacStruct
-
         # Don't bother saving the large 2-D, floating point maps.
-        # (they take up too much space)
-        mp.P1.full.mask = 1
-        mp.P1.compact.mask = 1
-        mp.P3.full.mask = 1
-        mp.P3.compact.mask = 1
-        mp.P4.full.mask = 1
-        mp.P4.compact.mask = 1
-        mp.F3.full.mask = 1
-        mp.F3.compact.mask = 1
-
-        mp.P1.full.E = 1
-        mp.P1.compact.E = 1
-        mp.dm1.full.mask = 1
-        mp.dm1.compact.mask = 1
-        mp.dm2.full.mask = 1
-        mp.dm2.compact.mask = 1
-        mp.complexTransFull = 1
-        mp.complexTransCompact = 1
-
-        mp.dm1.compact.inf_datacube = 0
-        mp.dm2.compact.inf_datacube = 0
-        mp.dm8.compact.inf_datacube = 0
-        mp.dm9.compact.inf_datacube = 0
-        mp.dm8.inf_datacube = 0
-        mp.dm9.inf_datacube = 0
-
-        fnAll = mp.path.ws + mp.runLabel + '_all.pkl'
+        # (they take up too much space). Save a copy so that mp stays usable.
+        mpSave = deepcopy(mp)
+        for name in ('P1.full.mask', 'P1.compact.mask', 'P3.full.mask',
+                     'P3.compact.mask', 'P4.full.mask', 'P4.compact.mask',
+                     'F3.full.mask', 'F3.compact.mask', 'P1.full.E',
+                     'P1.compact.E', 'dm1.full.mask', 'dm1.compact.mask',
+                     'dm2.full.mask', 'dm2.compact.mask', 'complexTransFull',
+                     'complexTransCompact', 'dm1.compact.inf_datacube',
+                     'dm2.compact.inf_datacube', 'dm8.compact.inf_datacube',
+                     'dm9.compact.inf_datacube', 'dm8.inf_datacube',
+                     'dm9.inf_datacube'):
+            parent = mpSave
+            *parentNames, lastName = name.split('.')
+            for parentName in parentNames:
+                parent = getattr(parent, parentName, None)
+            if hasattr(parent, lastName):
+                setattr(parent, lastName, 1)
+
+        fnAll = os.path.join(mp.path.ws, mp.runLabel + '_all.pkl')
         print('Saving entire workspace to file ' + fnAll + '...', end='')
-        with open(fnAll, 'wb') as f:
-            pickle.dump(mp, f)
+        _save_pickle(mpSave, fnAll)
 
         print('done.\n\n')
     else:
-- 
2.43.0


From 91ca1c4a5c2dbf73f3ba3a0302b8f976491de5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:27 +0000
Subject: [PATCH 097/123] fix: an interruption while saving no longer leaves an
 unreadable thin-film table behind

---
 falco/thinfilm.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/falco/thinfilm.py b/falco/thinfilm.py
index d8652e7..22c5145 100644
--- a/falco/thinfilm.py
+++ b/falco/thinfilm.py
@@ -428,6 +428,16 @@ def solver(n, d0, theta, lam, tetm=False):
     return [R, T, rr, tt]
 
 
+def _save_table(fn, table):
+    """Save a table so that an interruption never leaves part of it behind."""
+    fnTemp = '%s.%d.tmp' % (fn, os.getpid())
+    with open(fnTemp, 'wb') as f:
+        np.save(f, table)
+    os.replace(fnTemp, fn)
+
+    return None
+
+
 def gen_complex_trans_table(mp, flagRefl=False):
     """
     Calculate 3-D look-up table for thin film transmission data.
@@ -522,7 +532,7 @@ def gen_complex_trans_table(mp, flagRefl=False):
             print('\tDone computing wavelength %d of %d.\n' % (si, Nsbp))
 
         # Save out for future use
-        np.save(fn_cube_compact, complexTransCompact)
+        _save_table(fn_cube_compact, complexTransCompact)
         print('Saved complex transmission datacube: %s' % fn_cube_compact)
         pass
 
@@ -559,7 +569,7 @@ def gen_complex_trans_table(mp, flagRefl=False):
                       (li, len(lambdas)))
 
         # Save out for future use
-        np.save(fn_cube_full, complexTransFull)
+        _save_table(fn_cube_full, complexTransFull)
         print('Saved complex transmission datacube: %s\n' % fn_cube_full)
 
     return complexTransCompact, complexTransFull
-- 
2.43.0


From 4c5f2bbb541d2a9c524f7560277dcadf7863faa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:51 +0000
Subject: [PATCH 098/123] fix: Zernike sensitivities leave the settings of the
 PROPER full model as they were

---
 falco/zern.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/falco/zern.py b/falco/zern.py
index 20c389a..02fbca4 100644
--- a/falco/zern.py
+++ b/falco/zern.py
@@ -308,18 +308,23 @@ def falco_get_single_sim_Efield_LamPolZern(ni, inds_list_zern, mp):
     E = mp.P1.full.E
     E0 = E.copy()
 
-    # Initialize the Zernike modes to include as empty if the variable doesn't exist already
-    if not hasattr(mp.full, 'zindex'):
-        mp.full.zindex = np.array([])
-        mp.full.zval_m = np.array([])
-    zindex0 = copy.copy(mp.full.zindex)  # Save the original
-    zval_m0 = copy.copy(mp.full.zval_m)  # Save the original
+    full0 = mp.full  # Save the original settings to reset them later
 
     if(mp.full.flagPROPER):  # WARNING: THIS OPTION HAS NOT BEEN TESTED
 
+        # Change the Zernike modes only in a copy of the settings
+        mp.full = copy.copy(mp.full)
+
+        # Start from the Zernike modes included already, if any
+        zindex0 = np.atleast_1d(getattr(full0, 'zindex', [])).astype(int)
+        zval_m0 = getattr(full0, 'zval_m', getattr(full0, 'zval', []))
+        zval_m0 = np.atleast_1d(zval_m0).astype(float)
+
         # Put the Zernike index and coefficent in the vectors used by the PROPER full model
         if(any(zindex0 == indsZnoll[izern])):  # Add the delta to an existing entry
-            zind = np.nonzero(zindex0 == indsZnoll[izern])[0]
+            zind = np.nonzero(zindex0 == indsZnoll[izern])[0][0]
+            mp.full.zindex = zindex0
+            mp.full.zval_m = zval_m0
             mp.full.zval_m[zind] = mp.full.zval_m[zind] + mp.full.ZrmsVal
         else:  # Concatenate the Zenike modes to the vector if it isn't included already
             mp.full.zindex = np.concatenate((zindex0, np.array([indsZnoll[izern]]))).astype(int)
@@ -336,8 +341,7 @@ def falco_get_single_sim_Efield_LamPolZern(ni, inds_list_zern, mp):
 
     Estar = falco.model.full(mp, modvar)
     mp.P1.full.E = E0  # Reset to original value
-    mp.full.zindex = zindex0
-    mp.full.zval_m = zval_m0
+    mp.full = full0
 
     return Estar
 
-- 
2.43.0


From 995f0878fdc6b675925c589e2aa66667ab1d7229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:30 +0000
Subject: [PATCH 099/123] fix: Zernike sensitivities are averaged over the dark
 hole also if it is rotated, shifted, or of several zones

---
 falco/zern.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/falco/zern.py b/falco/zern.py
index 02fbca4..84b290a 100644
--- a/falco/zern.py
+++ b/falco/zern.py
@@ -37,21 +37,26 @@ def calc_zern_sens(mp):
     Nzern = indsZnoll.size
 
     # Make scoring masks
+    angs = np.atleast_1d(mp.Fend.corr.ang)
     maskCube = np.zeros((mp.Fend.Neta, mp.Fend.Nxi, Nannuli))
     for ni in range(Nannuli):
-        # Make scoring masks for the annular regions
-        # Set Inputs:
-        maskDict = {}
-        maskDict["pixresFP"] = mp.Fend.res
-        maskDict["rhoInner"] = Rsens[ni, 0]  # [lambda0/D]
-        maskDict["rhoOuter"] = Rsens[ni, 1]  # [lambda0/D]
-        maskDict["angDeg"] = mp.Fend.corr.ang  # [degrees]
-        maskDict["centering"] = mp.centering
-        maskDict["FOV"] = mp.Fend.FOV
-        maskDict["whichSide"] = np.atleast_1d(mp.Fend.sides)[0]
-        if hasattr(mp.Fend, 'shape'):
-            maskDict["shape"] = np.atleast_1d(mp.Fend.shape)[0]
-        maskCube[:, :, ni], xisDL, etasDL = falco.mask.falco_gen_SW_mask(maskDict)
+        # Make scoring masks for the annular regions (in each zone)
+        for iZone in range(angs.size):
+            # Set Inputs:
+            maskDict = {}
+            maskDict["pixresFP"] = mp.Fend.res
+            maskDict["rhoInner"] = Rsens[ni, 0]  # [lambda0/D]
+            maskDict["rhoOuter"] = Rsens[ni, 1]  # [lambda0/D]
+            maskDict["angDeg"] = angs[iZone]  # [degrees]
+            maskDict["centering"] = mp.centering
+            maskDict["Nxi"] = mp.Fend.Nxi
+            maskDict["Neta"] = mp.Fend.Neta
+            maskDict["whichSide"] = np.atleast_1d(mp.Fend.sides)[iZone]
+            for name in ('shape', 'clockAngDeg', 'xiOffset', 'etaOffset'):
+                if hasattr(mp.Fend, name):
+                    maskDict[name] = np.atleast_1d(getattr(mp.Fend, name))[iZone]
+            maskZone, _, _ = falco.mask.falco_gen_SW_mask(maskDict)
+            maskCube[:, :, ni] = np.logical_or(maskCube[:, :, ni], maskZone)
 
     if not mp.full.flagPROPER:  # When using full models made with PROPER
         # Generate cube of normalized (RMS = 1) Zernike modes.
-- 
2.43.0


From 4d68aa2d9dfabb4602fd851679034232c08968ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:58 +0000
Subject: [PATCH 100/123] fix: all obscured Zernike modes of a set are
 included, not just the last one

---
 falco/zern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/zern.py b/falco/zern.py
index 84b290a..fad4c7f 100644
--- a/falco/zern.py
+++ b/falco/zern.py
@@ -628,7 +628,7 @@ def propcustom_zernikes(a, zernike_num, zernike_val, eps=0., **kwargs):
                 elif zernike_num[iz] == 22:
                     ab = (np.sqrt(7)*(1 + eps**6 - 12*r2 + 30*r4 - 20*r**6 + eps**4*(9 - 12*r2) + eps**2*(9 - 36*r2 + 30*r4)))/ (-1 + eps**2)**3
 
-            dmap[j, :] += zernike_val[iz] * ab
+                dmap[j, :] += zernike_val[iz] * ab
 
     if not ("NO_APPLY" in kwargs and kwargs["NO_APPLY"]):
         if ("AMPLITUDE" in kwargs and kwargs["AMPLITUDE"]):
-- 
2.43.0


From c274811e0751dbb536ac0d3d672ab897e43e14ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:58 +0000
Subject: [PATCH 101/123] fix: Zernike modes are normalized over the beam

---
 falco/zern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/zern.py b/falco/zern.py
index fad4c7f..82f4a45 100644
--- a/falco/zern.py
+++ b/falco/zern.py
@@ -385,7 +385,7 @@ def gen_norm_zern_maps(Nbeam, centering, indsZnoll):
     # PROPER setup values
     Dbeam = 1.  # Diameter of aperture, normalized to itself
     wl = 1e-6  # wavelength (m); Dummy value--no propagation here, so not used.
-    beam_diam_frac = Narray/Nbeam
+    beam_diam_frac = Nbeam/Narray
 
     # Initialize wavefront structure in PROPER
     bm = proper.prop_begin(Dbeam, wl, Narray, beam_diam_frac)
-- 
2.43.0


From 0d6acd67d2b768c3596aaba080aa9a41c434aab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:24 +0000
Subject: [PATCH 102/123] fix: polygons reaching over the edge of the grid are
 clipped there

---
 falco/proper/prop_irregular_polygon.py |  8 ++++----
 falco/proper/prop_polygon.py           | 10 +++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/falco/proper/prop_irregular_polygon.py b/falco/proper/prop_irregular_polygon.py
index 8604703..5c3d345 100644
--- a/falco/proper/prop_irregular_polygon.py
+++ b/falco/proper/prop_irregular_polygon.py
@@ -157,18 +157,18 @@ def prop_irregular_polygon(wf, xvert, yvert, **kwargs):
             xrightpix = int(np.round(xright))
             
             if xleftpix != xrightpix:
-                if xleftpix >= 0:
+                if xleftpix >= 0 and xleftpix < ngrid:
                     image[ypix,xleftpix] = image[ypix,xleftpix] + mag * ((xleftpix + 0.5) - xleft)
-                if xrightpix < ngrid:
+                if xrightpix >= 0 and xrightpix < ngrid:
                     image[ypix,xrightpix] = image[ypix,xrightpix] + mag * (xright - (xrightpix - 0.5))
-                if (xrightpix - xleftpix) > 1:
+                if (xrightpix - xleftpix) > 1 and xleftpix + 1 < ngrid and xrightpix > 0:
                     if xleftpix+1 < 0:
                         imin = 0
                     else:
                         imin = xleftpix+1
                         
                     if xrightpix >= ngrid:
-                        imax = ngrid - 1 
+                        imax = ngrid
                     else:
                         imax = xrightpix
                     image[ypix,imin:imax] = image[ypix,imin:imax] + mag
diff --git a/falco/proper/prop_polygon.py b/falco/proper/prop_polygon.py
index 321df7d..44736d4 100644
--- a/falco/proper/prop_polygon.py
+++ b/falco/proper/prop_polygon.py
@@ -140,7 +140,7 @@ def prop_polygon(wf, nvert, rad, xc = np.nan, yc = np.nan, **kwargs):
     else:
         imin = int(np.round(np.min(yp)))
         
-    if int(np.round(np.max(yp))) > ngrid:
+    if int(np.round(np.max(yp))) + 1 > ngrid:
         imax = ngrid            
     else:
         imax = int(np.round(np.max(yp))) + 1   
@@ -186,18 +186,18 @@ def prop_polygon(wf, nvert, rad, xc = np.nan, yc = np.nan, **kwargs):
             xrightpix = int(np.round(xright))
             
             if xleftpix != xrightpix:
-                if xleftpix >= 0:
+                if xleftpix >= 0 and xleftpix < ngrid:
                     image[ypix,xleftpix] = image[ypix,xleftpix] + mag * ((xleftpix + 0.5) - xleft)
-                if xrightpix < ngrid:
+                if xrightpix >= 0 and xrightpix < ngrid:
                     image[ypix,xrightpix] = image[ypix,xrightpix] + mag * (xright - (xrightpix - 0.5))
-                if (xrightpix - xleftpix) > 1:
+                if (xrightpix - xleftpix) > 1 and xleftpix + 1 < ngrid and xrightpix > 0:
                     if xleftpix+1 < 0:
                         imin = 0
                     else:
                         imin = xleftpix+1
                         
                     if xrightpix >= ngrid:
-                        imax = ngrid - 1 
+                        imax = ngrid
                     else:
                         imax = xrightpix
                     image[ypix,imin:imax] = image[ypix,imin:imax] + mag
-- 
2.43.0


From ff945ecadd3d00f4b84363b4b4a489991c34ff18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:42 +0000
Subject: [PATCH 103/123] fix: prop_rounded_rectangle draws rounded rectangles
 instead of raising an exception

---
 falco/proper/prop_rounded_rectangle.py | 126 +++++--------------------
 1 file changed, 21 insertions(+), 105 deletions(-)

diff --git a/falco/proper/prop_rounded_rectangle.py b/falco/proper/prop_rounded_rectangle.py
index aa4335b..7814871 100644
--- a/falco/proper/prop_rounded_rectangle.py
+++ b/falco/proper/prop_rounded_rectangle.py
@@ -8,6 +8,7 @@
 
 
 
+import numpy as np
 import falco.proper as proper
 
 
@@ -42,118 +43,33 @@ def prop_rounded_rectangle(wf, corner_radius, width, height, xc = 0.0, yc = 0.0)
     n = proper.prop_get_gridsize(wf)
     
     # x,y offset of the circle defining rounded corner (meters)
-    rad_pix = corner_radius/dx
+    rad_pix = int(corner_radius/dx)
     xoff = width/2. - corner_radius
     yoff = height/2. - corner_radius
     
     mask = proper.prop_rectangle(wf, width, height, xc, yc)
     
-    circle = proper.prop_ellipse(wf, corner_radius, corner_radius, xoff+xc, yoff+yc)
-    xoff_pix = (xoff+xc) / dx + n//2
-    yoff_pix = (yoff+yc) / dx + n//2
-    
-    if xoff_pix < 0:
-        x1 = 0
-    else:
-        x1 = xoff_pix
+    # replace the corners by quarters of circles
+    for ysign in (1, -1):
+        for xsign in (1, -1):
+            xcirc = xsign*xoff + xc
+            ycirc = ysign*yoff + yc
+            circle = proper.prop_ellipse(wf, corner_radius, corner_radius, xcirc, ycirc)
+            xoff_pix = int(np.round(xcirc / dx)) + n//2
+            yoff_pix = int(np.round(ycirc / dx)) + n//2
 
-    if xoff_pix + rad_pix + 3 > n:
-        x2 = n
-    else:
-        x2 = xoff_pix + rad_pix + 3
-                        
-    if yoff_pix < 0:
-        y1 = 0
-    else:
-        y1 = yoff_pix
-    
-    if yoff_pix + rad_pix + 3 > n:
-        y2 = n
-    else:
-        y2 = yoff_pix + rad_pix + 3
-    
-    mask[y1:y2,x1:x2] = 0
-    mask[y1:y2,x1:x2] = circle[y1:y2,x1:x2]
-    
-    circle = proper.prop_ellipse(wf, corner_radius, corner_radius, xoff+xc, -yoff+yc)
-    xoff_pix = (xoff+xc)/dx + n//2
-    yoff_pix = (-yoff+yc)/dx + n//2
-    
-    if xoff_pix < 0:
-        x1 = 0
-    else:
-        x1 = xoff_pix
-
-    if xoff_pix + rad_pix + 3 > n:
-        x2 = n
-    else:
-        x2 = xoff_pix + rad_pix + 3
-        
-    if yoff_pix - rad_pix - 2 < 0:
-        y1 = 0
-    else:
-        y1 = yoff_pix - rad_pix - 2
-        
-    if yoff_pix > n:
-        y2 = n
-    else:
-        y2 = yoff_pix + 1
-            
-    mask[y1:y2,x1:x2] = 0
-    mask[y1:y2,x1:x2] = circle[y1:y2,x1:x2]
-    
-    circle = proper.prop_ellipse(wf, corner_radius, corner_radius, -xoff+xc, yoff+yc)
-    xoff_pix = (-xoff+xc) / dx + n//2
-    yoff_pix = (yoff+yc) / dx + n//2
-    
-    if xoff_pix - rad_pix - 2 < 0:
-        x1 = 0
-    else:
-        x1 = xoff_pix - rad_pix - 2
-        
-    if xoff_pix > n:
-        x2 = n
-    else:
-        x2 = xoff_pix + 1
-        
-    if yoff_pix < 0:
-        y1 = 0
-    else:
-        y1 = yoff_pix
-        
-    if yoff_pix + rad_pix + 3 > n:
-        y2 = n
-    else:
-        y2 = yoff_pix + rad_pix + 3
+            if xsign > 0:
+                x1, x2 = xoff_pix, xoff_pix + rad_pix + 3
+            else:
+                x1, x2 = xoff_pix - rad_pix - 2, xoff_pix + 1
 
-    mask[y1:y2,x1:x2] = 0
-    mask[y1:y2,x1:x2] = circle[y1:y2,x1:x2] 
+            if ysign > 0:
+                y1, y2 = yoff_pix, yoff_pix + rad_pix + 3
+            else:
+                y1, y2 = yoff_pix - rad_pix - 2, yoff_pix + 1
 
-    circle = proper.prop_ellipse(wf, corner_radius, corner_radius, -xoff+xc, -yoff+yc)
-    xoff_pix = (-xoff+xc) / dx + n//2
-    yoff_pix = (-yoff+yc) / dx + n//2
-    
-    if xoff_pix - rad_pix - 2 < 0:
-        x1 = 0
-    else:
-        x1 = xoff_pix - rad_pix - 2
-        
-    if xoff_pix > n:
-        x2 = n
-    else:
-        x2 = xoff_pix + 1
-        
-    if yoff_pix - rad_pix - 2 < 0:
-        y1 = 0
-    else:
-        y1 = yoff_pix - rad_pix - 2
-        
-    if yoff_pix > n:
-        y2 = n
-    else:
-        y2 = yoff_pix + 1
+            x1, x2 = np.clip([x1, x2], 0, n)
+            y1, y2 = np.clip([y1, y2], 0, n)
+            mask[y1:y2,x1:x2] = circle[y1:y2,x1:x2]
 
-    mask[y1:y2,x1:x2] = 0
-    mask[y1:y2,x1:x2] = circle[y1:y2,x1:x2] 
-    
     return mask
-- 
2.43.0


From 75830033d3818a4e017768b9acec66fa3056e170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:52 +0000
Subject: [PATCH 104/123] fix: regular polygons are centered on the center
 pixel of an odd grid

---
 falco/proper/prop_polygon.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/falco/proper/prop_polygon.py b/falco/proper/prop_polygon.py
index 44736d4..f815edd 100644
--- a/falco/proper/prop_polygon.py
+++ b/falco/proper/prop_polygon.py
@@ -79,20 +79,20 @@ def prop_polygon(wf, nvert, rad, xc = np.nan, yc = np.nan, **kwargs):
     
     
     if np.isnan(xc):
-        xcpix = ngrid/2.
+        xcpix = ngrid//2
     else:
         if norm:
-            xcpix = xc*pr + ngrid/2.
+            xcpix = xc*pr + ngrid//2
         else:
-            xcpix = xc / sampling + ngrid/2.
+            xcpix = xc / sampling + ngrid//2
             
     if np.isnan(yc):
-        ycpix = ngrid/2.
+        ycpix = ngrid//2
     else:
         if norm:
-            ycpix = yc*pr + ngrid/2.
+            ycpix = yc*pr + ngrid//2
         else:
-            ycpix = yc / sampling + ngrid/2.
+            ycpix = yc / sampling + ngrid//2
             
     if not norm:
         radpix = rad/sampling
-- 
2.43.0


From 674c3ceb2751f138f96538c4adf633a53642bfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:52 +0000
Subject: [PATCH 105/123] fix: polygon edges that are shorter than a pixel row
 or below the grid are stepped over

---
 falco/proper/prop_irregular_polygon.py | 4 ++--
 falco/proper/prop_polygon.py           | 4 ++--
 falco/proper/prop_rectangle.py         | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/falco/proper/prop_irregular_polygon.py b/falco/proper/prop_irregular_polygon.py
index 5c3d345..eb14c25 100644
--- a/falco/proper/prop_irregular_polygon.py
+++ b/falco/proper/prop_irregular_polygon.py
@@ -125,14 +125,14 @@ def prop_irregular_polygon(wf, xvert, yvert, **kwargs):
             if y > np.max(yp):
                 break
             
-            if y >= yp[leftnext]:
+            while y >= yp[leftnext] and yp[leftnext] < np.max(yp):
                 left = leftnext
                 if left != nvert-1:
                     leftnext = left + 1
                 else:
                     leftnext = 0
                     
-            if y >= yp[rightnext]:
+            while y >= yp[rightnext] and yp[rightnext] < np.max(yp):
                 right = rightnext
                 if right != 0:
                     rightnext = right - 1
diff --git a/falco/proper/prop_polygon.py b/falco/proper/prop_polygon.py
index f815edd..c1b762e 100644
--- a/falco/proper/prop_polygon.py
+++ b/falco/proper/prop_polygon.py
@@ -154,14 +154,14 @@ def prop_polygon(wf, nvert, rad, xc = np.nan, yc = np.nan, **kwargs):
             if y > np.max(yp):
                 break
             
-            if y >= yp[leftnext]:
+            while y >= yp[leftnext] and yp[leftnext] < np.max(yp):
                 left = leftnext
                 if left != nvert-1:
                     leftnext = left + 1
                 else:
                     leftnext = 0
                     
-            if y >= yp[rightnext]:
+            while y >= yp[rightnext] and yp[rightnext] < np.max(yp):
                 right = rightnext
                 if right != 0:
                     rightnext = right - 1
diff --git a/falco/proper/prop_rectangle.py b/falco/proper/prop_rectangle.py
index 34215e9..e4862f0 100644
--- a/falco/proper/prop_rectangle.py
+++ b/falco/proper/prop_rectangle.py
@@ -156,14 +156,14 @@ def prop_rectangle(wf, xsize, ysize, xc = np.nan, yc = np.nan, **kwargs):
             if y > np.max(yp):
                 break
 
-            if y >= yp[leftnext]:
+            while y >= yp[leftnext] and yp[leftnext] < np.max(yp):
                 left = leftnext
                 if left != nvert-1:
                     leftnext = left + 1
                 else:
                     leftnext = 0
 
-            if y >= yp[rightnext]:
+            while y >= yp[rightnext] and yp[rightnext] < np.max(yp):
                 right = rightnext
                 if right != 0:
                     rightnext = right - 1
-- 
2.43.0


From d8e4f89e8f55f9feeb132b89cf6d00b384888df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:52 +0000
Subject: [PATCH 106/123] fix: ellipses beside the grid can be drawn

---
 falco/proper/prop_ellipse.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/falco/proper/prop_ellipse.py b/falco/proper/prop_ellipse.py
index 9d8becd..e69b835 100644
--- a/falco/proper/prop_ellipse.py
+++ b/falco/proper/prop_ellipse.py
@@ -105,8 +105,6 @@ def prop_ellipse(wf, xradius, yradius, xc = 0.0, yc = 0.0, **kwargs):
     xr = (x * cost - y * sint) / xrad_pix
     yr = (x * sint + y * cost) / yrad_pix
     r = np.sqrt(xr*xr + yr*yr)
-    drx = np.abs(r[0,1] - r[0,0])
-    dry = np.abs(r[1,0] - r[0,0])
 
     delx = 1.0 / xrad_pix
     dely = 1.0 / yrad_pix
-- 
2.43.0


From 9bc4d2559f4bc019b9b114369d76348eb6effc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:52 +0000
Subject: [PATCH 107/123] fix: hexagonal apertures without omitted segments can
 be drawn

---
 falco/proper/prop_hex_wavefront.py | 340 ++++++++++++++---------------
 1 file changed, 170 insertions(+), 170 deletions(-)

diff --git a/falco/proper/prop_hex_wavefront.py b/falco/proper/prop_hex_wavefront.py
index 945cf0a..699257b 100644
--- a/falco/proper/prop_hex_wavefront.py
+++ b/falco/proper/prop_hex_wavefront.py
@@ -1,170 +1,170 @@
-#   Copyright 2016, 2017 California Institute of Technology
-#   Users must agree to abide by the restrictions listed in the
-#   file "LegalStuff.txt" in the PROPER library directory.
-#
-#   PROPER developed at Jet Propulsion Laboratory/California Inst. Technology
-#   Original IDL version by John Krist
-#   Python translation by Navtej Saini, with Luis Marchen and Nikta Amiri
-#
-
-
-import falco.proper as proper
-import numpy as np
-
-
-def prop_hex_wavefront(wf, nrings, hexrad, hexsep, zernike_val = 0, **kwargs):
-    """Compute transmission and wavefront phase errors for a segmented hexagonal
-    aperture and apply them to the current wavefront.
-
-    The hexagons making up the aperture have antialiased edges. Each segment
-    has user-defined hexagonal Zernike phase errors (up to Z22).
-
-    Parameters
-    ----------
-    wf : obj
-        WaveFront class object
-
-    nrings : int
-        Number of rings of hexagons in aperture (e.g. 1 = a central hexagon
-        surrounded by a ring of hexagons)
-
-    hexrad : float
-        The distance in meters from the center of a hexagonal segment to a
-        vertex.
-
-    hexsep : float
-        The distance between the centers of adjacent hexagonal segments.
-
-    zernike_val : numpy ndarray
-        Array of dimensions (22, nhex) where nhex is the number of hexagonal
-        segments [nhex = nrings*(nrings+1)*3+1]. Each line in this array
-        specifies the hexagonal Zernike polynomial coefficients (Z1 to Z22) for
-        a segment. The Zernikes are Noll-ordered (see prop_zernikes in the
-        manual for a list of them or look at the prop_hex_zernikes.py routine in
-        the PROPER library). The values are in meters of RMS wavefront error.
-        Even if the center segment is made dark by /DARKCENTER, there must be an
-        entry for it.
-
-
-    Returns
-    -------
-    aperture : numpy ndarray
-        Transmission map for a segmented hexagonal aperture
-
-    phase : numpy ndarray, optional
-        Wavefront phase errors for a segmented hexagonal aperture
-
-
-    Other Parameters
-    ----------------
-    DARKCENTER : bool
-        If set, the central hexagonal segment transmission will be set to 0.0.
-
-    NO_APPLY : bool
-        If set, the aperture and phase maps are created but not applied to the
-        wavefront.
-
-    OMIT=omit
-        List of segment IDs to omit drawing, starting with 0. "zernike_val", if 
-        specified, must include entries for the omitted segments, but they are ignored.
-
-    ROTATION : float
-        The counterclockwise rotation in degrees of the aperture about its center.
-
-    XCENTER, YCENTER : float
-        The offset in meters of the aperture from the center of the wavefront.
-        By default, the aperture is centered within the wavefront.
-
-    Original translation by Navtej Saini
-    Revised 28 Oct 2019 - JEK - Fixed NO_APPLY and DARKCENTER logic to allow False setting
-    31 Mar 2022 - JEK - added OMIT option and set default values for xc & yc
-    2 May 2022 - JEK - fixed missing colons
-    """
-
-    if not "XCENTER" in kwargs:
-        xc = 0.
-    else:
-        xc = kwargs["XCENTER"]
-
-    if not "YCENTER" in kwargs:
-        yc = 0.
-    else:
-        yc = kwargs["YCENTER"]
-
-    if not "OMIT" in kwargs:
-        omit = -1
-    else:
-        omit = kwargs["OMIT"]
-
-    if "ROTATION" in kwargs:
-        angle = kwargs["ROTATION"]
-        anglerad = angle * np.pi / 180
-    else:
-        angle = 0.
-        anglerad =0.
-
-    n = proper.prop_get_gridsize(wf)
-    dx = proper.prop_get_sampling(wf)
-
-    aperture = np.zeros([n,n], dtype = np.float64)
-
-    ## 1 May 2018 - Navtej
-    ## Taking absolute value of zernike_val before summing up
-    include_phase_errors = np.sum(np.abs(zernike_val)) != 0.
-
-    if include_phase_errors:
-        zernike_index = np.arange(22, dtype=int) + 1
-        phase = np.zeros([n,n], dtype = np.float64)
-    else:
-        phase = 0
-
-    segi = 0
-
-    for iring in range(0, nrings+1):
-        x = hexsep * np.cos(30*np.pi/180) * iring
-        y = -nrings * hexsep + iring * hexsep * 0.5
-
-        for iseg in range(0, 2*nrings-iring+1):
-            # Create hex segment on one side
-            if segi not in omit:
-                xhex = x * np.cos(anglerad) - y * np.sin(anglerad) + xc
-                yhex = x * np.sin(anglerad) + y * np.cos(anglerad) + yc
-
-                segment = proper.prop_polygon(wf, 6, hexrad, xhex, yhex, ROTATION = angle)
-      
-                if (iring == 0 and iseg == nrings and proper.switch_set("DARKCENTER",**kwargs)) == False:
-                    aperture += segment
-
-                segment = segment != 0
-
-                if include_phase_errors:
-                    phase += segment * proper.prop_hex_zernikes(zernike_index, zernike_val[:,segi], n, dx, hexrad, xhex, yhex, ROTATION = angle)
-
-            segi += 1
-
-            # create hex segment on opposite side
-            if iring != 0:
-                if segi not in omit:
-                    xhex = -x * np.cos(anglerad) - y * np.sin(anglerad) + xc
-                    yhex = -x * np.sin(anglerad) + y * np.cos(anglerad) + yc
-
-                    segment = proper.prop_polygon(wf, 6, hexrad, xhex, yhex, ROTATION = angle)
-                    aperture += segment
-                    segment = segment != 0
-
-                    if include_phase_errors:
-                        phase += segment * proper.prop_hex_zernikes(zernike_index, zernike_val[:,segi], n, dx, hexrad, xhex, yhex, ROTATION = angle)
-
-                segi += 1
-
-            y += hexsep
-
-    if not proper.switch_set("NO_APPLY",**kwargs):
-        proper.prop_multiply(wf, aperture)
-        if include_phase_errors:
-            proper.prop_add_phase(wf, phase)
-
-    if include_phase_errors:
-        return (aperture, phase)
-    else:
-        return aperture
+#   Copyright 2016, 2017 California Institute of Technology
+#   Users must agree to abide by the restrictions listed in the
+#   file "LegalStuff.txt" in the PROPER library directory.
+#
+#   PROPER developed at Jet Propulsion Laboratory/California Inst. Technology
+#   Original IDL version by John Krist
+#   Python translation by Navtej Saini, with Luis Marchen and Nikta Amiri
+#
+
+
+import falco.proper as proper
+import numpy as np
+
+
+def prop_hex_wavefront(wf, nrings, hexrad, hexsep, zernike_val = 0, **kwargs):
+    """Compute transmission and wavefront phase errors for a segmented hexagonal
+    aperture and apply them to the current wavefront.
+
+    The hexagons making up the aperture have antialiased edges. Each segment
+    has user-defined hexagonal Zernike phase errors (up to Z22).
+
+    Parameters
+    ----------
+    wf : obj
+        WaveFront class object
+
+    nrings : int
+        Number of rings of hexagons in aperture (e.g. 1 = a central hexagon
+        surrounded by a ring of hexagons)
+
+    hexrad : float
+        The distance in meters from the center of a hexagonal segment to a
+        vertex.
+
+    hexsep : float
+        The distance between the centers of adjacent hexagonal segments.
+
+    zernike_val : numpy ndarray
+        Array of dimensions (22, nhex) where nhex is the number of hexagonal
+        segments [nhex = nrings*(nrings+1)*3+1]. Each line in this array
+        specifies the hexagonal Zernike polynomial coefficients (Z1 to Z22) for
+        a segment. The Zernikes are Noll-ordered (see prop_zernikes in the
+        manual for a list of them or look at the prop_hex_zernikes.py routine in
+        the PROPER library). The values are in meters of RMS wavefront error.
+        Even if the center segment is made dark by /DARKCENTER, there must be an
+        entry for it.
+
+
+    Returns
+    -------
+    aperture : numpy ndarray
+        Transmission map for a segmented hexagonal aperture
+
+    phase : numpy ndarray, optional
+        Wavefront phase errors for a segmented hexagonal aperture
+
+
+    Other Parameters
+    ----------------
+    DARKCENTER : bool
+        If set, the central hexagonal segment transmission will be set to 0.0.
+
+    NO_APPLY : bool
+        If set, the aperture and phase maps are created but not applied to the
+        wavefront.
+
+    OMIT=omit
+        List of segment IDs to omit drawing, starting with 0. "zernike_val", if 
+        specified, must include entries for the omitted segments, but they are ignored.
+
+    ROTATION : float
+        The counterclockwise rotation in degrees of the aperture about its center.
+
+    XCENTER, YCENTER : float
+        The offset in meters of the aperture from the center of the wavefront.
+        By default, the aperture is centered within the wavefront.
+
+    Original translation by Navtej Saini
+    Revised 28 Oct 2019 - JEK - Fixed NO_APPLY and DARKCENTER logic to allow False setting
+    31 Mar 2022 - JEK - added OMIT option and set default values for xc & yc
+    2 May 2022 - JEK - fixed missing colons
+    """
+
+    if not "XCENTER" in kwargs:
+        xc = 0.
+    else:
+        xc = kwargs["XCENTER"]
+
+    if not "YCENTER" in kwargs:
+        yc = 0.
+    else:
+        yc = kwargs["YCENTER"]
+
+    if not "OMIT" in kwargs:
+        omit = []
+    else:
+        omit = kwargs["OMIT"]
+
+    if "ROTATION" in kwargs:
+        angle = kwargs["ROTATION"]
+        anglerad = angle * np.pi / 180
+    else:
+        angle = 0.
+        anglerad =0.
+
+    n = proper.prop_get_gridsize(wf)
+    dx = proper.prop_get_sampling(wf)
+
+    aperture = np.zeros([n,n], dtype = np.float64)
+
+    ## 1 May 2018 - Navtej
+    ## Taking absolute value of zernike_val before summing up
+    include_phase_errors = np.sum(np.abs(zernike_val)) != 0.
+
+    if include_phase_errors:
+        zernike_index = np.arange(22, dtype=int) + 1
+        phase = np.zeros([n,n], dtype = np.float64)
+    else:
+        phase = 0
+
+    segi = 0
+
+    for iring in range(0, nrings+1):
+        x = hexsep * np.cos(30*np.pi/180) * iring
+        y = -nrings * hexsep + iring * hexsep * 0.5
+
+        for iseg in range(0, 2*nrings-iring+1):
+            # Create hex segment on one side
+            if segi not in omit:
+                xhex = x * np.cos(anglerad) - y * np.sin(anglerad) + xc
+                yhex = x * np.sin(anglerad) + y * np.cos(anglerad) + yc
+
+                segment = proper.prop_polygon(wf, 6, hexrad, xhex, yhex, ROTATION = angle)
+      
+                if (iring == 0 and iseg == nrings and proper.switch_set("DARKCENTER",**kwargs)) == False:
+                    aperture += segment
+
+                segment = segment != 0
+
+                if include_phase_errors:
+                    phase += segment * proper.prop_hex_zernikes(zernike_index, zernike_val[:,segi], n, dx, hexrad, xhex, yhex, ROTATION = angle)
+
+            segi += 1
+
+            # create hex segment on opposite side
+            if iring != 0:
+                if segi not in omit:
+                    xhex = -x * np.cos(anglerad) - y * np.sin(anglerad) + xc
+                    yhex = -x * np.sin(anglerad) + y * np.cos(anglerad) + yc
+
+                    segment = proper.prop_polygon(wf, 6, hexrad, xhex, yhex, ROTATION = angle)
+                    aperture += segment
+                    segment = segment != 0
+
+                    if include_phase_errors:
+                        phase += segment * proper.prop_hex_zernikes(zernike_index, zernike_val[:,segi], n, dx, hexrad, xhex, yhex, ROTATION = angle)
+
+                segi += 1
+
+            y += hexsep
+
+    if not proper.switch_set("NO_APPLY",**kwargs):
+        proper.prop_multiply(wf, aperture)
+        if include_phase_errors:
+            proper.prop_add_phase(wf, phase)
+
+    if include_phase_errors:
+        return (aperture, phase)
+    else:
+        return aperture
-- 
2.43.0


From 5e7bee05728e53b2433bd04b34fd0dd348d0b115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:52 +0000
Subject: [PATCH 108/123] fix: prop_pixellate returns an image of the requested
 size

---
 falco/proper/prop_pixellate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/proper/prop_pixellate.py b/falco/proper/prop_pixellate.py
index 79b8324..6dfb8ee 100644
--- a/falco/proper/prop_pixellate.py
+++ b/falco/proper/prop_pixellate.py
@@ -70,7 +70,7 @@ def prop_pixellate(image_in, sampling_in, sampling_out, n_out = 0):
     
     # Image is integrated over pixels but has original sampling; now, resample
     # pixel sampling
-    if n_out != 0:
+    if n_out == 0:
         n_out = int(np.fix(n_in * mag))
         
     new = proper.prop_magnify(convolved_image, mag, n_out)
-- 
2.43.0


From 9e906330580f1b3bfb97fc451c042314bf32ac1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:12 +0000
Subject: [PATCH 109/123] fix: the hexagonal piston mode can be made without
 other modes

---
 falco/proper/prop_hex_zernikes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/proper/prop_hex_zernikes.py b/falco/proper/prop_hex_zernikes.py
index fd17da4..387c677 100644
--- a/falco/proper/prop_hex_zernikes.py
+++ b/falco/proper/prop_hex_zernikes.py
@@ -103,14 +103,14 @@ def prop_hex_zernikes(zindex, zcoeff, n, dx, hexrad, xhex = 0.0, yhex = 0.0, **k
 
     r = np.sqrt(x**2 + y**2) / hexrad
     t = np.arctan2(y, x) - angle * np.pi/180.
-    zer = 0.
+    zer = np.zeros(r.shape)
 
     for i in range(len(zcoeff)):
         iz = zindex[i]
         z = zcoeff[i]
 
         if iz == 1:
-            zer = zer + z
+            zer += z
         elif iz == 2:
             zer += z * 2 * np.sqrt(6/5.) * r * np.cos(t)
         elif iz == 3:
-- 
2.43.0


From b71d05beee395bca24900afdf249780afb936485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:18 +0000
Subject: [PATCH 110/123] fix: the 18th hexagonal Zernike mode is orthogonal to
 the 10th

---
 falco/proper/prop_hex_zernikes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/proper/prop_hex_zernikes.py b/falco/proper/prop_hex_zernikes.py
index 387c677..b70b490 100644
--- a/falco/proper/prop_hex_zernikes.py
+++ b/falco/proper/prop_hex_zernikes.py
@@ -144,7 +144,7 @@ def prop_hex_zernikes(zindex, zcoeff, n, dx, hexrad, xhex = 0.0, yhex = 0.0, **k
         elif iz == 17:
             zer += z * 2 * np.sqrt(6/1089382547.) * (70369*r - 322280*r**3 + 309540*r**5) * np.sin(t)
         elif iz == 18:
-            zer += z * 4 * np.sqrt(385/295894589.) * (4365*r**5 - 3322*r**3) * np.cos(3*t)
+            zer += z * 4 * np.sqrt(385/295894589.) * (4635*r**5 - 3322*r**3) * np.cos(3*t)
         elif iz == 19:
             zer += z * 4 * np.sqrt(5/97.) * (35*r**5 - 22*r**3) * np.sin(3*t)
         elif iz == 20:
-- 
2.43.0


From 9ab8ff4d2e6f1220c8567438440022263a3b1024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:18 +0000
Subject: [PATCH 111/123] fix: hexagonal Zernike modes are not shifted at the
 edges of odd grids

---
 falco/proper/prop_hex_zernikes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falco/proper/prop_hex_zernikes.py b/falco/proper/prop_hex_zernikes.py
index b70b490..d739c6a 100644
--- a/falco/proper/prop_hex_zernikes.py
+++ b/falco/proper/prop_hex_zernikes.py
@@ -157,7 +157,7 @@ def prop_hex_zernikes(zindex, zcoeff, n, dx, hexrad, xhex = 0.0, yhex = 0.0, **k
     zery, zerx = zer.shape
     abmap = np.zeros([n, n], dtype = np.float64)
 
-    xleft = int(x1 + n/2)
+    xleft = int(x1 + n//2)
     xright = int(xleft + dpix) - 1
     xa = 0
     xb = dpix - 1
@@ -168,7 +168,7 @@ def prop_hex_zernikes(zindex, zcoeff, n, dx, hexrad, xhex = 0.0, yhex = 0.0, **k
     if (xright >= n):
         xb = dpix - 2 - xright + n
 
-    ybottom = int(y1 + n/2)
+    ybottom = int(y1 + n//2)
     ytop = int(ybottom + dpix ) - 1
     ya = 0
     yb = dpix - 1
-- 
2.43.0


From 1a8a5297dfcd368d446fbb38031458c0ac646608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:07 +0000
Subject: [PATCH 112/123] fix: making a mask no longer changes the antialiasing
 of the masks made after it

---
 falco/mask.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/falco/mask.py b/falco/mask.py
index 61d6759..4ffb39d 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -1,5 +1,6 @@
 import numpy as np
 import math
+from functools import wraps
 from numpy import cos, sin
 from scipy.interpolate import RectBivariateSpline
 from scipy.ndimage import rotate
@@ -10,6 +11,18 @@ from . import check
 from falco.util import ceil_even, cosd, sind
 
 
+def _restore_antialiasing(func):
+    """Keep the PROPER antialiasing setting the same outside of func."""
+    @wraps(func)
+    def wrapper(*args, **kwargs):
+        nSubsamples = proper.antialias_subsampling
+        try:
+            return func(*args, **kwargs)
+        finally:
+            proper.prop_set_antialiasing(nSubsamples)
+    return wrapper
+
+
 def _init_proper(Dmask, dx, centering):
     """Initialize PROPER for generating mask representations."""
     check.centering(centering)
@@ -64,6 +77,7 @@ def falco_gen_DM_stop(dx, diamMask, centering):
     return np.fft.ifftshift(np.abs(wf.wfarr))
 
 
+@_restore_antialiasing
 def falco_gen_pupil_Roman_CGI_20200513(Nbeam, centering, changes={}):
     """
     Generate WFIRST pupil CGI-20200513.
@@ -823,6 +837,7 @@ def falco_gen_annular_FPM(inputs):
     return gen_annular_fpm(inputs)
 
 
+@_restore_antialiasing
 def gen_annular_fpm(inputs):
     """
     Generate an annular FPM using PROPER.
@@ -1021,6 +1036,7 @@ def gen_bowtie_lyot_stop(inputs):
     return mask
 
 
+@_restore_antialiasing
 def falco_gen_pupil_LUVOIR_A_final(inputs):
     """
     Generate the LUVOIR Design A (Final) telescope pupil.
@@ -1156,6 +1172,7 @@ def falco_gen_pupil_LUVOIR_A_final(inputs):
     return mask
 
 
+@_restore_antialiasing
 def falco_gen_pupil_LUVOIR_B(inputs, **kwargs):
     """
     Generate the LUVOIR B telescope pupil.
@@ -1380,6 +1397,7 @@ def falco_hex_aperture_LUVOIR_B(wf, nrings, hexrad, hexsep, xc=0., yc=0.,
     return ap
 
 
+@_restore_antialiasing
 def falco_gen_pupil_Simple(inputs):
     """
     Generate a custom simple circular pupil with an ID, OD, and struts.
-- 
2.43.0


From ebe28b80de60869ee088f0e280531778d8c341c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:07 +0000
Subject: [PATCH 113/123] fix: the edge of a magnified ellipse is antialiased
 at its own place

---
 falco/mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/mask.py b/falco/mask.py
index 4ffb39d..8c0e682 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -1740,7 +1740,7 @@ def falco_gen_ellipse(inputs):
 
         xCenter = X[grayInds[0, iInterior], grayInds[1, iInterior]]
         yCenter = Y[grayInds[0, iInterior], grayInds[1, iInterior]]
-        RHOup = 0.5*np.sqrt(
+        RHOup = 1/magFac*0.5*np.sqrt(
         1/(radiusX)**2*(np.cos(clockingRadians)*(Xup+xCenter) +
                         np.sin(clockingRadians)*(Yup+yCenter))**2
         + 1/(radiusY)**2*(np.sin(clockingRadians)*(Xup+xCenter) -
-- 
2.43.0


From bc32ef1b8d7d45d6774c7f25a4f642180a96c79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:07 +0000
Subject: [PATCH 114/123] fix: all of the edge of a rotated ellipse is
 antialiased

---
 falco/mask.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/falco/mask.py b/falco/mask.py
index 8c0e682..a5c7950 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -1719,7 +1719,8 @@ def falco_gen_ellipse(inputs):
         + 1/(radiusY)**2*(np.sin(clockingRadians)*X - np.cos(clockingRadians)*Y)**2
         )
 
-    halfWindowWidth = np.max(np.abs((RHO[1, 0]-RHO[0, 0], RHO[0, 1] - RHO[0, 0])))
+    # largest change of RHO from the center of a pixel to its corners
+    halfWindowWidth = radius/magFac/min(radiusX, radiusY) * dx/np.sqrt(2)
     pupil = -1*np.ones(RHO.shape)
     pupil[np.abs(RHO) < radius - halfWindowWidth] = 1
     pupil[np.abs(RHO) > radius + halfWindowWidth] = 0
-- 
2.43.0


From 24cda691c9a7b533353cd7de5d26ddad7cbdb998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:07 +0000
Subject: [PATCH 115/123] fix: the WFIRST pupil can be sheared, magnified, and
 of fractional size if interpixel-centered

---
 falco/mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/mask.py b/falco/mask.py
index a5c7950..c33ed02 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -466,7 +466,7 @@ def falco_gen_pupil_WFIRST_CGI_180718(Nbeam, centering, changes={}):
         Narray = ceil_even(Nbeam*np.max(2*np.abs((xShear, yShear))) + magFac*Nbeam)
 
     if centering.lower() == 'interpixel':
-        xs = np.linspace(-(Nbeam-1)/2, (Nbeam-1)/2, Nbeam)/Nbeam
+        xs = np.linspace(-(Narray-1)/2, (Narray-1)/2, Narray)/Nbeam
     else:
         xs = np.linspace(-(Narray/2), Narray/2-1, Narray)/Nbeam
 
-- 
2.43.0


From cddff0812b2815e0b48718dc85fea8dcc3e260a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:02 +0000
Subject: [PATCH 116/123] fix: the tabs of the WFIRST pupil are clocked and
 magnified with it at every angle

---
 falco/mask.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/falco/mask.py b/falco/mask.py
index c33ed02..39e0d92 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -527,25 +527,26 @@ def falco_gen_pupil_WFIRST_CGI_180718(Nbeam, centering, changes={}):
     # the pupil.
 
     # SOFTWARE MASK:
-    XSnew = (1/1*XS+xcCOBStabs)-xShear
-    YSnew = (1/1*YS+ycCOBStabs)-yShear
+    cxy = np.matmul(rotMat, np.array([[magFac*xcCOBStabs], [magFac*ycCOBStabs]]))
+    XSnew = (XS+cxy[0])-xShear
+    YSnew = (YS+cxy[1])-yShear
 
     overSizeFac = 1.3
     cobsTabsMask = np.zeros([Narray, Narray])
-    THETAS = np.arctan2(YSnew, XSnew)
-    clockRad = np.deg2rad(clock_deg)
+    # angles from the clocked x-axis, from -pi to pi
+    THETAS = np.angle(np.exp(1j*(np.arctan2(YSnew, XSnew) - clockRad)))
 
     if angTabStart[0] > angTabEnd[0]:
         msk1 = (XSnew**2 + YSnew**2) <= (overSizeFac*magFac*IDtabs/2)**2
-        msk2 = np.logical_and(THETAS >= angTabEnd[0]+clockRad, THETAS <= angTabStart[0]+clockRad)
-        msk3 = np.logical_and(THETAS >= angTabEnd[1]+clockRad, THETAS <= angTabStart[1]+clockRad)
-        msk4 = np.logical_and(THETAS >= angTabEnd[2]+clockRad, THETAS <= angTabStart[2]+clockRad)
+        msk2 = np.logical_and(THETAS >= angTabEnd[0], THETAS <= angTabStart[0])
+        msk3 = np.logical_and(THETAS >= angTabEnd[1], THETAS <= angTabStart[1])
+        msk4 = np.logical_and(THETAS >= angTabEnd[2], THETAS <= angTabStart[2])
         cobsTabsMask[np.logical_and(msk1,np.logical_or(msk2,np.logical_or(msk3, msk4)))] = 1
     else:
         msk1 = (XSnew**2 + YSnew**2) <= (overSizeFac*magFac*IDtabs/2)**2
-        msk2 = np.logical_and(THETAS <= angTabEnd[0]+clockRad, THETAS >= angTabStart[0]+clockRad)
-        msk3 = np.logical_and(THETAS <= angTabEnd[1]+clockRad, THETAS >= angTabStart[1]+clockRad)
-        msk4 = np.logical_and(THETAS <= angTabEnd[2]+clockRad, THETAS >= angTabStart[2]+clockRad)
+        msk2 = np.logical_and(THETAS <= angTabEnd[0], THETAS >= angTabStart[0])
+        msk3 = np.logical_and(THETAS <= angTabEnd[1], THETAS >= angTabStart[1])
+        msk4 = np.logical_and(THETAS <= angTabEnd[2], THETAS >= angTabStart[2])
         cobsTabsMask[np.logical_and(msk1, np.logical_or(msk2, np.logical_or(msk3, msk4)))] = 1
 
 
-- 
2.43.0


From 150befa86bf9acf68a51ed0f3367beb0a976ac31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:02 +0000
Subject: [PATCH 117/123] fix: the tabs of the Roman pupils are at their place
 also when rotated by 180 degrees

---
 falco/mask.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/falco/mask.py b/falco/mask.py
index 39e0d92..2628e38 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -279,6 +279,9 @@ def falco_gen_pupil_Roman_CGI_20200513(Nbeam, centering, changes={}):
 
             XSnew = (XS + magFac*xyShear[0]) - xShear
             YSnew = (YS + magFac*xyShear[1]) - yShear
+            if centering.lower() in ('pixel', 'odd'):
+                XSnew = XSnew - cshift  # is non-zero if to be rotated by 180 degrees
+                YSnew = YSnew - cshift
             THETAS = np.arctan2(YSnew, XSnew)
 
             ang1 = angTabStart[iTab] + clockRad
@@ -530,6 +533,9 @@ def falco_gen_pupil_WFIRST_CGI_180718(Nbeam, centering, changes={}):
     cxy = np.matmul(rotMat, np.array([[magFac*xcCOBStabs], [magFac*ycCOBStabs]]))
     XSnew = (XS+cxy[0])-xShear
     YSnew = (YS+cxy[1])-yShear
+    if centering.lower() in ('pixel', 'odd'):
+        XSnew = XSnew - cshift  # is non-zero if to be rotated by 180 degrees
+        YSnew = YSnew - cshift
 
     overSizeFac = 1.3
     cobsTabsMask = np.zeros([Narray, Narray])
-- 
2.43.0


From 8ddcd395d9ec5c8045e70a58536c84c338aba445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:03 +0000
Subject: [PATCH 118/123] fix: the LUVOIR B pupil is rotated by 180 degrees if
 asked to, not just shifted

---
 falco/mask.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/falco/mask.py b/falco/mask.py
index 2628e38..62f5722 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -1253,6 +1253,8 @@ def falco_gen_pupil_LUVOIR_B(inputs, **kwargs):
                                      ROTATION=clockDeg)
 
     mask = np.fft.ifftshift(np.abs(bm.wfarr)) * ap
+    if flagRot180deg:
+        mask = np.rot90(mask, 2)
 
     return mask
 
-- 
2.43.0


From 9fbb2727b12d0e22fd5567e76572ddf9c01c85e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:03 +0000
Subject: [PATCH 119/123] fix: struts of segmented pupils are as wide as
 specified, not twice as wide

---
 falco/mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/mask.py b/falco/mask.py
index 62f5722..648ce5a 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -1602,7 +1602,7 @@ def falco_gen_pupil_customHex(inputs):
 
     # Create spiders
     if(wStrut > 0):
-        halfwidth = wStrut*2.*apRad
+        halfwidth = wStrut*apRad
         try:
             for ang in angStrutVec:
                 pupil = pupil*(1.-np.exp(-(RHO*np.sin(THETA-ang*np.pi/180.)/halfwidth)**hg_expon_spider) *
-- 
2.43.0


From 2c9bd51dfc0564085cb706258f057e5fb17d00e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:03 +0000
Subject: [PATCH 120/123] fix: segmented mirrors reflect off the segments that
 are there, with their pistons and tilts

---
 falco/hexsegmirror.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/falco/hexsegmirror.py b/falco/hexsegmirror.py
index d4b3b43..fded5ab 100644
--- a/falco/hexsegmirror.py
+++ b/falco/hexsegmirror.py
@@ -73,7 +73,8 @@ def add_hex_segment( centerRow, centerColumn, numRings, apDia, wGap, piston, til
 #            *np.exp(1i*2*pi*piston)
 #            *np.exp(1i*2*pi*tiltx/apDia*(X-centerColumn))
 #            *np.exp(1i*2*pi*tilty/apDia*(Y-centerRow))
-    HEXphz = 1.
+    HEXphz = np.exp(1j*2*np.pi*(piston + tiltx/apDia*(X-centerColumn) +
+                                tilty/apDia*(Y-centerRow)))
             
     return arrayIn + HEXamp*HEXphz
 
@@ -104,7 +105,7 @@ def get_field( hexMirrorDict ):
         missingSegments = np.ones(count_segments( numRings ),)
     
     N1 = 2**falco.util.nextpow2(apDia)
-    OUT = np.zeros((N1,N1))
+    OUT = np.zeros((N1,N1), dtype=complex)
     
     hexFlatDiam = (apDia-numRings*2*wGap)/(2*numRings+1)
     hexSep = hexFlatDiam + wGap
@@ -115,7 +116,7 @@ def get_field( hexMirrorDict ):
         cenrow = ringNum*hexSep
         cencol = 0
         
-        if(missingSegments[segNum]==0):
+        if(missingSegments[segNum]==1):
             OUT = add_hex_segment( cenrow, cencol, numRings, apDia, 
                                              wGap, pistons[segNum], tiltxs[segNum], tiltys[segNum], OUT)
         segNum = segNum + 1
@@ -135,7 +136,7 @@ def get_field( hexMirrorDict ):
                     #%disp(['Finished ring ',num2str(ringNum)]);
                     pass
                 else:
-                    if(missingSegments[segNum]==0):
+                    if(missingSegments[segNum]==1):
                         OUT = add_hex_segment( cenrow, cencol, numRings, apDia, 
                                                          wGap, pistons[segNum], tiltxs[segNum], tiltys[segNum], OUT);
                         pass
-- 
2.43.0


From caec0cf0f2098497231b3a489ab0d9740e778946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:04 +0000
Subject: [PATCH 121/123] fix: segmented pupils took angles for radii

---
 falco/mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falco/mask.py b/falco/mask.py
index 648ce5a..59f78e8 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -1584,7 +1584,7 @@ def falco_gen_pupil_customHex(inputs):
 
     # Create coordinates
     [X, Y] = np.meshgrid(np.arange(-N/2, N/2), np.arange(-N/2, N/2))
-    [THETA, RHO] = falco.util.cart2pol(X, Y)
+    [RHO, THETA] = falco.util.cart2pol(X, Y)
 
     inputs["apDia"] = inputs["Nbeam"]
     if('pistons' in inputs.keys()):
-- 
2.43.0


From eb4017c5c1019f39141d302ff692a6a9549e5b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:04 +0000
Subject: [PATCH 122/123] fix: the accuracy of bowtie focal-plane masks does
 not depend on the masks made before

---
 falco/mask.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/falco/mask.py b/falco/mask.py
index 59f78e8..1344c54 100644
--- a/falco/mask.py
+++ b/falco/mask.py
@@ -735,6 +735,7 @@ def falco_gen_bowtie_FPM(inputs):
     return gen_bowtie_fpm(inputs)
 
 
+@_restore_antialiasing
 def gen_bowtie_fpm(inputs):
     """
     Generate a bowtie FPM using PROPER.
@@ -785,6 +786,9 @@ def gen_bowtie_fpm(inputs):
     else:
         cshift = 0
 
+    # Same antialiasing as for annular focal-plane masks
+    proper.prop_set_antialiasing(101)
+
     # INITIALIZE PROPER. Note that:  bm.dx = diam / bdf / np;
     wf = proper.prop_begin(Dmask, wl_dummy, Narray, bdf)
 
-- 
2.43.0


From 2994027b47f222d63eb47033582658f78e9d071f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:47 +0000
Subject: [PATCH 123/123] fix: waves in media with n + ik are taken to leave
 the stack as before

---
 falco/thinfilm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/falco/thinfilm.py b/falco/thinfilm.py
index 22c5145..d7a4b3c 100644
--- a/falco/thinfilm.py
+++ b/falco/thinfilm.py
@@ -386,7 +386,8 @@ def solver(n, d0, theta, lam, tetm=False):
     kx = 2*np.pi*n[0]*np.sin(theta)/lam
     # sign agrees with measurement convention:
     kz = -np.sqrt((2*np.pi*n/lam)**2 - kx*kx)
-    kz[np.imag(kz) < 0] *= -1  # evanescent waves decay away from the interface
+    # evanescent waves in lossless media decay away from the interface
+    kz[(np.imag(kz) < 0) & (np.imag(n) == 0)] *= -1
 
     if tetm:
         kzz = kz/(n*n)
-- 
2.43.0

