From 2878f85dbe56a57f08f130bd84dff6e37411cae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:03 +0000
Subject: [PATCH 01/86] fix: compose the scale hand-off maps in the documented
 order when features change

---
 menpofit/fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index 63c9bf5..1ac5440 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -491,7 +491,7 @@ class MultiScaleNonParametricFitter(object):
                     #    S_{i+1} : scaling transform of next scale
                     #    A_i : affine transform of current scale
                     #    A_{i+1} : affine transform of next scale
-                    t1 = scale_transforms[i].compose_after(affine_transforms[i])
+                    t1 = affine_transforms[i].compose_after(scale_transforms[i])
                     t2 = affine_transforms[i + 1].pseudoinverse().compose_after(t1)
                     transform = scale_transforms[i + 1].pseudoinverse().compose_after(t2)
                     shape = transform.apply(shape)
-- 
2.43.0


From 17e33831725deab9eb22a30ab5cad0cc33eba3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:03 +0000
Subject: [PATCH 02/86] fix: reuse the previous scale's affine transform when
 its features are reused

---
 menpofit/fitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index 1ac5440..762dab3 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -373,8 +373,8 @@ class MultiScaleNonParametricFitter(object):
                     initial_shape))
             else:
                 # If features are not extracted, then the affine transform
-                # should be identical with the one of the first (lowest) level.
-                affine_transforms.append(affine_transforms[0])
+                # should be identical with the one of the previous level.
+                affine_transforms.append(affine_transforms[-1])
 
             # Rescale images according to scales
             if self.scales[i] != 1:
-- 
2.43.0


From afcf2a0de936c9ab8107c3eb8b86789bff96be74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 03/86] fix: record the reconstructed initial shape in
 parametric SDM results

---
 menpofit/sdm/algorithm/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/sdm/algorithm/base.py b/menpofit/sdm/algorithm/base.py
index 1bb8c1d..12104b3 100644
--- a/menpofit/sdm/algorithm/base.py
+++ b/menpofit/sdm/algorithm/base.py
@@ -574,7 +574,7 @@ def fit_parametric_shape(image, initial_shape, parametric_algorithm,
     parametric_algorithm.shape_model.set_target(initial_shape)
     current_shape = initial_shape.from_vector(
             parametric_algorithm.shape_model.target.as_vector().copy())
-    shapes = []
+    shapes = [current_shape]
     shape_parameters = [parametric_algorithm.shape_model.as_vector()]
 
     # Cascaded Regression loop
-- 
2.43.0


From abe050deaf743b0014271537f72db2fe0dda3f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 04/86] fix: do not subtract the reconstructions from
 LucasKanadeResult.n_iters twice

---
 menpofit/lk/result.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/menpofit/lk/result.py b/menpofit/lk/result.py
index 9a8309c..274cb74 100644
--- a/menpofit/lk/result.py
+++ b/menpofit/lk/result.py
@@ -84,8 +84,6 @@ class LucasKanadeResult(MultiScaleParametricIterativeResult):
         self._homogeneous_parameters = []
         for r in results:
             self._homogeneous_parameters += r.homogeneous_parameters
-        # Correct n_iters
-        self._n_iters -= len(scales)
 
     @property
     def homogeneous_parameters(self):
-- 
2.43.0


From 32456715182679f69c32a66942272d48b3f95ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 05/86] fix: use the normalize_norm method that current menpo
 provides in ECC

---
 menpofit/lk/residual.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/menpofit/lk/residual.py b/menpofit/lk/residual.py
index e8ce99b..0467f33 100755
--- a/menpofit/lk/residual.py
+++ b/menpofit/lk/residual.py
@@ -487,9 +487,7 @@ class ECC(Residual):
     def _normalise_images(self, image):
         # TODO: do we need to copy the image?
         # TODO: is this supposed to be per channel normalization?
-        norm_image = image.copy()
-        norm_image.normalize_norm_inplace()
-        return norm_image
+        return image.normalize_norm()
 
     def steepest_descent_images(self, image, dW_dp, forward=None):
         r"""
-- 
2.43.0


From fd0092dd68e07e477c4036ea2fcb3747ba60bf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 06/86] fix: pass a sequence to np.vstack when converting dlib
 detections

---
 menpofit/dlib/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/dlib/conversion.py b/menpofit/dlib/conversion.py
index 17f1356..9fcbc1f 100644
--- a/menpofit/dlib/conversion.py
+++ b/menpofit/dlib/conversion.py
@@ -12,7 +12,7 @@ def pointcloud_to_dlib_parts(pcloud):
 
 
 def dlib_full_object_detection_to_pointcloud(full_object_detection):
-    return PointCloud(np.vstack(all_parts(full_object_detection)), copy=False)
+    return PointCloud(np.vstack(list(all_parts(full_object_detection))), copy=False)
 
 
 def dlib_rect_to_bounding_box(rect):
-- 
2.43.0


From c13f578393111b38c02e37a0fa6b488950185993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:40 +0000
Subject: [PATCH 07/86] fix: make SupervisedDescentFitter's default algorithm
 usable (NonParametricNewton)

---
 menpofit/sdm/fitter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/menpofit/sdm/fitter.py b/menpofit/sdm/fitter.py
index 3bae879..0c97761 100644
--- a/menpofit/sdm/fitter.py
+++ b/menpofit/sdm/fitter.py
@@ -160,6 +160,8 @@ class SupervisedDescentFitter(MultiScaleNonParametricFitter):
         checks.check_diagonal(diagonal)
         scales = checks.check_scales(scales)
         n_scales = len(scales)
+        if sd_algorithm_cls is None:
+            sd_algorithm_cls = NonParametricNewton
         patch_features = checks.check_callable(patch_features, n_scales)
         sd_algorithm_cls = checks.check_callable(sd_algorithm_cls, n_scales)
         holistic_features = checks.check_callable(holistic_features, n_scales)
-- 
2.43.0


From 015b84bfa3c7e7857025253a265502e5e7c8c6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 08/86] fix: compute the cost of kernel-filtered SSD residuals

---
 menpofit/lk/residual.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/menpofit/lk/residual.py b/menpofit/lk/residual.py
index 0467f33..0ac19c7 100755
--- a/menpofit/lk/residual.py
+++ b/menpofit/lk/residual.py
@@ -296,9 +296,8 @@ class SSD(Residual):
                 return x.T.dot(x)
             else:
                 x = x.reshape((-1,) + k.shape[-2:])
-                kx = ifftn(k[..., None] * fftn(x, axes=(-2, -1)),
-                           axes=(-2, -1))
-                return x.ravel().T.dot(kx.ravel())
+                kx = ifftn(k * fftn(x, axes=(-2, -1)), axes=(-2, -1))
+                return np.real(x.ravel().T.dot(kx.ravel()))
         return cost_closure(self._error_img, self._kernel)
 
     def __str__(self):
@@ -465,9 +464,8 @@ class FourierSSD(Residual):
             if k is None:
                 return x.ravel().T.dot(x.ravel())
             else:
-                kx = ifftn(k[..., None] * fftn(x, axes=(-2, -1)),
-                           axes=(-2, -1))
-                return x.ravel().T.dot(kx.ravel())
+                kx = ifftn(k * fftn(x, axes=(-2, -1)), axes=(-2, -1))
+                return np.real(x.ravel().T.dot(kx.ravel()))
         return cost_closure(self._error_img, self._kernel)
 
     def __str__(self):
-- 
2.43.0


From e5ac764d78705d5dc434be97f2ec70da4babc9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 09/86] fix: compare the warped image with the template in
 GradientImages' forward algorithms

---
 menpofit/lk/residual.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/menpofit/lk/residual.py b/menpofit/lk/residual.py
index 0ac19c7..d1680d4 100755
--- a/menpofit/lk/residual.py
+++ b/menpofit/lk/residual.py
@@ -702,11 +702,11 @@ class GradientImages(Residual):
 
         # compute gradient
         first_grad = self.gradient(image, forward=forward)
-        self._template_grad = self._regularise_gradients(first_grad)
+        first_grad = self._regularise_gradients(first_grad)
 
         # compute gradient
         # second_grad:  dims x dims x ch x pixels
-        second_grad = self.gradient(self._template_grad)
+        second_grad = self.gradient(first_grad)
         second_grad = second_grad.masked_pixels().flatten().reshape(
             (n_dims, n_dims,  n_channels) + second_grad.shape)
 
@@ -788,10 +788,13 @@ class GradientImages(Residual):
         IWxp_grad = self.gradient(image)
         IWxp_grad = self._regularise_gradients(IWxp_grad)
 
+        # compute template regularized gradient
+        template_grad = self.gradient(template)
+        template_grad = self._regularise_gradients(template_grad)
+
         # compute vectorized error_image
         # error_img: (dims x ch x pixels)
-        self._error_img = (IWxp_grad.as_vector() -
-                           self._template_grad.as_vector())
+        self._error_img = IWxp_grad.as_vector() - template_grad.as_vector()
 
         # compute steepest descent update
         # sdi.T:      params x (dims x ch x pixels)
-- 
2.43.0


From efdb62222d4c0d2087ddba7d5506e454a70d651b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 10/86] fix: compare the warped image with the template in
 GradientCorrelation's forward algorithms

---
 menpofit/lk/residual.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/menpofit/lk/residual.py b/menpofit/lk/residual.py
index d1680d4..defcbf7 100755
--- a/menpofit/lk/residual.py
+++ b/menpofit/lk/residual.py
@@ -874,8 +874,8 @@ class GradientCorrelation(Residual):
         # cos_phi:        ch x pixels
         # sin_phi:        ch x pixels
         phi = np.angle(grad2[1, ...] + 1j * grad2[0, ...])
-        self._cos_phi = np.cos(phi)
-        self._sin_phi = np.sin(phi)
+        cos_phi = np.cos(phi)
+        sin_phi = np.sin(phi)
 
         # concatenate sin and cos terms so that we can take the second
         # derivatives correctly. sin(phi) = y and cos(phi) = x which is the
@@ -884,8 +884,8 @@ class GradientCorrelation(Residual):
         # sin_phi:         ch  x pixels
         # grad:    (dims x ch) x pixels
         grad.from_vector_inplace(
-            np.concatenate((self._sin_phi[None, ...],
-                            self._cos_phi[None, ...]), axis=0).ravel())
+            np.concatenate((sin_phi[None, ...],
+                            cos_phi[None, ...]), axis=0).ravel())
 
         # compute IGOs gradient
         # second_grad:  dims x dims x ch x pixels
@@ -898,8 +898,8 @@ class GradientCorrelation(Residual):
 
         # complete full IGOs gradient computation
         # second_grad:  dims x dims x ch x pixels
-        second_grad[1, ...] = (-self._sin_phi[None, ...] * second_grad[1, ...])
-        second_grad[0, ...] = (self._cos_phi[None, ...] * second_grad[0, ...])
+        second_grad[1, ...] = (-sin_phi[None, ...] * second_grad[1, ...])
+        second_grad[0, ...] = (cos_phi[None, ...] * second_grad[0, ...])
 
         # compute steepest descent images
         # gradient: dims x dims x ch x pixels
@@ -993,10 +993,18 @@ class GradientCorrelation(Residual):
         IWxp_cos_phi = np.cos(phi)
         IWxp_sin_phi = np.sin(phi)
 
+        # compute template IGOs in the same way
+        template_grad = self.gradient(template)
+        template_grad = template_grad.as_vector().reshape(
+            (n_dims, n_channels) + template.shape)
+        phi = np.angle(template_grad[1, ...] + 1j * template_grad[0, ...])
+        template_cos_phi = np.cos(phi)
+        template_sin_phi = np.sin(phi)
+
         # compute error image
         # error_img:  (ch x h x w)
-        self._error_img = (self._cos_phi * IWxp_sin_phi -
-                           self._sin_phi * IWxp_cos_phi).ravel()
+        self._error_img = (template_cos_phi * IWxp_sin_phi -
+                           template_sin_phi * IWxp_cos_phi).ravel()
 
         # compute steepest descent update
         # sdi:       (ch x pixels) x params
@@ -1005,8 +1013,8 @@ class GradientCorrelation(Residual):
         sdu = sdi.T.dot(self._error_img)
 
         # compute step size
-        qp = np.sum(self._cos_phi * IWxp_cos_phi +
-                    self._sin_phi * IWxp_sin_phi)
+        qp = np.sum(template_cos_phi * IWxp_cos_phi +
+                    template_sin_phi * IWxp_sin_phi)
         self._l = self._N / qp
         return self._l * sdu
 
-- 
2.43.0


From df6faeed2d73f9e9e2b92b961425d24c56e6ff15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 11/86] fix: do not add the MAP prior to the precomputed
 Hessian in place

---
 menpofit/aam/algorithm/lk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/aam/algorithm/lk.py b/menpofit/aam/algorithm/lk.py
index 5c0de21..cdef28a 100644
--- a/menpofit/aam/algorithm/lk.py
+++ b/menpofit/aam/algorithm/lk.py
@@ -14,7 +14,7 @@ def _solve_all_map(H, J, e, Ja_prior, c, Js_prior, p, m, n):
         p = np.hstack((p, p))
         # compute and return MAP solution
     J_prior = np.hstack((Ja_prior, Js_prior))
-    H += np.diag(J_prior)
+    H = H + np.diag(J_prior)
     Je = J_prior * np.hstack((c, p)) + J.T.dot(e)
     dq = - np.linalg.solve(H, Je)
     return dq[:m], dq[m:]
@@ -229,7 +229,7 @@ class LucasKanadeBaseInterface(object):
             J_prior = np.hstack((J_prior, J_prior))
             p = np.hstack((p, p))
         # compute and return MAP solution
-        H += np.diag(J_prior)
+        H = H + np.diag(J_prior)
         Je = J_prior * p + J.T.dot(e)
         return - np.linalg.solve(H, Je)
 
-- 
2.43.0


From fbc192a24223715a05bd04d1e4730e083366eaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 12/86] fix: compare parameter counts by value in the MAP
 solvers

---
 menpofit/aam/algorithm/lk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/aam/algorithm/lk.py b/menpofit/aam/algorithm/lk.py
index cdef28a..0875b42 100644
--- a/menpofit/aam/algorithm/lk.py
+++ b/menpofit/aam/algorithm/lk.py
@@ -8,7 +8,7 @@ from ..result import AAMAlgorithmResult
 
 
 def _solve_all_map(H, J, e, Ja_prior, c, Js_prior, p, m, n):
-    if n is not H.shape[0] - m:
+    if n != H.shape[0] - m:
         # Bidirectional Compositional case
         Js_prior = np.hstack((Js_prior, Js_prior))
         p = np.hstack((p, p))
@@ -224,7 +224,7 @@ class LucasKanadeBaseInterface(object):
         params : ``(n_params, )`` `ndarray`
             The MAP solution.
         """
-        if p.shape[0] is not H.shape[0]:
+        if p.shape[0] != H.shape[0]:
             # Bidirectional Compositional case
             J_prior = np.hstack((J_prior, J_prior))
             p = np.hstack((p, p))
-- 
2.43.0


From 080b3fc6e5beb4fdd21053c058ac44b76dd2ff5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 13/86] fix: project with the right orientation of the
 appearance basis in Alternating MAP inference

---
 menpofit/aam/algorithm/lk.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/menpofit/aam/algorithm/lk.py b/menpofit/aam/algorithm/lk.py
index 0875b42..b49ceaf 100644
--- a/menpofit/aam/algorithm/lk.py
+++ b/menpofit/aam/algorithm/lk.py
@@ -1206,7 +1206,8 @@ class Alternating(LucasKanade):
         while k < max_iters and eps > self.eps:
             # solve for increment on the appearance parameters
             if map_inference:
-                Ae_m_map = - self.s2_inv_S * c + self.A_m.dot(e_m + Jdp)
+                Ae_m_map = (- self.s2_inv_S * c +
+                            self.A_m.T.dot(e_m + Jdp))
                 dc = np.linalg.solve(self.AA_m_map, Ae_m_map)
             else:
                 dc = self.pinv_A_m.dot(e_m + Jdp)
@@ -1218,7 +1219,7 @@ class Alternating(LucasKanade):
             # solve for increments on the shape parameters
             if map_inference:
                 self.dp = self.interface.solve_shape_map(
-                    H_m, J_m, e_m - self.A_m.T.dot(dc), self.s2_inv_L,
+                    H_m, J_m, e_m - self.A_m.dot(dc), self.s2_inv_L,
                     self.transform.as_vector())
             else:
                 self.dp = self.interface.solve_shape_ml(H_m, J_m,
-- 
2.43.0


From d9020c05b6e3c76fe2135d00fddd06aff9f005a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 14/86] fix: put no prior on the global similarity parameters
 in AAM and ATM MAP inference

---
 menpofit/aam/algorithm/lk.py | 2 +-
 menpofit/atm/algorithm.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/aam/algorithm/lk.py b/menpofit/aam/algorithm/lk.py
index b49ceaf..c595ec5 100644
--- a/menpofit/aam/algorithm/lk.py
+++ b/menpofit/aam/algorithm/lk.py
@@ -773,7 +773,7 @@ class LucasKanade(object):
         sm_noise_variance = self.interface.shape_model.noise_variance() or 1
         s2 = self.appearance_model.noise_variance() / sm_noise_variance
         L = self.interface.shape_model.eigenvalues
-        self.s2_inv_L = np.hstack((np.ones((4,)), s2 / L))
+        self.s2_inv_L = np.hstack((np.zeros((4,)), s2 / L))
         # compute appearance model prior
         S = self.appearance_model.eigenvalues
         self.s2_inv_S = s2 / S
diff --git a/menpofit/atm/algorithm.py b/menpofit/atm/algorithm.py
index 39b3db8..d6746c8 100644
--- a/menpofit/atm/algorithm.py
+++ b/menpofit/atm/algorithm.py
@@ -213,7 +213,7 @@ class LucasKanade(object):
         noise_variance = self.interface.shape_model.noise_variance() or 1
         s2 = 1.0 / noise_variance
         L = self.interface.shape_model.eigenvalues
-        self.s2_inv_L = np.hstack((np.ones((4,)), s2 / L))
+        self.s2_inv_L = np.hstack((np.zeros((4,)), s2 / L))
 
 
 class Compositional(LucasKanade):
-- 
2.43.0


From cc27bb2d663bfbac977679ecbbcb4cd1bfc9ee3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 15/86] fix: give the MAP prior of inverse compositional AAM
 and ATM fitting the sign of its update

---
 menpofit/aam/algorithm/lk.py | 36 ++++++++++++++++++++++++++++++------
 menpofit/atm/algorithm.py    |  2 +-
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/menpofit/aam/algorithm/lk.py b/menpofit/aam/algorithm/lk.py
index c595ec5..b39d33f 100644
--- a/menpofit/aam/algorithm/lk.py
+++ b/menpofit/aam/algorithm/lk.py
@@ -778,6 +778,10 @@ class LucasKanade(object):
         S = self.appearance_model.eigenvalues
         self.s2_inv_S = s2 / S
 
+    def _map_parameters(self):
+        # shape parameters as seen by the increments, which are added to them
+        return self.transform.as_vector()
+
 
 class ProjectOut(LucasKanade):
     r"""
@@ -905,7 +909,7 @@ class ProjectOutForwardCompositional(ProjectOut):
         if map_inference:
             return self.interface.solve_shape_map(
                 JQJ_m, QJ_m, self.e_m,  self.s2_inv_L,
-                self.transform.as_vector())
+                self._map_parameters())
         else:
             return self.interface.solve_shape_ml(JQJ_m, QJ_m, self.e_m)
 
@@ -941,10 +945,14 @@ class ProjectOutInverseCompositional(ProjectOut):
         if map_inference:
             return self.interface.solve_shape_map(
                 self.JQJ_m, self.QJ_m, self.e_m, self.s2_inv_L,
-                self.transform.as_vector())
+                self._map_parameters())
         else:
             return -self.pinv_QJ_m.dot(self.e_m)
 
+    def _map_parameters(self):
+        # the increments are subtracted from the shape parameters
+        return -self.transform.as_vector()
+
     def _update_warp(self):
         # update warp based on inverse composition
         self.transform._from_vector_inplace(
@@ -1080,7 +1088,7 @@ class Simultaneous(LucasKanade):
         if map_inference:
             return self.interface.solve_all_map(
                 H_sim_m, J_sim_m, self.e_m, self.s2_inv_S, self.c,
-                self.s2_inv_L, self.transform.as_vector())
+                self.s2_inv_L, self._map_parameters())
         else:
             return self.interface.solve_all_ml(H_sim_m, J_sim_m, self.e_m)
 
@@ -1114,6 +1122,10 @@ class SimultaneousInverseCompositional(Simultaneous):
         # return inverse Jacobian
         return self.interface.steepest_descent_images(-nabla_a, self.dW_dp)
 
+    def _map_parameters(self):
+        # the increments are subtracted from the shape parameters
+        return -self.transform.as_vector()
+
     def _update_warp(self):
         # update warp based on inverse composition
         self.transform._from_vector_inplace(
@@ -1220,7 +1232,7 @@ class Alternating(LucasKanade):
             if map_inference:
                 self.dp = self.interface.solve_shape_map(
                     H_m, J_m, e_m - self.A_m.dot(dc), self.s2_inv_L,
-                    self.transform.as_vector())
+                    self._map_parameters())
             else:
                 self.dp = self.interface.solve_shape_ml(H_m, J_m,
                                                         e_m - self.A_m.dot(dc))
@@ -1294,6 +1306,10 @@ class AlternatingInverseCompositional(Alternating):
         # return inverse Jacobian
         return self.interface.steepest_descent_images(-nabla_a, self.dW_dp)
 
+    def _map_parameters(self):
+        # the increments are subtracted from the shape parameters
+        return -self.transform.as_vector()
+
     def _update_warp(self):
         # update warp based on inverse composition
         self.transform._from_vector_inplace(
@@ -1387,7 +1403,7 @@ class ModifiedAlternating(Alternating):
             # solve for increments on the shape parameters
             if map_inference:
                 self.dp = self.interface.solve_shape_map(
-                    H_m, J_m, e_m, self.s2_inv_L, self.transform.as_vector())
+                    H_m, J_m, e_m, self.s2_inv_L, self._map_parameters())
             else:
                 self.dp = self.interface.solve_shape_ml(H_m, J_m, e_m)
 
@@ -1457,6 +1473,10 @@ class ModifiedAlternatingInverseCompositional(ModifiedAlternating):
         # return inverse Jacobian
         return self.interface.steepest_descent_images(-nabla_a, self.dW_dp)
 
+    def _map_parameters(self):
+        # the increments are subtracted from the shape parameters
+        return -self.transform.as_vector()
+
     def _update_warp(self):
         # update warp based on inverse composition
         self.transform._from_vector_inplace(
@@ -1554,7 +1574,7 @@ class Wiberg(LucasKanade):
             if map_inference:
                 self.dp = self.interface.solve_shape_map(
                     JQJ_m, QJ_m, e_m, self.s2_inv_L,
-                    self.transform.as_vector())
+                    self._map_parameters())
             else:
                 self.dp = self.interface.solve_shape_ml(JQJ_m, QJ_m, e_m)
 
@@ -1625,6 +1645,10 @@ class WibergInverseCompositional(Wiberg):
         # return inverse Jacobian
         return self.interface.steepest_descent_images(-nabla_a, self.dW_dp)
 
+    def _map_parameters(self):
+        # the increments are subtracted from the shape parameters
+        return -self.transform.as_vector()
+
     def _update_warp(self):
         # update warp based on inverse composition
         self.transform._from_vector_inplace(
diff --git a/menpofit/atm/algorithm.py b/menpofit/atm/algorithm.py
index d6746c8..adea9d3 100644
--- a/menpofit/atm/algorithm.py
+++ b/menpofit/atm/algorithm.py
@@ -365,7 +365,7 @@ class InverseCompositional(Compositional):
         if map_inference:
             return self.interface.solve_shape_map(
                 self.JJ_m, self.J_m, self.e_m, self.s2_inv_L,
-                self.transform.as_vector())
+                -self.transform.as_vector())
         else:
             return -self.pinv_J_m.dot(self.e_m)
 
-- 
2.43.0


From 747e2a1dccf9423fd0f2c5aae1b9bafb315ac12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 16/86] fix: import Iterable from collections.abc

---
 menpofit/checks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/checks.py b/menpofit/checks.py
index 96c944b..15a4551 100644
--- a/menpofit/checks.py
+++ b/menpofit/checks.py
@@ -1,5 +1,5 @@
 import warnings
-import collections
+from collections.abc import Iterable
 from functools import partial
 import numpy as np
 
@@ -151,7 +151,7 @@ def check_multi_scale_param(n_scales, types, param_name, param):
     # Could be a single value - or we have an error
     if isinstance(param, types):
         return [param] * n_scales
-    elif not isinstance(param, collections.Iterable):
+    elif not isinstance(param, Iterable):
         raise ValueError(error_msg)
 
     # Must be an iterable object
-- 
2.43.0


From 8e6f6a7ae008db1b4b45d580971d00be035e5ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 17/86] fix: reject scales, callables and algorithm classes
 that are not sequences with ValueError

---
 menpofit/checks.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/menpofit/checks.py b/menpofit/checks.py
index 15a4551..c402cbc 100644
--- a/menpofit/checks.py
+++ b/menpofit/checks.py
@@ -107,6 +107,9 @@ def check_scales(scales):
     """
     if isinstance(scales, (int, float)):
         return [scales]
+    elif not isinstance(scales, (list, tuple)):
+        raise ValueError("scales must be an int/float or a list/tuple of "
+                         "int/float")
     elif len(scales) == 1 and isinstance(scales[0], (int, float)):
         return list(scales)
     elif len(scales) > 1:
@@ -190,6 +193,10 @@ def check_callable(callables, n_scales):
     """
     if callable(callables):
         return [callables] * n_scales
+    elif not isinstance(callables, (list, tuple)):
+        raise ValueError("callables must be a callable or a list/tuple of "
+                         "callables with the same length as the number "
+                         "of scales")
     elif len(callables) == 1 and np.alltrue([callable(f) for f in callables]):
         return list(callables) * n_scales
     elif len(callables) == n_scales and np.alltrue([callable(f)
@@ -446,6 +453,12 @@ def check_algorithm_cls(algorithm_cls, n_scales, base_algorithm_cls):
     elif (isinstance(algorithm_cls, type) and
           base_algorithm_cls in algorithm_cls.mro()):
         return [algorithm_cls] * n_scales
+    elif not isinstance(algorithm_cls, (list, tuple)):
+        raise ValueError("algorithm_cls must be a subclass of {} or a "
+                         "list/tuple of {} subclasses with the same length "
+                         "as the number of scales {}"
+                         .format(base_algorithm_cls, base_algorithm_cls,
+                                 n_scales))
     elif len(algorithm_cls) == 1:
         return check_algorithm_cls(algorithm_cls[0], n_scales,
                                    base_algorithm_cls)
-- 
2.43.0


From 535a117f11ca3436b86f9673173b3312ea551cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 18/86] fix: give every scale a patch shape when a one-entry
 list is provided

---
 menpofit/checks.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/menpofit/checks.py b/menpofit/checks.py
index c402cbc..c0589d8 100644
--- a/menpofit/checks.py
+++ b/menpofit/checks.py
@@ -230,14 +230,18 @@ def check_patch_shape(patch_shape, n_scales):
         patch_shape must be a list/tuple of int or a list/tuple of lit/tuple of
         int/float with the same length as the number of scales
     """
-    if len(patch_shape) == 2 and isinstance(patch_shape[0], int):
+    def is_single(p):
+        return (isinstance(p, (list, tuple)) and len(p) == 2 and
+                all(isinstance(v, (int, float)) for v in p))
+
+    if is_single(patch_shape):
         return [patch_shape] * n_scales
-    elif len(patch_shape) == 1:
-        return check_patch_shape(patch_shape[0], 1)
-    elif len(patch_shape) == n_scales:
-        l1 = check_patch_shape(patch_shape[0], 1)
-        l2 = check_patch_shape(patch_shape[1:], n_scales-1)
-        return l1 + l2
+    elif (isinstance(patch_shape, (list, tuple)) and
+          len(patch_shape) in (1, n_scales) and
+          all(is_single(p) for p in patch_shape)):
+        if len(patch_shape) == 1:
+            return list(patch_shape) * n_scales
+        return list(patch_shape)
     else:
         raise ValueError("patch_shape must be a list/tuple of int or a "
                          "list/tuple of lit/tuple of int/float with the "
-- 
2.43.0


From 0aae66f0c9f4981c2063b0ffbf069d98eee89194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 19/86] fix: check the range of max_components and do not
 return the caller's list

---
 menpofit/checks.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/menpofit/checks.py b/menpofit/checks.py
index c0589d8..aab0986 100644
--- a/menpofit/checks.py
+++ b/menpofit/checks.py
@@ -282,14 +282,16 @@ def check_max_components(max_components, n_scales, var_name):
     elif len(max_components) == 1:
         max_components_list = [max_components[0]] * n_scales
     elif len(max_components) == n_scales:
-        max_components_list = max_components
+        max_components_list = list(max_components)
     else:
         raise ValueError(str_error)
     for comp in max_components_list:
         if comp is not None:
-            if not isinstance(comp, int):
-                if not isinstance(comp, float):
+            if isinstance(comp, int):
+                if comp <= 0:
                     raise ValueError(str_error)
+            elif not isinstance(comp, float) or not 0. <= comp <= 1.:
+                raise ValueError(str_error)
     return max_components_list
 
 
-- 
2.43.0


From 5509207cdc896265cded7167baee639cf3db05bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 20/86] fix: reject max_iters that are neither integers nor
 lists with ValueError

---
 menpofit/checks.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/menpofit/checks.py b/menpofit/checks.py
index aab0986..6963b9e 100644
--- a/menpofit/checks.py
+++ b/menpofit/checks.py
@@ -316,9 +316,14 @@ def check_max_iters(max_iters, n_scales):
     ------
     ValueError
         max_iters can be integer, integer list containing 1 or {n_scales}
-        elements or None
+        elements
     """
-    if type(max_iters) is int:
+    if (not isinstance(max_iters, (int, np.integer, list, tuple, np.ndarray)) or
+            not all(isinstance(m, (int, float, np.number))
+                    for m in np.atleast_1d(np.array(max_iters, dtype=object)))):
+        raise ValueError('max_iters can be integer, integer list '
+                         'containing 1 or {} elements'.format(n_scales))
+    if isinstance(max_iters, (int, np.integer)):
         max_iters = [np.round(max_iters/n_scales)
                      for _ in range(n_scales)]
     elif len(max_iters) == 1 and n_scales > 1:
@@ -326,8 +331,7 @@ def check_max_iters(max_iters, n_scales):
                      for _ in range(n_scales)]
     elif len(max_iters) != n_scales:
         raise ValueError('max_iters can be integer, integer list '
-                         'containing 1 or {} elements or '
-                         'None'.format(n_scales))
+                         'containing 1 or {} elements'.format(n_scales))
     return np.require(max_iters, dtype=np.int64)
 
 
-- 
2.43.0


From 0d74ebd3c88da3903b57312298304db61b93d5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 21/86] fix: accept integer sampling steps and per-scale lists
 containing None

---
 menpofit/aam/algorithm/lk.py | 6 +++++-
 menpofit/aps/algorithm/gn.py | 4 ++++
 menpofit/checks.py           | 9 +++++----
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/menpofit/aam/algorithm/lk.py b/menpofit/aam/algorithm/lk.py
index b39d33f..b1b6914 100644
--- a/menpofit/aam/algorithm/lk.py
+++ b/menpofit/aam/algorithm/lk.py
@@ -58,7 +58,7 @@ class LucasKanadeBaseInterface(object):
 
         if sampling is None:
             sampling = range(0, n_true_pixels, 1)
-        elif isinstance(sampling, np.int64):
+        elif isinstance(sampling, (int, np.integer)):
             sampling = range(0, n_true_pixels, sampling)
 
         sampling_mask[sampling] = 1
@@ -474,6 +474,10 @@ class LucasKanadePatchBaseInterface(LucasKanadeBaseInterface):
     def _build_sampling_mask(self, sampling):
         if sampling is None:
             sampling = np.ones(self.patch_shape, dtype=bool)
+        elif isinstance(sampling, (int, np.integer)):
+            step = sampling
+            sampling = np.zeros(self.patch_shape, dtype=bool)
+            sampling.flat[::step] = True
 
         image_shape = self.template.pixels.shape
         image_mask = np.tile(sampling[None, None, None, ...],
diff --git a/menpofit/aps/algorithm/gn.py b/menpofit/aps/algorithm/gn.py
index b6d6624..f90a9fb 100644
--- a/menpofit/aps/algorithm/gn.py
+++ b/menpofit/aps/algorithm/gn.py
@@ -54,6 +54,10 @@ class GaussNewtonBaseInterface(object):
     def _build_sampling_mask(self, sampling):
         if sampling is None:
             sampling = np.ones(self.patch_shape, dtype=bool)
+        elif isinstance(sampling, (int, np.integer)):
+            step = sampling
+            sampling = np.zeros(self.patch_shape, dtype=bool)
+            sampling.flat[::step] = True
 
         image_shape = self.template.pixels.shape
         image_mask = np.tile(sampling[None, None, None, ...],
diff --git a/menpofit/checks.py b/menpofit/checks.py
index 6963b9e..9cbb1a5 100644
--- a/menpofit/checks.py
+++ b/menpofit/checks.py
@@ -361,17 +361,18 @@ def check_sampling(sampling, n_scales):
         containing 1 or {n_scales} elements or None
     """
     if (isinstance(sampling, (list, tuple)) and
-        np.alltrue([isinstance(s, (np.ndarray, np.int64)) or sampling is None
+        np.alltrue([isinstance(s, (np.ndarray, int, np.integer)) or s is None
                     for s in sampling])):
         if len(sampling) == 1:
-            return sampling * n_scales
+            return list(sampling) * n_scales
         elif len(sampling) == n_scales:
-            return sampling
+            return list(sampling)
         else:
             raise ValueError('A sampling list can only '
                              'contain 1 element or {} '
                              'elements'.format(n_scales))
-    elif isinstance(sampling, (np.ndarray, np.int64)) or sampling is None:
+    elif (isinstance(sampling, (np.ndarray, int, np.integer)) or
+          sampling is None):
         return [sampling] * n_scales
     else:
         raise ValueError('sampling can be an integer or ndarray, '
-- 
2.43.0


From 6f4ebaebbddf847d77dcc3ec57f9ff3481802fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 22/86] fix: do not change any model when the requested number
 of components is invalid

---
 menpofit/checks.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/menpofit/checks.py b/menpofit/checks.py
index 9cbb1a5..d044c49 100644
--- a/menpofit/checks.py
+++ b/menpofit/checks.py
@@ -401,18 +401,27 @@ def set_models_components(models, n_components):
     if n_components is not None:
         n_scales = len(models)
         if type(n_components) is int or type(n_components) is float:
-            for am in models:
-                am.n_active_components = n_components
-        elif len(n_components) == 1 and n_scales > 1:
-            for am in models:
-                am.n_active_components = n_components[0]
-        elif len(n_components) == n_scales:
-            for am, n in zip(models, n_components):
-                am.n_active_components = n
-        else:
+            n_components = [n_components] * n_scales
+        elif (isinstance(n_components, (list, tuple)) and
+              len(n_components) == 1):
+            n_components = list(n_components) * n_scales
+        if (not isinstance(n_components, (list, tuple)) or
+                len(n_components) != n_scales or
+                not all(n is None or isinstance(n, (int, float, np.number))
+                        for n in n_components)):
             raise ValueError('n_components can be an integer or a float '
                              'or None or a list containing 1 or {} of '
                              'those'.format(n_scales))
+        previous = [am.n_active_components for am in models]
+        try:
+            for am, n in zip(models, n_components):
+                if n is not None:
+                    am.n_active_components = n
+        except ValueError:
+            # leave the models as they were found
+            for am, n in zip(models, previous):
+                am.n_active_components = n
+            raise
 
 
 def check_model(model, cls):
-- 
2.43.0


From 40237dd00434875631f74c2ceddf14219c406f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 23/86] fix: do not return the caller's list of graphs

---
 menpofit/checks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/checks.py b/menpofit/checks.py
index d044c49..9d1c216 100644
--- a/menpofit/checks.py
+++ b/menpofit/checks.py
@@ -527,7 +527,7 @@ def check_graph(graph, graph_types, param_name, n_scales):
     elif len(graph) == 1:
         graphs = graph * n_scales
     elif len(graph) == n_scales:
-        graphs = graph
+        graphs = list(graph)
     else:
         raise ValueError('{} must be a list of length equal to the number of '
                          'scales.'.format(param_name))
-- 
2.43.0


From d05577365035a13924c5eb5a0ad80717b18c14ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 24/86] fix: accept a single scale value in CLM and ATM

---
 menpofit/atm/base.py | 11 +++++++----
 menpofit/clm/base.py |  2 +-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/menpofit/atm/base.py b/menpofit/atm/base.py
index 72cbadd..e5c8919 100644
--- a/menpofit/atm/base.py
+++ b/menpofit/atm/base.py
@@ -119,8 +119,8 @@ class ATM(object):
     ):
         # Check arguments
         checks.check_diagonal(diagonal)
-        n_scales = len(scales)
         scales = checks.check_scales(scales)
+        n_scales = len(scales)
         holistic_features = checks.check_callable(holistic_features, n_scales)
         max_shape_components = checks.check_max_components(
             max_shape_components, n_scales, "max_shape_components"
@@ -537,7 +537,8 @@ class MaskedATM(ATM):
         batch_size=None,
     ):
         # Check arguments
-        self.patch_shape = checks.check_patch_shape(patch_shape, len(scales))
+        self.patch_shape = checks.check_patch_shape(
+            patch_shape, len(checks.check_scales(scales)))
         # Call superclass
         super(MaskedATM, self).__init__(
             template,
@@ -821,7 +822,8 @@ class LinearMaskedATM(ATM):
         batch_size=None,
     ):
         # Check arguments
-        self.patch_shape = checks.check_patch_shape(patch_shape, len(scales))
+        self.patch_shape = checks.check_patch_shape(
+            patch_shape, len(checks.check_scales(scales)))
         # Call superclass
         super(LinearMaskedATM, self).__init__(
             template,
@@ -986,7 +988,8 @@ class PatchATM(ATM):
         batch_size=None,
     ):
         # Check arguments
-        self.patch_shape = checks.check_patch_shape(patch_shape, len(scales))
+        self.patch_shape = checks.check_patch_shape(
+            patch_shape, len(checks.check_scales(scales)))
         self.patch_normalisation = patch_normalisation
         # Call superclass
         super(PatchATM, self).__init__(
diff --git a/menpofit/clm/base.py b/menpofit/clm/base.py
index dab51f4..b7bf887 100644
--- a/menpofit/clm/base.py
+++ b/menpofit/clm/base.py
@@ -126,7 +126,7 @@ class CLM(object):
         batch_size=None,
     ):
         self.scales = checks.check_scales(scales)
-        n_scales = len(scales)
+        n_scales = len(self.scales)
         self.diagonal = checks.check_diagonal(diagonal)
         self.holistic_features = checks.check_callable(holistic_features, n_scales)
         self.expert_ensemble_cls = checks.check_callable(expert_ensemble_cls, n_scales)
-- 
2.43.0


From 1ae57b5c5dfaf6fdd8d757df3c94d59b9c8aca49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 25/86] fix: compute error statistics of plain lists

---
 menpofit/error/stats.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/menpofit/error/stats.py b/menpofit/error/stats.py
index b1a76fd..2af5593 100644
--- a/menpofit/error/stats.py
+++ b/menpofit/error/stats.py
@@ -25,6 +25,7 @@ def compute_cumulative_error(errors, bins):
     ced : `list` of `float`
         The computed CED.
     """
+    errors = np.asarray(errors)
     n_errors = len(errors)
     return [np.count_nonzero([errors <= x]) / n_errors for x in bins]
 
@@ -43,6 +44,7 @@ def mad(errors):
     mad : `float`
         The median absolute deviation value.
     """
+    errors = np.asarray(errors)
     med = np.median(errors)
     return np.median(np.abs(errors - med))
 
-- 
2.43.0


From bd4bef2c8cf9390a4c0915a35ecc63315fcfa1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 26/86] fix: keep rounding from adding an error bin beyond
 max_error

---
 menpofit/error/stats.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/menpofit/error/stats.py b/menpofit/error/stats.py
index 2af5593..4125a00 100644
--- a/menpofit/error/stats.py
+++ b/menpofit/error/stats.py
@@ -73,7 +73,9 @@ def area_under_curve_and_failure_rate(errors, step_error, max_error,
     fr : `float`
         The Failure Rate value.
     """
-    x_axis = list(np.arange(min_error, max_error + step_error, step_error))
+    # the small margin keeps rounding from adding a bin beyond max_error
+    x_axis = list(np.arange(min_error, max_error + (1 - 1e-6) * step_error,
+                            step_error))
     ced = np.array(compute_cumulative_error(errors, x_axis))
     return simps(ced, x=x_axis) / max_error, 1. - ced[-1]
 
-- 
2.43.0


From 5e2685c6389e0bc30b12aeeb818af6feed8e6b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 27/86] fix: accept arrays of errors in statistics tables and
 CED plots; use the full name of pandas' precision option

---
 menpofit/visualize/base.py      | 2 +-
 menpofit/visualize/textutils.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/menpofit/visualize/base.py b/menpofit/visualize/base.py
index 8cb5b65..9ae9ecb 100644
--- a/menpofit/visualize/base.py
+++ b/menpofit/visualize/base.py
@@ -771,7 +771,7 @@ def plot_cumulative_error_distribution(
     from menpo.visualize import plot_curve
 
     # make sure that errors is a list even with one list member
-    if not isinstance(errors[0], list):
+    if not isinstance(errors[0], (list, tuple, np.ndarray)):
         errors = [errors]
 
     # create x and y axes lists
diff --git a/menpofit/visualize/textutils.py b/menpofit/visualize/textutils.py
index 99f8efa..19ead49 100644
--- a/menpofit/visualize/textutils.py
+++ b/menpofit/visualize/textutils.py
@@ -196,7 +196,7 @@ def statistics_table(errors, method_names, auc_max_error, auc_error_step,
     import pandas as pn
 
     # Make sure errors is a list of lists
-    if not isinstance(errors[0], list):
+    if not isinstance(errors[0], (list, tuple, np.ndarray)):
         errors = [errors]
 
     # Compute statistics
@@ -254,6 +254,6 @@ def statistics_table(errors, method_names, auc_max_error, auc_error_step,
                         inplace=True, ascending=ascending)
 
     # Set precision
-    pn.set_option('precision', precision)
+    pn.set_option('display.precision', precision)
 
     return tab
-- 
2.43.0


From c9843b320649e50e400baf36e9c016e2a8d80e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:11 +0000
Subject: [PATCH 28/86] fix: let the error normalisers take the point clouds
 they document

---
 menpofit/error/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/menpofit/error/base.py b/menpofit/error/base.py
index acfc3b8..b8a65e7 100644
--- a/menpofit/error/base.py
+++ b/menpofit/error/base.py
@@ -19,6 +19,7 @@ def pointcloud_to_points(wrapped):
 
 
 # BOUNDING BOX NORMALISERS
+@pointcloud_to_points
 def bb_area(shape):
     r"""
     Computes the area of the bounding box of the provided shape,
@@ -44,6 +45,7 @@ def bb_area(shape):
     return height * width
 
 
+@pointcloud_to_points
 def bb_perimeter(shape):
     r"""
     Computes the perimeter of the bounding box of the provided shape, i.e.
@@ -68,6 +70,7 @@ def bb_perimeter(shape):
     return 2 * (height + width)
 
 
+@pointcloud_to_points
 def bb_avg_edge_length(shape):
     r"""
     Computes the average edge length of the bounding box of the provided shape,
@@ -93,6 +96,7 @@ def bb_avg_edge_length(shape):
     return 0.5 * (height + width)
 
 
+@pointcloud_to_points
 def bb_diagonal(shape):
     r"""
     Computes the diagonal of the bounding box of the provided shape, i.e.
@@ -182,6 +186,7 @@ def euclidean_error(shape, gt_shape):
 
 
 # DISTANCE NORMALISER
+@pointcloud_to_points
 def distance_two_indices(index1, index2, shape):
     r"""
     Computes the Euclidean distance between two points of a shape, i.e.
-- 
2.43.0


From c8e80b7b1d57cf6a5305dd896f0d94ebc9cdd63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 29/86] fix: find the eyes through the labelled shape that
 current menpo returns in the pupil errors

---
 menpofit/error/human/face.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/menpofit/error/human/face.py b/menpofit/error/human/face.py
index 5aa7f55..fcbcf7a 100644
--- a/menpofit/error/human/face.py
+++ b/menpofit/error/human/face.py
@@ -80,9 +80,10 @@ def mean_pupil_68_error(shape, gt_shape):
         raise ValueError('Ground truth shape must have 68 points')
 
     def pupil_dist(_, s):
-        _, mapping = face_ibug_68_to_face_ibug_68(s, include_mapping=True)
-        return euclidean_error(np.mean(s[mapping['left_eye']], axis=0),
-                               np.mean(s[mapping['right_eye']], axis=0))
+        labelled = face_ibug_68_to_face_ibug_68(PointCloud(s))
+        return euclidean_error(
+            np.mean(labelled.get_label('left_eye').points, axis=0),
+            np.mean(labelled.get_label('right_eye').points, axis=0))
     return distance_normalised_error(euclidean_error, pupil_dist, shape,
                                      gt_shape)
 
@@ -134,9 +135,10 @@ def mean_pupil_49_error(shape, gt_shape):
                          'points')
 
     def pupil_dist(_, s):
-        _, mapping = face_ibug_49_to_face_ibug_49(s, include_mapping=True)
-        return euclidean_error(np.mean(s[mapping['left_eye']], axis=0),
-                               np.mean(s[mapping['right_eye']], axis=0))
+        labelled = face_ibug_49_to_face_ibug_49(PointCloud(s))
+        return euclidean_error(
+            np.mean(labelled.get_label('left_eye').points, axis=0),
+            np.mean(labelled.get_label('right_eye').points, axis=0))
     if shape.n_points == 68:
         shape = _convert_68_to_49(shape)
     elif shape.n_points == 66:
-- 
2.43.0


From 6b5d349725a56119e43f022c4ca4f87852a185e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:41 +0000
Subject: [PATCH 30/86] fix: use the Woodbury identity when incrementing
 regularised linear regression

---
 menpofit/math/regression.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/menpofit/math/regression.py b/menpofit/math/regression.py
index c75af28..5ce9011 100644
--- a/menpofit/math/regression.py
+++ b/menpofit/math/regression.py
@@ -73,9 +73,8 @@ class IRLRegression(object):
             X = np.hstack((X, np.ones((X.shape[0], 1))))
 
         # incremental regularized linear regression
-        U = X.dot(self.V).dot(X.T)
-        if self.alpha:
-            np.fill_diagonal(U, self.alpha + np.diag(U))
+        # (the regularisation is already part of V)
+        U = np.eye(X.shape[0]) + X.dot(self.V).dot(X.T)
         U = np.linalg.inv(U)
         Q = self.V.dot(X.T).dot(U).dot(X)
         self.V = self.V - Q.dot(self.V)
-- 
2.43.0


From d9c8dcd5661c6eacf7751a30562f0c03fd50148d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:41 +0000
Subject: [PATCH 31/86] fix: make indirect incremental regression incrementable

---
 menpofit/math/regression.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/menpofit/math/regression.py b/menpofit/math/regression.py
index 5ce9011..8a0d525 100644
--- a/menpofit/math/regression.py
+++ b/menpofit/math/regression.py
@@ -115,11 +115,16 @@ class IIRLRegression(IRLRegression):
         If ``True``, a bias term is used.
     alpha2 : `float`, optional
         The regularization parameter of the Hessian.
+    incrementable : `bool`, optional
+        If ``True``, then the regression model will have the ability to get
+        incremented.
     """
-    def __init__(self, alpha=0, bias=False, alpha2=0):
+    def __init__(self, alpha=0, bias=False, alpha2=0, incrementable=False):
         # TODO: Can we model the bias? May need to slice off of prediction?
-        super(IIRLRegression, self).__init__(alpha=alpha, bias=False)
+        super(IIRLRegression, self).__init__(alpha=alpha, bias=False,
+                                             incrementable=incrementable)
         self.alpha2 = alpha2
+        self.J = None
 
     def train(self, X, Y):
         r"""
@@ -134,7 +139,10 @@ class IIRLRegression(IRLRegression):
         """
         # regularized linear regression exchanging the roles of X and Y
         super(IIRLRegression, self).train(Y, X)
-        J = self.W
+        self._invert_solution()
+
+    def _invert_solution(self):
+        self.J = J = self.W
         # solve the original problem by computing the pseudo-inverse of the
         # previous solution
         # Note that everything is transposed from the above exchanging of roles
@@ -159,16 +167,12 @@ class IIRLRegression(IRLRegression):
         ValueError
             Model is not incrementable
         """
+        if not self.incrementable:
+            raise ValueError('Model is not incrementable')
         # incremental least squares exchanging the roles of X and Y
+        self.W = self.J
         super(IIRLRegression, self).increment(Y, X)
-        J = self.W
-        # solve the original problem by computing the pseudo-inverse of the
-        # previous solution
-        # Note that everything is transposed from the above exchanging of roles
-        H = J.dot(J.T)
-        if self.alpha2:
-            np.fill_diagonal(H, self.alpha2 + np.diag(H))
-        self.W = np.linalg.solve(H, J)
+        self._invert_solution()
 
     def predict(self, x):
         r"""
-- 
2.43.0


From b1824f1b8124e09602a4711b282498020492fcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:23 +0000
Subject: [PATCH 32/86] fix: apply the global transform's Jacobian to the shape
 basis (rotated fits had wrong derivatives)

---
 menpofit/modelinstance.py         | 2 +-
 menpofit/transform/modeldriven.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/menpofit/modelinstance.py b/menpofit/modelinstance.py
index 4f2300a..d2096c4 100644
--- a/menpofit/modelinstance.py
+++ b/menpofit/modelinstance.py
@@ -573,7 +573,7 @@ class GlobalPDM(PDM):
         # (n_points, n_dims, n_dims)
         dX_dS = self.global_transform.d_dx(points)
         # (n_points, n_weights, n_dims)
-        dX_db = np.einsum('ilj, idj -> idj', dX_dS, dS_db)
+        dX_db = np.einsum('ilj, idj -> idl', dX_dS, dS_db)
 
         # dX/dp is simply the concatenation of the previous two terms
         # (n_points, n_params, n_dims)
diff --git a/menpofit/transform/modeldriven.py b/menpofit/transform/modeldriven.py
index d770290..8615fc5 100644
--- a/menpofit/transform/modeldriven.py
+++ b/menpofit/transform/modeldriven.py
@@ -381,7 +381,7 @@ class GlobalMDTransform(ModelDrivenTransform):
         # (n_points, n_dims, n_dims)
         dW_dS = self.pdm.global_transform.d_dx(points)
         # (n_points, n_weights, n_dims)
-        dW_db = np.einsum('ilj, idj -> idj', dW_dS, dW_db_0)
+        dW_db = np.einsum('ilj, idj -> idl', dW_dS, dW_db_0)
 
         # dW/dp is simply the concatenation of dW_dq with dW_db
         # (n_points, n_params, n_dims)
@@ -449,7 +449,7 @@ class GlobalMDTransform(ModelDrivenTransform):
         # (n_points, n_dims, n_dims)
         dW_dS = self.pdm.global_transform.d_dx(points)
         # (n_points, n_weights, n_dims)
-        dW_db = np.einsum('ilj, idj -> idj', dW_dS, dW_db_0)
+        dW_db = np.einsum('ilj, idj -> idl', dW_dS, dW_db_0)
 
         # dW/dp is simply the concatenation of dW_dq with dW_db
         # (n_points, n_params, n_dims)
-- 
2.43.0


From dde13142e5942d5667b2130e5fb5e7151422537b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:23 +0000
Subject: [PATCH 33/86] fix: apply the warp's spatial Jacobian in the
 model-driven parameter composition

---
 menpofit/transform/modeldriven.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/menpofit/transform/modeldriven.py b/menpofit/transform/modeldriven.py
index 8615fc5..2f03508 100644
--- a/menpofit/transform/modeldriven.py
+++ b/menpofit/transform/modeldriven.py
@@ -164,7 +164,7 @@ class ModelDrivenTransform(Transform, Targetable, Vectorizable,
         dW_dx = self.transform.d_dx(points)
 
         # (n_points, n_params, n_dims)
-        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> eilk', dW_dx, dW_dp_0)
+        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> ilj', dW_dx, dW_dp_0)
 
         # (n_params, n_params)
         J = np.einsum('ijk, ilk -> jl', dW_dp, dW_dx_dW_dp_0)
@@ -286,7 +286,7 @@ class ModelDrivenTransform(Transform, Targetable, Vectorizable,
         dW_dx = self.transform.d_dx(points)
 
         # (n_points, n_params, n_dims)
-        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> eilk', dW_dx, dW_dp_0)
+        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> ilj', dW_dx, dW_dp_0)
 
         # (n_params, n_params)
         J = np.einsum('ijk, ilk -> jl', dW_dp, dW_dx_dW_dp_0)
@@ -393,7 +393,7 @@ class GlobalMDTransform(ModelDrivenTransform):
         dW_dx = self.transform.d_dx(points)
 
         # (n_points, n_params, n_dims)
-        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> ilk', dW_dx, dW_dp_0)
+        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> ilj', dW_dx, dW_dp_0)
 
         # (n_params, n_params)
         J = np.einsum('ijk, ilk -> jl', dW_dp, dW_dx_dW_dp_0)
@@ -461,7 +461,7 @@ class GlobalMDTransform(ModelDrivenTransform):
         dW_dx = self.transform.d_dx(points)
 
         # (n_points, n_params, n_dims)
-        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> ilk', dW_dx, dW_dp_0)
+        dW_dx_dW_dp_0 = np.einsum('ijk, ilk -> ilj', dW_dx, dW_dp_0)
 
         # (n_params, n_params)
         J = np.einsum('ijk, ilk -> jl', dW_dp, dW_dx_dW_dp_0)
-- 
2.43.0


From 2546a5bb3d2858565057f9e26f15c39cc27fbded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:23 +0000
Subject: [PATCH 34/86] fix: evaluate the spatial derivative of thin plate
 splines at the given points

---
 menpofit/transform/thinsplatesplines.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/menpofit/transform/thinsplatesplines.py b/menpofit/transform/thinsplatesplines.py
index be6098a..b38dcc8 100644
--- a/menpofit/transform/thinsplatesplines.py
+++ b/menpofit/transform/thinsplatesplines.py
@@ -161,14 +161,14 @@ class DifferentiableThinPlateSplines(ThinPlateSplines, DL, DX):
             in this case axis zero may have length ``1`` to allow for
             broadcasting.
         """
-        dk_dx = np.zeros((points.shape[0] + 3,   # i
-                          self.source.n_points,  # k
-                          self.source.n_dims))   # l
-        dk_dx[:-3, :] = self.kernel.d_dl(points)
+        dk_dx = np.zeros((points.shape[0],            # i
+                          self.source.n_points + 3,   # k
+                          self.source.n_dims))        # l
+        dk_dx[:, :-3] = self.kernel.d_dl(points)
 
         affine_derivative = np.array([[0, 0],
                                       [1, 0],
                                       [0, 1]])
-        dk_dx[-3:, :] = affine_derivative[:, None]
+        dk_dx[:, -3:] = affine_derivative
 
-        return np.einsum('ij, ikl -> klj', self.coefficients, dk_dx)
+        return np.einsum('kj, ikl -> ijl', self.coefficients, dk_dx)
-- 
2.43.0


From b5e66f1b9c117d7b861431c3e93d4d63bf40db75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:57 +0000
Subject: [PATCH 35/86] fix: move the global transform of shape models to the
 new mean when they are incremented

---
 menpofit/modelinstance.py | 47 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/menpofit/modelinstance.py b/menpofit/modelinstance.py
index d2096c4..f1e884f 100644
--- a/menpofit/modelinstance.py
+++ b/menpofit/modelinstance.py
@@ -541,6 +541,51 @@ class GlobalPDM(PDM):
         """
         self.global_transform._from_vector_inplace(global_weights)
 
+    def increment(self, shapes, n_shapes=None, forgetting_factor=1.0,
+                  max_n_components=None, verbose=False):
+        r"""
+        Update the eigenvectors, eigenvalues and mean vector of this model
+        by performing incremental PCA on the given samples.
+
+        Parameters
+        ----------
+        shapes : `list` of `menpo.shape.PointCloud`
+            List of new shapes to update the model from.
+        n_shapes : `int` or ``None``, optional
+            If `int`, then `shapes`  must be an iterator that yields `n_shapes`.
+            If ``None``, then `shapes` has to be a list (so we know how large
+            the data matrix needs to be).
+        forgetting_factor : ``[0.0, 1.0]`` `float`, optional
+            Forgetting factor that weights the relative contribution of new
+            samples vs old samples. If 1.0, all samples are weighted equally
+            and, hence, the results is the exact same as performing batch
+            PCA on the concatenated list of old and new simples. If <1.0,
+            more emphasis is put on the new samples. See [1] for details.
+        max_n_components : `int` or ``None``, optional
+            The maximum number of components that the model will keep.
+            If ``None``, then all the components will be kept.
+        verbose : `bool`, optional
+            If ``True``, then information about the progress will be printed.
+
+        References
+        ----------
+        .. [1] D. Ross, J. Lim, R.S. Lin, M.H. Yang. "Incremental Learning for
+            Robust Visual Tracking". International Journal on Computer Vision,
+            2007.
+        """
+        old_target = self.target
+        super(GlobalPDM, self).increment(
+            shapes, n_shapes=n_shapes, forgetting_factor=forgetting_factor,
+            max_n_components=max_n_components, verbose=verbose)
+        # The global transform acts on the mean, which has just changed
+        self._reset_global_transform()
+        # Reset the target given the new model
+        self.set_target(old_target)
+
+    def _reset_global_transform(self):
+        mean = self.model.mean()
+        self.global_transform = self.global_transform.__class__(mean, mean)
+
     def d_dp(self, points):
         r"""
         The derivative with respect to the parametrisation changes evaluated at
@@ -689,6 +734,8 @@ class OrthoPDM(GlobalPDM):
             self.model.trim_components(max_n_components)
         # Re-orthonormalize
         self._construct_similarity_model()
+        # The global transform acts on the mean, which has just changed
+        self._reset_global_transform()
         # Reset the target given the new models
         self.set_target(old_target)
 
-- 
2.43.0


From 44e5cabce15ec67cf999941f2a274f0514bd853e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:35 +0000
Subject: [PATCH 36/86] fix: default to the mean of the model when a
 model-driven transform has no source

---
 menpofit/transform/modeldriven.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/menpofit/transform/modeldriven.py b/menpofit/transform/modeldriven.py
index 2f03508..b284dcb 100644
--- a/menpofit/transform/modeldriven.py
+++ b/menpofit/transform/modeldriven.py
@@ -40,6 +40,9 @@ class ModelDrivenTransform(Transform, Targetable, Vectorizable,
         # Assign attributes
         self.pdm = model
         self._cached_points, self.dW_dl = None, None
+        if source is None:
+            # default to the mean of the model, as documented
+            source = model.model.mean()
         self.transform = transform_cls(source, self.target)
 
     @property
-- 
2.43.0


From c025a9e6b516136abcd4eec393a04c001d6913ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:14 +0000
Subject: [PATCH 37/86] fix: pad and crop around the centre for every
 combination of sizes

---
 menpofit/math/fft_utils.py | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/menpofit/math/fft_utils.py b/menpofit/math/fft_utils.py
index 187d89b..73c1bec 100644
--- a/menpofit/math/fft_utils.py
+++ b/menpofit/math/fft_utils.py
@@ -34,16 +34,12 @@ def pad(pixels, ext_shape, boundary='constant'):
     """
     h, w = pixels.shape[-2:]
 
-    h_margin = (ext_shape[0] - h) // 2
-    w_margin = (ext_shape[1] - w) // 2
+    # the centre (size // 2) of the pixels goes to the centre of the extension
+    h_margin = ext_shape[0] // 2 - h // 2
+    w_margin = ext_shape[1] // 2 - w // 2
 
-    h_margin2 = h_margin
-    if h + 2 * h_margin < ext_shape[0]:
-        h_margin += 1
-
-    w_margin2 = w_margin
-    if w + 2 * w_margin < ext_shape[1]:
-        w_margin += 1
+    h_margin2 = ext_shape[0] - h - h_margin
+    w_margin2 = ext_shape[1] - w - w_margin
 
     pad_width = []
     for _ in pixels.shape[:-2]:
@@ -60,15 +56,12 @@ def crop(pixels, shape):
     """
     h, w = pixels.shape[-2:]
 
-    h_margin = (h - shape[0]) // 2
-    w_margin = (w - shape[1]) // 2
-
-    h_corrector = 1 if np.remainder(h - shape[0], 2) != 0 else 0
-    w_corrector = 1 if np.remainder(w - shape[1], 2) != 0 else 0
+    h_margin = h // 2 - shape[0] // 2
+    w_margin = w // 2 - shape[1] // 2
 
     return pixels[...,
-                  h_margin + h_corrector:-h_margin,
-                  w_margin + w_corrector:-w_margin]
+                  h_margin:h_margin + shape[0],
+                  w_margin:w_margin + shape[1]]
 
 
 # TODO: Document me!
-- 
2.43.0


From a8f03e614dfa22fca9491db639a36ad176fdc929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:14 +0000
Subject: [PATCH 38/86] fix: centre correlation filters whose extended shape is
 odd

---
 menpofit/math/correlationfilter.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/menpofit/math/correlationfilter.py b/menpofit/math/correlationfilter.py
index 2b80d9e..ece04c6 100644
--- a/menpofit/math/correlationfilter.py
+++ b/menpofit/math/correlationfilter.py
@@ -1,5 +1,5 @@
 import numpy as np
-from numpy.fft import fft2, ifft2, ifftshift
+from numpy.fft import fft2, ifft2, fftshift
 from scipy.sparse import spdiags, eye as speye
 from scipy.sparse.linalg import spsolve
 
@@ -81,7 +81,7 @@ def mosse(X, y, l=0.01, boundary='constant', crop_filter=True):
     fft_ext_f = fft_ext_f.reshape((k, ext_h, ext_w))
 
     # compute extended filter inverse fft
-    f = np.real(ifftshift(ifft2(fft_ext_f), axes=(-2, -1)))
+    f = np.real(fftshift(ifft2(fft_ext_f), axes=(-2, -1)))
 
     if crop_filter:
         # crop extended filter to match desired response shape
@@ -191,7 +191,7 @@ def imosse(A, B, n_ab, X, y, l=0.01, boundary='constant',
     fft_ext_f = fft_ext_f.reshape((k, ext_h, ext_w))
 
     # compute filter inverse fft
-    f = np.real(ifftshift(ifft2(fft_ext_f), axes=(-2, -1)))
+    f = np.real(fftshift(ifft2(fft_ext_f), axes=(-2, -1)))
 
     if crop_filter:
         # crop extended filter to match desired response shape
@@ -284,7 +284,7 @@ def mccf(X, y, l=0.01, boundary='constant', crop_filter=True):
     fft_ext_f = fft_ext_f.reshape((k, ext_h, ext_w))
 
     # compute filter inverse fft
-    f = np.real(ifftshift(ifft2(fft_ext_f), axes=(-2, -1)))
+    f = np.real(fftshift(ifft2(fft_ext_f), axes=(-2, -1)))
 
     if crop_filter:
         # crop extended filter to match desired response shape
@@ -406,7 +406,7 @@ def imccf(A, B, n_ab, X, y, l=0.01, boundary='constant', crop_filter=True,
     fft_ext_f = fft_ext_f.reshape((k, ext_h, ext_w))
 
     # compute filter inverse fft
-    f = np.real(ifftshift(ifft2(fft_ext_f), axes=(-2, -1)))
+    f = np.real(fftshift(ifft2(fft_ext_f), axes=(-2, -1)))
     if crop_filter:
         # crop extended filter to match desired response shape
         f = crop(f, y_shape)
-- 
2.43.0


From 9c05f0a372a1ca6d1654341fbef71700c9946816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:14 +0000
Subject: [PATCH 39/86] fix: compare convolution modes by value

---
 menpofit/math/fft_utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/menpofit/math/fft_utils.py b/menpofit/math/fft_utils.py
index 73c1bec..5845eaa 100644
--- a/menpofit/math/fft_utils.py
+++ b/menpofit/math/fft_utils.py
@@ -145,11 +145,11 @@ def fft_convolve2d(x, f, mode='same', boundary='constant', fft_filter=False):
     # compute ifft of extended convolution
     ext_c = np.real(ifftshift(ifft2(fft_ext_c), axes=(-2, -1)))
 
-    if mode is 'full':
+    if mode == 'full':
         return ext_c
-    elif mode is 'same':
+    elif mode == 'same':
         return crop(ext_c, x_shape)
-    elif mode is 'valid':
+    elif mode == 'valid':
         return crop(ext_c, x_shape - f_half_shape + 1)
     else:
         raise ValueError(
@@ -227,11 +227,11 @@ def fft_convolve2d_sum(x, f, mode='same', boundary='constant',
     # compute ifft of extended convolution
     ext_c = np.real(ifftshift(ifft2(fft_ext_c), axes=(-2, -1)))
 
-    if mode is 'full':
+    if mode == 'full':
         return ext_c
-    elif mode is 'same':
+    elif mode == 'same':
         return crop(ext_c, x_shape)
-    elif mode is 'valid':
+    elif mode == 'valid':
         return crop(ext_c, x_shape - f_half_shape + 1)
     else:
         raise ValueError(
-- 
2.43.0


From c22bf0e34f9006b554cd5204bc760435e0eb62a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:26 +0000
Subject: [PATCH 40/86] fix: extend images enough for the convolution not to
 wrap around

---
 menpofit/math/fft_utils.py | 53 ++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/menpofit/math/fft_utils.py b/menpofit/math/fft_utils.py
index 5845eaa..b28ea61 100644
--- a/menpofit/math/fft_utils.py
+++ b/menpofit/math/fft_utils.py
@@ -86,6 +86,28 @@ def ndconvolution(wrapped):
     return wrapper
 
 
+def _crop_to_mode(ext_c, mode, x_shape, f_shape, fft_filter):
+    r"""
+    Returns the part of an extended convolution that a mode asks for.
+    """
+    if mode == 'full':
+        if fft_filter:
+            return ext_c
+        h, w = x_shape + f_shape - 1
+        return ext_c[..., :h, :w]
+    elif mode == 'same':
+        return crop(ext_c, x_shape)
+    elif mode == 'valid':
+        if fft_filter:
+            return crop(ext_c, x_shape - f_shape // 2 + 1)
+        (h, w), (fh, fw) = x_shape, f_shape
+        return ext_c[..., fh - 1:h, fw - 1:w]
+    else:
+        raise ValueError(
+            "mode={}, is not supported. The only supported "
+            "modes are: 'full', 'same' and 'valid'.".format(mode))
+
+
 # TODO: Document me!
 @ndconvolution
 def fft_convolve2d(x, f, mode='same', boundary='constant', fft_filter=False):
@@ -116,6 +138,8 @@ def fft_convolve2d(x, f, mode='same', boundary='constant', fft_filter=False):
     """
     if fft_filter:
         # extended shape is filter shape
+        x_shape = np.asarray(x.shape[-2:])
+        f_shape = ((np.asarray(f.shape[-2:]) + 1) / 1.5).astype(int)
         ext_shape = np.asarray(f.shape[-2:])
 
         # extend image and filter
@@ -128,8 +152,7 @@ def fft_convolve2d(x, f, mode='same', boundary='constant', fft_filter=False):
         # extended shape
         x_shape = np.asarray(x.shape[-2:])
         f_shape = np.asarray(f.shape[-2:])
-        f_half_shape = (f_shape / 2).astype(int)
-        ext_shape = x_shape + f_half_shape - 1
+        ext_shape = x_shape + 2 * (f_shape // 2)
 
         # extend image and filter
         ext_x = pad(x, ext_shape, boundary=boundary)
@@ -145,16 +168,7 @@ def fft_convolve2d(x, f, mode='same', boundary='constant', fft_filter=False):
     # compute ifft of extended convolution
     ext_c = np.real(ifftshift(ifft2(fft_ext_c), axes=(-2, -1)))
 
-    if mode == 'full':
-        return ext_c
-    elif mode == 'same':
-        return crop(ext_c, x_shape)
-    elif mode == 'valid':
-        return crop(ext_c, x_shape - f_half_shape + 1)
-    else:
-        raise ValueError(
-            "mode={}, is not supported. The only supported "
-            "modes are: 'full', 'same' and 'valid'.".format(mode))
+    return _crop_to_mode(ext_c, mode, x_shape, f_shape, fft_filter)
 
 
 # TODO: Document me!
@@ -198,7 +212,6 @@ def fft_convolve2d_sum(x, f, mode='same', boundary='constant',
         # extended shape is fft_ext_filter shape
         x_shape = np.asarray(x.shape[-2:])
         f_shape = ((np.asarray(fft_ext_f.shape[-2:]) + 1) / 1.5).astype(int)
-        f_half_shape = (f_shape / 2).astype(int)
         ext_shape = np.asarray(f.shape[-2:])
 
         # extend image and filter
@@ -210,8 +223,7 @@ def fft_convolve2d_sum(x, f, mode='same', boundary='constant',
         # extended shape
         x_shape = np.asarray(x.shape[-2:])
         f_shape = np.asarray(f.shape[-2:])
-        f_half_shape = (f_shape / 2).astype(int)
-        ext_shape = x_shape + f_half_shape - 1
+        ext_shape = x_shape + 2 * (f_shape // 2)
 
         # extend image and filter
         ext_x = pad(x, ext_shape, boundary=boundary)
@@ -227,13 +239,4 @@ def fft_convolve2d_sum(x, f, mode='same', boundary='constant',
     # compute ifft of extended convolution
     ext_c = np.real(ifftshift(ifft2(fft_ext_c), axes=(-2, -1)))
 
-    if mode == 'full':
-        return ext_c
-    elif mode == 'same':
-        return crop(ext_c, x_shape)
-    elif mode == 'valid':
-        return crop(ext_c, x_shape - f_half_shape + 1)
-    else:
-        raise ValueError(
-            "mode={}, is not supported. The only supported "
-            "modes are: 'full', 'same' and 'valid'.".format(mode))
+    return _crop_to_mode(ext_c, mode, x_shape, f_shape, fft_filter)
-- 
2.43.0


From 916a782e6c3832e514cfcc9c46c54615e9b8d16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:26 +0000
Subject: [PATCH 41/86] fix: accumulate the spectra of correlation filters so
 that increments equal batch training

---
 menpofit/clm/expert/ensemble.py    |  9 ++++-----
 menpofit/math/correlationfilter.py | 32 ++++++++----------------------
 2 files changed, 12 insertions(+), 29 deletions(-)

diff --git a/menpofit/clm/expert/ensemble.py b/menpofit/clm/expert/ensemble.py
index c19f058..e1601f9 100644
--- a/menpofit/clm/expert/ensemble.py
+++ b/menpofit/clm/expert/ensemble.py
@@ -344,11 +344,7 @@ class CorrelationFilterExpertEnsemble(ConvolutionBasedExpertEnsemble):
             self.fft_padded_filters = []
             self.auto_correlations = []
             self.cross_correlations = []
-            # Set number of images
-            self.n_images = len(images)
-        else:
-            # Update number of images
-            self.n_images += len(images)
+            self.n_images = 0
 
         # Obtain total number of experts
         n_experts = shapes[0].n_points
@@ -397,6 +393,9 @@ class CorrelationFilterExpertEnsemble(ConvolutionBasedExpertEnsemble):
             auto_correlations.append(auto_correlation)
             cross_correlations.append(cross_correlation)
 
+        # Update number of images
+        self.n_images += len(images)
+
         # Turn list into ndarray
         self.fft_padded_filters = np.asarray(fft_padded_filters)
         self.auto_correlations = np.asarray(auto_correlations)
diff --git a/menpofit/math/correlationfilter.py b/menpofit/math/correlationfilter.py
index ece04c6..c258f44 100644
--- a/menpofit/math/correlationfilter.py
+++ b/menpofit/math/correlationfilter.py
@@ -148,15 +148,6 @@ def imosse(A, B, n_ab, X, y, l=0.01, boundary='constant',
     _, hy, wy = y.shape
     y_shape = (hy, wy)
 
-    # multiply the number of samples used to produce the auto and cross
-    # spectral energy matrices A and B by forgetting factor
-    n_ab *= f
-    # total number of samples
-    n = n_ab + n_x
-    # compute weighting factors
-    nu_ab = n_ab / n
-    nu_x = n_x / n
-
     # extended shape
     ext_h = hz + hy - 1
     ext_w = wz + wy - 1
@@ -182,9 +173,10 @@ def imosse(A, B, n_ab, X, y, l=0.01, boundary='constant',
         sXX += fft_ext_x.conj() * fft_ext_x
         sXY += fft_ext_x.conj() * fft_ext_y
 
-    # combine old and new auto and cross spectral energy matrices
-    sXY = nu_ab * A + nu_x * sXY
-    sXX = nu_ab * B + nu_x * sXX
+    # combine old and new auto and cross spectral energy matrices (these are
+    # sums over the images, as in the batch filter)
+    sXY = f * A + sXY
+    sXX = f * B + sXX
     # compute desired correlation filter
     fft_ext_f = sXY / (sXX + l)
     # reshape extended filter to extended image shape
@@ -354,15 +346,6 @@ def imccf(A, B, n_ab, X, y, l=0.01, boundary='constant', crop_filter=True,
     _, hy, wy = y.shape
     y_shape = (hy, wy)
 
-    # multiply the number of samples used to produce the auto and cross
-    # spectral energy matrices A and B by forgetting factor
-    n_ab *= f
-    # total number of samples
-    n = n_ab + n_x
-    # compute weighting factors
-    nu_ab = n_ab / n
-    nu_x = n_x / n
-
     # extended shape
     ext_h = hz + hy - 1
     ext_w = wz + wy - 1
@@ -396,9 +379,10 @@ def imccf(A, B, n_ab, X, y, l=0.01, boundary='constant', crop_filter=True,
         sXX += diag_fft_x.conj().T.dot(diag_fft_x)
         sXY += diag_fft_x.conj().T.dot(diag_fft_y)
 
-    # combine old and new auto and cross spectral energy matrices
-    sXY = nu_ab * A + nu_x * sXY
-    sXX = nu_ab * B + nu_x * sXX
+    # combine old and new auto and cross spectral energy matrices (these are
+    # sums over the images, as in the batch filter)
+    sXY = f * A + sXY
+    sXX = f * B + sXX
     # solve ext_d independent k x k linear systems (with regularization)
     # to obtain desired extended multi-channel correlation filter
     fft_ext_f = spsolve(sXX + l * speye(sXX.shape[-1]), sXY)
-- 
2.43.0


From 8098556743ab1e1d5712b085f6922e52297a8a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:26 +0000
Subject: [PATCH 42/86] fix: return uniform probability maps for flat responses
 and leave the responses alone

---
 menpofit/clm/expert/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/menpofit/clm/expert/base.py b/menpofit/clm/expert/base.py
index 6864605..0a53930 100644
--- a/menpofit/clm/expert/base.py
+++ b/menpofit/clm/expert/base.py
@@ -22,16 +22,16 @@ def probability_map(x, axes=(-2, -1)):
     probability_map : `menpo.image.Image` or ``(C, X, Y, ..., Z)`` `ndarray`
         The probability MAP of the image.
     """
-    x -= np.min(x, axis=axes, keepdims=True)
+    x = x - np.min(x, axis=axes, keepdims=True)
     total = np.sum(x, axis=axes, keepdims=True)
     nonzero = total > 0
     if np.any(~nonzero):
         warnings.warn('some of x axes have 0 variance - uniform probability '
                       'maps are used them.')
-        x[nonzero] /= total[nonzero]
-        x[~nonzero] = 1 / np.prod(axes)
+        uniform = 1. / np.prod([x.shape[a] for a in axes])
+        x = np.where(nonzero, x / np.where(nonzero, total, 1), uniform)
     else:
-        x /= total
+        x = x / total
     return x
 
 
-- 
2.43.0


From bc155b131a2ae342c528fd18e2927e33ca127fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:26 +0000
Subject: [PATCH 43/86] fix: count the sample offsets of convolutional experts
 given as an array

---
 menpofit/clm/expert/ensemble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/clm/expert/ensemble.py b/menpofit/clm/expert/ensemble.py
index e1601f9..9537db6 100644
--- a/menpofit/clm/expert/ensemble.py
+++ b/menpofit/clm/expert/ensemble.py
@@ -110,7 +110,7 @@ class ConvolutionBasedExpertEnsemble(ExpertEnsemble):
 
         :type: `int`
         """
-        if self.sample_offsets:
+        if self.sample_offsets is not None:
             return self.sample_offsets.shape[0]
         else:
             return 1
-- 
2.43.0


From aca2c6ffff8bb727aa09ea301705d882ff6ca1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:27 +0000
Subject: [PATCH 44/86] fix: compare noise types by value

---
 menpofit/fitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index 762dab3..6655646 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -70,7 +70,7 @@ def noisy_alignment_similarity_transform(source, target, noise_type='uniform',
     similarity = AlignmentSimilarity(source, target,
                                      rotation=allow_alignment_rotation)
 
-    if noise_type is 'gaussian':
+    if noise_type == 'gaussian':
         s = noise_percentage[0] * (0.5 / 3) * np.random.randn(1)[0]
         r = noise_percentage[1] * (180 / 3) * np.random.randn(1)[0]
         t = noise_percentage[2] * (target.range() / 3) * np.random.randn(2)
@@ -78,7 +78,7 @@ def noisy_alignment_similarity_transform(source, target, noise_type='uniform',
         s = scale_about_centre(target, 1 + s)
         r = rotate_ccw_about_centre(target, r)
         t = Translation(t, source.n_dims)
-    elif noise_type is 'uniform':
+    elif noise_type == 'uniform':
         s = noise_percentage[0] * 0.5 * (2 * np.random.randn(1)[0] - 1)
         r = noise_percentage[1] * 180 * (2 * np.random.rand(1)[0] - 1)
         t = noise_percentage[2] * target.range() * (2 * np.random.rand(2) - 1)
-- 
2.43.0


From 7cabdb2f2bf35cc8b875584771259a70ba0cdd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:27 +0000
Subject: [PATCH 45/86] fix: draw uniform scale noise from a uniform
 distribution

---
 menpofit/fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index 6655646..426f9f9 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -79,7 +79,7 @@ def noisy_alignment_similarity_transform(source, target, noise_type='uniform',
         r = rotate_ccw_about_centre(target, r)
         t = Translation(t, source.n_dims)
     elif noise_type == 'uniform':
-        s = noise_percentage[0] * 0.5 * (2 * np.random.randn(1)[0] - 1)
+        s = noise_percentage[0] * 0.5 * (2 * np.random.rand(1)[0] - 1)
         r = noise_percentage[1] * 180 * (2 * np.random.rand(1)[0] - 1)
         t = noise_percentage[2] * target.range() * (2 * np.random.rand(2) - 1)
 
-- 
2.43.0


From 22774ab0026de58387d6fb43a637c5abd3092dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:27 +0000
Subject: [PATCH 46/86] fix: do not extend the caller's noise percentages and
 accept any number

---
 menpofit/fitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index 426f9f9..eacb95d 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -62,10 +62,10 @@ def noisy_alignment_similarity_transform(source, target, noise_type='uniform',
     noisy_alignment_similarity_transform : `menpo.transform.Similarity`
         The noisy Similarity Transform between source and target.
     """
-    if isinstance(noise_percentage, float):
+    if isinstance(noise_percentage, (int, float, np.number)):
         noise_percentage = [noise_percentage] * 3
     elif len(noise_percentage) == 1:
-        noise_percentage *= 3
+        noise_percentage = list(noise_percentage) * 3
 
     similarity = AlignmentSimilarity(source, target,
                                      rotation=allow_alignment_rotation)
-- 
2.43.0


From 688658cd49cc31b3f218e7840f482686e65c0483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:27 +0000
Subject: [PATCH 47/86] fix: add the noise around the target to the aligned
 shape, not to the source

---
 menpofit/fitter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index eacb95d..df8e2c7 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -90,7 +90,8 @@ def noisy_alignment_similarity_transform(source, target, noise_type='uniform',
         raise ValueError('Unexpected noise type. '
                          'Supported values are {gaussian, uniform}')
 
-    return similarity.compose_after(t.compose_after(s.compose_after(r)))
+    # the noise is relative to the target, so it comes after the alignment
+    return t.compose_after(s.compose_after(r.compose_after(similarity)))
 
 
 def noisy_target_alignment_transform(source, target,
-- 
2.43.0


From 79fff2b7ba64800b7a8342aad899c4c89b1e8c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:27 +0000
Subject: [PATCH 48/86] fix: accept one noise level per target point as
 documented

---
 menpofit/fitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index df8e2c7..253d009 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -119,8 +119,8 @@ def noisy_target_alignment_transform(source, target,
     noisy_transform : `menpo.transform.Alignment`
         The noisy Similarity Transform
     """
-    noise = noise_std * target.range() * np.random.randn(target.n_points,
-                                                         target.n_dims)
+    noise = (np.reshape(noise_std, (-1, 1)) * target.range() *
+             np.random.randn(target.n_points, target.n_dims))
     noisy_target = PointCloud(target.points + noise)
     return alignment_transform_cls(source, noisy_target, **kwargs)
 
-- 
2.43.0


From c9c80060fe09f1951bca55e15b35bd53b059dbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:24 +0000
Subject: [PATCH 49/86] fix: drop previously generated bounding boxes before
 generating new ones

---
 menpofit/fitter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/menpofit/fitter.py b/menpofit/fitter.py
index 253d009..c071783 100644
--- a/menpofit/fitter.py
+++ b/menpofit/fitter.py
@@ -774,7 +774,11 @@ def generate_perturbations_from_gt(images, n_perturbations, perturb_func,
 
         k = 0
         im_bounds = im.bounds()
-        for bb in bb_generator(im):
+        bbs = bb_generator(im)
+        # boxes left by an earlier call are not part of this one
+        for group in list(im.landmarks.keys_matching('__generated_bb_*')):
+            del im.landmarks[group]
+        for bb in bbs:
             for _ in range(n_perturbations):
                 p_s = perturb_func(gt_s, bb).bounding_box()
                 perturb_bbox_group = '__generated_bb_{}'.format(k)
-- 
2.43.0


From 9c16ce459a42d162c1b073c2862aefb25e12d673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:02 +0000
Subject: [PATCH 50/86] fix: give a downloaded fitter its name only when the
 download is complete

---
 menpofit/io.py | 47 +++++++++++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/menpofit/io.py b/menpofit/io.py
index ce4c0fc..8230be6 100644
--- a/menpofit/io.py
+++ b/menpofit/io.py
@@ -1,5 +1,6 @@
 from __future__ import absolute_import  # or menpofit.math causes trouble!
 from math import ceil
+import os
 import sys
 
 try:
@@ -371,24 +372,34 @@ def download_file(url, destination, verbose=False):
     req = urlopen(url)
     chunk_size_bytes = 512 * 1024
 
-    with open(str(destination), 'wb') as fp:
-
-        # Retrieve a generator that we can keep yielding from to download the
-        # file in chunks.
-        copy_progress = copy_and_yield(req, fp, length=chunk_size_bytes)
-
-        if verbose:
-            # wrap the download object with print progress to log the status
-            n_bytes = int(req.headers['content-length'])
-            n_items = int(ceil((1.0 * n_bytes) / chunk_size_bytes))
-            prefix = 'Downloading {}'.format(bytes_str(n_bytes))
-            copy_progress = print_progress(copy_progress, n_items=n_items,
-                                           show_count=False, prefix=prefix)
-
-        for _ in copy_progress:
-            pass
-
-    req.close()
+    # The file only gets its name once it is complete, so that an interrupted
+    # download is never mistaken for it.
+    partial_path = '{}.{}.part'.format(destination, os.getpid())
+    try:
+        with open(partial_path, 'wb') as fp:
+
+            # Retrieve a generator that we can keep yielding from to download
+            # the file in chunks.
+            copy_progress = copy_and_yield(req, fp, length=chunk_size_bytes)
+
+            if verbose:
+                # wrap the download object with print progress to log the status
+                n_bytes = int(req.headers['content-length'])
+                n_items = int(ceil((1.0 * n_bytes) / chunk_size_bytes))
+                prefix = 'Downloading {}'.format(bytes_str(n_bytes))
+                copy_progress = print_progress(copy_progress, n_items=n_items,
+                                               show_count=False, prefix=prefix)
+
+            for _ in copy_progress:
+                pass
+
+        os.rename(partial_path, str(destination))
+    except BaseException:
+        if os.path.exists(partial_path):
+            os.remove(partial_path)
+        raise
+    finally:
+        req.close()
 
 
 def load_fitter(name):
-- 
2.43.0


From 232671b64ac31b11edfa272f410193dc84453c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 51/86] fix: change no model when any of the requests of a
 fitter is invalid

---
 menpofit/aam/fitter.py             |  8 ++++----
 menpofit/aps/fitter.py             |  2 +-
 menpofit/atm/fitter.py             |  2 +-
 menpofit/checks.py                 | 33 ++++++++++++++++++++++++++++++
 menpofit/unified_aam_clm/fitter.py |  6 +++---
 5 files changed, 42 insertions(+), 9 deletions(-)

diff --git a/menpofit/aam/fitter.py b/menpofit/aam/fitter.py
index 13e636a..a5b578f 100644
--- a/menpofit/aam/fitter.py
+++ b/menpofit/aam/fitter.py
@@ -145,9 +145,9 @@ class LucasKanadeAAMFitter(AAMFitter):
     def __init__(self, aam, lk_algorithm_cls=WibergInverseCompositional,
                  n_shape=None, n_appearance=None, sampling=None):
         # Check parameters
-        checks.set_models_components(aam.shape_models, n_shape)
-        checks.set_models_components(aam.appearance_models, n_appearance)
         self._sampling = checks.check_sampling(sampling, aam.n_scales)
+        checks.set_shape_and_appearance_components(
+            aam.shape_models, n_shape, aam.appearance_models, n_appearance)
 
         # Get list of algorithm objects per scale
         interfaces = aam.build_fitter_interfaces(self._sampling)
@@ -314,9 +314,9 @@ class SupervisedDescentAAMFitter(SupervisedDescentFitter):
                  batch_size=None, verbose=False):
         self.aam = aam
         # Check parameters
-        checks.set_models_components(aam.shape_models, n_shape)
-        checks.set_models_components(aam.appearance_models, n_appearance)
         self._sampling = checks.check_sampling(sampling, aam.n_scales)
+        checks.set_shape_and_appearance_components(
+            aam.shape_models, n_shape, aam.appearance_models, n_appearance)
 
         # patch_feature and patch_shape are not actually
         # used because they are fully defined by the AAM already. Therefore,
diff --git a/menpofit/aps/fitter.py b/menpofit/aps/fitter.py
index 4e5c4db..558193c 100644
--- a/menpofit/aps/fitter.py
+++ b/menpofit/aps/fitter.py
@@ -143,10 +143,10 @@ class GaussNewtonAPSFitter(APSFitter):
     def __init__(self, aps, gn_algorithm_cls=Inverse, n_shape=None,
                  weight=200., sampling=None):
         # Check parameters
-        checks.set_models_components(aps.shape_models, n_shape)
         self._sampling = checks.check_sampling(sampling, aps.n_scales)
         self.weight = checks.check_multi_scale_param(
             aps.n_scales, (float, int), 'weight', weight)
+        checks.set_models_components(aps.shape_models, n_shape)
 
         # Get list of algorithm objects per scale
         algorithms = []
diff --git a/menpofit/atm/fitter.py b/menpofit/atm/fitter.py
index 679565b..d2955ff 100644
--- a/menpofit/atm/fitter.py
+++ b/menpofit/atm/fitter.py
@@ -45,8 +45,8 @@ class LucasKanadeATMFitter(MultiScaleParametricFitter):
         self._model = atm
 
         # Check parameters
-        checks.set_models_components(atm.shape_models, n_shape)
         self._sampling = checks.check_sampling(sampling, atm.n_scales)
+        checks.set_models_components(atm.shape_models, n_shape)
 
         # Get list of algorithm objects per scale
         interfaces = atm.build_fitter_interfaces(self._sampling)
diff --git a/menpofit/checks.py b/menpofit/checks.py
index 9d1c216..b92c210 100644
--- a/menpofit/checks.py
+++ b/menpofit/checks.py
@@ -424,6 +424,39 @@ def set_models_components(models, n_components):
             raise
 
 
+def set_shape_and_appearance_components(shape_models, n_shape,
+                                        appearance_models, n_appearance):
+    r"""
+    Function that sets the number of active components of a list of shape
+    models and of a list of appearance models. If either of the requests is
+    invalid, then none of the models is changed.
+
+    Parameters
+    ----------
+    shape_models : `list` or `class`
+        The list of shape models per scale.
+    n_shape : `int` or `float` or `None` or `list` of those
+        See `set_models_components`.
+    appearance_models : `list` or `class`
+        The list of appearance models per scale.
+    n_appearance : `int` or `float` or `None` or `list` of those
+        See `set_models_components`.
+
+    Raises
+    ------
+    ValueError
+        n_components can be an integer or a float or None or a list containing 1
+        or {n_scales} of those
+    """
+    previous = [sm.n_active_components for sm in shape_models]
+    set_models_components(shape_models, n_shape)
+    try:
+        set_models_components(appearance_models, n_appearance)
+    except ValueError:
+        set_models_components(shape_models, previous)
+        raise
+
+
 def check_model(model, cls):
     r"""
     Function that checks whether the provided `class` object is a subclass of
diff --git a/menpofit/unified_aam_clm/fitter.py b/menpofit/unified_aam_clm/fitter.py
index d83de4e..0193a2b 100644
--- a/menpofit/unified_aam_clm/fitter.py
+++ b/menpofit/unified_aam_clm/fitter.py
@@ -63,10 +63,10 @@ class UnifiedAAMCLMFitter(MultiScaleParametricFitter):
                  n_shape=None, n_appearance=None, sampling=None):
         self._model = unified_aam_clm
         # Check parameters
-        checks.set_models_components(self._model.shape_models, n_shape)
-        checks.set_models_components(self._model.appearance_models,
-                                     n_appearance)
         self._sampling = checks.check_sampling(sampling, self._model.n_scales)
+        checks.set_shape_and_appearance_components(
+            self._model.shape_models, n_shape,
+            self._model.appearance_models, n_appearance)
 
         # Get list of algorithm objects per scale
         interfaces = unified_aam_clm.build_fitter_interfaces(self._sampling)
-- 
2.43.0


From b51105699ef4c5c5e4bc909cbb617b4284a764fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 52/86] fix: let wrapped fitters preprocess images when the
 result has no initial shape

---
 menpofit/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/menpofit/io.py b/menpofit/io.py
index 8230be6..db7612a 100644
--- a/menpofit/io.py
+++ b/menpofit/io.py
@@ -222,7 +222,8 @@ class PickleWrappedFitter(object):
             # update result attributes
             result._image = image
             result._final_shape = trans.apply(result.final_shape)
-            result._initial_shape = trans.apply(result.initial_shape)
+            if result.initial_shape is not None:
+                result._initial_shape = trans.apply(result.initial_shape)
             if result.is_iterative:
                 result._shapes = [trans.apply(s) for s in result.shapes]
         return result
@@ -269,7 +270,8 @@ class PickleWrappedFitter(object):
             # update result attributes
             result._image = image
             result._final_shape = trans.apply(result.final_shape)
-            result._initial_shape = trans.apply(result.initial_shape)
+            if result.initial_shape is not None:
+                result._initial_shape = trans.apply(result.initial_shape)
             if result.is_iterative:
                 result._shapes = [trans.apply(s) for s in result.shapes]
         return result
-- 
2.43.0


From 11b80d8b9113084687e46e1ee86dde7a1ff1a1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 53/86] fix: reconstruct the appearance of the third and later
 scales with the parameters of those scales

---
 menpofit/aam/base.py             | 4 ++--
 menpofit/unified_aam_clm/base.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/menpofit/aam/base.py b/menpofit/aam/base.py
index 4a6046b..5142127 100644
--- a/menpofit/aam/base.py
+++ b/menpofit/aam/base.py
@@ -557,7 +557,7 @@ class AAM(object):
             for c in appearance_parameters[previous : previous + n_iters + 1]:
                 instance = self.appearance_models[scale].instance(c)
                 appearance_reconstructions.append(instance)
-            previous = n_iters + 1
+            previous += n_iters + 1
         return appearance_reconstructions
 
     def __str__(self):
@@ -1250,7 +1250,7 @@ class PatchAAM(AAM):
             for c in appearance_parameters[previous : previous + n_iters + 1]:
                 instance = self.appearance_models[scale].instance(c).pixels
                 appearance_reconstructions.append(instance)
-            previous = n_iters + 1
+            previous += n_iters + 1
         return appearance_reconstructions
 
     def __str__(self):
diff --git a/menpofit/unified_aam_clm/base.py b/menpofit/unified_aam_clm/base.py
index 9917a09..3699335 100644
--- a/menpofit/unified_aam_clm/base.py
+++ b/menpofit/unified_aam_clm/base.py
@@ -483,7 +483,7 @@ class UnifiedAAMCLM(object):
             for c in appearance_parameters[previous : previous + n_iters + 1]:
                 instance = self.appearance_models[scale].instance(c)
                 appearance_reconstructions.append(instance)
-            previous = n_iters + 1
+            previous += n_iters + 1
         return appearance_reconstructions
 
     def __str__(self):
-- 
2.43.0


From 98b563164c75076ce8b94d2e4e800e6ceb51b091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 54/86] fix: draw one random weight per active appearance
 component

---
 menpofit/aam/base.py             | 2 +-
 menpofit/unified_aam_clm/base.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/aam/base.py b/menpofit/aam/base.py
index 5142127..cf5bd13 100644
--- a/menpofit/aam/base.py
+++ b/menpofit/aam/base.py
@@ -479,7 +479,7 @@ class AAM(object):
         # TODO: this bit of logic should to be transferred down to PCAModel
         shape_weights = np.random.randn(sm.n_active_components)
         shape_instance = sm.instance(shape_weights, normalized_weights=True)
-        appearance_weights = np.random.randn(sm.n_active_components)
+        appearance_weights = np.random.randn(am.n_active_components)
         appearance_instance = am.instance(appearance_weights, normalized_weights=True)
 
         return self._instance(scale_index, shape_instance, appearance_instance)
diff --git a/menpofit/unified_aam_clm/base.py b/menpofit/unified_aam_clm/base.py
index 3699335..f6c12e6 100644
--- a/menpofit/unified_aam_clm/base.py
+++ b/menpofit/unified_aam_clm/base.py
@@ -405,7 +405,7 @@ class UnifiedAAMCLM(object):
         # TODO: this bit of logic should to be transferred down to PCAModel
         shape_weights = np.random.randn(sm.n_active_components)
         shape_instance = sm.instance(shape_weights, normalized_weights=True)
-        appearance_weights = np.random.randn(sm.n_active_components)
+        appearance_weights = np.random.randn(am.n_active_components)
         appearance_instance = am.instance(appearance_weights, normalized_weights=True)
 
         return self._instance(scale_index, shape_instance, appearance_instance)
-- 
2.43.0


From 90fa35abae0d5b6394eef941a0a2760deb43e86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 55/86] fix: use the patch shape of the scale in masked ATM
 instances

---
 menpofit/atm/base.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/menpofit/atm/base.py b/menpofit/atm/base.py
index e5c8919..9767c62 100644
--- a/menpofit/atm/base.py
+++ b/menpofit/atm/base.py
@@ -399,7 +399,7 @@ class ATM(object):
         template = self.warped_templates[scale_index]
 
         shape_instance = sm.instance(shape_weights, normalized_weights=True)
-        return self._instance(shape_instance, template)
+        return self._instance(scale_index, shape_instance, template)
 
     def random_instance(self, scale_index=-1):
         r"""
@@ -422,9 +422,9 @@ class ATM(object):
         shape_weights = np.random.randn(sm.n_active_components)
         shape_instance = sm.instance(shape_weights, normalized_weights=True)
 
-        return self._instance(shape_instance, template)
+        return self._instance(scale_index, shape_instance, template)
 
-    def _instance(self, shape_instance, template):
+    def _instance(self, scale_index, shape_instance, template):
         landmarks = template.landmarks["source"]
 
         reference_frame = build_reference_frame(shape_instance)
@@ -574,11 +574,11 @@ class MaskedATM(ATM):
     def _str_title(self):
         return "Masked Active Template Model"
 
-    def _instance(self, shape_instance, template):
+    def _instance(self, scale_index, shape_instance, template):
         landmarks = template.landmarks["source"]
 
         reference_frame = build_patch_reference_frame(
-            shape_instance, patch_shape=self.patch_shape
+            shape_instance, patch_shape=self.patch_shape[scale_index]
         )
 
         transform = self.transform(reference_frame.landmarks["source"], landmarks)
@@ -719,7 +719,7 @@ class LinearATM(ATM):
         )
 
     # TODO: implement me!
-    def _instance(self, shape_instance, template):
+    def _instance(self, scale_index, shape_instance, template):
         raise NotImplementedError()
 
     def build_fitter_interfaces(self, sampling):
@@ -884,7 +884,7 @@ class LinearMaskedATM(ATM):
         )
 
     # TODO: implement me!
-    def _instance(self, shape_instance, template):
+    def _instance(self, scale_index, shape_instance, template):
         raise NotImplementedError()
 
     def build_fitter_interfaces(self, sampling):
@@ -1027,7 +1027,7 @@ class PatchATM(ATM):
             verbose=verbose,
         )
 
-    def _instance(self, shape_instance, template):
+    def _instance(self, scale_index, shape_instance, template):
         return shape_instance, template
 
     def build_fitter_interfaces(self, sampling):
-- 
2.43.0


From 89245c4e4f7b5a68d96666460b19c259578346e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:40 +0000
Subject: [PATCH 56/86] fix: centre the kernel of an inverted thin plate spline
 on its own source

---
 menpofit/transform/thinsplatesplines.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/menpofit/transform/thinsplatesplines.py b/menpofit/transform/thinsplatesplines.py
index b38dcc8..e38f7de 100644
--- a/menpofit/transform/thinsplatesplines.py
+++ b/menpofit/transform/thinsplatesplines.py
@@ -29,6 +29,17 @@ class DifferentiableThinPlateSplines(ThinPlateSplines, DL, DX):
             kernel = DifferentiableR2LogR2RBF(source.points)
         ThinPlateSplines.__init__(self, source, target, kernel=kernel)
 
+    def pseudoinverse(self):
+        r"""
+        The transform that results from swapping `source` and `target`. Its
+        kernel is centred on the points that it maps from.
+
+        :type: :map:`DifferentiableThinPlateSplines`
+        """
+        return DifferentiableThinPlateSplines(
+            self.target, self.source,
+            kernel=self.kernel.__class__(self.target.points))
+
     def d_dl(self, points):
         """
         Calculates the Jacobian of the TPS warp wrt to the source landmarks
-- 
2.43.0


From f7b261471ae804d89fc2038ede9d751872b849f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 57/86] fix: UnifiedAAMCLM is trained at the reference shape it
 is given

---
 menpofit/unified_aam_clm/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/menpofit/unified_aam_clm/base.py b/menpofit/unified_aam_clm/base.py
index f6c12e6..7575e74 100644
--- a/menpofit/unified_aam_clm/base.py
+++ b/menpofit/unified_aam_clm/base.py
@@ -203,9 +203,11 @@ class UnifiedAAMCLM(object):
 
     def _train(self, images, group=None, verbose=False):
         checks.check_landmark_trilist(images[0], self.transform, group=group)
-        self.reference_shape = compute_reference_shape(
-            [i.landmarks[group] for i in images], self.diagonal, verbose=verbose
-        )
+        if self.reference_shape is None:
+            # If no reference shape was given, use the mean of the images
+            self.reference_shape = compute_reference_shape(
+                [i.landmarks[group] for i in images], self.diagonal, verbose=verbose
+            )
 
         # normalize images
         images = rescale_images_to_reference_shape(
-- 
2.43.0


From c485aa943d36d68bf58f8668fe2558311aace787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 58/86] fix: UnifiedAAMCLM reference frames have the requested
 boundary

---
 menpofit/unified_aam_clm/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/unified_aam_clm/base.py b/menpofit/unified_aam_clm/base.py
index 7575e74..3fcb334 100644
--- a/menpofit/unified_aam_clm/base.py
+++ b/menpofit/unified_aam_clm/base.py
@@ -191,7 +191,7 @@ class UnifiedAAMCLM(object):
     def _warp_images(
         self, images, shapes, reference_shape, scale_index, prefix, verbose
     ):
-        reference_frame = build_reference_frame(reference_shape)
+        reference_frame = self._build_reference_frame(reference_shape)
         return warp_images(
             images,
             shapes,
-- 
2.43.0


From d3b450809bea7f12719b7f3d9b1e18a7cba2b171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:08 +0000
Subject: [PATCH 59/86] fix: models can be incremented with a single sample
 (align_shapes of one shape)

---
 menpofit/builder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/menpofit/builder.py b/menpofit/builder.py
index 72f967a..b890770 100644
--- a/menpofit/builder.py
+++ b/menpofit/builder.py
@@ -421,6 +421,9 @@ def align_shapes(shapes):
     """
     # centralize shapes
     centered_shapes = [Translation(-s.centre()).apply(s) for s in shapes]
+    if len(centered_shapes) == 1:
+        # there is nothing to align a single shape with
+        return centered_shapes
     # align centralized shape using Procrustes Analysis
     gpa = GeneralizedProcrustesAnalysis(centered_shapes)
     return [s.aligned_source() for s in gpa.transforms]
-- 
2.43.0


From c25a7c50e5dcc3925c3dd7ec0ba126c99f71caea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:08 +0000
Subject: [PATCH 60/86] fix: linear AAMs and ATMs keep one reference frame per
 scale

---
 menpofit/aam/base.py | 16 ++++++++++++----
 menpofit/atm/base.py | 16 ++++++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/menpofit/aam/base.py b/menpofit/aam/base.py
index cf5bd13..d1793eb 100644
--- a/menpofit/aam/base.py
+++ b/menpofit/aam/base.py
@@ -808,6 +808,10 @@ class LinearAAM(AAM):
         mean_aligned_shape = mean_pointcloud(align_shapes(shapes))
         self.n_landmarks = mean_aligned_shape.n_points
         self.reference_frame = build_reference_frame(mean_aligned_shape)
+        # every scale has its own frame, which increments and warps reuse
+        if scale_index == 0:
+            self._reference_frames = []
+        self._reference_frames.append(self.reference_frame)
         dense_shapes = densify_shapes(shapes, self.reference_frame, self.transform)
 
         # Build dense shape model
@@ -817,7 +821,7 @@ class LinearAAM(AAM):
     def _increment_shape_model(self, shapes, scale_index, forgetting_factor=1.0):
         aligned_shapes = align_shapes(shapes)
         dense_shapes = densify_shapes(
-            aligned_shapes, self.reference_frame, self.transform
+            aligned_shapes, self._reference_frames[scale_index], self.transform
         )
         # Increment shape model
         self.shape_models[scale_index].increment(
@@ -832,7 +836,7 @@ class LinearAAM(AAM):
         return warp_images(
             images,
             shapes,
-            self.reference_frame,
+            self._reference_frames[scale_index],
             self.transform,
             prefix=prefix,
             verbose=verbose,
@@ -988,6 +992,10 @@ class LinearMaskedAAM(AAM):
         self.reference_frame = build_patch_reference_frame(
             mean_aligned_shape, patch_shape=self.patch_shape[scale_index]
         )
+        # every scale has its own frame, which increments and warps reuse
+        if scale_index == 0:
+            self._reference_frames = []
+        self._reference_frames.append(self.reference_frame)
         dense_shapes = densify_shapes(shapes, self.reference_frame, self.transform)
         # Build dense shape model
         max_sc = self.max_shape_components[scale_index]
@@ -996,7 +1004,7 @@ class LinearMaskedAAM(AAM):
     def _increment_shape_model(self, shapes, scale_index, forgetting_factor=1.0):
         aligned_shapes = align_shapes(shapes)
         dense_shapes = densify_shapes(
-            aligned_shapes, self.reference_frame, self.transform
+            aligned_shapes, self._reference_frames[scale_index], self.transform
         )
         # Increment shape model
         self.shape_models[scale_index].increment(
@@ -1011,7 +1019,7 @@ class LinearMaskedAAM(AAM):
         return warp_images(
             images,
             shapes,
-            self.reference_frame,
+            self._reference_frames[scale_index],
             self.transform,
             prefix=prefix,
             verbose=verbose,
diff --git a/menpofit/atm/base.py b/menpofit/atm/base.py
index 9767c62..b6b9010 100644
--- a/menpofit/atm/base.py
+++ b/menpofit/atm/base.py
@@ -687,6 +687,10 @@ class LinearATM(ATM):
         mean_aligned_shape = mean_pointcloud(align_shapes(shapes))
         self.n_landmarks = mean_aligned_shape.n_points
         self.reference_frame = build_reference_frame(mean_aligned_shape)
+        # every scale has its own frame, which increments and warps reuse
+        if scale_index == 0:
+            self._reference_frames = []
+        self._reference_frames.append(self.reference_frame)
         dense_shapes = densify_shapes(shapes, self.reference_frame, self.transform)
 
         # Build dense shape model
@@ -696,7 +700,7 @@ class LinearATM(ATM):
     def _increment_shape_model(self, shapes, scale_index, forgetting_factor=1.0):
         aligned_shapes = align_shapes(shapes)
         dense_shapes = densify_shapes(
-            aligned_shapes, self.reference_frame, self.transform
+            aligned_shapes, self._reference_frames[scale_index], self.transform
         )
         # Increment shape model
         self.shape_models[scale_index].increment(
@@ -712,7 +716,7 @@ class LinearATM(ATM):
         return warp_images(
             [template],
             [shape],
-            self.reference_frame,
+            self._reference_frames[scale_index],
             self.transform,
             prefix=prefix,
             verbose=verbose,
@@ -853,6 +857,10 @@ class LinearMaskedATM(ATM):
         self.reference_frame = build_patch_reference_frame(
             mean_aligned_shape, patch_shape=self.patch_shape[scale_index]
         )
+        # every scale has its own frame, which increments and warps reuse
+        if scale_index == 0:
+            self._reference_frames = []
+        self._reference_frames.append(self.reference_frame)
         dense_shapes = densify_shapes(shapes, self.reference_frame, self.transform)
         # Build dense shape model
         max_sc = self.max_shape_components[scale_index]
@@ -861,7 +869,7 @@ class LinearMaskedATM(ATM):
     def _increment_shape_model(self, shapes, scale_index, forgetting_factor=1.0):
         aligned_shapes = align_shapes(shapes)
         dense_shapes = densify_shapes(
-            aligned_shapes, self.reference_frame, self.transform
+            aligned_shapes, self._reference_frames[scale_index], self.transform
         )
         # Increment shape model
         self.shape_models[scale_index].increment(
@@ -877,7 +885,7 @@ class LinearMaskedATM(ATM):
         return warp_images(
             [template],
             [shape],
-            self.reference_frame,
+            self._reference_frames[scale_index],
             self.transform,
             prefix=prefix,
             verbose=verbose,
-- 
2.43.0


From 4f00a0c533f90a80d1b635223ee907be4a068139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:08 +0000
Subject: [PATCH 61/86] fix: ATMs keep one warped template per scale when they
 are incremented

---
 menpofit/atm/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/menpofit/atm/base.py b/menpofit/atm/base.py
index b6b9010..4b60266 100644
--- a/menpofit/atm/base.py
+++ b/menpofit/atm/base.py
@@ -282,7 +282,11 @@ class ATM(object):
                 scale_prefix,
                 verbose,
             )
-            self.warped_templates.append(warped_template[0])
+            if len(self.warped_templates) <= j:
+                self.warped_templates.append(warped_template[0])
+            else:
+                # one template per scale, however many batches or increments
+                self.warped_templates[j] = warped_template[0]
 
             if verbose:
                 print_dynamic("{}Done\n".format(scale_prefix))
-- 
2.43.0


From 91f3c9b4bdba3212f2d6b71e663801507ae5f630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:14 +0000
Subject: [PATCH 62/86] fix: incremented APS shape models keep the requested
 number of components

---
 menpofit/aps/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/menpofit/aps/base.py b/menpofit/aps/base.py
index 5e47dc5..ee8245a 100644
--- a/menpofit/aps/base.py
+++ b/menpofit/aps/base.py
@@ -321,7 +321,11 @@ class GenerativeAPS(object):
                     )
                 )
             else:
-                self.shape_models[j].increment(aligned_shapes, verbose=verbose)
+                self.shape_models[j].increment(
+                    aligned_shapes,
+                    max_n_components=self.max_shape_components[j],
+                    verbose=verbose,
+                )
 
             # Build the deformation model
             if verbose:
-- 
2.43.0


From b343e6c0f26191a270f315c425c4008e09cf0799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:15 +0000
Subject: [PATCH 63/86] fix: SDM keeps the shapes of all bounding boxes after
 the first scale

---
 menpofit/sdm/fitter.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/menpofit/sdm/fitter.py b/menpofit/sdm/fitter.py
index 0c97761..f2bac19 100644
--- a/menpofit/sdm/fitter.py
+++ b/menpofit/sdm/fitter.py
@@ -297,6 +297,7 @@ class SupervisedDescentFitter(MultiScaleNonParametricFitter):
             # perturbed bounding boxes. If we are at the rest of the scales,
             # then the current shapes are attached on the scaled_images with
             # key '__sdm_current_shape_{}'.
+            n_shapes = [len(s) for s in current_shapes] if j > 0 else None
             current_shapes = []
             if j == 0:
                 # At the first scale, the current shapes are created by aligning
@@ -320,9 +321,9 @@ class SupervisedDescentFitter(MultiScaleNonParametricFitter):
                       'scale.'.format(scale_prefix)
                 wrap = partial(print_progress, prefix=msg,
                                end_with_newline=False, verbose=verbose)
-                for ii in wrap(scaled_images):
+                for ii, n in wrap(list(zip(scaled_images, n_shapes))):
                     c_shapes = []
-                    for k in list(range(self.n_perturbations)):
+                    for k in list(range(n)):
                         c_key = '__sdm_current_shape_{}'.format(k)
                         c_shapes.append(ii.landmarks[c_key])
                     current_shapes.append(c_shapes)
@@ -364,8 +365,8 @@ class SupervisedDescentFitter(MultiScaleNonParametricFitter):
                 # Check if original training image (image_batch) got some current
                 # shape estimations attached. If yes, delete them.
                 if '__sdm_current_shape_0' in image_batch[0].landmarks:
-                    for image in image_batch:
-                        for k in list(range(self.n_perturbations)):
+                    for image, image_shapes in zip(image_batch, current_shapes):
+                        for k in list(range(len(image_shapes))):
                             c_key = '__sdm_current_shape_{}'.format(k)
                             del image.landmarks[c_key]
 
-- 
2.43.0


From 157e0c9c2ea65a487324037229e8a0017a397af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:15 +0000
Subject: [PATCH 64/86] fix: SDM shapes follow features that resize images to
 the next scale

---
 menpofit/sdm/fitter.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/menpofit/sdm/fitter.py b/menpofit/sdm/fitter.py
index f2bac19..43b7a71 100644
--- a/menpofit/sdm/fitter.py
+++ b/menpofit/sdm/fitter.py
@@ -5,6 +5,7 @@ import warnings
 
 from menpo.feature import no_op
 from menpo.base import name_of_callable
+from menpo.transform import AlignmentAffine
 
 from menpofit.visualize import print_progress
 from menpofit.base import batch
@@ -348,10 +349,15 @@ class SupervisedDescentFitter(MultiScaleNonParametricFitter):
                     # Features will be extracted, thus attach current_shapes on
                     # the training images (image_batch)
                     for jj, image_shapes in enumerate(current_shapes):
+                        # The features may have resized the image
+                        feature_transform = AlignmentAffine(
+                            feature_images[jj].landmarks[group],
+                            image_batch[jj].landmarks[group])
                         for k, shape in enumerate(image_shapes):
                             c_key = '__sdm_current_shape_{}'.format(k)
                             image_batch[jj].landmarks[c_key] = \
-                                scale_transforms[jj].apply(shape)
+                                feature_transform.apply(
+                                    scale_transforms[jj].apply(shape))
                 else:
                     # Features won't be extracted;. the same feature_images will
                     # be used for the next scale, thus attach current_shapes on
-- 
2.43.0


From 6e97fc1fd4572741cb14d634398937ed734e173a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:15 +0000
Subject: [PATCH 65/86] fix: DlibERT keeps all bounding boxes after the first
 scale

---
 menpofit/dlib/fitter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/menpofit/dlib/fitter.py b/menpofit/dlib/fitter.py
index 73fa109..71f637a 100644
--- a/menpofit/dlib/fitter.py
+++ b/menpofit/dlib/fitter.py
@@ -329,6 +329,7 @@ class DlibERT(MultiScaleNonParametricFitter):
             # scale, this is done by using generated_bb_func. If we are at the
             # rest of the scales, then the current bboxes are attached on the
             # scaled_images with key '__ert_current_bbox_{}'.
+            n_bboxes = [len(b) for b in current_bounding_boxes] if j > 0 else None
             current_bounding_boxes = []
             if j == 0:
                 # At the first scale, the current bboxes are created by calling
@@ -343,9 +344,9 @@ class DlibERT(MultiScaleNonParametricFitter):
                 wrap = partial(
                     print_progress, prefix=msg, end_with_newline=False, verbose=verbose
                 )
-                for ii in wrap(scaled_images):
+                for ii, n in wrap(list(zip(scaled_images, n_bboxes))):
                     c_bboxes = []
-                    for k in list(range(self.n_perturbations)):
+                    for k in list(range(n)):
                         c_key = "__ert_current_bbox_{}".format(k)
                         c_bboxes.append(ii.landmarks[c_key])
                     current_bounding_boxes.append(c_bboxes)
-- 
2.43.0


From cb5765889fbe01cfec09d1fd11df6e615794f11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:15 +0000
Subject: [PATCH 66/86] fix: images of more than three channels can be
 converted for dlib

---
 menpofit/dlib/conversion.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/menpofit/dlib/conversion.py b/menpofit/dlib/conversion.py
index 9fcbc1f..f965a28 100644
--- a/menpofit/dlib/conversion.py
+++ b/menpofit/dlib/conversion.py
@@ -40,8 +40,7 @@ def copy_dlib_options(options):
 
 
 def image_to_dlib_pixels(im):
-    pixels = np.array(im.as_PILImage())
     # Only supports RGB and Grayscale
     if im.n_channels > 3:
-        pixels = pixels[..., 0]
-    return pixels
+        im = im.extract_channels(0)
+    return np.array(im.as_PILImage())
-- 
2.43.0


From e9f87a2034e92f7be6f8ffb591b8b78e39938149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:24 +0000
Subject: [PATCH 67/86] fix: fitters do not depend on the state a used model
 was left in

---
 menpofit/aam/algorithm/lk.py          | 3 +++
 menpofit/aps/algorithm/gn.py          | 4 ++++
 menpofit/atm/algorithm.py             | 3 +++
 menpofit/clm/algorithm/gd.py          | 3 +++
 menpofit/unified_aam_clm/algorithm.py | 3 +++
 5 files changed, 16 insertions(+)

diff --git a/menpofit/aam/algorithm/lk.py b/menpofit/aam/algorithm/lk.py
index b1b6914..0eba28c 100644
--- a/menpofit/aam/algorithm/lk.py
+++ b/menpofit/aam/algorithm/lk.py
@@ -769,6 +769,9 @@ class LucasKanade(object):
         # vectorize it and mask it
         self.a_bar_m = self.a_bar.as_vector()[self.interface.i_mask]
 
+        # the Jacobians are the ones at the mean shape, regardless of the state
+        # that a previous use of the (shared) model has left behind
+        self.transform._from_vector_inplace(np.zeros(self.n))
         # compute warp jacobian
         self.dW_dp = self.interface.warp_jacobian()
 
diff --git a/menpofit/aps/algorithm/gn.py b/menpofit/aps/algorithm/gn.py
index f90a9fb..5f643ce 100644
--- a/menpofit/aps/algorithm/gn.py
+++ b/menpofit/aps/algorithm/gn.py
@@ -357,6 +357,10 @@ class GaussNewton(object):
         # grab number of shape parameters
         self.n = self.transform.n_parameters
 
+        # the Jacobians are the ones at the mean shape, regardless of the state
+        # that a previous use of the (shared) model has left behind
+        self.transform._from_vector_inplace(np.zeros(self.n))
+
         # grab appearance model precision
         self.Q_a = self.appearance_model.precision
         # mask it only if the sampling mask is not all True
diff --git a/menpofit/atm/algorithm.py b/menpofit/atm/algorithm.py
index adea9d3..fd5c881 100644
--- a/menpofit/atm/algorithm.py
+++ b/menpofit/atm/algorithm.py
@@ -205,6 +205,9 @@ class LucasKanade(object):
         # vectorize template and mask it
         self.t_m = self.template.as_vector()[self.interface.i_mask]
 
+        # the Jacobians are the ones at the mean shape, regardless of the state
+        # that a previous use of the (shared) model has left behind
+        self.transform._from_vector_inplace(np.zeros(self.n))
         # compute warp jacobian
         self.dW_dp = self.interface.warp_jacobian()
 
diff --git a/menpofit/clm/algorithm/gd.py b/menpofit/clm/algorithm/gd.py
index 3db9cac..ccbe25a 100644
--- a/menpofit/clm/algorithm/gd.py
+++ b/menpofit/clm/algorithm/gd.py
@@ -48,6 +48,9 @@ class GradientDescentCLMAlgorithm(object):
         pdm_prior = self.rho2 / self.transform.model.eigenvalues
         self.rho2_inv_L = np.hstack((sim_prior, pdm_prior))
 
+        # the Jacobians are the ones at the mean shape, regardless of the state
+        # that a previous use of the (shared) model has left behind
+        self.transform._from_vector_inplace(np.zeros(self.transform.n_parameters))
         # Compute Jacobian
         J = np.rollaxis(self.transform.d_dp(None), -1, 1)
         self.J = J.reshape((-1, J.shape[-1]))
diff --git a/menpofit/unified_aam_clm/algorithm.py b/menpofit/unified_aam_clm/algorithm.py
index f51f469..0a756a6 100644
--- a/menpofit/unified_aam_clm/algorithm.py
+++ b/menpofit/unified_aam_clm/algorithm.py
@@ -50,6 +50,9 @@ class UnifiedAlgorithm(object):
         self._precompute()
 
     def _precompute(self, **kwargs):
+        # the Jacobians are the ones at the mean shape, regardless of the state
+        # that a previous use of the (shared) model has left behind
+        self.transform._from_vector_inplace(np.zeros(self.transform.n_parameters))
         # Mask Appearance Model
         self._U = self.appearance_model.components.T
         self._pinv_U = np.linalg.pinv(
-- 
2.43.0


From 49d763d1b68aebdaf2b01c5f57c59daa108d4246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:38 +0000
Subject: [PATCH 68/86] fix: the active shape model step moves to the response
 peak for all search shapes

---
 menpofit/clm/algorithm/gd.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/menpofit/clm/algorithm/gd.py b/menpofit/clm/algorithm/gd.py
index ccbe25a..44c89d4 100644
--- a/menpofit/clm/algorithm/gd.py
+++ b/menpofit/clm/algorithm/gd.py
@@ -97,9 +97,9 @@ class ActiveShapeModel(GradientDescentCLMAlgorithm):
         # Call super method
         super(ActiveShapeModel, self)._precompute()
 
-        # Build grid associated to size of the search space
-        self.half_search_shape = np.round(
-            np.asarray(self.expert_ensemble.search_shape) / 2).astype(np.int64)
+        # The grid is relative to the centre of the search space
+        self.half_search_shape = np.asarray(
+            self.expert_ensemble.search_shape) // 2
         self.search_grid = self.search_grid[None, None]
 
         # Compute Gaussian-KDE grid
@@ -171,7 +171,7 @@ class ActiveShapeModel(GradientDescentCLMAlgorithm):
             max_indices = np.hstack((max_indices[0], max_indices[1]))
             max_indices = max_indices[:, None, None, None, ...]
             max_indices -= self.half_search_shape
-            gaussian_responses = self.mvn.pdf(max_indices + self.search_grid)
+            gaussian_responses = self.mvn.pdf(self.search_grid - max_indices)
             # Normalise smoothed responses
             gaussian_responses /= np.sum(gaussian_responses,
                                          axis=(-2, -1))[..., None, None]
@@ -181,7 +181,7 @@ class ActiveShapeModel(GradientDescentCLMAlgorithm):
                                 candidate_landmarks, axis=(-3, -2))
 
             # Compute shape error term
-            error = target.as_vector() - new_target.ravel()
+            error = new_target.ravel() - target.as_vector()
 
             # Solve for increments on the shape parameters
             if map_inference:
-- 
2.43.0


From 62d20eec3b78f6b6f58e1e48e8aeb29983aead92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:20 +0000
Subject: [PATCH 69/86] fix: ECC scales the additive Jacobian by the warped
 image, not by the whole one

---
 menpofit/lk/residual.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/menpofit/lk/residual.py b/menpofit/lk/residual.py
index defcbf7..42b91ac 100755
--- a/menpofit/lk/residual.py
+++ b/menpofit/lk/residual.py
@@ -519,7 +519,17 @@ class ECC(Residual):
             The steepest descent images
         """
         # normalize image
-        norm_image = self._normalise_images(image)
+        if forward:
+            # it is the warped image that is compared with the template, so
+            # the gradient has to be expressed in its normalised intensities
+            template, transform = forward
+            IWxp = image.warp_to_mask(template.mask, transform,
+                                      warp_landmarks=False).as_vector()
+            norm_image = image.copy()
+            norm_image.pixels = (image.pixels /
+                                 scipy.linalg.norm(IWxp - IWxp.mean()))
+        else:
+            norm_image = self._normalise_images(image)
 
         # compute gradient
         # gradient:  dims x ch x pixels
-- 
2.43.0


From 8ab1b1b3443297584f40a23b38a0556b0f64d770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:15 +0000
Subject: [PATCH 70/86] fix: a change of the points in place is noticed by
 ModelDrivenTransform.d_dp

---
 menpofit/transform/modeldriven.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/transform/modeldriven.py b/menpofit/transform/modeldriven.py
index b284dcb..2020f77 100644
--- a/menpofit/transform/modeldriven.py
+++ b/menpofit/transform/modeldriven.py
@@ -232,8 +232,8 @@ class ModelDrivenTransform(Transform, Targetable, Vectorizable,
             # recompute dW/dl, the derivative each point wrt
             # the source landmarks
             self.dW_dl = self.transform.d_dl(points)
-            # cache points
-            self._cached_points = points
+            # cache (a copy of the) points
+            self._cached_points = np.array(points)
 
         # dX/dp is simply the Jacobian of the PDM
         dX_dp = self.pdm.d_dp(points)
-- 
2.43.0


From 59133be192b1819bd86b1de170de22124391fc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:25 +0000
Subject: [PATCH 71/86] fix: model instances keep their own copy of the
 parameters they are given

---
 menpofit/modelinstance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/modelinstance.py b/menpofit/modelinstance.py
index f1e884f..abdc035 100644
--- a/menpofit/modelinstance.py
+++ b/menpofit/modelinstance.py
@@ -176,7 +176,7 @@ class ModelInstance(Targetable, Vectorizable, DP):
         Updates this `menpofit.modelinstance.ModelInstance` from it's
         vectorized form (in this case, simply the weights on the linear model)
         """
-        self._weights = vector
+        self._weights = np.array(vector)
         self._sync_target_from_state()
 
 
@@ -685,7 +685,7 @@ class OrthoPDM(GlobalPDM):
         self._update_global_weights(self.similarity_weights)
 
     def _update_global_weights(self, global_weights):
-        self.similarity_weights = global_weights
+        self.similarity_weights = np.array(global_weights)
         new_target = self.similarity_model.instance(global_weights)
         self.global_transform.set_target(new_target)
 
-- 
2.43.0


From 510d19c5e121e7db0ba314d9241e8a626bc19602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:25 +0000
Subject: [PATCH 72/86] fix: view_iterations numbers the iterations of
 parametric results from 1

---
 menpofit/result.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/menpofit/result.py b/menpofit/result.py
index 300f134..5c6a3e0 100644
--- a/menpofit/result.py
+++ b/menpofit/result.py
@@ -2272,7 +2272,7 @@ class ParametricIterativeResult(NonParametricIterativeResult):
         subplots_titles = {}
         iters_offset = 0
         if self.initial_shape is not None:
-            iters_offset = 1
+            iters_offset = -1
         for j in iters:
             if j == 0 and self.initial_shape is not None:
                 name = "Initial"
@@ -2927,7 +2927,7 @@ class MultiScaleParametricIterativeResult(MultiScaleNonParametricIterativeResult
         n_digits = len(str(self.n_iters))
         groups = []
         subplots_titles = {}
-        iters_offset = -2
+        iters_offset = 0
         if self.initial_shape is not None:
             iters_offset = -1
         for j in iters:
-- 
2.43.0


From 9c36cea4e935776999f6559efafc9676ad28a653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:38 +0000
Subject: [PATCH 73/86] fix: view_iterations shows the reconstruction of every
 scale

---
 menpofit/result.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/menpofit/result.py b/menpofit/result.py
index 5c6a3e0..3ca93da 100644
--- a/menpofit/result.py
+++ b/menpofit/result.py
@@ -2936,6 +2936,10 @@ class MultiScaleParametricIterativeResult(MultiScaleNonParametricIterativeResult
                 image.landmarks[name] = self.initial_shape
             elif j in self._reconstruction_indices:
                 name = "Reconstruction"
+                if self.n_scales > 1:
+                    # one per scale
+                    scale = self._reconstruction_indices.index(j) + 1
+                    name = "Reconstruction {}".format(scale)
                 image.landmarks[name] = self.shapes[j]
             elif j == len(self.shapes) - 1:
                 name = "Final"
-- 
2.43.0


From a644b4461b7fa3e03d7ebbc89ce3a20de45da00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:55 +0000
Subject: [PATCH 74/86] fix: DlibERT's summary states the cascade depth each
 scale was trained with

---
 menpofit/dlib/fitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/dlib/fitter.py b/menpofit/dlib/fitter.py
index 71f637a..60cfba5 100644
--- a/menpofit/dlib/fitter.py
+++ b/menpofit/dlib/fitter.py
@@ -483,7 +483,7 @@ class DlibERT(MultiScaleNonParametricFitter):
             scales_info.append(
                 lvl_str_tmplt.format(
                     s,
-                    self._dlib_options_templates[k].cascade_depth,
+                    self.algorithms[k].n_iterations,
                     self._dlib_options_templates[k].tree_depth,
                     self._dlib_options_templates[k].num_trees_per_cascade_level,
                     self._dlib_options_templates[k].nu,
-- 
2.43.0


From 84a289864a34e67d609c644ef1582fc7056b8ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:56 +0000
Subject: [PATCH 75/86] fix: view_image_multiple_landmarks leaves one-element
 style lists of the caller alone

---
 menpofit/visualize/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/visualize/base.py b/menpofit/visualize/base.py
index 9ae9ecb..b577931 100644
--- a/menpofit/visualize/base.py
+++ b/menpofit/visualize/base.py
@@ -16,7 +16,7 @@ def _check_multi_argument(arg, n_objects, dtypes, error_str):
         arg = [arg] * n_objects
     elif isinstance(arg, list):
         if len(arg) == 1:
-            arg *= n_objects
+            arg = arg * n_objects
         elif len(arg) != n_objects:
             raise ValueError(error_str)
     else:
-- 
2.43.0


From b31b0dd6392cd26218d2b87a9276b7cd854fc49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:11 +0000
Subject: [PATCH 76/86] fix: smoothing of the UnifiedAAMCLM training images
 keeps to each channel

---
 menpofit/unified_aam_clm/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/menpofit/unified_aam_clm/base.py b/menpofit/unified_aam_clm/base.py
index 3fcb334..ee8b7e4 100644
--- a/menpofit/unified_aam_clm/base.py
+++ b/menpofit/unified_aam_clm/base.py
@@ -25,7 +25,8 @@ from menpofit.transform import DifferentiablePiecewiseAffine, OrthoMDTransform
 
 @ndfeature
 def fsmooth(pixels, sigma, mode="constant"):
-    return gaussian_filter(pixels, sigma, mode=mode)
+    # smooth every channel on its own
+    return gaussian_filter(pixels, (0,) + (sigma,) * (pixels.ndim - 1), mode=mode)
 
 
 class UnifiedAAMCLM(object):
-- 
2.43.0


From bbe6c5d62e72699c7f5c5959f5210dd772593904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:11 +0000
Subject: [PATCH 77/86] fix: images without triangles that piecewise affine
 models get are warned about

---
 menpofit/checks.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/menpofit/checks.py b/menpofit/checks.py
index b92c210..b5e8967 100644
--- a/menpofit/checks.py
+++ b/menpofit/checks.py
@@ -77,8 +77,11 @@ def check_trilist(shape, transform):
         Delaunay Triangulation will be computed and used for warping. This may
         be suboptimal and cause warping artifacts.
     """
-    if not isinstance(shape, TriMesh) and isinstance(transform,
-                                                     PiecewiseAffine):
+    # what is handed over to warp with usually is the class of the transform
+    is_pwa = (issubclass(transform, PiecewiseAffine)
+              if isinstance(transform, type)
+              else isinstance(transform, PiecewiseAffine))
+    if not isinstance(shape, TriMesh) and is_pwa:
         warnings.warn('The given images do not have an explicit triangulation '
                       'applied. A Delaunay Triangulation will be computed '
                       'and used for warping. This may be suboptimal and cause '
-- 
2.43.0


From 0d1939771b73c617f69a3cd6b8a331993a53da68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:40 +0000
Subject: [PATCH 78/86] fix: numbering and labels of landmark groups are
 honoured without the image too

---
 menpofit/visualize/base.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/menpofit/visualize/base.py b/menpofit/visualize/base.py
index b577931..ce15f29 100644
--- a/menpofit/visualize/base.py
+++ b/menpofit/visualize/base.py
@@ -495,7 +495,10 @@ def view_image_multiple_landmarks(
                                   fontstyle=legend_font_style,
                                   fontweight=legend_font_weight,
                                   fontsize=legend_font_size)
-                image.landmarks[group].view(
+                landmarks = image.landmarks[group]
+                if with_labels[k] is not None:
+                    landmarks = landmarks.with_labels(with_labels[k])
+                landmarks.view(
                         image_view=image_view, render_lines=render_lines[k],
                         line_style=line_style[k], line_width=line_width[k],
                         line_colour=line_colour[k],
@@ -505,6 +508,14 @@ def view_image_multiple_landmarks(
                         marker_edge_width=marker_edge_width[k],
                         marker_edge_colour=marker_edge_colour[k],
                         marker_face_colour=marker_face_colour[k],
+                        render_numbering=render_numbering,
+                        numbers_horizontal_align=numbers_horizontal_align,
+                        numbers_vertical_align=numbers_vertical_align,
+                        numbers_font_name=numbers_font_name,
+                        numbers_font_size=numbers_font_size,
+                        numbers_font_style=numbers_font_style,
+                        numbers_font_weight=numbers_font_weight,
+                        numbers_font_colour=numbers_font_colour,
                         render_axes=render_axes, axes_font_name=axes_font_name,
                         axes_font_size=axes_font_size,
                         axes_font_style=axes_font_style,
-- 
2.43.0


From da20b8067b8b3b83d296e02c1a5439188b47f174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:51 +0000
Subject: [PATCH 79/86] fix: legend entries of several landmark groups stand
 for the groups they name

---
 menpofit/visualize/base.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/menpofit/visualize/base.py b/menpofit/visualize/base.py
index ce15f29..950a1cd 100644
--- a/menpofit/visualize/base.py
+++ b/menpofit/visualize/base.py
@@ -374,6 +374,13 @@ def view_image_multiple_landmarks(
     # Initialize renderer
     renderer = MatplotlibRenderer(figure_id=figure_id, new_figure=new_figure)
 
+    # what stands for each of the groups in the legend
+    handles, names = [], []
+
+    def drawn():
+        axes = plt.gca()
+        return list(axes.lines) + list(axes.collections)
+
     # Render
     if render_image:
         # image will be displayed
@@ -394,6 +401,7 @@ def view_image_multiple_landmarks(
                                   fontstyle=legend_font_style,
                                   fontweight=legend_font_weight,
                                   fontsize=legend_font_size)
+                before = drawn()
                 renderer = image.view_landmarks(
                         channels=channels, group=group,
                         with_labels=with_labels[k], without_labels=None,
@@ -441,6 +449,10 @@ def view_image_multiple_landmarks(
                         interpolation=interpolation, alpha=alpha,
                         cmap_name=cmap_name, figure_size=figure_size,
                         **mask_arguments)
+                new = [a for a in drawn() if a not in before]
+                if new:
+                    handles.append(new[0])
+                    names.append(subplots_titles[group])
             if not subplots_enabled:
                 if render_legend:
                     # Options related to legend's font
@@ -450,7 +462,7 @@ def view_image_multiple_landmarks(
                             'weight': legend_font_weight}
 
                     # display legend on side
-                    plt.gca().legend([subplots_titles[g] for g in groups],
+                    plt.gca().legend(handles, names,
                                      title=legend_title, prop=prop,
                                      loc=legend_location,
                                      bbox_to_anchor=legend_bbox_to_anchor,
@@ -498,6 +510,7 @@ def view_image_multiple_landmarks(
                 landmarks = image.landmarks[group]
                 if with_labels[k] is not None:
                     landmarks = landmarks.with_labels(with_labels[k])
+                before = drawn()
                 landmarks.view(
                         image_view=image_view, render_lines=render_lines[k],
                         line_style=line_style[k], line_width=line_width[k],
@@ -524,6 +537,10 @@ def view_image_multiple_landmarks(
                         axes_y_limits=axes_y_limits,
                         axes_x_ticks=axes_x_ticks, axes_y_ticks=axes_y_ticks,
                         figure_size=figure_size)
+                new = [a for a in drawn() if a not in before]
+                if new:
+                    handles.append(new[0])
+                    names.append(subplots_titles[group])
             if not subplots_enabled:
                 if render_legend:
                     # Options related to legend's font
@@ -533,7 +550,7 @@ def view_image_multiple_landmarks(
                             'weight': legend_font_weight}
 
                     # display legend on side
-                    plt.gca().legend([subplots_titles[g] for g in groups],
+                    plt.gca().legend(handles, names,
                                      title=legend_title, prop=prop,
                                      loc=legend_location,
                                      bbox_to_anchor=legend_bbox_to_anchor,
-- 
2.43.0


From b757367e45600f5dd33903909baac2e151975080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:37 +0000
Subject: [PATCH 80/86] fix: non-parametric fittings without iterations end at
 their initial shape

---
 menpofit/result.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/menpofit/result.py b/menpofit/result.py
index 3ca93da..d7ace34 100644
--- a/menpofit/result.py
+++ b/menpofit/result.py
@@ -678,8 +678,9 @@ class NonParametricIterativeResult(Result):
     def __init__(
         self, shapes, initial_shape=None, image=None, gt_shape=None, costs=None
     ):
+        # without any iterations the fitting ends where it started
         super(NonParametricIterativeResult, self).__init__(
-            final_shape=shapes[-1],
+            final_shape=shapes[-1] if len(shapes) > 0 else initial_shape,
             image=image,
             initial_shape=initial_shape,
             gt_shape=gt_shape,
-- 
2.43.0


From 0f65fa486291180af0defdc8a2cb12ad18c5ddfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:38 +0000
Subject: [PATCH 81/86] fix: supervised descent trains on images with different
 numbers of starts

The increments were laid out for as many starts in every image as the first
one has, so that boxes provided in different numbers failed with an IndexError
(and would have been reported against the truth of another image).
---
 menpofit/sdm/algorithm/base.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/menpofit/sdm/algorithm/base.py b/menpofit/sdm/algorithm/base.py
index 12104b3..b154a1c 100644
--- a/menpofit/sdm/algorithm/base.py
+++ b/menpofit/sdm/algorithm/base.py
@@ -80,8 +80,10 @@ class BaseSupervisedDescentAlgorithm(object):
             raise ValueError('Algorithm must be trained before it can be '
                              'incremented.')
 
-        n_perturbations = len(current_shapes[0])
         template_shape = gt_shapes[0]
+        # images need not have the same number of current shapes
+        gt_of_current = [gt_s for gt_s, c_s in zip(gt_shapes, current_shapes)
+                         for _ in c_s]
 
         # obtain delta_x and gt_x
         delta_x, gt_x = self._compute_delta_x(gt_shapes, current_shapes)
@@ -109,8 +111,8 @@ class BaseSupervisedDescentAlgorithm(object):
             # Estimate delta_points
             estimated_delta_x = self.regressors[k].predict(features)
             if verbose:
-                self._print_regression_info(template_shape, gt_shapes,
-                                            n_perturbations, delta_x,
+                self._print_regression_info(template_shape, gt_of_current,
+                                            1, delta_x,
                                             estimated_delta_x, k,
                                             prefix=prefix)
 
@@ -272,12 +274,11 @@ def compute_non_parametric_delta_x(gt_shapes, current_shapes):
         The ground truth shape vectors.
     """
     n_x = gt_shapes[0].n_parameters
-    n_gt_shapes = len(gt_shapes)
-    n_current_shapes = len(current_shapes[0])
+    n_samples = sum(len(c_s) for c_s in current_shapes)
 
     # initialize current, ground truth and delta parameters
-    gt_x = np.empty((n_gt_shapes * n_current_shapes, n_x))
-    delta_x = np.empty((n_gt_shapes * n_current_shapes, n_x))
+    gt_x = np.empty((n_samples, n_x))
+    delta_x = np.empty((n_samples, n_x))
 
     # obtain ground truth points and compute delta points
     k = 0
@@ -438,7 +439,7 @@ def compute_parametric_delta_x(gt_shapes, current_shapes, model):
         The ground truth parameters vectors.
     """
     # initialize current and delta parameters arrays
-    n_samples = len(gt_shapes) * len(current_shapes[0])
+    n_samples = sum(len(c_s) for c_s in current_shapes)
     gt_params = np.empty((n_samples, model.n_parameters))
     delta_params = np.empty_like(gt_params)
 
-- 
2.43.0


From 74921da7b249957ccd260f7415807d56213207bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:15 +0000
Subject: [PATCH 82/86] fix: costs of pictorial structures fitted with a
 sampling mask

The appearance cost applied the precision of all the pixels to the residual of
the sampled ones and raised a ValueError.
---
 menpofit/aps/algorithm/gn.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/menpofit/aps/algorithm/gn.py b/menpofit/aps/algorithm/gn.py
index 5f643ce..8d1f22b 100644
--- a/menpofit/aps/algorithm/gn.py
+++ b/menpofit/aps/algorithm/gn.py
@@ -431,8 +431,8 @@ class Inverse(GaussNewton):
         """
         # define cost closures
         def appearance_cost_closure(x):
-            return self.appearance_model._mahalanobis_distance(
-                x[..., None].T, subtract_mean=False, square_root=False)
+            # of the sampled pixels only
+            return x.dot(self.Q_a.dot(x))
 
         def deformation_cost_closure(x):
             tmp_shape = x.from_vector(x.as_vector() -
@@ -569,8 +569,8 @@ class Forward(GaussNewton):
         """
         # define cost closures
         def appearance_cost_closure(x):
-            return self.appearance_model._mahalanobis_distance(
-                x[..., None].T, subtract_mean=False, square_root=False)
+            # of the sampled pixels only
+            return x.dot(self.Q_a.dot(x))
 
         def deformation_cost_closure(x):
             tmp_shape = x.from_vector(x.as_vector() -
-- 
2.43.0


From c1328bb00363af95678e24c340cefe3ee78d2dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:17 +0000
Subject: [PATCH 83/86] fix: model-driven warps implement pseudoinverse

---
 menpofit/transform/modeldriven.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/menpofit/transform/modeldriven.py b/menpofit/transform/modeldriven.py
index 2020f77..94c5bed 100644
--- a/menpofit/transform/modeldriven.py
+++ b/menpofit/transform/modeldriven.py
@@ -186,7 +186,7 @@ class ModelDrivenTransform(Transform, Targetable, Vectorizable,
         """
         return False
 
-    def _build_pseudoinverse(self):
+    def pseudoinverse(self):
         return self.from_vector(-self.as_vector())
 
     def pseudoinverse_vector(self, vector):
-- 
2.43.0


From e5be65f31df65e6e0a6e31c49b8fca5a196de1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:17 +0000
Subject: [PATCH 84/86] fix: frequency filters of experts keep their channels

---
 menpofit/clm/expert/ensemble.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/menpofit/clm/expert/ensemble.py b/menpofit/clm/expert/ensemble.py
index 9537db6..dab7220 100644
--- a/menpofit/clm/expert/ensemble.py
+++ b/menpofit/clm/expert/ensemble.py
@@ -178,7 +178,8 @@ class ConvolutionBasedExpertEnsemble(ExpertEnsemble):
         for fft_padded_filter in self.fft_padded_filters:
             spatial_filter = np.real(ifft2(fft_padded_filter))
             spatial_filter = crop(spatial_filter, self.patch_shape)[:, ::-1, ::-1]
-            frequency_filter = np.abs(fftshift(fft2(spatial_filter)))
+            frequency_filter = np.abs(fftshift(fft2(spatial_filter),
+                                               axes=(-2, -1)))
             filter_images.append(Image(frequency_filter))
         return filter_images
 
-- 
2.43.0


From a7ca9857d569c34ec3c35fdfe78ee6a9bffabc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:17 +0000
Subject: [PATCH 85/86] fix: steps of the enhanced correlation coefficient

---
 menpofit/lk/residual.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/menpofit/lk/residual.py b/menpofit/lk/residual.py
index 42b91ac..bdac0e1 100755
--- a/menpofit/lk/residual.py
+++ b/menpofit/lk/residual.py
@@ -518,6 +518,9 @@ class ECC(Residual):
         VT_dW_dp : ``(N, n_params)`` `ndarray`
             The steepest descent images
         """
+        # the image that is linearised, see steepest_descent_update
+        self._linearised = image
+
         # normalize image
         if forward:
             # it is the warped image that is compared with the template, so
@@ -613,18 +616,25 @@ class ECC(Residual):
         self._normalised_template = self._normalise_images(
             template).as_vector()
 
-        Gt = sdi.T.dot(self._normalised_template)
-        Gw = sdi.T.dot(self._normalised_IWxp)
+        # It is the intensities that are not linearised that get scaled: those
+        # of the template, unless the framework is inverse
+        inverse = template is self._linearised
+        if inverse:
+            lin, ref = self._normalised_template, self._normalised_IWxp
+        else:
+            lin, ref = self._normalised_IWxp, self._normalised_template
+
+        Gr = sdi.T.dot(ref)
+        Gl = sdi.T.dot(lin)
 
         # Calculate the numerator
-        IWxp_norm = scipy.linalg.norm(self._normalised_IWxp)
-        num1 = IWxp_norm ** 2
-        num2 = np.dot(Gw.T, np.dot(self._H_inv, Gw))
+        num1 = scipy.linalg.norm(lin) ** 2
+        num2 = np.dot(Gl.T, np.dot(self._H_inv, Gl))
         num = num1 - num2
 
         # Calculate the denominator
-        den1 = np.dot(self._normalised_template, self._normalised_IWxp)
-        den2 = np.dot(Gt.T, np.dot(self._H_inv, Gw))
+        den1 = np.dot(ref, lin)
+        den2 = np.dot(Gr.T, np.dot(self._H_inv, Gl))
         den = den1 - den2
 
         # Calculate lambda to choose the step size
@@ -632,13 +642,15 @@ class ECC(Residual):
         if den > 0:
             l = num / den
         else:
-            den3 = np.dot(Gt.T, np.dot(self._H_inv, Gt))
+            den3 = np.dot(Gr.T, np.dot(self._H_inv, Gr))
             l1 = np.sqrt(num2 / den3)
             l2 = - den / den3
             l = np.maximum(l1, l2)
 
-        self._error_img = l * self._normalised_IWxp - self._normalised_template
-
+        if inverse:
+            self._error_img = l * ref - lin
+        else:
+            self._error_img = lin - l * ref
         return sdi.T.dot(self._error_img)
 
     def cost_closure(self):
-- 
2.43.0


From 1e8495f7c26ebc6b7a0f90fd6446fc48ca077499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:43 +0000
Subject: [PATCH 86/86] fix: steepest descent images of the gradient residuals

---
 menpofit/lk/residual.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/menpofit/lk/residual.py b/menpofit/lk/residual.py
index bdac0e1..0c4b9d6 100755
--- a/menpofit/lk/residual.py
+++ b/menpofit/lk/residual.py
@@ -732,9 +732,6 @@ class GradientImages(Residual):
         second_grad = second_grad.masked_pixels().flatten().reshape(
             (n_dims, n_dims,  n_channels) + second_grad.shape)
 
-        # Fix crossed derivatives: dydx = dxdy
-        second_grad[1, 0, ...] = second_grad[0, 1, ...]
-
         # compute steepest descent images
         # gradient: dims x dims x ch x (h x w)
         # dw_dp:    dims x           x (h x w) x params
@@ -915,20 +912,17 @@ class GradientCorrelation(Residual):
         second_grad = second_grad.masked_pixels().flatten().reshape(
             (n_dims, n_dims,  n_channels) + second_grad.shape)
 
-        # Fix crossed derivatives: dydx = dxdy
-        second_grad[1, 0, ...] = second_grad[0, 1, ...]
-
         # complete full IGOs gradient computation
         # second_grad:  dims x dims x ch x pixels
-        second_grad[1, ...] = (-sin_phi[None, ...] * second_grad[1, ...])
-        second_grad[0, ...] = (cos_phi[None, ...] * second_grad[0, ...])
+        second_grad[:, 1] = (-sin_phi[None, ...] * second_grad[:, 1])
+        second_grad[:, 0] = (cos_phi[None, ...] * second_grad[:, 0])
 
         # compute steepest descent images
         # gradient: dims x dims x ch x pixels
         # dw_dp:    dims x           x pixels x params
         # sdi:                    ch x pixels x params
         sdi = 0
-        aux = second_grad[..., None] * dW_dp[None, :, None, ...]
+        aux = second_grad[..., None] * dW_dp[:, None, None, ...]
         for a in aux.reshape(((-1,) + aux.shape[2:])):
                 sdi += a
 
-- 
2.43.0

