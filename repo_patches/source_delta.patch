From abf07afa21f9a3c02e91542eee4fdb741b4c9c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:37 +0000
Subject: [PATCH 01/36] fix: honour a forced saturation index of 0

---
 src/emva1288/process/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/process/results.py b/src/emva1288/process/results.py
index 051689f..1f0c9d3 100644
--- a/src/emva1288/process/results.py
+++ b/src/emva1288/process/results.py
@@ -91,7 +91,7 @@ class Results1288(object):
             :Short: Saturation index
         """
 
-        if self._index_u_ysat:
+        if self._index_u_ysat is not None:
             return self._index_u_ysat
 
         max_ = 0
-- 
2.43.0


From 96111f30cf686cbe41cb82f50c87ac075ed35d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:37 +0000
Subject: [PATCH 02/36] fix: do not compare the first point with its successor
 in the saturation search

---
 src/emva1288/process/results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/process/results.py b/src/emva1288/process/results.py
index 1f0c9d3..bcfd27d 100644
--- a/src/emva1288/process/results.py
+++ b/src/emva1288/process/results.py
@@ -103,11 +103,11 @@ class Results1288(object):
         for i in range(len(s2_y) - 1, -1, -1):
             # Check that is not a local max
             if (s2_y[i] >= max_) or \
-               (s2_y[abs(i - 1)] >= max_):
+               (s2_y[max(i - 1, 0)] >= max_):
                 max_ = s2_y[i]
                 max_i = i
             elif (s2_y[i] < max_) and \
-                 (s2_y[abs(i - 1)] < max_):
+                 (s2_y[max(i - 1, 0)] < max_):
                 break
 
         self._index_u_ysat = max_i
-- 
2.43.0


From c2ba04e786e456424cbbc4bd85d5f6e6b2566f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:15 +0000
Subject: [PATCH 03/36] fix: high-pass filter of size 1 does not cut the whole
 image

---
 src/emva1288/process/routines.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index 8464780..aa315a8 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -680,6 +680,8 @@ def high_pass_filter(img, dim):
     # Initializing the kernel
     kernel = np.ones((dim, dim))
     sl = dim//2
+    # The borders are cut because they are invalid after the convolution
+    cut = (slice(sl, -sl or None),) * 2
     if isinstance(img, np.ma.MaskedArray):
         # Saving the mask
         mask = np.ma.getmask(img)
@@ -695,7 +697,7 @@ def high_pass_filter(img, dim):
         # number of considred pixels
         value = convolve(value, kernel)
         # Slice off values that are invalid after the convolution
-        value = np.ma.MaskedArray(value, mask)[sl:-sl, sl:-sl]
+        value = np.ma.MaskedArray(value, mask)[cut]
         # After applying the mask all the values should be equal. If not, the
         # filter is not bayer and will not work properly with this code
         if value.max() != value.min():
@@ -707,10 +709,10 @@ def high_pass_filter(img, dim):
         # Finally computing the filtering and slicing off the edges
         img = img.filled(0)
         img = convolve(img, kernel)
-        img = np.ma.array(img, mask=mask)[sl:-sl, sl:-sl]
+        img = np.ma.array(img, mask=mask)[cut]
     else:
         # Set the kernel and compute, then slice off the edges
         kernel *= -1
         kernel[sl, sl] = dim**2-1
-        img = convolve(img, kernel)[sl:-sl, sl:-sl]
+        img = convolve(img, kernel)[cut]
     return {'img': img, 'multiplicator': kernel[sl, sl] + 1}
-- 
2.43.0


From 454c478de53938205b4c98adec06163a575abf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:21 +0000
Subject: [PATCH 04/36] fix: do not count masked pixels in the histograms

---
 src/emva1288/process/routines.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index aa315a8..776fc41 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -250,7 +250,8 @@ def GetFrecs(fft):
 
 
 def Histogram1288(img, Qmax):
-    y = np.ravel(img)
+    # Only the unmasked pixels are considered
+    y = np.ma.compressed(img)
 
     ymin = np.min(y)
     ymax = np.max(y)
-- 
2.43.0


From 3409e62ad67545d58004ded6b9743bfbc328c82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:21 +0000
Subject: [PATCH 05/36] fix: percentages of the accumulated histograms refer to
 the unmasked pixels

---
 src/emva1288/process/results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/process/results.py b/src/emva1288/process/results.py
index bcfd27d..5f1edd3 100644
--- a/src/emva1288/process/results.py
+++ b/src/emva1288/process/results.py
@@ -1164,7 +1164,7 @@ class Results1288(object):
         # Perform the cumulative summation
         h['values'] = np.cumsum(h['values'][::-1])[::-1]
         # we want it as percentage of pixels
-        h['values'] = 100 * h['values'] / y.size
+        h['values'] = 100 * h['values'] / np.ma.count(y)
 
         return h
 
@@ -1219,7 +1219,7 @@ class Results1288(object):
         h['values'] = np.cumsum(h['values'][::-1])[::-1]
 
         # we want it as percentage of pixels
-        h['values'] = 100 * h['values'] / y.size
+        h['values'] = 100 * h['values'] / np.ma.count(y)
 
         return h
 
-- 
2.43.0


From d8d25c674ad4adf13da9ea93465078d298ebda22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:35 +0000
Subject: [PATCH 06/36] fix: PRNU histograms of different numbers of bright and
 dark images

---
 src/emva1288/process/results.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/emva1288/process/results.py b/src/emva1288/process/results.py
index 5f1edd3..a29bc0f 100644
--- a/src/emva1288/process/results.py
+++ b/src/emva1288/process/results.py
@@ -1110,6 +1110,15 @@ class Results1288(object):
         return (np.sqrt(self.s_2_y_pixel - self.s_2_y_pixel_dark) * 100 /
                 (self.spatial['avg_mean'] - self.spatial['avg_mean_dark']))
 
+    def _sum_difference(self):
+        """Difference of the average bright and dark image, upscaled to have
+        only integers, and the scale.
+        """
+        L, L_dark = self.spatial['L'], self.spatial['L_dark']
+        n = np.lcm(L, L_dark)
+        return (self.spatial['sum'] * (n // L) -
+                self.spatial['sum_dark'] * (n // L_dark)), n
+
     @property
     def histogram_PRNU(self):
         """PRNU histogram.
@@ -1125,14 +1134,14 @@ class Results1288(object):
         """
 
         # For prnu, perform the convolution
-        y = self.spatial['sum'] - self.spatial['sum_dark']
+        y, n = self._sum_difference()
         # Applying the filter on the image
         data = routines.high_pass_filter(y, 5)
         y = data['img']
 
         h = routines.Histogram1288(y, self._histogram_Qmax)
         # Rescale the bins
-        h['bins'] /= (self.spatial['L'] * data['multiplicator'])
+        h['bins'] /= (n * data['multiplicator'])
 
         return h
 
@@ -1151,7 +1160,7 @@ class Results1288(object):
         """
 
         # For prnu, perform the convolution
-        y = self.spatial['sum'] - self.spatial['sum_dark']
+        y, n = self._sum_difference()
         data = routines.high_pass_filter(y, 5)
         y = data['img']
         # For the accumulated histogram substract the mean
@@ -1159,7 +1168,7 @@ class Results1288(object):
 
         h = routines.Histogram1288(y, self._histogram_Qmax)
         # Rescale the bins
-        h['bins'] /= (self.spatial['L'] * data['multiplicator'])
+        h['bins'] /= (n * data['multiplicator'])
 
         # Perform the cumulative summation
         h['values'] = np.cumsum(h['values'][::-1])[::-1]
-- 
2.43.0


From aad137d6aff0704d2691c39fef483ddfbeb846f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:04 +0000
Subject: [PATCH 07/36] fix: xml_to_dict parses XML given as text

---
 src/emva1288/process/routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index 776fc41..511ffac 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -463,7 +463,7 @@ def xml_to_dict(xml):
         if os.path.isfile(xml):
             tree = etree.parse(xml)
         else:
-            tree = etree.ElementTree.fromstring(xml)
+            tree = etree.ElementTree(etree.fromstring(xml))
     except:
         print('Problems loading XML')
         return None
-- 
2.43.0


From 88cc05bc30dfa02d622b3f0cb9356da4caaab557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:04 +0000
Subject: [PATCH 08/36] fix: round_significant uses int, np.int does not exist
 anymore

---
 src/emva1288/process/routines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index 511ffac..80948ed 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -513,7 +513,7 @@ def round_significant(v, sig=SIGNIFICANT_DIGITS):
     '''
     if v == 0.0:
         return 0.0
-    return round(v, sig - np.int(np.floor(np.log10(np.abs(v)))) - 1)
+    return round(v, sig - int(np.floor(np.log10(np.abs(v)))) - 1)
 
 
 round_array = np.vectorize(round_significant)
-- 
2.43.0


From af4341b2701ffcc6c165784160b143fe7b846565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:04 +0000
Subject: [PATCH 09/36] fix: arrays of different lengths are not equal in
 compare_xml

---
 src/emva1288/process/routines.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index 80948ed..8e72bc5 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -593,6 +593,10 @@ def compare_xml(x1, x2, filename=None):
                 else:
                     # loop throught the keys
                     for k in k1:
+                        # arrays of one element would be broadcasted
+                        if a1[k].shape != a2[k].shape:
+                            r = False
+                            break
                         try:
                             r = np.max(np.abs(round_array(a1[k]) -
                                               round_array(a2[k]))) == 0.0
-- 
2.43.0


From 14bb0db6902ad36abe15e3616cedca7a2d54d75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:41 +0000
Subject: [PATCH 10/36] fix: get_radiance_for subtracts the dark signal of the
 given exposure time

---
 src/emva1288/camera/camera.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/emva1288/camera/camera.py b/src/emva1288/camera/camera.py
index 5dd0bc5..40d5f2d 100644
--- a/src/emva1288/camera/camera.py
+++ b/src/emva1288/camera/camera.py
@@ -390,7 +390,8 @@ class Camera(object):
             mean = self.img_max
         if not exposure:
             exposure = self.exposure
-        ud = self._u_therm()
+        # dark signal at the exposure time the radiance is computed for
+        ud = self._u_i() * exposure / (10 ** 9)
         ue = ((mean / self.K) - ud)/len(self._qe.w)
         ue *= np.ones(len(self._qe.w))
         up = np.zeros((self.height, self.width, len(self._qe.w)))
-- 
2.43.0


From 7f8d9e255a42582f02a6392ebb525bce1aca7704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:41 +0000
Subject: [PATCH 11/36] fix: honour a maximum black offset of 0

---
 src/emva1288/camera/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/camera/camera.py b/src/emva1288/camera/camera.py
index 40d5f2d..550d88c 100644
--- a/src/emva1288/camera/camera.py
+++ b/src/emva1288/camera/camera.py
@@ -148,7 +148,7 @@ class Camera(object):
         self.K = K
 
         # A good gestimate for maximum blackoffset is 1/16th of the full range
-        if not blackoffset_max:
+        if blackoffset_max is None:
             blackoffset_max = self.img_max // 16
         self.__blackoffsets = np.linspace(blackoffset_min, blackoffset_max,
                                           num=blackoffset_steps)
-- 
2.43.0


From 027025fb744c4f93a14c165f8fc96efff352a9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:41 +0000
Subject: [PATCH 12/36] fix: array_tile returns the requested size also when it
 is no multiple of the pattern

---
 src/emva1288/camera/routines.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/emva1288/camera/routines.py b/src/emva1288/camera/routines.py
index 5d6d166..3131bbd 100644
--- a/src/emva1288/camera/routines.py
+++ b/src/emva1288/camera/routines.py
@@ -201,7 +201,9 @@ def get_bayer_filter(t00, t01, t10, t11, width, height, w):
 def array_tile(array, height, width):
     h, w = ((array.shape[:2]) if array.ndim == 3 else (1, array.shape[-1])
             if array.ndim == 2 else (1, 1))
-    return np.tile(array, (int(height/h), int(width/w), 1))
+    # repeat often enough to cover the size, and cut what is too much
+    reps = (-(-height // h), -(-width // w), 1)
+    return np.tile(array, reps)[:height, :width]
 
 
 def poisson(x, loc, mu=1000):
-- 
2.43.0


From 05c6d27b2f6357c2077547f45940d0807b84d817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:41 +0000
Subject: [PATCH 13/36] fix: bad_pixel selects distinct pixels

---
 src/emva1288/camera/bad_images.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/emva1288/camera/bad_images.py b/src/emva1288/camera/bad_images.py
index 0249389..acada45 100644
--- a/src/emva1288/camera/bad_images.py
+++ b/src/emva1288/camera/bad_images.py
@@ -24,7 +24,8 @@ def bad_pixel(cam, num_bad_pixel, bad_value=1):
     pixel_num = cam.height * cam.width
     # Select the number of bad pixel in a 1D with number
     # for they futur position.
-    bad_pixel_position = np.random.choice(pixel_num, num_bad_pixel)
+    bad_pixel_position = np.random.choice(pixel_num, num_bad_pixel,
+                                          replace=False)
     # change the position in 1D to 2D.
     for i in bad_pixel_position:
         # Change the DSNU of the camera with the bad values
-- 
2.43.0


From b662d1b1fb2318aad328676063892f61079efc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:01 +0000
Subject: [PATCH 14/36] fix: set the given gain and black offset on the camera
 in both variations

---
 src/emva1288/camera/points_generator.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/emva1288/camera/points_generator.py b/src/emva1288/camera/points_generator.py
index 6cbe857..7ce46d6 100644
--- a/src/emva1288/camera/points_generator.py
+++ b/src/emva1288/camera/points_generator.py
@@ -58,8 +58,11 @@ class PointsGenerator:
         self._exposure = exposure_fixed
         self._radiance_min = radiance_min
         self._radiance_max = radiance_max
-        self._gain = gain or self._cam.K
-        self._blackref = blackref or self._cam.blackoffset
+        self._gain = self._cam.K if gain is None else gain
+        self._blackref = self._cam.blackoffset if blackref is None else blackref
+        # the test runs at this gain and black offset in both variations
+        self._cam.K = self._gain
+        self._cam.blackoffset = self._blackref
         if self._exposure is None:
             # Get radiance for saturation at maximal exposure time
             # Only if it is for an exposure time variation test
@@ -69,8 +72,6 @@ class PointsGenerator:
         else:
             # get radiances for radiation variation
             self._cam.exposure = self._exposure
-            self._cam.K = self._gain
-            self._cam.blackoffset = self._blackref
             m = self._cam.grab(0).mean()
             target = (self._cam.img_max - m) / self._steps + m
             self._radiance_min = self._cam.get_radiance_for(mean=target)
-- 
2.43.0


From a7e93d0cc5d81ae5fb38af6aa818562023214cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:01 +0000
Subject: [PATCH 15/36] fix: use the given radiances in illumination variation

---
 src/emva1288/camera/points_generator.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/emva1288/camera/points_generator.py b/src/emva1288/camera/points_generator.py
index 7ce46d6..e39b063 100644
--- a/src/emva1288/camera/points_generator.py
+++ b/src/emva1288/camera/points_generator.py
@@ -72,10 +72,12 @@ class PointsGenerator:
         else:
             # get radiances for radiation variation
             self._cam.exposure = self._exposure
-            m = self._cam.grab(0).mean()
-            target = (self._cam.img_max - m) / self._steps + m
-            self._radiance_min = self._cam.get_radiance_for(mean=target)
-            self._radiance_max = self._cam.get_radiance_for()
+            if self._radiance_min is None:
+                m = self._cam.grab(0).mean()
+                target = (self._cam.img_max - m) / self._steps + m
+                self._radiance_min = self._cam.get_radiance_for(mean=target)
+            if self._radiance_max is None:
+                self._radiance_max = self._cam.get_radiance_for()
 
         # By default, an exposure time variation data points
         # If exposure fixed is given, it is photons variation
@@ -105,8 +107,8 @@ class PointsGenerator:
             # only one exposure time
             rad_i = np.ones((self._cam._height, self._cam._width,
                             len(self._cam.qe.w)))
-            factors = np.linspace(self._radiance_min.mean(),
-                                  self._radiance_max.mean(),
+            factors = np.linspace(np.mean(self._radiance_min),
+                                  np.mean(self._radiance_max),
                                   self._steps)
             radiances = [rad_i * factor for factor in factors]
             # round to only have one decimal
-- 
2.43.0


From a20863e647cdeb506bde1e56560193c968938a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:13 +0000
Subject: [PATCH 16/36] fix: raise the ValueError for quantum efficiencies of a
 wrong shape

---
 src/emva1288/camera/routines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/camera/routines.py b/src/emva1288/camera/routines.py
index 3131bbd..04e0143 100644
--- a/src/emva1288/camera/routines.py
+++ b/src/emva1288/camera/routines.py
@@ -232,8 +232,8 @@ class Qe(object):
 
         if self._qe.shape != (self._height, self._width, len(self._w)):
             raise ValueError('qe dimensions mismatch %s != %s' %
-                             self._qe.shape,
-                             (self._height, self._width, len(self._w)))
+                             (self._qe.shape,
+                              (self._height, self._width, len(self._w))))
 
         if filter is not None:
             self._qe *= filter
-- 
2.43.0


From f6b5d6aa022d1287023b91c64773d749235cd75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:13 +0000
Subject: [PATCH 17/36] fix: Qe does not modify the given quantum efficiency

---
 src/emva1288/camera/routines.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/emva1288/camera/routines.py b/src/emva1288/camera/routines.py
index 04e0143..f80b32e 100644
--- a/src/emva1288/camera/routines.py
+++ b/src/emva1288/camera/routines.py
@@ -236,7 +236,8 @@ class Qe(object):
                               (self._height, self._width, len(self._w))))
 
         if filter is not None:
-            self._qe *= filter
+            # do not modify the array that was given
+            self._qe = self._qe * filter
 
     @property
     def w(self):
-- 
2.43.0


From 1a6ce74dd11505f35a973f2106f9aa8ebd2cd8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:43 +0000
Subject: [PATCH 18/36] fix: plot all the tests, not only the last one

---
 src/emva1288/process/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index 3ab6bb9..5344324 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -848,7 +848,7 @@ class Plotting1288(object):
         for test in tests:
             if not getattr(test, 'id', False):
                 test.id = id(test)
-        self.tests.append(test)
+            self.tests.append(test)
 
     def plot(self, *plots):
         """Plot EMVA1288 plots
-- 
2.43.0


From 5d43632efbdf87e2464498d4ad2ffec46dd89649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:44 +0000
Subject: [PATCH 19/36] fix: average the dark images of the plots by their own
 number

---
 src/emva1288/process/plotting.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index 5344324..3ee081d 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -378,8 +378,8 @@ class PlotHorizontalSpectrogramPRNU(Emva1288Plot):
     def plot(self, test):
         ax = self.ax
 
-        data = (test.spatial['sum'] - test.spatial['sum_dark'])
-        data = data / test.spatial['L']
+        data = (test.spatial['sum'] / test.spatial['L'] -
+                test.spatial['sum_dark'] / test.spatial['L_dark'])
         data_mean = np.mean(data)
 
         spectrogram = routines.FFT1288(data) / data_mean
@@ -416,7 +416,7 @@ class PlotHorizontalSpectrogramDSNU(Emva1288Plot):
         ax = self.ax
 
         spectrogram = routines.FFT1288(test.spatial['sum_dark'],
-                                       n=test.spatial['L'])
+                                       n=test.spatial['L_dark'])
         ax.plot(routines.GetFrecs(spectrogram),
                 np.sqrt(spectrogram),
                 label='Data',
@@ -447,8 +447,8 @@ class PlotVerticalSpectrogramPRNU(Emva1288Plot):
 
     def plot(self, test):
         ax = self.ax
-        data = test.spatial['sum'] - test.spatial['sum_dark']
-        data = data / test.spatial['L']
+        data = (test.spatial['sum'] / test.spatial['L'] -
+                test.spatial['sum_dark'] / test.spatial['L_dark'])
         data_mean = np.mean(data)
         spectrogram = routines.FFT1288(data, rotate=True) / data_mean
 
@@ -485,7 +485,7 @@ class PlotVerticalSpectrogramDSNU(Emva1288Plot):
 
         spectrogram = routines.FFT1288(test.spatial['sum_dark'],
                                        rotate=True,
-                                       n=test.spatial['L'])
+                                       n=test.spatial['L_dark'])
         ax.plot(routines.GetFrecs(spectrogram),
                 np.sqrt(spectrogram),
                 label='Data',
@@ -691,9 +691,9 @@ class ProfileBase(Emva1288Plot):
         ax = self.ax
         ax2 = self.ax2
 
-        L = test.spatial['L']
-        bimg = (test.spatial['sum'] - test.spatial['sum_dark']) / L
-        dimg = test.spatial['sum_dark'] / L
+        # the numbers of bright and dark images may be different
+        dimg = test.spatial['sum_dark'] / test.spatial['L_dark']
+        bimg = test.spatial['sum'] / test.spatial['L'] - dimg
         profiles = self.get_profiles(bimg, dimg)
 
         # to keep the lines number for legend
-- 
2.43.0


From 320a56b812bd3fc62074cd733779efcb6f5ed2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:04 +0000
Subject: [PATCH 20/36] fix: recognise every NaN as a missing number

---
 src/emva1288/report/report.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/report/report.py b/src/emva1288/report/report.py
index a196c0a..2997df2 100644
--- a/src/emva1288/report/report.py
+++ b/src/emva1288/report/report.py
@@ -238,16 +238,25 @@ class Report1288(object):
             comment_end_string='%#}',
             loader=jinja2.FileSystemLoader(dirname))
 
+        def is_missing(value):
+            # NaN is not equal to anything, itself included
+            if value is None:
+                return True
+            try:
+                return bool(np.isnan(value))
+            except (TypeError, ValueError):
+                return False
+
         def missingnumber(value, precision):
             # Filter for missing numbers
-            if value in (None, np.nan):
+            if is_missing(value):
                 return '-'
             t = '{:.%df}' % precision
             return t.format(value)
 
         def missingfilter(value, default='-'):
             # General filter for missing objects that are not numbers
-            if value in (None, np.nan):
+            if is_missing(value):
                 return default
             return value
 
-- 
2.43.0


From 1acc434dd2b257a01872824d6883a5ff2bf85fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:04 +0000
Subject: [PATCH 21/36] fix: a report does not modify the information passed to
 it

---
 src/emva1288/report/report.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/report/report.py b/src/emva1288/report/report.py
index 2997df2..9d30d27 100644
--- a/src/emva1288/report/report.py
+++ b/src/emva1288/report/report.py
@@ -202,8 +202,9 @@ class Report1288(object):
 
         self.renderer = self.template_renderer()
         self.ops = []
-        self.marketing = marketing or info_marketing()
-        self.basic = basic or info_basic()
+        # copies, because the paths of the uploaded files are replaced
+        self.marketing = dict(marketing or info_marketing())
+        self.basic = dict(basic or info_basic())
         self.setup = setup or info_setup()
         self.cover_page = cover_page
         self._make_dirs(outdir)
-- 
2.43.0


From a58a30f9b3013c4806aa245e0126110f124119d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:11 +0000
Subject: [PATCH 22/36] fix: mark every missing result number of the data sheet

---
 src/emva1288/report/templates/op.tex | 48 ++++++++++++++--------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/emva1288/report/templates/op.tex b/src/emva1288/report/templates/op.tex
index d940bb7..199d339 100644
--- a/src/emva1288/report/templates/op.tex
+++ b/src/emva1288/report/templates/op.tex
@@ -21,44 +21,44 @@
 \multicolumn{3}{l}{\textbf{%{{ op.results.sensitivity.QE.short %}} }} \\
 
 %{{ op.results.sensitivity.QE.symbol %}} &
-%{{ '%.2f' % op.results.sensitivity.QE.value %}} &
+%{{ op.results.sensitivity.QE.value|missingnumber(2) %}} &
 %{{ op.results.sensitivity.QE.unit %}} \\[3mm]
 
 \multicolumn{3}{l}{\textbf{%{{ op.results.sensitivity.K.short %}}}} \\
 
 %{{ op.results.sensitivity.K.symbol %}} &
-%{{ '%.3f' % op.results.sensitivity.K.value %}} &
+%{{ op.results.sensitivity.K.value|missingnumber(3) %}} &
 %{{ op.results.sensitivity.K.unit %}} \\
 
 %{{ op.results.sensitivity.inverse_K.symbol %}} &
-%{{ '%.3f' % op.results.sensitivity.inverse_K.value %}} &
+%{{ op.results.sensitivity.inverse_K.value|missingnumber(3) %}} &
 %{{ op.results.sensitivity.inverse_K.unit %}} \\[3mm]
 
 \multicolumn{3}{l}{\textbf{Temporal dark noise}} \\
 
 %{{ op.results.sensitivity.sigma_d.symbol %}} &
-%{{ '%.3f' % op.results.sensitivity.sigma_d.value %}} &
+%{{ op.results.sensitivity.sigma_d.value|missingnumber(3) %}} &
 %{{ op.results.sensitivity.sigma_d.unit %}} \\
 
 %{{ op.results.sensitivity.sigma_y_dark.symbol %}} &
-%{{ '%.3f' % op.results.sensitivity.sigma_y_dark.value %}} &
+%{{ op.results.sensitivity.sigma_y_dark.value|missingnumber(3) %}} &
 %{{ op.results.sensitivity.sigma_y_dark.unit %}} \\[3mm]
 
 \multicolumn{3}{l}{\textbf{%{{ op.results.sensitivity.SNR_max.short %}}}} \\
 
 %{{ op.results.sensitivity.SNR_max.symbol %}} &
-%{{ '%.0f' % op.results.sensitivity.SNR_max.value %}} \\
+%{{ op.results.sensitivity.SNR_max.value|missingnumber(0) %}} \\
 
 & % %{{ op.results.sensitivity.SNR_max_dB.symbol %}} &
-%{{ '%.2f' % op.results.sensitivity.SNR_max_dB.value %}} &
+%{{ op.results.sensitivity.SNR_max_dB.value|missingnumber(2) %}} &
 %{{ op.results.sensitivity.SNR_max_dB.unit %}} \\
 
 & % %{{ op.results.sensitivity.SNR_max_bit.symbol %}} &
-%{{ '%.1f' % op.results.sensitivity.SNR_max_bit.value %}} &
+%{{ op.results.sensitivity.SNR_max_bit.value|missingnumber(1) %}} &
 %{{ op.results.sensitivity.SNR_max_bit.unit %}} \\
 
 %{{ op.results.sensitivity.inverse_SNR_max.symbol %}} &
-%{{ '%.3f' % op.results.sensitivity.inverse_SNR_max.value %}} &
+%{{ op.results.sensitivity.inverse_SNR_max.value|missingnumber(3) %}} &
 %{{ op.results.sensitivity.inverse_SNR_max.unit %}} \\[3mm]
 
 \multicolumn{3}{l}{\textbf{%{{ op.results.sensitivity.u_p_min.short %}}}} \\
@@ -72,7 +72,7 @@
 %{{ op.results.sensitivity.u_p_min_area.unit %}} \\
 
 %{{ op.results.sensitivity.u_e_min.symbol %}} &
-%{{ '%.3f' % op.results.sensitivity.u_e_min.value %}} &
+%{{ op.results.sensitivity.u_e_min.value|missingnumber(3) %}} &
 %{{ op.results.sensitivity.u_e_min.unit %}} \\
 
 %{{ op.results.sensitivity.u_e_min_area.symbol %}} &
@@ -83,7 +83,7 @@
 \multicolumn{3}{l}{\textbf{%{{ op.results.sensitivity.u_p_sat.short %}}}} \\
 
 %{{ op.results.sensitivity.u_p_sat.symbol %}}  &
-%{{ '%.0f' % op.results.sensitivity.u_p_sat.value %}} &
+%{{ op.results.sensitivity.u_p_sat.value|missingnumber(0) %}} &
 %{{ op.results.sensitivity.u_p_sat.unit %}} \\
 
 %{{ op.results.sensitivity.u_p_sat_area.symbol %}}  &
@@ -91,7 +91,7 @@
 %{{ op.results.sensitivity.u_p_sat_area.unit %}} \\
 
 %{{ op.results.sensitivity.u_e_sat.symbol %}} &
-%{{ '%.0f' % op.results.sensitivity.u_e_sat.value %}} &
+%{{ op.results.sensitivity.u_e_sat.value|missingnumber(0) %}} &
 %{{ op.results.sensitivity.u_e_sat.unit %}} \\
 
 %{{ op.results.sensitivity.u_e_sat_area.symbol %}} &
@@ -102,54 +102,54 @@
 \multicolumn{3}{l}{\textbf{%{{ op.results.sensitivity.DR.short %}}}} \\
 
 %{{ op.results.sensitivity.DR.symbol %}} &
-%{{ '%.0f' % op.results.sensitivity.DR.value %}} \\
+%{{ op.results.sensitivity.DR.value|missingnumber(0) %}} \\
 
 & % %{{ op.results.sensitivity.DR_dB.symbol %}} &
-%{{ '%.1f' % op.results.sensitivity.DR_dB.value %}} &
+%{{ op.results.sensitivity.DR_dB.value|missingnumber(1) %}} &
 %{{ op.results.sensitivity.DR_dB.unit %}} \\[3mm]
 
 \multicolumn{3}{l}{\textbf{Spatial Nonuniformities}} \\
 
 %{{ op.results.spatial.DSNU1288.symbol %}} &
-%{{ '%.1f' % op.results.spatial.DSNU1288.value %}} &
+%{{ op.results.spatial.DSNU1288.value|missingnumber(1) %}} &
 %{{ op.results.spatial.DSNU1288.unit %}} \\
 
 %{{ op.results.spatial.DSNU1288_row.symbol %}} &
-%{{ '%.1f' % op.results.spatial.DSNU1288_row.value %}} &
+%{{ op.results.spatial.DSNU1288_row.value|missingnumber(1) %}} &
 %{{ op.results.spatial.DSNU1288_row.unit %}} \\
 
 %{{ op.results.spatial.DSNU1288_col.symbol %}} &
-%{{ '%.1f' % op.results.spatial.DSNU1288_col.value %}} &
+%{{ op.results.spatial.DSNU1288_col.value|missingnumber(1) %}} &
 %{{ op.results.spatial.DSNU1288_col.unit %}} \\
 
 %{{ op.results.spatial.DSNU1288_pixel.symbol %}} &
-%{{ '%.1f' % op.results.spatial.DSNU1288_pixel.value %}} &
+%{{ op.results.spatial.DSNU1288_pixel.value|missingnumber(1) %}} &
 %{{ op.results.spatial.DSNU1288_pixel.unit %}} \\
 
 %{{ op.results.spatial.PRNU1288.symbol %}} &
-%{{ '%.1f' % op.results.spatial.PRNU1288.value %}} &
+%{{ op.results.spatial.PRNU1288.value|missingnumber(1) %}} &
 %{{ op.results.spatial.PRNU1288.unit %}} \\
 
 %{{ op.results.spatial.PRNU1288_row.symbol %}} &
-%{{ '%.1f' % op.results.spatial.PRNU1288_row.value %}} &
+%{{ op.results.spatial.PRNU1288_row.value|missingnumber(1) %}} &
 %{{ op.results.spatial.PRNU1288_row.unit %}} \\
 
 %{{ op.results.spatial.PRNU1288_col.symbol %}} &
-%{{ '%.1f' % op.results.spatial.PRNU1288_col.value %}} &
+%{{ op.results.spatial.PRNU1288_col.value|missingnumber(1) %}} &
 %{{ op.results.spatial.PRNU1288_col.unit %}} \\
 
 %{{ op.results.spatial.PRNU1288_pixel.symbol %}} &
-%{{ '%.1f' % op.results.spatial.PRNU1288_pixel.value %}} &
+%{{ op.results.spatial.PRNU1288_pixel.value|missingnumber(1) %}} &
 %{{ op.results.spatial.PRNU1288_pixel.unit %}} \\[3mm]
 
 \multicolumn{3}{l}{\textbf{Linearity error}} \\
 
 %{{ op.results.linearity.LE_min.symbol %}} &
-%{{ '%.3f' % op.results.linearity.LE_min.value %}} &
+%{{ op.results.linearity.LE_min.value|missingnumber(3) %}} &
 %{{ op.results.linearity.LE_min.unit %}} \\
 
 %{{ op.results.linearity.LE_max.symbol %}} &
-%{{ '%.3f' % op.results.linearity.LE_max.value %}} &
+%{{ op.results.linearity.LE_max.value|missingnumber(3) %}} &
 %{{ op.results.linearity.LE_max.unit %}} \\[3mm]
 
 \multicolumn{3}{l}{\textbf{Dark current}} \\
-- 
2.43.0


From 7a75e28f2a51bf2cf9f009411d13b488ec242e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:35 +0000
Subject: [PATCH 23/36] fix: histograms of images of narrow integer types do
 not wrap around

---
 src/emva1288/process/routines.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index 8e72bc5..1354eec 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -252,6 +252,9 @@ def GetFrecs(fft):
 def Histogram1288(img, Qmax):
     # Only the unmasked pixels are considered
     y = np.ma.compressed(img)
+    if np.issubdtype(y.dtype, np.integer):
+        # the value range and the bin limits may not fit in the image type
+        y = y.astype(np.int64)
 
     ymin = np.min(y)
     ymax = np.max(y)
-- 
2.43.0


From c04b127c3953ee0086ee77b4a285627f5af82308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:35 +0000
Subject: [PATCH 24/36] fix: the high-pass filter does not wrap around for
 images of narrow integer types

---
 src/emva1288/process/routines.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index 1354eec..89ab602 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -685,6 +685,10 @@ def high_pass_filter(img, dim):
     # Check validity of kernel size
     if not dim % 2:
         raise ValueError('The size of the highpass filter must be odd')
+    img = np.asanyarray(img)
+    if np.issubdtype(img.dtype, np.integer):
+        # the filtered values may not fit in the image type
+        img = img.astype(np.int64)
     # Initializing the kernel
     kernel = np.ones((dim, dim))
     sl = dim//2
-- 
2.43.0


From b6b875945587155339c9be43dd6412d42587f004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:35 +0000
Subject: [PATCH 25/36] fix: bad_pixel does not change the array given to the
 camera, nor truncates the bad value to its type

---
 src/emva1288/camera/bad_images.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/emva1288/camera/bad_images.py b/src/emva1288/camera/bad_images.py
index acada45..063379e 100644
--- a/src/emva1288/camera/bad_images.py
+++ b/src/emva1288/camera/bad_images.py
@@ -26,8 +26,11 @@ def bad_pixel(cam, num_bad_pixel, bad_value=1):
     # for they futur position.
     bad_pixel_position = np.random.choice(pixel_num, num_bad_pixel,
                                           replace=False)
+    # The array given to the camera may be used elsewhere as well
+    dsnu = np.array(cam.DSNU, dtype=float)
     # change the position in 1D to 2D.
     for i in bad_pixel_position:
         # Change the DSNU of the camera with the bad values
         # at the random position generated above.
-        cam.DSNU[i // cam.width, i % cam.width] = bad_value
+        dsnu[i // cam.width, i % cam.width] = bad_value
+    cam.DSNU = dsnu
-- 
2.43.0


From df1abf01540217c9919cefbc6a3c4b600387d35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:35 +0000
Subject: [PATCH 26/36] fix: bad_pixel accepts None as the bad value, as
 documented

---
 src/emva1288/camera/bad_images.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/emva1288/camera/bad_images.py b/src/emva1288/camera/bad_images.py
index 063379e..f842cfd 100644
--- a/src/emva1288/camera/bad_images.py
+++ b/src/emva1288/camera/bad_images.py
@@ -19,6 +19,8 @@ def bad_pixel(cam, num_bad_pixel, bad_value=1):
     """
     # TODO: add error message if num_bad_pixel is higger than pixel_num
     # Set the bad value at the Full well capacity for the camera if 1.
+    if bad_value is None:
+        bad_value = 1
     bad_value = bad_value * cam._u_esat
     # Count the number of pixel in the camera
     pixel_num = cam.height * cam.width
-- 
2.43.0


From 9476a52a5dd3e0a451723a43e649e6911a26b709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 27/36] fix: PRNU spectrograms are in percent of the mean, as
 their axis says

---
 src/emva1288/process/plotting.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index 3ee081d..c636c47 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -382,7 +382,8 @@ class PlotHorizontalSpectrogramPRNU(Emva1288Plot):
                 test.spatial['sum_dark'] / test.spatial['L_dark'])
         data_mean = np.mean(data)
 
-        spectrogram = routines.FFT1288(data) / data_mean
+        # relative to the mean, in percent
+        spectrogram = routines.FFT1288(data) * (100. / data_mean) ** 2
 
         ax.plot(routines.GetFrecs(spectrogram),
                 (np.sqrt(spectrogram)),
@@ -450,7 +451,9 @@ class PlotVerticalSpectrogramPRNU(Emva1288Plot):
         data = (test.spatial['sum'] / test.spatial['L'] -
                 test.spatial['sum_dark'] / test.spatial['L_dark'])
         data_mean = np.mean(data)
-        spectrogram = routines.FFT1288(data, rotate=True) / data_mean
+        # relative to the mean, in percent
+        spectrogram = (routines.FFT1288(data, rotate=True) *
+                       (100. / data_mean) ** 2)
 
         ax.plot((routines.GetFrecs(spectrogram)),
                 (np.sqrt(spectrogram)),
-- 
2.43.0


From 686f7b8a44825f54592a8af26a3cb691914ff6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 28/36] fix: frequencies of the spectrogram plots are in
 periods per pixel

---
 src/emva1288/process/plotting.py | 10 ++++++----
 src/emva1288/process/routines.py | 15 +++++++++++++--
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/emva1288/process/plotting.py b/src/emva1288/process/plotting.py
index c636c47..875e11a 100644
--- a/src/emva1288/process/plotting.py
+++ b/src/emva1288/process/plotting.py
@@ -385,7 +385,7 @@ class PlotHorizontalSpectrogramPRNU(Emva1288Plot):
         # relative to the mean, in percent
         spectrogram = routines.FFT1288(data) * (100. / data_mean) ** 2
 
-        ax.plot(routines.GetFrecs(spectrogram),
+        ax.plot(routines.GetFrecs(spectrogram, data.shape[1]),
                 (np.sqrt(spectrogram)),
                 label='Data',
                 gid='%d:data' % test.id)
@@ -418,7 +418,8 @@ class PlotHorizontalSpectrogramDSNU(Emva1288Plot):
 
         spectrogram = routines.FFT1288(test.spatial['sum_dark'],
                                        n=test.spatial['L_dark'])
-        ax.plot(routines.GetFrecs(spectrogram),
+        ax.plot(routines.GetFrecs(spectrogram,
+                                  test.spatial['sum_dark'].shape[1]),
                 np.sqrt(spectrogram),
                 label='Data',
                 gid='%d:data' % test.id)
@@ -455,7 +456,7 @@ class PlotVerticalSpectrogramPRNU(Emva1288Plot):
         spectrogram = (routines.FFT1288(data, rotate=True) *
                        (100. / data_mean) ** 2)
 
-        ax.plot((routines.GetFrecs(spectrogram)),
+        ax.plot((routines.GetFrecs(spectrogram, data.shape[0])),
                 (np.sqrt(spectrogram)),
                 label='Data',
                 gid='%d:data' % test.id)
@@ -489,7 +490,8 @@ class PlotVerticalSpectrogramDSNU(Emva1288Plot):
         spectrogram = routines.FFT1288(test.spatial['sum_dark'],
                                        rotate=True,
                                        n=test.spatial['L_dark'])
-        ax.plot(routines.GetFrecs(spectrogram),
+        ax.plot(routines.GetFrecs(spectrogram,
+                                  test.spatial['sum_dark'].shape[0]),
                 np.sqrt(spectrogram),
                 label='Data',
                 gid='%d:data' % test.id)
diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index 89ab602..cff5e84 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -242,10 +242,21 @@ def _row_wise_compress(img):
     return compressed[:lines, :cols]
 
 
-def GetFrecs(fft):
+def GetFrecs(fft, cols=None):
+    '''Frequencies, in periods per pixel, of a spectrogram of FFT1288
+
+    Parameters
+    ----------
+    fft : array
+        Spectrogram as returned by FFT1288
+    cols : int (optional)
+        Number of pixels per line of the image, an even number by default
+    '''
     n = len(fft)
+    if cols is None:
+        cols = max(2 * (n - 1), 1)
     x = np.arange(n)
-    x = x * 1.0 / (2 * n)
+    x = x * 1.0 / cols
     return x
 
 
-- 
2.43.0


From 0c6fedaeb9b6021c708f1cfdd2ea8dda840dd19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:29 +0000
Subject: [PATCH 29/36] fix: an array without elements can be read back from
 XML

---
 src/emva1288/process/routines.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index cff5e84..45e15d4 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -505,7 +505,8 @@ def xml_to_dict(xml):
         for methodname, value in method.items():
             if 'data' in value:
                 for data in value['data']:
-                    v = value['data'][data]
+                    # an array without elements has no text
+                    v = value['data'][data] or ''
                     v = v.strip()
                     v = v.split()
                     d[section][methodname]['data'][data] = np.asarray(v, dtype=np.float64)
-- 
2.43.0


From 468be9b6afbff479cdefb174f1f49d50dad772c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:26 +0000
Subject: [PATCH 30/36] fix: arrays without elements compare as equal

---
 src/emva1288/process/routines.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/emva1288/process/routines.py b/src/emva1288/process/routines.py
index 45e15d4..7ddd2f1 100644
--- a/src/emva1288/process/routines.py
+++ b/src/emva1288/process/routines.py
@@ -606,12 +606,16 @@ def compare_xml(x1, x2, filename=None):
                 if (set(k1) ^ set(k2)):
                     r = False
                 else:
+                    r = True
                     # loop throught the keys
                     for k in k1:
                         # arrays of one element would be broadcasted
                         if a1[k].shape != a2[k].shape:
                             r = False
                             break
+                        # there is no maximum of no elements
+                        if not a1[k].size:
+                            continue
                         try:
                             r = np.max(np.abs(round_array(a1[k]) -
                                               round_array(a2[k]))) == 0.0
-- 
2.43.0


From 954f53183dcbd8464edb4c5979642a1409833df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:26 +0000
Subject: [PATCH 31/36] fix: the page header shows the vendor of the basic
 information

---
 src/emva1288/report/templates/emvadatasheet.sty | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/report/templates/emvadatasheet.sty b/src/emva1288/report/templates/emvadatasheet.sty
index a531b4c..bcd32a6 100644
--- a/src/emva1288/report/templates/emvadatasheet.sty
+++ b/src/emva1288/report/templates/emvadatasheet.sty
@@ -22,7 +22,7 @@
 % Header
 \fancyhead{}%
 \fancyhead[LO,LE]{\includegraphics[height=12mm]{files/EMVA1288Logo.pdf}}
-\fancyhead[C]{\textbf{%{{ marketing.vendor %}} \, %{{ basic.model|missing %}}}}
+\fancyhead[C]{\textbf{%{{ marketing.vendor or basic.vendor|missing %}} \, %{{ basic.model|missing %}}}}
 \fancyhead[RE,RO]{\includegraphics[height=12mm]{%{{ marketing.logo %}}}}
 \renewcommand{\headrulewidth}{0.5pt}
 
-- 
2.43.0


From ae0e8efbb2bc4985793b0be63e1605bf72d7b58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:26 +0000
Subject: [PATCH 32/36] fix: the given missing plot replaces a missing quantum
 efficiency plot

---
 src/emva1288/report/report.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/report/report.py b/src/emva1288/report/report.py
index 9d30d27..b424a7f 100644
--- a/src/emva1288/report/report.py
+++ b/src/emva1288/report/report.py
@@ -303,8 +303,11 @@ class Report1288(object):
             self.marketing['missingplot'],
             'missingplot.pdf')
 
-        self.basic['qe_plot'] = uploaded_file(self.basic['qe_plot'],
-                                              'missingplot.pdf')
+        if self.basic['qe_plot']:
+            self.basic['qe_plot'] = uploaded_file(self.basic['qe_plot'],
+                                                  'missingplot.pdf')
+        else:
+            self.basic['qe_plot'] = self.marketing['missingplot']
 
     def _write_file(self, name, content):
         # write content into a file
-- 
2.43.0


From 37e2699173cd9b41094a25707fcaeea47cea4bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:26 +0000
Subject: [PATCH 33/36] fix: uploaded files of the same name do not overwrite
 each other

---
 src/emva1288/report/report.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/emva1288/report/report.py b/src/emva1288/report/report.py
index b424a7f..e7f132a 100644
--- a/src/emva1288/report/report.py
+++ b/src/emva1288/report/report.py
@@ -286,12 +286,17 @@ class Report1288(object):
         except FileExistsError:  # pragma: no cover
             pass
 
+        uploaded = {}
+
         def uploaded_file(fname, default):
             if fname:  # pragma: no cover
-                shutil.copy(os.path.abspath(fname), upload_dir)
-                v = posixpath.join(
-                    'upload',
-                    os.path.basename(fname))
+                source = os.path.abspath(fname)
+                name = os.path.basename(fname)
+                # different files may have the same name
+                while uploaded.setdefault(name, source) != source:
+                    name = '_' + name
+                shutil.copy(source, os.path.join(upload_dir, name))
+                v = posixpath.join('upload', name)
             else:
                 v = posixpath.join('files', default)
             return v
-- 
2.43.0


From 09478f5fad310e09cd363ef7e677df0ca0528976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:26 +0000
Subject: [PATCH 34/36] fix: a report can be given some of the information, and
 uses the given cover page

---
 src/emva1288/report/report.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/emva1288/report/report.py b/src/emva1288/report/report.py
index e7f132a..4460a53 100644
--- a/src/emva1288/report/report.py
+++ b/src/emva1288/report/report.py
@@ -203,10 +203,10 @@ class Report1288(object):
         self.renderer = self.template_renderer()
         self.ops = []
         # copies, because the paths of the uploaded files are replaced
-        self.marketing = dict(marketing or info_marketing())
-        self.basic = dict(basic or info_basic())
+        self.marketing = info_marketing(**(marketing or {}))
+        self.basic = info_basic(**(basic or {}))
         self.setup = setup or info_setup()
-        self.cover_page = cover_page
+        self.cover_page = cover_page or self.marketing['cover_page']
         self._make_dirs(outdir)
 
     @staticmethod
-- 
2.43.0


From 018d001df2441461b0fb870ab367661c0ce0f64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:26 +0000
Subject: [PATCH 35/36] fix: information that is not given is marked as missing

---
 src/emva1288/report/report.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emva1288/report/report.py b/src/emva1288/report/report.py
index 4460a53..72cd242 100644
--- a/src/emva1288/report/report.py
+++ b/src/emva1288/report/report.py
@@ -241,7 +241,7 @@ class Report1288(object):
 
         def is_missing(value):
             # NaN is not equal to anything, itself included
-            if value is None:
+            if value is None or isinstance(value, jinja2.Undefined):
                 return True
             try:
                 return bool(np.isnan(value))
-- 
2.43.0


From 331ca9304f96baca8aff2c1d3688be008b2f7204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:39 +0000
Subject: [PATCH 36/36] fix: a descriptor that cannot be decoded raises
 UnicodeDecodeError

---
 src/emva1288/process/parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/emva1288/process/parser.py b/src/emva1288/process/parser.py
index 6747dde..978e93d 100755
--- a/src/emva1288/process/parser.py
+++ b/src/emva1288/process/parser.py
@@ -235,7 +235,8 @@ class ParseEmvaDescriptorFile(object):
         try:
             self._lines = [x.strip() for x in f.readlines() if x.strip() and
                            not x.strip().startswith('#')]
-        except UnicodeDecodeError:  # pragma: no cover
+        except UnicodeDecodeError as e:  # pragma: no cover
             # If there is an unknown character in the file, speak it!
-            raise UnicodeDecodeError("File: '%s', has non-utf8 characters."
+            raise UnicodeDecodeError(e.encoding, e.object, e.start, e.end,
+                                     "File: '%s', has non-utf8 characters."
                                      "Find them and kill them!" % filename)
-- 
2.43.0

