From 5cdb923f1df16ba2f2eb9ca881d8908ea9cfe296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 01/99] fix: tracks in threads shared the particles, weights
 and templates of one tracker

---
 src/glimpse/track/tracker.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index 616e0e4..f15dd07 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -1,4 +1,5 @@
 """Track particle trajectories through time."""
+import copy
 import datetime
 import sys
 import traceback
@@ -313,6 +314,8 @@ class Tracker:
                 weights = np.full((ntimes, motion_model.n), np.nan)
             error = None
             all_warnings = None
+            # Threads share memory: Keep the state of each track to itself
+            tracker = copy.copy(self) if parallel else self
             try:
                 with warnings.catch_warnings(record=True) as caught:
                     # Skip datetimes before first and after last available image
@@ -325,17 +328,17 @@ class Tracker:
                     last = len(observed) - 1 - np.argmax(observed[::-1])
                     for i in range(first, last + 1):
                         if i == first:
-                            self.particles = motion_model.initialize_particles()
-                            self.test_particles()
-                            self.initialize_weights()
+                            tracker.particles = motion_model.initialize_particles()
+                            tracker.test_particles()
+                            tracker.initialize_weights()
                         else:
                             dt = dts[i - 1]
-                            motion_model.evolve_particles(self.particles, dt=dt)
-                            self.test_particles()
+                            motion_model.evolve_particles(tracker.particles, dt=dt)
+                            tracker.test_particles()
                         # Initialize templates for Observers starting at datetimes[i]
                         at_template = observer_mask & (template_indices == i)
                         for obs in np.nonzero(at_template)[0]:
-                            self.initialize_template(
+                            tracker.initialize_template(
                                 obs=obs,
                                 img=matching_images[i][obs],
                                 tile_size=tile_size,
@@ -345,16 +348,16 @@ class Tracker:
                                 img if m else None
                                 for img, m in zip(matching_images[i], observer_mask)
                             ]
-                            self.update_weights(imgs=imgs, motion_model=motion_model)
-                            self.resample_particles()
-                        means[i] = self.particle_mean
+                            tracker.update_weights(imgs=imgs, motion_model=motion_model)
+                            tracker.resample_particles()
+                        means[i] = tracker.particle_mean
                         if return_covariances:
-                            sigmas[i] = self.particle_covariance
+                            sigmas[i] = tracker.particle_covariance
                         else:
-                            sigmas[i] = self.compute_particle_sigma(mean=means[i])
+                            sigmas[i] = tracker.compute_particle_sigma(mean=means[i])
                         if return_particles:
-                            particles[i] = self.particles
-                            weights[i] = self.weights
+                            particles[i] = tracker.particles
+                            weights[i] = tracker.weights
                 if caught:
                     all_warnings = tuple(caught)
             except Exception as e:
-- 
2.43.0


From 43f1dffe317045d8ea63c4e30d63500452fdd719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 02/99] fix: an error whose type cannot be rebuilt from a
 message escaped its track

---
 src/glimpse/track/tracker.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index f15dd07..73e4db7 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -1,6 +1,7 @@
 """Track particle trajectories through time."""
 import copy
 import datetime
+import pickle
 import sys
 import traceback
 import warnings
@@ -366,9 +367,12 @@ class Tracker:
                 if errors:
                     raise e
                 else:
-                    error = e.__class__(
-                        "".join(traceback.format_exception(*sys.exc_info()))
-                    )
+                    message = "".join(traceback.format_exception(*sys.exc_info()))
+                    try:
+                        # Result of parallel process must survive pickling
+                        error = pickle.loads(pickle.dumps(e.__class__(message)))
+                    except Exception:
+                        error = RuntimeError(message)
             results = [means, sigmas, error, all_warnings]
             if reduce_particles:
                 results += [reduce_particles(particles, weights)]
-- 
2.43.0


From 0ab6384f1ac94330300fe5dae9110a60ca000a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 03/99] fix: an observer without any matching image failed
 every track at the first step

---
 src/glimpse/track/tracker.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index 73e4db7..119ae94 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -338,6 +338,8 @@ class Tracker:
                             tracker.test_particles()
                         # Initialize templates for Observers starting at datetimes[i]
                         at_template = observer_mask & (template_indices == i)
+                        # Observers without any matching images have no template
+                        at_template &= np.not_equal(matching_images[i], None)
                         for obs in np.nonzero(at_template)[0]:
                             tracker.initialize_template(
                                 obs=obs,
-- 
2.43.0


From 3709b8412432652a5aa5667d509b2b2f0d49f8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:15 +0000
Subject: [PATCH 04/99] fix: residual resampling drew the remaining particles
 with the wrong probabilities

---
 src/glimpse/track/tracker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index 119ae94..f859eaa 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -195,7 +195,7 @@ class Tracker:
             # NOTE: Assumes weights sum to 1
             repetitions = (n * weights).astype(int)
             initial_indexes = np.repeat(np.arange(n), repetitions)
-            residuals = weights - repetitions
+            residuals = n * weights - repetitions
             residuals *= 1 / residuals.sum()
             cumulative_sum = np.cumsum(residuals)
             cumulative_sum[-1] = 1.0
-- 
2.43.0


From 85ddfdf0a11934b436bb19d80cfa0344b9b8e408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 05/99] fix: systematic, stratified and residual resampling
 could draw past the last particle

---
 src/glimpse/track/tracker.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index f859eaa..fc33e7b 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -174,7 +174,8 @@ class Tracker:
             weights = weights / weights.sum()
             positions = (np.arange(n) + np.random.random()) * (1 / n)
             cumulative_weight = np.cumsum(weights)
-            # NOTE: Assumes weights sum to 1
+            # NOTE: Last value must be exactly 1 despite rounding
+            cumulative_weight /= cumulative_weight[-1]
             return np.searchsorted(cumulative_weight, positions)
 
         def stratified(n: int, weights: np.ndarray) -> np.ndarray:
@@ -184,7 +185,8 @@ class Tracker:
             weights = weights / weights.sum()
             positions = (np.arange(n) + np.random.random(n)) * (1 / n)
             cumulative_weight = np.cumsum(weights)
-            # NOTE: Assumes weights sum to 1
+            # NOTE: Last value must be exactly 1 despite rounding
+            cumulative_weight /= cumulative_weight[-1]
             return np.searchsorted(cumulative_weight, positions)
 
         def residual(n: int, weights: np.ndarray) -> np.ndarray:
@@ -198,7 +200,8 @@ class Tracker:
             residuals = n * weights - repetitions
             residuals *= 1 / residuals.sum()
             cumulative_sum = np.cumsum(residuals)
-            cumulative_sum[-1] = 1.0
+            # NOTE: Last value must be exactly 1 despite rounding
+            cumulative_sum /= cumulative_sum[-1]
             additional_indexes = np.searchsorted(
                 cumulative_sum, np.random.random(n - len(initial_indexes))
             )
-- 
2.43.0


From 3b78c9a818131d65f5d5e2678ca4170b9cb3f2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:56 +0000
Subject: [PATCH 06/99] fix: looking up an image by value returned another
 image with equal pixels

---
 src/glimpse/track/observer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 87fac3b..29e4859 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -97,6 +97,10 @@ class Observer:
                     "Nearest image out of range by " + str(dts[index] - abs(maxdt))
                 )
             return index
+        # Images with equal values are not necessarily the same image
+        for index, image in enumerate(self.images):
+            if image is value:
+                return index
         return self.images.index(value)
 
     def xyz_to_uv(self, xyz: np.ndarray, img: int) -> np.ndarray:
-- 
2.43.0


From a37037b296c51f3e1bfd12c1fe14e48025112a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:16 +0000
Subject: [PATCH 07/99] fix: selecting nearest values failed for a single image

---
 src/glimpse/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 756db74..f0e5d6a 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -174,7 +174,8 @@ def _sorted_neighbors(x: Iterable, y: Iterable) -> np.ndarray:
     index[(index > 0) & (index < len(x))] -= 1
     # index = len(x) snap to index - 2
     index[index == len(x)] -= 2
-    return np.column_stack((index, index + 1))
+    # NOTE: Neighbors are equal if only one value
+    return np.column_stack((index, index + 1)).clip(min=0, max=len(x) - 1)
 
 
 def sorted_nearest(x: Iterable, y: Iterable) -> np.ndarray:
-- 
2.43.0


From d2762d0a2b788996899194c584dbdc6f4a9dbef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:35 +0000
Subject: [PATCH 08/99] fix: splitting an observer into intervals of uneven
 length lost the last images

---
 src/glimpse/track/observer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 29e4859..450e33b 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -481,8 +481,9 @@ class Observer:
         if np.iterable(n):
             breaks = np.unique(np.hstack((n, self.datetimes[[0, -1]])))
         else:
-            dt = (self.datetimes[-1] - self.datetimes[0]) / n
-            breaks = helpers.datetime_range(self.datetimes[0], self.datetimes[-1], dt)
+            first, last = self.datetimes[[0, -1]]
+            # NOTE: Last break must not be rounded to before the last image
+            breaks = [first + (last - first) * i / n for i in range(n)] + [last]
         observers = []
         start = breaks[0]
         for i in range(len(breaks) - 1):
-- 
2.43.0


From a5fe9853f306a5eda129f69adb93eecb0902cd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:45 +0000
Subject: [PATCH 09/99] fix: matching times depended on daylight saving time of
 the local time zone

---
 src/glimpse/helpers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index f0e5d6a..1e0c5af 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -1573,9 +1573,11 @@ def pairwise_distance_datetimes(
                [2., 3.],
                [1., 2.]])
     """
-    # Convert datetimes to POSIX timestamps (seconds since 1970-01-01 00:00:00 UTC)
-    x = [xi.timestamp() for xi in x]
-    y = [yi.timestamp() for yi in y]
+    # Convert datetimes to seconds since a common origin
+    # NOTE: POSIX timestamps of naive datetimes depend on the local time zone
+    origin = next(iter(x), None)
+    x = [(xi - origin).total_seconds() for xi in x]
+    y = [(yi - origin).total_seconds() for yi in y]
     return pairwise_distance(x, y, metric="minkowski", p=1)
 
 
-- 
2.43.0


From 172322bf6669b51cd2a51c69ee068ea4b64cc38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:42 +0000
Subject: [PATCH 10/99] fix: motion models failed with a surface given as a
 number or without uncertainty

---
 src/glimpse/track/motion.py | 43 ++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 25 deletions(-)

diff --git a/src/glimpse/track/motion.py b/src/glimpse/track/motion.py
index 20a7c96..3ef95fc 100644
--- a/src/glimpse/track/motion.py
+++ b/src/glimpse/track/motion.py
@@ -10,6 +10,15 @@ Index = Union[slice, Iterable[int]]
 Number = Union[int, float]
 
 
+def _as_raster(z: Union[Number, Raster]) -> Raster:
+    """Convert number to a raster with the same value everywhere."""
+    if isinstance(z, Raster):
+        return z
+    if np.ndim(z) == 0:
+        return Raster(z, x=(-np.inf, np.inf), y=(-np.inf, np.inf))
+    return Raster(z)
+
+
 class Motion:
     """
     Illustration of the motion model interface required by :class:`Tracker`.
@@ -133,12 +142,8 @@ class CartesianMotion(Motion):
     ) -> None:
         self.xy = xy
         self.time_unit = time_unit
-        if not isinstance(dem, Raster):
-            dem = Raster(dem)
-        self.dem = dem
-        if not isinstance(dem_sigma, Raster):
-            dem_sigma = Raster(dem_sigma)
-        self.dem_sigma = dem_sigma
+        self.dem = _as_raster(dem)
+        self.dem_sigma = None if dem_sigma is None else _as_raster(dem_sigma)
         self.n = n
         self.xy_sigma = xy_sigma
         self.vxyz = vxyz
@@ -244,12 +249,8 @@ class CylindricalMotion(CartesianMotion):
     ) -> None:
         self.xy = xy
         self.time_unit = time_unit
-        if not isinstance(dem, Raster):
-            dem = Raster(dem)
-        self.dem = dem
-        if not isinstance(dem_sigma, Raster):
-            dem_sigma = Raster(dem_sigma)
-        self.dem_sigma = dem_sigma
+        self.dem = _as_raster(dem)
+        self.dem_sigma = None if dem_sigma is None else _as_raster(dem_sigma)
         self.n = n
         self.xy_sigma = xy_sigma
         self.vrthz = vrthz
@@ -362,12 +363,8 @@ class TangentCartesianMotion(Motion):
     ) -> None:
         self.xy = xy
         self.time_unit = time_unit
-        if not isinstance(dem, Raster):
-            dem = Raster(dem)
-        self.dem = dem
-        if not isinstance(dem_sigma, Raster):
-            dem_sigma = Raster(dem_sigma)
-        self.dem_sigma = dem_sigma
+        self.dem = _as_raster(dem)
+        self.dem_sigma = _as_raster(dem_sigma)
         self.n = n
         self.xy_sigma = xy_sigma
         self.vxy = vxy
@@ -442,7 +439,7 @@ class TangentCylindricalMotion(Motion):
         xy: Iterable[Number],
         time_unit: datetime.timedelta,
         dem: Union[Number, Raster],
-        dem_sigma: Union[Number, Raster] = None,
+        dem_sigma: Union[Number, Raster] = 0,
         n: int = 1000,
         xy_sigma: Iterable[Number] = (0, 0),
         vrth: Iterable[Number] = (0, 0),
@@ -453,12 +450,8 @@ class TangentCylindricalMotion(Motion):
     ) -> None:
         self.xy = xy
         self.time_unit = time_unit
-        if not isinstance(dem, Raster):
-            dem = Raster(dem)
-        self.dem = dem
-        if not isinstance(dem_sigma, Raster):
-            dem_sigma = Raster(dem_sigma)
-        self.dem_sigma = dem_sigma
+        self.dem = _as_raster(dem)
+        self.dem_sigma = _as_raster(dem_sigma)
         self.n = n
         self.xy_sigma = xy_sigma
         self.vrth = vrth
-- 
2.43.0


From 289e7f5b6a1cbba70091c8b48a46f66bde4b9045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 11/99] fix: particles at rest became NaN in cylindrical motion
 models

---
 src/glimpse/track/motion.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/glimpse/track/motion.py b/src/glimpse/track/motion.py
index 3ef95fc..188d66f 100644
--- a/src/glimpse/track/motion.py
+++ b/src/glimpse/track/motion.py
@@ -295,14 +295,15 @@ class CylindricalMotion(CartesianMotion):
         time_units = dt.total_seconds() / self.time_unit.total_seconds()
         vx = particles[:, 3]
         vy = particles[:, 4]
-        vr = np.sqrt(vx ** 2 + vy ** 2)
+        # Direction of motion (defined also for particles at rest)
+        th = np.arctan2(vy, vx)
         arthz = self.arthz + self.arthz_sigma * np.random.randn(n, 3)
         axyz = np.column_stack(
             (
                 # r'' * cos(th) - r' * sin(th) * th'
-                arthz[:, 0] * (vx / vr) - vy * arthz[:, 1],
+                arthz[:, 0] * np.cos(th) - vy * arthz[:, 1],
                 # r'' * sin(th) - r' * cos(th) * th'
-                arthz[:, 0] * (vy / vr) + vx * arthz[:, 1],
+                arthz[:, 0] * np.sin(th) + vx * arthz[:, 1],
                 arthz[:, 2],
             )
         )
@@ -494,14 +495,15 @@ class TangentCylindricalMotion(Motion):
         time_units = dt.total_seconds() / self.time_unit.total_seconds()
         vx = particles[:, 3]
         vy = particles[:, 4]
-        vr = np.sqrt(vx ** 2 + vy ** 2)
+        # Direction of motion (defined also for particles at rest)
+        th = np.arctan2(vy, vx)
         arth = self.arth + self.arth_sigma * np.random.randn(n, 2)
         axy = np.column_stack(
             (
                 # r'' * cos(th) - r' * sin(th) * th'
-                arth[:, 0] * (vx / vr) - vy * arth[:, 1],
+                arth[:, 0] * np.cos(th) - vy * arth[:, 1],
                 # r'' * sin(th) - r' * cos(th) * th'
-                arth[:, 0] * (vy / vr) + vx * arth[:, 1],
+                arth[:, 0] * np.sin(th) + vx * arth[:, 1],
             )
         )
         dxy = time_units * particles[:, 3:5] + 0.5 * axy * time_units ** 2
-- 
2.43.0


From d1e8cc80c2d88ae326d70acff81bdb45ff8737b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:14 +0000
Subject: [PATCH 12/99] fix: uncached windows of resized images had the wrong
 size and pixels

---
 src/glimpse/image.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/glimpse/image.py b/src/glimpse/image.py
index 2b9546c..7103c35 100644
--- a/src/glimpse/image.py
+++ b/src/glimpse/image.py
@@ -171,26 +171,22 @@ class Image:
             >>> np.all(tile == a[box[1] : box[3], box[0] : box[2]])
             True
         """
-        size = self._cache_imgsz or self._path_imgsz
-        cam_size = tuple(self.cam.imgsz)
-        resize = cam_size != size
-        new_array = True
-        if self.array is not None and not resize:
+        cam_size = tuple(int(n) for n in self.cam.imgsz)
+        is_subset = False
+        if self._cache_imgsz == cam_size:
             array = self.array
-            new_array = False
         else:
             ds = osgeo.gdal.Open(self.path)
             args = {}
-            if resize:
+            if cam_size != self._path_imgsz:
+                # Resize image before any cropping
                 args["buf_xsize"], args["buf_ysize"] = cam_size
-            if box is not None and not cache:
-                # Resize box to actual image size
-                xscale, yscale = size[0] / cam_size[0], size[1] / cam_size[1]
+            elif box is not None and not cache:
                 # Read image subset
-                args["xoff"] = int(round(box[0] * xscale))
-                args["win_xsize"] = int(round((box[2] - box[0]) * xscale))
-                args["yoff"] = int(round(box[1] * yscale))
-                args["win_ysize"] = int(round((box[3] - box[1]) * yscale))
+                args["xoff"], args["yoff"] = int(box[0]), int(box[1])
+                args["win_xsize"] = int(box[2] - box[0])
+                args["win_ysize"] = int(box[3] - box[1])
+                is_subset = True
             array = np.dstack(
                 [
                     ds.GetRasterBand(i + 1).ReadAsArray(**args)
@@ -202,8 +198,8 @@ class Image:
             if cache:
                 array = sharedmem.copy(array)
                 self.array = array
-        if box is not None and (cache or not new_array):
-            # Caching and cropping: Subset cached array
+        if box is not None and not is_subset:
+            # Subset full array
             array = array[box[1] : box[3], box[0] : box[2]]
         return array
 
-- 
2.43.0


From 9916264c03fafaf66b7cb4582b08ca5bd4f3b3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:43 +0000
Subject: [PATCH 13/99] fix: cached windows of unread rasters were cropped
 twice and uncached windows of resampled rasters were shifted

---
 src/glimpse/raster.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 65b00ae..49d688a 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -798,27 +798,25 @@ class Raster(Grid):
                 raise ValueError("Box must be integers")
             if not np.all(self.inbounds(box)):
                 raise ValueError("Box is out of bounds")
-        new_array = False
+        is_subset = False
         # HACK: Avoid infinite recursion
         array = self._array
         if array is None:
-            new_array = True
             raster = osgeo.gdal.Open(self.path, osgeo.gdal.GA_ReadOnly)
             band = raster.GetRasterBand(self._band)
             kwargs = self._gdal_kwargs
-            if box is not None:
-                # Convert box coordinates to source coordinates
-                scale = np.array((kwargs["win_xsize"], kwargs["win_ysize"])) / np.array(
-                    (kwargs["buf_xsize"], kwargs["buf_ysize"])
-                )
-                sbox = box * scale + np.array((kwargs["xoff"], kwargs["yoff"]))
+            is_resized = (
+                kwargs["win_xsize"] != kwargs["buf_xsize"]
+                or kwargs["win_ysize"] != kwargs["buf_ysize"]
+            )
+            if box is not None and not cache and not is_resized:
+                # Read only the box
+                is_subset = True
                 kwargs = dict(
-                    xoff=int(sbox[0][0]),
-                    yoff=int(sbox[0][1]),
-                    win_xsize=int(sbox[1][0] - sbox[0][0]),
-                    win_ysize=int(sbox[1][1] - sbox[0][1]),
-                    buf_xsize=int(box[1][0] - box[0][0]),
-                    buf_ysize=int(box[1][1] - box[0][1]),
+                    xoff=int(box[0][0] + kwargs["xoff"]),
+                    yoff=int(box[0][1] + kwargs["yoff"]),
+                    win_xsize=int(box[1][0] - box[0][0]),
+                    win_ysize=int(box[1][1] - box[0][1]),
                 )
             array = band.ReadAsArray(**kwargs)
             if self._nan is not None:
@@ -829,8 +827,8 @@ class Raster(Grid):
             if cache:
                 array = sharedmem.copy(array)
                 self.array = array
-        if box is not None and (cache or not new_array):
-            # Caching and cropping: Subset cached array
+        if box is not None and not is_subset:
+            # Subset full array
             array = array[box[0][1] : box[1][1], box[0][0] : box[1][0]]
         return array
 
-- 
2.43.0


From 351f7f683d37ef99d36609c100dfc95d576b3f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 14/99] fix: a no-data value of zero in a raster file was
 ignored

---
 src/glimpse/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 49d688a..9e20ecb 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -740,7 +740,7 @@ class Raster(Grid):
         dtype = osgeo.gdal_array.GDALTypeCodeToNumericTypeCode(raster_band.DataType)
         is_float = np.issubdtype(dtype, np.floating)
         default_nan = raster_band.GetNoDataValue()
-        if nan is None and (is_float and default_nan):
+        if nan is None and (is_float and default_nan is not None):
             nan = default_nan
         crs = raster.GetProjection()
         obj = cls(None, x=xlim, y=ylim, datetime=datetime, crs=crs if crs else None)
-- 
2.43.0


From 1be8b39fbe35b741cef27095b6cbbd04af9e0aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:01 +0000
Subject: [PATCH 15/99] fix: grids kept stale coordinates when resized, ignored
 the target cell size when read, and could not be copied or tiled when given a
 tuple

---
 src/glimpse/raster.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 9e20ecb..4a42421 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -51,7 +51,7 @@ class Grid:
         y: Iterable[Union[Number, Iterable[Number]]] = None,
         crs: Union[int, str] = None,
     ) -> None:
-        self._size = size
+        self.size = size
         self.xlim, self._x, self._X = self._parse_xy(x, dim=0)
         self.ylim, self._y, self._Y = self._parse_xy(y, dim=1)
         self.crs = crs
@@ -83,6 +83,7 @@ class Grid:
         if (value <= 0).any():
             raise ValueError("Grid dimensions must be positive")
         self._size = value
+        self._clear_cache()
 
     @property
     def xlim(self) -> np.ndarray:
@@ -216,7 +217,7 @@ class Grid:
             buf_xsize = win_xsize
             buf_ysize = win_ysize
         grid.xlim, grid.ylim = xlim, ylim
-        grid.n = (buf_xsize, buf_ysize)
+        grid.size = (buf_xsize, buf_ysize)
         return grid
 
     # ---- Methods (private) ----
@@ -868,7 +869,9 @@ class Raster(Grid):
         """Grid dimensions (nx, ny)."""
         if self._array is None:
             # HACK: Use gdal.ReadAsArray arguments
-            return self._gdal_kwargs["buf_xsize"], self._gdal_kwargs["buf_ysize"]
+            return np.array(
+                (self._gdal_kwargs["buf_xsize"], self._gdal_kwargs["buf_ysize"])
+            )
         return np.array(self._array.shape[0:2][::-1]).astype(int)
 
     @property
-- 
2.43.0


From be5bb38fedf4665452bf3dd184d13d5a2a825601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 16/99] fix: copies and subsets of rasters lost the coordinate
 system, and last or reversed rows and columns could not be subset

---
 src/glimpse/raster.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 4a42421..f4a00a9 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -286,7 +286,9 @@ class Grid:
 
     def copy(self) -> "Grid":
         """Copy grid."""
-        return Grid(self.size.copy(), x=self.xlim.copy(), y=self.ylim.copy())
+        return Grid(
+            self.size.copy(), x=self.xlim.copy(), y=self.ylim.copy(), crs=self.crs
+        )
 
     def resize(self, scale: Number) -> None:
         """
@@ -677,20 +679,22 @@ class Raster(Grid):
             raise IndexError("Only integers and slices are valid indices")
         i, j = indices[0], indices[1]
         if not isinstance(i, slice):
-            i = slice(i, i + 1)
+            i = slice(i, i + 1 or None)
         if not isinstance(j, slice):
-            j = slice(j, j + 1)
+            j = slice(j, j + 1 or None)
         d = self.d
-        if i.step and i.step > 1:
+        if i.step:
             d[1] *= i.step
-        if j.step and j.step > 1:
+        if j.step:
             d[0] *= j.step
         x, y = self.x[j], self.y[i]
         if len(x) < 3:
             x = x[[0, -1]] + (-0.5, 0.5) * d[0:1]
         if len(y) < 3:
             y = y[[0, -1]] + (-0.5, 0.5) * d[1:2]
-        return self.__class__(self.array[i, j], x=x, y=y, datetime=self.datetime)
+        return self.__class__(
+            self.array[i, j], x=x, y=y, datetime=self.datetime, crs=self.crs
+        )
 
     @classmethod
     def open(
@@ -883,7 +887,7 @@ class Raster(Grid):
     @property
     def grid(self) -> "Grid":
         """Raster grid."""
-        return Grid(self.size, x=self.xlim, y=self.ylim)
+        return Grid(self.size, x=self.xlim, y=self.ylim, crs=self.crs)
 
     # ---- Properties (cached) ----
 
@@ -907,6 +911,7 @@ class Raster(Grid):
             x=self.xlim.copy(),
             y=self.ylim.copy(),
             datetime=copy.copy(self.datetime),
+            crs=self.crs,
         )
 
     def sample(
-- 
2.43.0


From de277af9c707261ab4e75ea1fe199a8ac1e0f488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 17/99] fix: shifting a raster shifted objects sharing its
 coordinates, shifted cached coordinates twice, and failed for mixed types

---
 src/glimpse/raster.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index f4a00a9..0e33207 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -269,18 +269,19 @@ class Grid:
 
     def _shift_xy(self, dx: Number = None, dy: Number = None) -> None:
         """Shift grid position."""
+        # NOTE: Arrays are replaced since they may be shared with other objects
         if dx is not None:
-            self._xlim += dx
+            self._xlim = self._xlim + dx
             if self._x is not None:
-                self._x += dx
+                self._x = self._x + dx
             if self._X is not None:
-                self._X += dx
+                self._X = self._X + dx
         if dy is not None:
-            self._ylim += dy
+            self._ylim = self._ylim + dy
             if self._y is not None:
-                self._y += dy
+                self._y = self._y + dy
             if self._Y is not None:
-                self._Y += dy
+                self._Y = self._Y + dy
 
     # ---- Methods ---- #
 
@@ -1212,15 +1213,17 @@ class Raster(Grid):
         self._shift_xy(dx=dx, dy=dy)
         if dz is not None:
             # Prevent reset of cached interpolants
-            self._array += dz
+            self._array = self.array + dz
         if self._Zf is not None:
             # Shift cached interpolants
+            x, y = self._Zf.grid
             if dx is not None:
-                self._Zf.grid[0][:] += dx
+                x = x + dx
             if dy is not None:
-                self._Zf.grid[1][:] += dy
-            if dy is not None:
-                self._Zf.values += dz
+                y = y + dy
+            self._Zf.grid = (x, y)
+            if dz is not None:
+                self._Zf.values = self._Zf.values + dz
 
     def fill_circle(
         self, center: Iterable[Number], radius: Number, value: Any = np.nan
-- 
2.43.0


From 63f342072ba14e77f158303ac6a3096b996c0cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:42 +0000
Subject: [PATCH 18/99] fix: sampling a raster after changing its limits or
 values in place used stale values

---
 src/glimpse/raster.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 0e33207..7d09aa8 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -254,7 +254,7 @@ class Grid:
             value = value[:, 0] if dim else value[0]
         else:
             X = None
-        is_x = any(n > 2 for n in value.shape[0:2])
+        is_x = any(n > 2 for n in value.shape[0:2]) or (is_X and len(value) == 2)
         if is_x:
             x = value
             # TODO: Check if equally spaced monotonic
@@ -903,6 +903,15 @@ class Raster(Grid):
             )
         return self._Zf
 
+    # ---- Methods (private) ----
+
+    def _clear_cache(
+        self, attributes: Iterable[str] = ["x", "X", "y", "Y", "Zf"]
+    ) -> None:
+        """Clear cached attributes, and the interpolator which depends on them."""
+        super()._clear_cache(attributes)
+        self._Zf = None
+
     # ---- Methods (public) ----
 
     def copy(self) -> "Raster":
@@ -1179,6 +1188,7 @@ class Raster(Grid):
                 warnings.warn("array cast to float to accommodate NaN")
                 self.array = self.array.astype(float)
             self.array[outbounds] = np.nan
+            self._clear_cache(["Zf"])
 
     def resize(self, scale: Number, order: int = 1) -> None:
         """
@@ -1252,6 +1262,7 @@ class Raster(Grid):
                 ind.extend(self.rowcol_to_idx(rowcols))
         # Apply
         self.array.flat[ind] = value
+        self._clear_cache(["Zf"])
 
     def hillshade(
         self, azimuth: Number = 315, altitude: Number = 45, **kwargs: Any
-- 
2.43.0


From 8d7558218f1acb187db2490f6041df5524f438c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 19/99] fix: cells were missed or added by rounding errors when
 converting or cropping to coordinates

---
 src/glimpse/raster.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 7d09aa8..2c7187f 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -499,7 +499,7 @@ class Grid:
         origin = np.append(self.xlim[0], self.ylim[0])
         colrow = (xy - origin) / self.d - 0.5
         if snap:
-            colrow = colrow.astype(int)
+            colrow = np.rint(colrow).astype(int)
         return colrow[:, ::-1]
 
     def rowcol_to_idx(self, rowcol: np.ndarray) -> np.ndarray:
@@ -561,16 +561,17 @@ class Grid:
         ylim = box[1::2]
         if self.ylim[0] > self.ylim[1]:
             ylim = ylim[::-1]
-        # Convert xy limits to grid indices
+        # Convert xy limits to cell edges (top left) and (bottom right)
         xy = np.column_stack((xlim, ylim))
-        rowcol = self.xy_to_rowcol(xy, snap=True)
-        # Snap down bottom-right, non-outer edges
-        # see .xy_to_rowcol()
-        bottom_right = np.append(self.xlim[1], self.ylim[1])
-        is_edge = (bottom_right - xy[1, :]) % self.d == 0
-        is_outer_edge = xy[1, :] == bottom_right
-        snap_down = is_edge & ~is_outer_edge
-        rowcol[1, snap_down[::-1]] -= 1
+        edges = self.xy_to_rowcol(xy) + 0.5
+        # Snap to nearest edge if equal within rounding error
+        nearest = np.rint(edges)
+        is_edge = np.isclose(edges, nearest, rtol=1e-12, atol=1e-6)
+        edges[is_edge] = nearest[is_edge]
+        # Convert cell edges to grid indices
+        first = np.minimum(np.floor(edges[0]), np.array(self.shape) - 1)
+        last = np.maximum(np.ceil(edges[1]) - 1, first)
+        rowcol = np.vstack((first, last)).astype(int)
         new_xy = self.rowcol_to_xy(rowcol)
         new_xlim = new_xy[:, 0] + np.array([-0.5, 0.5]) * self.d[0]
         new_ylim = new_xy[:, 1] + np.array([-0.5, 0.5]) * self.d[1]
-- 
2.43.0


From 4617e558a72afcfbdb8ed01c73206f4e5dc3dbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 20/99] fix: tiles were lost for a tile size over twice the
 grid size or an overlap over the tile size

---
 src/glimpse/raster.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 2c7187f..5e8f3d3 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -595,7 +595,7 @@ class Grid:
         Returns:
             Pairs of slice objects (rows, cols) with which to subset grid.
         """
-        n = np.round(self.size / size).astype(int)
+        n = np.maximum(np.round(self.size / size), 1).astype(int)
         # Ignore divide by zero
         with np.errstate(divide="ignore"):
             xi = np.floor(np.arange(self.size[0]) / np.ceil(self.size[0] / n[0]))
@@ -604,9 +604,9 @@ class Grid:
         yends = np.insert(np.searchsorted(yi, np.unique(yi), side="right"), 0, 0)
         # HACK: Achieves overlap by increasing tile size
         xstarts = xends.copy()
-        xstarts[1:-1] -= overlap[0]
+        xstarts[1:-1] = np.maximum(xstarts[1:-1] - overlap[0], 0)
         ystarts = yends.copy()
-        ystarts[1:-1] -= overlap[1]
+        ystarts[1:-1] = np.maximum(ystarts[1:-1] - overlap[1], 0)
         return tuple(
             (slice(ystarts[i], yends[i + 1]), slice(xstarts[j], xends[j + 1]))
             for i in range(len(ystarts) - 1)
-- 
2.43.0


From b3400668bd4bfdcef269b0348d4128090203cf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:24 +0000
Subject: [PATCH 21/99] fix: circles lost points on diagonals and could not be
 filled in rasters with x decreasing

---
 src/glimpse/helpers.py | 2 +-
 src/glimpse/raster.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 1e0c5af..3398a6e 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -1017,7 +1017,7 @@ def bresenham_circle(center: Iterable, radius: float) -> np.ndarray:
         # 8th octant
         xy[6 * octant_size - i, :] = [x0 - y, y0 - x]
     # Remove duplicate points
-    unique = [True] + (np.diff(xy, axis=0).sum(axis=1) != 0).tolist()
+    unique = [True] + (np.diff(xy, axis=0) != 0).any(axis=1).tolist()
     return xy[unique]
 
 
diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 5e8f3d3..3f04cfb 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1249,7 +1249,7 @@ class Raster(Grid):
         """
         # Circle indices
         rowcol = self.xy_to_rowcol(np.atleast_2d(center[0:2]), snap=True)
-        r = np.round(radius / self.d[0])
+        r = np.round(radius / abs(self.d[0]))
         xyi = helpers.bresenham_circle(rowcol[0, ::-1], r).astype(int)
         # Filled circle indices
         ind = []
-- 
2.43.0


From 4e090ff99b5ed82b1df8fe767468a098c94bfbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 22/99] fix: sampling a raster at a grid gave wrong values for
 integers, missing cells, single rows or columns, unsorted or outside
 coordinates

---
 src/glimpse/raster.py | 63 +++++++++++++++++++++++++++++--------------
 1 file changed, 43 insertions(+), 20 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 3f04cfb..116f0bf 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -975,6 +975,8 @@ class Raster(Grid):
         """
         error = ValueError("Some of the sampling coordinates are out of bounds")
         methods = ("nearest", "linear", "quadratic", "cubic", "quartic", "quintic")
+        if not grid:
+            xy = np.asarray(xy)
         if bounds_error or fill_value is not None:
             # Test whether sampling points are in bounds
             xyin = self.inbounds_xy(xy, grid=grid)
@@ -1003,19 +1005,20 @@ class Raster(Grid):
                 z = self._sample_1d(xy[dim], dim=dim, kind=methods[order])
                 samples = np.tile(
                     z.reshape(-1 if dim else 1, 1 if dim else -1),
-                    reps=(1 if dim else len(z), len(z) if dim else 1),
+                    reps=(1 if dim else len(xy[1]), len(xy[0]) if dim else 1),
                 )
             else:
                 # 0D: Return constant
-                samples = np.full((len(xy[0]), len(xy[1])), self.array.flat[0])
+                samples = np.full((len(xy[1]), len(xy[0])), self.array.flat[0])
             if has_fill:
+                samples = samples.astype(float)
                 # Fill out of bounds with value
                 samples[yout, :] = fill_value
                 samples[:, xout] = fill_value
         else:
             # Sample at points
             if has_fill:
-                samples = np.full(len(xy), fill_value)
+                samples = np.full(len(xy), fill_value, dtype=float)
             if ndims == 2:
                 # 2D: Use RegularGridInterpolator
                 self.Zf.bounds_error = False
@@ -1062,26 +1065,46 @@ class Raster(Grid):
         s: Number = 0,
     ) -> np.ndarray:
         """Sample raster values on regular grid."""
-        x, y = xy
+        x, y = np.asarray(xy[0]), np.asarray(xy[1])
+        if not x.size or not y.size:
+            return np.empty((y.size, x.size), dtype=float)
         signs = np.sign(self.d).astype(int)
-        # HACK: scipy.interpolate.RectBivariateSpline does not support NAN
-        Zmin = np.nanmin(self.array)
+        # Include points out of bounds, otherwise these are moved to the bounds
+        bbox = (
+            min(self.min[1], y.min()),
+            max(self.max[1], y.max()),
+            min(self.min[0], x.min()),
+            max(self.max[0], x.max()),
+        )
+        # scipy.interpolate.RectBivariateSpline requires sorted coordinates
+        xi, yi = np.argsort(x), np.argsort(y)
+
+        def interpolate(z: np.ndarray, kx: int, ky: int, s: Number) -> np.ndarray:
+            fun = scipy.interpolate.RectBivariateSpline(
+                self.y[:: signs[1]],
+                self.x[:: signs[0]],
+                z[:: signs[1], :: signs[0]],
+                bbox=bbox,
+                kx=kx,
+                ky=ky,
+                s=s,
+            )
+            samples = np.empty((y.size, x.size), dtype=float)
+            samples[np.ix_(yi, xi)] = fun(y[yi], x[xi], grid=True)
+            return samples
+
+        # scipy.interpolate.RectBivariateSpline does not support NAN
         is_nan = np.isnan(self.array)
-        self.array[is_nan] = helpers.numpy_dtype_minmax(self.array.dtype)[0]
-        fun = scipy.interpolate.RectBivariateSpline(
-            self.y[:: signs[1]],
-            self.x[:: signs[0]],
-            self.array[:: signs[1], :: signs[0]],
-            bbox=(min(self.ylim), max(self.ylim), min(self.xlim), max(self.xlim)),
-            kx=kx,
-            ky=ky,
-            s=s,
+        if not is_nan.any():
+            return interpolate(self.array, kx=kx, ky=ky, s=s)
+        if is_nan.all():
+            return np.full((y.size, x.size), np.nan)
+        samples = interpolate(
+            np.where(is_nan, np.nanmean(self.array), self.array), kx=kx, ky=ky, s=s
         )
-        xdir = 1 if (len(x) < 2) or x[1] > x[0] else -1
-        ydir = 1 if (len(y) < 2) or y[1] > y[0] else -1
-        samples = fun(y[::ydir], x[::xdir], grid=True)[::ydir, ::xdir]
-        samples[samples < Zmin] = np.nan
-        self.array[is_nan] = np.nan
+        # Discard samples with a missing value among the neighboring cells
+        missing = interpolate(is_nan.astype(float), kx=1, ky=1, s=0)
+        samples[abs(missing) > 1e-9] = np.nan
         return samples
 
     def resample(self, grid: Grid, **kwargs: Any) -> None:
-- 
2.43.0


From ed41d82282e3b406f1197f510fb13a68e56bd7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:33 +0000
Subject: [PATCH 23/99] fix: assigning values to an unread raster kept stale
 coordinates

---
 src/glimpse/raster.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 116f0bf..72e3c22 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -854,10 +854,8 @@ class Raster(Grid):
             value = np.atleast_2d(value)
         if hasattr(self, "_array"):
             self._clear_cache(["Zf"])
-            if (
-                value is not None
-                and self._array is not None
-                and (value.shape != self._array.shape)
+            if value is not None and (
+                self._array is None or value.shape != self._array.shape
             ):
                 self._clear_cache(["x", "X", "y", "Y"])
         self._array = value
-- 
2.43.0


From b032611915b637df884548f29c2f2fabbbe6e3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:16 +0000
Subject: [PATCH 24/99] fix: missing values were not written as the given
 no-data value

---
 src/glimpse/helpers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 3398a6e..df03d83 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -608,9 +608,11 @@ def write_raster(
         wkt = crs_to_wkt(crs)
         output.SetProjection(wkt)
     for i in range(output.RasterCount):
+        band = a[:, :, i]
         if nan is not None:
             output.GetRasterBand(i + 1).SetNoDataValue(nan)
-        output.GetRasterBand(i + 1).WriteArray(a[:, :, i])
+            band = np.where(np.isnan(band), np.array(nan).astype(a.dtype), band)
+        output.GetRasterBand(i + 1).WriteArray(band)
     if not can_create:
         output = driver.CreateCopy(path, output, 0)
     output.FlushCache()
-- 
2.43.0


From 7107a77437368361c1f37541657bbb4f10f7abec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:26 +0000
Subject: [PATCH 25/99] fix: interpolating rasters failed exactly at a raster,
 for misaligned grids, for numbers mixed with rasters, and for a target cell
 size

---
 src/glimpse/raster.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 72e3c22..3714ed5 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1624,7 +1624,7 @@ class RasterInterpolant:
             if xlim_change or ylim_change:
                 obj.crop(xlim=xlim, ylim=ylim)
             if d_change:
-                scale = d / np.abs(obj.d).mean()
+                scale = np.abs(obj.d).mean() / d
                 obj.resize(scale)
             return obj
         if isinstance(obj, str):
@@ -1697,6 +1697,9 @@ class RasterInterpolant:
         """
         dx = self.x - xi
         zero = type(dx[0])(0)
+        exact = np.where(dx == zero)[0]
+        if exact.size:
+            return exact[0], exact[0]
         if extrapolate:
             # Get two nearest DEMs
             i, j = abs(dx).argsort()[:2]
@@ -1722,7 +1725,8 @@ class RasterInterpolant:
         """Interpolate between two rasters."""
         dz = means[1].array - means[0].array
         dx = x[1] - x[0]
-        scale = (xi - x[0]) / dx
+        # Both rasters are the same if exactly at a raster
+        scale = (xi - x[0]) / dx if dx else 0
         z = means[0].array + dz * scale
         t = xi if isinstance(xi, datetime.datetime) else None
         raster = means[0].__class__(z, x=means[0].xlim, y=means[0].ylim, datetime=t)
@@ -1734,7 +1738,7 @@ class RasterInterpolant:
             )
             # Interpolation uncertainty: nearest bound at 99.7%
             nearest_dx = np.min(np.abs(np.subtract(xi, x)))
-            zi_var = ((1 / 3) * dz * (nearest_dx / dx)) ** 2
+            zi_var = ((1 / 3) * dz * (nearest_dx / dx if dx else 0)) ** 2
             sigma = raster.__class__(
                 np.sqrt(z_var + zi_var), x=means[0].xlim, y=means[0].ylim, datetime=t
             )
@@ -1782,7 +1786,9 @@ class RasterInterpolant:
         # Determine common grid (lowest resolution, smallest extent)
         grids = [self._read_mean_grid(k) for k in ij]
         if d is None:
-            d = np.max(np.abs(np.stack([grid.d for grid in grids])))
+            # Ignore numbers, which have infinite cell size
+            ds = np.abs(np.stack([grid.d for grid in grids]))
+            d = np.max(ds[np.isfinite(ds)]) if np.isfinite(ds).any() else None
         if xlim is None:
             xlim = (-np.inf, np.inf)
         if ylim is None:
@@ -1796,18 +1802,19 @@ class RasterInterpolant:
             self._read_mean(k, d=d, xlim=xlim, ylim=ylim, zlim=zlim, fun=fun, **kwargs)
             for k in ij
         ]
-        if means[0].grid != means[1].grid:
-            if means[1] is self.means[ij[1]]:
-                means[1] = means[1].copy()
-            means[1].resample(means[0])
         # Read sigma rasters
         if return_sigma:
             sigmas = [self._read_sigma(k, d=d, xlim=xlim, ylim=ylim) for k in ij]
-            if sigmas[0].grid != sigmas[1].grid:
-                if sigmas[1] is self.sigmas[ij[1]]:
-                    sigmas[1] = sigmas[1].copy()
-                sigmas[1].resample(sigmas[0])
         else:
             sigmas = None
+        # Resample to the grid of the first mean which is not a number
+        grid = means[0].grid
+        if isinstance(self.means[ij[0]], numbers.Number):
+            grid = means[1].grid
+        for rasters in (means, sigmas or []):
+            for k, raster in enumerate(rasters):
+                if raster.grid != grid:
+                    rasters[k] = raster.copy()
+                    rasters[k].resample(grid, bounds_error=False)
         # Interpolate
         return self._interpolate(means=means, sigmas=sigmas, x=self.x[list(ij)], xi=xi)
-- 
2.43.0


From f9cb40950abead7bd72ec2f68813537c455c3191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 26/99] fix: viewsheds hid the viewpoint's own cell and failed
 for integers, and horizons failed at edges, beside the raster and for missing
 cells

---
 src/glimpse/raster.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 3714ed5..e828b6c 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1357,7 +1357,7 @@ class Raster(Grid):
         # Compute distance to all cell centers
         dx = np.tile(self.x - origin[0], self.size[1])
         dy = np.repeat(self.y - origin[1], self.size[0])
-        dz = self.array.ravel() - origin[2]
+        dz = np.subtract(self.array.ravel(), origin[2], dtype=float)
         dxy = dx ** 2 + dy ** 2  # wait to square root
         if correction is True:
             correction = {}
@@ -1393,6 +1393,9 @@ class Raster(Grid):
         # N = int(np.ceil(2 * np.pi * dxy_cell_sorted[-1]))
         # Initialize result raster
         vis = np.zeros(self.array.size, dtype=bool)
+        # Co-located pixel is always visible (if not NaN)
+        colocated = ix[: rings[0]]
+        vis[colocated] = ~np.isnan(dz[colocated])
         # Loop through rings
         period = 2 * np.pi
         previous_headings = None
@@ -1468,20 +1471,25 @@ class Raster(Grid):
             rowcol = self.xy_to_rowcol(np.atleast_2d(origin[0:2]), snap=True)
             starts = np.repeat(rowcol[:, ::-1], n, axis=0)
         else:
-            rowcol = self.xy_to_rowcol(xy_starts)
+            rowcol = self.xy_to_rowcol(xy_starts, snap=True)
             starts = rowcol[:, ::-1]
         rowcol = self.xy_to_rowcol(xy_ends, snap=True)
         ends = rowcol[:, ::-1]
+        # Stay in bounds despite rounding errors
+        starts, ends = (np.clip(rc, 0, self.size - 1) for rc in (starts, ends))
         # Iterate over line in each direction
         hxyz = np.full((n, 3), np.nan)
-        for i in range(n):
+        for i in np.flatnonzero(~np.isnan(xy_ends).any(axis=1)):
             rowcol = helpers.bresenham_line(starts[i, :], ends[i, :])[:, ::-1]
             if inside:
                 # Skip start cell
                 rowcol = rowcol[1:]
             idx = self.rowcol_to_idx(rowcol)
             # TODO: Precompute Z.flatten()?
-            dz = self.array.flat[idx] - origin[2]
+            dz = np.subtract(self.array.flat[idx], origin[2], dtype=float)
+            if np.isnan(dz).all():
+                # No non-missing cell along sighting
+                continue
             xy = self.rowcol_to_xy(rowcol)
             dxy = np.sum((xy - origin[0:2]) ** 2, axis=1)  # wait to take square root
             if isinstance(correction, dict):
-- 
2.43.0


From fee89805dc72b6d4bdba2c6c4a36712b9cd6979e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:02 +0000
Subject: [PATCH 27/99] fix: setting camera parameters from lists changed the
 lists, and resizing to a target size was accepted or refused by chance

---
 src/glimpse/helpers.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index df03d83..fd0377e 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -70,12 +70,12 @@ def format_list(
             x = x[0:length]
         elif nx < length:
             if default is not None:
-                x += [default] * (length - nx)
+                x = x + [default] * (length - nx)
             elif nx > 0:
                 # Repeat list
                 if length % nx != 0:
                     raise ValueError("Output length is not multiple of input length")
-                x *= length // nx
+                x = x * (length // nx)
     if dtype:
         x = [dtype(i) for i in x]
     return x
@@ -1363,13 +1363,10 @@ def get_scale_from_size(old: Iterable[int], new: Iterable[int]) -> Optional[floa
     if all(initial[0] == initial):
         return initial[0]
 
-    def err(scale: float) -> float:
-        return np.sum(np.abs(np.round(scale * old) - new))
-
-    bounds = [(np.floor(initial.min()), np.ceil(initial.max()))]
-    fit = scipy.optimize.differential_evolution(func=err, bounds=bounds)
-    if fit["fun"] == 0:
-        return float(fit["x"])
+    # Choose middle of all scales which round to the target size
+    scale = (np.max((new - 0.5) / old) + np.min((new + 0.5) / old)) / 2
+    if all(np.floor(scale * old + 0.5) == new):
+        return float(scale)
     return None
 
 
-- 
2.43.0


From 0916dc21635591a3c96294f767b38cb0ec749c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:39 +0000
Subject: [PATCH 28/99] fix: image points could not be projected to a vector of
 depths, k1 undistortion collapsed the centre column, infront ignored
 elevation corrections, and points on the image edge could not be rasterized

---
 src/glimpse/camera.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index 9234bf4..0fbf699 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -671,8 +671,7 @@ class Camera:
             >>> cam.inframe(uv)
             array([False, True, False, False])
         """
-        dxyz = xyz if directions else xyz - self.xyz
-        z = np.dot(dxyz, self.R.T[:, 2])
+        _, z = self._xyz_to_xy(xyz, directions=directions, return_depth=True)
         return z > 0
 
     def inframe(self, uv: np.ndarray) -> np.ndarray:
@@ -764,8 +763,8 @@ class Camera:
         """
         if isinstance(step, (int, float)):
             step = (step, step)
-        nu = self.imgsz[0] / step[0] + 1
-        nv = self.imgsz[1] / step[1] + 1
+        nu = max(self.imgsz[0] / step[0] + 1, 2)
+        nv = max(self.imgsz[1] / step[1] + 1, 2)
         u = np.linspace(0, self.imgsz[0], int(nu))
         v = np.linspace(0, self.imgsz[1], int(nv))
         return np.vstack(
@@ -854,10 +853,13 @@ class Camera:
                    [nan, nan,  3.]])
         """
         mask = self.inframe(uv)
-        a = np.full((self.imgsz[1], self.imgsz[0]), np.nan)
-        helpers.rasterize_points(
-            uv[mask, 1].astype(int), uv[mask, 0].astype(int), values[mask], a=a
-        )
+        shape = self.imgsz[1], self.imgsz[0]
+        if values.ndim > 1 and values.shape[1] > 1:
+            shape += values.shape[1:]
+        a = np.full(shape, np.nan)
+        # Points on right or bottom edges belong to the last pixels
+        cr = np.minimum(uv[mask].astype(int), self.imgsz - 1)
+        helpers.rasterize_points(cr[:, 1], cr[:, 0], values[mask], a=a)
         return a
 
     def spherical_to_xyz(self, angles: np.ndarray) -> np.ndarray:
@@ -1223,8 +1225,8 @@ class Camera:
         # r^3 + r / k1 - r'/k1 = 0
         phi = np.arctan2(xy[:, 1], xy[:, 0])
         Q = -1 / (3 * self.k[0])
-        # r' = y / cos(phi)
-        R = -xy[:, 0] / (2 * self.k[0] * np.cos(phi))
+        # r' = hypot(x, y)
+        R = -np.hypot(xy[:, 0], xy[:, 1]) / (2 * self.k[0])
         has_three_roots = R ** 2 < Q ** 3
         r = np.full(len(xy), np.nan)
         if np.any(has_three_roots):
@@ -1468,7 +1470,7 @@ class Camera:
             xyz = np.dot(xy, self.R[0:2, :])
         # Simulate z = 1 by adding 3rd column of rotation matrix
         xyz += self.R.T[:, 2]
-        if depth != 1:
+        if np.any(np.not_equal(depth, 1)):
             xyz *= np.atleast_1d(depth).reshape(-1, 1)
         if not directions:
             xyz += self.xyz
-- 
2.43.0


From 99f1358a54aed0617cd0ee1181b3182f4d3a8105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:16 +0000
Subject: [PATCH 29/99] fix: projected terrains depended on tiling and on the
 completion order of tiles, and failed when rescaled or for points on the
 image edge

---
 src/glimpse/camera.py | 64 +++++++++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 20 deletions(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index 0fbf699..ad88625 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -1025,6 +1025,8 @@ class Camera:
         parallel = helpers._parse_parallel(parallel)
         # Generate DEM block indices
         tile_indices = dem.tile_indices(size=tile_size, overlap=tile_overlap)
+        # Without overlap, so that each cell is counted once
+        core_indices = dem.tile_indices(size=tile_size)
         ntiles = len(tile_indices)
         # Initialize array
         nbands = (values.shape[2] if has_values else 0) + return_depth
@@ -1034,15 +1036,19 @@ class Camera:
         bar = helpers._progress_bar(max=ntiles)
 
         def process(
-            ij: Tuple[slice, slice]
-        ) -> Optional[Tuple[Tuple[Iterable[int], Iterable[int]], Iterable[Number]]]:
+            ij: Tuple[slice, slice], core: Tuple[slice, slice]
+        ) -> Optional[Tuple[Iterable[int], Iterable[Number], Iterable[int]]]:
             tile_mask = mask[ij]  # type: ignore
+            is_core = np.zeros(tile_mask.shape, dtype=bool)
+            is_core[
+                tuple(slice(c.start - t.start, c.stop - t.start) for c, t in zip(core, ij))
+            ] = True
+            tile_mask = tile_mask & is_core
             if not np.count_nonzero(tile_mask):
                 # No cells selected
                 return None
             tile = dem[ij]
-            if has_values:
-                tile_values = values[ij]  # type: ignore
+            tile_values = values[ij] if has_values else None  # type: ignore
             # Scale tile based on distance from camera
             mean_xyz = (
                 tile.xlim.mean(),
@@ -1053,19 +1059,24 @@ class Camera:
                 # No cells with elevations
                 return None
             _, mean_depth = self._xyz_to_xy(np.atleast_2d(mean_xyz), return_depth=True)
-            tile_scale = scale * np.abs(tile.d).mean() / (mean_depth / self.f.mean())
+            tile_scale = scale * np.abs(tile.d).mean() / (mean_depth[0] / self.f.mean())
             tile_scale = min(max(tile_scale, min(scale_limits)), max(scale_limits))
+            # Keep at least one cell
+            tile_scale = max(tile_scale, 1 / min(tile.shape))
             if tile_scale != 1:
                 tile.resize(tile_scale)
                 tile_mask = scipy.ndimage.zoom(
                     tile_mask, zoom=float(tile_scale), order=0
                 )
-                tile_values = np.dstack(
-                    scipy.ndimage.zoom(
-                        tile_values[:, :, i], zoom=float(tile_scale), order=1
+                if has_values:
+                    tile_values = np.dstack(
+                        [
+                            scipy.ndimage.zoom(
+                                tile_values[:, :, i], zoom=float(tile_scale), order=1
+                            )
+                            for i in range(tile_values.shape[2])
+                        ]
                     )
-                    for i in range(tile_values.shape[2])
-                )
             # Project tile
             xyz = helpers.grid_to_points(
                 (tile.X[tile_mask], tile.Y[tile_mask], tile.array[tile_mask])
@@ -1079,7 +1090,8 @@ class Camera:
             if not np.count_nonzero(is_in):
                 # No cells in image
                 return None
-            rc = uv[is_in, ::-1].astype(int)
+            # Points on right or bottom edges belong to the last pixels
+            rc = np.minimum(uv[is_in].astype(int), self.imgsz - 1)[:, ::-1]
             # Compile values
             if has_values:
                 tile_values = tile_values[tile_mask][is_in]
@@ -1093,20 +1105,32 @@ class Camera:
             fidx, means = helpers.rasterize_points(
                 rc[:, 0], rc[:, 1], tile_values, shape=shape
             )
-            return np.unravel_index(fidx, shape), means
+            _, counts = np.unique(
+                np.ravel_multi_index(tuple(rc.T), shape), return_counts=True
+            )
+            return fidx, means.reshape(len(fidx), -1) * counts[:, None], counts
 
-        def reduce(
-            idx: Tuple[Iterable[int], Iterable[int]] = None,
-            values: Iterable[Number] = None,
-        ) -> None:
+        def reduce(*result: Any) -> tuple:
             bar.next()
-            if idx is not None:
-                array[idx] = values
+            return result
 
         with config.backend(np=parallel) as pool:
-            pool.map(func=process, reduce=reduce, sequence=tile_indices)
+            results = pool.map(
+                func=process,
+                reduce=reduce,
+                star=True,
+                sequence=list(zip(tile_indices, core_indices)),
+            )
         bar.finish()
-        return array
+        # Average the points of all tiles, regardless of the order they were processed
+        flat = array.reshape(-1, nbands)
+        total = np.zeros(len(flat), dtype=int)
+        for result in results:
+            if result[0] is not None:
+                idx, sums, counts = result
+                flat[idx] = np.where(total[idx, None] > 0, flat[idx] + sums, sums)
+                total[idx] += counts
+        return array / np.maximum(total, 1).reshape(array.shape[0:2] + (1,))
 
     def set_plot_limits(self) -> None:
         """Set limits of current plot axes to image extent."""
-- 
2.43.0


From 19e769815427a94b806ceec1fac578de9a0e529d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:08 +0000
Subject: [PATCH 30/99] fix: rays along box faces had no entrance, edges from a
 box face had no exit, circles of some radii repeated cells, and evenly-spaced
 points on lines were up to twice as far apart as requested

---
 src/glimpse/helpers.py | 58 ++++++++++++++++++++++++------------------
 1 file changed, 33 insertions(+), 25 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index fd0377e..dadc7b4 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -772,9 +772,10 @@ def intersect_edge_box(
         0.5
     """
     distance = np.asarray(distance).reshape(1, -1)
-    t = np.nanmin(intersect_rays_box(origin, distance, box, t=True))
-    if t > 0 and t < 1:
-        return t
+    # NOTE: Entrance precedes exit
+    for (t,) in np.column_stack(intersect_rays_box(origin, distance, box, t=True)).T:
+        if t > 0 and t < 1:
+            return t
     return None
 
 
@@ -819,20 +820,25 @@ def intersect_rays_box(
     fbounds = bounds.flatten()
     with np.errstate(divide="ignore"):
         invdir = 1 / directions
+
+    def intersect(dim: int, upper: bool) -> np.ndarray:
+        # Intersections with the near (or far) box boundaries along an axis
+        column = sign[:, dim] if not upper else 1 - sign[:, dim]
+        idx = np.ravel_multi_index((all_rays, dim + column * ndims), bounds.shape)
+        with np.errstate(invalid="ignore"):
+            ti = (fbounds[idx] - origin[dim]) * invdir[:, dim]
+        # Rays along a box boundary (0 * inf) never cross it
+        ti[np.isnan(ti)] = np.inf if upper else -np.inf
+        return ti
+
     sign = (invdir < 0).astype(int)
     nrays = directions.shape[0]
     ndims = directions.shape[1]
     all_rays = np.arange(nrays)
     # Initialize intersections on x-axis
-    idx = np.ravel_multi_index((all_rays, sign[:, 0] * ndims), bounds.shape)
-    tmin = (fbounds[idx] - origin[0]) * invdir[:, 0]
-    idx = np.ravel_multi_index((all_rays, (1 - sign[:, 0]) * ndims), bounds.shape)
-    tmax = (fbounds[idx] - origin[0]) * invdir[:, 0]
+    tmin, tmax = intersect(0, upper=False), intersect(0, upper=True)
     # Apply y-axis intersections
-    idx = np.ravel_multi_index((all_rays, 1 + sign[:, 1] * ndims), bounds.shape)
-    tymin = (fbounds[idx] - origin[1]) * invdir[:, 1]
-    idx = np.ravel_multi_index((all_rays, 1 + (1 - sign[:, 1]) * ndims), bounds.shape)
-    tymax = (fbounds[idx] - origin[1]) * invdir[:, 1]
+    tymin, tymax = intersect(1, upper=False), intersect(1, upper=True)
     misses = (tmin > tymax) | (tymin > tmax)
     tmin[misses] = np.nan
     tmax[misses] = np.nan
@@ -842,12 +848,7 @@ def intersect_rays_box(
     tmax[ymax_intersects] = tymax[ymax_intersects]
     if ndims > 2:
         # Apply z-axis intersections
-        idx = np.ravel_multi_index((all_rays, 2 + sign[:, 2] * ndims), bounds.shape)
-        tzmin = (fbounds[idx] - origin[2]) * invdir[:, 2]
-        idx = np.ravel_multi_index(
-            (all_rays, 2 + (1 - sign[:, 2]) * ndims), bounds.shape
-        )
-        tzmax = (fbounds[idx] - origin[2]) * invdir[:, 2]
+        tzmin, tzmax = intersect(2, upper=False), intersect(2, upper=True)
         misses = (tmin > tzmax) | (tzmin > tmax)
         tmin[misses] = np.nan
         tmax[misses] = np.nan
@@ -1002,6 +1003,9 @@ def bresenham_circle(center: Iterable, radius: float) -> np.ndarray:
         x += 1
         dx += 2
         f += dx
+        if x > y:
+            # Next octant reached
+            break
         # 1st octant
         xy[i - 1, :] = [x0 + x, y0 + y]
         # 2nd octant
@@ -1018,7 +1022,8 @@ def bresenham_circle(center: Iterable, radius: float) -> np.ndarray:
         xy[2 * octant_size + i - 1, :] = [x0 + y, y0 - x]
         # 8th octant
         xy[6 * octant_size - i, :] = [x0 - y, y0 - x]
-    # Remove duplicate points
+    # Remove unused and duplicate points
+    xy = xy[~np.isnan(xy[:, 0])]
     unique = [True] + (np.diff(xy, axis=0) != 0).any(axis=1).tolist()
     return xy[unique]
 
@@ -1139,16 +1144,17 @@ def interpolate_line(
         x = np.insert(x, 0, 0)
     if xi is None:
         if n is None:
+            # Number of intervals (at least one, unless the line has no length)
             n = abs((x[-1] - x[0]) / dx)
-            if n == int(n):
-                n += 1
-            n = int(round(n))
+            n = max(int(round(n)), int(n > 0)) + 1
         xi = np.linspace(start=x[0], stop=x[-1], num=n, endpoint=True)
         # Ensure defaults for speed
         error = False
         fill = "endpoints"
     # x must be increasing
-    if len(x) > 1 and x[1] < x[0]:
+    x = np.asarray(x)
+    decreasing = len(x) > 1 and x[1] < x[0]
+    if decreasing:
         sort_index = np.argsort(x)
         x = x[sort_index]
         vertices = vertices[sort_index, :]
@@ -1156,7 +1162,8 @@ def interpolate_line(
     result = np.column_stack(
         [np.interp(xi, x, vertices[:, i]) for i in range(vertices.shape[1])]
     )
-    if fill == "endpoints":
+    endpoints = isinstance(fill, str) and fill == "endpoints"
+    if endpoints:
         if error is False:
             return result
         fill = (vertices[0], vertices[-1])
@@ -1164,10 +1171,11 @@ def interpolate_line(
         fill = (fill, fill)
     left = np.less(xi, x[0])
     right = np.greater(xi, x[-1])
-    if x[0] > x[-1]:
-        right, left = left, right
     if error and (left.any() or right.any()):
         raise ValueError("Requested distance outside range")
+    if decreasing and not endpoints:
+        # Fill values are relative to original order
+        right, left = left, right
     result[left, :] = fill[0]
     result[right, :] = fill[1]
     return result
-- 
2.43.0


From 1ffcd5fa6cbcea895a703848479ac3fe62ee57fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:45 +0000
Subject: [PATCH 31/99] fix: rasterized points kept values of the raster,
 hillshade was lit from the mirrored direction, and masked filters failed for
 booleans and integers

---
 src/glimpse/helpers.py | 9 ++++++---
 src/glimpse/raster.py  | 5 +++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index dadc7b4..c2c7e4a 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -110,7 +110,7 @@ def numpy_dtype_minmax(
     if issubclass(dtype.type, np.integer):
         info = np.iinfo(dtype)
         return info.min, info.max
-    if dtype.type in (np.bool_, np.bool):
+    if issubclass(dtype.type, np.bool_):
         return False, True
     raise ValueError("Cannot determine min, max for " + str(dtype))
 
@@ -364,7 +364,8 @@ def gaussian_filter(
     """
     if mask is None:
         return scipy.ndimage.filters.gaussian_filter(a, **kwargs)
-    x = a.copy()
+    # NOTE: Filter returns the data type of the input
+    x = a.astype(np.result_type(a, np.float32))
     x[~mask] = 0
     xf = scipy.ndimage.filters.gaussian_filter(x, **kwargs)
     x[mask] = 1
@@ -413,7 +414,9 @@ def maximum_filter(
     x[mask] = dtype_min
     x = scipy.ndimage.filters.maximum_filter(x, **kwargs)
     if fill:
-        mask = x == dtype_min
+        # NOTE: The minimum value may also be the maximum of included cells
+        filled = scipy.ndimage.filters.maximum_filter((~mask).astype(int), **kwargs)
+        mask = (x == dtype_min) & (filled == 0)
     x[mask] = a[mask]
     return x
 
diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index e828b6c..f4a9c8c 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1150,7 +1150,7 @@ class Raster(Grid):
         """
         mask = self.inbounds_xy(xy)
         rowcol = self.xy_to_rowcol(xy[mask, :], snap=True)
-        array = self.array.copy()
+        array = np.full(self.shape, np.nan)
         helpers.rasterize_points(rowcol[:, 0], rowcol[:, 1], values[mask], a=array)
         return array
 
@@ -1301,7 +1301,8 @@ class Raster(Grid):
                 :meth:`matplotlib.colors.LightSource.hillshade`.
         """
         light = matplotlib.colors.LightSource(azdeg=azimuth, altdeg=altitude)
-        return light.hillshade(self.array, dx=self.d[0], dy=self.d[1], **kwargs)
+        # NOTE: LightSource assumes that y decreases along rows and inverts dy
+        return light.hillshade(self.array, dx=self.d[0], dy=-self.d[1], **kwargs)
 
     def fill_crevasses(
         self,
-- 
2.43.0


From 8fb6440ed31ac71502c7c0cab625f3c96e458f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:23 +0000
Subject: [PATCH 32/99] fix: a uniform image tile was normalized to missing
 values

---
 src/glimpse/helpers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index c2c7e4a..0ae2ee7 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -311,7 +311,7 @@ def write_json(
 
 def normalize(a: np.ndarray) -> np.ndarray:
     """
-    Normalize an array to mean 0, variance 1.
+    Normalize an array to mean 0, variance 1 (or 0 if constant).
 
     Arguments:
         a: Array to normalize.
@@ -329,7 +329,9 @@ def normalize(a: np.ndarray) -> np.ndarray:
         >>> x.std()
         1.0
     """
-    return (a - a.mean()) * (1 / a.std())
+    std = a.std()
+    # NOTE: A constant array has no variance
+    return (a - a.mean()) * (1 / std if std else 1.0)
 
 
 def gaussian_filter(
-- 
2.43.0


From 678ca6f5ca3bbf34e16018c1dff24597e5439e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:09 +0000
Subject: [PATCH 33/99] fix: Observer.shift_tile no longer changes the given
 tile or truncates integer tiles

---
 src/glimpse/track/observer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 450e33b..74b2c41 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -172,12 +172,13 @@ class Observer:
         cv = np.arange(0.5, tile.shape[0])  # y|rows
         # Interpolate at shifted center coordinates
         tile = np.atleast_3d(tile)
+        shifted = np.empty(tile.shape, dtype=np.result_type(tile, np.float32))
         for i in range(tile.shape[2]):
             f = scipy.interpolate.RectBivariateSpline(cv, cu, tile[:, :, i], **kwargs)
-            tile[:, :, i] = f(cv + duv[1], cu + duv[0], grid=True)
-        if tile.shape[2] == 1:
-            return tile.squeeze(axis=2)
-        return tile
+            shifted[:, :, i] = f(cv + duv[1], cu + duv[0], grid=True)
+        if shifted.shape[2] == 1:
+            return shifted.squeeze(axis=2)
+        return shifted
 
     def sample_tile(
         self,
-- 
2.43.0


From 0aeaacd59ee7563487338f4b86dbf64ac0aacab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:18 +0000
Subject: [PATCH 34/99] fix: Observer.sample_tile supports cells of any size
 and grids of unequal length

---
 src/glimpse/track/observer.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 74b2c41..359d15c 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -203,14 +203,21 @@ class Observer:
         Raises:
             ValueError: Some sampling points are outside box.
         """
-        if not np.all(helpers.in_box(uv, box)):
+        if grid:
+            inside = all(
+                np.all((np.asarray(x) >= box[i]) & (np.asarray(x) <= box[i + 2]))
+                for i, x in enumerate(uv)
+            )
+        else:
+            inside = np.all(helpers.in_box(uv, box))
+        if not inside:
             raise ValueError("Some sampling points are outside box")
         # Cell sizes
         du = (box[2] - box[0]) / tile.shape[1]
         dv = (box[3] - box[1]) / tile.shape[0]
         # Cell center coordinates
-        cu = np.arange(box[0] + du * 0.5, box[2])  # x|cols
-        cv = np.arange(box[1] + dv * 0.5, box[3])  # y|rows
+        cu = box[0] + du * np.arange(0.5, tile.shape[1])  # x|cols
+        cv = box[1] + dv * np.arange(0.5, tile.shape[0])  # y|rows
         # Interpolate at arbitrary coordinates
         f = scipy.interpolate.RectBivariateSpline(cv, cu, tile, **kwargs)
         if grid:
-- 
2.43.0


From a5067635c8cc52565732196cb074330bbfe84e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:25 +0000
Subject: [PATCH 35/99] fix: Observer.plot_tile gives tiles their own width and
 height by default

---
 src/glimpse/track/observer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 359d15c..59b86dc 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -244,7 +244,7 @@ class Observer:
             **kwargs: Optional arguments to :func:`matplotlib.pyplot.imshow`.
         """
         if box is None:
-            box = (0, 0, tile.shape[0], tile.shape[1])
+            box = (0, 0, tile.shape[1], tile.shape[0])
         extent = (box[0], box[2], box[3], box[1])
         if axes is None:
             axes = matplotlib.pyplot.gca()
-- 
2.43.0


From 3230f4e25f2d52d9d44e2509f2a4a6b45c6dac5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 36/99] fix: Tracker searches the image windows of every
 particle when the template is off-center

---
 src/glimpse/track/tracker.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index fc33e7b..d2d628d 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -592,7 +592,11 @@ class Tracker:
         size = np.asarray(self.templates[obs]["tile"].shape[0:2][::-1])
         uv = self.observers[obs].xyz_to_uv(self.particles[:, 0:3], img=img)
         halfsize = size * 0.5
-        box = np.row_stack((uv.min(axis=0) - halfsize, uv.max(axis=0) + halfsize))
+        # (centered on particles as template is centered on particle mean)
+        centers = uv - self.templates[obs]["duv"]
+        box = np.row_stack(
+            (centers.min(axis=0) - halfsize, centers.max(axis=0) + halfsize)
+        )
         # Enlarge box to ensure SSE has cols, rows (ky + 1, kx + 1) for interpolation
         ky = self.interpolation.get("ky", 3)
         ncols = ky - (np.diff(box[:, 0]) - size[0])
-- 
2.43.0


From 3c75b7970d4203146d5589479f87d586c154e341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:55 +0000
Subject: [PATCH 37/99] fix: SVG paths with leading whitespace or with commands
 following a closepath are parsed

---
 src/glimpse/svg.py | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/glimpse/svg.py b/src/glimpse/svg.py
index a964de2..1f85ae2 100644
--- a/src/glimpse/svg.py
+++ b/src/glimpse/svg.py
@@ -658,20 +658,10 @@ class Points:
     @classmethod
     def _from_path(cls, d: str = "") -> "Points":
         # NOTE: Only vertices are preserved. All curvature information is discarded.
-        regex = {
-            "cmd": re.compile(r"[a-df-zA-DF-Z]+"),
-            "seq": re.compile(r"[^a-df-zA-DF-Z]+"),
-            "coord": COORD_REGEX,
-        }
-        commands = regex["cmd"].findall(d)
-        parameters = [
-            [_num(coord) for coord in regex["coord"].findall(seq)]
-            for seq in regex["seq"].findall(d)
-        ]
-        if commands and commands[-1] in ("Z", "z"):
-            parameters.append([])
         xy = []
-        for cmd, params in zip(commands, parameters):
+        # NOTE: Each command is a single letter, possibly without parameters (Z, z)
+        for cmd, seq in re.findall(r"([a-df-zA-DF-Z])([^a-df-zA-DF-Z]*)", d):
+            params = [_num(coord) for coord in COORD_REGEX.findall(seq)]
             # moveTo: M (x,y)+ | lineTo: L (x,y)+ | curveTo: T (x,y)+
             if cmd in ("M", "L", "T"):
                 for x, y in _chunks(params, 2):
-- 
2.43.0


From e219003dcdb9bd455b6e37b6f03b7a159e45825d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:33 +0000
Subject: [PATCH 38/99] fix: SVG arc flags do not need separators

---
 src/glimpse/svg.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/glimpse/svg.py b/src/glimpse/svg.py
index 1f85ae2..546ac59 100644
--- a/src/glimpse/svg.py
+++ b/src/glimpse/svg.py
@@ -24,6 +24,11 @@ Path = TypedDict("Path", {"d": str})
 COORD_REGEX = re.compile(
     r"(?:\+|\-)?(?:\.[0-9]+|[0-9]+(?:\.[0-9]+)?)(?:[Ee][+-]?[0-9]+)?"
 )
+# Parameters of an arc: (rx ry x-axis-rotation) (large-arc-flag) (sweep-flag) (x,y)
+ARC_REGEX = re.compile(
+    rf"((?:{COORD_REGEX.pattern}[\s,]*){{3}})([01])[\s,]*([01])[\s,]*"
+    rf"({COORD_REGEX.pattern}[\s,]*{COORD_REGEX.pattern})"
+)
 
 
 def _strip_etree_namespaces(tree: ET.ElementTree) -> None:
@@ -661,6 +666,9 @@ class Points:
         xy = []
         # NOTE: Each command is a single letter, possibly without parameters (Z, z)
         for cmd, seq in re.findall(r"([a-df-zA-DF-Z])([^a-df-zA-DF-Z]*)", d):
+            if cmd in ("A", "a"):
+                # NOTE: Arc flags can be followed by a number without any separator
+                seq = ARC_REGEX.sub(r"\1 \2 \3 \4 ", seq)
             params = [_num(coord) for coord in COORD_REGEX.findall(seq)]
             # moveTo: M (x,y)+ | lineTo: L (x,y)+ | curveTo: T (x,y)+
             if cmd in ("M", "L", "T"):
-- 
2.43.0


From ea620a8967a4c57623da9111fed9002df3e8109c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:53 +0000
Subject: [PATCH 39/99] fix: SVG closepath closes the current subpath

---
 src/glimpse/svg.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/svg.py b/src/glimpse/svg.py
index 546ac59..3cbc806 100644
--- a/src/glimpse/svg.py
+++ b/src/glimpse/svg.py
@@ -663,13 +663,17 @@ class Points:
     @classmethod
     def _from_path(cls, d: str = "") -> "Points":
         # NOTE: Only vertices are preserved. All curvature information is discarded.
-        xy = []
+        xy: Coordinates = []
+        start = 0
         # NOTE: Each command is a single letter, possibly without parameters (Z, z)
         for cmd, seq in re.findall(r"([a-df-zA-DF-Z])([^a-df-zA-DF-Z]*)", d):
             if cmd in ("A", "a"):
                 # NOTE: Arc flags can be followed by a number without any separator
                 seq = ARC_REGEX.sub(r"\1 \2 \3 \4 ", seq)
             params = [_num(coord) for coord in COORD_REGEX.findall(seq)]
+            if cmd in ("M", "m"):
+                # Begin a new subpath
+                start = len(xy)
             # moveTo: M (x,y)+ | lineTo: L (x,y)+ | curveTo: T (x,y)+
             if cmd in ("M", "L", "T"):
                 for x, y in _chunks(params, 2):
@@ -724,7 +728,7 @@ class Points:
                     xy.append((xy[-1][0] + dx, xy[-1][1] + dy))
             # closePath: Z | z
             elif cmd in ("Z", "z"):
-                xy.append(xy[0])
+                xy.append(xy[start])
             else:
                 raise ValueError(f"Invalid command encountered: {cmd}")
         return cls(xy)
-- 
2.43.0


From ebfc030edd8fd87d9080f1f035049929417a2a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:20 +0000
Subject: [PATCH 40/99] fix: SVG paths and polygons of a single point keep it
 when written

---
 src/glimpse/svg.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/svg.py b/src/glimpse/svg.py
index 3cbc806..42679cd 100644
--- a/src/glimpse/svg.py
+++ b/src/glimpse/svg.py
@@ -590,7 +590,7 @@ class Points:
         return pts
 
     def _to_polygon(self) -> Polygon:
-        xy = self.xy[:-1] if self.closed() else self.xy
+        xy = self.xy[:-1] if len(self.xy) > 1 and self.closed() else self.xy
         return {"points": self._xy_to_points(xy)}
 
     @classmethod
@@ -736,7 +736,8 @@ class Points:
     def _to_path(self) -> Path:
         # NOTE: Uses only moveTo (`M`), lineTo (`L`), and closePath (`Z`) if closed.
         commands = []
-        for i, xy in enumerate(self.xy[:-1] if self.closed() else self.xy):
+        closed = len(self.xy) > 1 and self.closed()
+        for i, xy in enumerate(self.xy[:-1] if closed else self.xy):
             x, y = xy
             if i == 0:
                 cmd = f"M {x},{y}"
@@ -745,7 +746,7 @@ class Points:
             else:
                 cmd = f"{x},{y}"
             commands.append(cmd)
-        if self.closed():
+        if closed:
             commands.append("Z")
         return {"d": " ".join(commands)}
 
-- 
2.43.0


From f22ab9fdc64a003eb9ea27d813d93283ad2b9e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:43 +0000
Subject: [PATCH 41/99] fix: SVG transforms of elements apply before those of
 their parent groups

---
 src/glimpse/svg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/svg.py b/src/glimpse/svg.py
index 42679cd..542368c 100644
--- a/src/glimpse/svg.py
+++ b/src/glimpse/svg.py
@@ -130,8 +130,8 @@ def read(
         # Choose element name for dictionary
         tag = (e.get(key) if key else None) or e.tag
         d: Dict[str, Any] = {tag: {}}
-        # Grow transform
-        transform += e.get("transform", "")
+        # Grow transform (of the element first, then of its parents)
+        transform = e.get("transform", "") + transform
         # Parse coordinates
         if e.tag in ("image", "path", "polyline", "polygon", "line", "circle", "rect"):
             points = Points.from_element(e.tag, **e.attrib)
-- 
2.43.0


From 7bd9fa41c7f9307a83e45c010cc78a841d3efe61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:36 +0000
Subject: [PATCH 42/99] fix: Tracks.animate runs with current matplotlib and
 without images

---
 src/glimpse/track/tracks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/track/tracks.py b/src/glimpse/track/tracks.py
index ce7fb73..319c651 100644
--- a/src/glimpse/track/tracks.py
+++ b/src/glimpse/track/tracks.py
@@ -392,7 +392,8 @@ class Tracks:
         def update_plot(i: int) -> tuple:
             # PathCollections cannot set x, y, so new objects have to be created
             for ax in axes:
-                ax.collections = []
+                for collection in list(ax.collections):
+                    collection.remove()
             img = self.images[i, obs]
             if particles:
                 # Map: Particles
@@ -480,7 +481,6 @@ class Tracks:
                 )
             else:
                 basename = str(obs) + " : " + str(img)
-            basename = helpers.strip_path(self.tracker.observers[obs].images[img].path)
             map_txt.set_text(basename)
             if images:
                 return map_track, map_txt, image_track, image_tile, image_mean
-- 
2.43.0


From 47434d727ec98381f3f9906fcba5a8f66f3052e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:44 +0000
Subject: [PATCH 43/99] fix: Tracks.animate scales velocities of tracks which
 start late or skip frames

---
 src/glimpse/track/tracks.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/glimpse/track/tracks.py b/src/glimpse/track/tracks.py
index 319c651..78de5bc 100644
--- a/src/glimpse/track/tracks.py
+++ b/src/glimpse/track/tracks.py
@@ -374,18 +374,19 @@ class Tracks:
             horizontalalignment="center",
             transform=axes[0].transAxes,
         )
+        # Compute quiver scales (time to next frame in time units)
+        if particles or self.tracker is not None:
+            scales = dict(
+                zip(frames, np.diff(self.datetimes[frames]) / self.time_unit)
+            )
+        else:
+            scales = dict.fromkeys(frames, 1)
         if particles:
-            # Compute quiver scales
-            scales = np.diff(self.datetimes[frames]) / self.time_unit
             # Compute weight limits for static colormap
             clim = (
                 self.weights[track, :].ravel().min(),
                 self.weights[track, :].ravel().max(),
             )
-        elif self.tracker is not None:
-            scales = np.diff(self.datetimes[frames]) / self.time_unit
-        else:
-            scales = np.ones(len(frames) - 1)
         # Discard last frame
         frames = frames[:-1]
 
-- 
2.43.0


From c510071c3e5e487dc33f92fb007d80d1ba879cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:52 +0000
Subject: [PATCH 44/99] fix: Tracks.plot_xy plots the start of tracks which
 start late

---
 src/glimpse/track/tracks.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/track/tracks.py b/src/glimpse/track/tracks.py
index 78de5bc..582eab7 100644
--- a/src/glimpse/track/tracks.py
+++ b/src/glimpse/track/tracks.py
@@ -191,9 +191,11 @@ class Tracks:
             if isinstance(mean, dict) and "color" in mean:
                 default["color"] = mean["color"]
             start = {**default, **start}
-            results["start"] = matplotlib.pyplot.plot(
-                self.xyz[tracks, 0, 0], self.xyz[tracks, 0, 1], **start
-            )
+            # First valid position of each track
+            idx = np.atleast_1d(np.arange(len(self.xyz))[tracks])
+            valid, first, _ = self.endpoints(idx)
+            xyz = self.xyz[idx[valid], first]
+            results["start"] = matplotlib.pyplot.plot(xyz[:, 0], xyz[:, 1], **start)
         if sigma:
             if sigma is True:
                 sigma = {}
-- 
2.43.0


From 093155e1322db08b3b74e0ca4c9a4cf1cd3d19f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:27 +0000
Subject: [PATCH 45/99] fix: Tracks.animate colors particles of tracks with
 missing estimates

---
 src/glimpse/track/tracks.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/glimpse/track/tracks.py b/src/glimpse/track/tracks.py
index 582eab7..ff4532b 100644
--- a/src/glimpse/track/tracks.py
+++ b/src/glimpse/track/tracks.py
@@ -385,10 +385,7 @@ class Tracks:
             scales = dict.fromkeys(frames, 1)
         if particles:
             # Compute weight limits for static colormap
-            clim = (
-                self.weights[track, :].ravel().min(),
-                self.weights[track, :].ravel().max(),
-            )
+            clim = np.nanmin(self.weights[track]), np.nanmax(self.weights[track])
         # Discard last frame
         frames = frames[:-1]
 
-- 
2.43.0


From aef26d15bc20db17607e1edaa6308b7886fbbc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:54 +0000
Subject: [PATCH 46/99] fix: write_pickle never leaves an incomplete file

---
 src/glimpse/helpers.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 0ae2ee7..873b246 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -6,6 +6,7 @@ import os
 import pathlib
 import pickle
 import re
+import uuid
 from typing import Any, Callable, Iterable, List, Match, Optional, Tuple, Union
 
 import numpy as np
@@ -218,14 +219,19 @@ def write_pickle(
         binary: Whether to write a binary pickle.
         **kwargs: Optional arguments to :func:`pickle.dump`.
     """
+    path = os.path.realpath(path)
     pathlib.Path(path).parent.mkdir(parents=True, exist_ok=True)
     mode = "wb" if binary else "w"
-    if gz:
-        fp = gzip.open(path, mode=mode)
-    else:
-        fp = open(path, mode=mode)
-    pickle.dump(obj, file=fp, **kwargs)
-    fp.close()
+    # Write to a temporary file first, so that path is never an incomplete file
+    temp = f"{path}.{uuid.uuid4().hex}.tmp"
+    try:
+        with gzip.open(temp, mode=mode) if gz else open(temp, mode=mode) as fp:
+            pickle.dump(obj, file=fp, **kwargs)
+        os.replace(temp, path)
+    except BaseException:
+        if os.path.exists(temp):
+            os.remove(temp)
+        raise
 
 
 def read_pickle(path: str, gz: bool = False, binary: bool = True, **kwargs: Any) -> Any:
-- 
2.43.0


From 61acc73ebeb023750b3af71234b21d8c64690580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:13 +0000
Subject: [PATCH 47/99] fix: write_json flattens arrays with any indent without
 changing strings

---
 src/glimpse/helpers.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 873b246..6ee60fa 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -7,7 +7,7 @@ import pathlib
 import pickle
 import re
 import uuid
-from typing import Any, Callable, Iterable, List, Match, Optional, Tuple, Union
+from typing import Any, Callable, Iterable, List, Optional, Tuple, Union
 
 import numpy as np
 import osgeo.gdal
@@ -295,15 +295,26 @@ def write_json(
         '{\n  "x": [0, 1]\n}'
     """
     txt = json.dumps(obj, **kwargs)
-    if flat_arrays and kwargs.get("indent") >= 0:
+    if flat_arrays and kwargs.get("indent") is not None:
         separators = kwargs.get("separators")
         sep = separators[0] if separators else ", "
         squished_sep = re.sub(r"\s", "", sep)
-
-        def flatten(match: Match) -> str:
-            return re.sub(squished_sep, sep, re.sub(r"\s", "", match.group(0)))
-
-        txt = re.sub(r"(\[\s*)+[^\]\{]*(\s*\])+", flatten, txt)
+        # Flatten arrays, except those with objects, leaving strings unchanged
+        tokens: List[str] = []
+        starts: List[int] = []
+        for token in re.findall(r'"(?:[^"\\]|\\.)*"|\s+|[^"\s]', txt):
+            tokens.append(token)
+            if token == "[":
+                starts.append(len(tokens) - 1)
+            elif token == "]":
+                start = starts.pop()
+                if "{" not in tokens[start:]:
+                    tokens[start:] = [
+                        sep if t.strip() == squished_sep else t
+                        for t in tokens[start:]
+                        if not t.isspace()
+                    ]
+        txt = "".join(tokens)
     if path:
         path = pathlib.Path(path)
         path.parent.mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From 49de34f7ac01c0e5dd2e24ba04568dcc96a8e51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:37 +0000
Subject: [PATCH 48/99] fix: Exif rationals with a zero denominator are missing
 values

---
 src/glimpse/exif.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/glimpse/exif.py b/src/glimpse/exif.py
index fe5a890..29b6bc9 100644
--- a/src/glimpse/exif.py
+++ b/src/glimpse/exif.py
@@ -173,6 +173,9 @@ class Exif:
         if isinstance(value, bytes):
             return value.decode()
         if isinstance(value, tuple) and len(value) == 2:
+            if not value[1]:
+                # NOTE: A zero denominator denotes an unknown value
+                return None
             return value[0] / value[1]
         return value
 
-- 
2.43.0


From d29f1e192a376ea5f615d58414364887907c01f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:46 +0000
Subject: [PATCH 49/99] fix: Exif datetimes which are unknown or have padded or
 long sub-seconds do not fail

---
 src/glimpse/exif.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/glimpse/exif.py b/src/glimpse/exif.py
index 29b6bc9..17819d7 100644
--- a/src/glimpse/exif.py
+++ b/src/glimpse/exif.py
@@ -102,12 +102,18 @@ class Exif:
         ymdhms = self.parse_tag("DateTimeOriginal")
         if not ymdhms:
             return None
-        ss = self.parse_tag("SubSecTimeOriginal")
-        if not ss:
-            return datetime.datetime.strptime(str(ymdhms), "%Y:%m:%d %H:%M:%S")
-        return datetime.datetime.strptime(
-            str(ymdhms) + "." + str(ss), "%Y:%m:%d %H:%M:%S.%f"
-        )
+        try:
+            value = datetime.datetime.strptime(
+                str(ymdhms).strip(), "%Y:%m:%d %H:%M:%S"
+            )
+        except ValueError:
+            # NOTE: Unknown values are padded with spaces or zeros
+            return None
+        # NOTE: Any number of decimal places, padded with spaces
+        ss = str(self.parse_tag("SubSecTimeOriginal") or "").strip()
+        if ss.isdecimal():
+            value = value.replace(microsecond=int(ss[:6].ljust(6, "0")))
+        return value
 
     @property
     def exposure(self) -> Optional[float]:
@@ -171,7 +177,7 @@ class Exif:
         except KeyError:
             return None
         if isinstance(value, bytes):
-            return value.decode()
+            return value.decode(errors="replace")
         if isinstance(value, tuple) and len(value) == 2:
             if not value[1]:
                 # NOTE: A zero denominator denotes an unknown value
-- 
2.43.0


From 5e340bc4572cc2bf883fa2d83d4c026b54363e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:52 +0000
Subject: [PATCH 50/99] fix: Exif tags with two values which are not a rational
 are not divided

---
 src/glimpse/exif.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/exif.py b/src/glimpse/exif.py
index 17819d7..1adef5b 100644
--- a/src/glimpse/exif.py
+++ b/src/glimpse/exif.py
@@ -131,6 +131,8 @@ class Exif:
     def iso(self) -> Optional[int]:
         """Film speed following the ISO system."""
         value = self.parse_tag("ISOSpeedRatings")
+        if isinstance(value, tuple):
+            value = value[0]
         return int(value) if value else None
 
     @property
@@ -178,7 +180,15 @@ class Exif:
             return None
         if isinstance(value, bytes):
             return value.decode(errors="replace")
-        if isinstance(value, tuple) and len(value) == 2:
+        types = {x["name"]: x["type"] for x in piexif.TAGS.get(group, {}).values()}
+        is_rational = types.get(tag) in (piexif.TYPES.Rational, piexif.TYPES.SRational)
+        # NOTE: Tags with multiple values are left unchanged
+        if (
+            is_rational
+            and isinstance(value, tuple)
+            and len(value) == 2
+            and not isinstance(value[0], tuple)
+        ):
             if not value[1]:
                 # NOTE: A zero denominator denotes an unknown value
                 return None
-- 
2.43.0


From 0eb32bc8d29aac88f57b2c4be88639873263ebe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:22 +0000
Subject: [PATCH 51/99] fix: Converter optimizes the first element of a
 parameter and single elements; grid of elongated images

---
 src/glimpse/convert/converter.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/convert/converter.py b/src/glimpse/convert/converter.py
index 90c3cb3..5b0d225 100644
--- a/src/glimpse/convert/converter.py
+++ b/src/glimpse/convert/converter.py
@@ -56,9 +56,9 @@ class Converter:
         d = np.sqrt(area / n)
         # Place points such that spacing to edge is half of interpoint spacing
         # - | -- | -- | -- | -
-        dx = imgsz[0] / round(imgsz[0] / d)
+        dx = imgsz[0] / max(round(imgsz[0] / d), 1)
         x = np.arange(0.5 * dx, imgsz[0], dx)
-        dy = imgsz[1] / round(imgsz[1] / d)
+        dy = imgsz[1] / max(round(imgsz[1] / d), 1)
         y = np.arange(0.5 * dy, imgsz[1], dy)
         return np.reshape(np.meshgrid(x, y), (2, -1)).T
 
@@ -115,7 +115,11 @@ class Converter:
             **kwargs: Optional arguments to :func:`scipy.optimize.least_squares`.
         """
         # Drop empty params and normalize value as a numpy index
-        indices = {k: slice(None) if v is True else v for k, v in params.items() if v}
+        indices = {
+            k: slice(None) if v is True else np.atleast_1d(v)
+            for k, v in params.items()
+            if v is True or (v is not False and v is not None and np.size(v))
+        }
         x0 = []
         for key, idx in indices.items():
             value = np.atleast_1d(getattr(self.xcam, key))
@@ -125,7 +129,7 @@ class Converter:
             i = 0
             for key, idx in indices.items():
                 value = np.atleast_1d(getattr(self.xcam, key)).astype(float)
-                n = len(value) if isinstance(idx, slice) else len(np.atleast_1d(idx))
+                n = len(value[idx])
                 value[idx] = x[i : i + n]
                 setattr(self.xcam, key, tuple(value) if len(value) > 1 else value[0])
                 i += n
-- 
2.43.0


From 6770916f4830062b162f41120fa4d5387cce4281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:32 +0000
Subject: [PATCH 52/99] fix: read camera files with uppercase exponents

---
 src/glimpse/convert/cameras/opencv.py       | 5 ++---
 src/glimpse/convert/cameras/photomodeler.py | 4 ++--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/glimpse/convert/cameras/opencv.py b/src/glimpse/convert/cameras/opencv.py
index bd48a20..4580da1 100644
--- a/src/glimpse/convert/cameras/opencv.py
+++ b/src/glimpse/convert/cameras/opencv.py
@@ -1,5 +1,4 @@
 """OpenCV camera models."""
-import re
 import warnings
 import xml.etree.ElementTree
 from typing import Any, Dict, Iterable, List, Tuple, Union, cast
@@ -153,14 +152,14 @@ class OpenCV:
         elements = tree.findall(".//camera_matrix/data")
         if elements and elements[0].text:
             x = np.asarray(
-                [float(xi) for xi in re.findall(r"([0-9\-\.e\+]+)", elements[0].text)]
+                [float(xi) for xi in elements[0].text.split()]
             ).reshape(3, 3)
             kwargs = {**kwargs, **cls._parse_camera_matrix(x)}
         else:
             raise ValueError("No camera matrix found")
         elements = tree.findall(".//distortion_coefficients/data")
         if elements and elements[0].text:
-            x = [float(xi) for xi in re.findall(r"([0-9\-\.e\+]+)", elements[0].text)]
+            x = [float(xi) for xi in elements[0].text.split()]
             kwargs = {**kwargs, **cls._parse_distortion_coefficients(x)}
         return cls(**kwargs)
 
diff --git a/src/glimpse/convert/cameras/photomodeler.py b/src/glimpse/convert/cameras/photomodeler.py
index 3663c58..91bd626 100644
--- a/src/glimpse/convert/cameras/photomodeler.py
+++ b/src/glimpse/convert/cameras/photomodeler.py
@@ -80,9 +80,9 @@ class PhotoModeler:
         with open(path, mode="r") as fp:
             txt = fp.read()
         if sigmas:
-            pattern = r".*\s.*\s*Deviation: .*: ([0-9\-\+\.e]+)"
+            pattern = r".*\s.*\s*Deviation: .*: ([0-9\-\+\.eE]+)"
         else:
-            pattern = r".*\s*Value: ([0-9\-\+\.e]+)"
+            pattern = r".*\s*Value: ([0-9\-\+\.eE]+)"
         matches = [re.findall(label + pattern, txt) for label in params.values()]
         kwargs = {k: float(v[0]) if v else 0.0 for k, v in zip(params.keys(), matches)}
         return cls(imgsz=imgsz, **kwargs)
-- 
2.43.0


From 855883fe73ccccd9c1f6a69ef97786f26e6b1351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:53 +0000
Subject: [PATCH 53/99] fix: ransac can try every sample and applies the same
 strict error limit to the returned inliers

---
 src/glimpse/optimize.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 2badb7a..8a0e741 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -11,6 +11,7 @@ import matplotlib.pyplot
 import numpy as np
 import scipy.optimize
 import scipy.sparse
+import scipy.special
 
 from . import config, helpers
 from .camera import Camera
@@ -2145,7 +2146,7 @@ def ransac(
         raise ValueError("Best fit does not meet acceptance criteria")
     # HACK: Recompute inlier index on best params
     # NOTE: Returns int64 index on int32 platforms
-    inliers = np.where(model.errors(params) <= max_error)[0]
+    inliers = np.where(model.errors(params) < max_error)[0]
     return params, inliers
 
 
@@ -2167,14 +2168,7 @@ def _ransac_samples(n: int, size: int, iterations: int = 100) -> List[int]:
     """
     if n >= size:
         raise ValueError("Sample size is larger or equal to total size")
-    # Estimate factorial with log(gamma) to avoid overflow
-    log = (
-        np.math.lgamma(size + 1) - np.math.lgamma(n + 1) - np.math.lgamma(size - n + 1)
-    )
-    if log:
-        # Compute max iterations if no float overflow
-        max_iterations = np.floor(np.exp(log))
-        iterations = min(iterations, max_iterations)
+    iterations = min(iterations, scipy.special.comb(size, n, exact=True))
     samples = set()
     indices = np.arange(size)
     while len(samples) < iterations:
-- 
2.43.0


From 9591adabef349023dc02e3b6b9176276757d1f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:35 +0000
Subject: [PATCH 54/99] fix: Matches.filter keeps image and camera coordinates
 of rotation matches aligned and measures pixels for all types

---
 src/glimpse/optimize.py | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 8a0e741..d24975f 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -541,8 +541,8 @@ class Matches:
     def _test_matches(self) -> None:
         if self.cams[0] is self.cams[1]:
             raise ValueError("Both cameras are the same object")
-        # HACK: Support subclasses with xyzs and optional uvs
-        uvs = self.uvs or self.xyzs
+        # HACK: Support subclasses with xys and optional uvs
+        uvs = self.uvs or self.xys
         if len(self.cams) != 2 or len(uvs) != 2:
             raise ValueError(
                 "Cameras and point coordinates do not have two elements each"
@@ -674,6 +674,14 @@ class Matches:
                 self.uvs[i] = self.uvs[i] * scale
                 self._imgszs[i] = cam.imgsz.copy()
 
+    def _observed_uv(self, cam: CamIndex, index: Index) -> np.ndarray:
+        """Observed image coordinates."""
+        return self.observed(cam, index=index)
+
+    def _predicted_uv(self, cam: CamIndex, index: Index) -> np.ndarray:
+        """Predicted image coordinates."""
+        return self.predicted(cam, index=index)
+
     def filter(
         self,
         n_best: int = None,
@@ -717,7 +725,7 @@ class Matches:
             if scaled:
                 max_error = max_error * self.cams[ci].imgsz[0]
             errors = np.linalg.norm(
-                self.observed(ci, index=selected) - self.predicted(ci, index=selected),
+                self._observed_uv(ci, selected) - self._predicted_uv(ci, selected),
                 axis=1,
             )
             selected[selected] &= errors <= max_error
@@ -726,15 +734,15 @@ class Matches:
                 max_distance = max_distance * self.cams[ci].imgsz[0]
             scale = self.cams[ci].imgsz / self.cams[co].imgsz
             distances = np.linalg.norm(
-                self.observed(co, index=selected) * scale
-                - self.observed(ci, index=selected),
+                self._observed_uv(co, selected) * scale
+                - self._observed_uv(ci, selected),
                 axis=1,
             )
             selected[selected] &= distances <= max_distance
-        # HACK: Support for RotationMatches
-        if self.uvs:
+        if self.uvs is not None:
             self.uvs = [uv[selected] for uv in self.uvs]
-        else:
+        # HACK: Support for RotationMatches
+        if getattr(self, "xys", None) is not None:
             self.xys = [xy[selected] for xy in self.xys]
         if self.weights is not None:
             self.weights = self.weights[selected]
@@ -914,7 +922,18 @@ class RotationMatchesXY(RotationMatches):
             return mtype(cams=self.cams, uvs=uvs, weights=self.weights)
         return mtype(cams=self.cams, uvs=self.uvs, xys=self.xys, weights=self.weights)
 
-    def plot() -> None:
+    def _observed_uv(self, cam: CamIndex, index: Index) -> np.ndarray:
+        """Observed image coordinates."""
+        c = self._cam_index(cam)
+        if self.uvs is None:
+            return self.cams[c]._xy_to_uv(self.xys[c][index])
+        return self.uvs[c][index]
+
+    def _predicted_uv(self, cam: CamIndex, index: Index) -> np.ndarray:
+        """Predicted image coordinates."""
+        return RotationMatches.predicted(self, cam, index=index)
+
+    def plot(self, *args: Any, **kwargs: Any) -> None:
         """Plotting is not available for RotationMatchesXY and RotationMatchesXYZ."""
         raise NotImplementedError()
 
@@ -969,7 +988,7 @@ class RotationMatchesXYZ(RotationMatchesXY):
         dxyz *= 1 / np.linalg.norm(dxyz, ord=2, axis=1, keepdims=True)
         return dxyz
 
-    def observed() -> None:
+    def observed(self, *args: Any, **kwargs: Any) -> None:
         """Observed image coordinates are not available for RotationMatchesXYZ."""
         raise NotImplementedError()
 
-- 
2.43.0


From c7eda86066949db2c40ba26679f11d932b56616e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:46 +0000
Subject: [PATCH 55/99] fix: build_keypoints overwrites existing keypoints when
 asked

---
 src/glimpse/optimize.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index d24975f..f1c750a 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2416,13 +2416,16 @@ class KeypointMatcher:
                 written = False
             keypoints = self.keypoints[i]
             read = keypoints is not None
+            if overwrite:
+                # Ignore existing keypoints
+                read = written = False
             if not read and written and not clear_keypoints:
                 # Read keypoints from file
                 keypoints = helpers.read_pickle(outpath)
             elif read and not written and path:
                 # Write keypoints to file
                 helpers.write_pickle(keypoints, path=outpath)
-            elif (not read and not written) or overwrite:
+            elif not read and not written:
                 # Detect keypoints
                 array = self._prepare_image(img.read())
                 keypoints = detect_keypoints(array, mask=masks[i], **kwargs)
-- 
2.43.0


From c83e45f589a8f904f28eb9618ea767441dce5c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:57 +0000
Subject: [PATCH 56/99] fix: build_matches requires one of imgs in each pair,
 returns an (n, n) matrix, clears keypoints in parallel, and ignores filter
 with clear_matches

---
 src/glimpse/optimize.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index f1c750a..df2a87d 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2527,10 +2527,11 @@ class KeypointMatcher:
         # Filter matched image pairs
         if imgs is not None:
             for i, m in enumerate(matching_images):
-                matching_images[i] = m[np.isin(m, imgs)]
+                if not np.isin(i, imgs):
+                    matching_images[i] = m[np.isin(m, imgs)]
 
         def reduce(matches: Iterable[Matches]) -> Iterable[Matches]:
-            if filter:
+            if filter and not clear_matches:
                 for match in matches:
                     if match:
                         match.filter(**filter)
@@ -2607,8 +2608,12 @@ class KeypointMatcher:
                 )
                 cols = np.concatenate(matching_images)
                 # HACK: Initialize with numeric data to avoid type errors
-                matches = scipy.sparse.coo_matrix(([1] * len(data), (rows, cols)))
+                matches = scipy.sparse.coo_matrix(
+                    ([1] * len(data), (rows, cols)), shape=(n, n)
+                )
                 matches.data = data
+        if clear_keypoints:
+            self.keypoints = [None] * n
         if clear_matches:
             self.matches = None
         else:
-- 
2.43.0


From 85eb7f467e18070677d859e5869563bedd103b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:06 +0000
Subject: [PATCH 57/99] fix: drop_images drops keypoints of dropped images;
 match_breaks with min_matches

---
 src/glimpse/optimize.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index df2a87d..dc24869 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2756,18 +2756,18 @@ class KeypointMatcher:
         self.matches._shape = (n, n)
         # Remove dropped images
         self.images = np.delete(self.images, drop)
+        if self.keypoints is not None:
+            dropped = set(drop)
+            self.keypoints = [
+                k for i, k in enumerate(self.keypoints) if i not in dropped
+            ]
 
     def match_breaks(self, min_matches: int = 0) -> np.ndarray:
         """Return breaks in pairwise image matches."""
         self._test_matches()
-        all_starts = np.arange(len(self.images) - 1)
-        starts, counts = np.unique(self.matches.row, return_counts=True)
-        breaks = np.setdiff1d(all_starts, starts)
-        if min_matches:
-            min_matches = np.minimum(
-                min_matches, len(self.images) - np.arange(len(self.images))
-            )
-            breaks = np.sort(
-                np.concatenate((breaks, np.where(counts < min_matches)[0]))
-            )
-        return breaks
+        n = max(len(self.images) - 1, 0)
+        # Number of later images matched to each image (but the last)
+        counts = np.bincount(self.matches.row, minlength=n)[:n]
+        # Number of later images available
+        available = np.arange(n, 0, -1)
+        return np.where(counts < np.clip(min_matches, 1, available))[0]
-- 
2.43.0


From ba7694fe0d36862c8431db948958c5c2f13488f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:15 +0000
Subject: [PATCH 58/99] fix: match_keypoints with identical descriptors, empty
 results and masks with cross check

---
 src/glimpse/optimize.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index dc24869..bd3decc 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2283,15 +2283,22 @@ def match_keypoints(
     if len(ka[0]) >= n and len(kb[0]) >= n:
         matches = matcher.knnMatch(ka[1], kb[1], k=n, mask=mask)
         if cross_check:
-            matches_ba = matcher.knnMatch(kb[1], ka[1], k=n, mask=mask)
+            mask_ba = None if mask is None else mask.T
+            matches_ba = matcher.knnMatch(kb[1], ka[1], k=n, mask=mask_ba)
             ba = [(m[0].trainIdx, m[0].queryIdx) for m in matches_ba]
             matches = [m for m in matches if (m[0].queryIdx, m[0].trainIdx) in ba]
+        if compute_ratios:
+            # NOTE: Ambiguous if the two best matches are both perfect
+            ratios = np.array(
+                [m.distance / n.distance if n.distance else 1.0 for m, n in matches],
+                dtype=float,
+            )
         if max_ratio:
-            matches = [m for m in matches if m[0].distance / m[1].distance < max_ratio]
-        uva = np.asarray([ka[0][m[0].queryIdx].pt for m in matches])
-        uvb = np.asarray([kb[0][m[0].trainIdx].pt for m in matches])
-        if return_ratios:
-            ratios = np.array([m.distance / n.distance for m, n in matches])
+            matches = [m for m, ratio in zip(matches, ratios) if ratio < max_ratio]
+            ratios = ratios[ratios < max_ratio]
+        uva = np.array([ka[0][m[0].queryIdx].pt for m in matches], dtype=float)
+        uvb = np.array([kb[0][m[0].trainIdx].pt for m in matches], dtype=float)
+        uva, uvb = uva.reshape(-1, 2), uvb.reshape(-1, 2)
         if max_distance:
             valid = np.linalg.norm(uva - uvb, axis=1) < max_distance
             uva, uvb = uva[valid], uvb[valid]
-- 
2.43.0


From c1d911f5115cf46b970d5c1f9116d6573f053872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:13 +0000
Subject: [PATCH 59/99] fix: set_cameras sets camera-specific parameters of
 cameras in no group

---
 src/glimpse/optimize.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index bd3decc..0ed9977 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1708,9 +1708,10 @@ class Cameras:
                 self.cams[j]._vector[self.group_masks[i]] = params[
                     self.group_breaks[i] : self.group_breaks[i + 1]
                 ]
-                self.cams[j]._vector[self.cam_masks[j]] = params[
-                    self.cam_breaks[j] : self.cam_breaks[j + 1]
-                ]
+        for j, cam in enumerate(self.cams):
+            cam._vector[self.cam_masks[j]] = params[
+                self.cam_breaks[j] : self.cam_breaks[j + 1]
+            ]
         if save:
             self.vectors = [cam.to_array() for cam in self.cams]
 
-- 
2.43.0


From bf678a12c787996ba623c12d8daebef057c6e5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:22 +0000
Subject: [PATCH 60/99] fix: Cameras.predicted and plot restore cameras when
 they fail, plot accepts an array of indices

---
 src/glimpse/optimize.py | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 0ed9977..acf4efa 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1750,20 +1750,17 @@ class Cameras:
             params: Parameter values (see :meth:`Cameras.set_cameras`).
             index: Indices of points to return.
         """
-        if params is not None:
-            vectors = [cam.to_array() for cam in self.cams]
-            self.set_cameras(params)
-        if len(self.controls) == 1:
-            result = self.controls[0].predicted(index=index)
-        else:
+        vectors = [cam.to_array() for cam in self.cams]
+        try:
+            if params is not None:
+                self.set_cameras(params)
+            if len(self.controls) == 1:
+                return self.controls[0].predicted(index=index)
             # TODO: Map index to subindices for each control
-            result = np.vstack([control.predicted() for control in self.controls])[
-                index
-            ]
-        if params is not None:
+            return np.vstack([control.predicted() for control in self.controls])[index]
+        finally:
             for cam, vector in zip(self.cams, vectors):
                 cam._vector = vector
-        return result
 
     def residuals(
         self, params: FitParams = None, index: Index = slice(None)
@@ -1935,14 +1932,29 @@ class Cameras:
                 matplotlib.pyplot.plot (dict), color, or `None` to hide.
             **kwargs: Optional arguments to matplotlib.pyplot.quiver for all points.
         """
-        if index != slice(None) and len(self.controls) > 1:
+        if len(self.controls) > 1 and not (
+            isinstance(index, slice) and index == slice(None)
+        ):
             # TODO: Map index to subindices for each control
             raise ValueError(
                 "Plotting with `index` not yet supported with multiple controls"
             )
         if params is not None:
             vectors = [cam.to_array() for cam in self.cams]
-            self.set_cameras(params)
+            try:
+                self.set_cameras(params)
+                return self.plot(
+                    cam=cam,
+                    index=index,
+                    selected=selected,
+                    unselected=unselected,
+                    lines_observed=lines_observed,
+                    lines_predicted=lines_predicted,
+                    **kwargs
+                )
+            finally:
+                for camera, vector in zip(self.cams, vectors):
+                    camera._vector = vector
         cam = self.cams[cam] if isinstance(cam, int) else cam
         cam_controls = self.prune_controls(self.controls, cams=[cam])
         results = []
@@ -1969,9 +1981,6 @@ class Cameras:
                     **kwargs
                 )
             results.append(result)
-        if params is not None:
-            for cam, vector in zip(self.cams, vectors):
-                cam._vector = vector
         return results
 
     def plot_weights(
-- 
2.43.0


From 11c2317d0a3061c9d158856c6bbc9673e325e895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:22 +0000
Subject: [PATCH 61/99] fix: iterative fits use the groups, weights and scale
 factors of each step and leave cameras and initial parameters unchanged

---
 src/glimpse/optimize.py | 68 ++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 31 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index acf4efa..ec46d90 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1830,6 +1830,7 @@ class Cameras:
                 by group or camera (group, cam0, cam1, ...),
                 then ordered by position in :meth:`Camera.to_array()`.
         """
+        iteration_kwargs = kwargs
         kwargs = {"nan_policy": "omit", **kwargs}
         if method == "leastsq":
             if self.scales is not None and "diag" not in kwargs:
@@ -1841,10 +1842,7 @@ class Cameras:
                 if isinstance(index, slice) and index == slice(None):
                     kwargs["jac_sparsity"] = self.sparsity
                 else:
-                    if isinstance(index, slice):
-                        jac_index = np.arange(self.size)[index]
-                    else:
-                        jac_index = np.asarray(index)
+                    jac_index = np.arange(self.size)[index]
                     jac_index = np.dstack((2 * jac_index, 2 * jac_index + 1)).ravel()
                     kwargs["jac_sparsity"] = self.sparsity[jac_index]
 
@@ -1859,34 +1857,42 @@ class Cameras:
             len(cam_params) if cam_params else 0,
             len(group_params) if group_params else 0,
         )
-        if iterations:
-            for n in range(iterations):
-                iter_cam_params = cam_params[n] if cam_params else self.cam_params
-                iter_group_params = (
-                    group_params[n] if group_params else self.group_params
-                )
-                model = Cameras(
-                    cams=self.cams,
-                    controls=self.controls,
-                    cam_params=iter_cam_params,
-                    group_params=iter_group_params,
-                )
-                values = model.fit(index=index, method=method, **kwargs)
-                if values is not None:
-                    model.set_cameras(params=values)
-            self.update_params()
-        result = lmfit.minimize(
-            params=self.params,
-            fcn=self.residuals,
-            kws={"index": index},
-            iter_cb=callback,
-            method=method,
-            **kwargs
-        )
+        vectors = [cam.to_array() for cam in self.cams]
+        initial_params = self.params
+        try:
+            if iterations:
+                for n in range(iterations):
+                    iter_cam_params = cam_params[n] if cam_params else self.cam_params
+                    iter_group_params = (
+                        group_params[n] if group_params else self.group_params
+                    )
+                    model = Cameras(
+                        cams=self.cams,
+                        controls=self.controls,
+                        cam_params=iter_cam_params,
+                        group_indices=self.group_indices,
+                        group_params=iter_group_params,
+                        weights=self.weights,
+                        scales=self.scales is not None,
+                        sparsity=self.sparsity is not None,
+                    )
+                    values = model.fit(index=index, method=method, **iteration_kwargs)
+                    if values is not None:
+                        model.set_cameras(params=values)
+                self.update_params()
+            result = lmfit.minimize(
+                params=self.params,
+                fcn=self.residuals,
+                kws={"index": index},
+                iter_cb=callback,
+                method=method,
+                **kwargs
+            )
+        finally:
+            self.params = initial_params
+            for cam, vector in zip(self.cams, vectors):
+                cam._vector = vector
         sys.stdout.write("\n")
-        if iterations:
-            self.reset_cameras()
-            self.update_params()
         if not result.success:
             print(result.message)
         if full:
-- 
2.43.0


From 5a127c4ab4ee9d7b84fc3e1c097c7a7e7876a9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:48 +0000
Subject: [PATCH 62/99] fix: fit omits missing residuals from the sparsity of
 the Jacobian

---
 src/glimpse/optimize.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index ec46d90..287d6ce 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1831,6 +1831,7 @@ class Cameras:
                 then ordered by position in :meth:`Camera.to_array()`.
         """
         iteration_kwargs = kwargs
+        sparse = False
         kwargs = {"nan_policy": "omit", **kwargs}
         if method == "leastsq":
             if self.scales is not None and "diag" not in kwargs:
@@ -1839,6 +1840,7 @@ class Cameras:
             if self.scales is not None and "x_scale" not in kwargs:
                 kwargs["x_scale"] = self.scales
             if self.sparsity is not None and "jac_sparsity" not in kwargs:
+                sparse = True
                 if isinstance(index, slice) and index == slice(None):
                     kwargs["jac_sparsity"] = self.sparsity
                 else:
@@ -1880,6 +1882,10 @@ class Cameras:
                     if values is not None:
                         model.set_cameras(params=values)
                 self.update_params()
+            if sparse and kwargs["nan_policy"] == "omit":
+                # Missing residuals are omitted
+                valid = ~np.isnan(self.residuals(self.params, index=index)).ravel()
+                kwargs["jac_sparsity"] = kwargs["jac_sparsity"][valid]
             result = lmfit.minimize(
                 params=self.params,
                 fcn=self.residuals,
-- 
2.43.0


From 6a4bb489d6fee8eeb38c9bc09f31d75af54fb987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:05 +0000
Subject: [PATCH 63/99] fix: parse_params selects nothing for False or no
 indices and only elements of the named parameter

---
 src/glimpse/optimize.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 287d6ce..1327e84 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1514,13 +1514,13 @@ class Cameras:
                     selection = value[0]
                 else:
                     selection = value
-                if selection or selection == 0:
-                    i = attributes.index(key)
-                    if selection is True:
-                        positions = range(indices[i], indices[i + 1])
-                    else:
-                        positions = indices[i] + np.atleast_1d(selection)
-                    mask[positions] = True
+                if selection is None or selection is False:
+                    selection = []
+                i = attributes.index(key)
+                positions = np.arange(indices[i], indices[i + 1])
+                if selection is not True:
+                    positions = np.atleast_1d(positions[selection])
+                mask[positions] = True
                 if isinstance(value, tuple):
                     min_bounds = np.atleast_1d(value[1])
                     if len(min_bounds) == 1:
-- 
2.43.0


From 89261394508af440a5c21847cc13c22cf1a0761d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:13 +0000
Subject: [PATCH 64/99] fix: group indices may be numpy integers

---
 src/glimpse/optimize.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 1327e84..1af16bf 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1272,9 +1272,11 @@ class Cameras:
             controls = [controls]
         if isinstance(cam_params, dict):
             cam_params = [cam_params]
-        if isinstance(group_indices, int):
+        if isinstance(group_indices, (int, np.integer)):
             group_indices = [group_indices]
-        if group_indices is not None and isinstance(group_indices[0], int):
+        if group_indices is not None and isinstance(
+            group_indices[0], (int, np.integer)
+        ):
             group_indices = [group_indices]
         if isinstance(group_params, dict):
             group_params = [group_params]
-- 
2.43.0


From 8700ad845fd45f65b1d526907759ef518901e89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:21 +0000
Subject: [PATCH 65/99] fix: scale factors of camera positions use the mean
 distance to world features

---
 src/glimpse/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 1af16bf..2bdb2c3 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1382,7 +1382,8 @@ class Cameras:
             if xyz:
                 # NOTE: Upper bound (assumes motion perpendicular to feature direction)
                 dpixels[0:3] = (
-                    cam.f.mean() / np.linalg.norm(np.vstack(xyz) - cam.xyz).mean()
+                    cam.f.mean()
+                    / np.linalg.norm(np.vstack(xyz) - cam.xyz, axis=1).mean()
                 )
         # viewdir[0, 1]
         # First angle rotates camera left-right
-- 
2.43.0


From 8fb33c62c5c48ee128c655f6350aaea19571ed9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:51 +0000
Subject: [PATCH 66/99] fix: ObserverCameras.fit passes a flat vector of
 initial view directions

---
 src/glimpse/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 2bdb2c3..0b531c4 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2116,7 +2116,7 @@ class ObserverCameras:
             return objective, gradients.ravel()
 
         # Optimize camera view directions
-        viewdirs_0 = [img.cam.viewdir for img in self.observer.images]
+        viewdirs_0 = np.hstack([img.cam.viewdir for img in self.observer.images])
         result = scipy.optimize.minimize(
             fun=fun, x0=viewdirs_0, jac=True, method=method, **kwargs
         )
-- 
2.43.0


From ccceec6680dfe7fe15d367627a0d3684c68f0747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:01 +0000
Subject: [PATCH 67/99] fix: ObserverCameras.fit restores cameras when it fails

---
 src/glimpse/optimize.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 0b531c4..326ebca 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2117,10 +2117,12 @@ class ObserverCameras:
 
         # Optimize camera view directions
         viewdirs_0 = np.hstack([img.cam.viewdir for img in self.observer.images])
-        result = scipy.optimize.minimize(
-            fun=fun, x0=viewdirs_0, jac=True, method=method, **kwargs
-        )
-        self.reset_cameras()
+        try:
+            result = scipy.optimize.minimize(
+                fun=fun, x0=viewdirs_0, jac=True, method=method, **kwargs
+            )
+        finally:
+            self.reset_cameras()
         if not result.success:
             sys.stdout.write("\n")  # new line
             print(result.message)
-- 
2.43.0


From d8d967aa2db84d8b7bb581d97b55d767a6c6e899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:59 +0000
Subject: [PATCH 68/99] fix: empty match sequence raises IndexError

---
 src/glimpse/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 326ebca..e3c8b83 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2552,7 +2552,7 @@ class KeypointMatcher:
             matching_images = [np.array([], dtype=int) for i in range(n)]
         # Add match sequence
         if seq is not None:
-            seq = np.asarray(seq)
+            seq = np.asarray(seq, dtype=int)
             seq = np.unique(seq[seq > 0])
             for i, m in enumerate(matching_images):
                 iseq = seq + i
-- 
2.43.0


From cb1294419c9dc343d270c2bdb162d837d35e4fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:08 +0000
Subject: [PATCH 69/99] fix: pairs of images whose match files have the same
 name share matches

---
 src/glimpse/optimize.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index e3c8b83..972fe05 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2563,6 +2563,14 @@ class KeypointMatcher:
             for i, m in enumerate(matching_images):
                 if not np.isin(i, imgs):
                     matching_images[i] = m[np.isin(m, imgs)]
+        if path:
+            names = [
+                basenames[i] + "-" + basenames[j]
+                for i, m in enumerate(matching_images)
+                for j in m
+            ]
+            if len(names) != len(set(names)):
+                raise ValueError("Names of match files are not unique")
 
         def reduce(matches: Iterable[Matches]) -> Iterable[Matches]:
             if filter and not clear_matches:
-- 
2.43.0


From 1c7b924936a4acf506467c42051596bfdc27585b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:54 +0000
Subject: [PATCH 70/99] fix: Observer.animate fails to slice cached images

---
 src/glimpse/track/observer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 59b86dc..a60c5da 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -356,7 +356,8 @@ class Observer:
                 grid = Grid(self.images[i].size)
                 box = grid.snap_xy(
                     helpers.unravel_box(box), centers=False, edges=True
-                ).ravel()
+                )
+                box = box.astype(int).ravel()
                 tile = self.extract_tile(img=i, box=box)
             else:
                 # Use white tile
-- 
2.43.0


From 6ed97bbda373989e97cc34d3cf9133455d627c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:03 +0000
Subject: [PATCH 71/99] fix: Observer.animate is not centered on the point if
 tiles are not square

---
 src/glimpse/track/observer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index a60c5da..58c4745 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -340,7 +340,7 @@ class Observer:
             transform=ax[0].transAxes,
         )
         ax[1].set_xlim(uv[0] - halfsize[0], uv[0] + halfsize[0])
-        ax[1].set_ylim(uv[1] + halfsize[1], uv[1] - halfsize[0])
+        ax[1].set_ylim(uv[1] + halfsize[1], uv[1] - halfsize[1])
 
         # Update plot
         def update_plot(i: int) -> list:
@@ -368,7 +368,7 @@ class Observer:
                 pt[j].set_xdata(puv[0])
                 pt[j].set_ydata(puv[1])
             ax[0].set_xlim(puv[0] - halfsize[0], puv[0] + halfsize[0])
-            ax[0].set_ylim(puv[1] + halfsize[1], puv[1] - halfsize[0])
+            ax[0].set_ylim(puv[1] + halfsize[1], puv[1] - halfsize[1])
             basename = helpers.strip_path(self.images[i].path)
             txt.set_text(str(i) + " : " + basename)
             return im + pt + [txt]
-- 
2.43.0


From f0a8330c73f0ede2df0eda1a0c808fdd45a61153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:12 +0000
Subject: [PATCH 72/99] fix: Observer.track fails for a list of frames

---
 src/glimpse/track/observer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 58c4745..5fef3da 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -407,6 +407,7 @@ class Observer:
         """
         if frames is None:
             frames = np.arange(len(xyz))
+        frames = np.asarray(frames)
         halfsize = (size[0] * 0.5, size[1] * 0.5)
         # Initialize plot
         fig, ax = matplotlib.pyplot.subplots(ncols=2, **subplots)
-- 
2.43.0


From 0eb8fbf4ba2cf0ff9bac4942105fe75b01968d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:21 +0000
Subject: [PATCH 73/99] fix: Observer.track draws the label of each frame far
 outside the plot

---
 src/glimpse/track/observer.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 5fef3da..746e527 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -408,7 +408,6 @@ class Observer:
         if frames is None:
             frames = np.arange(len(xyz))
         frames = np.asarray(frames)
-        halfsize = (size[0] * 0.5, size[1] * 0.5)
         # Initialize plot
         fig, ax = matplotlib.pyplot.subplots(ncols=2, **subplots)
         track_uv: np.ndarray = self.images[frames[0]].xyz_to_uv(xyz[0:1])
@@ -456,8 +455,6 @@ class Observer:
             pt[1].set_xdata(uv[0])
             pt[1].set_ydata(uv[1])
             basename = helpers.strip_path(self.images[i].path)
-            txt.set_x(uv[0])
-            txt.set_y(uv[1] - (halfsize[1] - 10))
             txt.set_text(str(i) + " : " + basename)
             return im + [track] + pt + [txt]
 
-- 
2.43.0


From 8450cf208e67b858c899103c0168339f2da69ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:30 +0000
Subject: [PATCH 74/99] fix: missing image size is taken as a huge negative
 number

---
 src/glimpse/camera.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index ad88625..ad32e7e 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -152,6 +152,8 @@ class Camera:
 
     @imgsz.setter
     def imgsz(self, value: Vector) -> None:
+        if value is None:
+            raise ValueError("Image size is missing")
         as_int = helpers.format_list(value, length=2, dtype=int)
         as_float = helpers.format_list(value, length=2)
         if np.any(as_int != as_float):
-- 
2.43.0


From fbf9629efe2ac5670a74100956102572bcf5390c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:39 +0000
Subject: [PATCH 75/99] fix: Image does not read the image size if only focal
 length and sensor size are given

---
 src/glimpse/image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/image.py b/src/glimpse/image.py
index 7103c35..cda6d49 100644
--- a/src/glimpse/image.py
+++ b/src/glimpse/image.py
@@ -94,7 +94,7 @@ class Image:
             cam = {}
         if isinstance(cam, dict):
             if not (
-                "imgsz" in cam and "f" in cam or ("fmm" in cam and "sensorsz" in cam)
+                "imgsz" in cam and ("f" in cam or ("fmm" in cam and "sensorsz" in cam))
             ):
                 exif = exif or Exif(path)
                 cam = {
-- 
2.43.0


From 5c0ccd81ec093ca7fb2642e30d0be1aa86c485d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:47 +0000
Subject: [PATCH 76/99] fix: Image refuses a focal length in pixels if the
 image size is read from metadata

---
 src/glimpse/image.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/glimpse/image.py b/src/glimpse/image.py
index cda6d49..07ce46c 100644
--- a/src/glimpse/image.py
+++ b/src/glimpse/image.py
@@ -97,12 +97,11 @@ class Image:
                 "imgsz" in cam and ("f" in cam or ("fmm" in cam and "sensorsz" in cam))
             ):
                 exif = exif or Exif(path)
-                cam = {
-                    "imgsz": exif.imgsz,
-                    "fmm": exif.fmm,
-                    "sensorsz": exif.sensorsz,
-                    **cam,
-                }
+                meta = {"imgsz": exif.imgsz, "sensorsz": exif.sensorsz}
+                if "f" not in cam:
+                    # Focal length cannot be provided in both pixels and mm
+                    meta["fmm"] = exif.fmm
+                cam = {**meta, **cam}
             cam = Camera(**cam)
         self.cam = cam
         if not datetime:
-- 
2.43.0


From 124b7b7351cfbd7fd790b0ebda62fc5d9cf042f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:51 +0000
Subject: [PATCH 77/99] fix: Camera.reversible ignores the principal point

---
 src/glimpse/camera.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index ad32e7e..fd1c1da 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -1415,8 +1415,8 @@ class Camera:
         xy_row = np.column_stack(
             (
                 np.linspace(
-                    -self.imgsz[0] / (2 * self.f[0]),
-                    self.imgsz[0] / (2 * self.f[0]),
+                    (-self.imgsz[0] / 2 - self.c[0]) / self.f[0],
+                    (self.imgsz[0] / 2 - self.c[0]) / self.f[0],
                     int(self.imgsz[0]),
                 ),
                 np.zeros(int(self.imgsz[0])),
@@ -1428,8 +1428,8 @@ class Camera:
             (
                 np.zeros(int(self.imgsz[1])),
                 np.linspace(
-                    -self.imgsz[1] / (2 * self.f[1]),
-                    self.imgsz[1] / (2 * self.f[1]),
+                    (-self.imgsz[1] / 2 - self.c[1]) / self.f[1],
+                    (self.imgsz[1] / 2 - self.c[1]) / self.f[1],
                     int(self.imgsz[1]),
                 ),
             )
-- 
2.43.0


From aef25cbe8954f2248d5ceb892bbfa59be9fb45be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:35 +0000
Subject: [PATCH 78/99] fix: Camera.from_json fails on or ignores saved
 corrections

---
 src/glimpse/camera.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index fd1c1da..f4ecd53 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -346,6 +346,9 @@ class Camera:
         """
         json_args = helpers.read_json(path)
         for key in json_args:
+            if key == "correction":
+                # Not numeric: boolean or dictionary
+                continue
             # Conversion to float converts None to nan
             value = np.array(json_args[key], dtype=float)
             if np.isnan(value).all():
-- 
2.43.0


From 6b640eedb9d290d73c890f57e920e5d54ae82f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:51 +0000
Subject: [PATCH 79/99] fix: Raster.open and Grid.read with a cell size return
 a column or row too many due to rounding error

---
 src/glimpse/raster.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index f4a9c8c..d2a0c4c 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -211,8 +211,7 @@ class Grid:
         win_xsize = (cols[1] - cols[0]) + 1
         win_ysize = (rows[1] - rows[0]) + 1
         if d:
-            buf_xsize = int(np.ceil(abs(win_xsize * grid.d[0] / d)))
-            buf_ysize = int(np.ceil(abs(win_ysize * grid.d[1] / d)))
+            buf_xsize, buf_ysize = grid._count_cells((win_xsize, win_ysize), d=d)
         else:
             buf_xsize = win_xsize
             buf_ysize = win_ysize
@@ -267,6 +266,12 @@ class Grid:
             raise ValueError("Could not parse limits from x, y inputs")
         return xlim, x, X
 
+    def _count_cells(self, size: Iterable[int], d: Number) -> np.ndarray:
+        """Count the cells of size d needed to cover a window (nx, ny)."""
+        n = np.abs(np.multiply(size, self.d)) / d
+        # Ignore rounding error in the size of the cells
+        return np.maximum(np.ceil(n - 1e-6), 1).astype(int)
+
     def _shift_xy(self, dx: Number = None, dy: Number = None) -> None:
         """Shift grid position."""
         # NOTE: Arrays are replaced since they may be shared with other objects
@@ -738,8 +743,7 @@ class Raster(Grid):
         win_xsize = (cols[1] - cols[0]) + 1
         win_ysize = (rows[1] - rows[0]) + 1
         if d:
-            buf_xsize = np.ceil(abs(win_xsize * grid.d[0] / d))
-            buf_ysize = np.ceil(abs(win_ysize * grid.d[1] / d))
+            buf_xsize, buf_ysize = grid._count_cells((win_xsize, win_ysize), d=d)
         else:
             buf_xsize = win_xsize
             buf_ysize = win_ysize
-- 
2.43.0


From 660aa4034c60a2e7a9bd3e260228f0966852c6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:42 +0000
Subject: [PATCH 80/99] fix: RasterInterpolant resamples rasters of equal cell
 size (spreading missing cells) due to rounding error or rectangular cells,
 and resizes rasters in memory to other cells than those from file

---
 src/glimpse/raster.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index d2a0c4c..9d395aa 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1629,7 +1629,9 @@ class RasterInterpolant:
             # Raster
             # Copy and reshape to specified bounds
             # NOTE: Adjust to match grid when read from file
-            d_change = d is not None and d != np.abs(obj.d).mean()
+            d_change = d is not None and not np.allclose(
+                np.abs(obj.d), d, rtol=1e-6, atol=0
+            )
             xlim_change = xlim is not None and sorted(xlim) != sorted(obj.xlim)
             ylim_change = ylim is not None and sorted(ylim) != sorted(obj.ylim)
             if any((d_change, xlim_change, ylim_change)):
@@ -1637,8 +1639,8 @@ class RasterInterpolant:
             if xlim_change or ylim_change:
                 obj.crop(xlim=xlim, ylim=ylim)
             if d_change:
-                scale = np.abs(obj.d).mean() / d
-                obj.resize(scale)
+                scale = obj._count_cells(obj.size, d=d) / obj.size
+                obj.array = scipy.ndimage.zoom(obj.array, zoom=scale[::-1], order=1)
             return obj
         if isinstance(obj, str):
             # Path to raster
@@ -1801,7 +1803,10 @@ class RasterInterpolant:
         if d is None:
             # Ignore numbers, which have infinite cell size
             ds = np.abs(np.stack([grid.d for grid in grids]))
-            d = np.max(ds[np.isfinite(ds)]) if np.isfinite(ds).any() else None
+            ds = ds[np.isfinite(ds).all(axis=1)]
+            # Rasters with the same cell size (within rounding error) are not resized
+            if not np.allclose(ds, ds[0:1], rtol=1e-6, atol=0):
+                d = np.max(ds)
         if xlim is None:
             xlim = (-np.inf, np.inf)
         if ylim is None:
@@ -1826,7 +1831,13 @@ class RasterInterpolant:
             grid = means[1].grid
         for rasters in (means, sigmas or []):
             for k, raster in enumerate(rasters):
-                if raster.grid != grid:
+                # Grids may differ by rounding error
+                if raster.shape != grid.shape or not np.allclose(
+                    (raster.xlim, raster.ylim),
+                    (grid.xlim, grid.ylim),
+                    rtol=0,
+                    atol=1e-6 * np.abs(grid.d).min(),
+                ):
                     rasters[k] = raster.copy()
                     rasters[k].resample(grid, bounds_error=False)
         # Interpolate
-- 
2.43.0


From 74b998ee5d3fc7830fb4f3a3b1837cf7193b15e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:05 +0000
Subject: [PATCH 81/99] fix: A warning raised while tracking some of the tracks
 makes Tracker.track fail

---
 src/glimpse/track/tracks.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/track/tracks.py b/src/glimpse/track/tracks.py
index ff4532b..4d0fa9c 100644
--- a/src/glimpse/track/tracks.py
+++ b/src/glimpse/track/tracks.py
@@ -85,7 +85,14 @@ class Tracks:
         self.images = images if images is None else np.asarray(images)
         self.params = params
         self.errors = errors if errors is None else np.asarray(errors)
-        self.warnings = warnings if warnings is None else np.asarray(warnings)
+        if warnings is not None:
+            # NOTE: Each track may have a different number of warnings
+            warnings = list(warnings)
+            array = np.empty(len(warnings), dtype=object)
+            for i, caught in enumerate(warnings):
+                array[i] = caught
+            warnings = array
+        self.warnings = warnings
 
     @property
     def xyz(self) -> np.ndarray:
-- 
2.43.0


From 1bd172c457887d8a9a0efd229c2ad34874a0617a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:58 +0000
Subject: [PATCH 82/99] fix: Warnings raised while tracking in parallel are
 lost

---
 src/glimpse/track/tracker.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index d2d628d..b18aff3 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -306,6 +306,8 @@ class Tracker:
         bar = helpers._progress_bar(max=ntracks)
         ntimes = len(datetimes)
         dts = np.diff(datetimes)
+        # NOTE: Warnings are ignored by default in parallel processes
+        filters = warnings.filters[:]
 
         def process(motion_model: Motion, observer_mask: np.ndarray) -> list:
             means = np.full((ntimes, 6), np.nan)
@@ -322,6 +324,7 @@ class Tracker:
             tracker = copy.copy(self) if parallel else self
             try:
                 with warnings.catch_warnings(record=True) as caught:
+                    warnings.filters[:] = filters
                     # Skip datetimes before first and after last available image
                     # NOTE: Track thus starts from initial particle state at first
                     # available image
-- 
2.43.0


From ac35f6470458ce851bbd5a7ffa276f61ee8d611d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:12 +0000
Subject: [PATCH 83/99] fix: A warning which cannot be pickled makes parallel
 tracking fail

---
 src/glimpse/track/tracker.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/track/tracker.py b/src/glimpse/track/tracker.py
index b18aff3..6336d93 100644
--- a/src/glimpse/track/tracker.py
+++ b/src/glimpse/track/tracker.py
@@ -21,6 +21,20 @@ from .tracks import Tracks
 Number = Union[int, float]
 
 
+def _to_picklable(caught: warnings.WarningMessage) -> warnings.WarningMessage:
+    """Replace a caught warning by a generic one if it cannot survive pickling."""
+    try:
+        pickle.loads(pickle.dumps(caught))
+    except Exception:
+        return warnings.WarningMessage(
+            message=RuntimeWarning(f"{caught.category.__name__}: {caught.message}"),
+            category=RuntimeWarning,
+            filename=caught.filename,
+            lineno=caught.lineno,
+        )
+    return caught
+
+
 class Tracker:
     """
     Estimate the trajectory of world points through time.
@@ -368,7 +382,7 @@ class Tracker:
                             particles[i] = tracker.particles
                             weights[i] = tracker.weights
                 if caught:
-                    all_warnings = tuple(caught)
+                    all_warnings = tuple(_to_picklable(w) for w in caught)
             except Exception as e:
                 # traceback object cannot be pickled, so include in message
                 # TODO: Use tblib instead (https://stackoverflow.com/a/26096355)
-- 
2.43.0


From ab9aaf12aa6df00102358be982172c671f2e80e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:20 +0000
Subject: [PATCH 84/99] fix: Plotting a polynomial fails when all or no points
 are selected

---
 src/glimpse/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 972fe05..1ff0bc6 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1126,7 +1126,7 @@ class Polynomial:
             (index, selected, "selected"),
         ]:
             if not len(idx) or args is None:
-                result = None
+                result[label] = None
                 continue
             if not isinstance(args, dict):
                 args = {"c": args}
-- 
2.43.0


From 25022a39d4b9a4eecdfc5ba904372808bcd63242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:40 +0000
Subject: [PATCH 85/99] fix: Fitting a single parameter with a declared
 sparsity fails

---
 src/glimpse/optimize.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 1ff0bc6..3c56d36 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -1842,8 +1842,13 @@ class Cameras:
         if method == "least_squares":
             if self.scales is not None and "x_scale" not in kwargs:
                 kwargs["x_scale"] = self.scales
-            if self.sparsity is not None and "jac_sparsity" not in kwargs:
-                sparse = True
+            # NOTE: The sparse solver requires at least two parameters
+            sparse = (
+                self.sparsity is not None
+                and "jac_sparsity" not in kwargs
+                and len(self.params) > 1
+            )
+            if sparse:
                 if isinstance(index, slice) and index == slice(None):
                     kwargs["jac_sparsity"] = self.sparsity
                 else:
-- 
2.43.0


From e92855698ed1c23015dba4f9486dee24cf65b8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:42 +0000
Subject: [PATCH 86/99] fix: A single missing cell is not visible from itself

---
 src/glimpse/raster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 9d395aa..9abdb31 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1386,8 +1386,8 @@ class Raster(Grid):
                 # Single ring starting at 0
                 rings = np.array([0])
             else:
-                # Single co-located pixel, return all visible
-                return np.ones(self.array.shape, dtype=bool)
+                # Single co-located pixel, visible (if not NaN)
+                return ~np.isnan(dz).reshape(self.array.shape)
         rings = np.append(rings, len(ix))
         # Compute elevation ratio
         first_ring = ix[rings[0] : rings[1]]
-- 
2.43.0


From 2fb560a66fe0eee540f1e32f62fe74390206dc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:03 +0000
Subject: [PATCH 87/99] fix: Keypoints with too few candidates in the mask are
 not matched

---
 src/glimpse/optimize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/optimize.py b/src/glimpse/optimize.py
index 3c56d36..7295f00 100644
--- a/src/glimpse/optimize.py
+++ b/src/glimpse/optimize.py
@@ -2314,10 +2314,12 @@ def match_keypoints(
     n = 2 if compute_ratios else 1
     if len(ka[0]) >= n and len(kb[0]) >= n:
         matches = matcher.knnMatch(ka[1], kb[1], k=n, mask=mask)
+        # Skip keypoints for which the mask leaves fewer than n candidates
+        matches = [m for m in matches if len(m) == n]
         if cross_check:
             mask_ba = None if mask is None else mask.T
             matches_ba = matcher.knnMatch(kb[1], ka[1], k=n, mask=mask_ba)
-            ba = [(m[0].trainIdx, m[0].queryIdx) for m in matches_ba]
+            ba = [(m[0].trainIdx, m[0].queryIdx) for m in matches_ba if m]
             matches = [m for m in matches if (m[0].queryIdx, m[0].trainIdx) in ba]
         if compute_ratios:
             # NOTE: Ambiguous if the two best matches are both perfect
-- 
2.43.0


From e014982e0159a551d4d0dc1b9e8c1afc096719f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:59 +0000
Subject: [PATCH 88/99] fix: interpolating rasters of small integers wraps
 around

---
 src/glimpse/raster.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 9abdb31..3751044 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -1738,7 +1738,8 @@ class RasterInterpolant:
         sigmas: Iterable[Raster] = None,
     ) -> Union[Raster, Tuple[Raster, Raster]]:
         """Interpolate between two rasters."""
-        dz = means[1].array - means[0].array
+        # NOTE: Integers may overflow
+        dz = np.subtract(means[1].array, means[0].array, dtype=float)
         dx = x[1] - x[0]
         # Both rasters are the same if exactly at a raster
         scale = (xi - x[0]) / dx if dx else 0
@@ -1748,9 +1749,8 @@ class RasterInterpolant:
         if sigmas is not None:
             # Bounds uncertainty: error propagation of z above
             # NOTE: 'a * (1 - scale) + b * scale' form underestimates uncertainty
-            z_var = sigmas[0].array ** 2 + scale ** 2 * (
-                sigmas[0].array ** 2 + sigmas[1].array ** 2
-            )
+            variances = [np.float_power(raster.array, 2) for raster in sigmas]
+            z_var = variances[0] + scale ** 2 * (variances[0] + variances[1])
             # Interpolation uncertainty: nearest bound at 99.7%
             nearest_dx = np.min(np.abs(np.subtract(xi, x)))
             zi_var = ((1 / 3) * dz * (nearest_dx / dx if dx else 0)) ** 2
-- 
2.43.0


From 6de42ce1dea95ed3ddf3a7bc1aa97f25c3a64fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:07 +0000
Subject: [PATCH 89/99] fix: Grids described by small or unsigned integers wrap
 around

---
 src/glimpse/raster.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 3751044..c9bb328 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -236,6 +236,9 @@ class Grid:
             raise ValueError("Grid limits must be numeric")
         if value[0] == value[1]:
             raise ValueError("Grid limits cannot be equal")
+        if np.issubdtype(value.dtype, np.integer):
+            # NOTE: Small integers may overflow
+            value = value.astype(np.int64)
         return value
 
     def _parse_xy(
@@ -246,6 +249,9 @@ class Grid:
             value = (0, self.size[dim])
         if not isinstance(value, np.ndarray):
             value = np.atleast_1d(value)
+        if np.issubdtype(value.dtype, np.integer):
+            # NOTE: Small integers may overflow
+            value = value.astype(np.int64)
         is_X = value.shape[0:2] == self.shape[0:2]
         if is_X:
             # TODO: Check if all columns equal
-- 
2.43.0


From 85ac0f0914ff9ecd8c302f3b9e308c3d29e94a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:14 +0000
Subject: [PATCH 90/99] fix: xyz_to_spherical overflows with directions of
 small integers

---
 src/glimpse/camera.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glimpse/camera.py b/src/glimpse/camera.py
index f4ecd53..7e48cd2 100644
--- a/src/glimpse/camera.py
+++ b/src/glimpse/camera.py
@@ -936,6 +936,8 @@ class Camera:
         """
         if not directions:
             xyz = xyz - self.xyz
+        # NOTE: Small integers may overflow
+        xyz = np.asarray(xyz, dtype=float)
         r = np.sqrt(np.sum(xyz ** 2, axis=1))
         azimuth_iso = np.arctan2(xyz[:, 1], xyz[:, 0])
         altitude_iso = np.arccos(xyz[:, 2] / r)
-- 
2.43.0


From 0f6f53f194f428df11c676697074ad7b2cf9b1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:34 +0000
Subject: [PATCH 91/99] fix: Grids accept coordinates for another number of
 cells

---
 src/glimpse/raster.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index c9bb328..97630e4 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -262,6 +262,8 @@ class Grid:
         is_x = any(n > 2 for n in value.shape[0:2]) or (is_X and len(value) == 2)
         if is_x:
             x = value
+            if len(x) != self.size[dim]:
+                raise ValueError("Number of x, y coordinates does not match grid size")
             # TODO: Check if equally spaced monotonic
             dx = np.diff(value[0:2])
             xlim = np.append(value[0] - dx / 2, value[-1] + dx / 2)
-- 
2.43.0


From 55eab60c942cfcadb87fb8a42c8fd8ad3fbe82a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:34 +0000
Subject: [PATCH 92/99] fix: Points interpolated along lines of small or
 unsigned integers are wrong

---
 src/glimpse/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 6ee60fa..27e7d26 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -1159,11 +1159,13 @@ def interpolate_line(
     """
     if all((xi is None, n is None, dx is None)):
         raise ValueError("One of xi, n, or dx is required")
+    vertices = np.asarray(vertices, dtype=float)
     if x is None:
         # Compute total distance at each vertex
         x = np.cumsum(np.sqrt(np.sum(np.diff(vertices, axis=0) ** 2, axis=1)))
         # Set first vertex at 0
         x = np.insert(x, 0, 0)
+    x = np.asarray(x, dtype=float)
     if xi is None:
         if n is None:
             # Number of intervals (at least one, unless the line has no length)
@@ -1174,7 +1176,6 @@ def interpolate_line(
         error = False
         fill = "endpoints"
     # x must be increasing
-    x = np.asarray(x)
     decreasing = len(x) > 1 and x[1] < x[0]
     if decreasing:
         sort_index = np.argsort(x)
-- 
2.43.0


From 4da8697350b0ac4791203e858444f906f84574fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:42 +0000
Subject: [PATCH 93/99] fix: Lines and rays of unsigned integers miss boxes

---
 src/glimpse/helpers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 27e7d26..9b9d693 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -751,6 +751,8 @@ def clip_polyline_box(
         []
     """
     cols = slice(None, -1) if t else slice(None)
+    # NOTE: Differences of small or unsigned integers overflow
+    line = np.asarray(line, dtype=float)
     mask = in_box(line[:, cols], box)
     segments = boolean_split(line, mask)
     trues = slice(int(~mask[0]), None, 2)
@@ -838,7 +840,9 @@ def intersect_rays_box(
                 [2., 2.]]))
     """
     # Precompute constants
-    bounds = np.repeat(np.atleast_2d(box), len(directions), axis=0)
+    # NOTE: Differences of small or unsigned integers overflow
+    origin = np.asarray(origin, dtype=float)
+    bounds = np.repeat(np.atleast_2d(box).astype(float), len(directions), axis=0)
     fbounds = bounds.flatten()
     with np.errstate(divide="ignore"):
         invdir = 1 / directions
-- 
2.43.0


From 4aa79c39f95ed386bf144cc23a3f9dcf5ffaad33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:50 +0000
Subject: [PATCH 94/99] fix: Nearest neighbors of unsigned integers are wrong

---
 src/glimpse/helpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 9b9d693..824bad1 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -198,6 +198,8 @@ def sorted_nearest(x: Iterable, y: Iterable) -> np.ndarray:
     """
     # NOTE: Returns int64 index on int32 platforms
     x, y = np.asarray(x), np.asarray(y)
+    # NOTE: Differences of small or unsigned integers overflow
+    x, y = (a.astype(float) if a.dtype.kind in "iu" else a for a in (x, y))
     neighbors = _sorted_neighbors(x, y)
     nearest = np.argmin(np.abs(y.reshape(-1, 1) - x[neighbors]), axis=1)
     return neighbors[range(len(y)), nearest]
-- 
2.43.0


From a5824856493f9ce02b70e05e1d98299665703767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:58 +0000
Subject: [PATCH 95/99] fix: Polygons of NumPy numbers cannot be rasterized

---
 src/glimpse/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 824bad1..78121a0 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -1528,7 +1528,8 @@ def polygons_to_mask(
     ) -> osgeo.ogr.Geometry:
         ring = osgeo.ogr.Geometry(osgeo.ogr.wkbLinearRing)
         for x, y in polygon:
-            ring.AddPoint(x, y)
+            # NOTE: Only native types are supported
+            ring.AddPoint(float(x), float(y))
         polygon = osgeo.ogr.Geometry(osgeo.ogr.wkbPolygon)
         polygon.AddGeometry(ring)
         return polygon
-- 
2.43.0


From 2686dfb7c7008b5faaeeeb68b64b2324cd9c98ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:05 +0000
Subject: [PATCH 96/99] fix: Grid lines between small or unsigned integers
 overflow

---
 src/glimpse/helpers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 78121a0..071221e 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -2,6 +2,7 @@
 import datetime
 import gzip
 import json
+import operator
 import os
 import pathlib
 import pickle
@@ -927,8 +928,9 @@ def bresenham_line(start: Iterable[int], end: Iterable[int]) -> np.ndarray:
                [1, 0],
                [2, 1]])
     """
-    x1, y1 = start
-    x2, y2 = end
+    # NOTE: Differences of small or unsigned integers overflow
+    x1, y1 = map(operator.index, start)
+    x2, y2 = map(operator.index, end)
     # Determine how steep the line is
     is_steep = abs(y2 - y1) > abs(x2 - x1)
     # Rotate line
-- 
2.43.0


From bcd6f2f9704455fbae335aea2d4d907a87e551e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:13 +0000
Subject: [PATCH 97/99] fix: Invalid coordinate systems are refused only after
 the file was replaced

---
 src/glimpse/helpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/helpers.py b/src/glimpse/helpers.py
index 071221e..b58768d 100644
--- a/src/glimpse/helpers.py
+++ b/src/glimpse/helpers.py
@@ -619,6 +619,8 @@ def write_raster(
     can_copy = meta.get(osgeo.gdal.DCAP_CREATECOPY)
     if not can_create and not can_copy:
         raise ValueError(f"GDAL driver {driver.ShortName} cannot write files")
+    # NOTE: Must fail before the file is created
+    wkt = crs_to_wkt(crs) if crs else None
     create_driver = driver if can_create else osgeo.gdal.GetDriverByName("mem")
     output = create_driver.Create(
         utf8_path=path if can_create else "",
@@ -629,8 +631,7 @@ def write_raster(
     )
     if transform:
         output.SetGeoTransform(transform)
-    if crs:
-        wkt = crs_to_wkt(crs)
+    if wkt:
         output.SetProjection(wkt)
     for i in range(output.RasterCount):
         band = a[:, :, i]
-- 
2.43.0


From 73705859fc653539a83e4e62c02d3c80b8c0f094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:44:15 +0000
Subject: [PATCH 98/99] fix: First tile of animations is placed in an image
 which may not be drawn

---
 src/glimpse/track/observer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glimpse/track/observer.py b/src/glimpse/track/observer.py
index 746e527..d2c205a 100644
--- a/src/glimpse/track/observer.py
+++ b/src/glimpse/track/observer.py
@@ -325,7 +325,7 @@ class Observer:
         halfsize = (size[0] * 0.5, size[1] * 0.5)
         # Initialize plot
         fig, ax = matplotlib.pyplot.subplots(ncols=2, **subplots)
-        box = self.tile_box(uv, size=size, img=0)
+        box = self.tile_box(uv, size=size, img=frames[0])
         tile = self.extract_tile(img=frames[0], box=box)
         im = [self.plot_tile(tile=tile, box=box, axes=axes) for axes in ax]
         pt = [axis.plot(uv[0], uv[1], marker=".", color="red")[0] for axis in ax]
@@ -412,7 +412,7 @@ class Observer:
         fig, ax = matplotlib.pyplot.subplots(ncols=2, **subplots)
         track_uv: np.ndarray = self.images[frames[0]].xyz_to_uv(xyz[0:1])
         uv = track_uv[-1]
-        box = self.tile_box(uv, size=size, img=0)
+        box = self.tile_box(uv, size=size, img=frames[0])
         tile = self.extract_tile(img=frames[0], box=box)
         im = [self.plot_tile(tile=tile, box=box, axes=axes, zorder=1) for axes in ax]
         track = ax[1].plot(track_uv[:, 0], track_uv[:, 1], "y.-", alpha=0.5, zorder=2)[
-- 
2.43.0


From 74718ebcaae18b106b80eb42e11261b39eaebd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:45:51 +0000
Subject: [PATCH 99/99] fix: Limits edited in place leave stale coordinates and
 change arrays of the caller

---
 src/glimpse/raster.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/glimpse/raster.py b/src/glimpse/raster.py
index 97630e4..d1f63f7 100644
--- a/src/glimpse/raster.py
+++ b/src/glimpse/raster.py
@@ -73,7 +73,7 @@ class Grid:
 
     @size.setter
     def size(self, value: Iterable[int]) -> None:
-        value = np.atleast_1d(value)
+        value = np.array(value, ndmin=1)
         if value.shape == (1,):
             value = np.concatenate((value, value))
         if value.shape != (2,):
@@ -93,9 +93,9 @@ class Grid:
     @xlim.setter
     def xlim(self, value: Iterable[Number]) -> None:
         value = self._parse_limits(value)
-        if not hasattr(self, "xlim") or not np.array_equal(self.xlim, value):
-            self._xlim = value
-            self._clear_cache(["x", "X"])
+        # NOTE: Limits edited in place (e.g. +=) already equal the new value
+        self._xlim = value
+        self._clear_cache(["x", "X"])
 
     @property
     def ylim(self) -> np.ndarray:
@@ -105,9 +105,9 @@ class Grid:
     @ylim.setter
     def ylim(self, value: Iterable[Number]) -> None:
         value = self._parse_limits(value)
-        if not hasattr(self, "ylim") or not np.array_equal(self.ylim, value):
-            self._ylim = value
-            self._clear_cache(["y", "Y"])
+        # NOTE: Limits edited in place (e.g. +=) already equal the new value
+        self._ylim = value
+        self._clear_cache(["y", "Y"])
 
     # ---- Properties (dependent) ---- #
 
@@ -229,7 +229,8 @@ class Grid:
 
     def _parse_limits(self, value: Iterable[Number]) -> np.ndarray:
         """Check and parse limits."""
-        value = np.atleast_1d(value)
+        # NOTE: Limits are copied since they may be edited in place
+        value = np.array(value, ndmin=1)
         if value.shape != (2,):
             raise ValueError("Grid limits must be (2,)")
         if not np.issubdtype(value.dtype, np.number):
-- 
2.43.0

