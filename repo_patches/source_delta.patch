From eacae8075cbbc26cb09c9372a740e8ae62006165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:16 +0000
Subject: [PATCH 01/33] fix: add equivalent quaternion with consistent sign
 when averaging orientations

The equivalent closest to the running average is chosen by the absolute dot
product but was added with whatever sign it has, so orientations whose scalar
part is close to zero could cancel out.
---
 defdap/quat.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/defdap/quat.py b/defdap/quat.py
index d3a8d00..16c9ecd 100755
--- a/defdap/quat.py
+++ b/defdap/quat.py
@@ -752,13 +752,18 @@ class Quat(object):
             # calculate misorientation between current average and all
             # symmetrical equivalents. Dot product of each symm quat in
             # quatComps with refOri for point i
-            curr_mis_oris[:] = abs(np.einsum(
+            curr_mis_oris[:] = np.einsum(
                 "ij,j->i", quat_comps[:, :, i], av_ori
-            ))
+            )
 
-            # find min misorientation with current average then add to it
-            max_idx = np.argmax(curr_mis_oris[:])
-            av_ori += quat_comps[max_idx, :, i]
+            # find min misorientation with current average then add to it,
+            # q and -q are the same orientation so add the one that is on
+            # the same side as the current average
+            max_idx = np.argmax(abs(curr_mis_oris))
+            if curr_mis_oris[max_idx] < 0:
+                av_ori -= quat_comps[max_idx, :, i]
+            else:
+                av_ori += quat_comps[max_idx, :, i]
 
         # Convert components back to a quat and normalise
         av_ori = Quat(av_ori)
-- 
2.43.0


From 320005f7e7577c1d7316f10ae6897c7880010e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:37 +0000
Subject: [PATCH 02/33] fix: boundary image of an empty boundary set has no
 boundaries

Indexing with the empty tuple selected the whole image, so a map without any
x (or y) boundaries had boundaries everywhere.
---
 defdap/ebsd.py  | 3 ++-
 defdap/hrdic.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 56ee7ee..adfe708 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1604,7 +1604,8 @@ class BoundarySet(object):
 
     def _image(self, points):
         image = np.zeros(self.ebsd_map.shape, dtype=bool)
-        image[tuple(zip(*points))[::-1]] = True
+        if len(points) > 0:
+            image[tuple(zip(*points))[::-1]] = True
         return image
 
     @property
diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index edf939c..fb1c036 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -897,7 +897,8 @@ class BoundarySet(object):
 
     def _image(self, points):
         image = np.zeros(self.dic_map.shape, dtype=bool)
-        image[tuple(zip(*points))[::-1]] = True
+        if len(points) > 0:
+            image[tuple(zip(*points))[::-1]] = True
         return image
 
     @property
-- 
2.43.0


From f96fe5e5a115126811454f96534d35c36d97f882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:39 +0000
Subject: [PATCH 03/33] fix: flood fill stays inside maps that are one pixel
 wide or high

Only one of the two moves out of the map was removed along an axis of length 1,
so the fill read and wrote outside the arrays.
---
 defdap/_accelerated.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/defdap/_accelerated.py b/defdap/_accelerated.py
index dd90896..69ecc32 100644
--- a/defdap/_accelerated.py
+++ b/defdap/_accelerated.py
@@ -56,14 +56,14 @@ def flood_fill(seed, index, points_remaining, grains, boundary_x, boundary_y,
         x, y = edge.pop()
         moves = [(x+1, y), (x-1, y), (x, y+1), (x, y-1)]
         # get rid of any that go out of the map area
+        if y <= 0:
+            moves.pop(3)
+        if y > grains.shape[0] - 2:
+            moves.pop(2)
         if x <= 0:
             moves.pop(1)
-        elif x > grains.shape[1] - 2:
+        if x > grains.shape[1] - 2:
             moves.pop(0)
-        if y <= 0:
-            moves.pop(-1)
-        elif y > grains.shape[0] - 2:
-            moves.pop(-2)
 
         for (s, t) in moves:
             if grains[t, s] > 0:
@@ -135,14 +135,14 @@ def flood_fill_dic(seed, index, points_remaining, grains, added_coords):
 
         moves = [(x+1, y), (x-1, y), (x, y+1), (x, y-1)]
         # get rid of any that go out of the map area
+        if y <= 0:
+            moves.pop(3)
+        if y >= grains.shape[0] - 1:
+            moves.pop(2)
         if x <= 0:
             moves.pop(1)
-        elif x >= grains.shape[1] - 1:
+        if x >= grains.shape[1] - 1:
             moves.pop(0)
-        if y <= 0:
-            moves.pop(-1)
-        elif y >= grains.shape[0] - 1:
-            moves.pop(-2)
 
         for (s, t) in moves:
             add_point = False
-- 
2.43.0


From 5d87b2b7dd98ff12f308cc5ca0fa368badfed3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:39 +0000
Subject: [PATCH 04/33] fix: find grains in EBSD maps without indexed points or
 large enough grains

---
 defdap/ebsd.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index adfe708..4272a79 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -871,8 +871,8 @@ class Map(base.Map):
         # List of points where no grain has be set yet
         points_left = self.data.phase != 0
         total_points = points_left.sum()
-        found_point = 0
         next_point = points_left.tobytes().find(b'\x01')
+        found_point = next_point
 
         # Start counter for grains
         grain_index = 1
@@ -930,15 +930,16 @@ class Map(base.Map):
             grain.phase = self.phases[phase_id]
 
         ## TODO: this will get duplicated if find grains called again
-        self.data.add_derivative(
-            grain_list[0].data, self.grain_data_to_map, pass_ref=True,
-            in_props={
-                'type': 'list'
-            },
-            out_props={
-                'type': 'map'
-            }
-        )
+        if grain_list:
+            self.data.add_derivative(
+                grain_list[0].data, self.grain_data_to_map, pass_ref=True,
+                in_props={
+                    'type': 'list'
+                },
+                out_props={
+                    'type': 'map'
+                }
+            )
 
         self._grains = grain_list
         return grains
-- 
2.43.0


From c829b0c17fb9bba5889725b54448621b43dce958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:10 +0000
Subject: [PATCH 05/33] fix: keep x and y lattice curvature in separate arrays
 when calculating the Nye tensor

betadery was the same array as betaderx so the gradient in x was overwritten.
---
 defdap/ebsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 4272a79..68644c1 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -510,7 +510,7 @@ class Map(base.Map):
 
         # calculate relative elastic distortion tensors at each point in the two directions
         betaderx = np.zeros((3, 3) + self.shape)
-        betadery = betaderx
+        betadery = np.zeros((3, 3) + self.shape)
         for i in range(self.x_dim - 1):
             for j in range(self.y_dim - 1):
                 q0x = Quat(quat_comps[0, 0, j, i], quat_comps[0, 1, j, i],
-- 
2.43.0


From b541688e3abc89f6a49b9b05439f4495811b672b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:35 +0000
Subject: [PATCH 06/33] fix: rotate all loaded EBSD map data and the
 orientations whether or not already calculated

---
 defdap/ebsd.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 68644c1..8a0d7a5 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -248,17 +248,21 @@ class Map(base.Map):
 
         """
 
-        self.data.euler_angle = self.data.euler_angle[:, ::-1, ::-1]
-        self.data.band_contrast = self.data.band_contrast[::-1, ::-1]
-        self.data.band_slope = self.data.band_slope[::-1, ::-1]
-        self.data.phase = self.data.phase[::-1, ::-1]
-        self.calc_quat_array()
+        # Calculated from the unrotated Euler angles if not done already
+        quats = self.data.orientation[::-1, ::-1]
+
+        # Rotate all loaded map data (anything not made by a generator)
+        generated = [key for keys in self.data._generators for key in keys]
+        for key in self.data._store:
+            if key in generated or self.data.get_metadata(key, 'type') != 'map':
+                continue
+            self.data[key] = self.data[key][..., ::-1, ::-1]
 
         # Rotation from old coord system to new
         transform_quat = Quat.from_axis_angle(np.array([0, 0, 1]), np.pi).conjugate
 
         # Perform vectorised multiplication
-        quats = Quat.multiply_many_quats(self.data.orientation.flatten(), transform_quat)
+        quats = Quat.multiply_many_quats(quats.flatten(), transform_quat)
         self.data.orientation = np.array(quats).reshape(self.shape)
 
         yield 1.
-- 
2.43.0


From 7169c2539cf3036fb7d8454feb724abaa4be5eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 07/33] fix: slip directions lie in the slip planes of the body
 centred cubic slip systems

---
 defdap/slip_systems/cubic_bcc.txt | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/defdap/slip_systems/cubic_bcc.txt b/defdap/slip_systems/cubic_bcc.txt
index a852e6d..c48512d 100644
--- a/defdap/slip_systems/cubic_bcc.txt
+++ b/defdap/slip_systems/cubic_bcc.txt
@@ -26,25 +26,25 @@ green,green,green,green,red,red,red,red,blue,blue,blue,blue
 1	-1	2	-1	1	1
 1	2	3	1	1	-1
 2	1	3	1	1	-1
-3	2	1	1	1	-1
-2	3	1	1	1	-1
+3	-2	1	1	1	-1
+-2	3	1	1	1	-1
 -1	3	2	1	1	-1
 3	-1	2	1	1	-1
 1	3	2	1	-1	1
 2	3	1	1	-1	1
-3	1	2	1	-1	1
-2	1	3	1	-1	1
+3	1	-2	1	-1	1
+-2	1	3	1	-1	1
 -1	2	3	1	-1	1
 3	2	-1	1	-1	1
 3	1	2	-1	1	1
 3	2	1	-1	1	1
-1 	2 	3	-1	1	1
-1	3	2	-1	1	1
+1	-2	3	-1	1	1
+1	3	-2	-1	1	1
 2	-1	3	-1	1	1
 2	3	-1	-1	1	1
-1	2	3	1	1	1
-1	3	2	1	1	1
-3	1	2	1	1	1
-2	1	3	1	1 	1
-2	3	1 	1	1	1
-3	1	2	1	1	1
\ No newline at end of file
+1	2	-3	1	1	1
+1	-3	2	1	1	1
+-3	1	2	1	1	1
+2	1	-3	1	1	1
+2	-3	1	1	1	1
+-3	2	1	1	1	1
\ No newline at end of file
-- 
2.43.0


From ab730f5464c61dbccbc1dcf8eb9425924d1b4b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 08/33] fix: proxigram distances are not capped and the
 proxigram attribute works

Distances larger than 1000 pixels were replaced by 1000, and the map attribute
called the calculation with an argument it does not have.
---
 defdap/base.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/defdap/base.py b/defdap/base.py
index f4f2401..7e444a2 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -389,9 +389,7 @@ class Map(ABC):
             Distance from a grain boundary at each point in map.
 
         """
-        self.calc_proxigram(force_calc=False)
-
-        return self.proxigram_arr
+        return self.data.proxigram
 
     @report_progress("calculating proxigram")
     def calc_proxigram(self, num_trials=500):
@@ -416,7 +414,7 @@ class Map(ABC):
 
         # array to store trial distance from each boundary point
         trial_distances = np.full((num_trials + 1,) + self.shape,
-                                  1000, dtype=float)
+                                  np.inf, dtype=float)
 
         # loop over each boundary point (p) and calculate distance from
         # p to all points in the map store minimum once numTrails have
-- 
2.43.0


From df65e5031d317d768000f3a587ca0d47f0bf3584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:51 +0000
Subject: [PATCH 09/33] fix: grain outline and grain value maps keep the given
 background

The outline was created as whole numbers so its default background (nan) became
a large negative number, and whole number grain values cut a fractional or
missing background value to a whole number.
---
 defdap/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/defdap/base.py b/defdap/base.py
index 7e444a2..2260d13 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -661,7 +661,9 @@ class Map(ABC):
             raise ValueError("The grain data supplied must be either a"
                              "single value or RGB values per grain.")
 
-        grain_map = np.full(mapShape, bg, dtype=grain_data.dtype)
+        grain_map = np.full(
+            mapShape, bg, dtype=np.result_type(grain_data, bg)
+        )
         for grainId, grain_value in zip(grain_ids, grain_data):
             for point in self[grainId].data.point:
                 grain_map[point[1], point[0]] = grain_value
@@ -871,7 +873,7 @@ class Grain(ABC):
         x0, y0, xmax, ymax = self.extreme_coords
 
         # initialise array with nans so area not in grain displays white
-        outline = np.full((ymax - y0 + 1, xmax - x0 + 1), bg, dtype=int)
+        outline = np.full((ymax - y0 + 1, xmax - x0 + 1), bg)
 
         for coord in self.data.point:
             outline[coord[1] - y0, coord[0] - x0] = fg
-- 
2.43.0


From c3aedf74c6432e121f78e75aea7717643458b3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 10/33] fix: Miller indices beyond the 8 bit integer range do
 not wrap around

Casting to int8 silently wrapped indices of 128 and above when converting or
reducing them.
---
 defdap/crystal_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/defdap/crystal_utils.py b/defdap/crystal_utils.py
index 18018b5..c287bad 100644
--- a/defdap/crystal_utils.py
+++ b/defdap/crystal_utils.py
@@ -335,7 +335,7 @@ def reduce_idc(vec):
         The reduced indices.
 
     """
-    return tuple((np.array(vec) / np.gcd.reduce(vec)).astype(np.int8))
+    return tuple((np.array(vec) / np.gcd.reduce(vec)).astype(int))
 
 
 def safe_int_cast(vec, tol=1e-3):
@@ -366,7 +366,7 @@ def safe_int_cast(vec, tol=1e-3):
     if np.any(np.abs(vec - vec_rounded) > tol):
         raise ValueError('Rounding too large', np.abs(vec - vec_rounded))
 
-    return tuple(vec_rounded.astype(np.int8))
+    return tuple(vec_rounded.astype(int))
 
 
 def idc_to_string(idc, brackets=None, str_type='unicode'):
-- 
2.43.0


From 92c9ca2ee1c1c5384fa9a62b52f3c5a3ec8ad4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:05 +0000
Subject: [PATCH 11/33] fix: cubic directions along the pole are in the
 fundamental triangle of the inverse pole figure

---
 defdap/quat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/defdap/quat.py b/defdap/quat.py
index 16c9ecd..2cfb15d 100755
--- a/defdap/quat.py
+++ b/defdap/quat.py
@@ -1073,6 +1073,8 @@ class Quat(object):
                 beta >= beta_range[0] - delta_beta,
                 beta <= beta_range[1] + delta_beta
             )
+        # azimuth is undefined along the pole, which is a corner of the triangle
+        trial_poles = np.logical_or(trial_poles, alpha == 0)
 
         if sym_group == "cubic":
             # now of symmetric equivalents left we want the one with
-- 
2.43.0


From aa56099f6ee41d6934d90510a5b221dddbb3cb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:03 +0000
Subject: [PATCH 12/33] fix: look through all derivatives for derived data

---
 defdap/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/defdap/utils.py b/defdap/utils.py
index 4e4bf6e..5c600f4 100644
--- a/defdap/utils.py
+++ b/defdap/utils.py
@@ -265,8 +265,8 @@ class Datastore(object):
         for derivative in self._derivatives:
             if key in self.lookup_derivative_keys(derivative):
                 break
-            else:
-                raise KeyError(f'Data with name `{key}` does not exist.')
+        else:
+            raise KeyError(f'Data with name `{key}` does not exist.')
         source = derivative['source']
 
         ## TODO: fix derived metadata
-- 
2.43.0


From 8e973e086398d349bb1f5b5b873a16e828da0175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:03 +0000
Subject: [PATCH 13/33] fix: always end the search for derived data so later
 ones find all data

---
 defdap/utils.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/defdap/utils.py b/defdap/utils.py
index 5c600f4..53eee07 100644
--- a/defdap/utils.py
+++ b/defdap/utils.py
@@ -247,17 +247,18 @@ class Datastore(object):
 
         source = derivative['source']
         matched_keys = []
-        if source._group_id in Datastore._been_to:
-            return matched_keys
-        for key in source:
-            for meta_key in derivative['in_props']:
-                if source.get_metadata(key, meta_key) != derivative['in_props'][meta_key]:
-                    break
-            else:
-                matched_keys.append(key)
-
-        if root_call:
-            Datastore._been_to = None
+        try:
+            if source._group_id in Datastore._been_to:
+                return matched_keys
+            for key in source:
+                for meta_key in derivative['in_props']:
+                    if source.get_metadata(key, meta_key) != derivative['in_props'][meta_key]:
+                        break
+                else:
+                    matched_keys.append(key)
+        finally:
+            if root_call:
+                Datastore._been_to = None
 
         return matched_keys
 
-- 
2.43.0


From 665041892b0477c63ede238438ab3a5cdf6dbf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:03 +0000
Subject: [PATCH 14/33] fix: updating a datastore and adding generators leave
 the given data and metadata unchanged

---
 defdap/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/defdap/utils.py b/defdap/utils.py
index 53eee07..2cc45d0 100644
--- a/defdap/utils.py
+++ b/defdap/utils.py
@@ -340,7 +340,7 @@ class Datastore(object):
             if metadatas is None:
                 metadata = {}
             else:
-                metadata = metadatas[i]
+                metadata = dict(metadatas[i])
             metadata.update(kwargs)
             self.add(key, None, **metadata)
         self._generators[keys] = func
@@ -417,11 +417,12 @@ class Datastore(object):
             in both. Default is to prioritise `other`.
 
         """
+        items = {key: dict(item) for key, item in other._store.items()}
         if priority == 'self':
-            other._store.update(self._store)
-            self._store = other._store
+            items.update(self._store)
+            self._store = items
         else:
-            self._store.update(other._store)
+            self._store.update(items)
 
     def get_metadata(self, key, attr, value=None):
         """Get metadata value with a default returned if it does not
-- 
2.43.0


From f6daf431a2a128656eb8ec3d51fb5485aabe2e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:55 +0000
Subject: [PATCH 15/33] fix: border around warped images uses width and height
 the right way round

---
 defdap/experiment.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/defdap/experiment.py b/defdap/experiment.py
index 5642aa0..06d86ca 100644
--- a/defdap/experiment.py
+++ b/defdap/experiment.py
@@ -100,8 +100,8 @@ class Experiment(object):
             # 5% border to show the entire image after rotation/shearing
             input_shape = np.array(map_data.shape)
             transform = tf.AffineTransform(matrix=np.copy(transform.params))
-            transform.params[0:2, 2] = -0.05 * input_shape
-            output_shape = input_shape * 1.4 / transform.scale
+            transform.params[0:2, 2] = -0.05 * input_shape[::-1]
+            output_shape = input_shape * 1.4 / transform.scale[::-1]
             kwargs['output_shape'] = output_shape.astype(int)
 
         return tf.warp(map_data, transform, **kwargs)
@@ -144,7 +144,7 @@ class Experiment(object):
             # the crop is defined in EBSD coords so need to transform it
             crop = np.matmul(
                 np.linalg.inv(transform.params[0:2, 0:2]),
-                transform.params[0:2, 2] + 0.05*input_shape
+                transform.params[0:2, 2] + 0.05*input_shape[::-1]
             )
             crop = crop.round().astype(int)
             points_img = points_img[crop[1]:crop[1] + kwargs['output_shape'][0],
-- 
2.43.0


From cdeb7171c2306a9aa104bdcc8226879307dad8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:16 +0000
Subject: [PATCH 16/33] fix: boundaries are warped to frames that start outside
 of the image

---
 defdap/experiment.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/defdap/experiment.py b/defdap/experiment.py
index 06d86ca..8b6cc13 100644
--- a/defdap/experiment.py
+++ b/defdap/experiment.py
@@ -138,6 +138,8 @@ class Experiment(object):
         mph.remove_small_objects(points_img, min_size=10, connectivity=2,
                                  out=points_img)
 
+        points = np.array(points_img.transpose().nonzero())
+
         # remove 5% border if required
         transform = self.get_frame_transform(frame_2, frame_1)
         if isinstance(transform, tf.AffineTransform):
@@ -146,11 +148,12 @@ class Experiment(object):
                 np.linalg.inv(transform.params[0:2, 0:2]),
                 transform.params[0:2, 2] + 0.05*input_shape[::-1]
             )
-            crop = crop.round().astype(int)
-            points_img = points_img[crop[1]:crop[1] + kwargs['output_shape'][0],
-                                    crop[0]:crop[0] + kwargs['output_shape'][1]]
+            # the crop is negative if frame 2 starts outside the image
+            points = points - crop.round().astype(int)[:, np.newaxis]
+            max_coords = np.array(kwargs['output_shape'])[::-1, np.newaxis]
+            points = points[:, ((points >= 0) & (points < max_coords)).all(axis=0)]
 
-        return zip(*points_img.transpose().nonzero())
+        return zip(*points)
 
 
 class Increment(object):
-- 
2.43.0


From 2a1897f1eef43c93eccda7d67495d0f05d3d4395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:22 +0000
Subject: [PATCH 17/33] fix: find grains in DIC maps without large enough
 grains

---
 defdap/hrdic.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index fb1c036..c73c37c 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -628,8 +628,8 @@ class Map(base.Map):
             points_left = grains == 0
             coords_buffer = np.zeros((points_left.size, 2), dtype=np.intp)
             total_points = points_left.sum()
-            found_point = 0
             next_point = points_left.tobytes().find(b'\x01')
+            found_point = next_point
 
             # Start counter for grains
             grain_index = 1
@@ -689,15 +689,16 @@ class Map(base.Map):
             raise ValueError(f"Unknown grain finding algorithm '{algorithm}'.")
 
         ## TODO: this will get duplicated if find grains called again
-        self.data.add_derivative(
-            grain_list[0].data, self.grain_data_to_map, pass_ref=True,
-            in_props={
-                'type': 'list'
-            },
-            out_props={
-                'type': 'map'
-            }
-        )
+        if grain_list:
+            self.data.add_derivative(
+                grain_list[0].data, self.grain_data_to_map, pass_ref=True,
+                in_props={
+                    'type': 'list'
+                },
+                out_props={
+                    'type': 'map'
+                }
+            )
 
         self._grains = grain_list
         return grains
-- 
2.43.0


From c1623b523e2b9e31cef7d4c914ca67a96731b076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:22 +0000
Subject: [PATCH 18/33] fix: DIC grains are not linked to EBSD grains by the
 labels of unassigned points

---
 defdap/hrdic.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index c73c37c..d2f88e9 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -677,12 +677,15 @@ class Map(base.Map):
             for i, grain in enumerate(grain_list):
                 # Find grain by masking the native ebsd grain image with
                 # selected grain from the warped dic grain image. The modal
-                # value is the EBSD grain label.
-                mode_id, _ = mode(
-                    self.ebsd_map.data.grains[warped_dic_grains == i+1],
-                    keepdims=False
-                )
-                grain.ebsd_grain = self.ebsd_map[mode_id - 1]
+                # value is the EBSD grain label. Values <= 0 are not in a
+                # grain. Left unlinked if no EBSD grain is found.
+                ebsd_labels = self.ebsd_map.data.grains[
+                    warped_dic_grains == i+1
+                ]
+                ebsd_labels = ebsd_labels[ebsd_labels > 0]
+                if len(ebsd_labels) > 0:
+                    mode_id, _ = mode(ebsd_labels, keepdims=False)
+                    grain.ebsd_grain = self.ebsd_map[mode_id - 1]
                 grain.ebsd_map = self.ebsd_map
 
         else:
-- 
2.43.0


From bb0dda8e0daa22e108f71423e4214147288e3693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:18 +0000
Subject: [PATCH 19/33] fix: accept the documented name of the piecewise affine
 transform when linking maps

---
 defdap/experiment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/defdap/experiment.py b/defdap/experiment.py
index 8b6cc13..97480e3 100644
--- a/defdap/experiment.py
+++ b/defdap/experiment.py
@@ -44,6 +44,7 @@ class Experiment(object):
     def get_frame_transform(self, frame_1, frame_2):
         transform_lookup = {
             'piecewise_affine': tf.PiecewiseAffineTransform,
+            'piecewiseaffine': tf.PiecewiseAffineTransform,
             'projective': tf.ProjectiveTransform,
             'polynomial': tf.PolynomialTransform,
             'affine': tf.AffineTransform,
-- 
2.43.0


From 48226a08fc75afffa0f5cfeb819ad91e75870949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:48 +0000
Subject: [PATCH 20/33] fix: boundaries of a DIC map come from the EBSD map
 linked last

---
 defdap/hrdic.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index d2f88e9..7089aad 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -394,15 +394,15 @@ class Map(base.Map):
         kwargs.update({'type': transform_type.lower()})
         self.experiment.link_frames(self.frame, ebsd_map.frame, kwargs)
         self.data.add_derivative(
-            self.ebsd_map.data,
-            lambda boundaries: BoundarySet.from_ebsd_boundaries(
-                self, boundaries
-            ),
+            self.ebsd_map.data, self._from_ebsd_boundaries,
             in_props={
                 'type': 'boundaries'
             }
         )
 
+    def _from_ebsd_boundaries(self, boundaries):
+        return BoundarySet.from_ebsd_boundaries(self, boundaries)
+
     def check_ebsd_linked(self):
         """Check if an EBSD map has been linked.
 
-- 
2.43.0


From 96276a1fbe2fd61c1ea776608682ace26850ca0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:16 +0000
Subject: [PATCH 21/33] fix: EDAX .ang files can be read again

---
 defdap/file_readers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/file_readers.py b/defdap/file_readers.py
index 74eb1bc..7bb68a4 100644
--- a/defdap/file_readers.py
+++ b/defdap/file_readers.py
@@ -301,7 +301,7 @@ class EdaxAngLoader(EBSDDataLoader):
             # ('SE_signal', 'float32'),
             ('FF', 'float32'),
         ])
-        load_cols = (0, 1, 2, 5, 6, 7, 8, 9)
+        load_cols = (0, 1, 2, 5, 6, 7, 9)
 
         # now read the data from file
         data = np.loadtxt(
-- 
2.43.0


From 5328a640b45bca7f4c92bb0b7925f06f5e2ec1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:16 +0000
Subject: [PATCH 22/33] fix: keep the fields after an unknown field when
 reading .cpr files

---
 defdap/file_readers.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/defdap/file_readers.py b/defdap/file_readers.py
index 7bb68a4..d0610e6 100644
--- a/defdap/file_readers.py
+++ b/defdap/file_readers.py
@@ -492,15 +492,17 @@ class OxfordBinaryLoader(EBSDDataLoader):
             12: ('IB6', 'float32')  # ?
         }
         field_lookup.update(edx_fields)
-        try:
-            for i in range(int(metadata['Fields']['Count'])):
-                field_id = int(metadata['Fields']['Field{:}'.format(i + 1)])
+        for i in range(int(metadata['Fields']['Count'])):
+            field_id = int(metadata['Fields']['Field{:}'.format(i + 1)])
+            try:
                 data_format.append(field_lookup[field_id])
-        except KeyError:
-            print(f'\nUnknown field in file with key {field_id}. '
-                  f'Assuming float32 data.')
-            unknown_field_count += 1
-            data_format.append((f'unknown_{unknown_field_count}', 'float32'))
+            except KeyError:
+                print(f'\nUnknown field in file with key {field_id}. '
+                      f'Assuming float32 data.')
+                unknown_field_count += 1
+                data_format.append(
+                    (f'unknown_{unknown_field_count}', 'float32')
+                )
 
         self.data_format = np.dtype(data_format)
 
-- 
2.43.0


From 8602ba1db5c34119a641945c6dce464e50574a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:16 +0000
Subject: [PATCH 23/33] fix: only flip OpenPIV data if y is descending

---
 defdap/file_readers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/defdap/file_readers.py b/defdap/file_readers.py
index d0610e6..283c487 100644
--- a/defdap/file_readers.py
+++ b/defdap/file_readers.py
@@ -790,9 +790,11 @@ class OpenPivTextLoader(DICDataLoader):
 
         self.checkMetadata()
         
+        data = data.reshape(shape + (-1,))
         # if y descending, flip
-        if np.all(np.diff(data[:, col['y']].reshape(shape)[:,0])) > 0:
-            data = data.reshape(shape + (-1,))[::-1].transpose((2, 0, 1))
+        if np.all(np.diff(data[:, 0, col['y']]) < 0):
+            data = data[::-1]
+        data = data.transpose((2, 0, 1))
 
         self.loaded_data.coordinate = data[[col['x'], col['y']]]
         self.loaded_data.displacement = data[[col['u'], col['v']]]
@@ -825,7 +827,7 @@ class OpenPivBinaryLoader(DICDataLoader):
         self.checkMetadata()
         
         # if y descending, flip
-        if np.all(np.diff(data['y'][:,0])) > 0:
+        if np.all(np.diff(data['y'][:,0]) < 0):
             self.loaded_data.coordinate = np.array([data['x'][::-1], data['y'][::-1]])
             self.loaded_data.displacement = np.array([data['u'][::-1], data['v'][::-1]])
         else:
-- 
2.43.0


From 100099b0f880291902b1e86898a924aa7b8f1e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:16 +0000
Subject: [PATCH 24/33] fix: EBSD maps can be created from a python dictionary

---
 defdap/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/defdap/base.py b/defdap/base.py
index 2260d13..de0ce17 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -83,7 +83,10 @@ class Map(ABC):
         self.grain_plot = None
         self.profile_plot = None
 
-        self.file_name = Path(file_name)
+        # data can also be given as a dictionary rather than a file
+        if not isinstance(file_name, dict):
+            file_name = Path(file_name)
+        self.file_name = file_name
         self.load_data(self.file_name, data_type=data_type)
 
         self.data.add_generator(
-- 
2.43.0


From a681ed4ad49c4812c23be005697524fe44e0ecb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:16 +0000
Subject: [PATCH 25/33] fix: write the space group of phases to .ctf files

---
 defdap/file_writers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/defdap/file_writers.py b/defdap/file_writers.py
index d7c85a6..585bd46 100644
--- a/defdap/file_writers.py
+++ b/defdap/file_writers.py
@@ -107,7 +107,8 @@ class OxfordTextWriter(EBSDDataWriter):
                 angles = "{:.3f};{:.3f};{:.3f}".format(*angles)
 
                 ctf_file.write(f"{dims}\t{angles}\t{phase.name}"
-                               f"\t{phase.laue_group}\t0\t\t\t\n")
+                               f"\t{phase.laue_group}"
+                               f"\t{phase.spaceGroup or 0}\t\t\t\n")
 
             ctf_file.write("Phase\tX\tY\tBands\tError\tEuler1\tEuler2"
                            "\tEuler3\tMAD\tBC\tBS\n")
-- 
2.43.0


From 2d1f5fd1688d9c1aa040e331a83d7c4798987dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:44 +0000
Subject: [PATCH 26/33] fix: group numbers of an earlier grouping do not affect
 slip line groups

---
 defdap/inspector.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index 8a77a39..73d9790 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -186,6 +186,10 @@ class GrainInspector:
         if grain.points_list == []:
             grain.groups_list = []
         else:
+            # Clear groups from any previous grouping
+            for line in grain.points_list:
+                line[2] = -1
+
             for i, line in enumerate(grain.points_list):
                 angle = line[1]
                 if i == 0:
-- 
2.43.0


From 1428bc29e90e3b9d7b6ae8299437d661d3374683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:44 +0000
Subject: [PATCH 27/33] fix: keep corrected slip line angles between 0 and 180
 degrees

---
 defdap/inspector.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index 73d9790..0301af2 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -147,12 +147,8 @@ class GrainInspector:
         # Get angle of lines
         line_angle = 90 - np.rad2deg(np.arctan2(self.grain_plot.p2[1] - self.grain_plot.p1[1],
                                                 self.grain_plot.p2[0] - self.grain_plot.p1[0]))
-        if line_angle > 180:
-            line_angle -= 180
-        elif line_angle < 0:
-            line_angle += 180
-
-        line_angle -= self.correction_angle
+        # Lines have no direction so keep angle between 0 and 180
+        line_angle = (line_angle - self.correction_angle) % 180
 
         # Two decimal places
         points = [float("{:.2f}".format(point)) for point in self.grain_plot.p1 + self.grain_plot.p2]
-- 
2.43.0


From a268b6f176d82a2a2a6aa09b231140ceb6f35a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:44 +0000
Subject: [PATCH 28/33] fix: match slip lines and slip traces either side of
 the vertical

---
 defdap/inspector.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index 0301af2..971c2d3 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -212,9 +212,11 @@ class GrainInspector:
                 deviation = []
                 experimental_angle = group[1]
                 for idx, theoretical_angle in enumerate(np.rad2deg(grain.ebsd_grain.slip_trace_angles)):
-                    if theoretical_angle - 5 < experimental_angle < theoretical_angle + 5:
+                    # Lines have no direction so deviation is between -90 and 90
+                    difference = (experimental_angle - theoretical_angle + 90) % 180 - 90
+                    if abs(difference) < 5:
                         active_planes.append(idx)
-                        deviation.append(float('{0:.2f}'.format(experimental_angle - theoretical_angle)))
+                        deviation.append(float('{0:.2f}'.format(difference)))
                 group[2] = active_planes
                 group[3] = deviation
 
-- 
2.43.0


From 70a584ec162f945c461a181d06c0aeeac1617271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:44 +0000
Subject: [PATCH 29/33] fix: saved slip lines with several lines in a group can
 be loaded

---
 defdap/inspector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index 971c2d3..26c36b4 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -195,7 +195,7 @@ class GrainInspector:
                 else:  # If there is more that one angle
                     if np.any(np.abs(np.array([x[1] for x in grain.groups_list]) - angle) < 10):
                         # If within +- 5 degrees of existing group, set that as the group
-                        group = np.argmin(np.abs(np.array([x[1] for x in grain.groups_list]) - angle))
+                        group = int(np.argmin(np.abs(np.array([x[1] for x in grain.groups_list]) - angle)))
                         grain.points_list[i][2] = group
                         new_average = float('{0:.2f}'.format(
                             np.average([x[1] for x in grain.points_list if x[2] == group])))
-- 
2.43.0


From 85201a993454d8f71e1c8a4e5a6a8d87b7b8d0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:44 +0000
Subject: [PATCH 30/33] fix: saved slip line groups with a calculated RDR can
 be loaded

---
 defdap/inspector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index 26c36b4..7526854 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -432,7 +432,7 @@ class GrainInspector:
         lin_reg_result = linregress(x=np.array(v_list).flatten(), y=np.array(u_list).flatten())
 
         # Save measured RDR
-        grain.groups_list[group][4] = lin_reg_result.slope
+        grain.groups_list[group][4] = float(lin_reg_result.slope)
 
         if show_plot:
             self.plot_rdr(grain, group, u_list, v_list, x_list, y_list, lin_reg_result)
-- 
2.43.0


From 4e84bcc6c53d263080ecc21cc39a8c48e8c2cdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:44 +0000
Subject: [PATCH 31/33] fix: RDR is sampled at the position of the given grain

---
 defdap/inspector.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index 7526854..a32c083 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -414,11 +414,11 @@ class GrainInspector:
             x, y = skimage_line(int(x0), int(y0), int(x1), int(y1))
 
             # Get x and y coordinates for points to be samples for RDR
-            xmap = np.array(x).T[:, None] + coordinateOffsets[:,0] + self.selected_dic_grain.extreme_coords[0]
-            ymap = np.array(y).T[:, None] + coordinateOffsets[:,1] + self.selected_dic_grain.extreme_coords[1]
+            xmap = np.array(x).T[:, None] + coordinateOffsets[:,0] + grain.extreme_coords[0]
+            ymap = np.array(y).T[:, None] + coordinateOffsets[:,1] + grain.extreme_coords[1]
 
-            x_list.extend(xmap - self.selected_dic_grain.extreme_coords[0])
-            y_list.extend(ymap - self.selected_dic_grain.extreme_coords[1])
+            x_list.extend(xmap - grain.extreme_coords[0])
+            y_list.extend(ymap - grain.extreme_coords[1])
 
             # Get u and v values at each coordinate
             u = self.selected_dic_map.data.displacement[0][ymap, xmap]
-- 
2.43.0


From 6aa7ea8a1e06223daf158a0b2c9816bf435ce468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:44 +0000
Subject: [PATCH 32/33] fix: report the Euler angles of each grain in the slip
 trace analysis

---
 defdap/inspector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index a32c083..fe6580b 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -366,7 +366,7 @@ class GrainInspector:
             if grain.points_list != []:
                 for group in grain.groups_list:
                     maxSF = np.max([item for sublist in grain.ebsd_grain.average_schmid_factors for item in sublist])
-                    eulers = self.selected_ebsd_grain.ref_ori.euler_angles() * 180 / np.pi
+                    eulers = grain.ebsd_grain.ref_ori.euler_angles() * 180 / np.pi
                     text = '{0}\t{1:.1f}\t{2:.1f}\t{3:.1f}\t{4:.3f}\t'.format(
                         idx, eulers[0], eulers[1], eulers[2], maxSF)
                     text += '{0}\t{1:.1f}\t{2}\t{3}\t{4:.2f}'.format(
-- 
2.43.0


From 9dd3f789e6d242120a10a7f6dec7311d469edb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:44 +0000
Subject: [PATCH 33/33] fix: calculate the average orientation when needed for
 RDR values

---
 defdap/ebsd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 8a0d7a5..be6e7be 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1480,6 +1480,9 @@ class Grain(base.Grain):
 
     def calc_rdr(self):
         """Calculate Relative Displacement Ratio values."""
+        if self.ref_ori is None:
+            self.calc_average_ori()
+
         self.rdr = []
 
         # Loop over groups of slip systems with same slip plane
-- 
2.43.0

