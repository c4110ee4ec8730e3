From 5b971e84bc5062a52eff38f00844dc3543713cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:34 +0000
Subject: [PATCH 001/108] fix: pixels of a contour crossing regional grid
 borders or on another 360 degrees branch

---
 src/py_eddy_tracker/generic.py |  7 +++++-
 src/py_eddy_tracker/poly.py    | 40 ++++++++++++++--------------------
 2 files changed, 22 insertions(+), 25 deletions(-)

diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index 612def6..0ba0438 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -594,9 +594,14 @@ def bbox_indice_regular(vertices, x0, y0, xstep, ystep, N, circular, x_size):
     i_x1, i_y1 = nearest_grd_indice(lon_max, lat_max, x0, y0, xstep, ystep)
     if circular:
         slice_x = (i_x0 - N) % x_size, (i_x1 + N + 1) % x_size
+    elif i_x0 > i_x1:
+        # Indices are computed modulo 360 degrees: bounding box goes through
+        # the west bound of the grid
+        slice_x = 0, x_size
     else:
         slice_x = max(i_x0 - N, 0), i_x1 + N + 1
-    slice_y = i_y0 - N, i_y1 + N + 1
+    # A negative index must not be used like an index from the end
+    slice_y = max(i_y0 - N, 0), max(i_y1 + N + 1, 0)
     return slice_x, slice_y
 
 
diff --git a/src/py_eddy_tracker/poly.py b/src/py_eddy_tracker/poly.py
index b584961..6964a1d 100644
--- a/src/py_eddy_tracker/poly.py
+++ b/src/py_eddy_tracker/poly.py
@@ -717,31 +717,23 @@ def get_pixel_in_regular(vertices, x_c, y_c, x_start, x_stop, y_start, y_stop):
     :param int y_stop: north index of contour
     """
     if x_stop < x_start:
-        x_ref = vertices[0, 0]
-        x_array = (
-            (concatenate((x_c[x_start:], x_c[:x_stop])) - x_ref + 180) % 360
-            + x_ref
-            - 180
-        )
-        return winding_number_grid_in_poly(
-            x_array,
-            y_c[y_start:y_stop],
-            x_start,
-            x_stop,
-            x_c.shape[0],
-            y_start,
-            vertices,
-        )
+        x_array = concatenate((x_c[x_start:], x_c[:x_stop]))
     else:
-        return winding_number_grid_in_poly(
-            x_c[x_start:x_stop],
-            y_c[y_start:y_stop],
-            x_start,
-            x_stop,
-            x_c.shape[0],
-            y_start,
-            vertices,
-        )
+        x_array = x_c[x_start:x_stop].copy()
+    # Grid and contour could be stored on different 360 degrees branches
+    x_ref = vertices[0, 0]
+    for i in range(x_array.size):
+        if abs(x_array[i] - x_ref) > 180:
+            x_array[i] = (x_array[i] - x_ref + 180) % 360 + x_ref - 180
+    return winding_number_grid_in_poly(
+        x_array,
+        y_c[y_start:y_stop],
+        x_start,
+        x_stop,
+        x_c.shape[0],
+        y_start,
+        vertices,
+    )
 
 
 @njit(cache=True)
-- 
2.43.0


From 596b0af39cef7e609d7767fd60029eaed8769954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:34 +0000
Subject: [PATCH 002/108] fix: allow to test an empty set of points against
 contours

---
 src/py_eddy_tracker/poly.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/poly.py b/src/py_eddy_tracker/poly.py
index 6964a1d..3f7a087 100644
--- a/src/py_eddy_tracker/poly.py
+++ b/src/py_eddy_tracker/poly.py
@@ -904,10 +904,13 @@ def poly_indexs(x_p, y_p, x_c, y_c):
     """
     nb_x = 360
     step = 1.0
-    i, i_order = group_obs(x_p, y_p, step, nb_x)
     nb_p = x_p.shape[0]
     nb_c = x_c.shape[0]
     indexs = -ones(nb_p, dtype=numba_types.int32)
+    # No point to test
+    if nb_p == 0:
+        return indexs
+    i, i_order = group_obs(x_p, y_p, step, nb_x)
     # Adress table to get test bloc
     start_index, end_index, i_first = build_index(i[i_order])
     nb_bloc = end_index.size
-- 
2.43.0


From 0bce642a19ceed6a0c4f9768fe004612dff83f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:34 +0000
Subject: [PATCH 003/108] fix: pixel window must stay in the curvilinear grid

---
 src/py_eddy_tracker/dataset/grid.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index edb96ba..0b9d69c 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -1110,8 +1110,14 @@ class UnRegularGridDataset(GridDataset):
         i_y = idx % self.x_c.shape[1]
         i_x = int_((idx - i_y) / self.x_c.shape[1])
         return (
-            (max(i_x.min() - self.N, 0), i_x.max() + self.N + 1),
-            (max(i_y.min() - self.N, 0), i_y.max() + self.N + 1),
+            (
+                max(i_x.min() - self.N, 0),
+                min(i_x.max() + self.N + 1, self.x_c.shape[0]),
+            ),
+            (
+                max(i_y.min() - self.N, 0),
+                min(i_y.max() + self.N + 1, self.x_c.shape[1]),
+            ),
         )
 
     def get_pixels_in(self, contour):
-- 
2.43.0


From efa5b2e26d71caa2dd40ff2220573f1b6981f200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:34 +0000
Subject: [PATCH 004/108] fix: box of a point which is just at the west of
 meridian

---
 src/py_eddy_tracker/poly.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/poly.py b/src/py_eddy_tracker/poly.py
index 3f7a087..9bd5a70 100644
--- a/src/py_eddy_tracker/poly.py
+++ b/src/py_eddy_tracker/poly.py
@@ -883,7 +883,10 @@ def group_obs(x, y, step, nb_x):
 @njit(cache=True)
 def box_index(x, y, step, nb_x):
     """Return k_box index for each value"""
-    return numba_types.uint32((x % 360) // step + nb_x * ((y + 90) // step))
+    # Modulo could return 360 for a tiny negative value
+    return numba_types.uint32(
+        ((x % 360) // step) % nb_x + nb_x * ((y + 90) // step)
+    )
 
 
 @njit(cache=True)
-- 
2.43.0


From 44b1cd1ddc28999df1d27489213552b5089c2fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:47 +0000
Subject: [PATCH 005/108] fix: interpolate on contours a grid loaded from a
 file without masked value

---
 src/py_eddy_tracker/observations/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index b39f7f8..e82002e 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2394,7 +2394,7 @@ class EddiesObservations(object):
                 grid_object.x_c,
                 grid_object.y_c,
                 -grid.data if min_method else grid.data,
-                grid.mask,
+                grid_object.get_mask(grid),
                 x,
                 y,
                 result,
-- 
2.43.0


From 363cb846eda3b6cd0e42f7c1fec90ddb9dd798c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:47 +0000
Subject: [PATCH 006/108] fix: masked pixels must not be used in min or max on
 contours

---
 src/py_eddy_tracker/observations/observation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index e82002e..677ff38 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2606,11 +2606,13 @@ def grid_stat(x_c, y_c, grid, mask, x, y, result, circular=False, method="mean")
             else:
                 result[elt] = v_sum / nb_
         elif max_method:
-            v_max = -1e40
+            v_max = nan
             for i_, j_ in zip(i, j):
+                if mask[i_, j_]:
+                    continue
                 values = grid[i_, j_]
-                # FIXME must use mask
-                v_max = max(v_max, values)
+                if isnan(v_max) or values > v_max:
+                    v_max = values
             result[elt] = v_max
 
 
-- 
2.43.0


From d507ae2e893066887e67ad27d014ec538ec892e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:19 +0000
Subject: [PATCH 007/108] fix: time interpolation of masked grids

---
 src/py_eddy_tracker/dataset/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 0b9d69c..9bcbf27 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2415,8 +2415,8 @@ class GridCollection:
         g0, g1 = h0.grid(grid_name), h1.grid(grid_name)
         m0, m1 = h0.get_mask(g0), h0.get_mask(g1)
         kw = dict(x=lons, y=lats, nearest=method == "nearest")
-        v0 = interp2d_geo(h0.x_c, h0.y_c, g0, m0, **kw)
-        v1 = interp2d_geo(h1.x_c, h1.y_c, g1, m1, **kw)
+        v0 = interp2d_geo(h0.x_c, h0.y_c, g0.data, m0, **kw)
+        v1 = interp2d_geo(h1.x_c, h1.y_c, g1.data, m1, **kw)
         w = (t - t0) / (t1 - t0)
         return v1 * w + v0 * (1 - w)
 
-- 
2.43.0


From 24d897ee5a8017e5996e4ac0223a69c21a520f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:26 +0000
Subject: [PATCH 008/108] fix: stencil must not use values out of the grid or
 masked neighbours

---
 src/py_eddy_tracker/dataset/grid.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 9bcbf27..e9e6daf 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2956,7 +2956,8 @@ def compute_stencil(x, y, h, m, earth_radius, vertical=False, stencil_halfwidth=
             h_3, h_2, h_1, h0 = h[-4, j], h[-3, j], h[-2, j], h[-1, j]
             m_3, m_2, m_1, m0 = m[-4, j], m[-3, j], m[-2, j], m[-1, j]
         else:
-            m_3, m_2, m_1, m0 = False, False, False, False
+            # Nothing available before first value
+            m_3, m_2, m_1, m0 = True, True, True, True
         h1, h2, h3, h4 = h[0, j], h[1, j], h[2, j], h[3, j]
         m1, m2, m3, m4 = m[0, j], m[1, j], m[2, j], m[3, j]
         for i in range(nb_x):
@@ -2971,7 +2972,7 @@ def compute_stencil(x, y, h, m, earth_radius, vertical=False, stencil_halfwidth=
                     h4 = h[i_, j]
                 else:
                     # When we are out
-                    m4 = False
+                    m4 = True
             else:
                 m4 = m[i_, j]
                 h4 = h[i_, j]
@@ -2994,6 +2995,11 @@ def compute_stencil(x, y, h, m, earth_radius, vertical=False, stencil_halfwidth=
                     m_out[i, j] = False
                     continue
                 continue
+            if m1:
+                # No neighbour available
+                grad[i, j] = nan
+                m_out[i, j] = True
+                continue
             if m2 or m_2 or stencil_halfwidth == 1:
                 grad[i, j] = (h1 - h_1) / 2 * d_
                 m_out[i, j] = False
-- 
2.43.0


From 9616aea7d519dac43f3618ce2e2beaabed1e3cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:30 +0000
Subject: [PATCH 009/108] fix: add_uv_lagerloef failed to locate equatorial
 band

---
 src/py_eddy_tracker/dataset/grid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index e9e6daf..65800ed 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -1796,8 +1796,9 @@ class RegularGridDataset(GridDataset):
     def add_uv_lagerloef(self, grid_height, uname="u", vname="v", schema=15):
         self.add_uv(grid_height, uname, vname)
         latmax = 5
-        _, (i_start, i_end) = self.nearest_grd_indice((0, 0), (-latmax, latmax))
-        sl = slice(i_start, i_end)
+        _, i_start = self.nearest_grd_indice(0, -latmax)
+        _, i_end = self.nearest_grd_indice(0, latmax)
+        sl = slice(max(i_start, 0), max(i_end, 0))
         # Divide by sideral day
         lat = self.y_c[sl]
         gob = (
-- 
2.43.0


From db35cf660b2eb7df17fbd2b97e057b105988734d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:25 +0000
Subject: [PATCH 010/108] fix: particles at the south of the grid must not be
 advected with values of the north border

---
 src/py_eddy_tracker/dataset/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 65800ed..dcbf2ca 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2714,7 +2714,7 @@ def get_uv_quad(i0, j0, u, v, m, nb_x=0):
         i1 %= nb_x
     i_max, j_max = m.shape
 
-    if i1 >= i_max or j1 >= j_max:
+    if i0 < 0 or i1 >= i_max or j0 < 0 or j1 >= j_max:
         return True, nan, nan, nan, nan, nan, nan, nan, nan
 
     if m[i0, j0] or m[i0, j1] or m[i1, j0] or m[i1, j1]:
-- 
2.43.0


From ece1be0b127714e24f608f20c088bfcfd137c74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:25 +0000
Subject: [PATCH 011/108] fix: advection with a current file without masked
 value

---
 src/py_eddy_tracker/dataset/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index dcbf2ca..de73f9d 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2045,7 +2045,7 @@ class RegularGridDataset(GridDataset):
         if backward:
             u = -u
             v = -v
-        m = u.mask + v.mask
+        m = self.get_mask(u) + self.get_mask(v)
         return u.data, v.data, m
 
     def advect(self, x, y, u_name, v_name, nb_step=10, rk4=True, **kw):
-- 
2.43.0


From 9f2cc585bf6b220b15400e504b40cb9f8e2a576d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:25 +0000
Subject: [PATCH 012/108] fix: advection which starts between two datasets must
 be interpolated in time

---
 src/py_eddy_tracker/dataset/grid.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index de73f9d..e8d313b 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2602,8 +2602,10 @@ class GridCollection:
             yield t, x, y
 
     def get_next_time_step(self, t_init):
+        nb = len(self.datasets)
         for i, (t, dataset) in enumerate(self.datasets):
-            if t < t_init:
+            # Dataset just before t_init is needed to interpolate until next one
+            if t < t_init and (i + 1 == nb or self.datasets[i + 1][0] <= t_init):
                 continue
             dataset.populate()
             logger.debug(f"i={i}, t={t}, dataset={dataset}")
@@ -2613,7 +2615,8 @@ class GridCollection:
         i = len(self.datasets)
         for t, dataset in reversed(self.datasets):
             i -= 1
-            if t > t_init:
+            # Dataset just after t_init is needed to interpolate until previous one
+            if t > t_init and (i == 0 or self.datasets[i - 1][0] >= t_init):
                 continue
             dataset.populate()
             logger.debug(f"i={i}, t={t}, dataset={dataset}")
-- 
2.43.0


From 1ca0b4e2f0931bb6de6f5007ea64af3494811ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:25 +0000
Subject: [PATCH 013/108] fix: first time of particle path was in days and the
 others in seconds

---
 src/py_eddy_tracker/dataset/grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index e8d313b..e792ddc 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2639,7 +2639,9 @@ class GridCollection:
         t = empty(nb_time + 1, dtype="f8")
         x = empty((nb_time + 1, x0.size), dtype=x0.dtype)
         y = empty(x.shape, dtype=y0.dtype)
-        t[0], x[0], y[0] = kwargs.get("t_init"), x0, y0
+        t_init = args[0] if args else kwargs["t_init"]
+        # Same unit than advect: seconds
+        t[0], x[0], y[0] = t_init * 86400, x0, y0
         for i in range(nb_time):
             t[i + 1], x[i + 1], y[i + 1] = particles.__next__()
         return t, x, y
-- 
2.43.0


From 683891920fcdc1acfe3153198cd495ea2e6bae3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:33 +0000
Subject: [PATCH 014/108] fix: load a zarr without array variables

---
 src/py_eddy_tracker/observations/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 677ff38..e199865 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -817,7 +817,7 @@ class EddiesObservations(object):
         var_list = cls.build_var_list(list(h_zarr.keys()), remove_vars, include_vars)
 
         nb_obs = getattr(h_zarr, var_list[0]).shape[0]
-        track_array_variables = h_zarr.attrs["track_array_variables"]
+        track_array_variables = h_zarr.attrs.get("track_array_variables", 0)
 
         if indexs is not None and "obs" in indexs:
             sl = indexs["obs"]
-- 
2.43.0


From f6d36571a239ad2aeb12db3095cc8127e3bbf4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:56 +0000
Subject: [PATCH 015/108] fix: raw load of zarr truncated packed values

---
 src/py_eddy_tracker/observations/observation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index e199865..030f0f9 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -38,6 +38,7 @@ from numpy import (
     ones,
     percentile,
     radians,
+    rint,
     sin,
     unique,
     where,
@@ -924,7 +925,8 @@ class EddiesObservations(object):
                 if add_offset is not None:
                     data -= add_offset
                 if scale_factor is not None:
-                    data /= scale_factor
+                    # rint to avoid truncation when data will be cast to stored type
+                    data = rint(data / scale_factor)
 
             sl_out = slice(i - i_start, i - i_start + buffer_size)
             handler_eddies[sl_out] = data
-- 
2.43.0


From bcb02d60b0d955c009f1fd4ba0640961ba4fc877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 016/108] fix: filename given in bytes

---
 src/py_eddy_tracker/observations/observation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 030f0f9..1ad0525 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -811,7 +811,7 @@ class EddiesObservations(object):
             h_zarr = filename
         else:
             if not isinstance(filename, str):
-                filename = filename.astype(str)
+                filename = filename.decode()
             h_zarr = zarr.open(filename)
 
         _check_versions(h_zarr.attrs.get("framework_version", None))
@@ -954,7 +954,7 @@ class EddiesObservations(object):
         """
         array_dim = "NbSample"
         if isinstance(filename, bytes):
-            filename = filename.astype(str)
+            filename = filename.decode()
         if isinstance(filename, (ExFileObject, BufferedReader, BytesIO)):
             filename.seek(0)
             args, kwargs = ("in-mem-file",), dict(memory=filename.read())
-- 
2.43.0


From 9753a837fbb753b04a001019dd2dbc07d65c3118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 017/108] fix: load only a slice of observations with an open
 bound or a step

---
 .../observations/observation.py               | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 1ad0525..ad06a8d 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -822,14 +822,11 @@ class EddiesObservations(object):
 
         if indexs is not None and "obs" in indexs:
             sl = indexs["obs"]
-            sl = slice(sl.start, min(sl.stop, nb_obs))
-            if sl.stop is not None:
-                nb_obs = sl.stop
-            if sl.start is not None:
-                nb_obs -= sl.start
             if sl.step is not None:
-                indexs["obs"] = slice(sl.start, sl.stop)
                 logger.warning("step of slice won't be use")
+            start, stop, _ = slice(sl.start, sl.stop).indices(nb_obs)
+            nb_obs = max(0, stop - start)
+            indexs = dict(indexs, obs=slice(start, start + nb_obs))
         logger.debug("%d observations will be load", nb_obs)
         kwargs = dict()
 
@@ -971,14 +968,12 @@ class EddiesObservations(object):
             nb_obs = len(h_nc.dimensions[obs_dim])
             if indexs is not None and obs_dim in indexs:
                 sl = indexs[obs_dim]
-                sl = slice(sl.start, min(sl.stop, nb_obs))
-                if sl.stop is not None:
-                    nb_obs = sl.stop
-                if sl.start is not None:
-                    nb_obs -= sl.start
                 if sl.step is not None:
-                    indexs[obs_dim] = slice(sl.start, sl.stop)
                     logger.warning("step of slice won't be use")
+                start, stop, _ = slice(sl.start, sl.stop).indices(nb_obs)
+                nb_obs = max(0, stop - start)
+                indexs = dict(indexs)
+                indexs[obs_dim] = slice(start, start + nb_obs)
             logger.debug("%d observations will be load", nb_obs)
             kwargs = dict()
             if array_dim in h_nc.dimensions:
-- 
2.43.0


From 2bc5ef0c6e9ae247764cf06e2370282e1e3f98aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:30 +0000
Subject: [PATCH 018/108] fix: correspondances file must keep the names of the
 datasets

---
 src/py_eddy_tracker/tracking.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index b64b6fc..0555667 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -427,7 +427,9 @@ class Correspondances(list):
         )
 
         def get_filename(dataset):
-            if not isinstance(dataset, str) or not isinstance(dataset, bytes):
+            if isinstance(dataset, bytes):
+                return dataset.decode()
+            if not isinstance(dataset, str):
                 return "In memory file"
             return dataset
 
-- 
2.43.0


From 3d804f197fa65fb493a7fc4fd8802fd2222d8d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:30 +0000
Subject: [PATCH 019/108] fix: selection of short tracks when there is none

---
 src/py_eddy_tracker/tracking.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index 0555667..30cf3bd 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -614,6 +614,7 @@ class Correspondances(list):
     def shorter_than(self, size_max):
         """Remove from correspondance table all association for longer eddies than size_max"""
         # Identify eddies longer than
+        nb_tracks = self.nb_obs_by_tracks.shape[0]
         i_keep_track = where(self.nb_obs_by_tracks < size_max)[0]
         # Reduce array
         self.nb_obs_by_tracks = self.nb_obs_by_tracks[i_keep_track]
@@ -623,7 +624,7 @@ class Correspondances(list):
         self.nb_obs = self.nb_obs_by_tracks.sum()
         # Give the last id used
         self.current_id = self.nb_obs_by_tracks.shape[0]
-        translate = empty(i_keep_track.max() + 1, dtype="u4")
+        translate = empty(nb_tracks, dtype="u4")
         translate[i_keep_track] = arange(self.current_id)
         for i, correspondance in enumerate(self):
             m_keep = isin(correspondance["id"], i_keep_track)
-- 
2.43.0


From 92733039e097b0618a3ceb0c520e0c50e6561a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 020/108] fix: save and resume tracking with virtual
 observations after two or three datasets

---
 src/py_eddy_tracker/tracking.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index 30cf3bd..031cdac 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -341,14 +341,16 @@ class Correspondances(list):
             self.current_obs = self.class_method.load_file(
                 self.datasets[first_dataset - 2], **self.class_kw
             )
-            flg_virtual = self.previous_correspondance.virtual
             with Dataset(self.filename_previous_correspondance) as general_handler:
                 self.current_id = general_handler.last_current_id
+                # Virtual obs exist only after two steps and previous ones after three
+                flg_virtual = "LastVirtualObs" in general_handler.groups
                 if flg_virtual:
                     # Load last virtual obs
                     self.virtual_obs = VirtualEddiesObservations.from_netcdf(
                         general_handler.groups["LastVirtualObs"]
                     )
+                if "LastPreviousVirtualObs" in general_handler.groups:
                     self.previous_virtual_obs = VirtualEddiesObservations.from_netcdf(
                         general_handler.groups["LastPreviousVirtualObs"]
                     )
@@ -482,6 +484,7 @@ class Correspondances(list):
         if self.virtual_obs is not None:
             group = handler.createGroup("LastVirtualObs")
             self.virtual_obs.to_netcdf(group)
+        if self.previous_virtual_obs is not None:
             group = handler.createGroup("LastPreviousVirtualObs")
             self.previous_virtual_obs.to_netcdf(group)
         handler.module = self.class_method.__module__
-- 
2.43.0


From f66b181b7698a9c48583b40b7981e6e475872926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:36 +0000
Subject: [PATCH 021/108] fix: save and load correspondances with steps without
 link

---
 src/py_eddy_tracker/tracking.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index 031cdac..fe3a3e1 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -474,7 +474,7 @@ class Correspondances(list):
         for name, data in datas.items():
             h_v = handler.variables[name]
             h_v[:] = data
-            if "File" not in name:
+            if "File" not in name and data.size:
                 h_v.min = h_v[:].min()
                 h_v.max = h_v[:].max()
 
@@ -543,7 +543,7 @@ class Correspondances(list):
             class_kw=class_kw,
         )
 
-        id_max = 0
+        nb_id = 0
         for i, nb_elt in enumerate(datas["nb_link"][:]):
             logger.debug(
                 "Link between %s and %s", datas["FileIn"][i], datas["FileOut"][i]
@@ -557,9 +557,10 @@ class Correspondances(list):
                 if name == "virtual_length":
                     correspondance[name] = 255
                 correspondance[name] = datas[name][i, :nb_elt]
-            id_max = max(id_max, correspondance["id"].max())
+            if nb_elt:
+                nb_id = max(nb_id, int(correspondance["id"].max()) + 1)
             obj.append(correspondance)
-        obj.current_id = id_max + 1
+        obj.current_id = nb_id
         return obj
 
     @classmethod
-- 
2.43.0


From 1602644aeb83594340e81a568f334957cd26ec5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:02 +0000
Subject: [PATCH 022/108] fix: common area cost of contours stored on different
 longitude branches

---
 src/py_eddy_tracker/observations/observation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index ad06a8d..5cd7edc 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -1259,6 +1259,8 @@ class EddiesObservations(object):
         nb_records = xy_in.shape[0]
         x_in, y_in = xy_in[x_name], xy_in[y_name]
         x_out, y_out = xy_out[x_name], xy_out[y_name]
+        # Move each output contour on the same longitude branch as its input contour
+        x_out = x_out + 360 * (((x_in[:, :1] - x_out[:, :1]) / 360).round())
         x_in_min, y_in_min = x_in.min(axis=1), y_in.min(axis=1)
         x_in_max, y_in_max = x_in.max(axis=1), y_in.max(axis=1)
         x_out_min, y_out_min = x_out.min(axis=1), y_out.min(axis=1)
@@ -1275,8 +1277,6 @@ class EddiesObservations(object):
 
             x_in_, x_out_ = x_in[i], x_out[i]
             p_in = Polygon(create_vertice(x_in_, y_in[i]))
-            if abs(x_in_[0] - x_out_[0]) > 180:
-                x_out_ = (x_out[i] - (x_in_[0] - 180)) % 360 + x_in_[0] - 180
             p_out = Polygon(create_vertice(x_out_, y_out[i]))
             costs[i] = 1 - (p_in & p_out).area() / min(p_in.area(), p_out.area())
         costs.mask = costs == 1
-- 
2.43.0


From 69053b16381bebc292dfef0b34aa6e4dd89fe90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:09 +0000
Subject: [PATCH 023/108] fix: identification on a curvilinear grid read from a
 file

---
 src/py_eddy_tracker/dataset/grid.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index e792ddc..35865b2 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -106,7 +106,7 @@ BasePath.lat = lat
 
 
 @njit(cache=True)
-def uniform_resample_stack(vertices, num_fac=2, fixed_size=None):
+def uniform_resample_stack(vertices, num_fac=2, fixed_size=-1):
     x_val, y_val = vertices[:, 0], vertices[:, 1]
     x_new, y_new = uniform_resample(x_val, y_val, num_fac, fixed_size)
     data = empty((x_new.shape[0], 2), dtype=vertices.dtype)
@@ -116,7 +116,7 @@ def uniform_resample_stack(vertices, num_fac=2, fixed_size=None):
 
 
 @njit(cache=True)
-def value_on_regular_contour(x_g, y_g, z_g, m_g, vertices, num_fac=2, fixed_size=None):
+def value_on_regular_contour(x_g, y_g, z_g, m_g, vertices, num_fac=2, fixed_size=-1):
     x_val, y_val = vertices[:, 0], vertices[:, 1]
     x_new, y_new = uniform_resample(x_val, y_val, num_fac, fixed_size)
     return interp2d_geo(x_g, y_g, z_g, m_g, x_new[1:], y_new[1:])
@@ -1095,8 +1095,9 @@ class UnRegularGridDataset(GridDataset):
             self.vars[x_name] = h.variables[x_name][sl_x]
             self.vars[y_name] = h.variables[y_name][sl_y]
 
-            self.x_c = self.vars[x_name]
-            self.y_c = self.vars[y_name]
+            # Numba doesn't support masked array, which is what netCDF4 gives
+            self.x_c = array(self.vars[x_name].astype("float64"))
+            self.y_c = array(self.vars[y_name].astype("float64"))
 
             self.init_pos_interpolator()
 
-- 
2.43.0


From 533cf3845b00ffd73116b7d404c1479e161d2d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:31 +0000
Subject: [PATCH 024/108] fix: cut of lines which are already wrapped on
 another meridian

---
 src/py_eddy_tracker/generic.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index 0ba0438..a453129 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -464,8 +464,9 @@ def wrap_longitude(x, y, ref, cut=False):
             new_x = (x_ - ref) % 360 + ref
             if not isnan(x_) and not isnan(x_previous):
                 d_new = new_x - new_x_previous
-                d = x_ - x_previous
-                if abs(d - d_new) > 1e-5:
+                # Shortest way, x could be already wrapped elsewhere
+                d = (x_ - x_previous + 180) % 360 - 180
+                if abs(d - d_new) > 180:
                     indexs.append(i)
             x_previous, new_x_previous = x_, new_x
 
@@ -478,8 +479,7 @@ def wrap_longitude(x, y, ref, cut=False):
         for i in range(nb):
             if j < nb_indexs and i == indexs[j]:
                 j += 1
-                # FIXME need check
-                cor = 360 if x[i - 1] > x[i] else -360
+                cor = 360 if (x[i] - x[i - 1] + 180) % 360 < 180 else -360
                 out_x[i + i_] = (x[i] - ref) % 360 + ref - cor
                 out_y[i + i_] = y[i]
                 out_x[i + i_ + 1] = nan
-- 
2.43.0


From 25faca7fbb4817fd67a8c58fbb2444ff7137549d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:31 +0000
Subject: [PATCH 025/108] fix: flatten_line_matrix wrote one value after the
 end of the array

---
 src/py_eddy_tracker/generic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index a453129..4411521 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -350,8 +350,10 @@ def flatten_line_matrix(l_matrix):
         for j in range(sampling):
             out[inc] = l_matrix[i, j]
             inc += 1
-        out[inc] = nan
-        inc += 1
+        # No separator after last line
+        if i < nb_line - 1:
+            out[inc] = nan
+            inc += 1
     return out
 
 
-- 
2.43.0


From 64bee506ab92de947d18111c01383ad0606a5329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:31 +0000
Subject: [PATCH 026/108] fix: simplify dropped a line whose only valid point
 is the last one

---
 src/py_eddy_tracker/generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index 4411521..cf768a7 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -379,7 +379,7 @@ def simplify(x, y, precision=0.1):
             continue
         break
     # Only nan
-    if j == (nb - 1):
+    if isnan(x_previous) or isnan(y_previous):
         return zeros(0, dtype=x.dtype), zeros(0, dtype=x.dtype)
 
     last_nan = False
-- 
2.43.0


From 8ff547cc609973b1fc032d14d23830c788693d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:49 +0000
Subject: [PATCH 027/108] fix: convex hull kept points which are inside the
 hull near its end

---
 src/py_eddy_tracker/poly.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/py_eddy_tracker/poly.py b/src/py_eddy_tracker/poly.py
index 9bd5a70..897d638 100644
--- a/src/py_eddy_tracker/poly.py
+++ b/src/py_eddy_tracker/poly.py
@@ -189,6 +189,12 @@ def get_convex_hull(x, y):
             if is_left(x0, y0, x1, y1, xf, yf):
                 indices.append(i_next)
             break
+    # First point was not tested with last lines
+    while len(indices) > 2:
+        i0, i1 = indices[-2], indices[-1]
+        if is_left(x[i0], y[i0], x[i1], y[i1], xf, yf):
+            break
+        indices.pop()
     indices.append(i_first)
     indices = array(indices)
     return x[indices], y[indices]
-- 
2.43.0


From 7e91c3e8db3cce4d13f5b08b0c96683dc24d2920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:27 +0000
Subject: [PATCH 028/108] fix: contours with longitudes out of the packed range
 were stored elsewhere

---
 .../observations/observation.py               | 25 +++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 5cd7edc..4a7d1bb 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -1542,6 +1542,27 @@ class EddiesObservations(object):
 
         return i_self, i_other, cost_mat[i_self, i_other]
 
+    def storable(self, name):
+        """
+        Values of a field on a range which could be stored.
+
+        Longitudes of contours are packed on 2 bytes around 180 degrees, so contours which are out of
+        ]-147.67, 507.67] are moved of n * 360 degrees.
+
+        :param str name: field name
+        """
+        data = self.obs[name]
+        if self.raw_data or name not in ("contour_lon_e", "contour_lon_s"):
+            return data
+        if data.size == 0 or data.ndim != 2:
+            return data
+        x0, x1 = data.min(axis=1), data.max(axis=1)
+        m = (x0 < -147.66) + (x1 > 507.66)
+        if m.any():
+            data = data.copy()
+            data[m] -= (x0[m] + x1[m]).reshape(-1, 1) / 2 // 360 * 360
+        return data
+
     def to_zarr(self, handler, **kwargs):
         handler.attrs["track_extra_variables"] = ",".join(self.track_extra_variables)
         if self.track_array_variables != 0:
@@ -1562,7 +1583,7 @@ class EddiesObservations(object):
                     dimensions=VAR_DESCR[name]["nc_dims"],
                 ),
                 VAR_DESCR[name]["nc_attr"],
-                self.obs[ori_name],
+                self.storable(ori_name),
                 scale_factor=VAR_DESCR[name].get("scale_factor", None),
                 add_offset=VAR_DESCR[name].get("add_offset", None),
                 filters=VAR_DESCR[name].get("filters", None),
@@ -1608,7 +1629,7 @@ class EddiesObservations(object):
                     dimensions=VAR_DESCR[name]["nc_dims"],
                 ),
                 VAR_DESCR[name]["nc_attr"],
-                self.obs[ori_name],
+                self.storable(ori_name),
                 scale_factor=VAR_DESCR[name].get("scale_factor", None),
                 add_offset=VAR_DESCR[name].get("add_offset", None),
                 **kwargs,
-- 
2.43.0


From 470504d493fda08781321e74bf74faed9e29a0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:52 +0000
Subject: [PATCH 029/108] fix: load observations directly from a member of a
 tar file

---
 src/py_eddy_tracker/observations/observation.py | 4 +++-
 src/py_eddy_tracker/tracking.py                 | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 4a7d1bb..1ad3d07 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -768,7 +768,9 @@ class EddiesObservations(object):
         For `**kwargs` look at :py:meth:`load_from_zarr` or :py:meth:`load_from_netcdf`
         """
         filename_ = (
-            filename.filename if isinstance(filename, ExFileObject) else filename
+            getattr(filename, "filename", filename.name)
+            if isinstance(filename, ExFileObject)
+            else filename
         )
         if isinstance(filename, zarr.storage.MutableMapping):
             return cls.load_from_zarr(filename, **kwargs)
diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index fe3a3e1..43b68dd 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -378,7 +378,9 @@ class Correspondances(list):
         for file_name in self.datasets[first_dataset:]:
             self.swap_dataset(file_name, **kwargs)
             filename_ = (
-                file_name.filename if isinstance(file_name, ExFileObject) else file_name
+                getattr(file_name, "filename", file_name.name)
+                if isinstance(file_name, ExFileObject)
+                else file_name
             )
             logger.info("%s match with previous state", filename_)
             logger.debug("%d obs to match", len(self.current_obs))
-- 
2.43.0


From 71bbc36ad742c5d428400daf3b9310557f039926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:52 +0000
Subject: [PATCH 030/108] fix: load an empty file with rotation type of each
 observation

---
 src/py_eddy_tracker/observations/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 1ad3d07..a5a61f5 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -1029,7 +1029,7 @@ class EddiesObservations(object):
 
             for variable in var_list:
                 var_inv = VAR_DESCR_inv[variable]
-                if var_inv == "type_cyc":
+                if var_inv == "type_cyc" and len(h_nc.dimensions[obs_dim]):
                     eddies.sign_type = h_nc.variables[variable][0]
             if eddies.sign_type is None:
                 title = getattr(h_nc, "title", None)
-- 
2.43.0


From 78e27b45c14c2cf2500aabe942e6ea247b0c8781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:57 +0000
Subject: [PATCH 031/108] fix: do not share the buffer of contours between
 networks

The buffer was a singleton: the second Network of a session grouped with
the contour (and the content of the files) of the first one.
---
 src/py_eddy_tracker/observations/network.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index a2e2dae..f225b1f 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -37,27 +37,20 @@ from .tracking import TrackEddiesObservations, track_loess_filter, track_median_
 logger = logging.getLogger("pet")
 
 
-class Singleton(type):
-    _instances = {}
-
-    def __call__(cls, *args, **kwargs):
-        if cls not in cls._instances:
-            cls._instances[cls] = super().__call__(*args, **kwargs)
-        return cls._instances[cls]
-
-
-class Buffer(metaclass=Singleton):
+class Buffer:
     __slots__ = (
         "buffersize",
         "contour_name",
         "xname",
         "yname",
         "memory",
+        "DATA",
+        "FLIST",
     )
-    DATA = dict()
-    FLIST = list()
 
     def __init__(self, buffersize, intern=False, memory=False):
+        self.DATA = dict()
+        self.FLIST = list()
         self.buffersize = buffersize
         self.contour_name = EddiesObservations.intern(intern, public_label=True)
         self.xname, self.yname = EddiesObservations.intern(intern)
-- 
2.43.0


From e0112f7e9b3585f5fc97367a1118d7800c5a52e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 032/108] fix: forget the index of networks when networks are
 renumbered

After numbering_network the cached index was still the one of the
previous numbers: network, networks, network_size... gave other networks.
---
 src/py_eddy_tracker/observations/network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index f225b1f..952e363 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -708,12 +708,14 @@ class NetworkObservations(GroupEddiesObservations):
         """
         for i, _, _ in self.iter_on("track"):
             new_numbering(self.segment[i], start)
+        self.reset_index()
 
     def numbering_network(self, start=1):
         """
         New numbering of network
         """
         new_numbering(self.track, start)
+        self.reset_index()
 
     def only_one_network(self):
         """
-- 
2.43.0


From 2e05d227580649e3ef22e9dc47d978af5864e1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 033/108] fix: keep segments of the mask in each iteration of
 remove_dead_end

---
 src/py_eddy_tracker/observations/network.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 952e363..d142131 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1487,9 +1487,12 @@ class NetworkObservations(GroupEddiesObservations):
         self.next_obs[m_next] = -1
         self.next_cost[m_next] = 0
 
-        self.sort()
+        index_order, _ = self.sort()
         if recursive > 0:
-            self.remove_dead_end(nobs, ndays, recursive - 1)
+            if mask is not None:
+                # mask must follow the observations
+                mask = mask[index_order]
+            self.remove_dead_end(nobs, ndays, recursive - 1, mask=mask)
 
     def extract_segment(self, segments, absolute=False):
         """Extract given segments
-- 
2.43.0


From 255945ba464b7d5cfc6a9ba40294fde22ddfe888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 034/108] fix: no reading out of the index when a network id is
 unknown

networks, networks_mask and subset_network --ids crashed (or selected
other networks) with an id out of the range of the dataset.
---
 src/py_eddy_tracker/observations/network.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index d142131..0ad7154 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -2251,8 +2251,13 @@ def generate_mask_from_ids(id_networks, nb, istart, iend, i0):
     :return array: return a mask
     """
     m = zeros(nb, dtype="bool")
+    nb_ids = istart.size
     for i in id_networks:
-        for j in range(istart[i - i0], iend[i - i0]):
+        k = i - i0
+        # Unknown id
+        if k < 0 or k >= nb_ids:
+            continue
+        for j in range(istart[k], iend[k]):
             m[j] = True
     return m
 
-- 
2.43.0


From c5eccb1b088d27e2f8cde59a59a5063d800d9514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 035/108] fix: give its cost to the link changed by
 correct_close_events

previous_obs was changed and previous_cost was the cost of another link.
---
 src/py_eddy_tracker/observations/network.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 0ad7154..a33443c 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -394,6 +394,7 @@ class NetworkObservations(GroupEddiesObservations):
                 # correct the good segment
                 segment_copy[my_slice] = seg_corrected_copy
                 previous_obs[i_seg_n] = seg_slice.stop - 1
+                self.previous_cost[i_seg_n] = self.next_cost[seg_slice.stop - 1]
 
                 segments_connexion[seg_corrected][0] = my_slice
 
-- 
2.43.0


From 3a8367b308e006dc70f14fa10323b26ae506b41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:07 +0000
Subject: [PATCH 036/108] fix: correct_close_events follows the parts of
 segments already corrected

A segment changed once is not contiguous anymore: a second correction on
it changed the links without the segment.
---
 src/py_eddy_tracker/observations/network.py | 26 ++++++++++++++-------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index a33443c..d8add62 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -353,7 +353,7 @@ class NetworkObservations(GroupEddiesObservations):
         # final segment used to copy into self.segment
         segment_copy = self.segment
 
-        segments_connexion = dict()
+        segments_connexion, segment_parts = dict(), dict()
 
         previous_obs, next_obs = self.previous_obs, self.next_obs
 
@@ -364,6 +364,8 @@ class NetworkObservations(GroupEddiesObservations):
 
             i_p, i_n = previous_obs[i.start], next_obs[i.stop - 1]
             segments_connexion[seg] = [i, i_p, i_n]
+            # a corrected segment could be made of several parts
+            segment_parts[seg] = [i]
 
         for seg in sorted(segments_connexion.keys()):
             seg_slice, _, i_seg_n = segments_connexion[seg]
@@ -379,7 +381,7 @@ class NetworkObservations(GroupEddiesObservations):
             # if segment is split
             n_seg = segment[i_seg_n]
 
-            seg2_slice, i2_seg_p, _ = segments_connexion[n_seg]
+            i2_seg_p = segments_connexion[n_seg][1]
             if i2_seg_p == -1:
                 continue
             p2_seg = segment[i2_seg_p]
@@ -388,16 +390,22 @@ class NetworkObservations(GroupEddiesObservations):
             if (p2_seg == seg_corrected) and (
                 _time[i_seg_n] - _time[i2_seg_p] < nb_days_max
             ):
-                my_slice = slice(i_seg_n, seg2_slice.stop)
-                # correct the factice segment
-                segment[my_slice] = seg_corrected
-                # correct the good segment
-                segment_copy[my_slice] = seg_corrected_copy
+                # search the part of segment which holds the merging
+                for i_part, part in enumerate(segment_parts[n_seg]):
+                    if part.start <= i_seg_n < part.stop:
+                        break
+                moved = segment_parts[n_seg][i_part:]
+                moved[0] = slice(i_seg_n, part.stop)
+                segment_parts[n_seg][i_part:] = [slice(part.start, i_seg_n)]
+                segment_parts[seg_corrected].extend(moved)
+                for my_slice in moved:
+                    # correct the factice segment
+                    segment[my_slice] = seg_corrected
+                    # correct the good segment
+                    segment_copy[my_slice] = seg_corrected_copy
                 previous_obs[i_seg_n] = seg_slice.stop - 1
                 self.previous_cost[i_seg_n] = self.next_cost[seg_slice.stop - 1]
 
-                segments_connexion[seg_corrected][0] = my_slice
-
         return self.sort()
 
     def sort(self, order=("track", "segment", "time")):
-- 
2.43.0


From 4c37d96d253a1abb8771a86fc774cd51b521c7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:36 +0000
Subject: [PATCH 037/108] fix: swap_track keeps links in agreement with
 segments

The segments were swapped and next_obs/next_cost of the observation
before the splitting were the ones of the other branch. Two splittings
of one observation gave two observations of a segment at the same date.
---
 src/py_eddy_tracker/observations/network.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index d8add62..a685204 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1935,9 +1935,14 @@ class NetworkObservations(GroupEddiesObservations):
                 and dt_secondary >= length_secondary_min_after_event
                 and last_main_next_obs == -1
                 and delta_cost > delta_pct_max
+                # main was not already swapped by another splitting of the same observation
+                and i1 != -1
+                and self.next_obs[i_main] == i1
             ):
                 self.segment[i1 : last_index_main + 1] = self.segment[i2]
                 self.segment[i2 : last_index_secondary + 1] = self.segment[i_main]
+                self.next_obs[i_main] = i2
+                self.next_cost[i_main] = self.previous_cost[i2]
                 count += 1
         logger.info("%d segmnent swap on %d", count, len(events[0]))
         return self.sort()
-- 
2.43.0


From d1a69fb6bac7cfd1a2d80a9dcd52d9b0c5ae0589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 038/108] fix: align_on yields every group of self with all_ref

Groups after the last one of other were lost, and a group without
counterpart crashed when it was a slice.
---
 src/py_eddy_tracker/observations/observation.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index a5a61f5..c624649 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -29,6 +29,7 @@ from numpy import (
     floor,
     histogram,
     histogram2d,
+    inf,
     in1d,
     isnan,
     linspace,
@@ -647,19 +648,15 @@ class EddiesObservations(object):
         else:
             iter_self = self.iter_on(var_name[0], **kwargs)
             iter_other = other.iter_on(var_name[1], **kwargs)
-        indexs_other, b0_other, b1_other = iter_other.__next__()
+        # No more group in other
+        exhausted = None, inf, inf
+        indexs_other, b0_other, b1_other = next(iter_other, exhausted)
         for indexs_self, b0_self, b1_self in iter_self:
-            if b0_self > b0_other:
-                try:
-                    while b0_other < b0_self:
-                        indexs_other, b0_other, b1_other = iter_other.__next__()
-                except StopIteration:
-                    break
+            while b0_other < b0_self:
+                indexs_other, b0_other, b1_other = next(iter_other, exhausted)
             if b0_self < b0_other:
                 if all_ref:
-                    yield indexs_self, empty(
-                        0, dtype=indexs_self.dtype
-                    ), b0_self, b1_self
+                    yield indexs_self, empty(0, dtype="i8"), b0_self, b1_self
                 continue
             yield indexs_self, indexs_other, b0_self, b1_self
 
-- 
2.43.0


From 35514a27fc66d17e3609b91246a932f8e5dd57c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 039/108] fix: iter_on ignores values out of bins when they are
 sorted

Below the first bin they were yielded with wrong bounds, above the last
one iter_on raised an IndexError.
---
 src/py_eddy_tracker/observations/observation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index c624649..12bed94 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -629,6 +629,8 @@ class EddiesObservations(object):
                 i0, i1 = i0[m], i1[m]
                 for i0_, i1_ in zip(i0, i1):
                     i_bins = i[i0_]
+                    if i_bins == -1 or i_bins == nb_bins:
+                        continue
                     yield slice(i0_, i1_), bins[i_bins], bins[i_bins + 1]
 
     def align_on(self, other, var_name="time", all_ref=False, **kwargs):
-- 
2.43.0


From 2de58619238070777675a89f0cf336c251ff45a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 040/108] fix: iter_on with unsigned integers which are not
 sorted, or no value in bins

The difference of unsigned integers is never negative, groups were
built as if values were sorted.
---
 src/py_eddy_tracker/observations/observation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 12bed94..64bd798 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -596,17 +596,19 @@ class EddiesObservations(object):
             for x_, i0, i1 in zip(x0, first_index, last_index):
                 yield i_ordered[i0:i1], x_ - window, x_ + window
         else:
-            d = x[1:] - x[:-1]
             if bins is None:
                 bins = arange(x.min(), x.max() + 2)
             elif not isinstance(bins, ndarray):
                 bins = array(bins)
             nb_bins = len(bins) - 1
 
-            # Not monotonous
-            if (d < 0).any():
+            # Not monotonous (no difference, which is never negative for unsigned integer)
+            if (x[1:] < x[:-1]).any():
                 # If bins cover a small part of value
                 test, translate, x = iter_mode_reduce(x, bins)
+                # No value in bins
+                if x.size == 0:
+                    return
                 # convert value in bins number
                 i = numba_digitize(x, bins) - 1
                 # Order by bins
-- 
2.43.0


From 2381767d423bd75a4490fadceb265dd460cd5187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 041/108] fix: iter_on and align_on with an empty dataset

---
 src/py_eddy_tracker/observations/observation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 64bd798..22fab34 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -590,6 +590,9 @@ class EddiesObservations(object):
         .. minigallery:: py_eddy_tracker.EddiesObservations.iter_on
         """
         x = self.parse_varname(xname)
+        # Nothing to yield
+        if x.size == 0:
+            return
         if window is not None:
             x0 = arange(x.min(), x.max()) if bins is None else array(bins)
             i_ordered, first_index, last_index = window_index(x, x0, window)
-- 
2.43.0


From 2297bd16c75cb2230fa4761ca93feeb0e5394741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 042/108] fix: identify_in when sizes of networks are sorted

---
 src/py_eddy_tracker/observations/network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index a685204..549b28d 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1300,14 +1300,14 @@ class NetworkObservations(GroupEddiesObservations):
                 continue
             if isinstance(i_other, slice):
                 i_other = arange(i_other.start, i_other.stop)
+            if isinstance(i_self, slice):
+                i_self = arange(i_self.start, i_self.stop)
             # All_ref will give all item of self, sometime there is no things to compare with other
             if i_other.size == 0:
                 id_self = i_self + i_self_ref
                 in_self.append(id_self)
                 in_other.append(-ones(id_self.shape, dtype=id_self.dtype))
                 continue
-            if isinstance(i_self, slice):
-                i_self = arange(i_self.start, i_self.stop)
             # We get absolute id
             id_self, id_other = i_self + i_self_ref, i_other + i_other_ref
             # We compute mask to select data
-- 
2.43.0


From 607e001a200f148e923a4b955314a48b323be8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:27 +0000
Subject: [PATCH 043/108] fix: find_link searches forward and backward
 independently

---
 src/py_eddy_tracker/observations/network.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 549b28d..6e1b0c1 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -494,28 +494,31 @@ class NetworkObservations(GroupEddiesObservations):
                 # backward
                 segments_connexion[n_seg][2].append((i_n, i_slice.stop - 1, seg))
 
-        mask = zeros(segment.size, dtype=bool)
+        # one mask for each direction, an observation reached in one direction must
+        # not stop the search in the other one
+        mask_forward = zeros(segment.size, dtype=bool)
+        mask_backward = zeros(segment.size, dtype=bool)
 
         def func_forward(seg, indice):
             seg_slice, _forward, _ = segments_connexion[seg]
 
-            mask[indice : seg_slice.stop] = True
+            mask_forward[indice : seg_slice.stop] = True
             for i_begin, i_end, seg2 in _forward:
                 if i_begin < indice:
                     continue
 
-                if not mask[i_end]:
+                if not mask_forward[i_end]:
                     func_forward(seg2, i_end)
 
         def func_backward(seg, indice):
             seg_slice, _, _backward = segments_connexion[seg]
 
-            mask[seg_slice.start : indice + 1] = True
+            mask_backward[seg_slice.start : indice + 1] = True
             for i_begin, i_end, seg2 in _backward:
                 if i_begin > indice:
                     continue
 
-                if not mask[i_end]:
+                if not mask_backward[i_end]:
                     func_backward(seg2, i_end)
 
         for indice in i_obs:
@@ -525,7 +528,7 @@ class NetworkObservations(GroupEddiesObservations):
             if backward:
                 func_backward(segment[indice], indice)
 
-        return self.extract_with_mask(mask)
+        return self.extract_with_mask(mask_forward | mask_backward)
 
     def connexions(self, multi_network=False):
         """Create dictionnary for each segment, gives the segments in interaction with
-- 
2.43.0


From ebdce22002ab5c9c4271e05ecbfe0e0d7ec96c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:27 +0000
Subject: [PATCH 044/108] fix: first network is trash only if its number is
 zero

---
 src/py_eddy_tracker/observations/network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 6e1b0c1..ac55e30 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1417,6 +1417,8 @@ class NetworkObservations(GroupEddiesObservations):
         :return bool: True if first network is trash
         """
         i_start, i_stop, _ = self.index_segment_track
+        if self.track[i_start[0]] != self.NOGROUP:
+            return False
         sl = slice(i_start[0], i_stop[0])
         return (self.previous_obs[sl] == -1).all() and (self.next_obs[sl] == -1).all()
 
-- 
2.43.0


From 4a0e3d4dfb5ea25ddbf2a600d9c297182b7fb982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:27 +0000
Subject: [PATCH 045/108] fix: no recursion limit in the exploration of
 segments

---
 src/py_eddy_tracker/observations/network.py | 82 +++++++++++----------
 1 file changed, 43 insertions(+), 39 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index ac55e30..c3b7178 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -499,27 +499,28 @@ class NetworkObservations(GroupEddiesObservations):
         mask_forward = zeros(segment.size, dtype=bool)
         mask_backward = zeros(segment.size, dtype=bool)
 
+        # No recursion, a chain of segments could be longer than recursion limit
         def func_forward(seg, indice):
-            seg_slice, _forward, _ = segments_connexion[seg]
+            todo = [(seg, indice)]
+            while todo:
+                seg, indice = todo.pop()
+                seg_slice, _forward, _ = segments_connexion[seg]
 
-            mask_forward[indice : seg_slice.stop] = True
-            for i_begin, i_end, seg2 in _forward:
-                if i_begin < indice:
-                    continue
-
-                if not mask_forward[i_end]:
-                    func_forward(seg2, i_end)
+                mask_forward[indice : seg_slice.stop] = True
+                for i_begin, i_end, seg2 in _forward:
+                    if i_begin >= indice and not mask_forward[i_end]:
+                        todo.append((seg2, i_end))
 
         def func_backward(seg, indice):
-            seg_slice, _, _backward = segments_connexion[seg]
-
-            mask_backward[seg_slice.start : indice + 1] = True
-            for i_begin, i_end, seg2 in _backward:
-                if i_begin > indice:
-                    continue
+            todo = [(seg, indice)]
+            while todo:
+                seg, indice = todo.pop()
+                seg_slice, _, _backward = segments_connexion[seg]
 
-                if not mask_backward[i_end]:
-                    func_backward(seg2, i_end)
+                mask_backward[seg_slice.start : indice + 1] = True
+                for i_begin, i_end, seg2 in _backward:
+                    if i_begin <= indice and not mask_backward[i_end]:
+                        todo.append((seg2, i_end))
 
         for indice in i_obs:
             if forward:
@@ -569,18 +570,21 @@ class NetworkObservations(GroupEddiesObservations):
 
     @classmethod
     def __close_segment(cls, father, shift, connexions, distance):
-        i_father = father - shift
-        if distance[i_father] == -1:
-            distance[i_father] = 0
-        d_target = distance[i_father] + 1
-        for son in connexions.get(father, list()):
-            i_son = son - shift
-            d_son = distance[i_son]
-            if d_son == -1 or d_son > d_target:
-                distance[i_son] = d_target
-            else:
-                continue
-            cls.__close_segment(son, shift, connexions, distance)
+        if distance[father - shift] == -1:
+            distance[father - shift] = 0
+        # No recursion, a chain of segments could be longer than recursion limit
+        todo = [father]
+        while todo:
+            next_todo = list()
+            for father in todo:
+                d_target = distance[father - shift] + 1
+                for son in connexions.get(father, list()):
+                    i_son = son - shift
+                    d_son = distance[i_son]
+                    if d_son == -1 or d_son > d_target:
+                        distance[i_son] = d_target
+                        next_todo.append(son)
+            todo = next_todo
 
     def segment_relative_order(self, seg_origine):
         """
@@ -1369,17 +1373,17 @@ class NetworkObservations(GroupEddiesObservations):
         :param array[int] groups: array where tag is stored
         :param dict connexions: gives for one ID of segment all connected segments
         """
-        # If segments are already used we stop recursivity
-        if groups[seg] != 0:
-            return
-        # We set tag for this segment
-        groups[seg] = tag
-        # Get all connexions of this segment
-        segs = connexions.get(seg, None)
-        if segs is not None:
-            for seg in segs:
-                # For each connexion we apply same function
-                cls.__tag_segment(seg, tag, groups, connexions)
+        # No recursion, a chain of segments could be longer than recursion limit
+        todo = [seg]
+        while todo:
+            seg = todo.pop()
+            # If segments are already used we stop exploration
+            if groups[seg] != 0:
+                continue
+            # We set tag for this segment
+            groups[seg] = tag
+            # Get all connexions of this segment
+            todo.extend(connexions.get(seg, tuple()))
 
     def tag_segment(self):
         """For each segment, method give a new network id, and all segment are connected
-- 
2.43.0


From 8bc50eef77d71e31e77d8226ed9ded4d8e35f24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 046/108] fix: selection of unknown tracks, or in an empty
 dataset

---
 src/py_eddy_tracker/observations/tracking.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 164f972..23ffb02 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -302,7 +302,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
         If obs are not sorted by track, __first_index_of_track will be unusable
         """
         if self.__first_index_of_track is None:
-            s = self.tracks.max() + 1
+            s = self.tracks.max() + 1 if len(self) else 0
             # Doesn't work => core dump with numba, maybe he wants i8 instead of u4
             # self.__first_index_of_track = -ones(s, self.tracks.dtype)
             # self.__obs_by_track = zeros(s, self.observation_number.dtype)
@@ -813,6 +813,9 @@ def count_by_track(tracks, mask, number):
 @njit(cache=True)
 def compute_mask_from_id(tracks, first_index, number_of_obs, mask):
     for track in tracks:
+        # Unknown track
+        if track < 0 or track >= first_index.size:
+            continue
         mask[first_index[track] : first_index[track] + number_of_obs[track]] = True
 
 
-- 
2.43.0


From 050d038247157740ca840f38c8f03fdd21237c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 047/108] fix: store compressed track numbers in observations

---
 src/py_eddy_tracker/observations/tracking.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 23ffb02..a5f03fb 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -209,11 +209,10 @@ class TrackEddiesObservations(GroupEddiesObservations):
             logger.debug("Copy of field %s ...", field)
             eddies.obs[field] = self.obs[field][mask]
         if compress_id:
-            list_id = unique(eddies.obs.track)
-            list_id.sort()
-            id_translate = arange(list_id.max() + 1)
+            list_id = unique(eddies.track)
+            id_translate = arange(list_id.max() + 1 if list_id.size else 0)
             id_translate[list_id] = arange(len(list_id)) + 1
-            eddies.track = id_translate[eddies.track]
+            eddies.track[:] = id_translate[eddies.track]
         return eddies
 
     @property
@@ -510,7 +509,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
                 list_id.sort()
                 id_translate = arange(list_id.max() + 1)
                 id_translate[list_id] = arange(len(list_id)) + 1
-                new.track = id_translate[new.track]
+                new.track[:] = id_translate[new.track]
         return new
 
     def shape_polygon(self, intern=False):
-- 
2.43.0


From bbfa3322e1ca473f1cf3a6346d48eaf3359ef6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 048/108] fix: do not change the mask of the caller

---
 src/py_eddy_tracker/observations/tracking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index a5f03fb..efa2c08 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -488,7 +488,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
 
         if full_path:
             if reject_virtual:
-                mask *= ~self.virtual.astype("bool")
+                mask = mask * ~self.virtual.astype("bool")
             tracks = unique(self.tracks[mask])
             mask = self.get_mask_from_id(tracks)
         elif remove_incomplete:
-- 
2.43.0


From f9c76690a282d265c75cb3b1ff6ec662778a11d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 049/108] fix: westward selection with a longitude span

---
 src/py_eddy_tracker/observations/tracking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index efa2c08..0b8299e 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -379,7 +379,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
         d_lon = lon[i1] - lon[i0]
         m = d_lon < 0 if west else d_lon > 0
         if delta_lon is not None:
-            m *= delta_lon < d_lon
+            m *= abs(d_lon) > delta_lon
         m = m.repeat(nb)
         return self.extract_with_mask(m)
 
-- 
2.43.0


From e884e9927d8cc7de8e9f5ea81e4b49396cfc89e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 050/108] fix: intersection of two slices in merge_filters

---
 src/py_eddy_tracker/observations/observation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 22fab34..3a1066e 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2005,8 +2005,9 @@ class EddiesObservations(object):
             reject = ones(len(self), dtype="bool")
             reject[filter1] = False
             if isinstance(filter2, slice):
-                reject[filter2] = False
-                return ~reject
+                select = zeros(len(self), dtype="bool")
+                select[filter2] = True
+                return ~reject * select
             # Mask case
             elif filter2.dtype == bool:
                 return ~reject * filter2
-- 
2.43.0


From 3d262eaf02097305decbf590238cb2ae95a2f161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:14 +0000
Subject: [PATCH 051/108] fix: last observations of an empty dataset

---
 src/py_eddy_tracker/observations/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 3a1066e..d77ea81 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2195,7 +2195,7 @@ class EddiesObservations(object):
         .. minigallery:: py_eddy_tracker.EddiesObservations.last_obs
         """
         m = zeros(len(self), dtype="bool")
-        m[-1] = True
+        m[-1:] = True
         m[:-1][self.n[1:] == 0] = True
         return self.extract_with_mask(m)
 
-- 
2.43.0


From 17286809ba9e48281e463d572808a8702d360b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:45 +0000
Subject: [PATCH 052/108] fix: selection by direction in a dataset of one
 observation

---
 src/py_eddy_tracker/observations/tracking.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 0b8299e..0abe6d0 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -17,6 +17,7 @@ from numpy import (
     empty,
     histogram,
     int_,
+    maximum,
     median,
     nan,
     ones,
@@ -375,7 +376,8 @@ class TrackEddiesObservations(GroupEddiesObservations):
         """
         lon = self.longitude
         i0, nb = self.index_from_track, self.nb_obs_by_track
-        i1 = i0 - 1 + nb
+        # missing tracks have no observation
+        i1 = maximum(i0 - 1 + nb, i0)
         d_lon = lon[i1] - lon[i0]
         m = d_lon < 0 if west else d_lon > 0
         if delta_lon is not None:
@@ -396,7 +398,8 @@ class TrackEddiesObservations(GroupEddiesObservations):
     def extract_in_direction(self, direction, value=0):
         nb_obs = self.nb_obs_by_track
         i_start = self.index_from_track
-        i_stop = i_start + nb_obs - 1
+        # missing tracks have no observation
+        i_stop = maximum(i_start + nb_obs - 1, i_start)
         if direction in ("S", "N"):
             d_lat = self.latitude[i_stop] - self.latitude[i_start]
             mask = d_lat < 0 if "S" == direction else d_lat > 0
-- 
2.43.0


From 2a656256a7b0e98ad12bf0b15240b2096b8b6357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 053/108] fix: a track which does not move has no direction

---
 src/py_eddy_tracker/observations/tracking.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 0abe6d0..5d77e9d 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -406,8 +406,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
             mask &= abs(d_lat) > value
         else:
             lon_start, lon_end = self.longitude[i_start], self.longitude[i_stop]
-            lon_end = (lon_end - (lon_start - 180)) % 360 + lon_start - 180
-            d_lon = lon_end - lon_start
+            d_lon = (lon_end - lon_start + 180) % 360 - 180
             mask = d_lon < 0 if "W" == direction else d_lon > 0
             mask &= abs(d_lon) > value
         mask = mask.repeat(nb_obs)
-- 
2.43.0


From 7aff10e31caa780970ed4c11f222ce1557e66b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:06 +0000
Subject: [PATCH 054/108] fix: distance to next observation when some track
 numbers are missing

---
 src/py_eddy_tracker/observations/tracking.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 5d77e9d..c9632d4 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -131,7 +131,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
         cum_d = cumsum_by_track(d, self.tracks)
         m_last = ones(d.shape, dtype="bool")
         m_last[-1] = False
-        m_last[self.index_from_track[1:] - 1] = False
+        m_last[:-1] = self.tracks[1:] == self.tracks[:-1]
         content += f"""
     | {self.nb_tracks} tracks ({
         nb_obs / self.nb_tracks:.2f} obs/tracks, shorter {nb[nb!=0].min()} obs, longer {nb.max()} obs)
@@ -165,7 +165,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
             self.longitude[1:],
             self.latitude[1:],
         )
-        d[self.index_from_track[1:] - 1] = 0
+        d[self.tracks[1:] != self.tracks[:-1]] = 0
         d_ = empty(d.shape[0] + 1, dtype=d.dtype)
         d_[:-1] = d
         d_[-1] = 0
-- 
2.43.0


From 20c47a8a683f407c65c3a3666c871adfdcf35ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:06 +0000
Subject: [PATCH 055/108] fix: add distance to every observation

---
 src/py_eddy_tracker/observations/tracking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index c9632d4..d60e1d9 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -151,7 +151,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
         if "distance_next" in self.fields:
             return self
         new = self.add_fields(("distance_next",))
-        new["distance_next"][:1] = self.distance_to_next()
+        new["distance_next"][:] = self.distance_to_next()
         return new
 
     def distance_to_next(self):
-- 
2.43.0


From 1d3d269f83d2bd885e624919e0de9ea31f724319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:06 +0000
Subject: [PATCH 056/108] fix: loess filter uses first and last observations of
 the dataset

---
 src/py_eddy_tracker/observations/tracking.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index d60e1d9..bd2afde 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -843,24 +843,24 @@ def track_loess_filter(half_window, x, y, track):
         w_sum = 1
         if i != 0:
             i_previous = i - 1
-            dx = x[i] - x[i_previous]
-            while (
-                dx < half_window and i_previous != 0 and cur_track == track[i_previous]
-            ):
+            while i_previous >= 0 and cur_track == track[i_previous]:
+                dx = x[i] - x[i_previous]
+                if dx >= half_window:
+                    break
                 w = (1 - (dx / half_window) ** 3) ** 3
                 y_sum += y[i_previous] * w
                 w_sum += w
                 i_previous -= 1
-                dx = x[i] - x[i_previous]
         if i != last:
             i_next = i + 1
-            dx = x[i_next] - x[i]
-            while dx < half_window and i_next != last and cur_track == track[i_next]:
+            while i_next <= last and cur_track == track[i_next]:
+                dx = x[i_next] - x[i]
+                if dx >= half_window:
+                    break
                 w = (1 - (dx / half_window) ** 3) ** 3
                 y_sum += y[i_next] * w
                 w_sum += w
                 i_next += 1
-                dx = x[i_next] - x[i]
         y_new[i] = y_sum / w_sum
     return y_new
 
-- 
2.43.0


From cc78fe651749b526e913edad896af87856112c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:42 +0000
Subject: [PATCH 057/108] fix: no missing observation between two segments of a
 network

---
 src/py_eddy_tracker/observations/network.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index c3b7178..c98ae9e 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -160,8 +160,13 @@ class NetworkObservations(GroupEddiesObservations):
 
         :param int,float dt: theorical delta time between 2 observations
         """
+        # observations are missing in a segment, not between two segments of a network
         return get_missing_indices(
-            self.time, self.track, dt=dt, flag_untrack=True, indice_untrack=self.NOGROUP
+            self.time,
+            self.segment_track_array,
+            dt=dt,
+            flag_untrack=self.first_is_trash(),
+            indice_untrack=self.segment_track_array[0],
         )
 
     def fix_next_previous_obs(self):
-- 
2.43.0


From 53016f0a7007ca74783a7d71747e942bf4311f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:42 +0000
Subject: [PATCH 058/108] fix: rounding of the number of missing observations

---
 src/py_eddy_tracker/observations/groups.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/groups.py b/src/py_eddy_tracker/observations/groups.py
index 81929e1..e0235f9 100644
--- a/src/py_eddy_tracker/observations/groups.py
+++ b/src/py_eddy_tracker/observations/groups.py
@@ -52,7 +52,8 @@ def get_missing_indices(
 
         diff = t1 - t0
         if diff > dt:
-            nbr_step[i] = int(diff / dt) - 1
+            # tolerance for rounding of sampling under the day
+            nbr_step[i] = int(diff / dt + 1e-6) - 1
 
     indices = zeros(nbr_step.sum(), dtype=int32)
 
-- 
2.43.0


From 476e2c3dd9948e5baf1c48b4a5f982061acd697f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:42 +0000
Subject: [PATCH 059/108] fix: sampling of tracks without the jumps from one
 track to the other

---
 src/py_eddy_tracker/observations/groups.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/groups.py b/src/py_eddy_tracker/observations/groups.py
index e0235f9..7c3ef38 100644
--- a/src/py_eddy_tracker/observations/groups.py
+++ b/src/py_eddy_tracker/observations/groups.py
@@ -278,6 +278,11 @@ class GroupEddiesObservations(EddiesObservations, ABC):
         "Find indexes where observations are missing"
         pass
 
+    @property
+    def group_id(self):
+        """Identifier of the group (track or segment) of each observation"""
+        return self.tracks
+
     def filled_by_interpolation(self, mask):
         """Fill selected values by interpolation
 
@@ -306,7 +311,12 @@ class GroupEddiesObservations(EddiesObservations, ABC):
     def insert_virtual(self):
         """Insert virtual observations on segments where observations are missing"""
 
-        dt_theorical = median(self.time[1:] - self.time[:-1])
+        # Only between observations of a same track or segment
+        group = self.group_id
+        dt = (self.time[1:] - self.time[:-1])[group[1:] == group[:-1]]
+        if dt.size == 0:
+            return self.copy()
+        dt_theorical = median(dt)
         indices = self.get_missing_indices(dt_theorical)
 
         logger.info("%d virtual observation will be added", indices.size)
-- 
2.43.0


From 17d4b64e035f9c9996725975a75f4cb223e8aba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:42 +0000
Subject: [PATCH 060/108] fix: sampling of networks without the jumps from one
 segment to the other

---
 src/py_eddy_tracker/observations/network.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index c98ae9e..f92a4ac 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1141,6 +1141,10 @@ class NetworkObservations(GroupEddiesObservations):
             self._segment_track_array = build_unique_array(self.segment, self.track)
         return self._segment_track_array
 
+    @property
+    def group_id(self):
+        return self.segment_track_array
+
     def birth_event(self):
         """Extract birth events."""
         i_start, _, _ = self.index_segment_track
-- 
2.43.0


From 4088c20921223cae485a7f6963ff07870be830ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:42 +0000
Subject: [PATCH 061/108] fix: virtual observations belong to the track they
 fill

---
 src/py_eddy_tracker/observations/groups.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/py_eddy_tracker/observations/groups.py b/src/py_eddy_tracker/observations/groups.py
index 7c3ef38..0e6bef0 100644
--- a/src/py_eddy_tracker/observations/groups.py
+++ b/src/py_eddy_tracker/observations/groups.py
@@ -333,9 +333,15 @@ class GroupEddiesObservations(EddiesObservations, ABC):
 
         new_TEO = self.new_like(self, size_obs_corrected)
         new_TEO.obs[~mask] = self.obs
+        # virtual observations are in the track of the previous observation
+        i_previous = (~mask).cumsum() - 1
+        new_TEO.track[:] = self.track[i_previous]
         new_TEO.filled_by_interpolation(mask)
         new_TEO.virtual[:] = mask
         new_TEO.fix_next_previous_obs()
+        # observations which were already virtual
+        new_TEO.virtual[~mask] = self.virtual
+        new_TEO.sign_type = self.sign_type
         return new_TEO
 
     def keep_tracks_by_date(self, date, nb_days):
-- 
2.43.0


From dd9ff077ba87f19404fe93e99dcdf78f5acdce24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 062/108] fix: links of networks follow the insertion of
 virtual observations

---
 src/py_eddy_tracker/observations/network.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index f92a4ac..5b2d7a9 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -174,6 +174,11 @@ class NetworkObservations(GroupEddiesObservations):
         previous obs.
         """
 
+        # Links are still in indices of the dataset without virtual observations
+        real = self.virtual == 0
+        translate = concatenate((where(real)[0], (-1,)))
+        for links in (self.next_obs, self.previous_obs):
+            links[real] = translate[links[real]]
         fix_next_previous_obs(self.next_obs, self.previous_obs, self.virtual)
 
     @property
-- 
2.43.0


From 07eacab70ad582cc5cd7dd6b65653d1a47498ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 063/108] fix: number of observations in tracks with virtual
 observations

---
 src/py_eddy_tracker/observations/tracking.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index bd2afde..ad26249 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -99,8 +99,9 @@ class TrackEddiesObservations(GroupEddiesObservations):
         """Function used after 'insert_virtual', to correct next_obs and
         previous obs.
         """
-
-        pass
+        # No link in tracks, only number of observation in the track
+        i0 = self.index_from_track[self.track]
+        self.n[:] = self.n[i0] + arange(len(self)) - i0
 
     @property
     def nb_tracks(self):
-- 
2.43.0


From 223b2e41770a4fc79b0631fc380e12ef6fa07447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 064/108] fix: dates are floats in close_network

---
 src/py_eddy_tracker/observations/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 5b2d7a9..295db6a 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -691,7 +691,7 @@ class NetworkObservations(GroupEddiesObservations):
         """
         p0, p1 = self.period
         indexs = list()
-        for i_self, i_other, t0, t1 in self.align_on(other, bins=range(p0, p1 + 2)):
+        for i_self, i_other, t0, t1 in self.align_on(other, bins=arange(p0, p1 + 2)):
             i, j, s = self.match(other, i_self=i_self, i_other=i_other, **kwargs)
             indexs.append(other.re_reference_index(j, i_other))
         indexs = concatenate(indexs)
-- 
2.43.0


From adf27982b737fc76ed81a108bf0c3c389c5ab7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 065/108] fix: no common observation in close_tracks

---
 src/py_eddy_tracker/observations/tracking.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index ad26249..63f7bfb 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -569,8 +569,8 @@ class TrackEddiesObservations(GroupEddiesObservations):
         p0, p1 = self.period
         p0_other, p1_other = other.period
         if p1_other < p0 or p1 < p0_other:
-            return other.__class__.new_like(other, 0)
-        indexs = list()
+            return other.extract_with_mask(zeros(len(other), dtype=bool_))
+        indexs = [empty(0, dtype=int_)]
         for i_self, i_other, t0, t1 in self.align_on(other, bins=arange(p0, p1 + 2)):
             i, j, s = self.match(other, i_self=i_self, i_other=i_other, **kwargs)
             indexs.append(other.re_reference_index(j, i_other))
-- 
2.43.0


From b92b95da4e01cf5c4d3a5190fa40e7c0c90366ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 066/108] fix: no common observation in close_network

---
 src/py_eddy_tracker/observations/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 295db6a..3e439cc 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -690,7 +690,7 @@ class NetworkObservations(GroupEddiesObservations):
             It could be a costly operation for huge dataset
         """
         p0, p1 = self.period
-        indexs = list()
+        indexs = [empty(0, dtype="i8")]
         for i_self, i_other, t0, t1 in self.align_on(other, bins=arange(p0, p1 + 2)):
             i, j, s = self.match(other, i_self=i_self, i_other=i_other, **kwargs)
             indexs.append(other.re_reference_index(j, i_other))
-- 
2.43.0


From 620f0c7f80216fe206e52ec794f937da3d893b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 067/108] fix: sums by bins overflow or raise with small
 integer or half float variables

---
 src/py_eddy_tracker/observations/observation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index d77ea81..790aa95 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -19,6 +19,7 @@ from numpy import (
     arange,
     array,
     array_equal,
+    asarray,
     ceil,
     concatenate,
     cos,
@@ -300,7 +301,8 @@ class EddiesObservations(object):
         if nb:
             v = hist_numba(x, bins=bins)[0]
         else:
-            v = histogram(x, bins=bins, weights=self.parse_varname(varname))[0]
+            w = asarray(self.parse_varname(varname), dtype="f8")
+            v = histogram(x, bins=bins, weights=w)[0]
         if percent:
             v = v.astype("f4") / v.sum() * 100
         elif mean:
@@ -2095,7 +2097,7 @@ class EddiesObservations(object):
         if method == "mean":
             y_v = self.parse_varname(yname)
             y_v = y_v[mask]
-            y_, _ = histogram(v, bins=bins, weights=y_v)
+            y_, _ = histogram(v, bins=bins, weights=asarray(y_v, dtype="f8"))
             with errstate(divide="ignore", invalid="ignore"):
                 y = y_ / y
         return x, y
-- 
2.43.0


From 1b268ed18bb22ec9a8bdab4bbc9353df9669b9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 068/108] fix: histogram of half float variables

---
 src/py_eddy_tracker/generic.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index cf768a7..6fbd007 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -93,9 +93,14 @@ def build_index(groups):
 
 
 @njit(cache=True)
+def _hist_numba(x, bins):
+    return histogram(x, bins)
+
+
 def hist_numba(x, bins):
     """Call numba histogram to speed up."""
-    return histogram(x, bins)
+    # numba doesn't manage half float
+    return _hist_numba(x.astype("f4") if x.dtype == "f2" else x, bins)
 
 
 @njit(cache=True, fastmath=True, parallel=False)
-- 
2.43.0


From cc01e71800f258f1b27cfa6e47729bea70f4ba9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 069/108] fix: percentile of a box was written in the next one

---
 src/py_eddy_tracker/observations/observation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 790aa95..6cd7aee 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2578,13 +2578,16 @@ def grid_box_stat(x_c, y_c, grid, mask, x, y, value, circular=False, method=50):
         # group change
         if i_ != i0 or j_ != j0:
             # apply method and store result
-            grid[i_, j_] = percentile(values, method)
-            mask[i_, j_] = False
+            grid[i0, j0] = percentile(values, method)
+            mask[i0, j0] = False
             # start new group
             i0, j0 = i_, j_
             # reset list
             values.clear()
         values.append(value[k])
+    # last group
+    grid[i0, j0] = percentile(values, method)
+    mask[i0, j0] = False
 
 
 @njit(cache=True)
-- 
2.43.0


From 7cfca20326d05d90339ba88eb961b6d2c7ec31ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 070/108] fix: grid_box_stat read and write out of its arrays

---
 src/py_eddy_tracker/observations/observation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 6cd7aee..a5fd3e7 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2565,10 +2565,12 @@ def grid_box_stat(x_c, y_c, grid, mask, x, y, value, circular=False, method=50):
             raise Exception("x indices underflow")
         if (i >= nb_x).any():
             raise Exception("x indices overflow")
-        if (j < 0).any():
-            raise Exception("y indices underflow")
-        if (j >= nb_y).any():
-            raise Exception("y indices overflow")
+    if (j < 0).any():
+        raise Exception("y indices underflow")
+    if (j >= nb_y).any():
+        raise Exception("y indices overflow")
+    if x.size == 0:
+        return
     abs_i = j * nb_x + i
     k_sort = abs_i.argsort()
     i0, j0 = i[k_sort[0]], j[k_sort[0]]
-- 
2.43.0


From 9f25f8282db88963de5a1c8d8c500ef4cdd2cc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 071/108] fix: grid_stat of a masked array without masked value

---
 src/py_eddy_tracker/observations/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index a5fd3e7..fe14a70 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2365,7 +2365,7 @@ class EddiesObservations(object):
         x, y = (self.longitude - x0) % 360 + x0, self.latitude
         data = self[varname] if data is None else data
         if hasattr(data, "mask"):
-            m = ~data.mask
+            m = ~ma.getmaskarray(data)
             sum_obs = histogram2d(x[m], y[m], (x_bins, y_bins), weights=data[m])[0]
             nb_obs = histogram2d(x[m], y[m], (x_bins, y_bins))[0]
         else:
-- 
2.43.0


From f700450a1a7aa425e7c9db41c763b0805261a514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:20 +0000
Subject: [PATCH 072/108] fix: grid_box_stat raises with masked arrays or half
 float variables

---
 src/py_eddy_tracker/observations/observation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index fe14a70..e5f1be2 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2322,7 +2322,10 @@ class EddiesObservations(object):
             filter = self.merge_filters(~data.mask, self.merge_filters(filter))
         else:
             filter = self.merge_filters(filter)
-        x, y, data = x[filter], y[filter], data[filter]
+        x, y, data = x[filter], y[filter], ma.getdata(data)[filter]
+        if data.dtype == "f2":
+            # numba doesn't manage half float
+            data = data.astype("f4")
 
         from ..dataset.grid import RegularGridDataset
 
-- 
2.43.0


From e65dda793c5e3d1887dbd5c030631a7ff450cf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:20 +0000
Subject: [PATCH 073/108] fix: bins_stat gives the count when std is asked

---
 src/py_eddy_tracker/observations/observation.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index e5f1be2..36b935a 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2094,12 +2094,18 @@ class EddiesObservations(object):
             bins = arange(v.min(), v.max() + 2)
         y, x = hist_numba(v, bins=bins)
         x = (x[1:] + x[:-1]) / 2
-        if method == "mean":
-            y_v = self.parse_varname(yname)
-            y_v = y_v[mask]
-            y_, _ = histogram(v, bins=bins, weights=asarray(y_v, dtype="f8"))
+        if method in ("mean", "std"):
+            y_v = asarray(self.parse_varname(yname)[mask], dtype="f8")
+            if method == "std" and y_v.size:
+                # to keep precision in the difference of the squares
+                y_v = y_v - y_v.mean()
+            y_, _ = histogram(v, bins=bins, weights=y_v)
             with errstate(divide="ignore", invalid="ignore"):
-                y = y_ / y
+                if method == "std":
+                    y2, _ = histogram(v, bins=bins, weights=y_v**2)
+                    y = (y2 / y - (y_ / y) ** 2).clip(0) ** 0.5
+                else:
+                    y = y_ / y
         return x, y
 
     def format_label(self, label):
-- 
2.43.0


From 0ff9610a15966947ea1a7985fb739ec33d13c713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 074/108] fix: targets of particles compared with truncated
 percentages

---
 src/py_eddy_tracker/observations/groups.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/py_eddy_tracker/observations/groups.py b/src/py_eddy_tracker/observations/groups.py
index 0e6bef0..bb3e720 100644
--- a/src/py_eddy_tracker/observations/groups.py
+++ b/src/py_eddy_tracker/observations/groups.py
@@ -241,6 +241,11 @@ def get_matrix(i_start, i_end, translate_start, translate_end, i_target, pct):
     # Number of particles in each origin observation
     ref = zeros(nb_start, dtype=nb_types.int32)
     # For each particle
+    # Percents without truncation, pct could store integers
+    pct_full = zeros((nb_start, 2))
+    for i in range(nb_start):
+        for k in range(2):
+            pct_full[i, k] = pct[translate_start[i], k]
     for i in range(i_start.size):
         i_end_ = i_end[i]
         i_start_ = i_start[i]
@@ -256,15 +261,16 @@ def get_matrix(i_start, i_end, translate_start, translate_end, i_target, pct):
                 pct_ = pct_ / ref[i] * 100.0
                 # Get indices in full dataset
                 i_, j_ = translate_start[i], translate_end[j]
-                pct_0 = pct[i_, 0]
+                pct_0 = pct_full[i, 0]
                 if pct_ > pct_0:
-                    pct[i_, 1] = pct_0
-                    pct[i_, 0] = pct_
+                    pct_full[i, 1] = pct_0
+                    pct_full[i, 0] = pct_
                     i_target[i_, 1] = i_target[i_, 0]
                     i_target[i_, 0] = j_
-                elif pct_ > pct[i_, 1]:
-                    pct[i_, 1] = pct_
+                elif pct_ > pct_full[i, 1]:
+                    pct_full[i, 1] = pct_
                     i_target[i_, 1] = j_
+                pct[i_, 0], pct[i_, 1] = pct_full[i, 0], pct_full[i, 1]
     return i_target, pct
 
 
-- 
2.43.0


From 2115bcfd63682eb486dc6b6fed33dbf778d22af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 075/108] fix: coherence in the past was computed with a
 forward advection

---
 src/py_eddy_tracker/observations/groups.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/observations/groups.py b/src/py_eddy_tracker/observations/groups.py
index bb3e720..19f1ba7 100644
--- a/src/py_eddy_tracker/observations/groups.py
+++ b/src/py_eddy_tracker/observations/groups.py
@@ -114,6 +114,8 @@ def particle_candidate_step(
     x, y, i_start = create_meshed_particles(*contours_start, space_step)
     # Advect particles
     kw = dict(nb_step=day_fraction, time_step=86400 / day_fraction)
+    # Particles go to the date of the contours_end
+    kwargs.setdefault("backward", dt < 0)
     p = c.advect(x, y, t_init=t_start, **kwargs, **kw)
     for _ in range(abs(dt)):
         _, x, y = p.__next__()
-- 
2.43.0


From a5ba95ddfa8653ec90ae98a5b23a742517dfda75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 076/108] fix: last date was missing in
 particle_candidate_atlas

---
 src/py_eddy_tracker/observations/groups.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/groups.py b/src/py_eddy_tracker/observations/groups.py
index 19f1ba7..11c9e5f 100644
--- a/src/py_eddy_tracker/observations/groups.py
+++ b/src/py_eddy_tracker/observations/groups.py
@@ -407,7 +407,10 @@ class GroupEddiesObservations(EddiesObservations, ABC):
         shape = (len(self), 2)
         i_target, pct = full(shape, -1, dtype="i4"), zeros(shape, dtype="i1")
         # Backward or forward
-        times = arange(t_start, t_end - dt) if dt > 0 else arange(t_start - dt, t_end)
+        if dt > 0:
+            times = arange(t_start, t_end - dt + 1)
+        else:
+            times = arange(t_start - dt, t_end + 1)
 
         if callback_coherence is None:
             callback_coherence = self.fill_coherence
-- 
2.43.0


From f65ff35c36eda183451c45dce552dbfd1f234e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 077/108] fix: coherence of segments raises if there is only
 one date to compute

---
 src/py_eddy_tracker/observations/network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 3e439cc..38a1390 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1818,7 +1818,7 @@ class NetworkObservations(GroupEddiesObservations):
             )
             logger.info(
                 (
-                    f"coherence {_t} / {range_end-1} ({(_t - range_start) / (range_end - range_start-1):.1%})"
+                    f"coherence {_t} / {range_end-1} ({(_t - range_start + 1) / (range_end - range_start):.1%})"
                     f" : {time.time()-_timestamp:5.2f}s"
                 )
             )
@@ -1895,7 +1895,7 @@ class NetworkObservations(GroupEddiesObservations):
             )
             logger.info(
                 (
-                    f"coherence {_t} / {range_end-1} ({(_t - range_start) / (range_end - range_start-1):.1%})"
+                    f"coherence {_t} / {range_end-1} ({(_t - range_start + 1) / (range_end - range_start):.1%})"
                     f" : {time.time()-_timestamp:5.2f}s"
                 )
             )
-- 
2.43.0


From 233ed9fbac47ddec02c8abbb843be1b96ea2c500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:36 +0000
Subject: [PATCH 078/108] fix: analysis_coherence raises with remove_dead_end

---
 src/py_eddy_tracker/observations/network.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 38a1390..9d4180a 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1706,9 +1706,8 @@ class NetworkObservations(GroupEddiesObservations):
             self.correct_close_events(nb_days_max=correct_close_events)
 
         if remove_dead_end > 0:
-            network_clean = self.remove_dead_end(nobs=0, ndays=remove_dead_end)
-        else:
-            network_clean = self
+            self.remove_dead_end(nobs=0, ndays=remove_dead_end)
+        network_clean = self
 
         network_clean.numbering_segment()
 
-- 
2.43.0


From 9d6676ac976914d1a2fefad111c1d9a8a220462f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:36 +0000
Subject: [PATCH 079/108] fix: EddyNetworkSubSetter raises with remove_dead_end

---
 src/py_eddy_tracker/appli/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/appli/network.py b/src/py_eddy_tracker/appli/network.py
index b8c2da5..6d5ba9d 100644
--- a/src/py_eddy_tracker/appli/network.py
+++ b/src/py_eddy_tracker/appli/network.py
@@ -146,7 +146,7 @@ def subset_network():
     if args.length is not None:
         n = n.longer_than(*args.length)
     if args.remove_dead_end is not None:
-        n = n.remove_dead_end(*args.remove_dead_end)
+        n.remove_dead_end(*args.remove_dead_end)
     if args.period is not None:
         n = n.extract_with_period(args.period)
     n.write_file(filename=args.out)
-- 
2.43.0


From 36ac7583bbe456c12c5f8ed42e598b51de922152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:39 +0000
Subject: [PATCH 080/108] fix: concatenate tracks with a dataset without
 observation

---
 src/py_eddy_tracker/observations/tracking.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 63f7bfb..e030997 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -323,7 +323,8 @@ class TrackEddiesObservations(GroupEddiesObservations):
             sl = slice(i_start, i_start + nb_obs)
             new_track = obs.track + last_track
             eddies.track[sl] = new_track
-            last_track = new_track.max() + 1
+            if nb_obs:
+                last_track = new_track.max() + 1
             i_start += nb_obs
         return eddies
 
-- 
2.43.0


From 747138190c16a1a9789bc65f743a91ebf96939db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:52 +0000
Subject: [PATCH 081/108] fix: merge in a dataset without observation

---
 src/py_eddy_tracker/observations/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 36b935a..4992054 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -559,7 +559,7 @@ class EddiesObservations(object):
             eddies.obs[key][:nb_obs_self] = self.obs[key][:]
             if key in other_keys:
                 eddies.obs[key][nb_obs_self:] = other.obs[key][:]
-        if "track" in other_keys and "track" in self_keys:
+        if "track" in other_keys and "track" in self_keys and nb_obs_self:
             last_track = eddies.track[nb_obs_self - 1] + 1
             eddies.track[nb_obs_self:] += last_track
         eddies.sign_type = self.sign_type
-- 
2.43.0


From 04b9dddbd7981aed4a84199b7095577a6a4e2084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:28 +0000
Subject: [PATCH 082/108] fix: insertion in an empty dataset shares memory,
 period is not updated after an insertion

---
 src/py_eddy_tracker/observations/observation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 4992054..d7ba61b 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -676,10 +676,12 @@ class EddiesObservations(object):
         insert_size = len(other)
         self_size = len(self)
         new_size = self_size + insert_size
-        if self_size == 0:
-            self.observations = other.obs
+        if insert_size == 0:
             return self
-        elif insert_size == 0:
+        # period will be no longer valid
+        self.period_ = None
+        if self_size == 0:
+            self.observations = other.obs.copy()
             return self
         if index < 0:
             index = self_size + index + 1
-- 
2.43.0


From 27849207da158082fbe2b2b39fe1f2fddafe605c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:28 +0000
Subject: [PATCH 083/108] fix: index of tracks is not updated after an
 insertion

---
 src/py_eddy_tracker/observations/tracking.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index e030997..8417d0b 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -69,6 +69,13 @@ class TrackEddiesObservations(GroupEddiesObservations):
         self.__obs_by_track = None
         self.__nb_track = None
 
+    def insert_observations(self, other, index):
+        # Index of tracks will be no longer valid
+        self.__first_index_of_track = None
+        self.__obs_by_track = None
+        self.__nb_track = None
+        return super().insert_observations(other, index)
+
     def track_slice(self, track):
         i0 = self.index_from_track[track]
         return slice(i0, i0 + self.nb_obs_by_track[track])
-- 
2.43.0


From 8e52304e8e87bb28c98c4370940ad3aab71de7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:28 +0000
Subject: [PATCH 084/108] fix: fields could not be added or compared after
 remove_fields

---
 src/py_eddy_tracker/observations/observation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index d7ba61b..e63a34a 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -425,10 +425,11 @@ class EddiesObservations(object):
         Copy with fields listed remove
         """
         nb_obs = len(self)
-        fields = set(fields)
-        only_variables = set(self.fields) - fields
-        track_extra_variables = set(self.track_extra_variables) - fields
-        array_variables = set(self.array_variables) - fields
+        only_variables = [i for i in self.fields if i not in fields]
+        track_extra_variables = [
+            i for i in self.track_extra_variables if i not in fields
+        ]
+        array_variables = [i for i in self.array_variables if i not in fields]
         new = self.__class__(
             size=nb_obs,
             track_extra_variables=track_extra_variables,
-- 
2.43.0


From 4700de0d6e9ac16169cd47d85475942c9330650a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:28 +0000
Subject: [PATCH 085/108] fix: observations with different fields could be
 mixed

---
 src/py_eddy_tracker/observations/observation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index e63a34a..867e448 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -529,6 +529,8 @@ class EddiesObservations(object):
         test = self.track_extra_variables == other.track_extra_variables
         test *= self.track_array_variables == other.track_array_variables
         test *= self.array_variables == other.array_variables
+        # Observations are copied by position of fields
+        test *= self.obs.dtype == other.obs.dtype
         return test
 
     @classmethod
-- 
2.43.0


From 348198ad48e9dd197113dc04a9b390c96a9f28e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:13 +0000
Subject: [PATCH 086/108] fix: empty dataset loses the type of eddies

---
 src/py_eddy_tracker/observations/observation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 867e448..53f958e 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2484,7 +2484,9 @@ class EddiesObservations(object):
         return create_meshed_particles(self[xname], self[yname], step)
 
     def empty_dataset(self):
-        return self.new_like(self, 0)
+        eddies = self.new_like(self, 0)
+        eddies.sign_type = self.sign_type
+        return eddies
 
 
 @njit(cache=True)
-- 
2.43.0


From 32354e6262714aeaafbcd3c376b68d6dcb785606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:17 +0000
Subject: [PATCH 087/108] fix: size of networks which do not exist is the size
 of another network

---
 src/py_eddy_tracker/observations/network.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 9d4180a..748f701 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -12,6 +12,7 @@ from numba.typed import List
 from numpy import (
     arange,
     array,
+    asarray,
     bincount,
     bool_,
     concatenate,
@@ -213,8 +214,15 @@ class NetworkObservations(GroupEddiesObservations):
         if id_networks is None:
             return i1 - i0
         else:
-            i = id_networks - ref
-            return i1[i] - i0[i]
+            return self._size_from_index(i0, i1, ref, id_networks)
+
+    @staticmethod
+    def _size_from_index(i0, i1, ref, ids):
+        """Size for ids, 0 if the id is unknown"""
+        i = asarray(ids, dtype="i8") - ref
+        known = (i >= 0) * (i < i0.size)
+        i = where(known, i, 0)
+        return where(known, i1[i] - i0[i], 0)[()]
 
     def network_size(self, id_networks=None):
         """
@@ -225,8 +233,7 @@ class NetworkObservations(GroupEddiesObservations):
         if id_networks is None:
             return self.index_network[1] - self.index_network[0]
         else:
-            i = id_networks - self.index_network[2]
-            return self.index_network[1][i] - self.index_network[0][i]
+            return self._size_from_index(*self.index_network, id_networks)
 
     def unique_segment_to_id(self, id_unique):
         """Return id network and id segment for a unique id
-- 
2.43.0


From 2f4be734bda8de99856ec5cbb9a2175e24315bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:17 +0000
Subject: [PATCH 088/108] fix: EddyNetworkSubSetter compares days with packed
 time

---
 src/py_eddy_tracker/appli/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/appli/network.py b/src/py_eddy_tracker/appli/network.py
index 6d5ba9d..77ace6d 100644
--- a/src/py_eddy_tracker/appli/network.py
+++ b/src/py_eddy_tracker/appli/network.py
@@ -140,7 +140,7 @@ def subset_network():
         "if 0 it is not used",
     )
     args = parser.parse_args()
-    n = NetworkObservations.load_file(args.input, raw_data=True)
+    n = NetworkObservations.load_file(args.input)
     if args.ids is not None:
         n = n.networks(args.ids)
     if args.length is not None:
-- 
2.43.0


From 22c795c93320e3c0216430572d23591f4bc71634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:17 +0000
Subject: [PATCH 089/108] fix: EddyNetworkSubSetter ignores --remove_trash

---
 src/py_eddy_tracker/appli/network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/appli/network.py b/src/py_eddy_tracker/appli/network.py
index 77ace6d..523e354 100644
--- a/src/py_eddy_tracker/appli/network.py
+++ b/src/py_eddy_tracker/appli/network.py
@@ -143,6 +143,8 @@ def subset_network():
     n = NetworkObservations.load_file(args.input)
     if args.ids is not None:
         n = n.networks(args.ids)
+    if args.remove_trash:
+        n = n.remove_trash()
     if args.length is not None:
         n = n.longer_than(*args.length)
     if args.remove_dead_end is not None:
-- 
2.43.0


From 8793c1d37c963198f610b2e18ffbaefcf7414eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:50 +0000
Subject: [PATCH 090/108] fix: copy of a grid which is not yet loaded was
 written with x and y exchanged

---
 src/py_eddy_tracker/dataset/grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 35865b2..0329f85 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -498,6 +498,8 @@ class GridDataset(object):
         :param grid_out:
 
         """
+        # Description is complete only when grid is loaded
+        data = self.grid(grid_in)
         h_dict = self.variables_description[grid_in]
         self.variables_description[grid_out] = dict(
             infos=h_dict["infos"].copy(),
@@ -505,7 +507,7 @@ class GridDataset(object):
             args=tuple((grid_out, *h_dict["args"][1:])),
             kwargs=h_dict["kwargs"].copy(),
         )
-        self.vars[grid_out] = self.grid(grid_in).copy()
+        self.vars[grid_out] = data.copy()
 
     def add_grid(self, varname, grid):
         """
-- 
2.43.0


From 68e30f0e71289d66e1454310c47c2dbece5f8a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:50 +0000
Subject: [PATCH 091/108] fix: regridded variable was written with the name and
 the dimensions of the other grid

---
 src/py_eddy_tracker/dataset/grid.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 0329f85..fe65161 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -1995,9 +1995,15 @@ class RegularGridDataset(GridDataset):
         v_interp = ma.array(v_interp, mask=isnan(v_interp))
         # and add it to self
         self.add_grid(new_name, v_interp)
-        self.variables_description[new_name] = other.variables_description[grid_name]
-        # self.variables_description[new_name]['infos'] = False
-        # self.variables_description[new_name]['kwargs']['dimensions'] = ...
+        description = other.variables_description[grid_name]
+        self.variables_description[new_name] = dict(
+            infos=dict(),
+            attrs=description["attrs"].copy(),
+            args=(new_name, *description["args"][1:]),
+            kwargs=dict(
+                description["kwargs"], dimensions=(*self.x_dim, *self.y_dim)
+            ),
+        )
 
     def interp(self, grid_name, lons, lats, method="bilinear"):
         """
-- 
2.43.0


From 6401ef4b0bdaa51bd2e2278bca21a0ab9974f4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:50 +0000
Subject: [PATCH 092/108] fix: grid_tiles ignored the indexes of the dataset

---
 src/py_eddy_tracker/dataset/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index fe65161..06907a7 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -585,7 +585,7 @@ class GridDataset(object):
             sl = [
                 (slice_x if dim in list(self.x_dim) else slice_y)
                 if dim in coordinates_dims
-                else 0
+                else self.indexs.get(dim, 0)
                 for dim in dims
             ]
             data = h.variables[varname][sl]
-- 
2.43.0


From 59f273b7dc5c25974dcfd4445151e69b9b697196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:50 +0000
Subject: [PATCH 093/108] fix: spectrum of the reference ignored the scaling

---
 src/py_eddy_tracker/dataset/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 06907a7..a945fa2 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -1672,7 +1672,7 @@ class RegularGridDataset(GridDataset):
             if ref_grid_name is not None:
                 grid_name = ref_grid_name
             ref_lon_content, ref_lat_content = ref.spectrum_lonlat(
-                grid_name, area, **kwargs
+                grid_name, area, scaling=scaling, **kwargs
             )
             return (
                 (lon_content[0], lon_content[1] / ref_lon_content[1]),
-- 
2.43.0


From ecfe260c96b7636f68119ef4aade67a65c14e110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:50 +0000
Subject: [PATCH 094/108] fix: spectrum used the values stored under the mask

---
 src/py_eddy_tracker/dataset/grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index a945fa2..0fff0ed 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -1621,6 +1621,8 @@ class RegularGridDataset(GridDataset):
         x1, y1 = self.nearest_grd_indice(area["urcrnrlon"], area["urcrnrlat"])
 
         data = self.grid(grid_name)[x0:x1, y0:y1]
+        # Lines with masked values must be invalid
+        data = ma.filled(data.astype("f8"), nan)
 
         # Lat spectrum
         pws = list()
-- 
2.43.0


From a9cdddfdd67f535dff47ac4d04de1bca5e91d86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:31 +0000
Subject: [PATCH 095/108] fix: percentile around event wrote out of its buffer
 with more values than the window

---
 src/py_eddy_tracker/observations/network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 748f701..a29877e 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -2167,6 +2167,9 @@ def get_percentile_on_following_obs(
         # Iter on primary & secondary
         for index, percent in zip(indexs[i], percents[i]):
             if index != -1 and segment[index] == segment_target:
+                if j == percent_target.size:
+                    # Several values by unit of time
+                    percent_target = concatenate((percent_target, percent_target))
                 percent_target[j] = percent
                 j += 1
         i = follow_obs[i]
-- 
2.43.0


From aa90573ee02eaf1ed72b02d9115aa93634220989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:49 +0000
Subject: [PATCH 096/108] fix: extract_light_with_mask failed with extra
 variables which are not those of networks

---
 src/py_eddy_tracker/observations/network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index a29877e..82677b7 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1610,7 +1610,7 @@ class NetworkObservations(GroupEddiesObservations):
             track_extra_variables=track_extra_variables,
             track_array_variables=self.track_array_variables,
             array_variables=self.array_variables,
-            only_variables=variables,
+            only_variables=variables + list(track_extra_variables),
             raw_data=self.raw_data,
         )
         new.sign_type = self.sign_type
@@ -1621,7 +1621,7 @@ class NetworkObservations(GroupEddiesObservations):
                 f"{nb_obs} observations will be extracted ({nb_obs / self.shape[0]:.3%})"
             )
 
-        for field in variables + track_extra_variables:
+        for field in variables + list(track_extra_variables):
             logger.debug("Copy of field %s ...", field)
             new.obs[field] = self.obs[field][mask]
 
-- 
2.43.0


From a21de97c30229f21530bc0767eda465d777191b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:04 +0000
Subject: [PATCH 097/108] fix: timeline of events failed with an array as field
 and method all

---
 src/py_eddy_tracker/observations/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 82677b7..6f5ad52 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -915,7 +915,7 @@ class NetworkObservations(GroupEddiesObservations):
             if i_p != -1:
                 seg_previous = self.segment[i_p]
                 if field is not None and method == "all":
-                    y0 = self[field][i.start] * factor
+                    y0 = self.parse_varname(field)[i.start] * factor
                 y1 = (
                     seg_previous
                     if field is None
-- 
2.43.0


From 954624d3032888bdf64e27b23bd01911b1bb2075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:04 +0000
Subject: [PATCH 098/108] fix: event_map mixed segments which have the same
 number in several networks

---
 src/py_eddy_tracker/observations/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 6f5ad52..e14e167 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1059,7 +1059,7 @@ class NetworkObservations(GroupEddiesObservations):
         symbol_kw.update(kwargs)
         symbol_kw_split = symbol_kw.copy()
         symbol_kw_split["markersize"] += 4
-        for i, b0, b1 in self.iter_on("segment"):
+        for i, b0, b1 in self.iter_on(self.segment_track_array):
             nb = i.stop - i.start
             if nb == 0:
                 continue
-- 
2.43.0


From 58bbb007376c2158e7478b548c7a0e12bbddc536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:15 +0000
Subject: [PATCH 099/108] fix: global grids whose first bound is a rounding
 under a multiple of 360 were not circular

---
 src/py_eddy_tracker/dataset/grid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 0fff0ed..ad24c44 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -1339,9 +1339,9 @@ class RegularGridDataset(GridDataset):
     def is_circular(self):
         """Check if the grid is circular"""
         if self._is_circular is None:
-            self._is_circular = (
-                abs((self.x_bounds[0] % 360) - (self.x_bounds[-1] % 360)) < 0.0001
-            )
+            # Rounding of bounds could be on both sides of a multiple of 360
+            gap = self.x_bounds[-1] - self.x_bounds[0]
+            self._is_circular = abs((gap + 180) % 360 - 180) < 0.0001
         return self._is_circular
 
     @staticmethod
-- 
2.43.0


From 99be1b0b5d5e5dc75098a3bc46b73847cfa21aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:59 +0000
Subject: [PATCH 100/108] fix: interpolation, advection and gradients on
 float32 axes used a rounded step and missed global grids

---
 src/py_eddy_tracker/dataset/grid.py | 22 ++++++++++--------
 src/py_eddy_tracker/generic.py      | 36 ++++++++++++++++++++++++-----
 2 files changed, 42 insertions(+), 16 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index ad24c44..759501c 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -53,6 +53,8 @@ from .. import VAR_DESCR
 from ..data import get_demo_path
 from ..eddy_feature import Amplitude, Contours
 from ..generic import (
+    axis_is_circular,
+    axis_step,
     bbox_indice_regular,
     coordinates_to_local,
     distance,
@@ -2127,8 +2129,8 @@ class RegularGridDataset(GridDataset):
 def advect_rk4(x_g, y_g, u_g, v_g, m_g, x, y, m, nb_step):
     # Grid coordinates
     x_ref, y_ref = x_g[0], y_g[0]
-    x_step, y_step = x_g[1] - x_ref, y_g[1] - y_ref
-    is_circular = abs(x_g[-1] % 360 - (x_g[0] - x_step) % 360) < 1e-5
+    x_step, y_step = axis_step(x_g), axis_step(y_g)
+    is_circular = axis_is_circular(x_g, x_step)
     nb_x_ = x_g.size
     nb_x = nb_x_ if is_circular else 0
     # cache
@@ -2230,8 +2232,8 @@ def advect_rk4(x_g, y_g, u_g, v_g, m_g, x, y, m, nb_step):
 def advect(x_g, y_g, u_g, v_g, m_g, x, y, m, nb_step):
     # Grid coordinates
     x_ref, y_ref = x_g[0], y_g[0]
-    x_step, y_step = x_g[1] - x_ref, y_g[1] - y_ref
-    is_circular = abs(x_g[-1] % 360 - (x_g[0] - x_step) % 360) < 1e-5
+    x_step, y_step = axis_step(x_g), axis_step(y_g)
+    is_circular = axis_is_circular(x_g, x_step)
     nb_x_ = x_g.size
     nb_x = nb_x_ if is_circular else 0
     # Indexes which should be never exist
@@ -2662,8 +2664,8 @@ class GridCollection:
 def advect_t(x_g, y_g, u_g0, v_g0, m_g0, u_g1, v_g1, m_g1, x, y, m, weigths, half_w=0):
     # Grid coordinates
     x_ref, y_ref = x_g[0], y_g[0]
-    x_step, y_step = x_g[1] - x_ref, y_g[1] - y_ref
-    is_circular = abs(x_g[-1] % 360 - (x_g[0] - x_step) % 360) < 1e-5
+    x_step, y_step = axis_step(x_g), axis_step(y_g)
+    is_circular = axis_is_circular(x_g, x_step)
     nb_x_ = x_g.size
     nb_x = nb_x_ if is_circular else 0
     # Indexes that should never exist
@@ -2793,8 +2795,8 @@ def advect_t_rk4(
 ):
     # Grid coordinates
     x_ref, y_ref = x_g[0], y_g[0]
-    x_step, y_step = x_g[1] - x_ref, y_g[1] - y_ref
-    is_circular = abs(x_g[-1] % 360 - (x_g[0] - x_step) % 360) < 1e-5
+    x_step, y_step = axis_step(x_g), axis_step(y_g)
+    is_circular = axis_is_circular(x_g, x_step)
     nb_x_ = x_g.size
     nb_x = nb_x_ if is_circular else 0
     # cache
@@ -2958,12 +2960,12 @@ def compute_stencil(x, y, h, m, earth_radius, vertical=False, stencil_halfwidth=
     m_out = empty(shape, dtype=numba_types.bool_)
     grad = empty(shape, dtype=h.dtype)
     # Distance step in degrees
-    d_step = x[1] - x[0]
+    d_step = axis_step(x)
     if vertical:
         is_circular = False
     else:
         # Test if matrix is circular
-        is_circular = abs(x[-1] % 360 - (x[0] - d_step) % 360) < 1e-5
+        is_circular = axis_is_circular(x, d_step)
 
     # Compute caracteristic distance, constant when vertical
     d_ = 360 / (d_step * pi * 2 * earth_radius)
diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index 6fbd007..f8d5f97 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -206,6 +206,30 @@ def interp2d_geo(x_g, y_g, z_g, m_g, x, y, nearest=False):
         return interp2d_bilinear(x_g, y_g, z_g, m_g, x, y)
 
 
+@njit(cache=True)
+def axis_step(x):
+    """
+    Step of a regular axis, from its ends: with coordinates in simple precision the
+    rounding of two neighbours would be multiplied by the number of steps
+
+    :param array x: regular coordinates
+    :rtype: float
+    """
+    return (x[-1] - x[0]) / (x.size - 1)
+
+
+@njit(cache=True)
+def axis_is_circular(x, step):
+    """
+    Check if a regular axis of longitude covers the whole circle
+
+    :param array x: regular coordinates
+    :param float step: step of coordinates
+    :rtype: bool
+    """
+    return abs((x[-1] + step - x[0] + 180) % 360 - 180) < 1e-4
+
+
 @njit(cache=True, fastmath=True)
 def interp2d_nearest(x_g, y_g, z_g, x, y):
     """
@@ -221,11 +245,11 @@ def interp2d_nearest(x_g, y_g, z_g, x, y):
     """
     x_ref = x_g[0]
     y_ref = y_g[0]
-    x_step = x_g[1] - x_ref
-    y_step = y_g[1] - y_ref
+    x_step = axis_step(x_g)
+    y_step = axis_step(y_g)
     nb_x = x_g.shape[0]
     nb_y = y_g.shape[0]
-    is_circular = abs(x_g[-1] % 360 - (x_g[0] - x_step) % 360) < 1e-5
+    is_circular = axis_is_circular(x_g, x_step)
     z = empty(x.shape, dtype=z_g.dtype)
     for i in prange(x.size):
         i0 = int(round((x[i] - x_ref) / x_step))
@@ -255,11 +279,11 @@ def interp2d_bilinear(x_g, y_g, z_g, m_g, x, y):
     """
     x_ref = x_g[0]
     y_ref = y_g[0]
-    x_step = x_g[1] - x_ref
-    y_step = y_g[1] - y_ref
+    x_step = axis_step(x_g)
+    y_step = axis_step(y_g)
     nb_x = x_g.shape[0]
     nb_y = y_g.shape[0]
-    is_circular = abs(x_g[-1] % 360 - (x_g[0] - x_step) % 360) < 1e-5
+    is_circular = axis_is_circular(x_g, x_step)
     # Indexes that should never exist
     i0_old, j0_old, masked = -100000000, -10000000, False
     z = empty(x.shape, dtype=z_g.dtype)
-- 
2.43.0


From 01546a29e2f1a5e4313bb10959734964c7c30bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:14 +0000
Subject: [PATCH 101/108] fix: nearest contour could be one whose box does not
 contain the point

---
 src/py_eddy_tracker/eddy_feature.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/py_eddy_tracker/eddy_feature.py b/src/py_eddy_tracker/eddy_feature.py
index 8bc139a..fa6518a 100644
--- a/src/py_eddy_tracker/eddy_feature.py
+++ b/src/py_eddy_tracker/eddy_feature.py
@@ -751,11 +751,9 @@ def index_from_nearest_path_with_pt_in_bbox_(
 
     # Flag to check if we iterate
     find_contour = 0
-    # We select the first pt of the first contour in the level
-    # to initialize dist
+    # Only contours whose bbox contains pt could be the nearest one
     i_ref = i_start_c
-    i_start_pt = indices_of_first_pts[i_start_c]
-    dist_ref = (x_value[i_start_pt] - xpt) ** 2 + (y_value[i_start_pt] - ypt) ** 2
+    dist_ref = 1e300
 
     # We iterate over contour in the same level
     for i_elt_c in range(i_start_c, i_end_c):
-- 
2.43.0


From ec9debdb6f2db47eaf518cdf07b1e697698f064d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:14 +0000
Subject: [PATCH 102/108] fix: contours of a field without any iso line failed

---
 src/py_eddy_tracker/eddy_feature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/eddy_feature.py b/src/py_eddy_tracker/eddy_feature.py
index fa6518a..1dfa6e2 100644
--- a/src/py_eddy_tracker/eddy_feature.py
+++ b/src/py_eddy_tracker/eddy_feature.py
@@ -481,7 +481,7 @@ class Contours(object):
             nb_contour,
         )
         # Type for coordinates
-        coord_dtype = contour.vertices.dtype
+        coord_dtype = "f8"
 
         # Array declaration
         self.x_value = empty(nb_pt, dtype=coord_dtype)
-- 
2.43.0


From 0a3672cda352e1c1a18aaaeda3fef640b99caf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:14 +0000
Subject: [PATCH 103/108] fix: contours which contain several eddies were
 searched on a wrong level for cyclones, on the stored branch, and forgotten
 at the second call

---
 src/py_eddy_tracker/eddy_feature.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/py_eddy_tracker/eddy_feature.py b/src/py_eddy_tracker/eddy_feature.py
index 1dfa6e2..0ff342a 100644
--- a/src/py_eddy_tracker/eddy_feature.py
+++ b/src/py_eddy_tracker/eddy_feature.py
@@ -472,6 +472,7 @@ class Contours(object):
             for contour in collection.get_paths():
                 contour.used = False
                 contour.reject = 0
+                contour.contain_eddies = False
                 nb_contour += 1
                 nb_pt += contour.vertices.shape[0]
         logger.info(
@@ -694,9 +695,9 @@ class Contours(object):
             sl = slice(None, -1)
             cor = 1
         else:
-            # cyclonic
+            # cyclonic, first collection of sl is the second one
             sl = slice(1, None)
-            cor = -1
+            cor = 0
 
         # On each level
         for j, collection in enumerate(self.contours.collections[sl]):
@@ -704,17 +705,20 @@ class Contours(object):
             contour_height = self.contours.cvalues[j + cor]
             # On each contour
             for i in collection.get_paths():
-                i.contain_eddies = False
                 if i.used:
                     continue
                 nb = 0
                 # try with each eddy
                 for eddy in eddies:
-                    if abs(eddy["height_external_contour"] - contour_height) > 1e-8:
+                    # Heights of eddies are in simple precision
+                    height = eddy["height_external_contour"]
+                    if abs(height - contour_height) > 1e-8 + 1e-6 * abs(contour_height):
                         continue
-                    # If eddy center in contour
+                    # If eddy center in contour, on the same branch
                     wn = winding_number_poly(
-                        eddy["lon_max"], eddy["lat_max"], i.vertices
+                        (eddy["lon_max"] - i.xmin) % 360 + i.xmin,
+                        eddy["lat_max"],
+                        i.vertices,
                     )
                     if wn != 0:
                         # Count
-- 
2.43.0


From 91c23f8483f3af8c6f7c6ef61357622f440a6473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:56 +0000
Subject: [PATCH 104/108] fix: pixel of a group of extrema is in the group (the
 barycentre of a plateau could be a pixel of another height)

---
 src/py_eddy_tracker/eddy_feature.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/eddy_feature.py b/src/py_eddy_tracker/eddy_feature.py
index 0ff342a..041583d 100644
--- a/src/py_eddy_tracker/eddy_feature.py
+++ b/src/py_eddy_tracker/eddy_feature.py
@@ -17,7 +17,6 @@ from numpy import (
     int_,
     ma,
     ones,
-    round,
     unique,
     zeros,
 )
@@ -279,8 +278,15 @@ def detect_local_minima_(grid, general_mask, pixel_mask, maximum_local_extremum,
             x_mean /= nb
             y_mean /= nb
 
-            xs_new.append(numba_types.int32(round(x_mean)))
-            ys_new.append(numba_types.int32(round(y_mean)))
+            # Barycentre could be out of the group, so we use the nearest pixel of the group
+            i_nearest, d_nearest = -1, 0.0
+            for i in range(nb_extrema):
+                if gr_ == gr[i]:
+                    d = (xs[i] - x_mean) ** 2 + (ys[i] - y_mean) ** 2
+                    if i_nearest == -1 or d < d_nearest:
+                        i_nearest, d_nearest = i, d
+            xs_new.append(xs[i_nearest])
+            ys_new.append(ys[i_nearest])
         return xs_new, ys_new
     return xs, ys
 
-- 
2.43.0


From ae3b3803707bcc22dfc26b2f3a11f1f4aa90ce5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:34 +0000
Subject: [PATCH 105/108] fix: latitudes of contours are described as latitudes
 in files (units degrees_east and axis X)

---
 src/py_eddy_tracker/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/py_eddy_tracker/__init__.py b/src/py_eddy_tracker/__init__.py
index 7115bf6..dd44f6b 100644
--- a/src/py_eddy_tracker/__init__.py
+++ b/src/py_eddy_tracker/__init__.py
@@ -478,8 +478,8 @@ VAR_DESCR = dict(
         nc_attr=dict(
             long_name="Effective Contour Latitudes",
             comment="Latitudes of effective contour",
-            units="degrees_east",
-            axis="X",
+            units="degrees_north",
+            axis="Y",
         ),
     ),
     num_point_e=dict(
@@ -522,8 +522,8 @@ VAR_DESCR = dict(
         nc_attr=dict(
             long_name="Speed Contour Latitudes",
             comment="Latitudes of speed contour",
-            units="degrees_east",
-            axis="X",
+            units="degrees_north",
+            axis="Y",
         ),
     ),
     num_point_s=dict(
-- 
2.43.0


From 8651497c26c577265cb5698cf7fd5b3ea27c73f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:39 +0000
Subject: [PATCH 106/108] fix: window_index read after the end of the window
 centres

---
 src/py_eddy_tracker/generic.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index f8d5f97..8d4cdc0 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -668,21 +668,17 @@ def window_index(x, x0, half_window=1):
     last_index = empty(nb_pt, dtype=i_ordered.dtype)
     # First bound to find
     j_min, j_max = 0, 0
-    x_min = x0[j_min] - half_window
-    x_max = x0[j_max] + half_window
     # We iterate on ordered x
     for i, i_x in enumerate(i_ordered):
         x_ = x[i_x]
         # if x bigger than x_min , we found bound and search next one
-        while x_ > x_min and j_min < nb_pt:
+        while j_min < nb_pt and x_ > x0[j_min] - half_window:
             first_index[j_min] = i
             j_min += 1
-            x_min = x0[j_min] - half_window
         # if x bigger than x_max , we found bound and search next one
-        while x_ > x_max and j_max < nb_pt:
+        while j_max < nb_pt and x_ > x0[j_max] + half_window:
             last_index[j_max] = i
             j_max += 1
-            x_max = x0[j_max] + half_window
         if j_max == nb_pt:
             break
     for i in range(j_min, nb_pt):
-- 
2.43.0


From e88f6e2ed273b41fec5996f3dcc8252f3d1437db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:35 +0000
Subject: [PATCH 107/108] fix: reduce_size read before the start of a contour
 whose vertices are all identical

---
 src/py_eddy_tracker/poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/poly.py b/src/py_eddy_tracker/poly.py
index 897d638..f35716b 100644
--- a/src/py_eddy_tracker/poly.py
+++ b/src/py_eddy_tracker/poly.py
@@ -869,7 +869,7 @@ def reduce_size(x, y):
     x0, y0 = x[0], y[0]
     while True:
         i -= 1
-        if x[i] != x0 or y[i] != y0:
+        if i < 0 or x[i] != x0 or y[i] != y0:
             i += 1
             # In case of virtual obs all value could be fill with same value, to avoid empty array
             i = max(3, i)
-- 
2.43.0


From 3466f2bcfbc03f18b11a3830d743504a3dc12eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:35 +0000
Subject: [PATCH 108/108] fix: currents of a grid with less than four rows or
 columns used values out of the grid

---
 src/py_eddy_tracker/dataset/grid.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 759501c..fbf847d 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2972,13 +2972,17 @@ def compute_stencil(x, y, h, m, earth_radius, vertical=False, stencil_halfwidth=
     for j in range(nb_y):
         # Buffer of maximal size of stencil (9)
         if is_circular:
-            h_3, h_2, h_1, h0 = h[-4, j], h[-3, j], h[-2, j], h[-1, j]
-            m_3, m_2, m_1, m0 = m[-4, j], m[-3, j], m[-2, j], m[-1, j]
+            h_3, h_2, h_1, h0 = h[-4 % nb_x, j], h[-3 % nb_x, j], h[-2, j], h[-1, j]
+            m_3, m_2, m_1, m0 = m[-4 % nb_x, j], m[-3 % nb_x, j], m[-2, j], m[-1, j]
         else:
             # Nothing available before first value
             m_3, m_2, m_1, m0 = True, True, True, True
-        h1, h2, h3, h4 = h[0, j], h[1, j], h[2, j], h[3, j]
-        m1, m2, m3, m4 = m[0, j], m[1, j], m[2, j], m[3, j]
+        h1, h2, h3, h4 = h[0, j], h[1, j], h[2 % nb_x, j], h[3 % nb_x, j]
+        m1, m2, m3, m4 = m[0, j], m[1, j], m[2 % nb_x, j], m[3 % nb_x, j]
+        if not is_circular:
+            # Nothing available after last value
+            m3 |= nb_x < 3
+            m4 |= nb_x < 4
         for i in range(nb_x):
             # Roll value and only last
             h_4, h_3, h_2, h_1, h0, h1, h2, h3 = h_3, h_2, h_1, h0, h1, h2, h3, h4
-- 
2.43.0

