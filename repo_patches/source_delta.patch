From 138402bb5ce13c439435e9e7ef0abafb09c296d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:40 +0000
Subject: [PATCH 01/82] fix: keep id counter monotone when correspondances
 without new track are merged

---
 src/py_eddy_tracker/tracking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index b64b6fc..733d2c3 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -210,7 +210,7 @@ class Correspondances(list):
         # Extend datasets list, which are bounds so we add one
         self.datasets.extend(other.datasets[i[0] + 1 :])
         # We set new id available
-        self.current_id = translate[-1] + 1
+        self.current_id += mask.sum()
 
     def store_correspondance(
         self, i_previous, i_current, nb_real_obs, association_cost
-- 
2.43.0


From df43b803f8de25661df482355592482f6db6ca83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:40 +0000
Subject: [PATCH 02/82] fix: update maximal number of links when
 correspondances are merged

---
 src/py_eddy_tracker/tracking.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index 733d2c3..6f70a7b 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -207,6 +207,7 @@ class Correspondances(list):
             items["id"] = translate[items["id"]]
         # Extend with other obs
         self.extend(other[i[0] :])
+        self.nb_link_max = max(self.nb_link_max, other.nb_link_max)
         # Extend datasets list, which are bounds so we add one
         self.datasets.extend(other.datasets[i[0] + 1 :])
         # We set new id available
-- 
2.43.0


From 8827f2198769dc136d5b820b5db7800a8756c01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 03/82] fix: store input filenames in correspondances file

---
 src/py_eddy_tracker/tracking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index 6f70a7b..62c607f 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -428,7 +428,7 @@ class Correspondances(list):
         )
 
         def get_filename(dataset):
-            if not isinstance(dataset, str) or not isinstance(dataset, bytes):
+            if not isinstance(dataset, (str, bytes)):
                 return "In memory file"
             return dataset
 
-- 
2.43.0


From a15404e033ea71a6c43bdd7ff888ef74a3193cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 04/82] fix: save and resume tracking with virtual observations
 when only few steps are done

---
 src/py_eddy_tracker/tracking.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index 62c607f..aa392d9 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -345,11 +345,14 @@ class Correspondances(list):
             flg_virtual = self.previous_correspondance.virtual
             with Dataset(self.filename_previous_correspondance) as general_handler:
                 self.current_id = general_handler.last_current_id
+                # There are no virtual obs stored if there was not enough step
+                flg_virtual = flg_virtual and "LastVirtualObs" in general_handler.groups
                 if flg_virtual:
                     # Load last virtual obs
                     self.virtual_obs = VirtualEddiesObservations.from_netcdf(
                         general_handler.groups["LastVirtualObs"]
                     )
+                if flg_virtual and "LastPreviousVirtualObs" in general_handler.groups:
                     self.previous_virtual_obs = VirtualEddiesObservations.from_netcdf(
                         general_handler.groups["LastPreviousVirtualObs"]
                     )
@@ -481,8 +484,9 @@ class Correspondances(list):
         if self.virtual_obs is not None:
             group = handler.createGroup("LastVirtualObs")
             self.virtual_obs.to_netcdf(group)
-            group = handler.createGroup("LastPreviousVirtualObs")
-            self.previous_virtual_obs.to_netcdf(group)
+            if self.previous_virtual_obs is not None:
+                group = handler.createGroup("LastPreviousVirtualObs")
+                self.previous_virtual_obs.to_netcdf(group)
         handler.module = self.class_method.__module__
         handler.classname = self.class_method.__qualname__
         handler.class_kw = json.dumps(self.class_kw)
-- 
2.43.0


From e49d0e48ef0bd5895ef8d942962bfa0426937c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:48 +0000
Subject: [PATCH 05/82] fix: reload correspondances when a date has no link

---
 src/py_eddy_tracker/tracking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index aa392d9..3353aaf 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -557,7 +557,7 @@ class Correspondances(list):
                 if name == "virtual_length":
                     correspondance[name] = 255
                 correspondance[name] = datas[name][i, :nb_elt]
-            id_max = max(id_max, correspondance["id"].max())
+            id_max = max(id_max, correspondance["id"].max(initial=0))
             obj.append(correspondance)
         obj.current_id = id_max + 1
         return obj
-- 
2.43.0


From d9a0a223df098c677a4ecf6de66ca82c09877f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:21 +0000
Subject: [PATCH 06/82] fix: select short tracks when there are none

---
 src/py_eddy_tracker/tracking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index 3353aaf..01d6be8 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -626,7 +626,7 @@ class Correspondances(list):
         self.nb_obs = self.nb_obs_by_tracks.sum()
         # Give the last id used
         self.current_id = self.nb_obs_by_tracks.shape[0]
-        translate = empty(i_keep_track.max() + 1, dtype="u4")
+        translate = empty(i_keep_track.max(initial=-1) + 1, dtype="u4")
         translate[i_keep_track] = arange(self.current_id)
         for i, correspondance in enumerate(self):
             m_keep = isin(correspondance["id"], i_keep_track)
-- 
2.43.0


From 4b49195313236a0571b56ef2316fa3e5432b29b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:36 +0000
Subject: [PATCH 07/82] fix: solve no conflict when one side of the cost matrix
 is empty

---
 src/py_eddy_tracker/observations/observation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index b39f7f8..09ede23 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -1466,6 +1466,8 @@ class EddiesObservations(object):
     @staticmethod
     def solve_first(cost, multiple_link=False):
         mask = ~cost.mask
+        if mask.size == 0:
+            return mask
         # Count number of links by self obs and other obs
         self_links = mask.sum(axis=1)
         other_links = mask.sum(axis=0)
-- 
2.43.0


From 22b3786e75c229e7b263b773a7e88ab800a3b9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:57 +0000
Subject: [PATCH 08/82] fix: particles outside the grid on south or west side
 are masked in advection

---
 src/py_eddy_tracker/dataset/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index edb96ba..ba8080b 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2707,7 +2707,7 @@ def get_uv_quad(i0, j0, u, v, m, nb_x=0):
         i1 %= nb_x
     i_max, j_max = m.shape
 
-    if i1 >= i_max or j1 >= j_max:
+    if i0 < 0 or j0 < 0 or i1 >= i_max or j1 >= j_max:
         return True, nan, nan, nan, nan, nan, nan, nan, nan
 
     if m[i0, j0] or m[i0, j1] or m[i1, j0] or m[i1, j1]:
-- 
2.43.0


From 3fe89986ad455e2c266db898a4bd4f323468591c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:12 +0000
Subject: [PATCH 09/82] fix: edges of grid and isolated cells are not used as
 valid values in stencil gradient

---
 src/py_eddy_tracker/dataset/grid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index ba8080b..1c46d58 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2950,7 +2950,7 @@ def compute_stencil(x, y, h, m, earth_radius, vertical=False, stencil_halfwidth=
             h_3, h_2, h_1, h0 = h[-4, j], h[-3, j], h[-2, j], h[-1, j]
             m_3, m_2, m_1, m0 = m[-4, j], m[-3, j], m[-2, j], m[-1, j]
         else:
-            m_3, m_2, m_1, m0 = False, False, False, False
+            m_3, m_2, m_1, m0 = True, True, True, True
         h1, h2, h3, h4 = h[0, j], h[1, j], h[2, j], h[3, j]
         m1, m2, m3, m4 = m[0, j], m[1, j], m[2, j], m[3, j]
         for i in range(nb_x):
@@ -2965,13 +2965,13 @@ def compute_stencil(x, y, h, m, earth_radius, vertical=False, stencil_halfwidth=
                     h4 = h[i_, j]
                 else:
                     # When we are out
-                    m4 = False
+                    m4 = True
             else:
                 m4 = m[i_, j]
                 h4 = h[i_, j]
 
-            # Current value not defined
-            if m0:
+            # Current value or both neighbours not defined
+            if m0 or (m1 and m_1):
                 m_out[i, j] = True
                 continue
             if not vertical:
-- 
2.43.0


From ff1fabdf0cb0b1482c17d2744e02376ecf6e92ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:30 +0000
Subject: [PATCH 10/82] fix: interpolation in time of a grid collection gives
 data without mask to compiled kernel

---
 src/py_eddy_tracker/dataset/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 1c46d58..140a585 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2409,8 +2409,8 @@ class GridCollection:
         g0, g1 = h0.grid(grid_name), h1.grid(grid_name)
         m0, m1 = h0.get_mask(g0), h0.get_mask(g1)
         kw = dict(x=lons, y=lats, nearest=method == "nearest")
-        v0 = interp2d_geo(h0.x_c, h0.y_c, g0, m0, **kw)
-        v1 = interp2d_geo(h1.x_c, h1.y_c, g1, m1, **kw)
+        v0 = interp2d_geo(h0.x_c, h0.y_c, g0.data, m0, **kw)
+        v1 = interp2d_geo(h1.x_c, h1.y_c, g1.data, m1, **kw)
         w = (t - t0) / (t1 - t0)
         return v1 * w + v0 * (1 - w)
 
-- 
2.43.0


From 3ab1e718e39a0291ee9925312c379ea4a8b2a508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:09 +0000
Subject: [PATCH 11/82] fix: masked pixels are not used by nearest
 interpolation

---
 src/py_eddy_tracker/generic.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index 612def6..ae582ab 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -196,19 +196,20 @@ def interp2d_geo(x_g, y_g, z_g, m_g, x, y, nearest=False):
     :rtype: array
     """
     if nearest:
-        return interp2d_nearest(x_g, y_g, z_g, x, y)
+        return interp2d_nearest(x_g, y_g, z_g, m_g, x, y)
     else:
         return interp2d_bilinear(x_g, y_g, z_g, m_g, x, y)
 
 
 @njit(cache=True, fastmath=True)
-def interp2d_nearest(x_g, y_g, z_g, x, y):
+def interp2d_nearest(x_g, y_g, z_g, m_g, x, y):
     """
     Nearest interpolation with wrapping if circular
 
     :param array x_g: coordinates of grid
     :param array y_g: coordinates of grid
     :param array z_g: Grid value
+    :param array m_g: Boolean grid, True if value is masked
     :param array x: coordinate where interpolate z
     :param array y: coordinate where interpolate z
     :return: z interpolated
@@ -227,7 +228,7 @@ def interp2d_nearest(x_g, y_g, z_g, x, y):
         j0 = int(round((y[i] - y_ref) / y_step))
         if is_circular:
             i0 %= nb_x
-        if i0 >= nb_x or i0 < 0 or j0 < 0 or j0 >= nb_y:
+        if i0 >= nb_x or i0 < 0 or j0 < 0 or j0 >= nb_y or m_g[i0, j0]:
             z[i] = nan
             continue
         z[i] = z_g[i0, j0]
-- 
2.43.0


From e489f10eb084b2ed3b1e79bbc30853c30c42c44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:17 +0000
Subject: [PATCH 12/82] fix: first time of a particle path has the unit of the
 following ones

---
 src/py_eddy_tracker/dataset/grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 140a585..a9f8583 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2629,7 +2629,9 @@ class GridCollection:
         t = empty(nb_time + 1, dtype="f8")
         x = empty((nb_time + 1, x0.size), dtype=x0.dtype)
         y = empty(x.shape, dtype=y0.dtype)
-        t[0], x[0], y[0] = kwargs.get("t_init"), x0, y0
+        # time in seconds, like the times given by advect
+        t_init = args[0] if len(args) else kwargs["t_init"]
+        t[0], x[0], y[0] = t_init * 86400, x0, y0
         for i in range(nb_time):
             t[i + 1], x[i + 1], y[i + 1] = particles.__next__()
         return t, x, y
-- 
2.43.0


From 97b1b15523adcd643a3eb67b0ce871fb8e37185c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:07 +0000
Subject: [PATCH 13/82] fix: index accepts any slice

---
 src/py_eddy_tracker/observations/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 09ede23..2b3abe2 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -724,7 +724,7 @@ class EddiesObservations(object):
         if hasattr(index, "__iter__"):
             size = len(index)
         elif isinstance(index, slice):
-            size = index.stop - index.start
+            size = len(range(*index.indices(len(self))))
         eddies = self.new_like(self, size)
         eddies.obs[:] = self.obs[index]
         eddies.sign_type = self.sign_type
-- 
2.43.0


From 95c16b4f29cc746903683c34ca93b17e4c6cf348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:07 +0000
Subject: [PATCH 14/82] fix: values out of bins are skipped when they are
 sorted

---
 src/py_eddy_tracker/observations/observation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 2b3abe2..95219f1 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -627,6 +627,8 @@ class EddiesObservations(object):
                 i0, i1 = i0[m], i1[m]
                 for i0_, i1_ in zip(i0, i1):
                     i_bins = i[i0_]
+                    if i_bins == -1 or i_bins == nb_bins:
+                        continue
                     yield slice(i0_, i1_), bins[i_bins], bins[i_bins + 1]
 
     def align_on(self, other, var_name="time", all_ref=False, **kwargs):
-- 
2.43.0


From 9d7b9ef03456efecd2580db225abfb36fb438ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:07 +0000
Subject: [PATCH 15/82] fix: align_on yields all values of the reference

---
 src/py_eddy_tracker/observations/observation.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 95219f1..d2a6767 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -648,19 +648,15 @@ class EddiesObservations(object):
         else:
             iter_self = self.iter_on(var_name[0], **kwargs)
             iter_other = other.iter_on(var_name[1], **kwargs)
-        indexs_other, b0_other, b1_other = iter_other.__next__()
+        # Nothing more in other
+        end = None, float("inf"), float("inf")
+        indexs_other, b0_other, b1_other = next(iter_other, end)
         for indexs_self, b0_self, b1_self in iter_self:
-            if b0_self > b0_other:
-                try:
-                    while b0_other < b0_self:
-                        indexs_other, b0_other, b1_other = iter_other.__next__()
-                except StopIteration:
-                    break
+            while b0_other < b0_self:
+                indexs_other, b0_other, b1_other = next(iter_other, end)
             if b0_self < b0_other:
                 if all_ref:
-                    yield indexs_self, empty(
-                        0, dtype=indexs_self.dtype
-                    ), b0_self, b1_self
+                    yield indexs_self, empty(0, dtype="i8"), b0_self, b1_self
                 continue
             yield indexs_self, indexs_other, b0_self, b1_self
 
-- 
2.43.0


From 61244c17d7675ebf3c164ebcef53dd93f1d3eb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:07 +0000
Subject: [PATCH 16/82] fix: add_distance fills the whole field

---
 src/py_eddy_tracker/observations/tracking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 164f972..ecd4e27 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -150,7 +150,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
         if "distance_next" in self.fields:
             return self
         new = self.add_fields(("distance_next",))
-        new["distance_next"][:1] = self.distance_to_next()
+        new["distance_next"][:] = self.distance_to_next()
         return new
 
     def distance_to_next(self):
-- 
2.43.0


From 88090b7f6f3641b3da982b998ed1531dfc22783c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:07 +0000
Subject: [PATCH 17/82] fix: observations with other fields are not coherent

---
 src/py_eddy_tracker/observations/observation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index d2a6767..1ad02cb 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -524,6 +524,7 @@ class EddiesObservations(object):
         test = self.track_extra_variables == other.track_extra_variables
         test *= self.track_array_variables == other.track_array_variables
         test *= self.array_variables == other.array_variables
+        test *= self.obs.dtype.names == other.obs.dtype.names
         return test
 
     @classmethod
-- 
2.43.0


From 2e1d061568a9636fd28a6ee651fb0ef6291151e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:07 +0000
Subject: [PATCH 18/82] fix: fixed_ellipsoid_mask inverts a mask

---
 src/py_eddy_tracker/observations/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 1ad02cb..ada5e3a 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -1331,7 +1331,7 @@ class EddiesObservations(object):
 
         # All obs we are not in rejected and accepted, there are between
         # two circle
-        needs_investigation = -(rejected + accepted)
+        needs_investigation = ~(rejected + accepted)
         index_other, index_self = where(needs_investigation)
 
         nb_case = index_self.shape[0]
-- 
2.43.0


From f04ea12057e180200d3f606fb8115b5639c4d341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:07 +0000
Subject: [PATCH 19/82] fix: empty_dataset keeps the type of eddies

---
 src/py_eddy_tracker/observations/observation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index ada5e3a..203e9cb 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2444,7 +2444,9 @@ class EddiesObservations(object):
         return create_meshed_particles(self[xname], self[yname], step)
 
     def empty_dataset(self):
-        return self.new_like(self, 0)
+        eddies = self.new_like(self, 0)
+        eddies.sign_type = self.sign_type
+        return eddies
 
 
 @njit(cache=True)
-- 
2.43.0


From 29f40134164ddcb94a43ee7f2986fd9cf042800e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:07 +0000
Subject: [PATCH 20/82] fix: zarr store without array variables

---
 src/py_eddy_tracker/observations/observation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 203e9cb..aa6606d 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -816,7 +816,7 @@ class EddiesObservations(object):
         var_list = cls.build_var_list(list(h_zarr.keys()), remove_vars, include_vars)
 
         nb_obs = getattr(h_zarr, var_list[0]).shape[0]
-        track_array_variables = h_zarr.attrs["track_array_variables"]
+        track_array_variables = h_zarr.attrs.get("track_array_variables", 0)
 
         if indexs is not None and "obs" in indexs:
             sl = indexs["obs"]
-- 
2.43.0


From 84db3dba5a8f66d68fbc18b19966955ee5e72c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:07 +0000
Subject: [PATCH 21/82] fix: partial load with open or stepped slices

---
 .../observations/observation.py               | 24 +++++++------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index aa6606d..a40c65c 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -819,14 +819,10 @@ class EddiesObservations(object):
         track_array_variables = h_zarr.attrs.get("track_array_variables", 0)
 
         if indexs is not None and "obs" in indexs:
-            sl = indexs["obs"]
-            sl = slice(sl.start, min(sl.stop, nb_obs))
-            if sl.stop is not None:
-                nb_obs = sl.stop
-            if sl.start is not None:
-                nb_obs -= sl.start
-            if sl.step is not None:
-                indexs["obs"] = slice(sl.start, sl.stop)
+            start, stop, step = indexs["obs"].indices(nb_obs)
+            nb_obs = max(stop - start, 0)
+            indexs = dict(indexs, obs=slice(start, stop))
+            if step != 1:
                 logger.warning("step of slice won't be use")
         logger.debug("%d observations will be load", nb_obs)
         kwargs = dict()
@@ -967,14 +963,10 @@ class EddiesObservations(object):
             obs_dim = cls.obs_dimension(h_nc)
             nb_obs = len(h_nc.dimensions[obs_dim])
             if indexs is not None and obs_dim in indexs:
-                sl = indexs[obs_dim]
-                sl = slice(sl.start, min(sl.stop, nb_obs))
-                if sl.stop is not None:
-                    nb_obs = sl.stop
-                if sl.start is not None:
-                    nb_obs -= sl.start
-                if sl.step is not None:
-                    indexs[obs_dim] = slice(sl.start, sl.stop)
+                start, stop, step = indexs[obs_dim].indices(nb_obs)
+                nb_obs = max(stop - start, 0)
+                indexs = dict(indexs, **{obs_dim: slice(start, stop)})
+                if step != 1:
                     logger.warning("step of slice won't be use")
             logger.debug("%d observations will be load", nb_obs)
             kwargs = dict()
-- 
2.43.0


From e785790383bdccbb9223d5b4842d7bc2434d4abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 22/82] fix: numbering_network forgets the previous index

---
 src/py_eddy_tracker/observations/network.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index a2e2dae..f870a5a 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -721,6 +721,7 @@ class NetworkObservations(GroupEddiesObservations):
         New numbering of network
         """
         new_numbering(self.track, start)
+        self.reset_index()
 
     def only_one_network(self):
         """
-- 
2.43.0


From cc85f03276dbf1afa7365a1afc340729d37cde1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 23/82] fix: remove_dead_end keeps the mask when it is
 recursive

---
 src/py_eddy_tracker/observations/network.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index f870a5a..9aa68b6 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1493,9 +1493,11 @@ class NetworkObservations(GroupEddiesObservations):
         self.next_obs[m_next] = -1
         self.next_cost[m_next] = 0
 
-        self.sort()
+        order, _ = self.sort()
         if recursive > 0:
-            self.remove_dead_end(nobs, ndays, recursive - 1)
+            if mask is not None:
+                mask = mask[order]
+            self.remove_dead_end(nobs, ndays, recursive - 1, mask)
 
     def extract_segment(self, segments, absolute=False):
         """Extract given segments
-- 
2.43.0


From 94e68efaafceafa31964f6b089c75b725a8a9807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 24/82] fix: remove_dead_end is done in place

---
 src/py_eddy_tracker/appli/network.py        | 2 +-
 src/py_eddy_tracker/observations/network.py | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/py_eddy_tracker/appli/network.py b/src/py_eddy_tracker/appli/network.py
index b8c2da5..6d5ba9d 100644
--- a/src/py_eddy_tracker/appli/network.py
+++ b/src/py_eddy_tracker/appli/network.py
@@ -146,7 +146,7 @@ def subset_network():
     if args.length is not None:
         n = n.longer_than(*args.length)
     if args.remove_dead_end is not None:
-        n = n.remove_dead_end(*args.remove_dead_end)
+        n.remove_dead_end(*args.remove_dead_end)
     if args.period is not None:
         n = n.extract_with_period(args.period)
     n.write_file(filename=args.out)
diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 9aa68b6..f0e8855 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1679,9 +1679,8 @@ class NetworkObservations(GroupEddiesObservations):
             self.correct_close_events(nb_days_max=correct_close_events)
 
         if remove_dead_end > 0:
-            network_clean = self.remove_dead_end(nobs=0, ndays=remove_dead_end)
-        else:
-            network_clean = self
+            self.remove_dead_end(nobs=0, ndays=remove_dead_end)
+        network_clean = self
 
         network_clean.numbering_segment()
 
-- 
2.43.0


From 7cf254e2d9b19fa4b11c561cfcda473647c21d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 25/82] fix: option remove_trash of EddyNetworkSubSetter

---
 src/py_eddy_tracker/appli/network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/appli/network.py b/src/py_eddy_tracker/appli/network.py
index 6d5ba9d..7fb16fc 100644
--- a/src/py_eddy_tracker/appli/network.py
+++ b/src/py_eddy_tracker/appli/network.py
@@ -149,6 +149,8 @@ def subset_network():
         n.remove_dead_end(*args.remove_dead_end)
     if args.period is not None:
         n = n.extract_with_period(args.period)
+    if args.remove_trash:
+        n = n.remove_trash()
     n.write_file(filename=args.out)
 
 
-- 
2.43.0


From bd37ed6dd38bede425eaa8b957ea10113d363f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 26/82] fix: grid_box_stat stores each box, the last one too

---
 src/py_eddy_tracker/observations/observation.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index a40c65c..7068967 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2537,6 +2537,8 @@ def grid_box_stat(x_c, y_c, grid, mask, x, y, value, circular=False, method=50):
             raise Exception("y indices underflow")
         if (j >= nb_y).any():
             raise Exception("y indices overflow")
+    if i.size == 0:
+        return
     abs_i = j * nb_x + i
     k_sort = abs_i.argsort()
     i0, j0 = i[k_sort[0]], j[k_sort[0]]
@@ -2546,13 +2548,16 @@ def grid_box_stat(x_c, y_c, grid, mask, x, y, value, circular=False, method=50):
         # group change
         if i_ != i0 or j_ != j0:
             # apply method and store result
-            grid[i_, j_] = percentile(values, method)
-            mask[i_, j_] = False
+            grid[i0, j0] = percentile(values, method)
+            mask[i0, j0] = False
             # start new group
             i0, j0 = i_, j_
             # reset list
             values.clear()
         values.append(value[k])
+    # last group
+    grid[i0, j0] = percentile(values, method)
+    mask[i0, j0] = False
 
 
 @njit(cache=True)
-- 
2.43.0


From 77ae58f539c0124bb8dc34da452356e83ed7e378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 27/82] fix: grid_box_stat checks latitudes on circular grids

---
 src/py_eddy_tracker/observations/observation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 7068967..b1483d9 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2533,10 +2533,10 @@ def grid_box_stat(x_c, y_c, grid, mask, x, y, value, circular=False, method=50):
             raise Exception("x indices underflow")
         if (i >= nb_x).any():
             raise Exception("x indices overflow")
-        if (j < 0).any():
-            raise Exception("y indices underflow")
-        if (j >= nb_y).any():
-            raise Exception("y indices overflow")
+    if (j < 0).any():
+        raise Exception("y indices underflow")
+    if (j >= nb_y).any():
+        raise Exception("y indices overflow")
     if i.size == 0:
         return
     abs_i = j * nb_x + i
-- 
2.43.0


From fb5f0db0c47310fc760ee7272406d072a8d3d189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 28/82] fix: masked pixels are not used for the maximum of
 grid_stat

---
 src/py_eddy_tracker/observations/observation.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index b1483d9..67b93cc 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -2607,11 +2607,16 @@ def grid_stat(x_c, y_c, grid, mask, x, y, result, circular=False, method="mean")
                 result[elt] = v_sum / nb_
         elif max_method:
             v_max = -1e40
+            nb_ = 0
             for i_, j_ in zip(i, j):
-                values = grid[i_, j_]
-                # FIXME must use mask
-                v_max = max(v_max, values)
-            result[elt] = v_max
+                if mask[i_, j_]:
+                    continue
+                v_max = max(v_max, grid[i_, j_])
+                nb_ += 1
+            if nb_ == 0:
+                result[elt] = nan
+            else:
+                result[elt] = v_max
 
 
 class VirtualEddiesObservations(EddiesObservations):
-- 
2.43.0


From 6343c1e7191374d3daf9736496f1d8b3f70488af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 29/82] fix: window_index does not read after the last window

---
 src/py_eddy_tracker/generic.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index ae582ab..8f4be79 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -633,21 +633,17 @@ def window_index(x, x0, half_window=1):
     last_index = empty(nb_pt, dtype=i_ordered.dtype)
     # First bound to find
     j_min, j_max = 0, 0
-    x_min = x0[j_min] - half_window
-    x_max = x0[j_max] + half_window
     # We iterate on ordered x
     for i, i_x in enumerate(i_ordered):
         x_ = x[i_x]
         # if x bigger than x_min , we found bound and search next one
-        while x_ > x_min and j_min < nb_pt:
+        while j_min < nb_pt and x_ > x0[j_min] - half_window:
             first_index[j_min] = i
             j_min += 1
-            x_min = x0[j_min] - half_window
         # if x bigger than x_max , we found bound and search next one
-        while x_ > x_max and j_max < nb_pt:
+        while j_max < nb_pt and x_ > x0[j_max] + half_window:
             last_index[j_max] = i
             j_max += 1
-            x_max = x0[j_max] + half_window
         if j_max == nb_pt:
             break
     for i in range(j_min, nb_pt):
-- 
2.43.0


From 2dae9fd67d7d80a952912208161e1dc77ab46bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 30/82] fix: EddyFinalTracking interpolates longitudes after
 normalization

---
 src/scripts/EddyFinalTracking | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/scripts/EddyFinalTracking b/src/scripts/EddyFinalTracking
index fad4b02..7fa8294 100644
--- a/src/scripts/EddyFinalTracking
+++ b/src/scripts/EddyFinalTracking
@@ -79,8 +79,10 @@ if __name__ == "__main__":
     # We flag obs
     if CORRESPONDANCES.virtual:
         FINAL_EDDIES["virtual"][:] = FINAL_EDDIES["time"] == 0
+        FINAL_EDDIES.normalize_longitude()
         FINAL_EDDIES.filled_by_interpolation(FINAL_EDDIES["virtual"] == 1)
         SHORT_TRACK["virtual"][:] = SHORT_TRACK["time"] == 0
+        SHORT_TRACK.normalize_longitude()
         SHORT_TRACK.filled_by_interpolation(SHORT_TRACK["virtual"] == 1)
 
     # Total running time
-- 
2.43.0


From 599ac9cb944870d12a51166a94056114cbeec543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 31/82] fix: EddyFinalTracking without long track

---
 src/scripts/EddyFinalTracking | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/scripts/EddyFinalTracking b/src/scripts/EddyFinalTracking
index 7fa8294..6fd9620 100644
--- a/src/scripts/EddyFinalTracking
+++ b/src/scripts/EddyFinalTracking
@@ -71,10 +71,11 @@ if __name__ == "__main__":
     SHORT_CORRESPONDANCES = CORRESPONDANCES._copy()
     SHORT_CORRESPONDANCES.shorter_than(size_max=NB_OBS_MIN)
 
-    CORRESPONDANCES.longer_than(size_min=NB_OBS_MIN)
-
-    FINAL_EDDIES = CORRESPONDANCES.merge()
     SHORT_TRACK = SHORT_CORRESPONDANCES.merge()
+    if CORRESPONDANCES.longer_than(size_min=NB_OBS_MIN) is False:
+        FINAL_EDDIES = SHORT_TRACK.empty_dataset()
+    else:
+        FINAL_EDDIES = CORRESPONDANCES.merge()
 
     # We flag obs
     if CORRESPONDANCES.virtual:
-- 
2.43.0


From 0dfe03987f649beaba3b0bb12e14c45876004e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 32/82] fix: compress_id changes the stored tracks

---
 src/py_eddy_tracker/observations/tracking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index ecd4e27..c385f05 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -510,7 +510,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
                 list_id.sort()
                 id_translate = arange(list_id.max() + 1)
                 id_translate[list_id] = arange(len(list_id)) + 1
-                new.track = id_translate[new.track]
+                new.track[:] = id_translate[new.track]
         return new
 
     def shape_polygon(self, intern=False):
-- 
2.43.0


From a04515395097f04afd1ba91acdca58ae94e3e3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 33/82] fix: extract_with_mask leaves the given mask unchanged

---
 src/py_eddy_tracker/observations/tracking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index c385f05..0e2bf02 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -489,7 +489,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
 
         if full_path:
             if reject_virtual:
-                mask *= ~self.virtual.astype("bool")
+                mask = mask * ~self.virtual.astype("bool")
             tracks = unique(self.tracks[mask])
             mask = self.get_mask_from_id(tracks)
         elif remove_incomplete:
-- 
2.43.0


From 5e729dfacf434f0dbdec18146641946dee2eed73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 34/82] fix: close_tracks and insert_virtual keep the type of
 eddies

---
 src/py_eddy_tracker/observations/groups.py   | 1 +
 src/py_eddy_tracker/observations/tracking.py | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/groups.py b/src/py_eddy_tracker/observations/groups.py
index 81929e1..fefc898 100644
--- a/src/py_eddy_tracker/observations/groups.py
+++ b/src/py_eddy_tracker/observations/groups.py
@@ -321,6 +321,7 @@ class GroupEddiesObservations(EddiesObservations, ABC):
         mask[indices_corrected] = 1
 
         new_TEO = self.new_like(self, size_obs_corrected)
+        new_TEO.sign_type = self.sign_type
         new_TEO.obs[~mask] = self.obs
         new_TEO.filled_by_interpolation(mask)
         new_TEO.virtual[:] = mask
diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 0e2bf02..2e12505 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -567,7 +567,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
         p0, p1 = self.period
         p0_other, p1_other = other.period
         if p1_other < p0 or p1 < p0_other:
-            return other.__class__.new_like(other, 0)
+            return other.empty_dataset()
         indexs = list()
         for i_self, i_other, t0, t1 in self.align_on(other, bins=arange(p0, p1 + 2)):
             i, j, s = self.match(other, i_self=i_self, i_other=i_other, **kwargs)
-- 
2.43.0


From dd29222658daada916dd50176762ccd8e69293da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 35/82] fix: insertion in an empty dataset copies the
 observations

---
 src/py_eddy_tracker/observations/observation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 67b93cc..ce4e32e 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -669,7 +669,9 @@ class EddiesObservations(object):
         self_size = len(self)
         new_size = self_size + insert_size
         if self_size == 0:
-            self.observations = other.obs
+            self.observations = other.obs.copy()
+            if self.sign_type is None:
+                self.sign_type = other.sign_type
             return self
         elif insert_size == 0:
             return self
-- 
2.43.0


From 852baeb0d71d196a02c4f7e1db33fc1bc7496f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 36/82] fix: common area of eddies on both sides of the
 wrapping longitude

---
 src/py_eddy_tracker/observations/observation.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index ce4e32e..1ab338c 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -1257,22 +1257,22 @@ class EddiesObservations(object):
         x_out, y_out = xy_out[x_name], xy_out[y_name]
         x_in_min, y_in_min = x_in.min(axis=1), y_in.min(axis=1)
         x_in_max, y_in_max = x_in.max(axis=1), y_in.max(axis=1)
-        x_out_min, y_out_min = x_out.min(axis=1), y_out.min(axis=1)
-        x_out_max, y_out_max = x_out.max(axis=1), y_out.max(axis=1)
+        y_out_min = y_out.min(axis=1)
+        y_out_max = y_out.max(axis=1)
         costs = ma.empty(nb_records, dtype="f4")
 
         for i in range(nb_records):
-            if x_in_max[i] < x_out_min[i] or x_in_min[i] > x_out_max[i]:
+            x_in_, x_out_ = x_in[i], x_out[i]
+            if abs(x_in_[0] - x_out_[0]) > 180:
+                x_out_ = (x_out[i] - (x_in_[0] - 180)) % 360 + x_in_[0] - 180
+            if x_in_max[i] < x_out_.min() or x_in_min[i] > x_out_.max():
                 costs[i] = 1
                 continue
             if y_in_max[i] < y_out_min[i] or y_in_min[i] > y_out_max[i]:
                 costs[i] = 1
                 continue
 
-            x_in_, x_out_ = x_in[i], x_out[i]
             p_in = Polygon(create_vertice(x_in_, y_in[i]))
-            if abs(x_in_[0] - x_out_[0]) > 180:
-                x_out_ = (x_out[i] - (x_in_[0] - 180)) % 360 + x_in_[0] - 180
             p_out = Polygon(create_vertice(x_out_, y_out[i]))
             costs[i] = 1 - (p_in & p_out).area() / min(p_in.area(), p_out.area())
         costs.mask = costs == 1
-- 
2.43.0


From d907040e9e760166c24cf7e29835813e91d2f50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 37/82] fix: regrid gives its own name and description to the
 new grid

---
 src/py_eddy_tracker/dataset/grid.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index a9f8583..df18902 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -1985,7 +1985,13 @@ class RegularGridDataset(GridDataset):
         v_interp = ma.array(v_interp, mask=isnan(v_interp))
         # and add it to self
         self.add_grid(new_name, v_interp)
-        self.variables_description[new_name] = other.variables_description[grid_name]
+        h_dict = other.variables_description[grid_name]
+        self.variables_description[new_name] = dict(
+            infos=h_dict["infos"].copy(),
+            attrs=h_dict["attrs"].copy(),
+            args=tuple((new_name, *h_dict["args"][1:])),
+            kwargs=h_dict["kwargs"].copy(),
+        )
         # self.variables_description[new_name]['infos'] = False
         # self.variables_description[new_name]['kwargs']['dimensions'] = ...
 
-- 
2.43.0


From e8f82a672467fe83c1085ab20b254bd189a4f9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 38/82] fix: spectrum_lonlat uses the same scaling for the
 reference

---
 src/py_eddy_tracker/dataset/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index df18902..978643a 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -1663,7 +1663,7 @@ class RegularGridDataset(GridDataset):
             if ref_grid_name is not None:
                 grid_name = ref_grid_name
             ref_lon_content, ref_lat_content = ref.spectrum_lonlat(
-                grid_name, area, **kwargs
+                grid_name, area, scaling=scaling, **kwargs
             )
             return (
                 (lon_content[0], lon_content[1] / ref_lon_content[1]),
-- 
2.43.0


From ef4e5e1ac353a52f3c840a6840d8d5dd699de33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 39/82] fix: option memory of EddyMerge

---
 src/py_eddy_tracker/appli/eddies.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/py_eddy_tracker/appli/eddies.py b/src/py_eddy_tracker/appli/eddies.py
index c1c7a90..47f7157 100644
--- a/src/py_eddy_tracker/appli/eddies.py
+++ b/src/py_eddy_tracker/appli/eddies.py
@@ -5,6 +5,7 @@ Applications on detection and tracking files
 import argparse
 from datetime import datetime
 from glob import glob
+from io import BytesIO
 import logging
 from os import mkdir
 from os.path import basename, dirname, exists, join as join_path
@@ -61,6 +62,9 @@ def merge_eddies():
 
     obs = list()
     for filename in args.filename:
+        if args.memory:
+            with open(filename, "rb") as h:
+                filename = BytesIO(h.read())
         e = TrackEddiesObservations.load_file(
             filename, raw_data=True, include_vars=args.include_var
         )
-- 
2.43.0


From 29a2fda02433c310880d58f8dcb36d2d540e1987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:13 +0000
Subject: [PATCH 40/82] fix: close the local sample once it is read

---
 src/py_eddy_tracker/data/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/data/__init__.py b/src/py_eddy_tracker/data/__init__.py
index f14fee8..85c1687 100644
--- a/src/py_eddy_tracker/data/__init__.py
+++ b/src/py_eddy_tracker/data/__init__.py
@@ -22,7 +22,8 @@ def get_demo_path(name):
 
 def get_remote_demo_sample(path):
     if path.startswith("/") or path.startswith("."):
-        content = open(path, "rb").read()
+        with open(path, "rb") as h:
+            content = h.read()
         if path.endswith(".nc"):
             return io.BytesIO(content)
     else:
-- 
2.43.0


From c1b8a0dcd52fb6df71dcaa81c558343cf65ca804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:25 +0000
Subject: [PATCH 41/82] fix: unused places of the links file do not depend on
 memory

---
 src/py_eddy_tracker/tracking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index 01d6be8..f50f9e2 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -463,7 +463,7 @@ class Correspondances(list):
                 **kwargs_cv
             )
             datas[name] = ma.empty((nb_step, self.nb_link_max), dtype=dtype)
-            datas[name].mask = datas[name] == datas[name]
+            datas[name].mask = True
 
         for i, correspondance in enumerate(self):
             logger.debug("correspondance %d", i)
-- 
2.43.0


From 52e183876d2c7df78567203fcc3c4ae9f86387c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:19 +0000
Subject: [PATCH 42/82] fix: the contours of a network were those of the first
 network built in the process

---
 src/py_eddy_tracker/observations/network.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index f0e8855..8a59674 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -37,31 +37,24 @@ from .tracking import TrackEddiesObservations, track_loess_filter, track_median_
 logger = logging.getLogger("pet")
 
 
-class Singleton(type):
-    _instances = {}
-
-    def __call__(cls, *args, **kwargs):
-        if cls not in cls._instances:
-            cls._instances[cls] = super().__call__(*args, **kwargs)
-        return cls._instances[cls]
-
-
-class Buffer(metaclass=Singleton):
+class Buffer:
     __slots__ = (
         "buffersize",
         "contour_name",
         "xname",
         "yname",
         "memory",
+        "DATA",
+        "FLIST",
     )
-    DATA = dict()
-    FLIST = list()
 
     def __init__(self, buffersize, intern=False, memory=False):
         self.buffersize = buffersize
         self.contour_name = EddiesObservations.intern(intern, public_label=True)
         self.xname, self.yname = EddiesObservations.intern(intern)
         self.memory = memory
+        self.DATA = dict()
+        self.FLIST = list()
 
     def load_contour(self, filename):
         if isinstance(filename, EddiesObservations):
-- 
2.43.0


From 67120a14a7afc5b51b39e2c347877a0f1863e18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:13 +0000
Subject: [PATCH 43/82] fix: the first slice of a variable was returned
 whatever the indexes asked afterwards

---
 src/py_eddy_tracker/dataset/grid.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 978643a..f04844f 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -253,6 +253,7 @@ class GridDataset(object):
         "filename",
         "dimensions",
         "indexs",
+        "loaded_indexs",
         "variables_description",
         "global_attrs",
         "vars",
@@ -300,6 +301,7 @@ class GridDataset(object):
         self.filename = filename
         self.coordinates = x_name, y_name
         self.vars = dict()
+        self.loaded_indexs = dict()
         self.indexs = dict() if indexs is None else indexs
         if centered is None:
             logger.warning(
@@ -528,7 +530,9 @@ class GridDataset(object):
         """
         if indexs is None:
             indexs = dict()
-        if varname not in self.vars:
+        if varname not in self.vars or (
+            indexs and self.loaded_indexs.get(varname, indexs) != indexs
+        ):
             coordinates_dims = list(self.x_dim)
             coordinates_dims.extend(list(self.y_dim))
             logger.debug(
@@ -547,6 +551,7 @@ class GridDataset(object):
                     for dim in dims
                 ]
                 self.vars[varname] = h.variables[varname][sl]
+                self.loaded_indexs[varname] = indexs
                 if len(self.x_dim) == 1:
                     i_x = where(array(dims) == self.x_dim)[0][0]
                     i_y = where(array(dims) == self.y_dim)[0][0]
-- 
2.43.0


From a77d38eddac6d27a4240d62687b9ec66bfbd8b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:50 +0000
Subject: [PATCH 44/82] fix: tracks lost at the junction and found again later
 shared one identifier in merged correspondances

---
 src/py_eddy_tracker/tracking.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index f50f9e2..67de547 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -195,10 +195,12 @@ class Correspondances(list):
 
         translate[other[i[0] - 1]["id"]] = self[-1]["id"]
 
-        nb_max = other[i[0] - 1]["id"].max()
         mask = translate == self.UINT32_MAX
-        # We won't translate previous id
-        mask[:nb_max] = False
+        # We won't translate previous id, except those which come back later
+        used = zeros(mask.shape, dtype=bool)
+        for items in other[i[0] :]:
+            used[items["id"]] = True
+        mask &= used
         # Next id will be shifted
         translate[mask] = arange(mask.sum()) + self.current_id
 
-- 
2.43.0


From b0cc17f6e70e75d7e2103bbfa2ebaccdd7e941dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:11 +0000
Subject: [PATCH 45/82] fix: distances inside a track were set to 0 when some
 track number is not used

---
 src/py_eddy_tracker/observations/tracking.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 2e12505..13c6bcc 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -128,9 +128,8 @@ class TrackEddiesObservations(GroupEddiesObservations):
         pct_obs_by_t = nb_obs_by_t / nb_obs_by_t.sum() * 100.0
         d = self.distance_to_next() / 1000.0
         cum_d = cumsum_by_track(d, self.tracks)
-        m_last = ones(d.shape, dtype="bool")
-        m_last[-1] = False
-        m_last[self.index_from_track[1:] - 1] = False
+        m_last = zeros(d.shape, dtype="bool")
+        m_last[:-1] = self.tracks[1:] == self.tracks[:-1]
         content += f"""
     | {self.nb_tracks} tracks ({
         nb_obs / self.nb_tracks:.2f} obs/tracks, shorter {nb[nb!=0].min()} obs, longer {nb.max()} obs)
@@ -164,7 +163,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
             self.longitude[1:],
             self.latitude[1:],
         )
-        d[self.index_from_track[1:] - 1] = 0
+        d[self.tracks[1:] != self.tracks[:-1]] = 0
         d_ = empty(d.shape[0] + 1, dtype=d.dtype)
         d_[:-1] = d
         d_[-1] = 0
-- 
2.43.0


From 68fbf546ce73240552aa55fb152e0befb7f5bf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:11 +0000
Subject: [PATCH 46/82] fix: westward tracks were all rejected with delta_lon,
 and tracks across the wrapping longitude took the opposite direction

---
 src/py_eddy_tracker/observations/tracking.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 13c6bcc..4fde567 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -376,10 +376,10 @@ class TrackEddiesObservations(GroupEddiesObservations):
         lon = self.longitude
         i0, nb = self.index_from_track, self.nb_obs_by_track
         i1 = i0 - 1 + nb
-        d_lon = lon[i1] - lon[i0]
+        d_lon = (lon[i1] - lon[i0] + 180) % 360 - 180
         m = d_lon < 0 if west else d_lon > 0
         if delta_lon is not None:
-            m *= delta_lon < d_lon
+            m *= delta_lon < abs(d_lon)
         m = m.repeat(nb)
         return self.extract_with_mask(m)
 
-- 
2.43.0


From 1f3225a17509d7cbdc04f6abbefc071b01beb213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:11 +0000
Subject: [PATCH 47/82] fix: track numbers which are not in the dataset were
 read outside the index

---
 src/py_eddy_tracker/observations/tracking.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 4fde567..52a0cbb 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -812,6 +812,9 @@ def count_by_track(tracks, mask, number):
 @njit(cache=True)
 def compute_mask_from_id(tracks, first_index, number_of_obs, mask):
     for track in tracks:
+        # unknown tracks select nothing
+        if track < 0 or track >= first_index.size:
+            continue
         mask[first_index[track] : first_index[track] + number_of_obs[track]] = True
 
 
-- 
2.43.0


From 753100b89ac13710fef9036522bab0ddfd7ebb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:11 +0000
Subject: [PATCH 48/82] fix: extract_longer_eddies failed when tracks are
 numbered again

---
 src/py_eddy_tracker/observations/tracking.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 52a0cbb..77ac1d1 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -208,11 +208,11 @@ class TrackEddiesObservations(GroupEddiesObservations):
             logger.debug("Copy of field %s ...", field)
             eddies.obs[field] = self.obs[field][mask]
         if compress_id:
-            list_id = unique(eddies.obs.track)
+            list_id = unique(eddies.track)
             list_id.sort()
             id_translate = arange(list_id.max() + 1)
             id_translate[list_id] = arange(len(list_id)) + 1
-            eddies.track = id_translate[eddies.track]
+            eddies.track[:] = id_translate[eddies.track]
         return eddies
 
     @property
-- 
2.43.0


From 71872b4f519628e1ffb98ffa53aadca3e9fe1048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:38 +0000
Subject: [PATCH 49/82] fix: insert_virtual left virtual observations without
 track, lost former virtual flags and did not follow links

---
 src/py_eddy_tracker/observations/groups.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/groups.py b/src/py_eddy_tracker/observations/groups.py
index fefc898..ee27ec8 100644
--- a/src/py_eddy_tracker/observations/groups.py
+++ b/src/py_eddy_tracker/observations/groups.py
@@ -2,7 +2,7 @@ from abc import ABC, abstractmethod
 import logging
 
 from numba import njit, types as nb_types
-from numpy import arange, full, int32, interp, isnan, median, where, zeros
+from numpy import append, arange, full, int32, interp, isnan, median, where, zeros
 
 from ..generic import window_index
 from ..poly import create_meshed_particles, poly_indexs
@@ -324,7 +324,14 @@ class GroupEddiesObservations(EddiesObservations, ABC):
         new_TEO.sign_type = self.sign_type
         new_TEO.obs[~mask] = self.obs
         new_TEO.filled_by_interpolation(mask)
-        new_TEO.virtual[:] = mask
+        new_TEO.virtual[mask] = 1
+        # A virtual observation belongs to the track of the observation before it
+        new_TEO.track[mask] = self.track[indices - 1]
+        # Indexes of other observations follow the insertion, -1 stays -1
+        translate = append(where(~mask)[0], -1)
+        for field in ("next_obs", "previous_obs"):
+            if field in self.fields:
+                new_TEO[field][~mask] = translate[self[field]]
         new_TEO.fix_next_previous_obs()
         return new_TEO
 
-- 
2.43.0


From e4fc000a2d26789f02e6da2a0caa05e8df5968b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:38 +0000
Subject: [PATCH 50/82] fix: virtual observations were inserted between two
 segments of a network

---
 src/py_eddy_tracker/observations/network.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 8a59674..070f47b 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -160,8 +160,10 @@ class NetworkObservations(GroupEddiesObservations):
 
         :param int,float dt: theorical delta time between 2 observations
         """
+        segment = self.segment_track_array.astype("i8")
+        segment[self.track == self.NOGROUP] = -1
         return get_missing_indices(
-            self.time, self.track, dt=dt, flag_untrack=True, indice_untrack=self.NOGROUP
+            self.time, segment, dt=dt, flag_untrack=True, indice_untrack=-1
         )
 
     def fix_next_previous_obs(self):
-- 
2.43.0


From 64b47f311080f2d6f2d2641bf794d6547bcd8320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:00 +0000
Subject: [PATCH 51/82] fix: identify_in failed when sizes are sorted and one
 of them is not in the other atlas

---
 src/py_eddy_tracker/observations/network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 070f47b..6b98dbe 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -1292,14 +1292,14 @@ class NetworkObservations(GroupEddiesObservations):
                 continue
             if isinstance(i_other, slice):
                 i_other = arange(i_other.start, i_other.stop)
+            if isinstance(i_self, slice):
+                i_self = arange(i_self.start, i_self.stop)
             # All_ref will give all item of self, sometime there is no things to compare with other
             if i_other.size == 0:
                 id_self = i_self + i_self_ref
                 in_self.append(id_self)
                 in_other.append(-ones(id_self.shape, dtype=id_self.dtype))
                 continue
-            if isinstance(i_self, slice):
-                i_self = arange(i_self.start, i_self.stop)
             # We get absolute id
             id_self, id_other = i_self + i_self_ref, i_other + i_other_ref
             # We compute mask to select data
-- 
2.43.0


From 9a89efb0a5095c2b770eddcdc6c268acf1585fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:51 +0000
Subject: [PATCH 52/82] fix: indexes and period were kept after an insertion in
 place

---
 src/py_eddy_tracker/observations/network.py     | 1 +
 src/py_eddy_tracker/observations/observation.py | 7 +++++++
 src/py_eddy_tracker/observations/tracking.py    | 6 ++++++
 3 files changed, 14 insertions(+)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 6b98dbe..687c125 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -123,6 +123,7 @@ class NetworkObservations(GroupEddiesObservations):
         return "\n".join(infos)
 
     def reset_index(self):
+        super().reset_index()
         self._index_network = None
         self._index_segment_track = None
         self._segment_track_array = None
diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 1ab338c..7fab813 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -564,6 +564,11 @@ class EddiesObservations(object):
 
     def reset(self):
         self.observations = zeros(0, dtype=self.dtype)
+        self.reset_index()
+
+    def reset_index(self):
+        """Drop what was computed from observations"""
+        self.period_ = None
 
     @property
     def obs(self):
@@ -670,6 +675,7 @@ class EddiesObservations(object):
         new_size = self_size + insert_size
         if self_size == 0:
             self.observations = other.obs.copy()
+            self.reset_index()
             if self.sign_type is None:
                 self.sign_type = other.sign_type
             return self
@@ -682,6 +688,7 @@ class EddiesObservations(object):
         eddies.obs[index : index + insert_size] = other.obs
         eddies.obs[index + insert_size :] = self.obs[index:]
         self.observations = eddies.obs
+        self.reset_index()
         return self
 
     def append(self, other):
diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 77ac1d1..5c500eb 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -68,6 +68,12 @@ class TrackEddiesObservations(GroupEddiesObservations):
         self.__obs_by_track = None
         self.__nb_track = None
 
+    def reset_index(self):
+        super().reset_index()
+        self.__first_index_of_track = None
+        self.__obs_by_track = None
+        self.__nb_track = None
+
     def track_slice(self, track):
         i0 = self.index_from_track[track]
         return slice(i0, i0 + self.nb_obs_by_track[track])
-- 
2.43.0


From 4405f3c00a194b9ba678b0d973e393a0fbb1f0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:07 +0000
Subject: [PATCH 53/82] fix: contours over the western or southern bound of a
 regional grid got no pixel or wrong pixels

---
 src/py_eddy_tracker/generic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index 8f4be79..3a1dadc 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -597,7 +597,10 @@ def bbox_indice_regular(vertices, x0, y0, xstep, ystep, N, circular, x_size):
         slice_x = (i_x0 - N) % x_size, (i_x1 + N + 1) % x_size
     else:
         slice_x = max(i_x0 - N, 0), i_x1 + N + 1
-    slice_y = i_y0 - N, i_y1 + N + 1
+        if i_x0 > i_x1 and slice_x[0] >= x_size:
+            # Contour over the western bound: we start from first column
+            slice_x = 2 * x_size, min(slice_x[1], x_size)
+    slice_y = max(i_y0 - N, 0), max(i_y1 + N + 1, 0)
     return slice_x, slice_y
 
 
-- 
2.43.0


From 9ae52b4107db34ecdf4c5d80390817c6c62e4f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:07 +0000
Subject: [PATCH 54/82] fix: flatten_line_matrix wrote after the end of its
 array

---
 src/py_eddy_tracker/generic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index 3a1dadc..6db682f 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -351,8 +351,9 @@ def flatten_line_matrix(l_matrix):
         for j in range(sampling):
             out[inc] = l_matrix[i, j]
             inc += 1
-        out[inc] = nan
-        inc += 1
+        if i < nb_line - 1:
+            out[inc] = nan
+            inc += 1
     return out
 
 
-- 
2.43.0


From e512216fe5205a8139be3de094066fb60bce24cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:07 +0000
Subject: [PATCH 55/82] fix: reduce_size read before the contour when all the
 positions are the same

---
 src/py_eddy_tracker/poly.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/py_eddy_tracker/poly.py b/src/py_eddy_tracker/poly.py
index b584961..f7d23d8 100644
--- a/src/py_eddy_tracker/poly.py
+++ b/src/py_eddy_tracker/poly.py
@@ -869,13 +869,11 @@ def reduce_size(x, y):
     """
     i = x.shape[0]
     x0, y0 = x[0], y[0]
-    while True:
+    while i > 0 and x[i - 1] == x0 and y[i - 1] == y0:
         i -= 1
-        if x[i] != x0 or y[i] != y0:
-            i += 1
-            # In case of virtual obs all value could be fill with same value, to avoid empty array
-            i = max(3, i)
-            return x[:i], y[:i]
+    # In case of virtual obs all value could be fill with same value, to avoid empty array
+    i = max(3, i)
+    return x[:i], y[:i]
 
 
 @njit(cache=True)
-- 
2.43.0


From 259a7cdb89f7638ec05845fc080a03fd8fd0bf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:07 +0000
Subject: [PATCH 56/82] fix: first contour of a level was returned as the
 nearest even if its bbox does not contain the point

---
 src/py_eddy_tracker/eddy_feature.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/py_eddy_tracker/eddy_feature.py b/src/py_eddy_tracker/eddy_feature.py
index 8bc139a..fe9592b 100644
--- a/src/py_eddy_tracker/eddy_feature.py
+++ b/src/py_eddy_tracker/eddy_feature.py
@@ -751,11 +751,9 @@ def index_from_nearest_path_with_pt_in_bbox_(
 
     # Flag to check if we iterate
     find_contour = 0
-    # We select the first pt of the first contour in the level
-    # to initialize dist
+    # Upper than all the distances (in degrees)
     i_ref = i_start_c
-    i_start_pt = indices_of_first_pts[i_start_c]
-    dist_ref = (x_value[i_start_pt] - xpt) ** 2 + (y_value[i_start_pt] - ypt) ** 2
+    dist_ref = 1e10
 
     # We iterate over contour in the same level
     for i_elt_c in range(i_start_c, i_end_c):
-- 
2.43.0


From 76f28bae928c445210536e71c357d53caa357291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:32 +0000
Subject: [PATCH 57/82] fix: correspondances without any link were reloaded
 with one track

---
 src/py_eddy_tracker/tracking.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index 67de547..e0f9587 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -545,7 +545,7 @@ class Correspondances(list):
             class_kw=class_kw,
         )
 
-        id_max = 0
+        current_id = 0
         for i, nb_elt in enumerate(datas["nb_link"][:]):
             logger.debug(
                 "Link between %s and %s", datas["FileIn"][i], datas["FileOut"][i]
@@ -559,9 +559,10 @@ class Correspondances(list):
                 if name == "virtual_length":
                     correspondance[name] = 255
                 correspondance[name] = datas[name][i, :nb_elt]
-            id_max = max(id_max, correspondance["id"].max(initial=0))
+            if nb_elt > 0:
+                current_id = max(current_id, int(correspondance["id"].max()) + 1)
             obj.append(correspondance)
-        obj.current_id = id_max + 1
+        obj.current_id = current_id
         return obj
 
     @classmethod
-- 
2.43.0


From e104b818faef7cc30d990ccd95c80f1767a9c14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:50 +0000
Subject: [PATCH 58/82] fix: a second merge of the same correspondances wrote
 observations in other tracks

---
 src/py_eddy_tracker/tracking.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/py_eddy_tracker/tracking.py b/src/py_eddy_tracker/tracking.py
index e0f9587..2f47118 100644
--- a/src/py_eddy_tracker/tracking.py
+++ b/src/py_eddy_tracker/tracking.py
@@ -639,6 +639,10 @@ class Correspondances(list):
 
     def merge(self, until=-1, raw_data=True):
         """Merge all the correspondance in one array with all fields"""
+        # Indexes are moved at each merge
+        self.i_current_by_tracks = (
+            self.nb_obs_by_tracks.cumsum() - self.nb_obs_by_tracks
+        )
         # Start loading identification again to save in the finals tracks
         # Load first file
         self.reset_dataset_cache()
-- 
2.43.0


From b2de37469ba792bb9566fc101e872e68d0561582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:50 +0000
Subject: [PATCH 59/82] fix: date of files which do not match the pattern was
 not initialised

---
 src/py_eddy_tracker/appli/eddies.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/py_eddy_tracker/appli/eddies.py b/src/py_eddy_tracker/appli/eddies.py
index 47f7157..12a865c 100644
--- a/src/py_eddy_tracker/appli/eddies.py
+++ b/src/py_eddy_tracker/appli/eddies.py
@@ -250,6 +250,7 @@ def browse_dataset_in(
         dtype=[("filename", "S500"), ("date", "datetime64[s]")],
     )
     dataset_list["filename"] = filenames
+    dataset_list["date"] = "NaT"
 
     logger.info("%s grids available", dataset_list.shape[0])
     mode_attrs = False
-- 
2.43.0


From 7495a34a925ef3beba1973ede9d5d99b25d163e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:50 +0000
Subject: [PATCH 60/82] fix: velocities were extrapolated when advection starts
 between two grids

---
 src/py_eddy_tracker/dataset/grid.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index f04844f..01f66d2 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -2606,8 +2606,10 @@ class GridCollection:
             yield t, x, y
 
     def get_next_time_step(self, t_init):
+        nb = len(self.datasets)
         for i, (t, dataset) in enumerate(self.datasets):
-            if t < t_init:
+            # Keep the last one before t_init, to interpolate
+            if i + 1 < nb and self.datasets[i + 1][0] <= t_init:
                 continue
             dataset.populate()
             logger.debug(f"i={i}, t={t}, dataset={dataset}")
@@ -2617,7 +2619,8 @@ class GridCollection:
         i = len(self.datasets)
         for t, dataset in reversed(self.datasets):
             i -= 1
-            if t > t_init:
+            # Keep the first one after t_init, to interpolate
+            if i > 0 and self.datasets[i - 1][0] >= t_init:
                 continue
             dataset.populate()
             logger.debug(f"i={i}, t={t}, dataset={dataset}")
-- 
2.43.0


From 096cf88bf77ec9e2efea7312e4f8cd8cb771d697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:39 +0000
Subject: [PATCH 61/82] fix: simplify dropped a line with only its last point
 defined

---
 src/py_eddy_tracker/generic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/generic.py b/src/py_eddy_tracker/generic.py
index 6db682f..118b7d1 100644
--- a/src/py_eddy_tracker/generic.py
+++ b/src/py_eddy_tracker/generic.py
@@ -379,7 +379,7 @@ def simplify(x, y, precision=0.1):
             continue
         break
     # Only nan
-    if j == (nb - 1):
+    if j == (nb - 1) and not mask[j]:
         return zeros(0, dtype=x.dtype), zeros(0, dtype=x.dtype)
 
     last_nan = False
-- 
2.43.0


From 15dadf2d1aec0e47029a0ce8cf182b0550382f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:22 +0000
Subject: [PATCH 62/82] fix: main target of particles was chosen with percents
 cut to integers

---
 src/py_eddy_tracker/observations/groups.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/py_eddy_tracker/observations/groups.py b/src/py_eddy_tracker/observations/groups.py
index ee27ec8..b6a45c4 100644
--- a/src/py_eddy_tracker/observations/groups.py
+++ b/src/py_eddy_tracker/observations/groups.py
@@ -247,21 +247,24 @@ def get_matrix(i_start, i_end, translate_start, translate_end, i_target, pct):
             count[i_start_, i_end_] += 1
         ref[i_start_] += 1
     for i in range(nb_start):
+        # Number of particles in each rank, percents could be stored as integers
+        count_0, count_1 = 0, 0
         for j in range(nb_end):
-            pct_ = count[i, j]
+            count_ = count[i, j]
             # If there are particles from i to j
-            if pct_ != 0:
+            if count_ != 0:
                 # Get percent
-                pct_ = pct_ / ref[i] * 100.0
+                pct_ = count_ / ref[i] * 100.0
                 # Get indices in full dataset
                 i_, j_ = translate_start[i], translate_end[j]
-                pct_0 = pct[i_, 0]
-                if pct_ > pct_0:
-                    pct[i_, 1] = pct_0
+                if count_ > count_0:
+                    count_0, count_1 = count_, count_0
+                    pct[i_, 1] = pct[i_, 0]
                     pct[i_, 0] = pct_
                     i_target[i_, 1] = i_target[i_, 0]
                     i_target[i_, 0] = j_
-                elif pct_ > pct[i_, 1]:
+                elif count_ > count_1:
+                    count_1 = count_
                     pct[i_, 1] = pct_
                     i_target[i_, 1] = j_
     return i_target, pct
-- 
2.43.0


From 608d9522d6a124d1915b20f2e54f5ea384a8e908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:22 +0000
Subject: [PATCH 63/82] fix: EddyMergeCorrespondances failed when output is in
 the current folder

---
 src/scripts/EddyMergeCorrespondances | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/scripts/EddyMergeCorrespondances b/src/scripts/EddyMergeCorrespondances
index 7598b47..5e509b7 100644
--- a/src/scripts/EddyMergeCorrespondances
+++ b/src/scripts/EddyMergeCorrespondances
@@ -32,8 +32,9 @@ if __name__ == "__main__":
     CONFIG = usage()
 
     # Create output directory
-    if not exists(dirname(CONFIG.path_out)):
-        mkdir(dirname(CONFIG.path_out))
+    SAVE_DIR = dirname(CONFIG.path_out)
+    if SAVE_DIR and not exists(SAVE_DIR):
+        mkdir(SAVE_DIR)
 
     START_TIME = dt.datetime.now()
     CORRESPONDANCES = Correspondances.load(CONFIG.nc_file[0])
-- 
2.43.0


From a53066ad6ae5a5cb67d4e7d2e7f7f95ad696e4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:55 +0000
Subject: [PATCH 64/82] fix: selections by track failed on an empty dataset

---
 src/py_eddy_tracker/observations/tracking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 5c500eb..6290c65 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -307,7 +307,7 @@ class TrackEddiesObservations(GroupEddiesObservations):
         If obs are not sorted by track, __first_index_of_track will be unusable
         """
         if self.__first_index_of_track is None:
-            s = self.tracks.max() + 1
+            s = self.tracks.max() + 1 if len(self) else 0
             # Doesn't work => core dump with numba, maybe he wants i8 instead of u4
             # self.__first_index_of_track = -ones(s, self.tracks.dtype)
             # self.__obs_by_track = zeros(s, self.observation_number.dtype)
-- 
2.43.0


From 2514b0fc3f2143d70e81ef0638ccca0473d53ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:55 +0000
Subject: [PATCH 65/82] fix: selections by direction read before the first
 observation

---
 src/py_eddy_tracker/observations/tracking.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 6290c65..23d1eab 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -381,7 +381,8 @@ class TrackEddiesObservations(GroupEddiesObservations):
         """
         lon = self.longitude
         i0, nb = self.index_from_track, self.nb_obs_by_track
-        i1 = i0 - 1 + nb
+        # Numbers which are not used have no observation, index stays valid
+        i1 = i0 - 1 + nb.clip(1)
         d_lon = (lon[i1] - lon[i0] + 180) % 360 - 180
         m = d_lon < 0 if west else d_lon > 0
         if delta_lon is not None:
@@ -402,7 +403,8 @@ class TrackEddiesObservations(GroupEddiesObservations):
     def extract_in_direction(self, direction, value=0):
         nb_obs = self.nb_obs_by_track
         i_start = self.index_from_track
-        i_stop = i_start + nb_obs - 1
+        # Numbers which are not used have no observation, index stays valid
+        i_stop = i_start + nb_obs.clip(1) - 1
         if direction in ("S", "N"):
             d_lat = self.latitude[i_stop] - self.latitude[i_start]
             mask = d_lat < 0 if "S" == direction else d_lat > 0
-- 
2.43.0


From 0f3c747ab6993448e8b50cc428a3fea3874a36ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:55 +0000
Subject: [PATCH 66/82] fix: distance_to_next gave one value for an empty
 dataset

---
 src/py_eddy_tracker/observations/tracking.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 23d1eab..1f63c80 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -163,6 +163,8 @@ class TrackEddiesObservations(GroupEddiesObservations):
         :return: array of distance in m, 0 when next obs is from another track
         :rtype: array
         """
+        if len(self) == 0:
+            return zeros(0)
         d = distance(
             self.longitude[:-1],
             self.latitude[:-1],
-- 
2.43.0


From a925c6b1fbbd3d63dd745b9fb5f38f43386a6486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:56 +0000
Subject: [PATCH 67/82] fix: compare cyclonic contours with the level just
 below them when labelling

---
 src/py_eddy_tracker/eddy_feature.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/eddy_feature.py b/src/py_eddy_tracker/eddy_feature.py
index fe9592b..8f6df4c 100644
--- a/src/py_eddy_tracker/eddy_feature.py
+++ b/src/py_eddy_tracker/eddy_feature.py
@@ -696,11 +696,11 @@ class Contours(object):
         else:
             # cyclonic
             sl = slice(1, None)
-            cor = -1
+            cor = 0
 
         # On each level
         for j, collection in enumerate(self.contours.collections[sl]):
-            # get next height
+            # get next height (first level is skipped for cyclonic)
             contour_height = self.contours.cvalues[j + cor]
             # On each contour
             for i in collection.get_paths():
-- 
2.43.0


From 610ddec8323a53f877533224c0665e90185619c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:56 +0000
Subject: [PATCH 68/82] fix: accept simple precision heights when contours are
 labelled

---
 src/py_eddy_tracker/eddy_feature.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/eddy_feature.py b/src/py_eddy_tracker/eddy_feature.py
index 8f6df4c..7c682ce 100644
--- a/src/py_eddy_tracker/eddy_feature.py
+++ b/src/py_eddy_tracker/eddy_feature.py
@@ -710,7 +710,9 @@ class Contours(object):
                 nb = 0
                 # try with each eddy
                 for eddy in eddies:
-                    if abs(eddy["height_external_contour"] - contour_height) > 1e-8:
+                    d_h = abs(eddy["height_external_contour"] - contour_height)
+                    # Heights of eddies are stored in simple precision
+                    if d_h > 1e-6 * max(1.0, abs(contour_height)):
                         continue
                     # If eddy center in contour
                     wn = winding_number_poly(
-- 
2.43.0


From d59f2b57d9c5cbd5d74a275cd06b7e197ab43137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:57 +0000
Subject: [PATCH 69/82] fix: keep the contours labelled with the other
 polarity, label every contour

---
 src/py_eddy_tracker/eddy_feature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/eddy_feature.py b/src/py_eddy_tracker/eddy_feature.py
index 7c682ce..28bc717 100644
--- a/src/py_eddy_tracker/eddy_feature.py
+++ b/src/py_eddy_tracker/eddy_feature.py
@@ -471,6 +471,7 @@ class Contours(object):
             collection._paths = keep_path
             for contour in collection.get_paths():
                 contour.used = False
+                contour.contain_eddies = False
                 contour.reject = 0
                 nb_contour += 1
                 nb_pt += contour.vertices.shape[0]
@@ -704,7 +705,6 @@ class Contours(object):
             contour_height = self.contours.cvalues[j + cor]
             # On each contour
             for i in collection.get_paths():
-                i.contain_eddies = False
                 if i.used:
                     continue
                 nb = 0
-- 
2.43.0


From abfb39fa753e3566cc7c6a4f6b4b7265171e301e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:38 +0000
Subject: [PATCH 70/82] fix: find the eddy under the mouse whatever the number
 of points of contours

---
 src/py_eddy_tracker/gui.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/gui.py b/src/py_eddy_tracker/gui.py
index a85e9c1..8142339 100644
--- a/src/py_eddy_tracker/gui.py
+++ b/src/py_eddy_tracker/gui.py
@@ -319,11 +319,12 @@ class GUI:
 
         if event.inaxes == self.map:
             touch = dict()
-            for name in self.datasets.keys():
+            for name, dataset in self.datasets.items():
                 flag, data = self.m[name]["contour_s"].contains(event)
                 if flag:
-                    # 51 is for contour on 50 point must be rewrote
-                    touch[name] = data["ind"][0] // 51
+                    # each contour is followed by one separator
+                    nb_pt = dataset["contour_lon_s"].shape[1] + 1
+                    touch[name] = data["ind"][0] // nb_pt
             a = self.m["annotate"]
             ax = self.m["mini_ax"]
             if touch:
-- 
2.43.0


From 7af48028891ca29fca6cb64513225c0fb75f4f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:38 +0000
Subject: [PATCH 71/82] fix: keep the annotation of an eddy when the last
 dataset is not touched

---
 src/py_eddy_tracker/gui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/gui.py b/src/py_eddy_tracker/gui.py
index 8142339..c5e07a3 100644
--- a/src/py_eddy_tracker/gui.py
+++ b/src/py_eddy_tracker/gui.py
@@ -352,7 +352,7 @@ class GUI:
                 self.map.draw_artist(a)
                 self.map.draw_artist(ax)
                 self.figure.canvas.blit(self.map.bbox)
-            if not flag and self.map.bg_cache is not None and a.get_visible():
+            if not touch and self.map.bg_cache is not None and a.get_visible():
                 a.set_visible(False)
                 ax.set_visible(False)
                 self.figure.canvas.restore_region(self.map.bg_cache)
-- 
2.43.0


From 6167a4c5c656ddcea5bd2bdc397a7539c82214f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:24 +0000
Subject: [PATCH 72/82] fix: draw the first date of an animation

---
 src/py_eddy_tracker/appli/gui.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/appli/gui.py b/src/py_eddy_tracker/appli/gui.py
index 4a8cdeb..8dad868 100644
--- a/src/py_eddy_tracker/appli/gui.py
+++ b/src/py_eddy_tracker/appli/gui.py
@@ -128,7 +128,8 @@ class Anim:
         loop = True
         t0, t1 = self.period
         while loop:
-            self.now = t0
+            # next will go to the first date
+            self.now = t0 - 1
             while True:
                 dt = self.sleep_event
                 if not self.pause:
-- 
2.43.0


From b41dc9d418e212dc0ff6b640fc918eef9a19930c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:24 +0000
Subject: [PATCH 73/82] fix: write the last date of an animation in the film

---
 src/py_eddy_tracker/appli/gui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/appli/gui.py b/src/py_eddy_tracker/appli/gui.py
index 8dad868..0d9611d 100644
--- a/src/py_eddy_tracker/appli/gui.py
+++ b/src/py_eddy_tracker/appli/gui.py
@@ -338,7 +338,7 @@ def anim():
     if args.mp4 is None:
         a.show(infinity_loop=args.infinity_loop)
     else:
-        kwargs = dict(frames=arange(*a.period), interval=50)
+        kwargs = dict(frames=arange(a.period[0], a.period[1] + 1), interval=50)
         ani = FuncAnimation(a.fig, a.func_animation, **kwargs)
         ani.save(args.mp4, fps=30, extra_args=["-vcodec", "libx264"])
 
-- 
2.43.0


From 4a11dc31d5e68227c36c65f67fd2448184f5d070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:24 +0000
Subject: [PATCH 74/82] fix: center the contours which are displayed when an
 animation is first centered

---
 src/py_eddy_tracker/appli/gui.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/appli/gui.py b/src/py_eddy_tracker/appli/gui.py
index 0d9611d..db923cb 100644
--- a/src/py_eddy_tracker/appli/gui.py
+++ b/src/py_eddy_tracker/appli/gui.py
@@ -315,8 +315,9 @@ def anim():
         # TODO: include to observation class
         x0 = eddies.lon[0]
         eddies.lon[:] = (eddies.lon - x0 + 180) % 360 + x0 - 180
-        eddies.contour_lon_e[:] = (
-            (eddies.contour_lon_e.T - eddies.lon + 180) % 360 + eddies.lon - 180
+        x_name, _ = eddies.intern(args.intern)
+        eddies[x_name][:] = (
+            (eddies[x_name].T - eddies.lon + 180) % 360 + eddies.lon - 180
         ).T
 
     kw = dict()
-- 
2.43.0


From 5e7c6700ad6613f04f5448a501dfb48c193f9416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:06 +0000
Subject: [PATCH 75/82] fix: pixels_in returned the pixels of the first grid
 when called with another one

---
 src/py_eddy_tracker/dataset/grid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 01f66d2..9fca0db 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -202,10 +202,11 @@ BasePath.fit_circle = fit_circle_path
 
 
 def pixels_in(self, grid):
-    if not hasattr(self, "_slice"):
+    # Indexes are those of a grid, another one needs to compute them again
+    if getattr(self, "_grid", None) is not grid:
         self._slice = grid.bbox_indice(self.vertices)
-    if not hasattr(self, "_pixels_in"):
         self._pixels_in = grid.get_pixels_in(self)
+        self._grid = grid
     return self._pixels_in
 
 
-- 
2.43.0


From 9c209543e37d86f1314a9079ed279d4457a6ee1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:06 +0000
Subject: [PATCH 76/82] fix: uv_for_advection used the speeds of the previous
 height when h_name changed

---
 src/py_eddy_tracker/dataset/grid.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/dataset/grid.py b/src/py_eddy_tracker/dataset/grid.py
index 9fca0db..2df094f 100644
--- a/src/py_eddy_tracker/dataset/grid.py
+++ b/src/py_eddy_tracker/dataset/grid.py
@@ -1879,6 +1879,7 @@ class RegularGridDataset(GridDataset):
                 attrs=h_dict["attrs"].copy(),
                 args=tuple((variable, *h_dict["args"][1:])),
                 kwargs=h_dict["kwargs"].copy(),
+                h_name=grid_height,
             )
             if "units" in self.variables_description[variable]["attrs"]:
                 self.variables_description[variable]["attrs"]["units"] += "/s"
@@ -2037,7 +2038,10 @@ class RegularGridDataset(GridDataset):
         """
         if h_name is not None:
             u_name, v_name = "u", "v"
-            if u_name not in self.vars:
+            if (
+                u_name not in self.vars
+                or self.variables_description[u_name].get("h_name", h_name) != h_name
+            ):
                 self.add_uv(h_name)
                 self.vars.pop(h_name, None)
 
-- 
2.43.0


From e9bc14f9ca27cfe226a17fc9e0e5b0fbfd684d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:01 +0000
Subject: [PATCH 77/82] fix: two slices given as filters were united instead of
 intersected

---
 src/py_eddy_tracker/observations/observation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 7fab813..853b59b 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -1983,8 +1983,9 @@ class EddiesObservations(object):
             reject = ones(len(self), dtype="bool")
             reject[filter1] = False
             if isinstance(filter2, slice):
-                reject[filter2] = False
-                return ~reject
+                select = zeros(len(self), dtype="bool")
+                select[filter2] = True
+                return ~reject * select
             # Mask case
             elif filter2.dtype == bool:
                 return ~reject * filter2
-- 
2.43.0


From 667c55ae94702f9f37c0949425680b7bad22f451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:01 +0000
Subject: [PATCH 78/82] fix: loess filter ignored the first and the last
 observation of the dataset

---
 src/py_eddy_tracker/observations/tracking.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index 1f63c80..a4926a5 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -852,21 +852,23 @@ def track_loess_filter(half_window, x, y, track):
         if i != 0:
             i_previous = i - 1
             dx = x[i] - x[i_previous]
-            while (
-                dx < half_window and i_previous != 0 and cur_track == track[i_previous]
-            ):
+            while dx < half_window and cur_track == track[i_previous]:
                 w = (1 - (dx / half_window) ** 3) ** 3
                 y_sum += y[i_previous] * w
                 w_sum += w
+                if i_previous == 0:
+                    break
                 i_previous -= 1
                 dx = x[i] - x[i_previous]
         if i != last:
             i_next = i + 1
             dx = x[i_next] - x[i]
-            while dx < half_window and i_next != last and cur_track == track[i_next]:
+            while dx < half_window and cur_track == track[i_next]:
                 w = (1 - (dx / half_window) ** 3) ** 3
                 y_sum += y[i_next] * w
                 w_sum += w
+                if i_next == last:
+                    break
                 i_next += 1
                 dx = x[i_next] - x[i]
         y_new[i] = y_sum / w_sum
-- 
2.43.0


From dc171bd200bc866faf30306b3cef90cfa82bf0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:01 +0000
Subject: [PATCH 79/82] fix: tracks could not be concatenated with an empty
 dataset

---
 src/py_eddy_tracker/observations/tracking.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/py_eddy_tracker/observations/tracking.py b/src/py_eddy_tracker/observations/tracking.py
index a4926a5..0c62c90 100644
--- a/src/py_eddy_tracker/observations/tracking.py
+++ b/src/py_eddy_tracker/observations/tracking.py
@@ -329,7 +329,8 @@ class TrackEddiesObservations(GroupEddiesObservations):
             sl = slice(i_start, i_start + nb_obs)
             new_track = obs.track + last_track
             eddies.track[sl] = new_track
-            last_track = new_track.max() + 1
+            if nb_obs:
+                last_track = new_track.max() + 1
             i_start += nb_obs
         return eddies
 
-- 
2.43.0


From 52592dc89135538f5cad78c33af16fa45b4c3171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:01 +0000
Subject: [PATCH 80/82] fix: raw values read in zarr were truncated

---
 src/py_eddy_tracker/observations/observation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index 853b59b..f523098 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -929,6 +929,8 @@ class EddiesObservations(object):
                     data -= add_offset
                 if scale_factor is not None:
                     data /= scale_factor
+                if handler_eddies.dtype.kind in "iu":
+                    data = data.round()
 
             sl_out = slice(i - i_start, i - i_start + buffer_size)
             handler_eddies[sl_out] = data
-- 
2.43.0


From 97b6c082acb632c0775098efda09ffe00a30c4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:01 +0000
Subject: [PATCH 81/82] fix: find_link both ways depended on the order of
 observations, and missed some

---
 src/py_eddy_tracker/observations/network.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/py_eddy_tracker/observations/network.py b/src/py_eddy_tracker/observations/network.py
index 687c125..ea9abb0 100644
--- a/src/py_eddy_tracker/observations/network.py
+++ b/src/py_eddy_tracker/observations/network.py
@@ -489,6 +489,7 @@ class NetworkObservations(GroupEddiesObservations):
                 segments_connexion[n_seg][2].append((i_n, i_slice.stop - 1, seg))
 
         mask = zeros(segment.size, dtype=bool)
+        mask_backward = zeros(segment.size, dtype=bool)
 
         def func_forward(seg, indice):
             seg_slice, _forward, _ = segments_connexion[seg]
@@ -504,12 +505,12 @@ class NetworkObservations(GroupEddiesObservations):
         def func_backward(seg, indice):
             seg_slice, _, _backward = segments_connexion[seg]
 
-            mask[seg_slice.start : indice + 1] = True
+            mask_backward[seg_slice.start : indice + 1] = True
             for i_begin, i_end, seg2 in _backward:
                 if i_begin > indice:
                     continue
 
-                if not mask[i_end]:
+                if not mask_backward[i_end]:
                     func_backward(seg2, i_end)
 
         for indice in i_obs:
@@ -519,7 +520,7 @@ class NetworkObservations(GroupEddiesObservations):
             if backward:
                 func_backward(segment[indice], indice)
 
-        return self.extract_with_mask(mask)
+        return self.extract_with_mask(mask | mask_backward)
 
     def connexions(self, multi_network=False):
         """Create dictionnary for each segment, gives the segments in interaction with
-- 
2.43.0


From 736d91ac886151c4f4071c78681c7e08f88bad34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:35 +0000
Subject: [PATCH 82/82] fix: no field could be added once one was removed

---
 src/py_eddy_tracker/observations/observation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/py_eddy_tracker/observations/observation.py b/src/py_eddy_tracker/observations/observation.py
index f523098..0c2a79c 100644
--- a/src/py_eddy_tracker/observations/observation.py
+++ b/src/py_eddy_tracker/observations/observation.py
@@ -423,8 +423,10 @@ class EddiesObservations(object):
         nb_obs = len(self)
         fields = set(fields)
         only_variables = set(self.fields) - fields
-        track_extra_variables = set(self.track_extra_variables) - fields
-        array_variables = set(self.array_variables) - fields
+        track_extra_variables = [
+            i for i in self.track_extra_variables if i not in fields
+        ]
+        array_variables = [i for i in self.array_variables if i not in fields]
         new = self.__class__(
             size=nb_obs,
             track_extra_variables=track_extra_variables,
-- 
2.43.0

