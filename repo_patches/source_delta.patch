From 4eeaadb0ea3b2df393872f9c4130a09c509ee996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:10 +0000
Subject: [PATCH 01/50] fix: minimum bounding circle of collinear-looking,
 obtuse and far-from-origin hulls

Rounding could push the cosine of a corner outside [-1, 1] (NaN angle), the
three circles of a triangle do not tie exactly so the wrong corner could be
inspected, and squared coordinates lose their precision far from the origin.
---
 pointpats/centrography.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pointpats/centrography.py b/pointpats/centrography.py
index 89d6f09..2eb1f7a 100644
--- a/pointpats/centrography.py
+++ b/pointpats/centrography.py
@@ -992,7 +992,9 @@ def _(points: np.ndarray, **buffer_kw) -> tuple[tuple[float, float], float]:
         has_numba = True
     except ImportError:
         has_numba = False
-    points = hull(points)
+    # work around the origin: squared coordinates lose precision far from it
+    origin = points.mean(axis=0)
+    points = hull(points - origin)
     if not_clockwise(points):
         points = points[::-1]
         if not_clockwise(points):
@@ -1002,7 +1004,7 @@ def _(points: np.ndarray, **buffer_kw) -> tuple[tuple[float, float], float]:
         circ = _skyum_numba(_points)[0]
     else:
         circ = _skyum_lists(_points)[0]
-    return (circ[1], circ[2]), circ[0]
+    return (circ[1] + origin[0], circ[2] + origin[1]), circ[0]
 
 
 @minimum_bounding_circle.register
@@ -1033,9 +1035,10 @@ def _skyum_lists(points):
             )
             for p in points
         ]
-        radii = [c[0] for c in circles]
-        lexord = np.lexsort((angles, radii))
-        lexmax = lexord[-1]
+        radii = np.array([c[0] for c in circles])
+        # the maximum angle for the largest radius, up to rounding: the circles
+        # of a triangle's three corners have to tie
+        lexmax = (angles * (radii >= radii.max() * (1 - 1e-9))).argmax()
         candidate = (
             _prec(points[lexmax], points),
             points[lexmax],
@@ -1083,8 +1086,9 @@ try:
         # workaround for no lexsort in numba
         radius_argmax = radii.argmax()
         radius_max = radii[radius_argmax]
-        # the maximum angle for the largest radius
-        lexmax = (angles * (radii == radius_max)).argmax()
+        # the maximum angle for the largest radius, up to rounding: the circles
+        # of a triangle's three corners have to tie
+        lexmax = (angles * (radii >= radius_max * (1 - 1e-9))).argmax()
 
         if angles[lexmax] <= (np.pi / 2.0):
             return True, points, lexmax, circles[lexmax]
@@ -1109,7 +1113,10 @@ def _angle(p, q, r):
     pq = p - q
     rq = r - q
     magnitudes = np.linalg.norm(pq) * np.linalg.norm(rq)
-    return np.abs(np.arccos(np.dot(pq, rq) / magnitudes))
+    cosine = np.dot(pq, rq) / magnitudes
+    # rounding can push the cosine of (nearly) collinear points out of [-1, 1]
+    cosine = min(max(cosine, -1.0), 1.0)
+    return np.abs(np.arccos(cosine))
 
 
 def _prec(p, _l):
-- 
2.43.0


From 6cce05496a82942e7e8c73c525bb3f14acff04e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:10 +0000
Subject: [PATCH 02/50] fix: standard distance loses its precision far from the
 origin

---
 pointpats/centrography.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/centrography.py b/pointpats/centrography.py
index 2eb1f7a..4751c78 100644
--- a/pointpats/centrography.py
+++ b/pointpats/centrography.py
@@ -582,7 +582,7 @@ def std_distance(points) -> np.float64:
 def _(points: np.ndarray) -> np.float64:
     n, _ = points.shape
     m = points.mean(axis=0)
-    return np.sqrt(((points * points).sum(axis=0) / n - m * m).sum())
+    return np.sqrt((((points - m) ** 2).sum(axis=0) / n).sum())
 
 
 @std_distance.register
-- 
2.43.0


From f6d10febb1a244f2dfa3a059462192e82406e137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:10 +0000
Subject: [PATCH 03/50] fix: PointPattern.unique keeps the window instead of a
 bound method

---
 pointpats/pointpattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/pointpattern.py b/pointpats/pointpattern.py
index 4eb6832..536c8a3 100644
--- a/pointpats/pointpattern.py
+++ b/pointpats/pointpattern.py
@@ -471,7 +471,7 @@ class PointPattern:
         """
         names = self.df.columns.values.tolist()
         coord_names = self.coord_names
-        window = self.set_window
+        window = self.window
         unique_df = self.df.drop_duplicates()
         return PointPattern(
             unique_df, names=names, coord_names=coord_names, window=window
-- 
2.43.0


From 3782f8a357cb33b25ee8a155137ec7ae06b322aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:10 +0000
Subject: [PATCH 04/50] fix: PointPattern.knn returned the point itself among
 coincident points

---
 pointpats/pointpattern.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pointpats/pointpattern.py b/pointpats/pointpattern.py
index 536c8a3..e8bfd77 100644
--- a/pointpats/pointpattern.py
+++ b/pointpats/pointpattern.py
@@ -11,6 +11,7 @@ from matplotlib.collections import PatchCollection
 from matplotlib.patches import Polygon
 
 from .centrography import hull
+from .geometry import k_neighbors
 from .util import cached_property
 from .window import as_window, poly_from_bbox
 
@@ -339,8 +340,8 @@ class PointPattern:
         """
         if k < 1:
             raise ValueError("k must be at least 1")
-        nn = self.tree.query(self.tree.data, k=k + 1)
-        return nn[1][:, 1:], nn[0][:, 1:]
+        nnd, nn = k_neighbors(self.tree, self.tree.data, k)
+        return nn, nnd
 
     def _nn_sum(self):
         """
-- 
2.43.0


From 5ab7fb0793fa6451c1ef06fb7b3c48ca6a7066eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:10 +0000
Subject: [PATCH 05/50] fix: membership in a PointPattern looks at its
 coordinate columns

---
 pointpats/pointpattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointpats/pointpattern.py b/pointpats/pointpattern.py
index e8bfd77..5688bab 100644
--- a/pointpats/pointpattern.py
+++ b/pointpats/pointpattern.py
@@ -124,8 +124,8 @@ class PointPattern:
         >>> [1, 3] in pp
         True
         """
-        name = self.df.columns.values.tolist()
-        return ((self.df[name[0]] == n[0]) & (self.df[name[1]] == n[1])).any()
+        x, y = self.coord_names
+        return ((self.df[x] == n[0]) & (self.df[y] == n[1])).any()
 
     def set_window(self, window):
         try:
-- 
2.43.0


From aebc6eac09a2f8b42ba0e5ddb908592ff15a8b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:32 +0000
Subject: [PATCH 06/50] fix: PointPattern appended mark names to the caller's
 coord_names

---
 pointpats/pointpattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/pointpattern.py b/pointpats/pointpattern.py
index 5688bab..e6a0b1e 100644
--- a/pointpats/pointpattern.py
+++ b/pointpats/pointpattern.py
@@ -73,7 +73,7 @@ class PointPattern:
         if coord_names is None:
             coord_names = names[:2] if names is not None else ["x", "y"]
         if names is None:
-            col_names = coord_names
+            col_names = list(coord_names)
             if p > 2:
                 for m in range(2, p):
                     col_names.append(f"mark_{m - 2}")
-- 
2.43.0


From dce0b1fa408c54446bf56bcfd0e41c5e21bc4072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:32 +0000
Subject: [PATCH 07/50] fix: lambda_window follows a replaced window

---
 pointpats/pointpattern.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pointpats/pointpattern.py b/pointpats/pointpattern.py
index e6a0b1e..5e3edc6 100644
--- a/pointpats/pointpattern.py
+++ b/pointpats/pointpattern.py
@@ -292,7 +292,8 @@ class PointPattern:
         """
         return self.n / self.window.area
 
-    lambda_window = cached_property(_lambda_window)
+    # the window can be replaced, so this one is not cached
+    lambda_window = property(_lambda_window)
 
     def _hull_area(self):
         """
-- 
2.43.0


From 781cf0119f10d22bfee5dcd08d934ffcf2aa7641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:30 +0000
Subject: [PATCH 08/50] fix: PoissonClusterPointProcess could not draw a single
 realization

---
 pointpats/process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointpats/process.py b/pointpats/process.py
index 5a65363..bfb67e2 100644
--- a/pointpats/process.py
+++ b/pointpats/process.py
@@ -144,7 +144,7 @@ class PointProcess:
         n = parameter["n"]
         while c < n:
             pnts = self.realize(n)
-            pnts = [ps.cg.shapes.Point((x[0], y[0])) for x, y in pnts]
+            pnts = [ps.cg.shapes.Point((x, y)) for x, y in pnts]
             pins = self.window.filter_contained(pnts)
             sample.extend(pins)
             c = len(sample)
@@ -291,7 +291,7 @@ class PoissonPointProcess(PointProcess):
         _l, b, r, t = self.window.bbox
         xs = np.random.uniform(_l, r, (n, 1))
         ys = np.random.uniform(b, t, (n, 1))
-        return zip(xs, ys, strict=True)
+        return np.hstack((xs, ys))
 
 
 class PoissonClusterPointProcess(PointProcess):
-- 
2.43.0


From a4f89f1f0da60753ef37cc240c0bc4df7901519c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:30 +0000
Subject: [PATCH 09/50] fix: a conditioned realization without events broke
 asPP=True

---
 pointpats/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/process.py b/pointpats/process.py
index bfb67e2..08b2d3a 100644
--- a/pointpats/process.py
+++ b/pointpats/process.py
@@ -148,7 +148,7 @@ class PointProcess:
             pins = self.window.filter_contained(pnts)
             sample.extend(pins)
             c = len(sample)
-        return np.array([np.asarray(p) for p in sample[:n]])
+        return np.array([np.asarray(p) for p in sample[:n]]).reshape(-1, 2)
 
     def realize(self):
         pass
-- 
2.43.0


From f4685984b4cbbdb090e7dff966a50a19a756d97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:30 +0000
Subject: [PATCH 10/50] fix: simulators dropped the observation axis of
 single-point replications

Besides returning (n_replications, 2) or (2,) arrays, this broke cluster
processes with one seed.
---
 pointpats/random.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pointpats/random.py b/pointpats/random.py
index 7ff0105..920a695 100644
--- a/pointpats/random.py
+++ b/pointpats/random.py
@@ -185,7 +185,7 @@ def poisson(hull, intensity=None, size=None, rng=None):
             if _contains(hull, x, y):
                 result[i_replication, i_observation] = (x, y)
                 i_observation += 1
-    return result.squeeze()
+    return result[0] if n_simulations == 1 else result
 
 
 def normal(hull, center=None, cov=None, size=None, rng=None):
@@ -281,7 +281,7 @@ def normal(hull, center=None, cov=None, size=None, rng=None):
             if _contains(hull, x, y):
                 result[i_replication, i_observation] = (x, y)
                 i_observation += 1
-    return result.squeeze()
+    return result[0] if n_simulations == 1 else result
 
 
 def cluster_poisson(
@@ -384,7 +384,7 @@ def cluster_poisson(
             )
             clusters[i_cluster] = numpy.vstack((seed, candidates))
         result[i_replication] = numpy.vstack(clusters)
-    return result.squeeze()
+    return result[0] if n_simulations == 1 else result
 
 
 def cluster_normal(hull, cov=None, size=None, n_seeds=2, rng=None):
@@ -465,7 +465,7 @@ def cluster_normal(hull, cov=None, size=None, n_seeds=2, rng=None):
             )
             clusters[i_cluster] = numpy.vstack((center, candidates))
         result[i_replication] = numpy.vstack(clusters)
-    return result.squeeze()
+    return result[0] if n_simulations == 1 else result
 
 
 def _uniform_circle(
@@ -699,4 +699,4 @@ def strauss(
                 "`gamma`, `radius`, or `max_iter`."
             )
 
-    return result.squeeze()
+    return result[0] if n_simulations == 1 else result
-- 
2.43.0


From 82e1a0066709f96015d979b151dd20a064d18431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:30 +0000
Subject: [PATCH 11/50] fix: cluster_poisson only took arrays of radii, not
 other iterables

---
 pointpats/random.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pointpats/random.py b/pointpats/random.py
index 920a695..2d0703a 100644
--- a/pointpats/random.py
+++ b/pointpats/random.py
@@ -338,15 +338,15 @@ def cluster_poisson(
     if isinstance(hull, numpy.ndarray):
         hull = hull if hull.shape == (4,) else _prepare_hull(hull)
 
-    if isinstance(cluster_radius, numpy.ndarray):
-        cluster_radii = cluster_radius.flatten()
+    if isinstance(cluster_radius, (int, float)):
+        cluster_radii = [cluster_radius] * n_seeds
+    elif cluster_radius is not None:
+        cluster_radii = numpy.asarray(cluster_radius).flatten()
         assert len(cluster_radii) == n_seeds, (
             f"number of radii provided ({len(cluster_radii)})"
             f"does not match number of clusters requested"
             f" ({n_seeds})."
         )
-    elif isinstance(cluster_radius, (int, float)):
-        cluster_radii = [cluster_radius] * n_seeds
 
     n_observations, n_simulations, intensity = parse_size_and_intensity(
         hull, intensity=intensity, size=size
-- 
2.43.0


From df66415a706d4d569de1ff1a692f73f78c52d968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:30 +0000
Subject: [PATCH 12/50] fix: strauss proposed points by intensity instead of by
 number

Only hulls with an area of one got the number of points meant.
---
 pointpats/random.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointpats/random.py b/pointpats/random.py
index 2d0703a..56bd33f 100644
--- a/pointpats/random.py
+++ b/pointpats/random.py
@@ -655,11 +655,11 @@ def strauss(
         while not found and gen_iter < max_iter:
             # Over-sample initially to improve convergence
             initial_n = int(n_observations * 1.5)
-            points = poisson(hull, intensity=initial_n, rng=rng)
+            points = poisson(hull, size=initial_n, rng=rng)
 
             for _ in range(n_iter):
                 if len(points) < n_observations or rng.random() < 0.5:
-                    new_point = poisson(hull, 1, rng=rng)
+                    new_point = poisson(hull, size=1, rng=rng)
                     trial_points = numpy.vstack([points, new_point])
                     k_old = _pairwise_count_kdtree(points, r)
                     k_new = _pairwise_count_kdtree(trial_points, r)
-- 
2.43.0


From 56819028445ac1f772a115fcae6a60a3d4ecdb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:30 +0000
Subject: [PATCH 13/50] fix: cluster_normal kept the default covariance of the
 first replication

---
 pointpats/random.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pointpats/random.py b/pointpats/random.py
index 56bd33f..a62b8b6 100644
--- a/pointpats/random.py
+++ b/pointpats/random.py
@@ -441,7 +441,9 @@ def cluster_normal(hull, cov=None, size=None, n_seeds=2, rng=None):
     for i_replication in range(n_simulations):
         centers = poisson(hull, size=n_seeds, rng=seeds[i_replication])
         if cov is None:
-            cov = spatial.distance.pdist(centers).mean() ** 2
+            replication_cov = spatial.distance.pdist(centers).mean() ** 2
+        else:
+            replication_cov = cov
         clusters = numpy.array_split(result[i_replication], n_seeds)
         candidate_seeds = rng.integers(100_000, size=n_seeds)
         for i_cluster, center in enumerate(centers):
@@ -459,7 +461,7 @@ def cluster_normal(hull, cov=None, size=None, n_seeds=2, rng=None):
             candidates = normal(
                 hull,
                 center=center,
-                cov=cov,
+                cov=replication_cov,
                 size=n_in_cluster - 1,
                 rng=candidate_seeds[i_cluster],
             )
-- 
2.43.0


From 072b52257574da1af3dd0a2558537d949bf3a37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:04 +0000
Subject: [PATCH 14/50] fix: an intensity of n / area could lose one of the n
 observations

---
 pointpats/random.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pointpats/random.py b/pointpats/random.py
index a62b8b6..15fbbd0 100644
--- a/pointpats/random.py
+++ b/pointpats/random.py
@@ -38,6 +38,18 @@ from .geometry import spatial
 # ------------------------------------------------------------ #
 
 
+def _expected_count(hull, intensity):
+    """
+    Number of observations at a given intensity. The product is truncated, but an
+    intensity computed as n / area has to give n back despite of rounding.
+    """
+    expected = _area(hull) * intensity
+    nearest = round(expected)
+    if abs(expected - nearest) <= 1e-9 * max(1, nearest):
+        return int(nearest)
+    return int(expected)
+
+
 def parse_size_and_intensity(hull, intensity=None, size=None):
     """
     Given a hull, an intensity, and a size int/tuple, correctly
@@ -72,7 +84,7 @@ def parse_size_and_intensity(hull, intensity=None, size=None):
         if intensity is not None:
             # if intensity is provided, assume
             # n_observations
-            n_observations = int(_area(hull) * intensity)
+            n_observations = _expected_count(hull, intensity)
         else:
             # default to 100 points
             n_observations = 100
@@ -103,7 +115,7 @@ def parse_size_and_intensity(hull, intensity=None, size=None):
     elif isinstance(size, int):
         # assume int size with specified intensity means n_simulations at x intensity
         if intensity is not None:
-            n_observations = int(intensity * _area(hull))
+            n_observations = _expected_count(hull, intensity)
             n_simulations = size
         else:  # assume we have one replication at the specified number of points
             n_simulations = 1
-- 
2.43.0


From 462bb8279b344c25de366ac2cbf8dbde2c535702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 15/50] fix: QStatistic could not use a single realization

---
 pointpats/quadrat_statistics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pointpats/quadrat_statistics.py b/pointpats/quadrat_statistics.py
index 44f4ff3..f45f736 100644
--- a/pointpats/quadrat_statistics.py
+++ b/pointpats/quadrat_statistics.py
@@ -656,6 +656,8 @@ class QStatistic:
             intensity = n / float(self.window.area)
 
             reals = poisson(self.window, intensity, realizations, rng=self.rng)
+            if realizations == 1:  # no replication axis
+                reals = [reals]
 
             chi2_realizations = []
             for i in range(realizations):
-- 
2.43.0


From 5d9821c10e5acbf9727ad70ba4ed3a85477f6f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 16/50] fix: HexagonM lost or miscounted points on the upper
 and right edge

---
 pointpats/quadrat_statistics.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pointpats/quadrat_statistics.py b/pointpats/quadrat_statistics.py
index f45f736..0070d17 100644
--- a/pointpats/quadrat_statistics.py
+++ b/pointpats/quadrat_statistics.py
@@ -328,7 +328,7 @@ class HexagonM:
             temp = math.ceil((range_y - self.semi_height) / (2.0 * self.semi_height))
             self.count_row_even += int(temp)
 
-        self.count_row_odd = int(math.ceil(range_y / (2.0 * self.semi_height)))
+        self.count_row_odd = max(1, int(math.ceil(range_y / (2.0 * self.semi_height))))
 
         self.num = self.count_row_odd * (
             (self.count_column // 2) + (self.count_column % 2)
@@ -364,7 +364,6 @@ class HexagonM:
                 center_index_y = possible_y_index_odd
                 if center_index_x % 2 == 0:
                     center_index_y = possible_y_index_even
-                dict_id_count[center_index_x + center_index_y * self.count_column] += 1
             else:
                 center_index_x = int(intercept_degree_x // 3)
                 center_x = center_index_x * semi_cell_length * 3.0 + x_min
@@ -400,7 +399,18 @@ class HexagonM:
                     if center_index_x % 2 == 0:
                         center_index_y = possible_y_index_even
 
-                dict_id_count[center_index_x + center_index_y * self.count_column] += 1
+            # a point on the outer edge belongs to the cell inside of the grid
+            if center_index_x >= self.count_column:
+                center_index_x = self.count_column - 1
+                center_index_y = possible_y_index_odd
+                if center_index_x % 2 == 0:
+                    center_index_y = possible_y_index_even
+            count_row = (
+                self.count_row_odd if center_index_x % 2 else self.count_row_even
+            )
+            center_index_y = min(center_index_y, count_row - 1)
+
+            dict_id_count[center_index_x + center_index_y * self.count_column] += 1
 
         return dict_id_count
 
-- 
2.43.0


From d159b8d7bc1b5a6f698a69ee678d903d5d22a8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 17/50] fix: HexagonM.num swapped the even and odd columns

---
 pointpats/quadrat_statistics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointpats/quadrat_statistics.py b/pointpats/quadrat_statistics.py
index 0070d17..3939cd6 100644
--- a/pointpats/quadrat_statistics.py
+++ b/pointpats/quadrat_statistics.py
@@ -330,9 +330,9 @@ class HexagonM:
 
         self.count_row_odd = max(1, int(math.ceil(range_y / (2.0 * self.semi_height))))
 
-        self.num = self.count_row_odd * (
+        self.num = self.count_row_even * (
             (self.count_column // 2) + (self.count_column % 2)
-        ) + self.count_row_even * (self.count_column // 2)
+        ) + self.count_row_odd * (self.count_column // 2)
 
     def point_location_sta(self):
         semi_cell_length = self.h_length / 2.0
-- 
2.43.0


From 6a297b4d2fcfe6bfedb8c33b41cd8e09184fec13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:19 +0000
Subject: [PATCH 18/50] fix: g took the zero diagonal of a full distance matrix
 for neighbors

---
 pointpats/distance_statistics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index fde0cd6..ddef926 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -245,6 +245,9 @@ def g(
                     " Computing this and discarding the rest.",
                     stacklevel=2,
                 )
+                # the distance of a point to itself is not a neighbor distance
+                distances = distances.astype(float)
+                numpy.fill_diagonal(distances, numpy.inf)
                 distances = distances.min(axis=1)
             else:
                 k, p = distances.shape
-- 
2.43.0


From 237b66897e38b3f0124847b33494bd00c24d0dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:19 +0000
Subject: [PATCH 19/50] fix: f and g ignored the distances outside of the
 support

Both were scaled to reach one at the end of any support, and to start from zero
at its start: they were no distribution functions of the distances.
---
 pointpats/distance_statistics.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index ddef926..a443abc 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -111,6 +111,16 @@ def _prepare(coordinates, support, distances, metric, hull, edge_correction):
     return coordinates, support, distances, metric, hull, edge_correction
 
 
+def _cumulative_fractions(distances, support):
+    """
+    the fraction of all the distances, including those outside of the support, that
+    have been reached at each value of the support
+    """
+    counts, bins = numpy.histogram(distances, bins=support)
+    below = (distances < bins[0]).sum()
+    return bins, numpy.cumsum([below, *counts]) / numpy.size(distances)
+
+
 # ------------------------------------------------------------#
 # Statistical Functions                                       #
 # ------------------------------------------------------------#
@@ -194,10 +204,7 @@ def f(
             distances, _ = tree.query(randoms, k=1)
             distances = distances.squeeze()
 
-    counts, bins = numpy.histogram(distances, bins=support)
-    fracs = numpy.cumsum(counts) / counts.sum()
-
-    return bins, numpy.asarray([0, *fracs])
+    return _cumulative_fractions(distances, support)
 
 
 def g(
@@ -284,10 +291,7 @@ def g(
         finally:
             distances, indices = _k_neighbors(tree, coordinates, k=1)
 
-    counts, bins = numpy.histogram(distances.squeeze(), bins=support)
-    fracs = numpy.cumsum(counts) / counts.sum()
-
-    return bins, numpy.asarray([0, *fracs])
+    return _cumulative_fractions(distances.squeeze(), support)
 
 
 def j(
-- 
2.43.0


From 7b3629c49e17e2df3fc2e850201ff4f081aec255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:19 +0000
Subject: [PATCH 20/50] fix: empty space of f_test and j_test

The empty space points were drawn in the bounding box whatever the hull, and the
observed distances dropped the i-th event for the i-th empty space point.
---
 pointpats/distance_statistics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index a443abc..5135130 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -569,12 +569,12 @@ def _ripley_test(
     if calltype in ("F", "J"):  # these require simulations
         core_kwargs["hull"] = hull
         # amortize to avoid doing this every time
-        empty_space_points = poisson(coordinates, size=(1000, 1))
+        empty_space_points = poisson(hull, size=(1000, 1))
 
         if distances is None:
             # Note: We now use the original coordinates' tree to calculate the observed
             # distance for the first time, as per the original logic flow.
-            empty_space_distances, _ = _k_neighbors(tree, empty_space_points, k=1)
+            empty_space_distances, _ = tree.query(empty_space_points, k=1)
 
             if calltype == "F":
                 distances = empty_space_distances.squeeze()
-- 
2.43.0


From 9e7babf7f2d38bed2bde20297fe641dd887fb867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:19 +0000
Subject: [PATCH 21/50] fix: p-values of zero in the Ripley tests

With all the simulations at or above the observed statistic, even where both
are constant, the p-value was zero.
---
 pointpats/distance_statistics.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index 5135130..36f3b7a 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -623,12 +623,13 @@ def _ripley_test(
     if simulations_array.shape[0] == 0:
         pvalues = numpy.nan * numpy.ones_like(observed_support)
     else:
-        # Calculate how many simulations are as extreme as the observed statistic
-        pvalues_count = (simulations_array >= observed_statistic).sum(axis=0)
+        # Calculate how many simulations are as extreme as the observed statistic,
+        # in the direction of the observed deviation
+        n_above = (simulations_array >= observed_statistic).sum(axis=0)
+        n_below = (simulations_array <= observed_statistic).sum(axis=0)
 
         # Conservative p-value calculation
-        pvalues = (pvalues_count + 1) / (n_simulations + 1)
-        pvalues = numpy.minimum(pvalues, 1 - pvalues)
+        pvalues = (numpy.minimum(n_above, n_below) + 1) / (n_simulations + 1)
     # --- END P-VALUE CALCULATION ---
 
     return result_container(
-- 
2.43.0


From 54535ff17e82dff0258160bcb7d05d8e8ec25101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:19 +0000
Subject: [PATCH 22/50] fix: j_test returned nothing without truncation and cut
 its simulations

The simulations were truncated by replication instead of by distance.
---
 pointpats/distance_statistics.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index 36f3b7a..f4a2535 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -868,16 +868,23 @@ def j_test(
         truncate=False,
     )
     if truncate:
-        result_trunc = _truncate(*result)
+        # the simulations have the support on their second axis
+        simulations = result.simulations
+        result_trunc = _truncate(
+            *result[:3], simulations.T if simulations is not None else None
+        )
+        if simulations is not None:
+            result_trunc = (*result_trunc[:3], result_trunc[3].T)
         result_trunc = JtestResult(*result_trunc)
         if len(result_trunc.statistic) != len(result.statistic):
             warnings.warn(
                 f"requested {support} bins to evaluate the J function, but"
                 f" it reaches infinity at d={result[0][-1]:.4f}, meaning only"
-                f" {len(result[0])} bins will be used to characterize the J function.",
+                f" {len(result_trunc[0])} bins will be used to characterize the"
+                " J function.",
                 stacklevel=2,
             )
-            return result_trunc
+        return result_trunc
 
     else:
         return result
-- 
2.43.0


From f7fe93ec08d6ce493ed44e90390ed33aeccad382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:19 +0000
Subject: [PATCH 23/50] fix: plot_density with a kernel and a resolution per
 dimension

---
 pointpats/kde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/kde.py b/pointpats/kde.py
index 5657375..e617ca6 100644
--- a/pointpats/kde.py
+++ b/pointpats/kde.py
@@ -158,7 +158,7 @@ def plot_density(
         kde = FFTKDE(bw=bandwidth, kernel=kernel)
         grid, points = kde.fit(data).evaluate(resolution)
         x_mesh, y_mesh = np.unique(grid[:, 0]), np.unique(grid[:, 1])
-        z = points.reshape(resolution, resolution).T
+        z = points.reshape(len(x_mesh), len(y_mesh)).T
 
     if fill:
         cs = ax.contourf(x_mesh, y_mesh, z, levels=levels, **kwargs)
-- 
2.43.0


From eac82e56f4fb2f39676d73d9594a22d211197405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:20 +0000
Subject: [PATCH 24/50] fix: SpaceTimeEvents read the times of the examples for
 any other shapefile

---
 pointpats/spacetime.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index 69fb576..ad76033 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -140,9 +140,7 @@ class SpaceTimeEvents:
 
     def __init__(self, path, time_col, infer_timestamp=False):
         shp = lps.io.open(path)
-        head, tail = os.path.split(path)
-        dbf_tail = tail.split(".")[0] + ".dbf"
-        dbf = lps.io.open(lps.examples.get_path(dbf_tail))
+        dbf = lps.io.open(os.path.splitext(path)[0] + ".dbf")
 
         # extract the spatial coordinates from the shapefile
         x = [coords[0] for coords in shp]
-- 
2.43.0


From b59b2fe9c25e53b2e9a098db6c716b7ebe37c211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:20 +0000
Subject: [PATCH 25/50] fix: knox shuffled the caller's times

---
 pointpats/spacetime.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index ad76033..3f973c9 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -250,6 +250,9 @@ def knox(s_coords, t_coords, delta, tau, permutations=99, debug=False):  # noqa:
     """
     warn("This function is deprecated. Use Knox", FutureWarning, stacklevel=2)
 
+    # the permutations shuffle in place
+    t_coords = np.array(t_coords)
+
     # Do a kdtree on space first as the number of ties (identical points) is
     # likely to be lower for space than time.
 
-- 
2.43.0


From 1814525002157e574cf5e7a790c8337e1a4ca9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:20 +0000
Subject: [PATCH 26/50] fix: knox crashed without any pair of spatial neighbors

---
 pointpats/spacetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index 3f973c9..fcdeb19 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -259,13 +259,13 @@ def knox(s_coords, t_coords, delta, tau, permutations=99, debug=False):  # noqa:
     kd_s = cg.KDTree(s_coords)
     neigh_s = kd_s.query_pairs(delta)
     tau2 = tau * tau
-    ids = np.array(list(neigh_s))
+    ids = np.array(list(neigh_s), dtype=int).reshape(-1, 2)
 
     # For the neighboring pairs in space, determine which are also time
     # neighbors
 
     d_t = (t_coords[ids[:, 0]] - t_coords[ids[:, 1]]) ** 2
-    n_st = sum(d_t <= tau2)
+    n_st = np.sum(d_t <= tau2, axis=0)
 
     knox_result = {"stat": n_st[0]}
 
-- 
2.43.0


From b7e1d65f993d3b7619e4e93842c1e9d003a55d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:20 +0000
Subject: [PATCH 27/50] fix: KnoxLocal.sim holds the global statistics, as
 documented

---
 pointpats/spacetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index fcdeb19..4bfde28 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -1023,7 +1023,7 @@ def _knox_local(s_coords, t_coords, delta, tau, permutations=99, keep=False):
     """
     # think about passing in the global object
     # as an option to avoid recomputing the trees
-    res = _knox(s_coords, t_coords, delta, tau, permutations=permutations)
+    res = _knox(s_coords, t_coords, delta, tau, permutations=permutations, keep=keep)
     sneighbors = {i: tuple(ns) for i, ns in enumerate(res["sneighbors"])}
     tneighbors = {i: tuple(nt) for i, nt in enumerate(res["tneighbors"])}
 
@@ -1270,7 +1270,7 @@ class KnoxLocal:
         if permutations > 0:
             self.p_sim = results["p_value_sim"]
             if keep:
-                self.sim = results["sti_perm"]
+                self.sim = results["st_perm"]
 
         self.p_poisson = results["p_value_poisson"]
         self.observed = results["observed"]
-- 
2.43.0


From 5c61bc8d5f7af2ce5afba086662c2c0028ef23c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:20 +0000
Subject: [PATCH 28/50] fix: KnoxLocal.hotspots split connected clusters

The clusters were built from a single neighbor of each member.
---
 pointpats/spacetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index 4bfde28..f769277 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -1420,8 +1420,8 @@ class KnoxLocal:
         ).reset_index(drop=True)
         # significant focals can be neighbors of others (dupes)
         pdf_sig = pdf_sig.groupby("focal").first().reset_index()
-        graph = Graph.from_adjacency(pdf_sig.assign(weight=1))
-        pdf_sig["cluster"] = graph.component_labels.values
+        graph = Graph.from_adjacency(temp_neighbors.assign(weight=1))
+        pdf_sig["cluster"] = pdf_sig["focal"].map(graph.component_labels)
         if not keep_neighbors:
             pdf_sig = pdf_sig[pdf_sig.pvalue <= crit]
 
-- 
2.43.0


From c576fe34d2ac15104c4bba14b01053a7494ae57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:38 +0000
Subject: [PATCH 29/50] fix: euclidean_median missed the minimum at kinks and
 large coordinates

---
 pointpats/centrography.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pointpats/centrography.py b/pointpats/centrography.py
index 4751c78..418956d 100644
--- a/pointpats/centrography.py
+++ b/pointpats/centrography.py
@@ -887,7 +887,7 @@ def euclidean_median(points):
     Passing an array of coordinates returns an array capturing the median.
 
     >>> euclidean_median(coords)
-    array([53.51770575, 49.6572671 ])
+    array([53.51781168, 49.65727409])
 
     Passing a GeoPandas object returns a shapely geometry.
 
@@ -905,9 +905,20 @@ def euclidean_median(points):
 
 @euclidean_median.register
 def _(points: np.ndarray) -> NDArray[np.float64]:
+    # the total distance has a kink at each event, where gradients mislead, and is
+    # best minimised in standard units, regardless of location and scale
     start = mean_center(points)
-    res = minimize(dtot, start, args=(points,))
-    return res["x"]
+    scale = std_distance(points)
+    if scale == 0:
+        return start
+    res = minimize(
+        dtot,
+        np.zeros(2),
+        args=((points - start) / scale,),
+        method="Nelder-Mead",
+        options={"xatol": 1e-8, "fatol": 1e-10},
+    )
+    return start + scale * res["x"]
 
 
 @euclidean_median.register
-- 
2.43.0


From f5902d300535e253275fc959354c5f6d1d1eb2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:37 +0000
Subject: [PATCH 30/50] fix: hulls and rotated rectangles of events with
 duplicates could be invalid

---
 pointpats/centrography.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pointpats/centrography.py b/pointpats/centrography.py
index 418956d..b368977 100644
--- a/pointpats/centrography.py
+++ b/pointpats/centrography.py
@@ -196,6 +196,11 @@ def minimum_rotated_rectangle(points, return_angle=False):
         raise NotImplementedError from e
 
 
+def _distinct_multipoint(coords):
+    # GEOS can derive invalid convex hulls from more than 50 points with duplicates
+    return shapely.multipoints(np.unique(coords, axis=0))
+
+
 def _get_mrr_angle(out_points):
     angle = (
         math.degrees(
@@ -214,7 +219,7 @@ def _(
     points: np.ndarray, return_angle: bool = False
 ) -> NDArray[np.float64] | tuple[NDArray[np.float64], float]:
     out_points = shapely.get_coordinates(
-        shapely.minimum_rotated_rectangle(shapely.multipoints(points))
+        shapely.minimum_rotated_rectangle(_distinct_multipoint(points))
     )[:-1]
     if return_angle:
         return (out_points[::-1], _get_mrr_angle(out_points))
@@ -225,7 +230,8 @@ def _(
 def _(
     points: GeoPandasBase, return_angle: bool = False
 ) -> shapely.Polygon | tuple[shapely.Polygon, float]:
-    rectangle = shapely.minimum_rotated_rectangle(shapely.multipoints(points.geometry))
+    coords = shapely.get_coordinates(points.geometry)
+    rectangle = shapely.minimum_rotated_rectangle(_distinct_multipoint(coords))
 
     if return_angle:
         out_points = shapely.get_coordinates(rectangle)[:-1]
@@ -306,7 +312,8 @@ def _(points: np.ndarray) -> NDArray[np.float64]:
 
 @hull.register
 def _(points: GeoPandasBase) -> shapely.Polygon:
-    return shapely.convex_hull(shapely.multipoints(points.geometry))
+    coords = shapely.get_coordinates(points.geometry)
+    return shapely.convex_hull(_distinct_multipoint(coords))
 
 
 @singledispatch
-- 
2.43.0


From 2042eec05f5b053c5b0393bea49d9c12a679e2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:05 +0000
Subject: [PATCH 31/50] fix: minimum_bounding_circle wrong with straight
 corners on the hull

---
 pointpats/centrography.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pointpats/centrography.py b/pointpats/centrography.py
index b368977..9189856 100644
--- a/pointpats/centrography.py
+++ b/pointpats/centrography.py
@@ -1054,6 +1054,8 @@ def _skyum_lists(points):
             for p in points
         ]
         radii = np.array([c[0] for c in circles])
+        # straight corners have no finite circle and go first
+        radii[np.array(angles) > np.pi - 1e-5] = MAXD
         # the maximum angle for the largest radius, up to rounding: the circles
         # of a triangle's three corners have to tie
         lexmax = (angles * (radii >= radii.max() * (1 - 1e-9))).argmax()
@@ -1100,7 +1102,9 @@ try:
             r = points[(i + 1) % n]
             angles[i] = _angle(p, q, r)
             circles[i] = _circle(p, q, r)
-        radii = circles[:, 0]
+        radii = circles[:, 0].copy()
+        # straight corners have no finite circle and go first
+        radii[angles > np.pi - 1e-5] = MAXD
         # workaround for no lexsort in numba
         radius_argmax = radii.argmax()
         radius_max = radii[radius_argmax]
-- 
2.43.0


From 32231275b412c71374f4531cf5969f9b715d34eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:49 +0000
Subject: [PATCH 32/50] fix: to_ccf closed the caller's ring in place

---
 pointpats/window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/window.py b/pointpats/window.py
index 09c90ec..35a42ce 100644
--- a/pointpats/window.py
+++ b/pointpats/window.py
@@ -25,7 +25,7 @@ def poly_from_bbox(bbox):
 
 def to_ccf(poly):
     if poly[-1] != poly[0]:
-        poly.append(poly[0])
+        poly = [*poly, poly[0]]
     return poly
 
 
-- 
2.43.0


From f5fa0f41b701bb4f6e2c01343ad64978f50910cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:46 +0000
Subject: [PATCH 33/50] fix: cluster simulations repeated themselves, drawing
 seeds from 100000 only

---
 pointpats/random.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pointpats/random.py b/pointpats/random.py
index 15fbbd0..aa3a515 100644
--- a/pointpats/random.py
+++ b/pointpats/random.py
@@ -37,6 +37,9 @@ from .geometry import spatial
 # Utilities                                                    #
 # ------------------------------------------------------------ #
 
+# large enough for seeds drawn for replications and clusters not to coincide
+_MAX_SEED = numpy.iinfo(numpy.int64).max
+
 
 def _expected_count(hull, intensity):
     """
@@ -367,7 +370,7 @@ def cluster_poisson(
     result = numpy.empty((n_simulations, n_observations, 2))
     rng = numpy.random.default_rng(rng)
 
-    center_seeds = rng.integers(100_000, size=n_simulations)
+    center_seeds = rng.integers(_MAX_SEED, size=n_simulations)
     for i_replication in range(n_simulations):
         seeds = poisson(hull, size=n_seeds, rng=[center_seeds[i_replication]])
         if cluster_radius is None:
@@ -449,7 +452,7 @@ def cluster_normal(hull, cov=None, size=None, n_seeds=2, rng=None):
     )
     result = numpy.empty((n_simulations, n_observations, 2))
     rng = numpy.random.default_rng(rng)
-    seeds = rng.integers(100_000, size=n_simulations)
+    seeds = rng.integers(_MAX_SEED, size=n_simulations)
     for i_replication in range(n_simulations):
         centers = poisson(hull, size=n_seeds, rng=seeds[i_replication])
         if cov is None:
@@ -457,7 +460,7 @@ def cluster_normal(hull, cov=None, size=None, n_seeds=2, rng=None):
         else:
             replication_cov = cov
         clusters = numpy.array_split(result[i_replication], n_seeds)
-        candidate_seeds = rng.integers(100_000, size=n_seeds)
+        candidate_seeds = rng.integers(_MAX_SEED, size=n_seeds)
         for i_cluster, center in enumerate(centers):
             cluster_points = clusters[i_cluster]
             n_in_cluster = len(cluster_points)
-- 
2.43.0


From 7a860cb08a571e2fdea609c78394518a3ce6047a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:55 +0000
Subject: [PATCH 34/50] fix: j crashed where F is one from the first support
 value on

The message about the truncation took the last one of no values left. It now
names the distance at which J becomes infinite, as it says, in j_test as well.
---
 pointpats/distance_statistics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index f4a2535..0f2b708 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -376,7 +376,7 @@ def j(
         if len(result[1]) != len(hazard_ratio):
             warnings.warn(
                 f"requested {support} bins to evaluate the J function, but"
-                f" it reaches infinity at d={result[0][-1]:.4f}, meaning only"
+                f" it reaches infinity at d={gsupport[len(result[0])]:.4f}, meaning only"
                 f" {len(result[0])} bins will be used to characterize the J function.",
                 stacklevel=2,
             )
@@ -879,7 +879,8 @@ def j_test(
         if len(result_trunc.statistic) != len(result.statistic):
             warnings.warn(
                 f"requested {support} bins to evaluate the J function, but"
-                f" it reaches infinity at d={result[0][-1]:.4f}, meaning only"
+                " it reaches infinity at"
+                f" d={result[0][len(result_trunc[0])]:.4f}, meaning only"
                 f" {len(result_trunc[0])} bins will be used to characterize the"
                 " J function.",
                 stacklevel=2,
-- 
2.43.0


From 793e8f0d9150a203c7f84680db173869c8c79a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:28 +0000
Subject: [PATCH 35/50] fix: f_test and j_test took the support of another
 metric from Euclidean distances

They hand the distances of the metric on to f and j, which then ignored the metric
(and said so in a warning) when they computed the range of the default support.
---
 pointpats/distance_statistics.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index 0f2b708..b2e9889 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -572,6 +572,12 @@ def _ripley_test(
         empty_space_points = poisson(hull, size=(1000, 1))
 
         if distances is None:
+            # the support is one of the metric, which the functions ignore once they
+            # are given the distances
+            _, core_kwargs["support"], *_ = _prepare(
+                coordinates, support, None, metric, hull, edge_correction
+            )
+            core_kwargs["metric"] = "euclidean"
             # Note: We now use the original coordinates' tree to calculate the observed
             # distance for the first time, as per the original logic flow.
             empty_space_distances, _ = tree.query(empty_space_points, k=1)
-- 
2.43.0


From 14ad839610647576000776362c60bbdb8838e264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:54 +0000
Subject: [PATCH 36/50] fix: KnoxLocal.explore ignored the color of
 non-significant events

---
 pointpats/spacetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index f769277..8d5f22d 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -1597,7 +1597,7 @@ class KnoxLocal:
         g = g.reset_index().merge(nbs, left_on="index", right_index=True, how="left")
 
         m = g[g.color == colors["nonsig"]].explore(
-            color="grey", style_kwds=style_kwds, tiles=tiles
+            color=colors["nonsig"], style_kwds=style_kwds, tiles=tiles
         )
         blues = g[g.color == colors["neighbor"]]
         if blues.shape[0] == 0:
-- 
2.43.0


From fe79270c2f8e2ab716412c17121c1b5f8d6fc3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:25 +0000
Subject: [PATCH 37/50] fix: KnoxLocal.explore added styles to the caller's
 style_kwds

---
 pointpats/spacetime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index 8d5f22d..c40e756 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -1566,6 +1566,8 @@ class KnoxLocal:
         """
         if style_kwds is None:
             style_kwds = {"radius": radius}
+        else:
+            style_kwds = style_kwds.copy()  # (geopandas adds its defaults)
         g = self._gdf.copy()
 
         g["color"] = colors["nonsig"]
-- 
2.43.0


From 2d50949126aee50b068e2908abe8417c3226b75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:26 +0000
Subject: [PATCH 38/50] fix: f accepted distances of any dimension

---
 pointpats/distance_statistics.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index b2e9889..123caba 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -190,6 +190,13 @@ def f(
                 )
         elif distances.ndim == 1:
             p = len(distances)
+        else:
+            raise ValueError(
+                "Distances supplied can either be 2 dimensional with the same number of"
+                " rows as `coordinates` or 1 dimensional and contain the shortest"
+                " distance from each random point to some point in coordinates. Input"
+                f" matrix was {distances.ndim} dimensional"
+            )
     else:
         # Do 1000 empties. Users can control this by computing their own
         # empty space distribution.
-- 
2.43.0


From 1955783af3d926f1d7652cda59652fcd6e381c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:21 +0000
Subject: [PATCH 39/50] fix: dtot overflowed on small and unsigned integer
 coordinates

---
 pointpats/centrography.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pointpats/centrography.py b/pointpats/centrography.py
index 9189856..bfc2469 100644
--- a/pointpats/centrography.py
+++ b/pointpats/centrography.py
@@ -840,8 +840,9 @@ def dtot(coord, points) -> float:
 
 @dtot.register
 def _(coord: np.ndarray, points: np.ndarray) -> float:
-    xd = points[:, 0] - coord[0]
-    yd = points[:, 1] - coord[1]
+    # (as float: differences and squares of small or unsigned integers overflow)
+    xd = points[:, 0] - float(coord[0])
+    yd = points[:, 1] - float(coord[1])
     d = np.sqrt(xd * xd + yd * yd).sum()
     return d
 
-- 
2.43.0


From 162dd1f4d65caefdd67b2428671658c36ae6a445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:21 +0000
Subject: [PATCH 40/50] fix: the area of a bounding box, and with it k and l,
 overflowed on small integers

---
 pointpats/geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pointpats/geometry.py b/pointpats/geometry.py
index 154441a..1f24a0f 100644
--- a/pointpats/geometry.py
+++ b/pointpats/geometry.py
@@ -61,7 +61,8 @@ def _(shape: numpy.ndarray):
     If a shape describes a bounding box, compute length times width
     """
     assert len(shape) == 4, "shape is not a bounding box!"
-    width, height = shape[2] - shape[0], shape[3] - shape[1]
+    # (as float: products of small integers overflow)
+    width, height = float(shape[2]) - float(shape[0]), float(shape[3]) - float(shape[1])
     return numpy.abs(width * height)
 
 
-- 
2.43.0


From 253651360b2f58598a80943e45bc087bf426bc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:21 +0000
Subject: [PATCH 41/50] fix: areas and intensities of a PointPattern overflowed
 on small integer coordinates

---
 pointpats/pointpattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointpats/pointpattern.py b/pointpats/pointpattern.py
index 5e3edc6..d1ef3a2 100644
--- a/pointpats/pointpattern.py
+++ b/pointpats/pointpattern.py
@@ -220,7 +220,7 @@ class PointPattern:
         """
         mins = self.points.min(axis=0)
         maxs = self.points.max(axis=0)
-        return np.hstack((mins, maxs))
+        return np.hstack((mins, maxs)).astype(float)
 
     mbb = cached_property(_mbb)
 
@@ -299,7 +299,7 @@ class PointPattern:
         """
         Area of convex hull
         """
-        h = self.hull
+        h = self.hull.astype(float)  # (products of small integers overflow)
         if not np.all(h[0] == h[-1]):
             # not in closed cartographic form
             h = np.vstack((h, h[0]))
-- 
2.43.0


From 2455ac1eedf18b8e6ea4eef994a436a77ba963e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:21 +0000
Subject: [PATCH 42/50] fix: knox overflowed on small and unsigned integer
 times

---
 pointpats/spacetime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index c40e756..573c0e9 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -251,7 +251,8 @@ def knox(s_coords, t_coords, delta, tau, permutations=99, debug=False):  # noqa:
     warn("This function is deprecated. Use Knox", FutureWarning, stacklevel=2)
 
     # the permutations shuffle in place
-    t_coords = np.array(t_coords)
+    # (as float: differences and squares of small or unsigned integers overflow)
+    t_coords = np.array(t_coords, dtype=float)
 
     # Do a kdtree on space first as the number of ties (identical points) is
     # likely to be lower for space than time.
-- 
2.43.0


From 02520dfe0b25b23dc386dd1dc870051c3dcecce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:21 +0000
Subject: [PATCH 43/50] fix: normal refused its own default covariance for some
 bounding boxes

---
 pointpats/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/random.py b/pointpats/random.py
index aa3a515..2886d47 100644
--- a/pointpats/random.py
+++ b/pointpats/random.py
@@ -255,7 +255,7 @@ def normal(hull, center=None, cov=None, size=None, rng=None):
         bbox = _bbox(hull)
         width = bbox[2] - bbox[0]
         height = bbox[3] - bbox[1]
-        cov = numpy.maximum(width / 2, height / 2) ** 2
+        cov = float(numpy.maximum(width / 2, height / 2) ** 2)
 
     if isinstance(cov, (int, float)):
         sd = cov
-- 
2.43.0


From ac8e4c7f64c2543cb64587afaad81f1b2bd19ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:27 +0000
Subject: [PATCH 44/50] fix: the default covariance of normal overflowed for
 boxes of small integers

---
 pointpats/random.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointpats/random.py b/pointpats/random.py
index 2886d47..84674d5 100644
--- a/pointpats/random.py
+++ b/pointpats/random.py
@@ -253,8 +253,8 @@ def normal(hull, center=None, cov=None, size=None, rng=None):
     )
     if cov is None:
         bbox = _bbox(hull)
-        width = bbox[2] - bbox[0]
-        height = bbox[3] - bbox[1]
+        width = float(bbox[2]) - float(bbox[0])
+        height = float(bbox[3]) - float(bbox[1])
         cov = float(numpy.maximum(width / 2, height / 2) ** 2)
 
     if isinstance(cov, (int, float)):
-- 
2.43.0


From cd95791c76bc8337daf2de6c78be92a1a40365d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:36 +0000
Subject: [PATCH 45/50] fix: mantel and modified_knox reshaped one-dimensional
 arrays of the caller in place

---
 pointpats/spacetime.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index 573c0e9..0f521c4 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -364,9 +364,10 @@ def mantel(
 
     """
 
-    t = t_coords
-    s = s_coords
-    n = len(t)
+    n = len(t_coords)
+    # (the distance matrix reshapes one-dimensional input in place)
+    t = t_coords.reshape(n, -1)
+    s = s_coords.reshape(n, -1)
 
     # calculate the spatial and temporal distance matrices for the events
     distmat = cg.distance_matrix(s)
@@ -582,9 +583,10 @@ def modified_knox(s_coords, t_coords, delta, tau, permutations=99):
     0.11
 
     """
-    s = s_coords
-    t = t_coords
-    n = len(t)
+    n = len(t_coords)
+    # (the distance matrix reshapes one-dimensional input in place)
+    s = s_coords.reshape(n, -1)
+    t = t_coords.reshape(n, -1)
 
     # calculate the spatial and temporal distance matrices for the events
     sdistmat = cg.distance_matrix(s)
-- 
2.43.0


From ad3f5e37e41108912340efba1525bc6f53b194ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:01 +0000
Subject: [PATCH 46/50] fix: rotated rectangles of small patterns far from the
 origin missed their events

---
 pointpats/centrography.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pointpats/centrography.py b/pointpats/centrography.py
index bfc2469..dcca7de 100644
--- a/pointpats/centrography.py
+++ b/pointpats/centrography.py
@@ -201,6 +201,14 @@ def _distinct_multipoint(coords):
     return shapely.multipoints(np.unique(coords, axis=0))
 
 
+def _rotated_rectangle(coords):
+    # GEOS loses the precision of small rectangles far from the origin
+    coords = np.asarray(coords, dtype=float)[:, :2]
+    origin = shapely.bounds(shapely.multipoints(coords))[:2]
+    rectangle = shapely.minimum_rotated_rectangle(_distinct_multipoint(coords - origin))
+    return shapely.transform(rectangle, lambda corners: corners + origin)
+
+
 def _get_mrr_angle(out_points):
     angle = (
         math.degrees(
@@ -218,9 +226,7 @@ def _get_mrr_angle(out_points):
 def _(
     points: np.ndarray, return_angle: bool = False
 ) -> NDArray[np.float64] | tuple[NDArray[np.float64], float]:
-    out_points = shapely.get_coordinates(
-        shapely.minimum_rotated_rectangle(_distinct_multipoint(points))
-    )[:-1]
+    out_points = shapely.get_coordinates(_rotated_rectangle(points))[:-1]
     if return_angle:
         return (out_points[::-1], _get_mrr_angle(out_points))
     return out_points[::-1]
@@ -231,7 +237,7 @@ def _(
     points: GeoPandasBase, return_angle: bool = False
 ) -> shapely.Polygon | tuple[shapely.Polygon, float]:
     coords = shapely.get_coordinates(points.geometry)
-    rectangle = shapely.minimum_rotated_rectangle(_distinct_multipoint(coords))
+    rectangle = _rotated_rectangle(coords)
 
     if return_angle:
         out_points = shapely.get_coordinates(rectangle)[:-1]
-- 
2.43.0


From a25f3b09b351d536284ea4d1091b104d7508fa76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:01 +0000
Subject: [PATCH 47/50] fix: hull area of a PointPattern lost its precision far
 from the origin

---
 pointpats/pointpattern.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pointpats/pointpattern.py b/pointpats/pointpattern.py
index d1ef3a2..d0c5aa3 100644
--- a/pointpats/pointpattern.py
+++ b/pointpats/pointpattern.py
@@ -300,6 +300,7 @@ class PointPattern:
         Area of convex hull
         """
         h = self.hull.astype(float)  # (products of small integers overflow)
+        h -= h[0]  # (differences of large products lose their precision)
         if not np.all(h[0] == h[-1]):
             # not in closed cartographic form
             h = np.vstack((h, h[0]))
-- 
2.43.0


From edf67a0416a70740e3457e34de53bf8a07a183f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:01 +0000
Subject: [PATCH 48/50] fix: HexagonM miscounted events near cell sides far
 from the origin

---
 pointpats/quadrat_statistics.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/pointpats/quadrat_statistics.py b/pointpats/quadrat_statistics.py
index 3939cd6..d9207f9 100644
--- a/pointpats/quadrat_statistics.py
+++ b/pointpats/quadrat_statistics.py
@@ -379,18 +379,13 @@ class HexagonM:
                     x0, y0 = center_x + self.h_length, center_y
                     x1, y1 = center_x + semi_cell_length, center_y + self.semi_height
                     indicator = -(
-                        point[1]
-                        - (
-                            (y0 - y1) / (x0 - x1) * point[0]
-                            + (x0 * y1 - x1 * y0) / (x0 - x1)
-                        )
+                        point[1] - y0 - (y0 - y1) / (x0 - x1) * (point[0] - x0)
                     )
                 else:
                     x0, y0 = center_x + semi_cell_length, center_y - self.semi_height
                     x1, y1 = center_x + self.h_length, center_y
-                    indicator = point[1] - (
-                        (y0 - y1) / (x0 - x1) * point[0]
-                        + (x0 * y1 - x1 * y0) / (x0 - x1)
+                    indicator = (
+                        point[1] - y0 - (y0 - y1) / (x0 - x1) * (point[0] - x0)
                     )
 
                 if indicator <= 0:
-- 
2.43.0


From e13ae91efbd190c624b9a26ae859725bcd23f25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:22 +0000
Subject: [PATCH 49/50] fix: KnoxLocal.hotspots failed on events indexed by
 dates

---
 pointpats/spacetime.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index 0f521c4..04427c2 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -1288,8 +1288,11 @@ class KnoxLocal:
         self._crs = crs
         self.statistic_ = self.nsti
         self._id_map = dict(zip(rangeids, self._ids, strict=True))
-        self.adjlist["focal"] = self.adjlist["focal"].replace(self._id_map)
-        self.adjlist["neighbor"] = self.adjlist["neighbor"].replace(self._id_map)
+
+        # (of the type of the index, also without any pairs, for them to be merged)
+        index = pd.Index(self._ids)
+        self.adjlist["focal"] = index[self.adjlist["focal"].astype(int)]
+        self.adjlist["neighbor"] = index[self.adjlist["neighbor"].astype(int)]
         # reconstruct df
         geom = gpd.points_from_xy(self.s_coords[:, 0], self.s_coords[:, 1])
         _gdf = gpd.GeoDataFrame(geometry=geom, crs=self._crs, index=self._ids)
-- 
2.43.0


From e442fae1c11a95136d0a9069f5f903522d1a084c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:36 +0000
Subject: [PATCH 50/50] fix: KnoxLocal.explore failed with ids taken from a
 named index

---
 pointpats/spacetime.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index 04427c2..58889da 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -1289,13 +1289,14 @@ class KnoxLocal:
         self.statistic_ = self.nsti
         self._id_map = dict(zip(rangeids, self._ids, strict=True))
 
-        # (of the type of the index, also without any pairs, for them to be merged)
-        index = pd.Index(self._ids)
+        # (of the type of the index, also without any pairs, for them to be merged,
+        # and unnamed, as a name may clash with those of the columns)
+        index = pd.Index(list(self._ids))
         self.adjlist["focal"] = index[self.adjlist["focal"].astype(int)]
         self.adjlist["neighbor"] = index[self.adjlist["neighbor"].astype(int)]
         # reconstruct df
         geom = gpd.points_from_xy(self.s_coords[:, 0], self.s_coords[:, 1])
-        _gdf = gpd.GeoDataFrame(geometry=geom, crs=self._crs, index=self._ids)
+        _gdf = gpd.GeoDataFrame(geometry=geom, crs=self._crs, index=index)
         _gdf["time"] = self.t_coords
         if permutations > 0:
             _gdf["p_sim"] = self.p_sims
-- 
2.43.0

