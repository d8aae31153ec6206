From 106ce66ebb8f892572c2e5657cc693be1dddf849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:27 +0000
Subject: [PATCH 01/52] fix: PointPattern.unique() keeps the window itself, not
 the set_window method

---
 pointpats/pointpattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/pointpattern.py b/pointpats/pointpattern.py
index 4eb6832..536c8a3 100644
--- a/pointpats/pointpattern.py
+++ b/pointpats/pointpattern.py
@@ -471,7 +471,7 @@ class PointPattern:
         """
         names = self.df.columns.values.tolist()
         coord_names = self.coord_names
-        window = self.set_window
+        window = self.window
         unique_df = self.df.drop_duplicates()
         return PointPattern(
             unique_df, names=names, coord_names=coord_names, window=window
-- 
2.43.0


From d1bc0f6cc0c31184ac31043bc014e21f25d587c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:27 +0000
Subject: [PATCH 02/52] fix: point membership compares the coordinate columns,
 not the first two columns

---
 pointpats/pointpattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointpats/pointpattern.py b/pointpats/pointpattern.py
index 536c8a3..a574e78 100644
--- a/pointpats/pointpattern.py
+++ b/pointpats/pointpattern.py
@@ -123,8 +123,8 @@ class PointPattern:
         >>> [1, 3] in pp
         True
         """
-        name = self.df.columns.values.tolist()
-        return ((self.df[name[0]] == n[0]) & (self.df[name[1]] == n[1])).any()
+        x, y = self.coord_names
+        return ((self.df[x] == n[0]) & (self.df[y] == n[1])).any()
 
     def set_window(self, window):
         try:
-- 
2.43.0


From ed906d5885babf2ba9f808f9aa7d869c3cd83451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:27 +0000
Subject: [PATCH 03/52] fix: PointPattern no longer appends mark names to the
 caller's coord_names list

---
 pointpats/pointpattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/pointpattern.py b/pointpats/pointpattern.py
index a574e78..1e0450b 100644
--- a/pointpats/pointpattern.py
+++ b/pointpats/pointpattern.py
@@ -72,7 +72,7 @@ class PointPattern:
         if coord_names is None:
             coord_names = names[:2] if names is not None else ["x", "y"]
         if names is None:
-            col_names = coord_names
+            col_names = list(coord_names)
             if p > 2:
                 for m in range(2, p):
                     col_names.append(f"mark_{m - 2}")
-- 
2.43.0


From fa630138ace334edf649e5a18d92c81bd1088e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:27 +0000
Subject: [PATCH 04/52] fix: lambda_window follows the current window instead
 of a cached one

---
 pointpats/pointpattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/pointpattern.py b/pointpats/pointpattern.py
index 1e0450b..1373f56 100644
--- a/pointpats/pointpattern.py
+++ b/pointpats/pointpattern.py
@@ -291,7 +291,7 @@ class PointPattern:
         """
         return self.n / self.window.area
 
-    lambda_window = cached_property(_lambda_window)
+    lambda_window = property(_lambda_window)
 
     def _hull_area(self):
         """
-- 
2.43.0


From add23f605dcf6d0a154b5419172f550924966a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:27 +0000
Subject: [PATCH 05/52] fix: PointPattern.knn never returns a point as its own
 neighbor when points coincide

---
 pointpats/pointpattern.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pointpats/pointpattern.py b/pointpats/pointpattern.py
index 1373f56..4966c72 100644
--- a/pointpats/pointpattern.py
+++ b/pointpats/pointpattern.py
@@ -11,6 +11,7 @@ from matplotlib.collections import PatchCollection
 from matplotlib.patches import Polygon
 
 from .centrography import hull
+from .geometry import k_neighbors
 from .util import cached_property
 from .window import as_window, poly_from_bbox
 
@@ -339,8 +340,8 @@ class PointPattern:
         """
         if k < 1:
             raise ValueError("k must be at least 1")
-        nn = self.tree.query(self.tree.data, k=k + 1)
-        return nn[1][:, 1:], nn[0][:, 1:]
+        nnd, nn = k_neighbors(self.tree, self.tree.data, k)
+        return nn, nnd
 
     def _nn_sum(self):
         """
-- 
2.43.0


From 0b65fab275e8e89603e93d595ea76064c9b65293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:27 +0000
Subject: [PATCH 06/52] fix: std_distance no longer cancels catastrophically
 (or overflows) for large coordinates

---
 pointpats/centrography.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/centrography.py b/pointpats/centrography.py
index 89d6f09..b104a71 100644
--- a/pointpats/centrography.py
+++ b/pointpats/centrography.py
@@ -582,7 +582,7 @@ def std_distance(points) -> np.float64:
 def _(points: np.ndarray) -> np.float64:
     n, _ = points.shape
     m = points.mean(axis=0)
-    return np.sqrt(((points * points).sum(axis=0) / n - m * m).sum())
+    return np.sqrt(((points - m) ** 2).sum() / n)
 
 
 @std_distance.register
-- 
2.43.0


From 3951651f441f091bedb85a313eb5e2e612fdac52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:27 +0000
Subject: [PATCH 07/52] fix: an intensity that implies a whole number of points
 no longer loses one to float truncation

---
 pointpats/random.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointpats/random.py b/pointpats/random.py
index 7ff0105..8a735d5 100644
--- a/pointpats/random.py
+++ b/pointpats/random.py
@@ -72,7 +72,7 @@ def parse_size_and_intensity(hull, intensity=None, size=None):
         if intensity is not None:
             # if intensity is provided, assume
             # n_observations
-            n_observations = int(_area(hull) * intensity)
+            n_observations = int(round(_area(hull) * intensity, 9))
         else:
             # default to 100 points
             n_observations = 100
@@ -103,7 +103,7 @@ def parse_size_and_intensity(hull, intensity=None, size=None):
     elif isinstance(size, int):
         # assume int size with specified intensity means n_simulations at x intensity
         if intensity is not None:
-            n_observations = int(intensity * _area(hull))
+            n_observations = int(round(intensity * _area(hull), 9))
             n_simulations = size
         else:  # assume we have one replication at the specified number of points
             n_simulations = 1
-- 
2.43.0


From 0984366d348aedbf4daaa63a9c481d8025432c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:13 +0000
Subject: [PATCH 08/52] fix: simulators keep the documented (n_replications,
 n_observations, 2) shape for one-point patterns

---
 pointpats/random.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pointpats/random.py b/pointpats/random.py
index 8a735d5..1c9e1b6 100644
--- a/pointpats/random.py
+++ b/pointpats/random.py
@@ -185,7 +185,7 @@ def poisson(hull, intensity=None, size=None, rng=None):
             if _contains(hull, x, y):
                 result[i_replication, i_observation] = (x, y)
                 i_observation += 1
-    return result.squeeze()
+    return result[0] if n_simulations == 1 else result
 
 
 def normal(hull, center=None, cov=None, size=None, rng=None):
@@ -281,7 +281,7 @@ def normal(hull, center=None, cov=None, size=None, rng=None):
             if _contains(hull, x, y):
                 result[i_replication, i_observation] = (x, y)
                 i_observation += 1
-    return result.squeeze()
+    return result[0] if n_simulations == 1 else result
 
 
 def cluster_poisson(
@@ -384,7 +384,7 @@ def cluster_poisson(
             )
             clusters[i_cluster] = numpy.vstack((seed, candidates))
         result[i_replication] = numpy.vstack(clusters)
-    return result.squeeze()
+    return result[0] if n_simulations == 1 else result
 
 
 def cluster_normal(hull, cov=None, size=None, n_seeds=2, rng=None):
@@ -465,7 +465,7 @@ def cluster_normal(hull, cov=None, size=None, n_seeds=2, rng=None):
             )
             clusters[i_cluster] = numpy.vstack((center, candidates))
         result[i_replication] = numpy.vstack(clusters)
-    return result.squeeze()
+    return result[0] if n_simulations == 1 else result
 
 
 def _uniform_circle(
@@ -699,4 +699,4 @@ def strauss(
                 "`gamma`, `radius`, or `max_iter`."
             )
 
-    return result.squeeze()
+    return result[0] if n_simulations == 1 else result
-- 
2.43.0


From d2438d760108946f20d2e5babb58fa15957cd9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:05 +0000
Subject: [PATCH 09/52] fix: QStatistic accepts a single simulated realization

---
 pointpats/quadrat_statistics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pointpats/quadrat_statistics.py b/pointpats/quadrat_statistics.py
index 44f4ff3..db58f6b 100644
--- a/pointpats/quadrat_statistics.py
+++ b/pointpats/quadrat_statistics.py
@@ -656,6 +656,8 @@ class QStatistic:
             intensity = n / float(self.window.area)
 
             reals = poisson(self.window, intensity, realizations, rng=self.rng)
+            if realizations == 1 and getattr(reals, "ndim", None) == 2:
+                reals = [reals]  # one realization comes without a replication axis
 
             chi2_realizations = []
             for i in range(realizations):
-- 
2.43.0


From f40a16c77395192afc469ca819115ae0e4b16a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:05 +0000
Subject: [PATCH 10/52] fix: HexagonM.num counts the cells of the grid (even
 and odd columns were swapped)

---
 pointpats/quadrat_statistics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointpats/quadrat_statistics.py b/pointpats/quadrat_statistics.py
index db58f6b..df66608 100644
--- a/pointpats/quadrat_statistics.py
+++ b/pointpats/quadrat_statistics.py
@@ -330,9 +330,9 @@ class HexagonM:
 
         self.count_row_odd = int(math.ceil(range_y / (2.0 * self.semi_height)))
 
-        self.num = self.count_row_odd * (
+        self.num = self.count_row_even * (
             (self.count_column // 2) + (self.count_column % 2)
-        ) + self.count_row_even * (self.count_column // 2)
+        ) + self.count_row_odd * (self.count_column // 2)
 
     def point_location_sta(self):
         semi_cell_length = self.h_length / 2.0
-- 
2.43.0


From 9393b6a2e80a79da497cc54840218a5954c60d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:05 +0000
Subject: [PATCH 11/52] fix: HexagonM keeps points on the far edges of the grid
 in the grid

---
 pointpats/quadrat_statistics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pointpats/quadrat_statistics.py b/pointpats/quadrat_statistics.py
index df66608..4b1245e 100644
--- a/pointpats/quadrat_statistics.py
+++ b/pointpats/quadrat_statistics.py
@@ -358,6 +358,9 @@ class HexagonM:
                 (point[1] + self.semi_height - y_min) / (2.0 * self.semi_height)
             )
             possible_y_index_odd = int((point[1] - y_min) / (2.0 * self.semi_height))
+            # a point on the upper edge belongs to the last row
+            possible_y_index_even = min(possible_y_index_even, self.count_row_even - 1)
+            possible_y_index_odd = min(possible_y_index_odd, self.count_row_odd - 1)
 
             if intercept_degree_x % 3 != 1:
                 center_index_x = int((intercept_degree_x + 1) // 3)
@@ -394,7 +397,7 @@ class HexagonM:
                         + (x0 * y1 - x1 * y0) / (x0 - x1)
                     )
 
-                if indicator <= 0:
+                if indicator <= 0 and center_index_x < self.count_column - 1:
                     center_index_x += 1
                     center_index_y = possible_y_index_odd
                     if center_index_x % 2 == 0:
-- 
2.43.0


From 0dae6282dceaa810511a09b99e050b666df96585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:05 +0000
Subject: [PATCH 12/52] fix: F and G are shares of all distances, not of those
 inside the support

---
 pointpats/distance_statistics.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index fde0cd6..8c33824 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -111,6 +111,18 @@ def _prepare(coordinates, support, distances, metric, hull, edge_correction):
     return coordinates, support, distances, metric, hull, edge_correction
 
 
+def _cumulative_fractions(distances, support):
+    """
+    the share of all the distances that fall below each value of the support,
+    regardless of how much of their range the support covers
+    """
+    counts, bins = numpy.histogram(distances, bins=support)
+    below = numpy.sum(distances < bins[0])
+    fracs = (below + numpy.cumsum(counts)) / numpy.size(distances)
+
+    return bins, numpy.asarray([below / numpy.size(distances), *fracs])
+
+
 # ------------------------------------------------------------#
 # Statistical Functions                                       #
 # ------------------------------------------------------------#
@@ -194,10 +206,7 @@ def f(
             distances, _ = tree.query(randoms, k=1)
             distances = distances.squeeze()
 
-    counts, bins = numpy.histogram(distances, bins=support)
-    fracs = numpy.cumsum(counts) / counts.sum()
-
-    return bins, numpy.asarray([0, *fracs])
+    return _cumulative_fractions(distances, support)
 
 
 def g(
@@ -281,10 +290,7 @@ def g(
         finally:
             distances, indices = _k_neighbors(tree, coordinates, k=1)
 
-    counts, bins = numpy.histogram(distances.squeeze(), bins=support)
-    fracs = numpy.cumsum(counts) / counts.sum()
-
-    return bins, numpy.asarray([0, *fracs])
+    return _cumulative_fractions(distances.squeeze(), support)
 
 
 def j(
-- 
2.43.0


From 98d9cf4c0afcc34f94584c59156b98895ef05fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:05 +0000
Subject: [PATCH 13/52] fix: G from a full distance matrix ignores each point's
 distance to itself

---
 pointpats/distance_statistics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index 8c33824..7e04239 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -254,6 +254,9 @@ def g(
                     " Computing this and discarding the rest.",
                     stacklevel=2,
                 )
+                # a point is not its own neighbor
+                distances = numpy.array(distances, dtype=float)
+                numpy.fill_diagonal(distances, numpy.inf)
                 distances = distances.min(axis=1)
             else:
                 k, p = distances.shape
-- 
2.43.0


From 07fe4029ccec0b9700b714483d634ca9722bdd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:05 +0000
Subject: [PATCH 14/52] fix: the J truncation warning copes with an empty
 result and names the distance it means

---
 pointpats/distance_statistics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index 7e04239..c73ba02 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -377,8 +377,8 @@ def j(
         result = _truncate(gsupport, hazard_ratio)
         if len(result[1]) != len(hazard_ratio):
             warnings.warn(
-                f"requested {support} bins to evaluate the J function, but"
-                f" it reaches infinity at d={result[0][-1]:.4f}, meaning only"
+                f"requested {support} bins to evaluate the J function, but it"
+                f" reaches infinity at d={gsupport[len(result[0])]:.4f}, meaning only"
                 f" {len(result[0])} bins will be used to characterize the J function.",
                 stacklevel=2,
             )
-- 
2.43.0


From 51f7cb19040ea6d7ebe14c43e23f8e4fa024cc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:05 +0000
Subject: [PATCH 15/52] fix: j_test returns its result when there is nothing to
 truncate

---
 pointpats/distance_statistics.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index c73ba02..01da7ce 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -873,13 +873,13 @@ def j_test(
         result_trunc = JtestResult(*result_trunc)
         if len(result_trunc.statistic) != len(result.statistic):
             warnings.warn(
-                f"requested {support} bins to evaluate the J function, but"
-                f" it reaches infinity at d={result[0][-1]:.4f}, meaning only"
-                f" {len(result[0])} bins will be used to characterize the J function.",
+                f"requested {support} bins to evaluate the J function, but it reaches"
+                f" infinity at d={result[0][len(result_trunc[0])]:.4f}, meaning only"
+                f" {len(result_trunc[0])} bins will be used to characterize the"
+                " J function.",
                 stacklevel=2,
             )
-            return result_trunc
-
+        return result_trunc
     else:
         return result
 
-- 
2.43.0


From 2c8980f600c16e60554f48063cfdcbecc00f55c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:05 +0000
Subject: [PATCH 16/52] fix: truncating a J test cuts the simulations along the
 support, not along the simulations

---
 pointpats/distance_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index 01da7ce..dc785ae 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -1084,5 +1084,5 @@ def _truncate(support, realizations, *rest):
         return (
             support[:first_inv],
             realizations[:first_inv],
-            *[r[:first_inv] if r is not None else None for r in rest],
+            *[r[..., :first_inv] if r is not None else None for r in rest],
         )
-- 
2.43.0


From 80e56b326702b953682063b046c2eadfe596aa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:05 +0000
Subject: [PATCH 17/52] fix: the F and J tests measure each empty-space point
 to its true nearest point

---
 pointpats/distance_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index dc785ae..c931773 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -576,7 +576,7 @@ def _ripley_test(
         if distances is None:
             # Note: We now use the original coordinates' tree to calculate the observed
             # distance for the first time, as per the original logic flow.
-            empty_space_distances, _ = _k_neighbors(tree, empty_space_points, k=1)
+            empty_space_distances, _ = tree.query(empty_space_points, k=1)
 
             if calltype == "F":
                 distances = empty_space_distances.squeeze()
-- 
2.43.0


From ab23ec35c7d361acc880f69f5efb8b25960bd850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:05 +0000
Subject: [PATCH 18/52] fix: the F and J tests draw empty-space points from the
 requested hull

---
 pointpats/distance_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index c931773..29cdfd2 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -571,7 +571,7 @@ def _ripley_test(
     if calltype in ("F", "J"):  # these require simulations
         core_kwargs["hull"] = hull
         # amortize to avoid doing this every time
-        empty_space_points = poisson(coordinates, size=(1000, 1))
+        empty_space_points = poisson(hull, size=(1000, 1))
 
         if distances is None:
             # Note: We now use the original coordinates' tree to calculate the observed
-- 
2.43.0


From 077c8b747da4935f0f8790198a1dd095821dfbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:05 +0000
Subject: [PATCH 19/52] fix: the Ripley tests' p-values are conservative in
 both tails and never zero

---
 pointpats/distance_statistics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index 29cdfd2..d343cbd 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -626,11 +626,13 @@ def _ripley_test(
         pvalues = numpy.nan * numpy.ones_like(observed_support)
     else:
         # Calculate how many simulations are as extreme as the observed statistic
-        pvalues_count = (simulations_array >= observed_statistic).sum(axis=0)
+        pvalues_count = numpy.minimum(
+            (simulations_array >= observed_statistic).sum(axis=0),
+            (simulations_array <= observed_statistic).sum(axis=0),
+        )
 
         # Conservative p-value calculation
         pvalues = (pvalues_count + 1) / (n_simulations + 1)
-        pvalues = numpy.minimum(pvalues, 1 - pvalues)
     # --- END P-VALUE CALCULATION ---
 
     return result_container(
-- 
2.43.0


From a80d1c0c68b89de9ac74a17b69ff34e58af030fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:05 +0000
Subject: [PATCH 20/52] fix: strauss simulates numbers of points, not
 intensities, so it works in hulls of any area

---
 pointpats/random.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointpats/random.py b/pointpats/random.py
index 1c9e1b6..c46a793 100644
--- a/pointpats/random.py
+++ b/pointpats/random.py
@@ -655,11 +655,11 @@ def strauss(
         while not found and gen_iter < max_iter:
             # Over-sample initially to improve convergence
             initial_n = int(n_observations * 1.5)
-            points = poisson(hull, intensity=initial_n, rng=rng)
+            points = poisson(hull, size=initial_n, rng=rng)
 
             for _ in range(n_iter):
                 if len(points) < n_observations or rng.random() < 0.5:
-                    new_point = poisson(hull, 1, rng=rng)
+                    new_point = poisson(hull, size=1, rng=rng)
                     trial_points = numpy.vstack([points, new_point])
                     k_old = _pairwise_count_kdtree(points, r)
                     k_new = _pairwise_count_kdtree(trial_points, r)
-- 
2.43.0


From 96cbaa3c00f6d12b1ad04ea46c44590fc226753e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:05 +0000
Subject: [PATCH 21/52] fix: cluster_normal derives its default covariance anew
 for each replication

---
 pointpats/random.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pointpats/random.py b/pointpats/random.py
index c46a793..24d77ad 100644
--- a/pointpats/random.py
+++ b/pointpats/random.py
@@ -440,8 +440,9 @@ def cluster_normal(hull, cov=None, size=None, n_seeds=2, rng=None):
     seeds = rng.integers(100_000, size=n_simulations)
     for i_replication in range(n_simulations):
         centers = poisson(hull, size=n_seeds, rng=seeds[i_replication])
-        if cov is None:
-            cov = spatial.distance.pdist(centers).mean() ** 2
+        cluster_cov = cov
+        if cluster_cov is None:
+            cluster_cov = spatial.distance.pdist(centers).mean() ** 2
         clusters = numpy.array_split(result[i_replication], n_seeds)
         candidate_seeds = rng.integers(100_000, size=n_seeds)
         for i_cluster, center in enumerate(centers):
@@ -459,7 +460,7 @@ def cluster_normal(hull, cov=None, size=None, n_seeds=2, rng=None):
             candidates = normal(
                 hull,
                 center=center,
-                cov=cov,
+                cov=cluster_cov,
                 size=n_in_cluster - 1,
                 rng=candidate_seeds[i_cluster],
             )
-- 
2.43.0


From fcaeba1fdef0017948d94e3aca472d2f8bdad512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:13 +0000
Subject: [PATCH 22/52] fix: cluster_poisson accepts any iterable of radii, as
 documented

---
 pointpats/random.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pointpats/random.py b/pointpats/random.py
index 24d77ad..052392f 100644
--- a/pointpats/random.py
+++ b/pointpats/random.py
@@ -347,6 +347,13 @@ def cluster_poisson(
         )
     elif isinstance(cluster_radius, (int, float)):
         cluster_radii = [cluster_radius] * n_seeds
+    elif cluster_radius is not None:
+        cluster_radii = list(cluster_radius)
+        assert len(cluster_radii) == n_seeds, (
+            f"number of radii provided ({len(cluster_radii)})"
+            f" does not match number of clusters requested"
+            f" ({n_seeds})."
+        )
 
     n_observations, n_simulations, intensity = parse_size_and_intensity(
         hull, intensity=intensity, size=size
-- 
2.43.0


From c68db64bb2411e2fbdaf5f9f3aa2d7c96829d1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:13 +0000
Subject: [PATCH 23/52] fix: knox no longer shuffles the caller's time
 coordinates

---
 pointpats/spacetime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index 69fb576..eb66db3 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -252,6 +252,8 @@ def knox(s_coords, t_coords, delta, tau, permutations=99, debug=False):  # noqa:
     """
     warn("This function is deprecated. Use Knox", FutureWarning, stacklevel=2)
 
+    t_coords = np.array(t_coords)  # shuffled below; keep the caller's array as it is
+
     # Do a kdtree on space first as the number of ties (identical points) is
     # likely to be lower for space than time.
 
-- 
2.43.0


From 313ef20cec6027fd23c961e9949d4a8c4d769715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:13 +0000
Subject: [PATCH 24/52] fix: knox handles events without any spatial neighbors

---
 pointpats/spacetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index eb66db3..c98326d 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -260,13 +260,13 @@ def knox(s_coords, t_coords, delta, tau, permutations=99, debug=False):  # noqa:
     kd_s = cg.KDTree(s_coords)
     neigh_s = kd_s.query_pairs(delta)
     tau2 = tau * tau
-    ids = np.array(list(neigh_s))
+    ids = np.array(list(neigh_s), dtype=int).reshape(-1, 2)
 
     # For the neighboring pairs in space, determine which are also time
     # neighbors
 
     d_t = (t_coords[ids[:, 0]] - t_coords[ids[:, 1]]) ** 2
-    n_st = sum(d_t <= tau2)
+    n_st = (d_t <= tau2).sum(axis=0)
 
     knox_result = {"stat": n_st[0]}
 
-- 
2.43.0


From a25dd4dfad4de8e93765c1f506767b12c1c6fad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:13 +0000
Subject: [PATCH 25/52] fix: KnoxLocal.sim holds the global permutation
 statistics, as documented

---
 pointpats/spacetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index c98326d..13785a9 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -1024,7 +1024,7 @@ def _knox_local(s_coords, t_coords, delta, tau, permutations=99, keep=False):
     """
     # think about passing in the global object
     # as an option to avoid recomputing the trees
-    res = _knox(s_coords, t_coords, delta, tau, permutations=permutations)
+    res = _knox(s_coords, t_coords, delta, tau, permutations=permutations, keep=keep)
     sneighbors = {i: tuple(ns) for i, ns in enumerate(res["sneighbors"])}
     tneighbors = {i: tuple(nt) for i, nt in enumerate(res["tneighbors"])}
 
@@ -1271,7 +1271,7 @@ class KnoxLocal:
         if permutations > 0:
             self.p_sim = results["p_value_sim"]
             if keep:
-                self.sim = results["sti_perm"]
+                self.sim = results["st_perm"]
 
         self.p_poisson = results["p_value_poisson"]
         self.observed = results["observed"]
-- 
2.43.0


From 209ee2c38eeb16143b81f4771c4ad7015fc2789b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:13 +0000
Subject: [PATCH 26/52] fix: hotspot clusters are connected components of all
 the space-time links

---
 pointpats/spacetime.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index 13785a9..1efab16 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -1421,8 +1421,9 @@ class KnoxLocal:
         ).reset_index(drop=True)
         # significant focals can be neighbors of others (dupes)
         pdf_sig = pdf_sig.groupby("focal").first().reset_index()
-        graph = Graph.from_adjacency(pdf_sig.assign(weight=1))
-        pdf_sig["cluster"] = graph.component_labels.values
+        # components need every edge, not only the one kept per focal above
+        graph = Graph.from_adjacency(temp_neighbors.assign(weight=1))
+        pdf_sig["cluster"] = pdf_sig["focal"].map(graph.component_labels)
         if not keep_neighbors:
             pdf_sig = pdf_sig[pdf_sig.pvalue <= crit]
 
-- 
2.43.0


From 36e47b6a0aa143ce2ac7344d3ba61d480a12c6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:13 +0000
Subject: [PATCH 27/52] fix: SpaceTimeEvents reads the table next to the given
 shapefile

---
 pointpats/spacetime.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index 1efab16..c1ada04 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -140,9 +140,7 @@ class SpaceTimeEvents:
 
     def __init__(self, path, time_col, infer_timestamp=False):
         shp = lps.io.open(path)
-        head, tail = os.path.split(path)
-        dbf_tail = tail.split(".")[0] + ".dbf"
-        dbf = lps.io.open(lps.examples.get_path(dbf_tail))
+        dbf = lps.io.open(os.path.splitext(path)[0] + ".dbf")
 
         # extract the spatial coordinates from the shapefile
         x = [coords[0] for coords in shp]
-- 
2.43.0


From 453c11608f8b0e2235bf8ef2921fc475b873bf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:13 +0000
Subject: [PATCH 28/52] fix: a realization that draws zero points is an empty
 (0, 2) array

---
 pointpats/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/process.py b/pointpats/process.py
index 5a65363..9690a02 100644
--- a/pointpats/process.py
+++ b/pointpats/process.py
@@ -148,7 +148,7 @@ class PointProcess:
             pins = self.window.filter_contained(pnts)
             sample.extend(pins)
             c = len(sample)
-        return np.array([np.asarray(p) for p in sample[:n]])
+        return np.array([np.asarray(p) for p in sample[:n]]).reshape(-1, 2)
 
     def realize(self):
         pass
-- 
2.43.0


From 05fcebc67fb436e9bbbc05d40e34b7238dee4a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:13 +0000
Subject: [PATCH 29/52] fix: a cluster process draws all its parents when they
 do not divide the number of points

---
 pointpats/process.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pointpats/process.py b/pointpats/process.py
index 9690a02..08c6fa5 100644
--- a/pointpats/process.py
+++ b/pointpats/process.py
@@ -467,8 +467,9 @@ class PoissonClusterPointProcess(PointProcess):
         _l, b, r, t = self.window.bbox
         d = self.radius
         # get parent points
-        pxs = np.random.uniform(_l, r, (int(n / self.children), 1))
-        pys = np.random.uniform(b, t, (int(n / self.children), 1))
+        parents = int(np.ceil(n / self.children))
+        pxs = np.random.uniform(_l, r, (parents, 1))
+        pys = np.random.uniform(b, t, (parents, 1))
         cents = np.hstack((pxs, pys))
         # generate children points
         pnts = [runif_in_circle(self.children, d, center) for center in cents]
-- 
2.43.0


From 05e722d39efc8221449663780e3a2502c25a6b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:13 +0000
Subject: [PATCH 30/52] fix: plot_density accepts a resolution per dimension
 with a KDEpy kernel too

---
 pointpats/kde.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/pointpats/kde.py b/pointpats/kde.py
index 5657375..a43fd35 100644
--- a/pointpats/kde.py
+++ b/pointpats/kde.py
@@ -117,6 +117,17 @@ def plot_density(
             )
         data = data.get_coordinates().values
 
+    if isinstance(resolution, tuple):
+        x_res, y_res = resolution
+    elif isinstance(resolution, (float, int)):
+        x_res = resolution
+        y_res = resolution
+    elif resolution is None:
+        x_res = 100
+        y_res = 100
+    else:
+        raise ValueError("Unsupported option for `resolution`.")
+
     if engine == "sm":
         dens_u = sm.nonparametric.KDEMultivariate(
             data=[data[:, 0], data[:, 1]],
@@ -133,17 +144,6 @@ def plot_density(
         x_margin = (xmax - xmin) * margin
         y_margin = (ymax - ymin) * margin
 
-        if isinstance(resolution, tuple):
-            x_res, y_res = resolution
-        elif isinstance(resolution, (float, int)):
-            x_res = resolution
-            y_res = resolution
-        elif resolution is None:
-            x_res = 100
-            y_res = 100
-        else:
-            raise ValueError("Unsupported option for `resolution`.")
-
         # create mesh for predicting KDE on with more space around the points
         x_mesh, y_mesh = np.meshgrid(
             np.linspace(xmin - x_margin, xmax + x_margin, x_res),
@@ -156,9 +156,9 @@ def plot_density(
 
     else:
         kde = FFTKDE(bw=bandwidth, kernel=kernel)
-        grid, points = kde.fit(data).evaluate(resolution)
+        grid, points = kde.fit(data).evaluate((x_res, y_res))
         x_mesh, y_mesh = np.unique(grid[:, 0]), np.unique(grid[:, 1])
-        z = points.reshape(resolution, resolution).T
+        z = points.reshape(x_res, y_res).T
 
     if fill:
         cs = ax.contourf(x_mesh, y_mesh, z, levels=levels, **kwargs)
-- 
2.43.0


From 3d1f7e1f90016a927f7326a0d18970337e1f1b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:15 +0000
Subject: [PATCH 31/52] fix: the Euclidean median no longer depends on the unit
 of the coordinates

---
 pointpats/centrography.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pointpats/centrography.py b/pointpats/centrography.py
index b104a71..0699292 100644
--- a/pointpats/centrography.py
+++ b/pointpats/centrography.py
@@ -887,7 +887,7 @@ def euclidean_median(points):
     Passing an array of coordinates returns an array capturing the median.
 
     >>> euclidean_median(coords)
-    array([53.51770575, 49.6572671 ])
+    array([53.5178563 , 49.65728261])
 
     Passing a GeoPandas object returns a shapely geometry.
 
@@ -905,9 +905,12 @@ def euclidean_median(points):
 
 @euclidean_median.register
 def _(points: np.ndarray) -> NDArray[np.float64]:
+    # search in coordinates relative to the mean and in units of the spread, as the
+    # step and the tolerances of the optimizer are absolute
     start = mean_center(points)
-    res = minimize(dtot, start, args=(points,))
-    return res["x"]
+    scale = std_distance(points) or 1.0
+    res = minimize(dtot, np.zeros(2), args=((points - start) / scale,))
+    return start + res["x"] * scale
 
 
 @euclidean_median.register
-- 
2.43.0


From 5daeccd4fe61752a004624c0d5adb502cbea5622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:30 +0000
Subject: [PATCH 32/52] fix: the minimum bounding circle is minimal, and found,
 whatever the rounding of tied radii

---
 pointpats/centrography.py | 51 +++++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/pointpats/centrography.py b/pointpats/centrography.py
index 0699292..76bde1d 100644
--- a/pointpats/centrography.py
+++ b/pointpats/centrography.py
@@ -1001,11 +1001,14 @@ def _(points: np.ndarray, **buffer_kw) -> tuple[tuple[float, float], float]:
         if not_clockwise(points):
             raise Exception("Points are neither clockwise nor counterclockwise")
     _points = copy.deepcopy(points).astype(float)
+    # keep the squared coordinates small
+    shift = _points.mean(axis=0)
+    _points = _points - shift
     if has_numba:  # noqa: SIM108
         circ = _skyum_numba(_points)[0]
     else:
         circ = _skyum_lists(_points)[0]
-    return (circ[1], circ[2]), circ[0]
+    return (circ[1] + shift[0], circ[2] + shift[1]), circ[0]
 
 
 @minimum_bounding_circle.register
@@ -1028,17 +1031,19 @@ def _skyum_lists(points):
             )
             for p in points
         ]
-        circles = [
-            _circle(
+        curvatures = [
+            _curvature(
                 _prec(p, points),
                 p,
                 _succ(p, points),
             )
             for p in points
         ]
-        radii = [c[0] for c in circles]
-        lexord = np.lexsort((angles, radii))
-        lexmax = lexord[-1]
+        # the maximum angle for the largest radius, up to rounding
+        flat = max(curvatures) if len(points) < 4 else min(curvatures) * (1 + 1e-9)
+        lexmax = int(
+            np.argmax([a if c <= flat else -1 for a, c in zip(angles, curvatures)])
+        )
         candidate = (
             _prec(points[lexmax], points),
             points[lexmax],
@@ -1076,18 +1081,17 @@ try:
         n = points.shape[0]
         angles = np.empty((n,))
         circles = np.empty((n, 3))
+        curvatures = np.empty((n,))
         for i in range(n):
             p = points[(i - 1) % n]
             q = points[i % n]
             r = points[(i + 1) % n]
             angles[i] = _angle(p, q, r)
             circles[i] = _circle(p, q, r)
-        radii = circles[:, 0]
-        # workaround for no lexsort in numba
-        radius_argmax = radii.argmax()
-        radius_max = radii[radius_argmax]
-        # the maximum angle for the largest radius
-        lexmax = (angles * (radii == radius_max)).argmax()
+            curvatures[i] = _curvature(p, q, r)
+        # the maximum angle for the largest radius, up to rounding
+        flat = curvatures.max() if n < 4 else curvatures.min() * (1 + 1e-9)
+        lexmax = (angles * (curvatures <= flat)).argmax()
 
         if angles[lexmax] <= (np.pi / 2.0):
             return True, points, lexmax, circles[lexmax]
@@ -1112,7 +1116,9 @@ def _angle(p, q, r):
     pq = p - q
     rq = r - q
     magnitudes = np.linalg.norm(pq) * np.linalg.norm(rq)
-    return np.abs(np.arccos(np.dot(pq, rq) / magnitudes))
+    cosine = np.dot(pq, rq) / magnitudes
+    # rounding can take the cosine of parallel directions out of its range
+    return np.abs(np.arccos(max(-1.0, min(1.0, cosine))))
 
 
 def _prec(p, _l):
@@ -1142,6 +1148,25 @@ def _euclidean_distance(px, py, qx, qy):
     return np.sqrt((px - qx) ** 2 + (py - qy) ** 2)
 
 
+@njit
+def _curvature(p, q, r):
+    """
+    The inverse of the radius of the circle through p, q and r; 0 if they are in line
+    """
+    px, py = p
+    qx, qy = q
+    rx, ry = r
+    cross = np.abs((px - qx) * (ry - qy) - (py - qy) * (rx - qx))
+    sides = (
+        _euclidean_distance(px, py, qx, qy)
+        * _euclidean_distance(qx, qy, rx, ry)
+        * _euclidean_distance(rx, ry, px, py)
+    )
+    if cross == 0 or sides == 0:
+        return 0.0
+    return 2 * cross / sides
+
+
 @njit
 def _circle(p, q, r, dmetric=_euclidean_distance):  # noqa: ARG001 - Unused `dmetric`
     """
-- 
2.43.0


From c7b8acbee227629821f2744d4afc9133faef3ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:01 +0000
Subject: [PATCH 33/52] fix: dtot accepts any array-like of points with an
 array coordinate too

---
 pointpats/centrography.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pointpats/centrography.py b/pointpats/centrography.py
index 76bde1d..1b7a57c 100644
--- a/pointpats/centrography.py
+++ b/pointpats/centrography.py
@@ -833,6 +833,7 @@ def dtot(coord, points) -> float:
 
 @dtot.register
 def _(coord: np.ndarray, points: np.ndarray) -> float:
+    points = np.asarray(points)
     xd = points[:, 0] - coord[0]
     yd = points[:, 1] - coord[1]
     d = np.sqrt(xd * xd + yd * yd).sum()
-- 
2.43.0


From bca56e55e0834764addf895d8a59b967dbb15d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:07 +0000
Subject: [PATCH 34/52] fix: the Euclidean median is found when it, or a point
 on the way to it, is one of the points

---
 pointpats/centrography.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pointpats/centrography.py b/pointpats/centrography.py
index 1b7a57c..349b8c0 100644
--- a/pointpats/centrography.py
+++ b/pointpats/centrography.py
@@ -888,7 +888,7 @@ def euclidean_median(points):
     Passing an array of coordinates returns an array capturing the median.
 
     >>> euclidean_median(coords)
-    array([53.5178563 , 49.65728261])
+    array([53.51783389, 49.65727874])
 
     Passing a GeoPandas object returns a shapely geometry.
 
@@ -910,7 +910,19 @@ def _(points: np.ndarray) -> NDArray[np.float64]:
     # step and the tolerances of the optimizer are absolute
     start = mean_center(points)
     scale = std_distance(points) or 1.0
-    res = minimize(dtot, np.zeros(2), args=((points - start) / scale,))
+    points = (points - start) / scale
+    # the sum of distances has a kink at each point, where the search can get stuck:
+    # either the best of the points is the median, or the search leaves all of them
+    best = points[np.argmin([dtot(point, points) for point in points])]
+    others = points[(points != best).any(axis=1)]
+    dists = np.linalg.norm(others - best, axis=1)
+    pull = np.linalg.norm(((others - best).T / dists).sum(axis=1))
+    n_best = len(points) - len(others)
+    if pull <= n_best:
+        return start + best * scale
+    target = np.average(others, axis=0, weights=1 / dists)
+    x0 = best + (1 - n_best / pull) * (target - best)
+    res = minimize(dtot, x0, args=(points,))
     return start + res["x"] * scale
 
 
-- 
2.43.0


From 556093830bdeb50f7a159671ce8c76f0ed4a1605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:06 +0000
Subject: [PATCH 35/52] fix: the Euclidean median no longer gets stuck next to
 (nearly) coincident points

---
 pointpats/centrography.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/pointpats/centrography.py b/pointpats/centrography.py
index 349b8c0..84d03c2 100644
--- a/pointpats/centrography.py
+++ b/pointpats/centrography.py
@@ -888,7 +888,7 @@ def euclidean_median(points):
     Passing an array of coordinates returns an array capturing the median.
 
     >>> euclidean_median(coords)
-    array([53.51783389, 49.65727874])
+    array([53.51781147, 49.65727413])
 
     Passing a GeoPandas object returns a shapely geometry.
 
@@ -911,19 +911,27 @@ def _(points: np.ndarray) -> NDArray[np.float64]:
     start = mean_center(points)
     scale = std_distance(points) or 1.0
     points = (points - start) / scale
-    # the sum of distances has a kink at each point, where the search can get stuck:
-    # either the best of the points is the median, or the search leaves all of them
-    best = points[np.argmin([dtot(point, points) for point in points])]
-    others = points[(points != best).any(axis=1)]
-    dists = np.linalg.norm(others - best, axis=1)
-    pull = np.linalg.norm(((others - best).T / dists).sum(axis=1))
-    n_best = len(points) - len(others)
-    if pull <= n_best:
-        return start + best * scale
-    target = np.average(others, axis=0, weights=1 / dists)
-    x0 = best + (1 - n_best / pull) * (target - best)
-    res = minimize(dtot, x0, args=(points,))
-    return start + res["x"] * scale
+    # the sum of distances has a kink at each point, where searches that use its
+    # derivatives get stuck; search without them, again while that brings something
+    best, total = np.zeros(2), np.inf
+    for step in (1.0, 0.1, 0.01, 0.1, 0.01, 0.1, 0.01):
+        res = minimize(
+            dtot,
+            best,
+            args=(points,),
+            method="Nelder-Mead",
+            options={
+                "initial_simplex": best + step * np.eye(3, 2, -1),
+                "xatol": 1e-8,
+                "fatol": 1e-10,
+            },
+        )
+        gain = total - res["fun"]
+        if gain > 0:
+            best, total = res["x"], res["fun"]
+        if gain <= 1e-9 * total and step == 0.01:
+            break
+    return start + best * scale
 
 
 @euclidean_median.register
-- 
2.43.0


From db99eb17931e9da0504e85d40673ed747b231812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:04 +0000
Subject: [PATCH 36/52] fix: a cluster process can be drawn at all (its points
 are not columns of arrays)

---
 pointpats/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/process.py b/pointpats/process.py
index 08c6fa5..ea0493a 100644
--- a/pointpats/process.py
+++ b/pointpats/process.py
@@ -144,7 +144,7 @@ class PointProcess:
         n = parameter["n"]
         while c < n:
             pnts = self.realize(n)
-            pnts = [ps.cg.shapes.Point((x[0], y[0])) for x, y in pnts]
+            pnts = [ps.cg.shapes.Point(tuple(np.ravel(pnt))) for pnt in pnts]
             pins = self.window.filter_contained(pnts)
             sample.extend(pins)
             c = len(sample)
-- 
2.43.0


From b1eccbe9367577496b1d9829bdbd1973ef409236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:54 +0000
Subject: [PATCH 37/52] fix: default range of F and J tests ignores the metric
 (and warns that it is ignored)

---
 pointpats/distance_statistics.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index d343cbd..88a5391 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -577,6 +577,12 @@ def _ripley_test(
             # Note: We now use the original coordinates' tree to calculate the observed
             # distance for the first time, as per the original logic flow.
             empty_space_distances, _ = tree.query(empty_space_points, k=1)
+            # these distances carry the metric: set the range with it now, since
+            # functions ignore the metric when distances are provided
+            _, core_kwargs["support"], *_ = _prepare(
+                coordinates, support, None, metric, hull, edge_correction
+            )
+            core_kwargs["metric"] = "euclidean"
 
             if calltype == "F":
                 distances = empty_space_distances.squeeze()
-- 
2.43.0


From 47ee3f7ff8b25c26ab5614577b9faff5d75d2efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:13 +0000
Subject: [PATCH 38/52] fix: KnoxLocal.explore ignores the colour chosen for
 insignificant events

---
 pointpats/spacetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index c1ada04..ed05c6d 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -1597,7 +1597,7 @@ class KnoxLocal:
         g = g.reset_index().merge(nbs, left_on="index", right_index=True, how="left")
 
         m = g[g.color == colors["nonsig"]].explore(
-            color="grey", style_kwds=style_kwds, tiles=tiles
+            color=colors["nonsig"], style_kwds=style_kwds, tiles=tiles
         )
         blues = g[g.color == colors["neighbor"]]
         if blues.shape[0] == 0:
-- 
2.43.0


From 8ef1f116468030bf9446dc614820efeddfb1feb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:23 +0000
Subject: [PATCH 39/52] fix: hotspots fail for events with float identifiers
 and no space-time pairs

---
 pointpats/spacetime.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index ed05c6d..a272bc5 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -1283,9 +1283,10 @@ class KnoxLocal:
         # self.hotspots = results["hotspots"]
         self._crs = crs
         self.statistic_ = self.nsti
-        self._id_map = dict(zip(rangeids, self._ids, strict=True))
-        self.adjlist["focal"] = self.adjlist["focal"].replace(self._id_map)
-        self.adjlist["neighbor"] = self.adjlist["neighbor"].replace(self._id_map)
+        # take the ids by position: they keep their type even if there are no pairs
+        id_index = pd.Index(self._ids)
+        for column in ("focal", "neighbor"):
+            self.adjlist[column] = id_index.take(self.adjlist[column].astype(int))
         # reconstruct df
         geom = gpd.points_from_xy(self.s_coords[:, 0], self.s_coords[:, 1])
         _gdf = gpd.GeoDataFrame(geometry=geom, crs=self._crs, index=self._ids)
-- 
2.43.0


From d6358066272664f647341cfb63c55dc979fb2947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:13 +0000
Subject: [PATCH 40/52] fix: F and G refuse a metric they cannot search with
 its explanation, not an UnboundLocalError

---
 pointpats/distance_statistics.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index 88a5391..1716a1f 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -202,9 +202,8 @@ def f(
             tree  # noqa: B018
         except NameError:
             tree = _build_best_tree(coordinates, metric)
-        finally:
-            distances, _ = tree.query(randoms, k=1)
-            distances = distances.squeeze()
+        distances, _ = tree.query(randoms, k=1)
+        distances = distances.squeeze()
 
     return _cumulative_fractions(distances, support)
 
@@ -290,8 +289,7 @@ def g(
             tree  # noqa: B018
         except NameError:
             tree = _build_best_tree(coordinates, metric)
-        finally:
-            distances, indices = _k_neighbors(tree, coordinates, k=1)
+        distances, indices = _k_neighbors(tree, coordinates, k=1)
 
     return _cumulative_fractions(distances.squeeze(), support)
 
-- 
2.43.0


From ec449226a86409fba0bd755ad8c85f9d39a5bb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:34 +0000
Subject: [PATCH 41/52] fix: the area of a bounding box of integers overflows
 their type, and with it intensities and K

---
 pointpats/geometry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pointpats/geometry.py b/pointpats/geometry.py
index 154441a..b23336f 100644
--- a/pointpats/geometry.py
+++ b/pointpats/geometry.py
@@ -61,6 +61,7 @@ def _(shape: numpy.ndarray):
     If a shape describes a bounding box, compute length times width
     """
     assert len(shape) == 4, "shape is not a bounding box!"
+    shape = shape.astype(float)
     width, height = shape[2] - shape[0], shape[3] - shape[1]
     return numpy.abs(width * height)
 
-- 
2.43.0


From 248b59710892e4d03437770c31c233131341bc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:34 +0000
Subject: [PATCH 42/52] fix: summaries of patterns of narrow integers overflow
 their type

---
 pointpats/pointpattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointpats/pointpattern.py b/pointpats/pointpattern.py
index 4966c72..ed03ef8 100644
--- a/pointpats/pointpattern.py
+++ b/pointpats/pointpattern.py
@@ -220,7 +220,7 @@ class PointPattern:
         """
         mins = self.points.min(axis=0)
         maxs = self.points.max(axis=0)
-        return np.hstack((mins, maxs))
+        return np.hstack((mins, maxs)).astype(float)
 
     mbb = cached_property(_mbb)
 
@@ -298,7 +298,7 @@ class PointPattern:
         """
         Area of convex hull
         """
-        h = self.hull
+        h = self.hull.astype(float)
         if not np.all(h[0] == h[-1]):
             # not in closed cartographic form
             h = np.vstack((h, h[0]))
-- 
2.43.0


From 22d4bf693bec3293c02bd1a57f78c408dba7bfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:34 +0000
Subject: [PATCH 43/52] fix: dtot of integers overflows their type

---
 pointpats/centrography.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pointpats/centrography.py b/pointpats/centrography.py
index 84d03c2..eeb7600 100644
--- a/pointpats/centrography.py
+++ b/pointpats/centrography.py
@@ -833,6 +833,7 @@ def dtot(coord, points) -> float:
 
 @dtot.register
 def _(coord: np.ndarray, points: np.ndarray) -> float:
+    coord = np.asarray(coord, dtype=float)
     points = np.asarray(points)
     xd = points[:, 0] - coord[0]
     yd = points[:, 1] - coord[1]
-- 
2.43.0


From 42cbf12bf37c12a4d5f742dad734a532ec3cf8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:34 +0000
Subject: [PATCH 44/52] fix: unsigned points have no bounding circle

---
 pointpats/centrography.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/centrography.py b/pointpats/centrography.py
index eeb7600..1af0360 100644
--- a/pointpats/centrography.py
+++ b/pointpats/centrography.py
@@ -1017,7 +1017,7 @@ def _(points: np.ndarray, **buffer_kw) -> tuple[tuple[float, float], float]:
         has_numba = True
     except ImportError:
         has_numba = False
-    points = hull(points)
+    points = hull(points.astype(float))
     if not_clockwise(points):
         points = points[::-1]
         if not_clockwise(points):
-- 
2.43.0


From de6d6b7c761c7fa1c5fa3dfcb401fe5fef3ed4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:34 +0000
Subject: [PATCH 45/52] fix: density plots of narrow integers overflow their
 type at the margins

---
 pointpats/kde.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pointpats/kde.py b/pointpats/kde.py
index a43fd35..848e247 100644
--- a/pointpats/kde.py
+++ b/pointpats/kde.py
@@ -135,10 +135,10 @@ def plot_density(
             bw=[bandwidth, bandwidth],
         )
 
-        xmax = data[:, 0].max()
-        xmin = data[:, 0].min()
-        ymax = data[:, 1].max()
-        ymin = data[:, 1].min()
+        xmax = float(data[:, 0].max())
+        xmin = float(data[:, 0].min())
+        ymax = float(data[:, 1].max())
+        ymin = float(data[:, 1].min())
 
         # get margin to go beyond the extent to avoid cutting of countour lines
         x_margin = (xmax - xmin) * margin
-- 
2.43.0


From f10982ed0daa939d00c11120b43c85aad6273c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:34 +0000
Subject: [PATCH 46/52] fix: plot_density refuses a resolution that is a NumPy
 integer

---
 pointpats/kde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/kde.py b/pointpats/kde.py
index 848e247..7e6cbb7 100644
--- a/pointpats/kde.py
+++ b/pointpats/kde.py
@@ -119,7 +119,7 @@ def plot_density(
 
     if isinstance(resolution, tuple):
         x_res, y_res = resolution
-    elif isinstance(resolution, (float, int)):
+    elif isinstance(resolution, (float, int, np.integer)):
         x_res = resolution
         y_res = resolution
     elif resolution is None:
-- 
2.43.0


From 7689d584cf32b04b779dfc4f18fcfca133352799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:34 +0000
Subject: [PATCH 47/52] fix: a number of steps that is a NumPy integer is taken
 for the support itself

---
 pointpats/distance_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index 1716a1f..2d6b372 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -84,7 +84,7 @@ def _prepare(coordinates, support, distances, metric, hull, edge_correction):
     if support is None:
         support = 20
 
-    if isinstance(support, int):  # if just n_steps, use the max nnd
+    if isinstance(support, (int, numpy.integer)):  # if just n_steps, use the max nnd
         # this is O(n log n) for kdtrees & balltrees
         tmp_tree = _build_best_tree(coordinates, metric=metric)
         max_dist = _k_neighbors(tmp_tree, coordinates, 1)[0].max()
-- 
2.43.0


From c091a4c4a350261ad381a6665b542e5ff4b4fb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:34 +0000
Subject: [PATCH 48/52] fix: simulators refuse a size that is a NumPy integer

---
 pointpats/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/random.py b/pointpats/random.py
index 052392f..e1daafa 100644
--- a/pointpats/random.py
+++ b/pointpats/random.py
@@ -100,7 +100,7 @@ def parse_size_and_intensity(hull, intensity=None, size=None):
                 f" to the number of simulations."
                 f" Recieved: `intensity={intensity}, size={size}`"
             )
-    elif isinstance(size, int):
+    elif isinstance(size, (int, numpy.integer)):
         # assume int size with specified intensity means n_simulations at x intensity
         if intensity is not None:
             n_observations = int(round(intensity * _area(hull), 9))
-- 
2.43.0


From 83df5fe62dd20bcfd36130ab96cd5d375adeadb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:34 +0000
Subject: [PATCH 49/52] fix: normal refuses variances that are NumPy numbers,
 and its own default for boxes in single precision

---
 pointpats/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/random.py b/pointpats/random.py
index e1daafa..d41f4be 100644
--- a/pointpats/random.py
+++ b/pointpats/random.py
@@ -242,7 +242,7 @@ def normal(hull, center=None, cov=None, size=None, rng=None):
         height = bbox[3] - bbox[1]
         cov = numpy.maximum(width / 2, height / 2) ** 2
 
-    if isinstance(cov, (int, float)):
+    if isinstance(cov, (int, float, numpy.integer, numpy.floating)):
         sd = cov
         cov = numpy.eye(2) * sd
     elif isinstance(cov, numpy.ndarray):
-- 
2.43.0


From 99e2e20a5f36f1962bdb33022461adfb0b32e84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:34 +0000
Subject: [PATCH 50/52] fix: cluster radii in integers overflow their type when
 squared, and single NumPy numbers are refused

---
 pointpats/random.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pointpats/random.py b/pointpats/random.py
index d41f4be..73da9ee 100644
--- a/pointpats/random.py
+++ b/pointpats/random.py
@@ -345,7 +345,7 @@ def cluster_poisson(
             f"does not match number of clusters requested"
             f" ({n_seeds})."
         )
-    elif isinstance(cluster_radius, (int, float)):
+    elif isinstance(cluster_radius, (int, float, numpy.integer, numpy.floating)):
         cluster_radii = [cluster_radius] * n_seeds
     elif cluster_radius is not None:
         cluster_radii = list(cluster_radius)
@@ -384,7 +384,7 @@ def cluster_poisson(
                 )
             candidates = _uniform_circle(
                 n_in_cluster - 1,
-                radius=radius,
+                radius=float(radius),
                 center=seed,
                 hull=hull,
                 rng=rng,
-- 
2.43.0


From 71afc9bcd008c581c325831e8f2e1790d8c05f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:34 +0000
Subject: [PATCH 51/52] fix: knox squares times stored in narrow integers
 beyond their type

---
 pointpats/spacetime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pointpats/spacetime.py b/pointpats/spacetime.py
index a272bc5..63f351c 100644
--- a/pointpats/spacetime.py
+++ b/pointpats/spacetime.py
@@ -250,7 +250,8 @@ def knox(s_coords, t_coords, delta, tau, permutations=99, debug=False):  # noqa:
     """
     warn("This function is deprecated. Use Knox", FutureWarning, stacklevel=2)
 
-    t_coords = np.array(t_coords)  # shuffled below; keep the caller's array as it is
+    # shuffled below; keep the caller's array as it is
+    t_coords = np.array(t_coords, dtype=float)
 
     # Do a kdtree on space first as the number of ties (identical points) is
     # likely to be lower for space than time.
-- 
2.43.0


From 6a7cf9925d3b74c9f59eb81b36f70daaf891f0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:26 +0000
Subject: [PATCH 52/52] fix: name the shape in g's refusal of a misaligned
 distance matrix

---
 pointpats/distance_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointpats/distance_statistics.py b/pointpats/distance_statistics.py
index 2d6b372..5d8db04 100644
--- a/pointpats/distance_statistics.py
+++ b/pointpats/distance_statistics.py
@@ -261,7 +261,7 @@ def g(
                 k, p = distances.shape
                 n = coordinates.shape[0]
                 raise ValueError(
-                    " Input distance matrix has an invalid shape: {k},{p}."
+                    f" Input distance matrix has an invalid shape: {k},{p}."
                     " Distances supplied can either be 2 dimensional"
                     " square matrices with the same number of rows"
                     f" as `coordinates` ({n}) or 1 dimensional and contain"
-- 
2.43.0

