From c6b90ff66699bf1d85d9ddc0b563fe3f893046df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 001/110] fix: transform accepts special_codes given as a numpy
 array

---
 optbinning/binning/transformations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/transformations.py b/optbinning/binning/transformations.py
index 5c35d7d..32a63aa 100644
--- a/optbinning/binning/transformations.py
+++ b/optbinning/binning/transformations.py
@@ -196,7 +196,7 @@ def _apply_transform(x, dtype, special_codes, metric, metric_special,
             mask = x_p.isin(bins[i])
             x_transform[mask] = metric_value[i]
 
-    if special_codes:
+    if special_codes is not None:
         if isinstance(special_codes, dict):
             xt = pd.Series(x)
             for i, (k, s) in enumerate(special_codes.items()):
-- 
2.43.0


From f00dd5b852cce4354fd0889c6791b80b09b857ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 002/110] fix: remove empty prebins for hellinger and
 triangular divergences

---
 optbinning/binning/binning.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index e2c1899..d48ccba 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -1098,7 +1098,10 @@ class OptimalBinning(BaseOptimalBinning):
         if np.any(mask_remove):
             if self.divergence in ("hellinger", "triangular"):
                 self._flag_min_n_event_nonevent = True
-            else:
+                # Only prebins without records must be removed.
+                mask_remove = (n_nonevent == 0) & (n_event == 0)
+
+            if np.any(mask_remove):
                 self._n_refinements += 1
 
                 if (self.dtype == "categorical" and
-- 
2.43.0


From c4a72d71b12e46e5b5c6a6dd51a37c0f3b37d018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 003/110] fix: build binning table when every bin is pure or
 empty

---
 optbinning/binning/binning_statistics.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index 5867b6b..b8df104 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -543,16 +543,21 @@ class BinningTable:
         p_ev = p_event[mask]
         p_nev = p_nonevent[mask]
 
-        iv[mask] = jeffrey(p_ev, p_nev, return_sum=False)
-        js[mask] = jensen_shannon(p_ev, p_nev, return_sum=False)
+        if np.any(mask):
+            iv[mask] = jeffrey(p_ev, p_nev, return_sum=False)
+            js[mask] = jensen_shannon(p_ev, p_nev, return_sum=False)
+            self._hellinger = hellinger(p_ev, p_nev, return_sum=True)
+            self._triangular = triangular(p_ev, p_nev, return_sum=True)
+        else:
+            self._hellinger = 0.0
+            self._triangular = 0.0
+
         t_iv = iv.sum()
         t_js = js.sum()
 
         self._iv_values = iv
         self._iv = t_iv
         self._js = t_js
-        self._hellinger = hellinger(p_ev, p_nev, return_sum=True)
-        self._triangular = triangular(p_ev, p_nev, return_sum=True)
 
         # Compute KS
         self._ks = np.abs(p_event.cumsum() - p_nonevent.cumsum()).max()
-- 
2.43.0


From 901e302316e594291c7dbe70dc90399065d2e98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:45 +0000
Subject: [PATCH 004/110] fix: fit does not modify user_splits and
 user_splits_fixed, and keeps fixed splits with scenarios

---
 optbinning/binning/binning.py                 | 23 +++++++++++--------
 optbinning/binning/continuous_binning.py      | 19 +++++++++------
 optbinning/binning/multiclass_binning.py      | 20 +++++++++-------
 .../binning/uncertainty/binning_scenarios.py  | 16 ++++++++-----
 4 files changed, 48 insertions(+), 30 deletions(-)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index d48ccba..faa51ef 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -769,6 +769,9 @@ class OptimalBinning(BaseOptimalBinning):
 
         time_prebinning = time.perf_counter()
 
+        self._user_splits = None
+        self._user_splits_fixed = None
+
         if self.user_splits is not None:
             n_splits = len(self.user_splits)
 
@@ -797,8 +800,10 @@ class OptimalBinning(BaseOptimalBinning):
                      ] = preprocessing_user_splits_categorical(
                         self.user_splits, x_clean, y_clean, sw_clean)
 
+                self._user_splits = (
+                    user_splits if self.dtype == "numerical" else categories)
                 if self.user_splits_fixed is not None:
-                    self.user_splits_fixed = np.asarray(
+                    self._user_splits_fixed = np.asarray(
                         self.user_splits_fixed)[sorted_idx]
 
                 splits, n_nonevent, n_event = self._prebinning_refinement(
@@ -995,7 +1000,7 @@ class OptimalBinning(BaseOptimalBinning):
                                   min_bin_n_nonevent, self.max_bin_n_nonevent,
                                   self.min_event_rate_diff, self.max_pvalue,
                                   self.max_pvalue_policy, self.gamma,
-                                  self.user_splits_fixed, self.time_limit)
+                                  self._user_splits_fixed, self.time_limit)
         elif self.solver == "mip":
             optimizer = BinningMIP(monotonic, self.min_n_bins, self.max_n_bins,
                                    min_bin_size, max_bin_size,
@@ -1003,7 +1008,7 @@ class OptimalBinning(BaseOptimalBinning):
                                    min_bin_n_nonevent, self.max_bin_n_nonevent,
                                    self.min_event_rate_diff, self.max_pvalue,
                                    self.max_pvalue_policy, self.gamma,
-                                   self.user_splits_fixed, self.mip_solver,
+                                   self._user_splits_fixed, self.mip_solver,
                                    self.time_limit)
         elif self.solver == "ls":
             optimizer = BinningLS(monotonic, self.min_n_bins, self.max_n_bins,
@@ -1012,7 +1017,7 @@ class OptimalBinning(BaseOptimalBinning):
                                   min_bin_n_nonevent, self.max_bin_n_nonevent,
                                   self.min_event_rate_diff, self.max_pvalue,
                                   self.max_pvalue_policy,
-                                  self.user_splits_fixed, self.time_limit)
+                                  self._user_splits_fixed, self.time_limit)
 
         if self.verbose:
             logger.info("Optimizer: build model...")
@@ -1111,9 +1116,9 @@ class OptimalBinning(BaseOptimalBinning):
                     mask_splits = np.concatenate([
                         mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
 
-                if self.user_splits_fixed is not None:
-                    user_splits_fixed = np.asarray(self.user_splits_fixed)
-                    user_splits = np.asarray(self.user_splits)
+                if self._user_splits_fixed is not None:
+                    user_splits_fixed = self._user_splits_fixed
+                    user_splits = self._user_splits
                     fixed_remove = user_splits_fixed & mask_splits
 
                     if any(fixed_remove):
@@ -1124,8 +1129,8 @@ class OptimalBinning(BaseOptimalBinning):
                             .format(user_splits[fixed_remove]))
 
                     # Update boolean array of fixed user splits.
-                    self.user_splits_fixed = user_splits_fixed[~mask_splits]
-                    self.user_splits = user_splits[~mask_splits]
+                    self._user_splits_fixed = user_splits_fixed[~mask_splits]
+                    self._user_splits = user_splits[~mask_splits]
 
                 splits = splits_prebinning[~mask_splits]
 
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index 0b6d3f3..5433b10 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -617,6 +617,9 @@ class ContinuousOptimalBinning(OptimalBinning):
 
         time_prebinning = time.perf_counter()
 
+        self._user_splits = None
+        self._user_splits_fixed = None
+
         if self.user_splits is not None:
             n_splits = len(self.user_splits)
 
@@ -646,8 +649,10 @@ class ContinuousOptimalBinning(OptimalBinning):
                      ] = preprocessing_user_splits_categorical(
                         self.user_splits, x_clean, y_clean, sw_clean)
 
+                self._user_splits = (
+                    user_splits if self.dtype == "numerical" else categories)
                 if self.user_splits_fixed is not None:
-                    self.user_splits_fixed = np.asarray(
+                    self._user_splits_fixed = np.asarray(
                         self.user_splits_fixed)[sorted_idx]
 
                 [splits, n_records, sums, ssums, stds, min_t, max_t,
@@ -815,7 +820,7 @@ class ContinuousOptimalBinning(OptimalBinning):
                                         max_bin_size, self.min_mean_diff,
                                         self.max_pvalue,
                                         self.max_pvalue_policy, self.gamma,
-                                        self.user_splits_fixed,
+                                        self._user_splits_fixed,
                                         self.time_limit)
 
         if self.verbose:
@@ -939,9 +944,9 @@ class ContinuousOptimalBinning(OptimalBinning):
                 mask_splits = np.concatenate([
                     mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
 
-            if self.user_splits_fixed is not None:
-                user_splits_fixed = np.asarray(self.user_splits_fixed)
-                user_splits = np.asarray(self.user_splits)
+            if self._user_splits_fixed is not None:
+                user_splits_fixed = self._user_splits_fixed
+                user_splits = self._user_splits
                 fixed_remove = user_splits_fixed & mask_splits
 
                 if any(fixed_remove):
@@ -952,8 +957,8 @@ class ContinuousOptimalBinning(OptimalBinning):
                         .format(user_splits[fixed_remove]))
 
                 # Update boolean array of fixed user splits.
-                self.user_splits_fixed = user_splits_fixed[~mask_splits]
-                self.user_splits = user_splits[~mask_splits]
+                self._user_splits_fixed = user_splits_fixed[~mask_splits]
+                self._user_splits = user_splits[~mask_splits]
 
             splits = splits_prebinning[~mask_splits]
             if self.verbose:
diff --git a/optbinning/binning/multiclass_binning.py b/optbinning/binning/multiclass_binning.py
index cc80add..f006f3f 100644
--- a/optbinning/binning/multiclass_binning.py
+++ b/optbinning/binning/multiclass_binning.py
@@ -552,6 +552,9 @@ class MulticlassOptimalBinning(OptimalBinning):
 
         time_prebinning = time.perf_counter()
 
+        self._user_splits = None
+        self._user_splits_fixed = None
+
         if self.user_splits is not None:
             n_splits = len(self.user_splits)
 
@@ -568,8 +571,9 @@ class MulticlassOptimalBinning(OptimalBinning):
             sorted_idx = np.argsort(user_splits)
             user_splits = user_splits[sorted_idx]
 
+            self._user_splits = user_splits
             if self.user_splits_fixed is not None:
-                self.user_splits_fixed = np.asarray(
+                self._user_splits_fixed = np.asarray(
                     self.user_splits_fixed)[sorted_idx]
 
             splits, n_nonevent, n_event = self._prebinning_refinement(
@@ -747,7 +751,7 @@ class MulticlassOptimalBinning(OptimalBinning):
                                             self.min_event_rate_diff,
                                             self.max_pvalue,
                                             self.max_pvalue_policy,
-                                            self.user_splits_fixed,
+                                            self._user_splits_fixed,
                                             self.time_limit)
         else:
             optimizer = MulticlassBinningMIP(monotonic, self.min_n_bins,
@@ -757,7 +761,7 @@ class MulticlassOptimalBinning(OptimalBinning):
                                              self.max_pvalue,
                                              self.max_pvalue_policy,
                                              self.mip_solver,
-                                             self.user_splits_fixed,
+                                             self._user_splits_fixed,
                                              self.time_limit)
         if self.verbose:
             logger.info("Optimizer: build model...")
@@ -812,9 +816,9 @@ class MulticlassOptimalBinning(OptimalBinning):
             mask_splits = np.concatenate(
                 [mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
 
-            if self.user_splits_fixed is not None:
-                user_splits_fixed = np.asarray(self.user_splits_fixed)
-                user_splits = np.asarray(self.user_splits)
+            if self._user_splits_fixed is not None:
+                user_splits_fixed = self._user_splits_fixed
+                user_splits = self._user_splits
                 fixed_remove = user_splits_fixed & mask_splits
 
                 if any(fixed_remove):
@@ -824,8 +828,8 @@ class MulticlassOptimalBinning(OptimalBinning):
                                      .format(user_splits[fixed_remove]))
 
                 # Update boolean array of fixed user splits.
-                self.user_splits_fixed = user_splits_fixed[~mask_splits]
-                self.user_splits = user_splits[~mask_splits]
+                self._user_splits_fixed = user_splits_fixed[~mask_splits]
+                self._user_splits = user_splits[~mask_splits]
 
             splits = splits_prebinning[~mask_splits]
 
diff --git a/optbinning/binning/uncertainty/binning_scenarios.py b/optbinning/binning/uncertainty/binning_scenarios.py
index 8b5c8d3..23556a1 100644
--- a/optbinning/binning/uncertainty/binning_scenarios.py
+++ b/optbinning/binning/uncertainty/binning_scenarios.py
@@ -310,7 +310,7 @@ class SBOptimalBinning(OptimalBinning):
         self._n_event_special = None
         self._problem_type = "classification"
         self._user_splits = user_splits
-        self._user_splits_fixed = user_splits_fixed
+        self._user_splits_fixed = None
 
         # info
         self._binning_table = None
@@ -523,6 +523,9 @@ class SBOptimalBinning(OptimalBinning):
 
         time_prebinning = time.perf_counter()
 
+        self._user_splits = None
+        self._user_splits_fixed = None
+
         if self.user_splits is not None:
             user_splits = check_array(
                 self.user_splits, ensure_2d=False, dtype=None,
@@ -534,8 +537,9 @@ class SBOptimalBinning(OptimalBinning):
             sorted_idx = np.argsort(user_splits)
             user_splits = user_splits[sorted_idx]
 
+            self._user_splits = user_splits
             if self.user_splits_fixed is not None:
-                self.user_splits_fixed = np.asarray(
+                self._user_splits_fixed = np.asarray(
                     self.user_splits_fixed)[sorted_idx]
 
             splits, n_nonevent, n_event = self._prebinning_refinement(
@@ -701,9 +705,9 @@ class SBOptimalBinning(OptimalBinning):
             mask_splits = np.concatenate(
                 [mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
 
-            if self.user_splits_fixed is not None:
-                user_splits_fixed = np.asarray(self._user_splits_fixed)
-                user_splits = np.asarray(self._user_splits)
+            if self._user_splits_fixed is not None:
+                user_splits_fixed = self._user_splits_fixed
+                user_splits = self._user_splits
                 fixed_remove = user_splits_fixed & mask_splits
 
                 if any(fixed_remove):
@@ -760,7 +764,7 @@ class SBOptimalBinning(OptimalBinning):
                               self.max_n_bins, min_bin_size, max_bin_size,
                               None, None, None, None, self.min_event_rate_diff,
                               self.max_pvalue, self.max_pvalue_policy, None,
-                              self.user_splits_fixed, self.time_limit)
+                              self._user_splits_fixed, self.time_limit)
         if weights is None:
             weights = np.ones(self._n_scenarios, int)
 
-- 
2.43.0


From b09e72537a3ef8efa4fa35ee70c9b577cac24196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:55 +0000
Subject: [PATCH 005/110] fix: monotonic preprocessing does not cut off
 solutions when other constraints are active

---
 optbinning/binning/cp.py  | 26 ++++++++++++++++++++------
 optbinning/binning/mip.py | 25 +++++++++++++++++++------
 2 files changed, 39 insertions(+), 12 deletions(-)

diff --git a/optbinning/binning/cp.py b/optbinning/binning/cp.py
index 74e369d..492bbfe 100644
--- a/optbinning/binning/cp.py
+++ b/optbinning/binning/cp.py
@@ -342,6 +342,20 @@ class BinningCP:
 
         return x, y, t, d
 
+    def _allow_preprocessing(self):
+        # Split points can be discarded in advance without cutting off the
+        # optimal solution only if no other constraint is active.
+        limits = (self.min_n_bins, self.max_n_bins, self.min_bin_size,
+                  self.max_bin_size, self.min_bin_n_event,
+                  self.max_bin_n_event, self.min_bin_n_nonevent,
+                  self.max_bin_n_nonevent, self.max_pvalue)
+
+        return (all(limit is None for limit in limits) and
+                self.min_event_rate_diff == 0 and not self.gamma and
+                (self.user_splits_fixed is None or
+                 not any(self.user_splits_fixed)) and
+                not self._is_scenario_binning)
+
     def add_constraint_unique_assignment(self, model, n, x):
         for j in range(n):
             model.Add(sum([x[i, j] for i in range(j, n)]) == 1)
@@ -403,7 +417,7 @@ class BinningCP:
                          for j in range(i)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0 and not self._is_scenario_binning:
+        if self._allow_preprocessing():
             for i in range(n - 1):
                 if D[i+1][i] - D[i+1][i+1] > 0:
                     model.Add(x[i, i] == 0)
@@ -422,7 +436,7 @@ class BinningCP:
                          for j in range(z)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0 and not self._is_scenario_binning:
+        if self._allow_preprocessing():
             for i in range(n - 1):
                 if D[i+1][i] - D[i+1][i+1] < 0:
                     model.Add(x[i, i] == 0)
@@ -505,7 +519,7 @@ class BinningCP:
                          for j in range(i)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0 and not self._is_scenario_binning:
+        if self._allow_preprocessing():
             for i in range(tc - 1):
                 if D[i+1][i] - D[i+1][i+1] > 0:
                     model.Add(x[i, i] == 0)
@@ -523,7 +537,7 @@ class BinningCP:
                          for j in range(z)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0 and not self._is_scenario_binning:
+        if self._allow_preprocessing():
             for i in range(tc, n - 1):
                 if D[i+1][i] - D[i+1][i+1] < 0:
                     model.Add(x[i, i] == 0)
@@ -542,7 +556,7 @@ class BinningCP:
                          for j in range(z)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0 and not self._is_scenario_binning:
+        if self._allow_preprocessing():
             for i in range(tc - 1):
                 if D[i+1][i] - D[i+1][i+1] < 0:
                     model.Add(x[i, i] == 0)
@@ -560,7 +574,7 @@ class BinningCP:
                          for j in range(i)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0 and not self._is_scenario_binning:
+        if self._allow_preprocessing():
             for i in range(tc, n - 1):
                 if D[i+1][i] - D[i+1][i+1] > 0:
                     model.Add(x[i, i] == 0)
diff --git a/optbinning/binning/mip.py b/optbinning/binning/mip.py
index 3826cbd..fe4891f 100644
--- a/optbinning/binning/mip.py
+++ b/optbinning/binning/mip.py
@@ -241,6 +241,19 @@ class BinningMIP:
 
         return x, y, t, d, u, bin_size_diff
 
+    def _allow_preprocessing(self):
+        # Split points can be discarded in advance without cutting off the
+        # optimal solution only if no other constraint is active.
+        limits = (self.min_n_bins, self.max_n_bins, self.min_bin_size,
+                  self.max_bin_size, self.min_bin_n_event,
+                  self.max_bin_n_event, self.min_bin_n_nonevent,
+                  self.max_bin_n_nonevent, self.max_pvalue)
+
+        return (all(limit is None for limit in limits) and
+                self.min_event_rate_diff == 0 and not self.gamma and
+                (self.user_splits_fixed is None or
+                 not any(self.user_splits_fixed)))
+
     def add_constraint_unique_assignment(self, solver, n, x):
         for j in range(n):
             solver.Add(solver.Sum([x[i, j] for i in range(j, n)]) == 1)
@@ -289,7 +302,7 @@ class BinningMIP:
                                 for j in range(i)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0:
+        if self._allow_preprocessing():
             for i in range(n - 1):
                 if D[i+1][i] - D[i+1][i+1] > 0:
                     solver.Add(x[i, i] == 0)
@@ -308,7 +321,7 @@ class BinningMIP:
                                 for j in range(z)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0:
+        if self._allow_preprocessing():
             for i in range(n - 1):
                 if D[i+1][i] - D[i+1][i+1] < 0:
                     solver.Add(x[i, i] == 0)
@@ -395,7 +408,7 @@ class BinningMIP:
                                 for j in range(i)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0:
+        if self._allow_preprocessing():
             for i in range(tc - 1):
                 if D[i+1][i] - D[i+1][i+1] > 0:
                     solver.Add(x[i, i] == 0)
@@ -413,7 +426,7 @@ class BinningMIP:
                                 for j in range(z)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0:
+        if self._allow_preprocessing():
             for i in range(tc, n - 1):
                 if D[i+1][i] - D[i+1][i+1] < 0:
                     solver.Add(x[i, i] == 0)
@@ -432,7 +445,7 @@ class BinningMIP:
                                 for j in range(z)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0:
+        if self._allow_preprocessing():
             for i in range(tc - 1):
                 if D[i+1][i] - D[i+1][i+1] < 0:
                     solver.Add(x[i, i] == 0)
@@ -450,7 +463,7 @@ class BinningMIP:
                                 for j in range(i)]) <= 0)
 
         # Preprocessing
-        if self.min_event_rate_diff == 0:
+        if self._allow_preprocessing():
             for i in range(tc, n - 1):
                 if D[i+1][i] - D[i+1][i+1] > 0:
                     solver.Add(x[i, i] == 0)
-- 
2.43.0


From 4ed1b416676e0e1939f750be2bde7ecb808e0927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 006/110] fix: concave and convex constraints do not cut off
 monotone solutions

---
 optbinning/binning/cp.py  | 4 ++--
 optbinning/binning/mip.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/cp.py b/optbinning/binning/cp.py
index 492bbfe..87bc82f 100644
--- a/optbinning/binning/cp.py
+++ b/optbinning/binning/cp.py
@@ -455,7 +455,7 @@ class BinningCP:
                                   for z in range(j)]) + D[j][j] * x[j, j]) -
                         (sum([(D[k][z] - D[k][z+1]) * x[k, z]
                               for z in range(k)]) + D[k][k] * x[k, k]) >=
-                        M * (x[i, i] + x[j, j] + x[k, k] - 3))
+                        2 * M * (x[i, i] + x[j, j] + x[k, k] - 3))
 
     def add_constraint_monotonic_convex(self, model, n, D, x, M):
         for i in range(2, n):
@@ -468,7 +468,7 @@ class BinningCP:
                                   for z in range(j)]) + D[j][j] * x[j, j]) +
                         (sum([(D[k][z] - D[k][z+1]) * x[k, z]
                               for z in range(k)]) + D[k][k] * x[k, k]) >=
-                        M * (x[i, i] + x[j, j] + x[k, k] - 3))
+                        2 * M * (x[i, i] + x[j, j] + x[k, k] - 3))
 
     def add_constraint_monotonic_peak(self, model, n, D, x, y, M):
         for i in range(1, n):
diff --git a/optbinning/binning/mip.py b/optbinning/binning/mip.py
index fe4891f..d4b8955 100644
--- a/optbinning/binning/mip.py
+++ b/optbinning/binning/mip.py
@@ -341,7 +341,7 @@ class BinningMIP:
                              + D[j][j] * x[j, j]) -
                         (solver.Sum([(D[k][z] - D[k][z+1]) * x[k, z]
                                      for z in range(k)]) +
-                         D[k][k] * x[k, k]) >= (
+                         D[k][k] * x[k, k]) >= 2 * (
                          x[i, i] + x[j, j] + x[k, k] - 3))
 
     def add_constraint_monotonic_convex(self, solver, n, D, x):
@@ -356,7 +356,7 @@ class BinningMIP:
                              D[j][j] * x[j, j]) +
                         (solver.Sum([(D[k][z] - D[k][z+1]) * x[k, z]
                                      for z in range(k)]) +
-                         D[k][k] * x[k, k]) >= (
+                         D[k][k] * x[k, k]) >= 2 * (
                          x[i, i] + x[j, j] + x[k, k] - 3))
 
     def add_constraint_monotonic_peak(self, solver, n, D, x, y):
-- 
2.43.0


From 1ee6ea72ed3f74d775dbe8963ee06dc04adfc117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 007/110] fix: multiclass binning does not discard split points
 using a single class

---
 optbinning/binning/multiclass_cp.py  | 4 ++++
 optbinning/binning/multiclass_mip.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/optbinning/binning/multiclass_cp.py b/optbinning/binning/multiclass_cp.py
index cfb43a6..5b4a65b 100644
--- a/optbinning/binning/multiclass_cp.py
+++ b/optbinning/binning/multiclass_cp.py
@@ -161,6 +161,10 @@ class MulticlassBinningCP(BinningCP):
 
         return x, y, t, d, u, bin_size_diff
 
+    def _allow_preprocessing(self):
+        # Split points discarded for one class can be required by others.
+        return False
+
     def add_constraint_monotonic_peak(self, model, n, D, x, c, y, M):
         for i in range(1, n):
             for z in range(i):
diff --git a/optbinning/binning/multiclass_mip.py b/optbinning/binning/multiclass_mip.py
index 6f35539..a85200e 100644
--- a/optbinning/binning/multiclass_mip.py
+++ b/optbinning/binning/multiclass_mip.py
@@ -164,6 +164,10 @@ class MulticlassBinningMIP(BinningMIP):
 
         return x, y, t, d, u, bin_size_diff
 
+    def _allow_preprocessing(self):
+        # Split points discarded for one class can be required by others.
+        return False
+
     def add_constraint_monotonic_peak(self, solver, n, D, x, c, y):
         for i in range(1, n):
             for z in range(i):
-- 
2.43.0


From 84c4d065f2bf3edd1070076377be57d05e9e3060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 008/110] fix: multiclass peak and valley heuristics are
 imposed

---
 optbinning/binning/multiclass_cp.py  | 4 ++--
 optbinning/binning/multiclass_mip.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/multiclass_cp.py b/optbinning/binning/multiclass_cp.py
index 5b4a65b..956bceb 100644
--- a/optbinning/binning/multiclass_cp.py
+++ b/optbinning/binning/multiclass_cp.py
@@ -96,11 +96,11 @@ class MulticlassBinningCP(BinningCP):
                     self.add_constraint_monotonic_valley(
                         model, n, D[c], x, c, y, M)
 
-            elif self.monotonic_trend == "peak_heuristic":
+            elif self.monotonic_trend[c] == "peak_heuristic":
                 self.add_constraint_monotonic_peak_heuristic(
                     model, n, D[c], x, trend_changes[c], M)
 
-            elif self.monotonic_trend == "valley_heuristic":
+            elif self.monotonic_trend[c] == "valley_heuristic":
                 self.add_constraint_monotonic_valley_heuristic(
                     model, n, D[c], x, trend_changes[c], M)
 
diff --git a/optbinning/binning/multiclass_mip.py b/optbinning/binning/multiclass_mip.py
index a85200e..b79e7b3 100644
--- a/optbinning/binning/multiclass_mip.py
+++ b/optbinning/binning/multiclass_mip.py
@@ -99,11 +99,11 @@ class MulticlassBinningMIP(BinningMIP):
                     self.add_constraint_monotonic_valley(
                         solver, n, D[c], x, c, y)
 
-            elif self.monotonic_trend == "peak_heuristic":
+            elif self.monotonic_trend[c] == "peak_heuristic":
                 self.add_constraint_monotonic_peak_heuristic(
                     solver, n, D[c], x, trend_changes[c])
 
-            elif self.monotonic_trend == "valley_heuristic":
+            elif self.monotonic_trend[c] == "valley_heuristic":
                 self.add_constraint_monotonic_valley_heuristic(
                     solver, n, D[c], x, trend_changes[c])
 
-- 
2.43.0


From 563009e7a1a1d1cd29d0eb3b9c77db53d37d3bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 009/110] fix: continuous peak and valley constraints hold for
 targets of both signs

---
 optbinning/binning/continuous_cp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/continuous_cp.py b/optbinning/binning/continuous_cp.py
index 71f6098..b271dde 100644
--- a/optbinning/binning/continuous_cp.py
+++ b/optbinning/binning/continuous_cp.py
@@ -176,7 +176,7 @@ class ContinuousBinningCP(BinningCP):
                         ).OnlyEnforceIf([x[k, k], x[j, j], x[i, i]])
 
     def add_constraint_monotonic_peak(self, model, n, U, x, y):
-        M = max([abs(U[i][j]) for i in range(n) for j in range(i + 1)])
+        M = 2 * max([abs(U[i][j]) for i in range(n) for j in range(i + 1)])
         for i in range(1, n):
             for z in range(i):
                 model.Add(
@@ -196,7 +196,7 @@ class ContinuousBinningCP(BinningCP):
                     U[z][z] * x[z, z] >= 0).OnlyEnforceIf([x[z, z], x[i, i]])
 
     def add_constraint_monotonic_valley(self, model, n, U, x, y):
-        M = max([abs(U[i][j]) for i in range(n) for j in range(i + 1)])
+        M = 2 * max([abs(U[i][j]) for i in range(n) for j in range(i + 1)])
         for i in range(1, n):
             for z in range(i):
                 model.Add(
-- 
2.43.0


From a23c4f689921dde9a537e92aea88f2108b125ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 010/110] fix: continuous binning applies the gamma
 regularization

---
 optbinning/binning/continuous_cp.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/optbinning/binning/continuous_cp.py b/optbinning/binning/continuous_cp.py
index b271dde..a2f9577 100644
--- a/optbinning/binning/continuous_cp.py
+++ b/optbinning/binning/continuous_cp.py
@@ -114,6 +114,15 @@ class ContinuousBinningCP(BinningCP):
             self.add_constraint_monotonic_valley_heuristic(
                 model, n, U, x, trend_change, M)
 
+        # Constraint: reduction of dominating bins
+        if self.gamma:
+            for i in range(n):
+                bin_size = sum([n_records[j] * x[i, j] for j in range(i + 1)])
+
+                model.Add(pmin <= total_records * (1 - x[i, i]) + bin_size)
+                model.Add(pmax >= bin_size)
+            model.Add(pmin <= pmax)
+
         # Constraint: max-pvalue
         self.add_constraint_violation(model, x, pvalue_violation_indices)
 
-- 
2.43.0


From 8595b5b39214e2452dd15daa161ba7c1901b4420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:07 +0000
Subject: [PATCH 011/110] fix: reported monotonic trend considers only the
 normal bins

---
 optbinning/binning/binning_statistics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index b8df104..40f02e9 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -977,7 +977,7 @@ class BinningTable:
                                                     self._hhi_norm)
 
         # Monotonic trend
-        type_mono = type_of_monotonic_trend(self._event_rate[:-2])
+        type_mono = type_of_monotonic_trend(self._event_rate[:n_metric])
 
         report = (
             "---------------------------------------------\n"
@@ -1462,7 +1462,7 @@ class MulticlassBinningTable:
         monotonic_string = ""
 
         for i in range(len(self.classes)):
-            type_mono = type_of_monotonic_trend(self._event_rate[:-2, i])
+            type_mono = type_of_monotonic_trend(self._event_rate[:n_metric, i])
             monotonic_string += mono_string.format(i, type_mono)
 
         report = (
@@ -2026,7 +2026,7 @@ class ContinuousBinningTable:
             rwoe, p_values, self._hhi_norm)
 
         # Monotonic trend
-        type_mono = type_of_monotonic_trend(self._mean[:-2])
+        type_mono = type_of_monotonic_trend(self._mean[:n_metric])
 
         report = (
             "-------------------------------------------------\n"
-- 
2.43.0


From f3276973ee5a2fc7f38fa42907ab3f5777f2d5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:11 +0000
Subject: [PATCH 012/110] fix: unknown categories get the mean over all
 training records

---
 optbinning/binning/transformations.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/optbinning/binning/transformations.py b/optbinning/binning/transformations.py
index 32a63aa..fbe5ea5 100644
--- a/optbinning/binning/transformations.py
+++ b/optbinning/binning/transformations.py
@@ -273,11 +273,6 @@ def transform_binary_target(splits, dtype, x, n_nonevent, n_event,
         t_n_nonevent = n_nonevent.sum()
         t_n_event = n_event.sum()
 
-        if "empirical" not in (metric_special, metric_missing):
-            n_event = n_event[:n_bins]
-            n_nonevent = n_nonevent[:n_bins]
-            n_records = n_records[:n_bins]
-
         # Default woe and event rate is 0
         mask = (n_event > 0) & (n_nonevent > 0)
         event_rate = np.zeros(len(n_records))
@@ -424,10 +419,6 @@ def transform_continuous_target(splits, dtype, x, n_records, sums,
         bins_str = [str(b) for b in bins]
         n_bins = len(bins)
 
-    if "empirical" not in (metric_special, metric_missing):
-        n_records = n_records[:n_bins]
-        sums = sums[:n_bins]
-
     if metric == "mean":
         # Compute mean
         mask = n_records > 0
-- 
2.43.0


From 8351d0db1b09a178dae2ff105492884086b1016b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:11 +0000
Subject: [PATCH 013/110] fix: an integer cat_unknown does not truncate
 transformed values

---
 optbinning/binning/transformations.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/optbinning/binning/transformations.py b/optbinning/binning/transformations.py
index fbe5ea5..07cb275 100644
--- a/optbinning/binning/transformations.py
+++ b/optbinning/binning/transformations.py
@@ -179,11 +179,7 @@ def _apply_transform(x, dtype, special_codes, metric, metric_special,
                      n_special, cat_unknown):
 
     if dtype == "numerical":
-        if metric == "bins":
-            x_clean_transform = np.full(x_clean.shape, cat_unknown,
-                                        dtype=object)
-        else:
-            x_clean_transform = np.full(x_clean.shape, cat_unknown)
+        x_clean_transform = np.empty(x_clean.shape, dtype=x_transform.dtype)
 
         for i in range(n_bins):
             mask = (indices == i)
@@ -297,7 +293,7 @@ def transform_binary_target(splits, dtype, x, n_nonevent, n_event,
         else:
             metric_value = event_rate
 
-        x_transform = np.full(x.shape, cat_unknown)
+        x_transform = np.full(x.shape, cat_unknown, dtype=float)
     else:
         # Assign corresponding indices or bin intervals
         metric_value, x_transform = _transform_metric_indices_bins(
@@ -429,7 +425,7 @@ def transform_continuous_target(splits, dtype, x, n_records, sums,
         if cat_unknown is None:
             cat_unknown = sums.sum() / n_records.sum()
 
-        x_transform = np.full(x.shape, cat_unknown)
+        x_transform = np.full(x.shape, cat_unknown, dtype=float)
     else:
         # Assign corresponding indices or bin intervals
         metric_value, x_transform = _transform_metric_indices_bins(
-- 
2.43.0


From f7f06fdd58020f1a4a3bad5cdc5a6df32de81849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:13 +0000
Subject: [PATCH 014/110] fix: fixed splits discarded by the preprocessing
 remain infeasible

---
 optbinning/binning/cp.py  | 5 ++---
 optbinning/binning/mip.py | 7 +++----
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/optbinning/binning/cp.py b/optbinning/binning/cp.py
index 87bc82f..e674cf3 100644
--- a/optbinning/binning/cp.py
+++ b/optbinning/binning/cp.py
@@ -344,7 +344,8 @@ class BinningCP:
 
     def _allow_preprocessing(self):
         # Split points can be discarded in advance without cutting off the
-        # optimal solution only if no other constraint is active.
+        # optimal solution only if no other constraint is active. Fixed splits
+        # must not be discarded: they are reported as infeasible.
         limits = (self.min_n_bins, self.max_n_bins, self.min_bin_size,
                   self.max_bin_size, self.min_bin_n_event,
                   self.max_bin_n_event, self.min_bin_n_nonevent,
@@ -352,8 +353,6 @@ class BinningCP:
 
         return (all(limit is None for limit in limits) and
                 self.min_event_rate_diff == 0 and not self.gamma and
-                (self.user_splits_fixed is None or
-                 not any(self.user_splits_fixed)) and
                 not self._is_scenario_binning)
 
     def add_constraint_unique_assignment(self, model, n, x):
diff --git a/optbinning/binning/mip.py b/optbinning/binning/mip.py
index d4b8955..9f9cf30 100644
--- a/optbinning/binning/mip.py
+++ b/optbinning/binning/mip.py
@@ -243,16 +243,15 @@ class BinningMIP:
 
     def _allow_preprocessing(self):
         # Split points can be discarded in advance without cutting off the
-        # optimal solution only if no other constraint is active.
+        # optimal solution only if no other constraint is active. Fixed splits
+        # must not be discarded: they are reported as infeasible.
         limits = (self.min_n_bins, self.max_n_bins, self.min_bin_size,
                   self.max_bin_size, self.min_bin_n_event,
                   self.max_bin_n_event, self.min_bin_n_nonevent,
                   self.max_bin_n_nonevent, self.max_pvalue)
 
         return (all(limit is None for limit in limits) and
-                self.min_event_rate_diff == 0 and not self.gamma and
-                (self.user_splits_fixed is None or
-                 not any(self.user_splits_fixed)))
+                self.min_event_rate_diff == 0 and not self.gamma)
 
     def add_constraint_unique_assignment(self, solver, n, x):
         for j in range(n):
-- 
2.43.0


From ac3e339b3943e93941400276de79a51d5c5a737c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:13 +0000
Subject: [PATCH 015/110] fix: hellinger and triangular divergences with a
 single observed class

---
 optbinning/binning/binning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index faa51ef..22f8827 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -1101,7 +1101,8 @@ class OptimalBinning(BaseOptimalBinning):
         mask_remove = (n_nonevent == 0) | (n_event == 0)
 
         if np.any(mask_remove):
-            if self.divergence in ("hellinger", "triangular"):
+            if (self.divergence in ("hellinger", "triangular") and
+                    np.any(n_nonevent) and np.any(n_event)):
                 self._flag_min_n_event_nonevent = True
                 # Only prebins without records must be removed.
                 mask_remove = (n_nonevent == 0) & (n_event == 0)
-- 
2.43.0


From 3af8c05738716d6963901e2099c1629588a98aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 016/110] fix: split_data applies both fix_lb and fix_ub

---
 optbinning/binning/preprocessing.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/optbinning/binning/preprocessing.py b/optbinning/binning/preprocessing.py
index fc299dc..9654e97 100644
--- a/optbinning/binning/preprocessing.py
+++ b/optbinning/binning/preprocessing.py
@@ -249,12 +249,11 @@ def split_data(dtype, x, y, special_codes=None, cat_cutoff=None,
             sw_clean = sw_clean[~mask_outlier]
 
         if fix_lb is not None or fix_ub is not None:
+            mask = np.ones(x_clean.shape, dtype=bool)
             if fix_lb is not None:
-                mask = x_clean >= fix_lb
-            elif fix_ub is not None:
-                mask = x_clean <= fix_ub
-            else:
-                mask = (x_clean >= fix_lb) & (x_clean <= fix_ub)
+                mask &= x_clean >= fix_lb
+            if fix_ub is not None:
+                mask &= x_clean <= fix_ub
 
             x_clean = x_clean[mask]
             y_clean = y_clean[mask]
-- 
2.43.0


From 18aa6ef24cc7bc4337cf3737766cf372c2f0be2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:34 +0000
Subject: [PATCH 017/110] fix: missing records with a special code are counted
 once

---
 optbinning/binning/preprocessing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/optbinning/binning/preprocessing.py b/optbinning/binning/preprocessing.py
index 9654e97..65b2d69 100644
--- a/optbinning/binning/preprocessing.py
+++ b/optbinning/binning/preprocessing.py
@@ -214,6 +214,7 @@ def split_data(dtype, x, y, special_codes=None, cat_cutoff=None,
         sw_special = []
     else:
         special_mask = pd.Series(x).isin(_special_codes).values
+        special_mask &= ~missing_mask
 
         clean_mask = ~missing_mask & ~special_mask
 
-- 
2.43.0


From 749a15e5e5ec0577ad6c4ed3b43bc0b4c3174922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:34 +0000
Subject: [PATCH 018/110] fix: class weights do not modify the caller's sample
 weights

---
 optbinning/binning/preprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/preprocessing.py b/optbinning/binning/preprocessing.py
index 65b2d69..49b2f57 100644
--- a/optbinning/binning/preprocessing.py
+++ b/optbinning/binning/preprocessing.py
@@ -183,7 +183,7 @@ def split_data(dtype, x, y, special_codes=None, cat_cutoff=None,
         le = LabelEncoder()
         class_weight_ = compute_class_weight(
             class_weight=class_weight, classes=classes, y=y)
-        sample_weight *= class_weight_[le.fit_transform(y)]
+        sample_weight = sample_weight * class_weight_[le.fit_transform(y)]
 
     if np.issubdtype(x.dtype, np.number) and np.issubdtype(y.dtype, np.number):
         missing_mask = np.isnan(x) | np.isnan(y)
-- 
2.43.0


From 1a6e217508086a027dbc269797aa221b3382a3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:29 +0000
Subject: [PATCH 019/110] fix: categorical user groups removed by the
 refinement keep their records

---
 optbinning/binning/binning.py            | 11 +++++++++--
 optbinning/binning/continuous_binning.py | 12 ++++++++++--
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index 22f8827..de71791 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -909,7 +909,7 @@ class OptimalBinning(BaseOptimalBinning):
         if len(n_nonevent) <= 1:
             self._status = "OPTIMAL"
             self._splits_optimal = splits
-            self._solution = np.zeros(len(splits), dtype=bool)
+            self._solution = np.ones(len(splits), dtype=bool)
 
             if self.verbose:
                 logger.warning("Optimizer: {} bins after pre-binning."
@@ -1100,6 +1100,9 @@ class OptimalBinning(BaseOptimalBinning):
 
         mask_remove = (n_nonevent == 0) | (n_event == 0)
 
+        if n_bins == 1:
+            return splits_prebinning, n_nonevent, n_event
+
         if np.any(mask_remove):
             if (self.divergence in ("hellinger", "triangular") and
                     np.any(n_nonevent) and np.any(n_event)):
@@ -1112,7 +1115,11 @@ class OptimalBinning(BaseOptimalBinning):
 
                 if (self.dtype == "categorical" and
                         self.user_splits is not None):
-                    mask_splits = mask_remove
+                    # The last group has no upper neighbour: it is merged with
+                    # the previous one.
+                    mask_splits = np.concatenate([
+                        mask_remove[:-2],
+                        [mask_remove[-2] | mask_remove[-1]], [False]])
                 else:
                     mask_splits = np.concatenate([
                         mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index 5433b10..84b91a8 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -752,7 +752,7 @@ class ContinuousOptimalBinning(OptimalBinning):
         if len(n_records) <= 1:
             self._status = "OPTIMAL"
             self._splits_optimal = splits
-            self._solution = np.zeros(len(splits)).astype(bool)
+            self._solution = np.ones(len(splits), dtype=bool)
 
             if self.verbose:
                 logger.warning("Optimizer: {} bins after pre-binning."
@@ -934,12 +934,20 @@ class ContinuousOptimalBinning(OptimalBinning):
 
         mask_remove = (n_records == 0)
 
+        if n_bins == 1:
+            return (splits_prebinning, n_records, sums, ssums, stds, min_t,
+                    max_t, n_zeros)
+
         if np.any(mask_remove):
             self._n_refinements += 1
 
             if (self.dtype == "categorical" and
                     self.user_splits is not None):
-                mask_splits = mask_remove
+                # The last group has no upper neighbour: it is merged with
+                # the previous one.
+                mask_splits = np.concatenate([
+                    mask_remove[:-2],
+                    [mask_remove[-2] | mask_remove[-1]], [False]])
             else:
                 mask_splits = np.concatenate([
                     mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
-- 
2.43.0


From 01e9dd834c0d704863678f6040e8126624674900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:29 +0000
Subject: [PATCH 020/110] fix: remove debug print in continuous binning

---
 optbinning/binning/continuous_binning.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index 84b91a8..0bd8428 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -873,7 +873,6 @@ class ContinuousOptimalBinning(OptimalBinning):
 
         if len(y_others):
             if len(sw_others):
-                print(y_others.dtype, sw_others.dtype)
                 y_others = y_others * sw_others
 
             self._n_records_cat_others = np.sum(sw_others)
-- 
2.43.0


From 480f9ca56a9b9a0c45f6f6857c0ce9de9a5fe00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:52 +0000
Subject: [PATCH 021/110] fix: empty user_splits and continuous fits where no
 split point is left

---
 optbinning/binning/binning.py            |  7 ++++---
 optbinning/binning/continuous_binning.py | 17 ++++++++++++-----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index de71791..a6d8094 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -780,9 +780,10 @@ class OptimalBinning(BaseOptimalBinning):
                             .format(n_splits))
 
             if not n_splits:
-                splits = self.user_splits
-                n_nonevent = np.array([])
-                n_event = np.array([])
+                splits, n_nonevent, n_event = self._prebinning_refinement(
+                    np.array([]), x_clean, y_clean, y_missing, x_special,
+                    y_special, y_others, sw_clean, sw_missing, sw_special,
+                    sw_others)
             else:
                 if self.dtype == "numerical":
                     user_splits = check_array(
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index 0bd8428..b07fcf4 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -628,10 +628,11 @@ class ContinuousOptimalBinning(OptimalBinning):
                             .format(n_splits))
 
             if not n_splits:
-                splits = self.user_splits
-                n_records = np.array([])
-                sums = np.array([])
-                stds = np.array([])
+                [splits, n_records, sums, ssums, stds, min_t, max_t,
+                 n_zeros] = self._prebinning_refinement(
+                    np.array([]), x_clean, y_clean, y_missing, x_special,
+                    y_special, y_others, sw_clean, sw_missing, sw_special,
+                    sw_others)
             else:
                 if self.dtype == "numerical":
                     user_splits = check_array(
@@ -870,6 +871,10 @@ class ContinuousOptimalBinning(OptimalBinning):
             self._std_missing = np.std(y_missing)
             self._min_target_missing = np.min(y_missing)
             self._max_target_missing = np.max(y_missing)
+        else:
+            self._std_missing = None
+            self._min_target_missing = None
+            self._max_target_missing = None
 
         if len(y_others):
             if len(sw_others):
@@ -901,7 +906,9 @@ class ContinuousOptimalBinning(OptimalBinning):
     def _compute_prebins(self, splits_prebinning, x, y, sw):
         n_splits = len(splits_prebinning)
         if not n_splits:
-            return splits_prebinning, np.array([]), np.array([])
+            return (splits_prebinning, np.array([]), np.array([]),
+                    np.array([]), np.array([]), np.array([]), np.array([]),
+                    np.array([]))
 
         if self.dtype == "categorical" and self.user_splits is not None:
             indices = np.digitize(x, splits_prebinning, right=True)
-- 
2.43.0


From 70e17ca1ff364ce93b0edfaa90754ec7b4e1312d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 022/110] fix: mixed-integer solver does not report trivially
 infeasible models as optimal

---
 optbinning/binning/mip.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/mip.py b/optbinning/binning/mip.py
index 9f9cf30..81d52f3 100644
--- a/optbinning/binning/mip.py
+++ b/optbinning/binning/mip.py
@@ -181,6 +181,11 @@ class BinningMIP:
         self.solver_.SetTimeLimit(self.time_limit * 1000)
         status = self.solver_.Solve()
 
+        # BOP reports an optimal solution for trivially infeasible models.
+        if (status in (pywraplp.Solver.OPTIMAL, pywraplp.Solver.FEASIBLE) and
+                not self.solver_.VerifySolution(1e-4, False)):
+            status = pywraplp.Solver.INFEASIBLE
+
         if status in (pywraplp.Solver.OPTIMAL, pywraplp.Solver.FEASIBLE):
             if status == pywraplp.Solver.OPTIMAL:
                 status_name = "OPTIMAL"
@@ -188,7 +193,7 @@ class BinningMIP:
                 status_name = "FEASIBLE"
 
             solution = np.array([self._x[i, i].solution_value()
-                                for i in range(self._n)]).astype(bool)
+                                for i in range(self._n)]) > 0.5
         else:
             if status == pywraplp.Solver.ABNORMAL:
                 status_name = "ABNORMAL"
-- 
2.43.0


From d6036ee31c6cda2c0a016d468178050e3b8f58dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:14 +0000
Subject: [PATCH 023/110] fix: preprocessing does not cut off solutions of
 heuristic trends

---
 optbinning/binning/cp.py  | 6 +++++-
 optbinning/binning/mip.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/cp.py b/optbinning/binning/cp.py
index e674cf3..eb850cb 100644
--- a/optbinning/binning/cp.py
+++ b/optbinning/binning/cp.py
@@ -345,7 +345,11 @@ class BinningCP:
     def _allow_preprocessing(self):
         # Split points can be discarded in advance without cutting off the
         # optimal solution only if no other constraint is active. Fixed splits
-        # must not be discarded: they are reported as infeasible.
+        # must not be discarded: they are reported as infeasible. Heuristic
+        # trends allow bins across the trend change.
+        if self.monotonic_trend in ("peak_heuristic", "valley_heuristic"):
+            return False
+
         limits = (self.min_n_bins, self.max_n_bins, self.min_bin_size,
                   self.max_bin_size, self.min_bin_n_event,
                   self.max_bin_n_event, self.min_bin_n_nonevent,
diff --git a/optbinning/binning/mip.py b/optbinning/binning/mip.py
index 81d52f3..3c596bf 100644
--- a/optbinning/binning/mip.py
+++ b/optbinning/binning/mip.py
@@ -249,7 +249,11 @@ class BinningMIP:
     def _allow_preprocessing(self):
         # Split points can be discarded in advance without cutting off the
         # optimal solution only if no other constraint is active. Fixed splits
-        # must not be discarded: they are reported as infeasible.
+        # must not be discarded: they are reported as infeasible. Heuristic
+        # trends allow bins across the trend change.
+        if self.monotonic_trend in ("peak_heuristic", "valley_heuristic"):
+            return False
+
         limits = (self.min_n_bins, self.max_n_bins, self.min_bin_size,
                   self.max_bin_size, self.min_bin_n_event,
                   self.max_bin_n_event, self.min_bin_n_nonevent,
-- 
2.43.0


From 395ae85de149894d33236a4f6b8354ca0e44dd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:28 +0000
Subject: [PATCH 024/110] fix: refitting MDLP does not keep the splits of the
 previous fit

---
 optbinning/binning/mdlp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/optbinning/binning/mdlp.py b/optbinning/binning/mdlp.py
index 835ec7b..1611d9f 100644
--- a/optbinning/binning/mdlp.py
+++ b/optbinning/binning/mdlp.py
@@ -106,6 +106,7 @@ class MDLP(BaseEstimator):
         x = x[idx]
         y = y[idx]
 
+        self._splits = []
         self._recurse(x, y, 0)
 
         self._is_fitted = True
-- 
2.43.0


From 4a3068d6688d0fe9c87c2b796056ea2f12e7ad44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:28 +0000
Subject: [PATCH 025/110] fix: MDLP only keeps the splits accepted by the
 criterion

---
 optbinning/binning/mdlp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/mdlp.py b/optbinning/binning/mdlp.py
index 1611d9f..d837136 100644
--- a/optbinning/binning/mdlp.py
+++ b/optbinning/binning/mdlp.py
@@ -121,10 +121,10 @@ class MDLP(BaseEstimator):
         split = self._find_split(u_x, x, y)
 
         if split is not None:
-            self._splits.append(split)
             t = np.searchsorted(x, split, side="right")
 
             if not self._terminate(n_x, n_y, y, y[:t], y[t:]):
+                self._splits.append(split)
                 self._recurse(x[:t], y[:t], id + 1)
                 self._recurse(x[t:], y[t:], id + 2)
 
-- 
2.43.0


From e32c342dbea408b923f43a3039fe09608482f944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 026/110] fix: MDLP splits are independent of the order of tied
 records and lie inside the data range

---
 optbinning/binning/mdlp.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/mdlp.py b/optbinning/binning/mdlp.py
index d837136..7c5af9a 100644
--- a/optbinning/binning/mdlp.py
+++ b/optbinning/binning/mdlp.py
@@ -121,7 +121,7 @@ class MDLP(BaseEstimator):
         split = self._find_split(u_x, x, y)
 
         if split is not None:
-            t = np.searchsorted(x, split, side="right")
+            t = np.searchsorted(x, split, side="left")
 
             if not self._terminate(n_x, n_y, y, y[:t], y[t:]):
                 self._splits.append(split)
@@ -130,7 +130,14 @@ class MDLP(BaseEstimator):
 
     def _find_split(self, u_x, x, y):
         n_x = len(x)
-        u_x = np.unique(0.5 * (x[1:] + x[:-1])[(y[1:] - y[:-1]) != 0])
+
+        # boundary points: midpoints between distinct adjacent values, unless
+        # all records of both values belong to the same class.
+        idx = np.searchsorted(x, u_x)
+        y_min = np.minimum.reduceat(y, idx)
+        y_max = np.maximum.reduceat(y, idx)
+        boundary = ((y_min[1:] != y_max[:-1]) | (y_min[:-1] != y_max[1:]))
+        u_x = 0.5 * (u_x[1:] + u_x[:-1])[boundary]
 
         if len(u_x) > self.max_candidates:
             percentiles = np.linspace(1, 100, self.max_candidates)
@@ -141,7 +148,7 @@ class MDLP(BaseEstimator):
         max_entropy_gain = 0
         best_split = None
 
-        tt = np.searchsorted(x, splits, side="right")
+        tt = np.searchsorted(x, splits, side="left")
         for i, t in enumerate(tt):
             samples_l = t >= self.min_samples_leaf
             samples_r = n_x - t >= self.min_samples_leaf
-- 
2.43.0


From 79f6a76472a00249df5c4cd8887ce3193593a84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 027/110] fix: MDLP min_samples_split counts samples instead of
 distinct values

---
 optbinning/binning/mdlp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/mdlp.py b/optbinning/binning/mdlp.py
index 7c5af9a..4988957 100644
--- a/optbinning/binning/mdlp.py
+++ b/optbinning/binning/mdlp.py
@@ -115,7 +115,7 @@ class MDLP(BaseEstimator):
 
     def _recurse(self, x, y, id):
         u_x = np.unique(x)
-        n_x = len(u_x)
+        n_x = len(x)
         n_y = len(np.bincount(y))
 
         split = self._find_split(u_x, x, y)
-- 
2.43.0


From 7decb8b7852262828e5516833bfdc39fd83e5d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 028/110] fix: MDLP accepts a target of floating-point type

---
 optbinning/binning/mdlp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/mdlp.py b/optbinning/binning/mdlp.py
index 4988957..5d7d4d5 100644
--- a/optbinning/binning/mdlp.py
+++ b/optbinning/binning/mdlp.py
@@ -116,7 +116,7 @@ class MDLP(BaseEstimator):
     def _recurse(self, x, y, id):
         u_x = np.unique(x)
         n_x = len(x)
-        n_y = len(np.bincount(y))
+        n_y = len(np.unique(y))
 
         split = self._find_split(u_x, x, y)
 
@@ -188,9 +188,9 @@ class MDLP(BaseEstimator):
         ent_y2 = self._entropy(y2)
         gain = ent_y - (n1 * ent_y1 + n2 * ent_y2) / n
 
-        k = len(np.bincount(y))
-        k1 = len(np.bincount(y1))
-        k2 = len(np.bincount(y2))
+        k = len(np.unique(y))
+        k1 = len(np.unique(y1))
+        k2 = len(np.unique(y2))
 
         t0 = np.log(3**k - 2)
         t1 = k * ent_y
-- 
2.43.0


From 01f1cecf3ca0053ad88ec8f6860916041523c030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:43 +0000
Subject: [PATCH 029/110] fix: continuous binning with a dictionary of special
 codes and no special records

---
 optbinning/binning/binning_statistics.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index 40f02e9..3a95dbb 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -170,15 +170,9 @@ def target_info_special_continuous(special_codes, x, y, sw):
         n_records_special = []
         sum_special = []
         n_zeros_special = []
-
-        if len(y):
-            std_special = []
-            min_target_special = []
-            max_target_special = []
-        else:
-            std_special = None
-            min_target_special = None
-            max_target_special = None
+        std_special = []
+        min_target_special = []
+        max_target_special = []
 
         xt = pd.Series(x)
         for s in special_codes.values():
-- 
2.43.0


From a60727aa4191b805bb76a5372486db1cef09efc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:43 +0000
Subject: [PATCH 030/110] fix: special codes without records do not change the
 minimum and maximum of the totals

---
 optbinning/binning/binning_statistics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index 3a95dbb..4abc94e 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -191,9 +191,9 @@ def target_info_special_continuous(special_codes, x, y, sw):
                 min_target_special.append(np.min(ymask))
                 max_target_special.append(np.max(ymask))
             else:
-                std_special.append(0)
-                min_target_special.append(0)
-                max_target_special.append(0)
+                std_special.append(None)
+                min_target_special.append(None)
+                max_target_special.append(None)
     else:
         if len(sw):
             sw_y = sw * y
-- 
2.43.0


From 84a8bb913270d4d064c1f06a26b79be4607e32cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:42 +0000
Subject: [PATCH 031/110] fix: standard deviation of (nearly) constant bins is
 not NaN

---
 optbinning/binning/binning_statistics.py | 2 +-
 optbinning/binning/model_data.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index 4abc94e..46fbed0 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -280,7 +280,7 @@ def multiclass_bin_info(solution, n_classes, n_event, n_event_missing,
 
 
 def nstd(s, ss, records):
-    return np.sqrt(ss / records - (s / records) ** 2)
+    return np.sqrt(np.maximum(ss / records - (s / records) ** 2, 0))
 
 
 def continuous_bin_info(solution, n_records, sums, ssums, stds, min_target,
diff --git a/optbinning/binning/model_data.py b/optbinning/binning/model_data.py
index e58bf17..4171b94 100644
--- a/optbinning/binning/model_data.py
+++ b/optbinning/binning/model_data.py
@@ -261,7 +261,7 @@ def continuous_model_data(n_records, sums, ssums, max_pvalue,
         s_ssums = ssums[:i][::-1].cumsum()[::-1]
 
         mean = s_sums / s_n_records
-        std = np.sqrt(s_ssums / s_n_records - mean ** 2)
+        std = np.sqrt(np.maximum(s_ssums / s_n_records - mean ** 2, 0))
         norm = np.absolute(mean - t_mean)
 
         if scale is not None:
-- 
2.43.0


From 493613414517a4ce1dfbf7613143c7297ed595a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:28 +0000
Subject: [PATCH 032/110] fix: multiclass binning with a minimum or maximum bin
 size

---
 optbinning/binning/multiclass_cp.py  | 2 +-
 optbinning/binning/multiclass_mip.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/multiclass_cp.py b/optbinning/binning/multiclass_cp.py
index 956bceb..925c53a 100644
--- a/optbinning/binning/multiclass_cp.py
+++ b/optbinning/binning/multiclass_cp.py
@@ -47,7 +47,7 @@ class MulticlassBinningCP(BinningCP):
             self.min_event_rate_diff, M)
 
         n = len(n_nonevent)
-        n_records = n_nonevent + n_event
+        n_records = n_nonevent[:, 0] + n_event[:, 0]
         n_classes = len(self.monotonic_trend)
 
         # Initialize model
diff --git a/optbinning/binning/multiclass_mip.py b/optbinning/binning/multiclass_mip.py
index b79e7b3..1f6b531 100644
--- a/optbinning/binning/multiclass_mip.py
+++ b/optbinning/binning/multiclass_mip.py
@@ -45,7 +45,7 @@ class MulticlassBinningMIP(BinningMIP):
             self.min_event_rate_diff)
 
         n = len(n_nonevent)
-        n_records = n_nonevent + n_event
+        n_records = n_nonevent[:, 0] + n_event[:, 0]
         n_classes = len(self.monotonic_trend)
 
         # Initialize solver
-- 
2.43.0


From 3f14209824eb4f61a7776cbac3a19e1234005fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:28 +0000
Subject: [PATCH 033/110] fix: multiclass binning ignores the concave and
 convex trends

---
 optbinning/binning/multiclass_cp.py  | 6 ++++++
 optbinning/binning/multiclass_mip.py | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/optbinning/binning/multiclass_cp.py b/optbinning/binning/multiclass_cp.py
index 925c53a..d2ed209 100644
--- a/optbinning/binning/multiclass_cp.py
+++ b/optbinning/binning/multiclass_cp.py
@@ -84,6 +84,12 @@ class MulticlassBinningCP(BinningCP):
             if self.monotonic_trend[c] == "descending":
                 self.add_constraint_monotonic_descending(model, n, D[c], x, M)
 
+            elif self.monotonic_trend[c] == "concave":
+                self.add_constraint_monotonic_concave(model, n, D[c], x, M)
+
+            elif self.monotonic_trend[c] == "convex":
+                self.add_constraint_monotonic_convex(model, n, D[c], x, M)
+
             elif self.monotonic_trend[c] in ("peak", "valley"):
                 for i in range(n):
                     model.Add(t[c] >= i - n * (1 - y[c, i]))
diff --git a/optbinning/binning/multiclass_mip.py b/optbinning/binning/multiclass_mip.py
index 1f6b531..682f685 100644
--- a/optbinning/binning/multiclass_mip.py
+++ b/optbinning/binning/multiclass_mip.py
@@ -87,6 +87,12 @@ class MulticlassBinningMIP(BinningMIP):
             elif self.monotonic_trend[c] == "descending":
                 self.add_constraint_monotonic_descending(solver, n, D[c], x)
 
+            elif self.monotonic_trend[c] == "concave":
+                self.add_constraint_monotonic_concave(solver, n, D[c], x)
+
+            elif self.monotonic_trend[c] == "convex":
+                self.add_constraint_monotonic_convex(solver, n, D[c], x)
+
             elif self.monotonic_trend[c] in ("peak", "valley"):
                 for i in range(n):
                     solver.Add(t[c] >= i - n * (1 - y[c, i]))
-- 
2.43.0


From ac2c6cb92a926081f70cab8abd62747305c87df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:28 +0000
Subject: [PATCH 034/110] fix: multiclass binning fails on the peak and valley
 heuristics set by class

---
 optbinning/binning/multiclass_binning.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/optbinning/binning/multiclass_binning.py b/optbinning/binning/multiclass_binning.py
index f006f3f..ff4b5c4 100644
--- a/optbinning/binning/multiclass_binning.py
+++ b/optbinning/binning/multiclass_binning.py
@@ -737,6 +737,12 @@ class MulticlassOptimalBinning(OptimalBinning):
                         logger.info("Optimizer: classifier predicts {} "
                                     "monotonic trend.".format(trend))
                 else:
+                    if m_trend in ("peak_heuristic", "valley_heuristic"):
+                        event_rate = n_event[:, i] / (n_nonevent[:, i] +
+                                                      n_event[:, i])
+                        trend_changes[i] = peak_valley_trend_change_heuristic(
+                            event_rate, m_trend)
+
                     monotonic.append(m_trend)
         elif self.monotonic_trend is None:
             monotonic = [None] * self._n_classes
-- 
2.43.0


From 8252c12147a36f02dc53dd840c3889b9c9d4dc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:12 +0000
Subject: [PATCH 035/110] fix: multiclass binning fails with an empty list of
 user splits

---
 optbinning/binning/multiclass_binning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/multiclass_binning.py b/optbinning/binning/multiclass_binning.py
index ff4b5c4..eb322dd 100644
--- a/optbinning/binning/multiclass_binning.py
+++ b/optbinning/binning/multiclass_binning.py
@@ -563,7 +563,8 @@ class MulticlassOptimalBinning(OptimalBinning):
                             .format(n_splits))
 
             user_splits = check_array(self.user_splits, ensure_2d=False,
-                                      dtype=None, force_all_finite=True)
+                                      dtype=None, force_all_finite=True,
+                                      ensure_min_samples=0)
 
             if len(set(user_splits)) != len(user_splits):
                 raise ValueError("User splits are not unique.")
-- 
2.43.0


From 121e5dafe11b54b7d601fd8e50b94a97c3015333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:03 +0000
Subject: [PATCH 036/110] fix: mip solver reports infeasible when bins have
 equal event rates

---
 optbinning/binning/mip.py            | 29 ++++++++++++++++------------
 optbinning/binning/multiclass_mip.py |  9 +++++----
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/optbinning/binning/mip.py b/optbinning/binning/mip.py
index 3c596bf..c50aeb6 100644
--- a/optbinning/binning/mip.py
+++ b/optbinning/binning/mip.py
@@ -13,6 +13,11 @@ from ortools.linear_solver import pywraplp
 from .model_data import model_data
 
 
+# Tolerance of the event rate comparisons. Equal event rates do not compare as
+# equal after the solver rounds the coefficients of the model.
+TOLERANCE = 1e-9
+
+
 class BinningMIP:
     def __init__(self, monotonic_trend, min_n_bins, max_n_bins, min_bin_size,
                  max_bin_size, min_bin_n_event, max_bin_n_event,
@@ -307,7 +312,7 @@ class BinningMIP:
                                 for j in range(z)]) +
                     D[z][z] * x[z, z] - 1 - (D[i][i] - 1) * x[i, i] -
                     solver.Sum([(D[i][j] - D[i][j + 1]) * x[i, j]
-                                for j in range(i)]) <= 0)
+                                for j in range(i)]) <= TOLERANCE)
 
         # Preprocessing
         if self._allow_preprocessing():
@@ -326,7 +331,7 @@ class BinningMIP:
                                 for j in range(i)]) + D[i][i] * x[i, i] -
                     1 - (D[z][z] - 1) * x[z, z] -
                     solver.Sum([(D[z][j] - D[z][j+1]) * x[z, j]
-                                for j in range(z)]) <= 0)
+                                for j in range(z)]) <= TOLERANCE)
 
         # Preprocessing
         if self._allow_preprocessing():
@@ -350,7 +355,7 @@ class BinningMIP:
                         (solver.Sum([(D[k][z] - D[k][z+1]) * x[k, z]
                                      for z in range(k)]) +
                          D[k][k] * x[k, k]) >= 2 * (
-                         x[i, i] + x[j, j] + x[k, k] - 3))
+                         x[i, i] + x[j, j] + x[k, k] - 3) - TOLERANCE)
 
     def add_constraint_monotonic_convex(self, solver, n, D, x):
         for i in range(2, n):
@@ -365,7 +370,7 @@ class BinningMIP:
                         (solver.Sum([(D[k][z] - D[k][z+1]) * x[k, z]
                                      for z in range(k)]) +
                          D[k][k] * x[k, k]) >= 2 * (
-                         x[i, i] + x[j, j] + x[k, k] - 3))
+                         x[i, i] + x[j, j] + x[k, k] - 3) - TOLERANCE)
 
     def add_constraint_monotonic_peak(self, solver, n, D, x, y):
         for i in range(1, n):
@@ -376,7 +381,7 @@ class BinningMIP:
                                 for j in range(z)]) -
                     solver.Sum([(D[i][j] - D[i][j + 1]) * x[i, j]
                                 for j in range(i)]) -
-                    D[i][i] * x[i, i] >= 0)
+                    D[i][i] * x[i, i] >= -TOLERANCE)
 
                 solver.Add(
                     2 - y[i] - y[z] + 1 + (D[i][i] - 1) * x[i, i] +
@@ -384,7 +389,7 @@ class BinningMIP:
                                 for j in range(i)]) -
                     solver.Sum([(D[z][j] - D[z][j+1]) * x[z, j]
                                 for j in range(z)]) -
-                    D[z][z] * x[z, z] >= 0)
+                    D[z][z] * x[z, z] >= -TOLERANCE)
 
     def add_constraint_monotonic_valley(self, solver, n, D, x, y):
         for i in range(1, n):
@@ -395,7 +400,7 @@ class BinningMIP:
                                 for j in range(i)]) -
                     solver.Sum([(D[z][j] - D[z][j+1]) * x[z, j]
                                 for j in range(z)]) -
-                    D[z][z] * x[z, z] >= 0)
+                    D[z][z] * x[z, z] >= -TOLERANCE)
 
                 solver.Add(
                     2 - y[i] - y[z] + 1 + (D[z][z] - 1) * x[z, z] +
@@ -403,7 +408,7 @@ class BinningMIP:
                                 for j in range(z)]) -
                     solver.Sum([(D[i][j] - D[i][j + 1]) * x[i, j]
                                 for j in range(i)]) -
-                    D[i][i] * x[i, i] >= 0)
+                    D[i][i] * x[i, i] >= -TOLERANCE)
 
     def add_constraint_monotonic_peak_heuristic(self, solver, n, D, x, tc):
         for i in range(1, tc):
@@ -413,7 +418,7 @@ class BinningMIP:
                                 for j in range(z)]) +
                     D[z][z] * x[z, z] - 1 - (D[i][i] - 1) * x[i, i] -
                     solver.Sum([(D[i][j] - D[i][j + 1]) * x[i, j]
-                                for j in range(i)]) <= 0)
+                                for j in range(i)]) <= TOLERANCE)
 
         # Preprocessing
         if self._allow_preprocessing():
@@ -431,7 +436,7 @@ class BinningMIP:
                                 for j in range(i)]) + D[i][i] * x[i, i] -
                     1 - (D[z][z] - 1) * x[z, z] -
                     solver.Sum([(D[z][j] - D[z][j+1]) * x[z, j]
-                                for j in range(z)]) <= 0)
+                                for j in range(z)]) <= TOLERANCE)
 
         # Preprocessing
         if self._allow_preprocessing():
@@ -450,7 +455,7 @@ class BinningMIP:
                                 for j in range(i)]) + D[i][i] * x[i, i] -
                     1 - (D[z][z] - 1) * x[z, z] -
                     solver.Sum([(D[z][j] - D[z][j+1]) * x[z, j]
-                                for j in range(z)]) <= 0)
+                                for j in range(z)]) <= TOLERANCE)
 
         # Preprocessing
         if self._allow_preprocessing():
@@ -468,7 +473,7 @@ class BinningMIP:
                                 for j in range(z)]) +
                     D[z][z] * x[z, z] - 1 - (D[i][i] - 1) * x[i, i] -
                     solver.Sum([(D[i][j] - D[i][j + 1]) * x[i, j]
-                                for j in range(i)]) <= 0)
+                                for j in range(i)]) <= TOLERANCE)
 
         # Preprocessing
         if self._allow_preprocessing():
diff --git a/optbinning/binning/multiclass_mip.py b/optbinning/binning/multiclass_mip.py
index 682f685..0ca7669 100644
--- a/optbinning/binning/multiclass_mip.py
+++ b/optbinning/binning/multiclass_mip.py
@@ -9,6 +9,7 @@ problem. Mixed-Integer programming implementation.
 from ortools.linear_solver import pywraplp
 
 from .mip import BinningMIP
+from .mip import TOLERANCE
 from .model_data import multiclass_model_data
 
 
@@ -183,7 +184,7 @@ class MulticlassBinningMIP(BinningMIP):
                                 for j in range(z)]) -
                     solver.Sum([(D[i][j] - D[i][j + 1]) * x[i, j]
                                 for j in range(i)]) -
-                    D[i][i] * x[i, i] >= 0)
+                    D[i][i] * x[i, i] >= -TOLERANCE)
 
                 solver.Add(
                     n * (2 - y[c, i] - y[c, z]) + 1 + (D[i][i] - 1) * x[i, i] +
@@ -191,7 +192,7 @@ class MulticlassBinningMIP(BinningMIP):
                                 for j in range(i)]) -
                     solver.Sum([(D[z][j] - D[z][j+1]) * x[z, j]
                                 for j in range(z)]) -
-                    D[z][z] * x[z, z] >= 0)
+                    D[z][z] * x[z, z] >= -TOLERANCE)
 
     def add_constraint_monotonic_valley(self, solver, n, D, x, c, y):
         for i in range(1, n):
@@ -202,7 +203,7 @@ class MulticlassBinningMIP(BinningMIP):
                                 for j in range(i)]) -
                     solver.Sum([(D[z][j] - D[z][j+1]) * x[z, j]
                                 for j in range(z)]) -
-                    D[z][z] * x[z, z] >= 0)
+                    D[z][z] * x[z, z] >= -TOLERANCE)
 
                 solver.Add(
                     n * (2 - y[c, i] - y[c, z]) + 1 + (D[z][z] - 1) * x[z, z] +
@@ -210,4 +211,4 @@ class MulticlassBinningMIP(BinningMIP):
                                 for j in range(z)]) -
                     solver.Sum([(D[i][j] - D[i][j + 1]) * x[i, j]
                                 for j in range(i)]) -
-                    D[i][i] * x[i, i] >= 0)
+                    D[i][i] * x[i, i] >= -TOLERANCE)
-- 
2.43.0


From bc14df68571666593adf220b10da3f1e9c31cecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:43 +0000
Subject: [PATCH 037/110] fix: merging quantile summaries keeps the number of
 values and the rank error

---
 optbinning/binning/distributed/gk.py | 42 ++++++++++++++++------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/optbinning/binning/distributed/gk.py b/optbinning/binning/distributed/gk.py
index 42fe854..6210ca9 100644
--- a/optbinning/binning/distributed/gk.py
+++ b/optbinning/binning/distributed/gk.py
@@ -94,35 +94,41 @@ class GK:
             self.copy(gk)
             return
 
-        entries = []
-        spread = int(gk.eps * (gk.n - 1))
+        self.merge_compress()
         gk.merge_compress()
 
-        # upper bound elements(gk.v0, gk.v1) - spread
-        g = gk.entries[0].g + gk.entries[0].delta - 1 - spread
+        # Combine summaries. The rank of an entry is uncertain as well by the
+        # rank of the next entry of the other summary.
+        entries = []
+        i = 0
+        j = 0
+        n_entries = len(self.entries)
+        n_gk = len(gk.entries)
 
-        if g > 0:
-            entries.append(Entry(gk._min, g, 0))
+        while i < n_entries or j < n_gk:
+            if j == n_gk or (i < n_entries and
+                             self.entries[i].value <= gk.entries[j].value):
+                t = self.entries[i]
+                tn = gk.entries[j] if j < n_gk else None
+                i += 1
+            else:
+                t = gk.entries[j]
+                tn = self.entries[i] if i < n_entries else None
+                j += 1
 
-        n_gk = len(gk)
-        for i in range(n_gk - 1):
-            tp1 = gk.entries[i + 1]
-            t = gk.entries[i]
-            g = tp1.g + (tp1.delta - t.delta)
-            if g > 0:
-                entries.append(Entry(t.value, g, 0))
+            delta = t.delta
+            if tn is not None:
+                delta += tn.g + tn.delta - 1
 
-        last_t = gk.entries[n_gk - 1]
-        g = spread + 1 - last_t.delta
-        if g > 0:
-            entries.append(Entry(last_t.value, g, 0))
+            entries.append(Entry(t.value, t.g, delta))
 
+        self.entries = entries
         self._count += gk._count
         self._min = min(self._min, gk._min)
         self._max = max(self._max, gk._max)
         self._sum += gk._sum
 
-        self.merge_compress(entries)
+        self.merge_compress()
 
     def merge_compress(self, entries=[]):
         """Compress sketch."""
-- 
2.43.0


From 2b18cf4d25adc3bcb9399c9502f3e9f4fb46717e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:26 +0000
Subject: [PATCH 038/110] fix: merge of sketches without clean records drops
 records and shares state

---
 optbinning/binning/distributed/bsketch.py | 17 -----------------
 1 file changed, 17 deletions(-)

diff --git a/optbinning/binning/distributed/bsketch.py b/optbinning/binning/distributed/bsketch.py
index d75a10f..b20f391 100644
--- a/optbinning/binning/distributed/bsketch.py
+++ b/optbinning/binning/distributed/bsketch.py
@@ -184,13 +184,6 @@ class BSketch:
         if not self._mergeable(bsketch):
             raise Exception("bsketch does not share signature.")
 
-        if bsketch._sketch_e.n == 0 and bsketch._sketch_ne.n == 0:
-            return
-
-        if self._sketch_e.n == 0 and self._sketch_ne.n == 0:
-            self._copy(bsketch)
-            return
-
         # Merge sketches
         if self.sketch == "gk":
             self._sketch_e.merge(bsketch._sketch_e)
@@ -217,16 +210,6 @@ class BSketch:
 
         return new_sketch
 
-    def _copy(self, bsketch):
-        self._sketch_e = bsketch._sketch_e
-        self._sketch_ne = bsketch._sketch_ne
-
-        # Merge missing and special counts
-        self._count_missing_e = bsketch._count_missing_e
-        self._count_missing_ne = bsketch._count_missing_ne
-        self._count_special_e = bsketch._count_special_e
-        self._count_special_ne = bsketch._count_special_ne
-
     def _mergeable(self, other):
         special_eq = True
         if self.special_codes is not None and other.special_codes is not None:
-- 
2.43.0


From a77edb99925ce7ad99b003b1e5a7b9c3d3935fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:26 +0000
Subject: [PATCH 039/110] fix: merged categorical sketches do not share their
 counts

---
 optbinning/binning/distributed/bsketch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/distributed/bsketch.py b/optbinning/binning/distributed/bsketch.py
index b20f391..fd82053 100644
--- a/optbinning/binning/distributed/bsketch.py
+++ b/optbinning/binning/distributed/bsketch.py
@@ -384,7 +384,7 @@ class BCatSketch:
                 self._d_categories[k][0] += v[0]
                 self._d_categories[k][1] += v[1]
             else:
-                self._d_categories[k] = v
+                self._d_categories[k] = list(v)
 
         # Merge missing and special counts
         self._count_missing_e += bcatsketch._count_missing_e
-- 
2.43.0


From 95b1198d6a854940b3e4f9de020cf85e1d3dda5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:26 +0000
Subject: [PATCH 040/110] fix: binning sketches merge when one of them received
 no data

---
 .../binning/distributed/binning_sketch.py     | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index 06243d5..006ea15 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -472,12 +472,7 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
         check_input : bool (default=False)
             Whether to check input arrays.
         """
-        if self._bsketch is None:
-            if self.dtype == "numerical":
-                self._bsketch = BSketch(self.sketch, self.eps, self.K,
-                                        self.special_codes)
-            else:
-                self._bsketch = BCatSketch(self.cat_cutoff, self.special_codes)
+        self._init_bsketch()
 
         # Add new data stream
         time_add = time.perf_counter()
@@ -541,7 +536,10 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
         if not self.mergeable(optbsketch):
             raise Exception("optbsketch does not share signature.")
 
-        self._bsketch.merge(optbsketch._bsketch)
+        if optbsketch._bsketch is not None:
+            self._init_bsketch()
+            self._bsketch.merge(optbsketch._bsketch)
+            self._n_add += optbsketch._n_add
 
         if self.verbose:
             logger.info("Sketch: current sketch was merged.")
@@ -699,6 +697,14 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
                                        metric, metric_special, metric_missing,
                                        None, show_digits, check_input)
 
+    def _init_bsketch(self):
+        if self._bsketch is None:
+            if self.dtype == "numerical":
+                self._bsketch = BSketch(self.sketch, self.eps, self.K,
+                                        self.special_codes)
+            else:
+                self._bsketch = BCatSketch(self.cat_cutoff, self.special_codes)
+
     def _prebinning_data(self):
         self._n_nonevent_missing = self._bsketch._count_missing_ne
         self._n_nonevent_special = self._bsketch._count_special_ne
-- 
2.43.0


From 215b89591a8c03b03739526fba37e790e606dcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:26 +0000
Subject: [PATCH 041/110] fix: sketch counts a value equal to a split in the
 bin where transform puts it

---
 optbinning/binning/distributed/bsketch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/distributed/bsketch.py b/optbinning/binning/distributed/bsketch.py
index fd82053..8706eed 100644
--- a/optbinning/binning/distributed/bsketch.py
+++ b/optbinning/binning/distributed/bsketch.py
@@ -58,7 +58,8 @@ def _indices_count(sketch_type, sketch, splits):
             values[i] = centroid.mean
             count[i] = centroid.count
 
-    indices = np.searchsorted(splits, values, side='left')
+    # bins are [lower, upper)
+    indices = np.searchsorted(splits, values, side='right')
     return indices, count
 
 
-- 
2.43.0


From 7609a25bf6682e0adf7b7bdb49a6025aa1ff0797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:20 +0000
Subject: [PATCH 042/110] fix: binning sketches with an array of special codes
 can be merged

---
 optbinning/binning/distributed/binning_sketch.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index 006ea15..4f9dfa7 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -556,7 +556,12 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
         -------
         mergeable : bool
         """
-        return self.get_params() == optbsketch.get_params()
+        params = self.get_params()
+        params_other = optbsketch.get_params()
+
+        return (np.array_equal(params.pop("special_codes"),
+                               params_other.pop("special_codes")) and
+                params == params_other)
 
     def plot_progress(self):
         """Plot divergence measure progress."""
-- 
2.43.0


From 5970d4d07719cd47a7866d2f3e744f12d93c12c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:20 +0000
Subject: [PATCH 043/110] fix: binning sketch without splits does not count
 missing and special records twice

---
 optbinning/binning/distributed/binning_sketch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index 4f9dfa7..0c62048 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -614,9 +614,9 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
 
         time_postprocessing = time.perf_counter()
 
-        if not len(splits):
-            n_nonevent = np.array([self._t_n_nonevent])
-            n_event = np.array([self._t_n_event])
+        if not len(n_nonevent):
+            n_nonevent = np.array([0])
+            n_event = np.array([0])
 
         self._n_nonevent, self._n_event = bin_info(
             self._solution, n_nonevent, n_event, self._n_nonevent_missing,
-- 
2.43.0


From 5c95f5f8c6d313b5920ce3921fe9464d15451137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:20 +0000
Subject: [PATCH 044/110] fix: binning sketch information when the solver is
 not run

---
 optbinning/binning/distributed/binning_sketch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index 0c62048..900c774 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -417,6 +417,7 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
         self.verbose = verbose
 
         # auxiliary
+        self._optimizer = None
         self._flag_min_n_event_nonevent = False
         self._categories = None
         self._cat_others = []
@@ -826,6 +827,8 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
             self._status = "OPTIMAL"
             self._splits_optimal = splits
             self._solution = np.zeros(len(splits)).astype(bool)
+            self._optimizer = None
+            self._time_optimizer = None
 
             if self.verbose:
                 logger.warning("Optimizer: {} bins after pre-binning."
-- 
2.43.0


From 52ce04b1c43e2d87601fd6d331b2772e2e4baa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:20 +0000
Subject: [PATCH 045/110] fix: binning sketch prebinning of pure streams and
 duplicated quantiles

---
 optbinning/binning/distributed/binning_sketch.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index 900c774..e050765 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -734,7 +734,8 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
                 splits = np.array([sketch_all.percentile(p)
                                    for p in percentiles[1:-1]])
 
-            splits, n_nonevent, n_event = self._compute_prebins(splits)
+            splits, n_nonevent, n_event = self._compute_prebins(
+                np.unique(splits))
         else:
             [splits, categories, n_nonevent, n_event, cat_others,
              n_nonevent_others, n_event_others] = self._bsketch.bins()
@@ -759,9 +760,13 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
         mask_remove = (n_nonevent == 0) | (n_event == 0)
 
         if np.any(mask_remove):
-            if self.divergence in ("hellinger", "triangular"):
+            if (self.divergence in ("hellinger", "triangular") and
+                    np.any(n_nonevent) and np.any(n_event)):
                 self._flag_min_n_event_nonevent = True
-            else:
+                # Only prebins without records must be removed.
+                mask_remove = (n_nonevent == 0) & (n_event == 0)
+
+            if np.any(mask_remove) and len(splits):
                 self._n_refinements += 1
 
                 mask_splits = np.concatenate(
-- 
2.43.0


From 9f74bcefd8825928e7b766d52518ca3649e2ac38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:20 +0000
Subject: [PATCH 046/110] fix: binning sketch refinement of categories counts
 each record once

---
 .../binning/distributed/binning_sketch.py     | 27 +++++++++----------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index e050765..bf1512c 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -781,41 +781,38 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
         self._n_refinements = 0
         mask_remove = (n_nonevent == 0) | (n_event == 0)
 
+        if (self.divergence in ("hellinger", "triangular") and
+                np.any(mask_remove)):
+            self._flag_min_n_event_nonevent = True
+
+            if self.cat_heuristic:
+                mask_remove[:] = False
+
         if self.cat_heuristic and len(categories) > self.max_n_prebins:
             n_records = n_nonevent + n_event
             mask_size = n_records < self._bsketch.n / self.max_n_prebins
             mask_remove |= mask_size
 
-        if np.any(mask_remove):
-            if self.divergence in ("hellinger", "triangular"):
-                self._flag_min_n_event_nonevent = True
-
-                if self.cat_heuristic:
-                    mask_remove = mask_size
-            else:
-                self._n_refinements += 1
+        if np.any(mask_remove) and len(splits):
+            self._n_refinements += 1
 
             mask_splits = np.concatenate(
                 [mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
 
             splits = splits[~mask_splits]
 
-            splits_int = np.ceil(splits).astype(int)
-            indices = np.digitize(np.arange(len(categories)), splits_int,
-                                  right=False)
+            indices = np.concatenate([[0], np.cumsum(~mask_splits)])
             n_bins = len(splits) + 1
 
             new_nonevent = np.empty(n_bins, dtype=np.int64)
             new_event = np.empty(n_bins, dtype=np.int64)
-            new_categories = []
+            new_categories = np.empty(n_bins, dtype=object)
             for i in range(n_bins):
                 mask = (indices == i)
-                new_categories.append(categories[mask])
+                new_categories[i] = categories[mask]
                 new_nonevent[i] = n_nonevent[mask].sum()
                 new_event[i] = n_event[mask].sum()
 
-            new_categories = np.array(new_categories, dtype=object)
-
             [splits, categories, n_nonevent,
              n_event] = self._compute_cat_prebins(
                 splits, new_categories, new_nonevent, new_event)
-- 
2.43.0


From 680cbc567997ccae03dd20ec842776f80bb59d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:20 +0000
Subject: [PATCH 047/110] fix: order of categories with equal event rate does
 not depend on the stream

---
 optbinning/binning/distributed/bsketch.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/distributed/bsketch.py b/optbinning/binning/distributed/bsketch.py
index 8706eed..76585e9 100644
--- a/optbinning/binning/distributed/bsketch.py
+++ b/optbinning/binning/distributed/bsketch.py
@@ -343,6 +343,10 @@ class BCatSketch:
         dd = {k: v + [v[0] + v[1], v[1] / (v[0] + v[1])]
               for k, v in self._d_categories.items()}
 
+        # categories with the same event rate do not depend on arrival order
+        def sort_key(item):
+            return item[1][3], str(item[0])
+
         if self.cat_cutoff is not None:
             bin_e_others = 0
             bin_ne_others = 0
@@ -354,12 +358,12 @@ class BCatSketch:
 
             cat_others = np.array(cat_others, dtype=object)
 
-            dd = {k: v for k, v in sorted(dd.items(), key=lambda v: v[1][3])
+            dd = {k: v for k, v in sorted(dd.items(), key=sort_key)
                   if k not in cat_others}
         else:
             bin_e_others = []
             bin_ne_others = []
-            dd = {k: v for k, v in sorted(dd.items(), key=lambda v: v[1][3])}
+            dd = {k: v for k, v in sorted(dd.items(), key=sort_key)}
 
         categories = np.array(list(dd.keys()), dtype=object)
         bin_ne = np.array([v[0] for v in dd.values()], dtype=np.int64)
-- 
2.43.0


From 40df2f643ad94926fb8abd6cafd1b18f79195607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:37 +0000
Subject: [PATCH 048/110] fix: pass max_bin_size to the optimal binning of each
 variable

---
 optbinning/binning/binning_process.py | 51 +++++++++++++++------------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 4c53022..424129f 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -74,8 +74,8 @@ def _read_column(input_path, extension, column, **kwargs):
 
 def _fit_variable(x, y, name, target_dtype, categorical_variables,
                   binning_fit_params, max_n_prebins, min_prebin_size,
-                  min_n_bins, max_n_bins, min_bin_size, max_pvalue,
-                  max_pvalue_policy, special_codes, split_digits,
+                  min_n_bins, max_n_bins, min_bin_size, max_bin_size,
+                  max_pvalue, max_pvalue_policy, special_codes, split_digits,
                   sample_weight=None):
     params = {}
     dtype = _check_variable_dtype(x)
@@ -92,8 +92,8 @@ def _fit_variable(x, y, name, target_dtype, categorical_variables,
             name=name, dtype=dtype, max_n_prebins=max_n_prebins,
             min_prebin_size=min_prebin_size,
             min_n_bins=min_n_bins, max_n_bins=max_n_bins,
-            min_bin_size=min_bin_size, max_pvalue=max_pvalue,
-            max_pvalue_policy=max_pvalue_policy,
+            min_bin_size=min_bin_size, max_bin_size=max_bin_size,
+            max_pvalue=max_pvalue, max_pvalue_policy=max_pvalue_policy,
             special_codes=special_codes,
             split_digits=split_digits)
     elif target_dtype == "continuous":
@@ -101,8 +101,8 @@ def _fit_variable(x, y, name, target_dtype, categorical_variables,
             name=name, dtype=dtype, max_n_prebins=max_n_prebins,
             min_prebin_size=min_prebin_size,
             min_n_bins=min_n_bins, max_n_bins=max_n_bins,
-            min_bin_size=min_bin_size, max_pvalue=max_pvalue,
-            max_pvalue_policy=max_pvalue_policy,
+            min_bin_size=min_bin_size, max_bin_size=max_bin_size,
+            max_pvalue=max_pvalue, max_pvalue_policy=max_pvalue_policy,
             special_codes=special_codes,
             split_digits=split_digits)
     else:
@@ -113,8 +113,8 @@ def _fit_variable(x, y, name, target_dtype, categorical_variables,
             name=name, max_n_prebins=max_n_prebins,
             min_prebin_size=min_prebin_size,
             min_n_bins=min_n_bins, max_n_bins=max_n_bins,
-            min_bin_size=min_bin_size, max_pvalue=max_pvalue,
-            max_pvalue_policy=max_pvalue_policy,
+            min_bin_size=min_bin_size, max_bin_size=max_bin_size,
+            max_pvalue=max_pvalue, max_pvalue_policy=max_pvalue_policy,
             special_codes=special_codes,
             split_digits=split_digits)
 
@@ -130,8 +130,8 @@ def _fit_variable(x, y, name, target_dtype, categorical_variables,
 
 def _fit_block(X, y, names, target_dtype, categorical_variables,
                binning_fit_params, max_n_prebins, min_prebin_size,
-               min_n_bins, max_n_bins, min_bin_size, max_pvalue,
-               max_pvalue_policy, special_codes, split_digits,
+               min_n_bins, max_n_bins, min_bin_size, max_bin_size,
+               max_pvalue, max_pvalue_policy, special_codes, split_digits,
                sample_weight=None):
 
     variable_dtypes = {}
@@ -142,14 +142,14 @@ def _fit_block(X, y, names, target_dtype, categorical_variables,
             dtype, optb = _fit_variable(
                 X[:, i], y, name, target_dtype, categorical_variables,
                 binning_fit_params, max_n_prebins, min_prebin_size, min_n_bins,
-                max_n_bins, min_bin_size, max_pvalue, max_pvalue_policy,
-                special_codes, split_digits, sample_weight)
+                max_n_bins, min_bin_size, max_bin_size, max_pvalue,
+                max_pvalue_policy, special_codes, split_digits, sample_weight)
         else:
             dtype, optb = _fit_variable(
                 X[name], y, name, target_dtype, categorical_variables,
                 binning_fit_params, max_n_prebins, min_prebin_size, min_n_bins,
-                max_n_bins, min_bin_size, max_pvalue, max_pvalue_policy,
-                special_codes, split_digits, sample_weight)
+                max_n_bins, min_bin_size, max_bin_size, max_pvalue,
+                max_pvalue_policy, special_codes, split_digits, sample_weight)
 
         variable_dtypes[name] = dtype
         binned_variables[name] = optb
@@ -1121,16 +1121,18 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                         self.categorical_variables, self.binning_fit_params,
                         self.max_n_prebins, self.min_prebin_size,
                         self.min_n_bins, self.max_n_bins, self.min_bin_size,
-                        self.max_pvalue, self.max_pvalue_policy,
-                        self.special_codes, self.split_digits, sample_weight)
+                        self.max_bin_size, self.max_pvalue,
+                        self.max_pvalue_policy, self.special_codes,
+                        self.split_digits, sample_weight)
                 else:
                     dtype, optb = _fit_variable(
                         X[name], y, name, self._target_dtype,
                         self.categorical_variables, self.binning_fit_params,
                         self.max_n_prebins, self.min_prebin_size,
                         self.min_n_bins, self.max_n_bins, self.min_bin_size,
-                        self.max_pvalue, self.max_pvalue_policy,
-                        self.special_codes, self.split_digits, sample_weight)
+                        self.max_bin_size, self.max_pvalue,
+                        self.max_pvalue_policy, self.special_codes,
+                        self.split_digits, sample_weight)
 
                 self._variable_dtypes[name] = dtype
                 self._binned_variables[name] = optb
@@ -1147,8 +1149,9 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                         self.binning_fit_params, self.max_n_prebins,
                         self.min_prebin_size, self.min_n_bins,
                         self.max_n_bins, self.min_bin_size,
-                        self.max_pvalue, self.max_pvalue_policy,
-                        self.special_codes, self.split_digits, sample_weight)
+                        self.max_bin_size, self.max_pvalue,
+                        self.max_pvalue_policy, self.special_codes,
+                        self.split_digits, sample_weight)
                     for id_block in id_blocks)
 
             else:
@@ -1159,8 +1162,9 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                         self.binning_fit_params, self.max_n_prebins,
                         self.min_prebin_size, self.min_n_bins,
                         self.max_n_bins, self.min_bin_size,
-                        self.max_pvalue, self.max_pvalue_policy,
-                        self.special_codes, self.split_digits, sample_weight)
+                        self.max_bin_size, self.max_pvalue,
+                        self.max_pvalue_policy, self.special_codes,
+                        self.split_digits, sample_weight)
                     for id_block in id_blocks)
 
             for b in blocks:
@@ -1241,7 +1245,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                 x, y, name, self._target_dtype, self.categorical_variables,
                 self.binning_fit_params, self.max_n_prebins,
                 self.min_prebin_size, self.min_n_bins, self.max_n_bins,
-                self.min_bin_size, self.max_pvalue, self.max_pvalue_policy,
+                self.min_bin_size, self.max_bin_size, self.max_pvalue,
+                self.max_pvalue_policy,
                 self.special_codes, self.split_digits)
 
             self._variable_dtypes[name] = dtype
-- 
2.43.0


From e06a2565e55c0b9e4bc066c0c4145102a634d567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:34 +0000
Subject: [PATCH 049/110] fix: keep the transform parameters of each variable
 separate in a binning process

---
 optbinning/binning/binning_process.py | 28 +++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 424129f..933f84b 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -1431,15 +1431,15 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
             if self.binning_transform_params is not None:
                 params = self.binning_transform_params.get(name, {})
 
-            metric = params.get("metric", metric)
-            metric_missing = params.get("metric_missing", metric_missing)
-            metric_special = params.get("metric_special", metric_special)
+            var_metric = params.get("metric", metric)
 
             tparams = {
                 "x": x,
-                "metric": metric,
-                "metric_special": metric_special,
-                "metric_missing": metric_missing,
+                "metric": var_metric,
+                "metric_special": params.get("metric_special",
+                                             metric_special),
+                "metric_missing": params.get("metric_missing",
+                                             metric_missing),
                 "check_input": check_input,
                 "show_digits": show_digits
                 }
@@ -1447,7 +1447,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
             if isinstance(optb, _OPTBPW_TYPES):
                 tparams.pop("show_digits")
 
-            if metric is None:
+            if var_metric is None:
                 tparams.pop("metric")
 
             X_transform[:, i] = optb.transform(**tparams)
@@ -1529,22 +1529,22 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                 if self.binning_transform_params is not None:
                     params = self.binning_transform_params.get(name, {})
 
-                metric = params.get("metric", metric)
-                metric_missing = params.get("metric_missing", metric_missing)
-                metric_special = params.get("metric_special", metric_special)
+                var_metric = params.get("metric", metric)
 
                 tparams = {
                     "x": chunk[name],
-                    "metric": metric,
-                    "metric_special": metric_special,
-                    "metric_missing": metric_missing,
+                    "metric": var_metric,
+                    "metric_special": params.get("metric_special",
+                                                 metric_special),
+                    "metric_missing": params.get("metric_missing",
+                                                 metric_missing),
                     "show_digits": show_digits
                     }
 
                 if isinstance(optb, _OPTBPW_TYPES):
                     tparams.pop("show_digits")
 
-                if metric is None:
+                if var_metric is None:
                     tparams.pop("metric")
 
                 X_transform[:, i] = optb.transform(**tparams)
-- 
2.43.0


From 73c7eff76a027649f4e34db0c40af8f9daece225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:51 +0000
Subject: [PATCH 050/110] fix: do not truncate numeric metrics mixed with
 indices in a binning process

---
 optbinning/binning/binning_process.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 933f84b..4064af7 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -1406,6 +1406,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                 if "bins" in metrics:
                     raise ValueError(
                         "metric 'bins' cannot be mixed with numeric metrics.")
+                base_metric = None
             else:
                 base_metric = metrics.pop()
 
@@ -1504,6 +1505,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                 if "bins" in metrics:
                     raise ValueError(
                         "metric 'bins' cannot be mixed with numeric metrics.")
+                base_metric = None
             else:
                 base_metric = metrics.pop()
 
-- 
2.43.0


From 12996788f1d3402d01a502b22da90c3d39520180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:03 +0000
Subject: [PATCH 051/110] fix: binning process accepts file paths with more
 than one dot

---
 optbinning/binning/binning_process.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 4064af7..338c948 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -6,6 +6,7 @@ Binning process.
 # Copyright (C) 2020
 
 import numbers
+import os
 import pickle
 import time
 
@@ -1199,7 +1200,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         _check_parameters(**self.get_params())
 
         # Input file extension
-        extension = input_path.split(".")[1]
+        extension = os.path.splitext(input_path)[1][1:]
 
         # Check extension
         if extension not in ("csv", "parquet"):
@@ -1463,8 +1464,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                         metric_special, metric_missing, show_digits, **kwargs):
 
         # check input_path and output_path extensions
-        input_extension = input_path.split(".")[1]
-        output_extension = output_path.split(".")[1]
+        input_extension = os.path.splitext(input_path)[1][1:]
+        output_extension = os.path.splitext(output_path)[1][1:]
 
         if input_extension != "csv" or output_extension != "csv":
             raise ValueError("input_path and output_path must be csv files.")
-- 
2.43.0


From 8219f46626f278a1c5a65a77ba86856321b0b994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:54 +0000
Subject: [PATCH 052/110] fix: refresh the selection of a binning process after
 updating a variable

---
 optbinning/binning/binning_process.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 338c948..706ea2d 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -435,6 +435,11 @@ class BaseBinningProcess:
 
         self._support_selection_criteria()
 
+    def _refresh_selection(self):
+        if self._is_updated:
+            self._binning_selection_criteria()
+            self._is_updated = False
+
 
 class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
     """Binning process to compute optimal binning of variables in a dataset,
@@ -905,6 +910,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         n_numerical = list(self._variable_dtypes.values()).count("numerical")
         n_categorical = self._n_variables - n_numerical
 
+        self._refresh_selection()
         self._n_selected = np.count_nonzero(self._support)
 
         dict_user_options = self.get_params()
@@ -925,9 +931,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         """
         self._check_is_fitted()
 
-        if self._is_updated:
-            self._binning_selection_criteria()
-            self._is_updated = False
+        self._refresh_selection()
 
         df_summary = pd.DataFrame.from_dict(self._variable_stats).T
         df_summary.reset_index(inplace=True)
@@ -1043,6 +1047,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         if indices and names:
             raise ValueError("Only indices or names can be True.")
 
+        self._refresh_selection()
+
         mask = self._support
         if indices:
             return np.where(mask)[0]
-- 
2.43.0


From 5d997931eb82950e43b3f8a21fb1e4063e8737f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:03 +0000
Subject: [PATCH 053/110] fix: fitting a binning process again discards the
 previous variables

---
 optbinning/binning/binning_process.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 706ea2d..ea5f3dc 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -435,6 +435,14 @@ class BaseBinningProcess:
 
         self._support_selection_criteria()
 
+    def _reset(self):
+        # results of a previous fit are not part of this one
+        self._variable_dtypes = {}
+        self._variable_stats = {}
+        self._binned_variables = {}
+        self._is_updated = False
+        self._is_fitted = False
+
     def _refresh_selection(self):
         if self._is_updated:
             self._binning_selection_criteria()
@@ -1066,6 +1074,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
 
         _check_parameters(**self.get_params())
 
+        self._reset()
+
         # check X dtype
         if not isinstance(X, (pd.DataFrame, np.ndarray)):
             raise TypeError("X must be a pandas.DataFrame or numpy.ndarray.")
@@ -1205,6 +1215,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
 
         _check_parameters(**self.get_params())
 
+        self._reset()
+
         # Input file extension
         extension = os.path.splitext(input_path)[1][1:]
 
@@ -1285,6 +1297,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
 
         _check_parameters(**self.get_params())
 
+        self._reset()
+
         if not isinstance(dict_optb, dict):
             raise TypeError("dict_optb must be a dict.")
 
-- 
2.43.0


From 61755edafc3cfa0774d3da90f63291e9448662f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:14 +0000
Subject: [PATCH 054/110] fix: selection criteria in a binning process sketch

---
 optbinning/binning/binning_process.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index ea5f3dc..6f1f803 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -390,8 +390,9 @@ class BaseBinningProcess:
                     self._support &= support
 
         # Fixed variables
-        if self.fixed_variables is not None:
-            for fv in self.fixed_variables:
+        fixed_variables = getattr(self, "fixed_variables", None)
+        if fixed_variables is not None:
+            for fv in fixed_variables:
                 idfv = list(self.variable_names).index(fv)
                 self._support[idfv] = True
 
-- 
2.43.0


From 5da0af0797519f879f9274d7caf0140fd3d458c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:05 +0000
Subject: [PATCH 055/110] fix: pass max_bin_size to the sketch of each variable

---
 optbinning/binning/distributed/binning_process_sketch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/optbinning/binning/distributed/binning_process_sketch.py b/optbinning/binning/distributed/binning_process_sketch.py
index c06e2c8..e3ab59f 100644
--- a/optbinning/binning/distributed/binning_process_sketch.py
+++ b/optbinning/binning/distributed/binning_process_sketch.py
@@ -325,6 +325,7 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
                         min_n_bins=self.min_n_bins,
                         max_n_bins=self.max_n_bins,
                         min_bin_size=self.min_bin_size,
+                        max_bin_size=self.max_bin_size,
                         max_pvalue=self.max_pvalue,
                         max_pvalue_policy=self.max_pvalue_policy,
                         special_codes=self.special_codes,
-- 
2.43.0


From c0eb94e79876ae0130c1192a62612476511d92c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:56 +0000
Subject: [PATCH 056/110] fix: binning process sketch transform supports every
 documented metric and keeps the options of each variable separate

---
 .../distributed/binning_process_sketch.py     | 42 +++++++++++--------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/optbinning/binning/distributed/binning_process_sketch.py b/optbinning/binning/distributed/binning_process_sketch.py
index e3ab59f..7b9f232 100644
--- a/optbinning/binning/distributed/binning_process_sketch.py
+++ b/optbinning/binning/distributed/binning_process_sketch.py
@@ -528,9 +528,10 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
         n_samples, n_variables = X.shape
 
         # Check metric
-        if metric not in ("event_rate", "woe"):
+        if metric not in ("event_rate", "woe", "indices", "bins"):
             raise ValueError('Invalid value for metric. Allowed string '
-                             'values are "event_rate" and "woe".')
+                             'values are "event_rate", "woe", "indices" and '
+                             '"bins".')
 
         mask = self.get_support()
         if not mask.any():
@@ -547,10 +548,23 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
 
         n_selected_variables = len(selected_variables)
 
-        if metric == "indices":
+        # Metric of each variable. Metric bins is not numeric.
+        transform_params = self.binning_transform_params or {}
+        metrics = {transform_params.get(name, {}).get("metric", metric)
+                   for name in selected_variables}
+
+        if len(metrics) > 1:
+            if "bins" in metrics:
+                raise ValueError(
+                    "metric 'bins' cannot be mixed with numeric metrics.")
+            base_metric = None
+        else:
+            base_metric = metrics.pop()
+
+        if base_metric == "indices":
             X_transform = np.full(
                 (n_samples, n_selected_variables), -1, dtype=int)
-        elif metric == "bins":
+        elif base_metric == "bins":
             X_transform = np.full(
                 (n_samples, n_selected_variables), "", dtype=object)
         else:
@@ -560,27 +574,19 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
             optb = self._binned_variables[name]
             x = X[name]
 
-            params = {}
-            if self.binning_transform_params is not None:
-                params = self.binning_transform_params.get(name, {})
-
-            metric_missing = params.get("metric_missing", metric_missing)
-            metric_special = params.get("metric_special", metric_special)
+            params = transform_params.get(name, {})
 
             tparams = {
                 "x": x,
-                "metric": metric,
-                "metric_special": metric_special,
-                "metric_missing": metric_missing,
+                "metric": params.get("metric", metric),
+                "metric_special": params.get("metric_special",
+                                             metric_special),
+                "metric_missing": params.get("metric_missing",
+                                             metric_missing),
                 "check_input": check_input,
                 "show_digits": show_digits
                 }
 
-            if metric is not None:
-                tparams["metric"] = params.get("metric", metric)
-            else:
-                tparams.pop("metric")
-
             X_transform[:, i] = optb.transform(**tparams)
 
         return pd.DataFrame(X_transform, columns=selected_variables)
-- 
2.43.0


From c8a9f859b1f8afe46de2df0feb80a390a609dbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:53 +0000
Subject: [PATCH 057/110] fix: merging binning process sketches counts records
 and accepts empty or array parameters

---
 .../distributed/binning_process_sketch.py     | 122 ++++++++++--------
 1 file changed, 70 insertions(+), 52 deletions(-)

diff --git a/optbinning/binning/distributed/binning_process_sketch.py b/optbinning/binning/distributed/binning_process_sketch.py
index 7b9f232..fab6e98 100644
--- a/optbinning/binning/distributed/binning_process_sketch.py
+++ b/optbinning/binning/distributed/binning_process_sketch.py
@@ -120,6 +120,14 @@ def _check_parameters(variable_names, max_n_prebins, min_n_bins, max_n_bins,
         raise TypeError("verbose must be a boolean; got {}.".format(verbose))
 
 
+def _equal_params(a, b):
+    if isinstance(a, dict) and isinstance(b, dict):
+        return (a.keys() == b.keys() and
+                all(_equal_params(a[key], b[key]) for key in a))
+
+    return np.array_equal(a, b)
+
+
 class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
     """Binning process over data streams to compute optimal binning of
     variables with respect to a binary target.
@@ -294,54 +302,7 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
             Binning process with new data.
         """
         if not self._is_started:
-            self._n_samples = 0
-            self._n_variables = len(self.variable_names)
-
-            if self.categorical_variables is not None:
-                self._n_categorical = len(self.categorical_variables)
-            else:
-                self._n_categorical = 0
-
-            self._n_numerical = self._n_variables - self._n_categorical
-
-            # Check selection criteria
-            if self.selection_criteria is not None:
-                _check_selection_criteria(self.selection_criteria,
-                                          self._target_dtype)
-
-            # Initialize bsketch for each variable. To avoid mixed dtypes
-            # the user must provide a dtype for all variables. This differs
-            # from the BinningProcess, where dtypes are inferred.
-            for name in self.variable_names:
-                if (self.categorical_variables is not None and
-                        name in self.categorical_variables):
-                    dtype = "categorical"
-                else:
-                    dtype = "numerical"
-
-                optb = OptimalBinningSketch(
-                        name=name, dtype=dtype,
-                        max_n_prebins=self.max_n_prebins,
-                        min_n_bins=self.min_n_bins,
-                        max_n_bins=self.max_n_bins,
-                        min_bin_size=self.min_bin_size,
-                        max_bin_size=self.max_bin_size,
-                        max_pvalue=self.max_pvalue,
-                        max_pvalue_policy=self.max_pvalue_policy,
-                        special_codes=self.special_codes,
-                        split_digits=self.split_digits)
-
-                if self.binning_fit_params is not None:
-                    params = self.binning_fit_params.get(name, {})
-                else:
-                    params = {}
-
-                optb.set_params(**params)
-
-                self._variable_dtypes[name] = dtype
-                self._binned_variables[name] = optb
-
-            self._is_started = True
+            self._start()
 
         # Add new data stream
         time_add = time.perf_counter()
@@ -367,6 +328,56 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
 
         return self
 
+    def _start(self):
+        self._n_samples = 0
+        self._n_variables = len(self.variable_names)
+
+        if self.categorical_variables is not None:
+            self._n_categorical = len(self.categorical_variables)
+        else:
+            self._n_categorical = 0
+
+        self._n_numerical = self._n_variables - self._n_categorical
+
+        # Check selection criteria
+        if self.selection_criteria is not None:
+            _check_selection_criteria(self.selection_criteria,
+                                      self._target_dtype)
+
+        # Initialize bsketch for each variable. To avoid mixed dtypes
+        # the user must provide a dtype for all variables. This differs
+        # from the BinningProcess, where dtypes are inferred.
+        for name in self.variable_names:
+            if (self.categorical_variables is not None and
+                    name in self.categorical_variables):
+                dtype = "categorical"
+            else:
+                dtype = "numerical"
+
+            optb = OptimalBinningSketch(
+                    name=name, dtype=dtype,
+                    max_n_prebins=self.max_n_prebins,
+                    min_n_bins=self.min_n_bins,
+                    max_n_bins=self.max_n_bins,
+                    min_bin_size=self.min_bin_size,
+                    max_bin_size=self.max_bin_size,
+                    max_pvalue=self.max_pvalue,
+                    max_pvalue_policy=self.max_pvalue_policy,
+                    special_codes=self.special_codes,
+                    split_digits=self.split_digits)
+
+            if self.binning_fit_params is not None:
+                params = self.binning_fit_params.get(name, {})
+            else:
+                params = {}
+
+            optb.set_params(**params)
+
+            self._variable_dtypes[name] = dtype
+            self._binned_variables[name] = optb
+
+        self._is_started = True
+
     def information(self, print_level=1):
         """Print overview information about the options settings and
         statistics.
@@ -424,9 +435,16 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
         if not self.mergeable(bpsketch):
             raise Exception("bpsketch does not share signature.")
 
-        for name in self.variable_names:
-            self._binned_variables[name].merge(
-                bpsketch._binned_variables[name])
+        if bpsketch._is_started:
+            if not self._is_started:
+                self._start()
+
+            for name in self.variable_names:
+                self._binned_variables[name].merge(
+                    bpsketch._binned_variables[name])
+
+            self._n_samples += bpsketch._n_samples
+            self._n_add += bpsketch._n_add
 
         if self.verbose:
             logger.info("Sketch: current sketch was merged.")
@@ -443,7 +461,7 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
         -------
         mergeable : bool
         """
-        return self.get_params() == bpsketch.get_params()
+        return _equal_params(self.get_params(), bpsketch.get_params())
 
     def solve(self):
         """Solve optimal binning for all variables using added data.
-- 
2.43.0


From 8d41786fdfe3230aece0537d9e40ab00c28d4944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:09 +0000
Subject: [PATCH 058/110] fix: apply split_digits to the splits of a binning
 sketch

---
 optbinning/binning/distributed/binning_sketch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index bf1512c..7cbd981 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -734,6 +734,9 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
                 splits = np.array([sketch_all.percentile(p)
                                    for p in percentiles[1:-1]])
 
+            if self.split_digits is not None:
+                splits = np.round(splits, self.split_digits)
+
             splits, n_nonevent, n_event = self._compute_prebins(
                 np.unique(splits))
         else:
-- 
2.43.0


From c42bb1b71f7db69c50ddcd42e51eac058d530888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:39 +0000
Subject: [PATCH 059/110] fix: reset the scorecard intercept when it is fitted
 again

---
 optbinning/scorecard/scorecard.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/optbinning/scorecard/scorecard.py b/optbinning/scorecard/scorecard.py
index 1a44993..570413f 100644
--- a/optbinning/scorecard/scorecard.py
+++ b/optbinning/scorecard/scorecard.py
@@ -624,6 +624,7 @@ class Scorecard(Base, BaseEstimator):
 
             df_scorecard.loc[:, "Points"] = scaled_points
 
+        self.intercept_ = 0
         if self.intercept_based:
             scaled_points, self.intercept_ = _compute_intercept_based(
                 df_scorecard)
-- 
2.43.0


From 7cb83cdac6f73d0b81412ef14620d269786573e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:50 +0000
Subject: [PATCH 060/110] fix: reverse the intercept along with the points in
 pdo_odds scorecards

---
 optbinning/scorecard/scorecard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/scorecard/scorecard.py b/optbinning/scorecard/scorecard.py
index 570413f..1ac4865 100644
--- a/optbinning/scorecard/scorecard.py
+++ b/optbinning/scorecard/scorecard.py
@@ -133,7 +133,7 @@ def _compute_scorecard_points(points, binning_tables, method, method_data,
         factor = pdo / np.log(2)
         offset = scorecard_points - factor * np.log(odds)
 
-        new_points = -(sense * points + intercept / n) * factor + offset / n
+        new_points = -sense * (points + intercept / n) * factor + offset / n
     elif method == "min_max":
         a = method_data["min"]
         b = method_data["max"]
-- 
2.43.0


From 2eb8efd9fa1a6303ccb190b707a6194ab4a9326e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:22 +0000
Subject: [PATCH 061/110] fix: attain the minimum and maximum score after
 rounding scorecard points

---
 optbinning/scorecard/rounding.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/optbinning/scorecard/rounding.py b/optbinning/scorecard/rounding.py
index e74dd52..ea1f9e9 100644
--- a/optbinning/scorecard/rounding.py
+++ b/optbinning/scorecard/rounding.py
@@ -36,8 +36,8 @@ class RoundingMIP:
         min_point = np.rint(np.sum(mins))
         max_point = np.rint(np.sum(maxs))
 
-        min_p = np.min(mins)
-        max_p = np.max(maxs)
+        min_p = np.floor(np.min(mins))
+        max_p = np.ceil(np.max(maxs))
 
         # Initialize solver
         solver = pywraplp.Solver(
@@ -72,6 +72,10 @@ class RoundingMIP:
                 # Min score constraints for each variable
                 solver.Add(min_b[i] <= p[i, j])
 
+            # The minimum/maximum points must be attained
+            solver.Add(max_b[i] == p[i, np.argmax(points[i])])
+            solver.Add(min_b[i] == p[i, np.argmin(points[i])])
+
         # Sum of minimum/maximum point by variable must be min_point/max_point
         solver.Add(solver.Sum([min_b[i] for i in range(nb)]) == min_point)
         solver.Add(solver.Sum([max_b[i] for i in range(nb)]) == max_point)
-- 
2.43.0


From fdb6af30bdd326c05c901ffd552e8da76c8f8f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:26 +0000
Subject: [PATCH 062/110] fix: score records with the bin indices of each
 variable, whatever its transform options

---
 optbinning/scorecard/scorecard.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/optbinning/scorecard/scorecard.py b/optbinning/scorecard/scorecard.py
index 1ac4865..e9eb9a7 100644
--- a/optbinning/scorecard/scorecard.py
+++ b/optbinning/scorecard/scorecard.py
@@ -406,17 +406,19 @@ class Scorecard(Base, BaseEstimator):
         score: array of shape (n_samples)
             The score of the input samples.
         """
-        X_t = self._transform(
-            X=X, metric="indices", metric_special="empirical",
-            metric_missing="empirical")
+        self._check_is_fitted()
 
-        score_ = np.zeros(X_t.shape[0])
+        score_ = np.zeros(X.shape[0])
         selected_variables = self.binning_process_.get_support(names=True)
 
         for variable in selected_variables:
             mask = self._df_scorecard.Variable == variable
             points = self._df_scorecard[mask].Points.values
-            score_ += points[X_t[variable]]
+            optb = self.binning_process_.get_binned_variable(variable)
+            indices = optb.transform(
+                X[variable], metric="indices", metric_special="empirical",
+                metric_missing="empirical")
+            score_ += points[indices]
 
         return score_ + self.intercept_
 
-- 
2.43.0


From 328a3b1e5803bc3553ac4b5be8b740bbd6c90a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:18 +0000
Subject: [PATCH 063/110] fix: use the transform options of each variable for
 scorecard points

---
 optbinning/scorecard/scorecard.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/optbinning/scorecard/scorecard.py b/optbinning/scorecard/scorecard.py
index e9eb9a7..2cef890 100644
--- a/optbinning/scorecard/scorecard.py
+++ b/optbinning/scorecard/scorecard.py
@@ -526,10 +526,10 @@ class Scorecard(Base, BaseEstimator):
 
         if self._target_dtype == "binary":
             metric = "woe"
-            bt_metric = "WoE"
+            bt_columns = {"woe": "WoE", "event_rate": "Event rate"}
         elif self._target_dtype == "continuous":
             metric = "mean"
-            bt_metric = "Mean"
+            bt_columns = {"mean": "Mean"}
 
         if self.verbose:
             logger.info("Dataset: {} target.".format(self._target_dtype))
@@ -588,27 +588,34 @@ class Scorecard(Base, BaseEstimator):
             logger.info("Scorecard table building started.")
 
         selected_variables = self.binning_process_.get_support(names=True)
+        transform_params = self.binning_process_.binning_transform_params or {}
         binning_tables = []
         for i, variable in enumerate(selected_variables):
+            # Options for this variable override the scorecard options
+            params = transform_params.get(variable, {})
+            column = bt_columns[params.get("metric") or metric]
+            special = params.get("metric_special", metric_special)
+            missing = params.get("metric_missing", metric_missing)
+
             optb = self.binning_process_.get_binned_variable(variable)
             binning_table = optb.binning_table.build(
                 show_digits=show_digits, add_totals=False)
             c = coefs[i]
             binning_table.loc[:, "Variable"] = variable
             binning_table.loc[:, "Coefficient"] = c
-            binning_table.loc[:, "Points"] = binning_table[bt_metric] * c
+            binning_table.loc[:, "Points"] = binning_table[column] * c
 
             nt = len(binning_table)
-            if metric_special != 'empirical':
+            if special != 'empirical':
                 if isinstance(optb.special_codes, dict):
                     n_specials = len(optb.special_codes)
                 else:
                     n_specials = 1
 
                 binning_table.loc[
-                    nt-1-n_specials:nt-2, "Points"] = metric_special * c
-            if metric_missing != 'empirical':
-                binning_table.loc[nt-1, "Points"] = metric_missing * c
+                    nt-1-n_specials:nt-2, "Points"] = special * c
+            if missing != 'empirical':
+                binning_table.loc[nt-1, "Points"] = missing * c
 
             binning_table.index.names = ['Bin id']
             binning_table.reset_index(level=0, inplace=True)
-- 
2.43.0


From 77617b8830723160fb01d037dc13eac08f6c4879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:12 +0000
Subject: [PATCH 064/110] fix: count every record of a variable in its own bin
 when monitoring

---
 optbinning/scorecard/monitoring.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/optbinning/scorecard/monitoring.py b/optbinning/scorecard/monitoring.py
index 0226dad..0b203f9 100644
--- a/optbinning/scorecard/monitoring.py
+++ b/optbinning/scorecard/monitoring.py
@@ -70,6 +70,14 @@ def _check_parameters(scorecard, psi_method, psi_n_bins,
         raise TypeError("verbose must be a boolean; got {}.".format(verbose))
 
 
+def _compute_psi(p_records_a, p_records_e):
+    """PSI of each bin. Bins with equal percentages do not contribute, even if
+    they are empty."""
+    psi = jeffrey(p_records_a, p_records_e, return_sum=False)
+
+    return np.where(p_records_a == p_records_e, 0.0, psi)
+
+
 def print_psi_report(df_psi):
     t_psi = df_psi.PSI.values[-1]
     psi = df_psi.PSI.values[:-1]
@@ -585,7 +593,7 @@ class ScorecardMonitoring(BaseEstimator):
         p_records_a = n_records_a / t_n_records_a
         p_records_e = n_records_e / t_n_records_e
 
-        psi = jeffrey(p_records_a, p_records_e, return_sum=False)
+        psi = _compute_psi(p_records_a, p_records_e)
 
         df_psi = pd.DataFrame({
             "Bin": bin_str,
@@ -781,10 +789,15 @@ class ScorecardMonitoring(BaseEstimator):
 
         for name in variables:
             optb = self.scorecard.binning_process_.get_binned_variable(name)
-            ta = optb.transform(X_actual[name], metric="indices")
-            te = optb.transform(X_expected[name], metric="indices")
+            ta = optb.transform(X_actual[name], metric="indices",
+                                metric_special="empirical",
+                                metric_missing="empirical")
+            te = optb.transform(X_expected[name], metric="indices",
+                                metric_special="empirical",
+                                metric_missing="empirical")
 
-            n_bins = te.max() + 1
+            bins = sc_table[sc_table.Variable == name]["Bin"].values
+            n_bins = len(bins)
 
             n_records_a = np.empty(n_bins, dtype=np.int64)
             n_records_e = np.empty(n_bins, dtype=np.int64)
@@ -798,8 +811,7 @@ class ScorecardMonitoring(BaseEstimator):
             p_records_a = n_records_a / t_n_records_a
             p_records_e = n_records_e / t_n_records_e
 
-            psi = jeffrey(p_records_a, p_records_e, return_sum=False)
-            bins = sc_table[sc_table.Variable == name]["Bin"].values[:n_bins]
+            psi = _compute_psi(p_records_a, p_records_e)
 
             df_psi = pd.DataFrame({
                 "Variable": [name] * n_bins,
-- 
2.43.0


From 44ac6f920922d8fa7ce123809ac2fe8cb960ca85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:13 +0000
Subject: [PATCH 065/110] fix: count scores in the bin their label says when
 monitoring

---
 optbinning/scorecard/monitoring.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/scorecard/monitoring.py b/optbinning/scorecard/monitoring.py
index 0b203f9..6ed7a38 100644
--- a/optbinning/scorecard/monitoring.py
+++ b/optbinning/scorecard/monitoring.py
@@ -507,8 +507,8 @@ class ScorecardMonitoring(BaseEstimator):
         n_bins = len(splits) + 1
 
         # Compute basic metrics
-        indices_a = np.digitize(score_actual, splits, right=True)
-        indices_e = np.digitize(score_expected, splits, right=True)
+        indices_a = np.digitize(score_actual, splits, right=False)
+        indices_e = np.digitize(score_expected, splits, right=False)
 
         if self._target_dtype == "binary":
             n_nonevent_a = np.empty(n_bins, dtype=np.int64)
-- 
2.43.0


From 138951407b3b7417b3ead521a8fb03e967ae9cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:13 +0000
Subject: [PATCH 066/110] fix: monitor score bins where the significance test
 is not defined

---
 optbinning/scorecard/monitoring.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/optbinning/scorecard/monitoring.py b/optbinning/scorecard/monitoring.py
index 6ed7a38..54a8fc5 100644
--- a/optbinning/scorecard/monitoring.py
+++ b/optbinning/scorecard/monitoring.py
@@ -627,7 +627,11 @@ class ScorecardMonitoring(BaseEstimator):
                 [n_nonevent_a[i], n_nonevent_e[i]],
                 [n_event_a[i], n_event_e[i]]])
 
-            t, p, _, _ = stats.chi2_contingency(obs, correction=False)
+            if obs.sum(axis=0).all() and obs.sum(axis=1).all():
+                t, p, _, _ = stats.chi2_contingency(obs, correction=False)
+            else:
+                # The test is not defined if a margin of the table is zero
+                t, p = np.nan, np.nan
 
             t_statistics.append(t)
             p_values.append(p)
-- 
2.43.0


From 8286fa297e76c00be5b3c713111b592c7b8ef0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:13 +0000
Subject: [PATCH 067/110] fix: accept any array-like target when monitoring

---
 optbinning/scorecard/monitoring.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/optbinning/scorecard/monitoring.py b/optbinning/scorecard/monitoring.py
index 54a8fc5..44ba5c9 100644
--- a/optbinning/scorecard/monitoring.py
+++ b/optbinning/scorecard/monitoring.py
@@ -281,6 +281,9 @@ class ScorecardMonitoring(BaseEstimator):
 
         self._target_dtype = target_dtype
 
+        y_actual = np.asarray(y_actual)
+        y_expected = np.asarray(y_expected)
+
         # Check variable names
         if list(X_actual.columns) != list(X_expected.columns):
             raise ValueError("Dataframes X_actual and X_expected must "
-- 
2.43.0


From 048476826cbe2abff82ae4e7f6d7d08d7074ce06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:11 +0000
Subject: [PATCH 068/110] fix: link counterfactual values to the chosen bins
 when proximity is not an objective

---
 optbinning/scorecard/counterfactual/mip.py       | 10 ++++++++++
 optbinning/scorecard/counterfactual/multi_mip.py | 11 +++++++++++
 2 files changed, 21 insertions(+)

diff --git a/optbinning/scorecard/counterfactual/mip.py b/optbinning/scorecard/counterfactual/mip.py
index f9f84e3..e28e1f8 100644
--- a/optbinning/scorecard/counterfactual/mip.py
+++ b/optbinning/scorecard/counterfactual/mip.py
@@ -71,6 +71,10 @@ class CFMIP:
         solver.Minimize(solver.Sum([weights[name] * objs[name]
                                     for name in names]))
 
+        # Constraint: metric
+        self.add_constraint_metric(
+            solver, p, x, nbins, metric, x_p, z)
+
         # Constraint: proximity
         if "proximity" in self.objectives:
             self.add_constraint_proximity(
@@ -146,6 +150,10 @@ class CFMIP:
                     solver.Add(d_p[i] - d_m[i] == objs[pobj_name] - pobj_val)
                     solver.Add(d_p[i] + d_m[i] <= self.priority_tol * absval)
 
+            # Constraint: metric
+            self.add_constraint_metric(
+                solver, p, x, nbins, metric, x_p, z)
+
             # Constraint: proximity
             if "proximity" in self.objectives:
                 self.add_constraint_proximity(
@@ -265,6 +273,8 @@ class CFMIP:
             # Absolute value
             solver.Add(t_p[i] - t_m[i] == x[i] - x_p[i])
 
+    def add_constraint_metric(self, solver, p, x, nbins, metric, x_p, z):
+        for i in range(p):
             # Compute x'
             solver.Add(x_p[i] == x[i] + solver.Sum([
                 (metric[i][j] - x[i]) * z[i, j] for j in range(nbins[i])]))
diff --git a/optbinning/scorecard/counterfactual/multi_mip.py b/optbinning/scorecard/counterfactual/multi_mip.py
index d42d8e5..5b5b46b 100644
--- a/optbinning/scorecard/counterfactual/multi_mip.py
+++ b/optbinning/scorecard/counterfactual/multi_mip.py
@@ -54,6 +54,10 @@ class MCFMIP(CFMIP):
 
         # Constraints
         for k in range(self.K):
+            # Constraint: metric
+            self.add_constraint_metric(
+                solver, p, x, nbins, metric, x_p, z)
+
             # Constraint: proximity
             if "proximity" in self.objectives:
                 self.add_constraint_proximity(
@@ -157,6 +161,10 @@ class MCFMIP(CFMIP):
 
             # Constraints
             for k in range(self.K):
+                # Constraint: metric
+                self.add_constraint_metric(
+                    solver, p, x, nbins, metric, x_p, z)
+
                 # Constraint: proximity
                 if "proximity" in self.objectives:
                     self.add_constraint_proximity(
@@ -323,6 +331,9 @@ class MCFMIP(CFMIP):
                 # Absolute value
                 solver.Add(t_p[k, i] - t_m[k, i] == x[i] - x_p[k, i])
 
+    def add_constraint_metric(self, solver, p, x, nbins, metric, x_p, z):
+        for k in range(self.K):
+            for i in range(p):
                 # Compute x'
                 solver.Add(x_p[k, i] == x[i] + solver.Sum(
                     [(metric[i][j] - x[i]) * z[k, i, j]
-- 
2.43.0


From cb5783f8434970e0f4fffc67d48b6b50b3c30cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:11 +0000
Subject: [PATCH 069/110] fix: read all counterfactual solutions of the solver
 as boolean selections

---
 optbinning/scorecard/counterfactual/counterfactual.py |  2 +-
 optbinning/scorecard/counterfactual/mip.py            |  7 +++----
 optbinning/scorecard/counterfactual/multi_mip.py      | 11 +++++------
 3 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/optbinning/scorecard/counterfactual/counterfactual.py b/optbinning/scorecard/counterfactual/counterfactual.py
index 485f7b7..4390f18 100644
--- a/optbinning/scorecard/counterfactual/counterfactual.py
+++ b/optbinning/scorecard/counterfactual/counterfactual.py
@@ -595,7 +595,7 @@ class Counterfactual(BaseCounterfactual):
         new_indices = {}
         score = 0
         for i, v in enumerate(self._variable_names):
-            new_index = np.array(indices[i])[solution[i]]
+            new_index = np.array(indices[i], dtype=int)[solution[i]]
             if len(new_index):
                 new_indices[v] = new_index
 
diff --git a/optbinning/scorecard/counterfactual/mip.py b/optbinning/scorecard/counterfactual/mip.py
index e28e1f8..2cb3627 100644
--- a/optbinning/scorecard/counterfactual/mip.py
+++ b/optbinning/scorecard/counterfactual/mip.py
@@ -206,10 +206,9 @@ class CFMIP:
             else:
                 status_name = "FEASIBLE"
 
-            solution = np.array([np.array([self._z[i, j].solution_value()
-                                           for j in range(self._nbins[i])]
-                                          ).astype(bool)
-                                 for i in range(self._p)], dtype=object)
+            solution = [np.array([self._z[i, j].solution_value() > 0.5
+                                  for j in range(self._nbins[i])], dtype=bool)
+                        for i in range(self._p)]
         else:
             if status == pywraplp.Solver.ABNORMAL:
                 status_name = "ABNORMAL"
diff --git a/optbinning/scorecard/counterfactual/multi_mip.py b/optbinning/scorecard/counterfactual/multi_mip.py
index 5b5b46b..4fa9476 100644
--- a/optbinning/scorecard/counterfactual/multi_mip.py
+++ b/optbinning/scorecard/counterfactual/multi_mip.py
@@ -245,12 +245,11 @@ class MCFMIP(CFMIP):
             else:
                 status_name = "FEASIBLE"
 
-            solution = np.array(
-                [np.array(
-                    [np.array([self._z[k, i, j].solution_value()
-                               for j in range(self._nbins[i])]).astype(bool)
-                     for i in range(self._p)], dtype=object)
-                 for k in range(self.K)], dtype=object)
+            solution = [
+                [np.array([self._z[k, i, j].solution_value() > 0.5
+                           for j in range(self._nbins[i])], dtype=bool)
+                 for i in range(self._p)]
+                for k in range(self.K)]
         else:
             if status == pywraplp.Solver.ABNORMAL:
                 status_name = "ABNORMAL"
-- 
2.43.0


From c13d3d34a7d113421ee82f89fb9638ef24991676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:11 +0000
Subject: [PATCH 070/110] fix: report the status of an infeasible hierarchical
 counterfactual problem

---
 optbinning/scorecard/counterfactual/mip.py       | 4 ++--
 optbinning/scorecard/counterfactual/multi_mip.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/optbinning/scorecard/counterfactual/mip.py b/optbinning/scorecard/counterfactual/mip.py
index 2cb3627..7702be0 100644
--- a/optbinning/scorecard/counterfactual/mip.py
+++ b/optbinning/scorecard/counterfactual/mip.py
@@ -190,8 +190,8 @@ class CFMIP:
                 status_name, solution = self.solve()
 
                 if status_name not in ("OPTIMAL", "FEASIBLE"):
-                    raise Exception("{} problem in hierarchical model."
-                                    .format(status_name))
+                    # No solution, the status is reported when solving
+                    return
                 else:
                     pre_objs[name] = self._objectives[name].solution_value()
 
diff --git a/optbinning/scorecard/counterfactual/multi_mip.py b/optbinning/scorecard/counterfactual/multi_mip.py
index 4fa9476..20ef4f9 100644
--- a/optbinning/scorecard/counterfactual/multi_mip.py
+++ b/optbinning/scorecard/counterfactual/multi_mip.py
@@ -229,8 +229,8 @@ class MCFMIP(CFMIP):
                 status_name, solution = self.solve()
 
                 if status_name not in ("OPTIMAL", "FEASIBLE"):
-                    raise Exception("{} problem in hierarchical model."
-                                    .format(status_name))
+                    # No solution, the status is reported when solving
+                    return
                 else:
                     pre_objs[name] = self._objectives[name].solution_value()
 
-- 
2.43.0


From 993cac7aefdad656e284223bb572a27a8f6af625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:11 +0000
Subject: [PATCH 071/110] fix: enforce counterfactual probability constraints
 on the logit scale

---
 optbinning/scorecard/counterfactual/mip.py       | 11 +++++++----
 optbinning/scorecard/counterfactual/multi_mip.py | 11 +++++++----
 optbinning/scorecard/counterfactual/utils.py     |  5 +++++
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/optbinning/scorecard/counterfactual/mip.py b/optbinning/scorecard/counterfactual/mip.py
index 7702be0..64e881d 100644
--- a/optbinning/scorecard/counterfactual/mip.py
+++ b/optbinning/scorecard/counterfactual/mip.py
@@ -10,6 +10,7 @@ import numpy as np
 from ortools.linear_solver import pywraplp
 
 from .utils import logistic_pw
+from .utils import logit
 
 
 class CFMIP:
@@ -326,11 +327,13 @@ class CFMIP:
                 solver.Add(b_pw[r][0] * s[r] <= h[r])
                 solver.Add(h[r] <= b_pw[r][1] * s[r])
 
-            if "min_outcome" in self.hard_constraints:
-                solver.Add(f >= y)
+            # The logistic function is monotonic, hence the outcome
+            # constraints can be enforced without approximation
+            if "min_outcome" in self.hard_constraints and y > 0:
+                solver.Add(activation >= logit(y))
 
-            if "max_outcome" in self.hard_constraints:
-                solver.Add(f <= y)
+            if "max_outcome" in self.hard_constraints and y < 1:
+                solver.Add(activation <= logit(y))
 
             if "diff_outcome" in self.soft_constraints:
                 solver.Add(q_p - q_m == f - y)
diff --git a/optbinning/scorecard/counterfactual/multi_mip.py b/optbinning/scorecard/counterfactual/multi_mip.py
index 20ef4f9..52599d3 100644
--- a/optbinning/scorecard/counterfactual/multi_mip.py
+++ b/optbinning/scorecard/counterfactual/multi_mip.py
@@ -10,6 +10,7 @@ import numpy as np
 from ortools.linear_solver import pywraplp
 
 from .mip import CFMIP
+from .utils import logit
 
 
 class MCFMIP(CFMIP):
@@ -395,11 +396,13 @@ class MCFMIP(CFMIP):
                     solver.Add(b_pw[r][0] * s[k, r] <= h[k, r])
                     solver.Add(h[k, r] <= b_pw[r][1] * s[k, r])
 
-                if "min_outcome" in self.hard_constraints:
-                    solver.Add(f[k] >= y)
+                # The logistic function is monotonic, hence the outcome
+                # constraints can be enforced without approximation
+                if "min_outcome" in self.hard_constraints and y > 0:
+                    solver.Add(activation >= logit(y))
 
-                if "max_outcome" in self.hard_constraints:
-                    solver.Add(f[k] <= y)
+                if "max_outcome" in self.hard_constraints and y < 1:
+                    solver.Add(activation <= logit(y))
 
                 if "diff_outcome" in self.soft_constraints:
                     solver.Add(q_p[k] - q_m[k] == f[k] - y)
diff --git a/optbinning/scorecard/counterfactual/utils.py b/optbinning/scorecard/counterfactual/utils.py
index 8a1cc62..691a9b0 100644
--- a/optbinning/scorecard/counterfactual/utils.py
+++ b/optbinning/scorecard/counterfactual/utils.py
@@ -10,6 +10,11 @@ import numpy as np
 from ropwr import RobustPWRegression
 
 
+def logit(y):
+    """Activation with probability y, large if y is either 0 or 1."""
+    return np.log(y / (1.0 - y)) if 0 < y < 1 else (2 * y - 1) * 1e6
+
+
 def logistic_pw(min_p, max_p, n_bins):
     xl = np.linspace(min_p, max_p, 100)
     yl = (1.0 / (1 + np.exp(-xl)))
-- 
2.43.0


From a356878103084d246c8d2ed36f35fa9f8cfa938c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:11 +0000
Subject: [PATCH 072/110] fix: use the scorecard metrics of special and missing
 rows in counterfactuals

---
 .../scorecard/counterfactual/counterfactual.py   |  4 +++-
 .../scorecard/counterfactual/model_data.py       | 13 ++++++++-----
 .../scorecard/counterfactual/problem_data.py     | 16 +++++-----------
 optbinning/scorecard/scorecard.py                | 13 +++++++++----
 4 files changed, 25 insertions(+), 21 deletions(-)

diff --git a/optbinning/scorecard/counterfactual/counterfactual.py b/optbinning/scorecard/counterfactual/counterfactual.py
index 4390f18..e53a8a0 100644
--- a/optbinning/scorecard/counterfactual/counterfactual.py
+++ b/optbinning/scorecard/counterfactual/counterfactual.py
@@ -618,7 +618,9 @@ class Counterfactual(BaseCounterfactual):
             query = pd.DataFrame.from_dict(query, orient="index").T
 
         x = self.scorecard.binning_process_.transform(
-            query[self._variable_names]).values.ravel()
+            query[self._variable_names],
+            metric_special=self.scorecard._metric_special,
+            metric_missing=self.scorecard._metric_missing).values.ravel()
 
         return x, query
 
diff --git a/optbinning/scorecard/counterfactual/model_data.py b/optbinning/scorecard/counterfactual/model_data.py
index 2220286..0b4c122 100644
--- a/optbinning/scorecard/counterfactual/model_data.py
+++ b/optbinning/scorecard/counterfactual/model_data.py
@@ -9,18 +9,21 @@ Counterfactual model data.
 def model_data(scorecard, x, special_missing):
     s_vars = scorecard.binning_process_.get_support(names=True)
 
-    sc = scorecard.table(style="detailed")
-    metric_name = "WoE" if scorecard._target_dtype == "binary" else "Mean"
-
     # Number of bins, metric and indices
     nbins = []
     metric = []
     indices = []
     for i, v in enumerate(s_vars):
-        metric_i = sc[sc.Variable == v][metric_name].values
+        metric_i = scorecard._bin_metrics[v]
 
         if not special_missing:
-            metric_i = metric_i[:-2]
+            optb = scorecard.binning_process_.get_binned_variable(v)
+            if isinstance(optb.special_codes, dict):
+                n_specials = len(optb.special_codes)
+            else:
+                n_specials = 1
+
+            metric_i = metric_i[:-(n_specials + 1)]
 
         _metric = []
         _indices = []
diff --git a/optbinning/scorecard/counterfactual/problem_data.py b/optbinning/scorecard/counterfactual/problem_data.py
index 2b0131b..22cb8c2 100644
--- a/optbinning/scorecard/counterfactual/problem_data.py
+++ b/optbinning/scorecard/counterfactual/problem_data.py
@@ -12,14 +12,6 @@ def problem_data(scorecard, X):
     s_vars = X.columns
     n_vars = X.shape[1]
 
-    # Scorecard table
-    sc = scorecard.table(style="detailed")
-
-    if scorecard._target_dtype == "binary":
-        sc["Points"] = sc["WoE"] * sc["Coefficient"]
-    else:
-        sc["Points"] = sc["Mean"] * sc["Coefficient"]
-
     # Linear model coefficients
 
     # Only index into the intercept if it is an array, it is a scalar otherwise
@@ -37,7 +29,7 @@ def problem_data(scorecard, X):
     wrange = np.empty(n_vars)
 
     for i, v in enumerate(s_vars):
-        v_points = sc[sc["Variable"] == v]["Points"]
+        v_points = scorecard._bin_metrics[v] * coef[i]
         _min = np.min(v_points)
         _max = np.max(v_points)
         min_p += _min
@@ -49,8 +41,10 @@ def problem_data(scorecard, X):
     max_p += intercept
 
     # Mahalanobis distance
-    Xt = scorecard.binning_process_.transform(X).values
-    F = np.linalg.cholesky(np.linalg.inv(np.cov(Xt.T)))
+    Xt = scorecard.binning_process_.transform(
+        X, metric_special=scorecard._metric_special,
+        metric_missing=scorecard._metric_missing).values
+    F = np.linalg.cholesky(np.linalg.inv(np.atleast_2d(np.cov(Xt.T))))
     mu = Xt.mean(axis=0)
 
     return intercept, coef, min_p, max_p, wrange, F, mu
diff --git a/optbinning/scorecard/scorecard.py b/optbinning/scorecard/scorecard.py
index 2cef890..f9066c2 100644
--- a/optbinning/scorecard/scorecard.py
+++ b/optbinning/scorecard/scorecard.py
@@ -249,6 +249,7 @@ class Scorecard(Base, BaseEstimator):
 
         self._metric_special = None
         self._metric_missing = None
+        self._bin_metrics = None
 
         # auxiliary
         self._target_dtype = None
@@ -589,6 +590,7 @@ class Scorecard(Base, BaseEstimator):
 
         selected_variables = self.binning_process_.get_support(names=True)
         transform_params = self.binning_process_.binning_transform_params or {}
+        self._bin_metrics = {}
         binning_tables = []
         for i, variable in enumerate(selected_variables):
             # Options for this variable override the scorecard options
@@ -603,8 +605,9 @@ class Scorecard(Base, BaseEstimator):
             c = coefs[i]
             binning_table.loc[:, "Variable"] = variable
             binning_table.loc[:, "Coefficient"] = c
-            binning_table.loc[:, "Points"] = binning_table[column] * c
 
+            # Value of each bin in the reduced dataset
+            bin_metric = binning_table[column].values.astype(float)
             nt = len(binning_table)
             if special != 'empirical':
                 if isinstance(optb.special_codes, dict):
@@ -612,10 +615,12 @@ class Scorecard(Base, BaseEstimator):
                 else:
                     n_specials = 1
 
-                binning_table.loc[
-                    nt-1-n_specials:nt-2, "Points"] = special * c
+                bin_metric[nt-1-n_specials:nt-1] = special
             if missing != 'empirical':
-                binning_table.loc[nt-1, "Points"] = missing * c
+                bin_metric[nt-1] = missing
+
+            self._bin_metrics[variable] = bin_metric
+            binning_table.loc[:, "Points"] = bin_metric * c
 
             binning_table.index.names = ['Bin id']
             binning_table.reset_index(level=0, inplace=True)
-- 
2.43.0


From 3a102059f6a08a859d5ab1aa6bb51dae7cb9cbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:11 +0000
Subject: [PATCH 073/110] fix: identify the query's own bin with floating point
 tolerance

---
 optbinning/scorecard/counterfactual/model_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/optbinning/scorecard/counterfactual/model_data.py b/optbinning/scorecard/counterfactual/model_data.py
index 0b4c122..a060c1d 100644
--- a/optbinning/scorecard/counterfactual/model_data.py
+++ b/optbinning/scorecard/counterfactual/model_data.py
@@ -5,6 +5,8 @@ Counterfactual model data.
 # Guillermo Navas-Palencia <g.navas.palencia@gmail.com>
 # Copyright (C) 2021
 
+import numpy as np
+
 
 def model_data(scorecard, x, special_missing):
     s_vars = scorecard.binning_process_.get_support(names=True)
@@ -28,7 +30,7 @@ def model_data(scorecard, x, special_missing):
         _metric = []
         _indices = []
         for j, m in enumerate(metric_i):
-            if m != x[i]:
+            if not np.isclose(m, x[i]):
                 _indices.append(j)
                 _metric.append(m)
 
-- 
2.43.0


From d3ba62c3bb3f8ed93d1942e2dc1011028ebbaf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:11 +0000
Subject: [PATCH 074/110] fix: compute the Kolmogorov-Smirnov statistic from
 complete cumulative counts

---
 optbinning/metrics/classification.py | 10 ++++++++--
 optbinning/scorecard/plots.py        | 10 +++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/optbinning/metrics/classification.py b/optbinning/metrics/classification.py
index ab8cd80..cd20653 100644
--- a/optbinning/metrics/classification.py
+++ b/optbinning/metrics/classification.py
@@ -46,21 +46,27 @@ def ks(y_true, y_pred_proba):
     -------
     ks : tuple(ks_score, ks_position)
     """
+    y_true = np.asarray(y_true)
+    y_pred_proba = np.asarray(y_pred_proba)
+
     n_samples = y_true.shape[0]
     n_event = np.sum(y_true)
     n_nonevent = n_samples - n_event
 
     idx = np.argsort(y_pred_proba)
     yy = y_true[idx]
+    pp = y_pred_proba[idx]
 
     cum_event = np.cumsum(yy)
-    cum_population = np.arange(0, n_samples)
+    cum_population = np.arange(1, n_samples + 1)
     cum_nonevent = cum_population - cum_event
 
     p_event = cum_event / n_event
     p_nonevent = cum_nonevent / n_nonevent
 
-    p_diff = p_nonevent - p_event
+    # The distributions are only defined after the last of tied scores
+    last = np.append(pp[1:] != pp[:-1], True)
+    p_diff = np.where(last, p_nonevent - p_event, -np.inf)
     ks_max_idx = np.argmax(p_diff)
     ks_score = p_diff[ks_max_idx]
 
diff --git a/optbinning/scorecard/plots.py b/optbinning/scorecard/plots.py
index 1873ac5..a3f05d4 100644
--- a/optbinning/scorecard/plots.py
+++ b/optbinning/scorecard/plots.py
@@ -221,11 +221,15 @@ def plot_ks(y, y_pred, title=None, xlabel=None, ylabel=None,
     pp = y_pred[idx]
 
     cum_event = np.cumsum(yy)
-    cum_population = np.arange(0, n_samples)
+    cum_population = np.arange(1, n_samples + 1)
     cum_nonevent = cum_population - cum_event
 
-    p_event = cum_event / n_event
-    p_nonevent = cum_nonevent / n_nonevent
+    # The distributions are only defined after the last of tied scores
+    last = np.append(pp[1:] != pp[:-1], True)
+    pp = pp[last]
+
+    p_event = cum_event[last] / n_event
+    p_nonevent = cum_nonevent[last] / n_nonevent
 
     p_diff = p_nonevent - p_event
     ks_score = np.max(p_diff)
-- 
2.43.0


From b3238b292dab41c0e188ed92978c389cf2378d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:11 +0000
Subject: [PATCH 075/110] fix: draw the cumulative accuracy profile of tied
 scores

---
 optbinning/scorecard/plots.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/optbinning/scorecard/plots.py b/optbinning/scorecard/plots.py
index a3f05d4..61b4c8c 100644
--- a/optbinning/scorecard/plots.py
+++ b/optbinning/scorecard/plots.py
@@ -146,9 +146,13 @@ def plot_cap(y, y_pred, title=None, xlabel=None, ylabel=None,
 
     idx = y_pred.argsort()[::-1][:n_samples]
     yy = y[idx]
+    pp = y_pred[idx]
+
+    # Tied scores are accepted at the same time
+    last = np.concatenate(([True], pp[1:] != pp[:-1], [True]))
 
-    p_event = np.append([0], np.cumsum(yy)) / n_event
-    p_population = np.arange(0, n_samples + 1) / n_samples
+    p_event = np.append([0], np.cumsum(yy))[last] / n_event
+    p_population = np.arange(0, n_samples + 1)[last] / n_samples
 
     auroc = roc_auc_score(y, y_pred)
     gini = auroc * 2 - 1
-- 
2.43.0


From e2aa37e68a5f8b07173082b090e36b37895c51f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:11 +0000
Subject: [PATCH 076/110] fix: accept array-likes in percentage error metrics

---
 optbinning/metrics/regression.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/optbinning/metrics/regression.py b/optbinning/metrics/regression.py
index 3878473..1364cb9 100644
--- a/optbinning/metrics/regression.py
+++ b/optbinning/metrics/regression.py
@@ -29,6 +29,7 @@ def mean_absolute_percentage_error(y_true, y_pred):
     -------
     mape : float
     """
+    y_true, y_pred = np.asarray(y_true), np.asarray(y_pred)
     return np.abs((y_true - y_pred) / y_true).mean()
 
 
@@ -47,6 +48,7 @@ def median_absolute_percentage_error(y_true, y_pred):
     -------
     mdape : float
     """
+    y_true, y_pred = np.asarray(y_true), np.asarray(y_pred)
     return np.median(np.abs((y_true - y_pred) / y_true))
 
 
@@ -65,6 +67,7 @@ def mean_percentage_error(y_true, y_pred):
     -------
     mpe : float
     """
+    y_true, y_pred = np.asarray(y_true), np.asarray(y_pred)
     return ((y_true - y_pred) / y_true).mean()
 
 
@@ -83,6 +86,7 @@ def symmetric_mean_absolute_percentage_error(y_true, y_pred):
     -------
     smape : float
     """
+    y_true, y_pred = np.asarray(y_true), np.asarray(y_pred)
     e = np.abs(y_true - y_pred)
     return (e / (np.abs(y_true) + np.abs(y_pred))).mean()
 
@@ -102,6 +106,7 @@ def symmetric_median_absolute_percentage_error(y_true, y_pred):
     -------
     smdape : float
     """
+    y_true, y_pred = np.asarray(y_true), np.asarray(y_pred)
     e = np.abs(y_true - y_pred)
     return np.median(e / (np.abs(y_true) + np.abs(y_pred)))
 
-- 
2.43.0


From 604df7a44116a6eb10ff12fcf87ce8236e1de786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:12 +0000
Subject: [PATCH 077/110] fix: imbalanced classification metrics with a single
 label

---
 optbinning/metrics/classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/metrics/classification.py b/optbinning/metrics/classification.py
index cd20653..abf5e86 100644
--- a/optbinning/metrics/classification.py
+++ b/optbinning/metrics/classification.py
@@ -89,7 +89,7 @@ def imbalanced_classification_metrics(y_true, y_pred):
     metrics : dict
         Dictionary of metrics.
     """
-    tn, fp, fn, tp = confusion_matrix(y_true, y_pred).ravel()
+    tn, fp, fn, tp = confusion_matrix(y_true, y_pred, labels=[0, 1]).ravel()
 
     # Sensitivity - True positive rate (TPR)
     tpr = tp / (tp + fn)
-- 
2.43.0


From 4394d64141fadfe4c063da29866777d67d60a8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:12 +0000
Subject: [PATCH 078/110] fix: highest density interval covering the whole
 sample

---
 optbinning/binning/outlier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/outlier.py b/optbinning/binning/outlier.py
index 1537fb1..9bb45e9 100644
--- a/optbinning/binning/outlier.py
+++ b/optbinning/binning/outlier.py
@@ -108,7 +108,7 @@ class RangeDetector(BaseEstimator, OutlierDetector):
         else:
             n = len(x)
             xsorted = np.sort(x)
-            n_included = int(np.ceil(self.interval_length * n))
+            n_included = min(int(np.ceil(self.interval_length * n)), n - 1)
             n_ci = n - n_included
             ci = xsorted[n_included:] - xsorted[:n_ci]
             j = np.argmin(ci)
-- 
2.43.0


From 6bfa0d28f27d964206ea6c4a54e8392b1ea2cf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:12 +0000
Subject: [PATCH 079/110] fix: skip empty quantile bins in YQuantileDetector

---
 optbinning/binning/outlier.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/optbinning/binning/outlier.py b/optbinning/binning/outlier.py
index 9bb45e9..b28df6e 100644
--- a/optbinning/binning/outlier.py
+++ b/optbinning/binning/outlier.py
@@ -219,6 +219,9 @@ class YQuantileDetector(BaseEstimator, OutlierDetector):
 
         for i in range(n_bins):
             mask_x = indices == i
+            if not mask_x.any():
+                continue
+
             detector.fit(y[mask_x])
             mask_out = detector.get_support()
             idx_out = idx_support[mask_x][mask_out]
-- 
2.43.0


From 33dca916f7e9e28e7092c329f393ca81df3b369d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:12 +0000
Subject: [PATCH 080/110] fix: do not remove outliers twice in piecewise
 binning

---
 optbinning/binning/piecewise/base.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/optbinning/binning/piecewise/base.py b/optbinning/binning/piecewise/base.py
index 7302d6f..3add498 100644
--- a/optbinning/binning/piecewise/base.py
+++ b/optbinning/binning/piecewise/base.py
@@ -372,8 +372,6 @@ class BasePWBinning(Base, BaseEstimator):
                 monotonic_trend=monotonic_trend,
                 max_pvalue=self.max_pvalue,
                 max_pvalue_policy=self.max_pvalue_policy,
-                outlier_detector=self.outlier_detector,
-                outlier_params=self.outlier_params,
                 user_splits=self.user_splits,
                 user_splits_fixed=self.user_splits_fixed,
                 split_digits=self.split_digits)
@@ -391,8 +389,6 @@ class BasePWBinning(Base, BaseEstimator):
                 monotonic_trend=monotonic_trend,
                 max_pvalue=self.max_pvalue,
                 max_pvalue_policy=self.max_pvalue_policy,
-                outlier_detector=self.outlier_detector,
-                outlier_params=self.outlier_params,
                 user_splits=self.user_splits,
                 user_splits_fixed=self.user_splits_fixed,
                 split_digits=self.split_digits)
-- 
2.43.0


From eb5b7ce50784cec978999c4e0df276f5869c4e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:44 +0000
Subject: [PATCH 081/110] fix: restore the fitted state when reading a binning
 table from JSON

---
 optbinning/binning/base.py               | 35 ++++++++++++++++++++++++
 optbinning/binning/binning.py            | 23 +++++++++++-----
 optbinning/binning/continuous_binning.py | 29 ++++++++++++++------
 optbinning/binning/multiclass_binning.py | 19 ++++++++-----
 4 files changed, 84 insertions(+), 22 deletions(-)

diff --git a/optbinning/binning/base.py b/optbinning/binning/base.py
index c658c23..a1f0167 100644
--- a/optbinning/binning/base.py
+++ b/optbinning/binning/base.py
@@ -8,10 +8,45 @@ Base optimal binning algorithm class.
 from abc import ABCMeta
 from abc import abstractmethod
 
+import numpy as np
+
 from sklearn.base import BaseEstimator
 from sklearn.exceptions import NotFittedError
 
 
+def json_default(obj):
+    """Convert numpy arrays and scalars to JSON serializable objects."""
+    if isinstance(obj, np.ndarray):
+        return obj.tolist()
+    if isinstance(obj, np.generic):
+        return obj.item()
+
+    raise TypeError("Object of type {} is not JSON serializable."
+                    .format(type(obj).__name__))
+
+
+def json_to_arrays(attributes):
+    """Convert the binning table attributes read from a JSON file to the types
+    used by the binning tables."""
+    attributes = dict(attributes)
+    grouped = attributes.get("user_splits") is not None
+
+    for key, value in attributes.items():
+        if key in ("categories", "cat_others") and value is not None:
+            array = np.empty(len(value), dtype=object)
+            for i, v in enumerate(value):
+                if key == "categories" and grouped:
+                    array[i] = np.array(v, dtype=object)
+                else:
+                    array[i] = v
+            attributes[key] = array
+        elif key not in ("special_codes", "user_splits") and isinstance(
+                value, list):
+            attributes[key] = np.array(value)
+
+    return attributes
+
+
 class Base:
     def _check_is_fitted(self):
         if not self._is_fitted:
diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index a6d8094..b1af2b9 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -19,6 +19,8 @@ from ..logging import Logger
 from .auto_monotonic import auto_monotonic
 from .auto_monotonic import peak_valley_trend_change_heuristic
 from .base import BaseOptimalBinning
+from .base import json_default
+from .base import json_to_arrays
 from .binning_information import print_binning_information
 from .binning_statistics import bin_categorical
 from .binning_statistics import bin_info
@@ -1228,7 +1230,7 @@ class OptimalBinning(BaseOptimalBinning):
         opt_bin_dict['user_splits'] = table.user_splits
 
         with open(path, "w") as write_file:
-            json.dump(opt_bin_dict, write_file)
+            json.dump(opt_bin_dict, write_file, default=json_default)
 
     def read_json(self, path):
         """
@@ -1239,13 +1241,20 @@ class OptimalBinning(BaseOptimalBinning):
         ----------
         path: The path of the json file.
         """
-        self._is_fitted = True
-
         with open(path, "r") as read_file:
             bin_table_attr = json.load(read_file)
 
-        for key in bin_table_attr.keys():
-            if isinstance(bin_table_attr[key], list):
-                bin_table_attr[key] = np.array(bin_table_attr[key])
+        table = BinningTable(**json_to_arrays(bin_table_attr))
 
-        self._binning_table = BinningTable(**bin_table_attr)
+        self.name = table.name
+        self.special_codes = table.special_codes
+        self.dtype = table.dtype
+        self.user_splits = table.user_splits
+
+        self._categories = table.categories
+        self._cat_others = table.cat_others
+        self._splits_optimal = table.splits
+        self._n_nonevent = table.n_nonevent
+        self._n_event = table.n_event
+        self._binning_table = table
+        self._is_fitted = True
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index b07fcf4..0d9946a 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -17,6 +17,8 @@ from ..information import solver_statistics
 from ..logging import Logger
 from .auto_monotonic import auto_monotonic_continuous
 from .auto_monotonic import peak_valley_trend_change_heuristic
+from .base import json_default
+from .base import json_to_arrays
 from .binning import OptimalBinning
 from .binning_statistics import continuous_bin_info
 from .binning_statistics import ContinuousBinningTable
@@ -1036,7 +1038,7 @@ class ContinuousOptimalBinning(OptimalBinning):
         opt_bin_dict['user_splits'] = table.user_splits
 
         with open(path, "w") as write_file:
-            json.dump(opt_bin_dict, write_file)
+            json.dump(opt_bin_dict, write_file, default=json_default)
 
     def read_json(self, path):
         """
@@ -1050,13 +1052,24 @@ class ContinuousOptimalBinning(OptimalBinning):
         if path is None:
             raise ValueError('Specify the path for the json file.')
 
-        self._is_fitted = True
-
         with open(path, "r") as read_file:
             cont_table_attr = json.load(read_file)
 
-        for key in cont_table_attr.keys():
-            if isinstance(cont_table_attr[key], list):
-                cont_table_attr[key] = np.array(cont_table_attr[key])
-
-        self._binning_table = ContinuousBinningTable(**cont_table_attr)
+        table = ContinuousBinningTable(**json_to_arrays(cont_table_attr))
+
+        self.name = table.name
+        self.special_codes = table.special_codes
+        self.dtype = table.dtype
+        self.user_splits = table.user_splits
+
+        self._categories = table.categories
+        self._cat_others = table.cat_others
+        self._splits_optimal = table.splits
+        self._n_records = table.n_records
+        self._sums = table.sums
+        self._stds = table.stds
+        self._min_target = table.min_target
+        self._max_target = table.max_target
+        self._n_zeros = table.n_zeros
+        self._binning_table = table
+        self._is_fitted = True
diff --git a/optbinning/binning/multiclass_binning.py b/optbinning/binning/multiclass_binning.py
index eb322dd..1c0e174 100644
--- a/optbinning/binning/multiclass_binning.py
+++ b/optbinning/binning/multiclass_binning.py
@@ -17,6 +17,8 @@ from ..information import solver_statistics
 from ..logging import Logger
 from .auto_monotonic import auto_monotonic
 from .auto_monotonic import peak_valley_trend_change_heuristic
+from .base import json_default
+from .base import json_to_arrays
 from .binning import OptimalBinning
 from .binning_statistics import multiclass_bin_info
 from .binning_statistics import MulticlassBinningTable
@@ -909,7 +911,7 @@ class MulticlassOptimalBinning(OptimalBinning):
         opt_bin_dict['classes'] = table.classes.tolist()
 
         with open(path, "w") as write_file:
-            json.dump(opt_bin_dict, write_file)
+            json.dump(opt_bin_dict, write_file, default=json_default)
 
     def read_json(self, path):
         """
@@ -923,13 +925,16 @@ class MulticlassOptimalBinning(OptimalBinning):
         if path is None:
             raise ValueError('Specify the path for the json file.')
 
-        self._is_fitted = True
-
         with open(path, "r") as read_file:
             multi_table_attr = json.load(read_file)
 
-        for key in multi_table_attr.keys():
-            if isinstance(multi_table_attr[key], list):
-                multi_table_attr[key] = np.array(multi_table_attr[key])
+        table = MulticlassBinningTable(**json_to_arrays(multi_table_attr))
 
-        self._binning_table = MulticlassBinningTable(**multi_table_attr)
+        self.name = table.name
+        self.special_codes = table.special_codes
+        self._splits_optimal = table.splits
+        self._n_event = table.n_event
+        self._classes = table.classes
+        self._n_classes = len(table.classes)
+        self._binning_table = table
+        self._is_fitted = True
-- 
2.43.0


From 211619b1ff5c8c32e6424849de360d9c60006930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:57 +0000
Subject: [PATCH 082/110] fix: do not answer with a partly overwritten fit
 after a failing refit

---
 optbinning/binning/binning.py                                | 2 ++
 optbinning/binning/binning_process.py                        | 2 ++
 optbinning/binning/continuous_binning.py                     | 2 ++
 optbinning/binning/multiclass_binning.py                     | 2 ++
 optbinning/binning/multidimensional/binning_2d.py            | 2 ++
 optbinning/binning/multidimensional/continuous_binning_2d.py | 2 ++
 optbinning/binning/piecewise/binning.py                      | 2 ++
 optbinning/binning/piecewise/continuous_binning.py           | 2 ++
 optbinning/binning/uncertainty/binning_scenarios.py          | 2 ++
 optbinning/scorecard/scorecard.py                            | 2 ++
 10 files changed, 20 insertions(+)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index b1af2b9..a479ae7 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -700,6 +700,8 @@ class OptimalBinning(BaseOptimalBinning):
                                   self._n_refinements, dict_user_options)
 
     def _fit(self, x, y, sample_weight, check_input):
+        self._is_fitted = False
+
         time_init = time.perf_counter()
 
         if self.verbose:
diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 6f1f803..f197403 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -1067,6 +1067,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
             return mask
 
     def _fit(self, X, y, sample_weight, check_input):
+        self._is_fitted = False
+
         time_init = time.perf_counter()
 
         if self.verbose:
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index 0d9946a..8db38e8 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -548,6 +548,8 @@ class ContinuousOptimalBinning(OptimalBinning):
                                            check_input)
 
     def _fit(self, x, y, sample_weight, check_input):
+        self._is_fitted = False
+
         time_init = time.perf_counter()
 
         if self.verbose:
diff --git a/optbinning/binning/multiclass_binning.py b/optbinning/binning/multiclass_binning.py
index 1c0e174..0114bba 100644
--- a/optbinning/binning/multiclass_binning.py
+++ b/optbinning/binning/multiclass_binning.py
@@ -493,6 +493,8 @@ class MulticlassOptimalBinning(OptimalBinning):
                                            check_input)
 
     def _fit(self, x, y, check_input):
+        self._is_fitted = False
+
         time_init = time.perf_counter()
 
         if self.verbose:
diff --git a/optbinning/binning/multidimensional/binning_2d.py b/optbinning/binning/multidimensional/binning_2d.py
index ac66cb1..e6b0f91 100644
--- a/optbinning/binning/multidimensional/binning_2d.py
+++ b/optbinning/binning/multidimensional/binning_2d.py
@@ -556,6 +556,8 @@ class OptimalBinning2D(OptimalBinning):
             show_digits, check_input)
 
     def _fit(self, x, y, z, check_input):
+        self._is_fitted = False
+
         time_init = time.perf_counter()
 
         if self.verbose:
diff --git a/optbinning/binning/multidimensional/continuous_binning_2d.py b/optbinning/binning/multidimensional/continuous_binning_2d.py
index f24102e..ee6834a 100644
--- a/optbinning/binning/multidimensional/continuous_binning_2d.py
+++ b/optbinning/binning/multidimensional/continuous_binning_2d.py
@@ -481,6 +481,8 @@ class ContinuousOptimalBinning2D(OptimalBinning2D):
             show_digits, check_input)
 
     def _fit(self, x, y, z, check_input):
+        self._is_fitted = False
+
         time_init = time.perf_counter()
 
         if self.verbose:
diff --git a/optbinning/binning/piecewise/binning.py b/optbinning/binning/piecewise/binning.py
index 73eb33b..f60b657 100644
--- a/optbinning/binning/piecewise/binning.py
+++ b/optbinning/binning/piecewise/binning.py
@@ -304,6 +304,8 @@ class OptimalPWBinning(BasePWBinning):
             check_input)
 
     def _fit(self, x, y, lb, ub, check_input):
+        self._is_fitted = False
+
         time_init = time.perf_counter()
 
         if self.verbose:
diff --git a/optbinning/binning/piecewise/continuous_binning.py b/optbinning/binning/piecewise/continuous_binning.py
index b80500a..60ae9aa 100644
--- a/optbinning/binning/piecewise/continuous_binning.py
+++ b/optbinning/binning/piecewise/continuous_binning.py
@@ -287,6 +287,8 @@ class ContinuousOptimalPWBinning(BasePWBinning):
             self.special_codes, metric_special, metric_missing, check_input)
 
     def _fit(self, x, y, lb, ub, check_input):
+        self._is_fitted = False
+
         time_init = time.perf_counter()
 
         if self.verbose:
diff --git a/optbinning/binning/uncertainty/binning_scenarios.py b/optbinning/binning/uncertainty/binning_scenarios.py
index 23556a1..af1e944 100644
--- a/optbinning/binning/uncertainty/binning_scenarios.py
+++ b/optbinning/binning/uncertainty/binning_scenarios.py
@@ -467,6 +467,8 @@ class SBOptimalBinning(OptimalBinning):
                                        check_input)
 
     def _fit(self, X, Y, weights, check_input):
+        self._is_fitted = False
+
         time_init = time.perf_counter()
 
         # Check parameters and input arrays
diff --git a/optbinning/scorecard/scorecard.py b/optbinning/scorecard/scorecard.py
index f9066c2..e83333d 100644
--- a/optbinning/scorecard/scorecard.py
+++ b/optbinning/scorecard/scorecard.py
@@ -491,6 +491,8 @@ class Scorecard(Base, BaseEstimator):
 
     def _fit(self, X, y, sample_weight, metric_special, metric_missing,
              show_digits, check_input):
+        self._is_fitted = False
+
 
         # Store the metrics for missing and special bins for predictions
         self._metric_special = metric_special
-- 
2.43.0


From 1b92955cdfb3759f0667b4399680b1db1b416138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:03 +0000
Subject: [PATCH 083/110] fix: refuse queries of outlier detectors that are not
 fitted

---
 optbinning/binning/outlier.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/outlier.py b/optbinning/binning/outlier.py
index b28df6e..1a9bae7 100644
--- a/optbinning/binning/outlier.py
+++ b/optbinning/binning/outlier.py
@@ -15,11 +15,10 @@ from sklearn.exceptions import NotFittedError
 
 class OutlierDetector:
     """Base class for all outlier detectors."""
-    def __init__(self):
-        self._support = None
+    _support = None
 
-        # flag
-        self._is_fitted = False
+    # flag
+    _is_fitted = False
 
     def fit(self, x, y=None):
         """Fit outlier detector.
@@ -34,6 +33,7 @@ class OutlierDetector:
         -------
         self : OutlierDetector
         """
+        self._is_fitted = False
         self._fit(x, y)
 
         return self
-- 
2.43.0


From 4e42a67032a34d08f4d80401b0a22613987f7510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:12 +0000
Subject: [PATCH 084/110] fix: require build before analysis of 2D binning
 tables

---
 optbinning/binning/multidimensional/binning_statistics_2d.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/optbinning/binning/multidimensional/binning_statistics_2d.py b/optbinning/binning/multidimensional/binning_statistics_2d.py
index 5225575..8ef1dd4 100644
--- a/optbinning/binning/multidimensional/binning_statistics_2d.py
+++ b/optbinning/binning/multidimensional/binning_statistics_2d.py
@@ -482,6 +482,8 @@ class BinningTable2D(BinningTable):
         `scipy.stats.fisher_exact <https://docs.scipy.org/doc/scipy/reference/
         generated/scipy.stats.fisher_exact.html>`_.
         """
+        _check_is_built(self)
+
         # Pairs
         pairs = get_pairs(self._paths_x, self._paths_y)
 
@@ -851,6 +853,8 @@ class ContinuousBinningTable2D(ContinuousBinningTable):
         the total target mean, :math:`r_i` is the number of records for each
         bin, and :math:`r_T` is the total number of records.
         """
+        _check_is_built(self)
+
         # Pairs
         pairs = get_pairs(self._paths_x, self._paths_y)
 
-- 
2.43.0


From c311dbda93a6819bf6bdefbd5905b0d0d95388d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:29 +0000
Subject: [PATCH 085/110] fix: plain values in the labels of user-defined
 categorical bins

---
 optbinning/binning/binning_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index 46fbed0..0a5bfd6 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -98,7 +98,7 @@ def bin_categorical(splits_categorical, categories, cat_others, user_splits):
         for bin in bins:
             new_bin = []
             for cat in bin:
-                new_bin.extend(list(cat))
+                new_bin.extend(np.asarray(cat).tolist())
             new_bins.append(new_bin)
 
         bins = new_bins
-- 
2.43.0


From 3c2ae1881700c06cbfc650519a4f0072ca1faf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:39 +0000
Subject: [PATCH 086/110] fix: pass bounds and check_input in the piecewise
 fit_transform

---
 optbinning/binning/piecewise/continuous_binning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/piecewise/continuous_binning.py b/optbinning/binning/piecewise/continuous_binning.py
index 60ae9aa..b412d16 100644
--- a/optbinning/binning/piecewise/continuous_binning.py
+++ b/optbinning/binning/piecewise/continuous_binning.py
@@ -242,7 +242,7 @@ class ContinuousOptimalPWBinning(BasePWBinning):
         x_new : numpy array, shape = (n_samples,)
             Transformed array.
         """
-        return self.fit(x, y, check_input).transform(
+        return self.fit(x, y, lb, ub, check_input).transform(
             x, metric_special, metric_missing, lb, ub, check_input)
 
     def transform(self, x, metric_special=0, metric_missing=0,
-- 
2.43.0


From 15235203a80759ed8dbd6886f9d7ed61ab5f1ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:06 +0000
Subject: [PATCH 087/110] fix: pass special and missing counts in order to the
 piecewise transform

---
 optbinning/binning/piecewise/transformations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/piecewise/transformations.py b/optbinning/binning/piecewise/transformations.py
index 9ead4b1..2000fae 100644
--- a/optbinning/binning/piecewise/transformations.py
+++ b/optbinning/binning/piecewise/transformations.py
@@ -59,8 +59,8 @@ def _apply_transform(x, c, lb, ub, special_codes, metric_special,
 
 
 def transform_binary_target(splits, x, c, lb, ub, n_nonevent, n_event,
-                            n_event_special, n_nonevent_special,
-                            n_event_missing, n_nonevent_missing,
+                            n_nonevent_special, n_event_special,
+                            n_nonevent_missing, n_event_missing,
                             special_codes, metric, metric_special,
                             metric_missing, check_input=False):
 
-- 
2.43.0


From 05e465293ed97e8367e820d48dbd5a72401e9bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:59 +0000
Subject: [PATCH 088/110] fix: do not keep the missing row statistics of a
 previous piecewise fit

---
 optbinning/binning/piecewise/continuous_binning.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/optbinning/binning/piecewise/continuous_binning.py b/optbinning/binning/piecewise/continuous_binning.py
index b412d16..e5f67d7 100644
--- a/optbinning/binning/piecewise/continuous_binning.py
+++ b/optbinning/binning/piecewise/continuous_binning.py
@@ -364,6 +364,10 @@ class ContinuousOptimalPWBinning(BasePWBinning):
             self._std_missing = np.std(y_missing)
             self._min_target_missing = np.min(y_missing)
             self._max_target_missing = np.max(y_missing)
+        else:
+            self._std_missing = None
+            self._min_target_missing = None
+            self._max_target_missing = None
 
         bt = self._optb.binning_table.build(add_totals=False)
         n_records = bt["Count"].values[:-2]
-- 
2.43.0


From 5683650ca00254f779ff2c44106c88685e15cecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:54 +0000
Subject: [PATCH 089/110] fix: exclude all special rows from the piecewise
 significance tests

---
 optbinning/binning/piecewise/binning_statistics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/piecewise/binning_statistics.py b/optbinning/binning/piecewise/binning_statistics.py
index 3092256..9e5f564 100644
--- a/optbinning/binning/piecewise/binning_statistics.py
+++ b/optbinning/binning/piecewise/binning_statistics.py
@@ -316,7 +316,7 @@ class PWBinningTable(BinningTable):
 
         # Significance tests
         n_bins = len(self._n_records)
-        n_metric = n_bins - 2
+        n_metric = n_bins - 1 - self._n_specials
 
         n_nev = self.n_nonevent[:n_metric]
         n_ev = self.n_event[:n_metric]
@@ -628,7 +628,7 @@ class PWContinuousBinningTable:
 
         # Significance tests
         n_bins = len(self.n_records)
-        n_metric = n_bins - 2
+        n_metric = n_bins - 1 - self._n_specials
 
         n_records = self.n_records[:n_metric]
         mean = self._mean[:n_metric]
-- 
2.43.0


From 8de36cc422e45279b6a3d5d1038597e6ec93ab84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:47 +0000
Subject: [PATCH 090/110] fix: default WoE of pure special and missing values
 in piecewise binning

---
 .../binning/piecewise/transformations.py      | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/optbinning/binning/piecewise/transformations.py b/optbinning/binning/piecewise/transformations.py
index 2000fae..6547bf4 100644
--- a/optbinning/binning/piecewise/transformations.py
+++ b/optbinning/binning/piecewise/transformations.py
@@ -93,23 +93,23 @@ def transform_binary_target(splits, x, c, lb, ub, n_nonevent, n_event,
     event_rate_missing = metric_missing
 
     if metric_special == "empirical":
-        n_event_special = np.asarray(n_event_special)
-        n_nonevent_special = np.asarray(n_nonevent_special)
+        n_event_special = np.atleast_1d(n_event_special)
+        n_nonevent_special = np.atleast_1d(n_nonevent_special)
 
-        event_rate_special = np.zeros(n_special)
+        event_rate_special = np.zeros(n_event_special.shape)
         n_records_special = n_event_special + n_nonevent_special
 
         mask = (n_event_special > 0) & (n_nonevent_special > 0)
 
-        if n_special > 1:
-            event_rate_special[mask] = (
-                n_event_special[mask] / n_records_special[mask])
-        elif mask:
-            event_rate_special = n_event_special / n_records_special
+        event_rate_special[mask] = (
+            n_event_special[mask] / n_records_special[mask])
 
         if metric == "woe":
-            event_rate_special = transform_event_rate_to_woe(
-                event_rate_special, n_nonevent, n_event)
+            # Default woe is 0
+            woe_special = np.zeros(event_rate_special.shape)
+            woe_special[mask] = transform_event_rate_to_woe(
+                event_rate_special[mask], n_nonevent, n_event)
+            event_rate_special = woe_special
 
     if metric_missing == "empirical":
         n_records_missing = n_event_missing + n_nonevent_missing
@@ -120,8 +120,12 @@ def transform_binary_target(splits, x, c, lb, ub, n_nonevent, n_event,
             event_rate_missing = 0
 
         if metric == "woe":
-            event_rate_missing = transform_event_rate_to_woe(
-                event_rate_missing, n_nonevent, n_event)
+            # Default woe is 0
+            if n_event_missing > 0 and n_nonevent_missing > 0:
+                event_rate_missing = transform_event_rate_to_woe(
+                    event_rate_missing, n_nonevent, n_event)
+            else:
+                event_rate_missing = 0
 
     x_transform = _apply_transform(
         x, c, lb, ub, special_codes, metric_special, metric_missing,
-- 
2.43.0


From 73d6c66db2e95451be24862bf6e2a9ca4137ab0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:43 +0000
Subject: [PATCH 091/110] fix: special codes given as an array in the piecewise
 transform

---
 optbinning/binning/piecewise/transformations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/piecewise/transformations.py b/optbinning/binning/piecewise/transformations.py
index 6547bf4..6f15be6 100644
--- a/optbinning/binning/piecewise/transformations.py
+++ b/optbinning/binning/piecewise/transformations.py
@@ -34,7 +34,7 @@ def _apply_transform(x, c, lb, ub, special_codes, metric_special,
 
     x_transform[clean_mask] = x_clean_transform
 
-    if special_codes:
+    if special_codes is not None:
         if isinstance(special_codes, dict):
             xt = pd.Series(x)
             for i, (k, s) in enumerate(special_codes.items()):
-- 
2.43.0


From 5b01f1d09fa87ebec19a5391bda219458ca017aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:36 +0000
Subject: [PATCH 092/110] fix: automatic trend of discontinuous piecewise
 binning

---
 optbinning/binning/piecewise/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/optbinning/binning/piecewise/base.py b/optbinning/binning/piecewise/base.py
index 3add498..74c9e14 100644
--- a/optbinning/binning/piecewise/base.py
+++ b/optbinning/binning/piecewise/base.py
@@ -439,6 +439,10 @@ class BasePWBinning(Base, BaseEstimator):
             monotonic = type_of_monotonic_trend(mean)
             if monotonic in ("undefined", "no monotonic"):
                 monotonic = None
+            elif not self.continuous and monotonic not in ("ascending",
+                                                           "descending"):
+                # Peak and valley require a continuous function
+                monotonic = None
             elif "peak" in monotonic:
                 monotonic = "peak"
             elif "valley" in monotonic:
-- 
2.43.0


From a22ec4dbd86ba0e7edae40ce35b292300d3d6718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:39 +0000
Subject: [PATCH 093/110] fix: scenario weights are not truncated to integers

---
 optbinning/binning/cp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/cp.py b/optbinning/binning/cp.py
index eb850cb..51ea03c 100644
--- a/optbinning/binning/cp.py
+++ b/optbinning/binning/cp.py
@@ -187,8 +187,9 @@ class BinningCP:
         n_scenarios = len(w)
 
         if w is not None:
-            sw = 10 ** np.abs(np.log10(np.min(w)))
-            w = [np.int64(w[s] * sw) for s in range(n_scenarios)]
+            # Integer weights proportional to the scenarios weights
+            sw = 1e4 / np.max(w)
+            w = [int(round(w[s] * sw)) for s in range(n_scenarios)]
 
         # Initialize model
         model = cp_model.CpModel()
-- 
2.43.0


From 5e81d765b21b21e566926a9b2b99d1c39b7c57db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:33 +0000
Subject: [PATCH 094/110] fix: SBOptimalBinning handles a single prebin

---
 optbinning/binning/uncertainty/binning_scenarios.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/optbinning/binning/uncertainty/binning_scenarios.py b/optbinning/binning/uncertainty/binning_scenarios.py
index af1e944..bbf8704 100644
--- a/optbinning/binning/uncertainty/binning_scenarios.py
+++ b/optbinning/binning/uncertainty/binning_scenarios.py
@@ -580,6 +580,12 @@ class SBOptimalBinning(OptimalBinning):
         min_x = np.inf
         max_x = -np.inf
 
+        if not len(splits):
+            # Single bin containing all clean records of each scenario
+            clean_info = [target_info(y_c) for y_c in y_clean]
+            n_nonevent = np.array([[info[0] for info in clean_info]])
+            n_event = np.array([[info[1] for info in clean_info]])
+
         for s in range(self._n_scenarios):
             min_xs = x_clean[s].min()
             max_xs = x_clean[s].max()
-- 
2.43.0


From 523f77165b5aaeb3e1f4beee9d37e571201c1433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:56 +0000
Subject: [PATCH 095/110] fix: 2D binning counts a record that is missing and
 special once

---
 optbinning/binning/multidimensional/preprocessing_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/multidimensional/preprocessing_2d.py b/optbinning/binning/multidimensional/preprocessing_2d.py
index 11d4b74..82d9bfd 100644
--- a/optbinning/binning/multidimensional/preprocessing_2d.py
+++ b/optbinning/binning/multidimensional/preprocessing_2d.py
@@ -88,7 +88,7 @@ def split_data_2d(dtype_x, dtype_y, x, y, z, special_codes_x=None,
         special_mask_y = np.zeros(len(y), dtype=bool)
 
     missing_mask = missing_mask_x | missing_mask_y
-    special_mask = special_mask_x | special_mask_y
+    special_mask = (special_mask_x | special_mask_y) & ~missing_mask
 
     clean_mask = ~missing_mask & ~special_mask
 
-- 
2.43.0


From 3a8f6cfcdc791a360297a47fe8dda0c99dd53709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:49 +0000
Subject: [PATCH 096/110] fix: 2D transform of special codes given as an array

---
 .../binning/multidimensional/transformations_2d.py  | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/optbinning/binning/multidimensional/transformations_2d.py b/optbinning/binning/multidimensional/transformations_2d.py
index c3ff7c4..6e25973 100644
--- a/optbinning/binning/multidimensional/transformations_2d.py
+++ b/optbinning/binning/multidimensional/transformations_2d.py
@@ -87,13 +87,12 @@ def _apply_transform(dtype_x, dtype_y, splits_x, splits_y, special_codes_x,
 
     z_transform[clean_mask] = z_clean_transform
 
-    if special_codes_x or special_codes_y:
-        if (metric_special == "empirical" or
-            (metric == "indices" and not isinstance(metric_special, int)) or
-                metric == "bins"):
-            z_transform[special_mask] = metric_value[n_bins]
-        else:
-            z_transform[special_mask] = metric_special
+    if (metric_special == "empirical" or
+        (metric == "indices" and not isinstance(metric_special, int)) or
+            metric == "bins"):
+        z_transform[special_mask] = metric_value[n_bins]
+    else:
+        z_transform[special_mask] = metric_special
 
     if (metric_missing == "empirical" or
         (metric == "indices" and not isinstance(metric_missing, int)) or
-- 
2.43.0


From 8211e85e688cd47cdc472635e827e5e7991032ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:41 +0000
Subject: [PATCH 097/110] fix: 2D transform of an unseen category has no bin
 index

---
 optbinning/binning/multidimensional/transformations_2d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/optbinning/binning/multidimensional/transformations_2d.py b/optbinning/binning/multidimensional/transformations_2d.py
index 6e25973..0665553 100644
--- a/optbinning/binning/multidimensional/transformations_2d.py
+++ b/optbinning/binning/multidimensional/transformations_2d.py
@@ -62,6 +62,8 @@ def _apply_transform(dtype_x, dtype_y, splits_x, splits_y, special_codes_x,
 
     if metric == "bins":
         z_clean_transform = np.full(x_clean.shape, "", dtype=object)
+    elif metric == "indices":
+        z_clean_transform = np.full(x_clean.shape, -1, dtype=int)
     else:
         z_clean_transform = np.zeros(x_clean.shape)
 
-- 
2.43.0


From 3098a6cd27b246be2bc5b5abcf1dcdbf8730eae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:34 +0000
Subject: [PATCH 098/110] fix: 2D binning when all the rectangles have the same
 size

---
 optbinning/binning/multidimensional/binning_2d.py            | 4 ++--
 optbinning/binning/multidimensional/continuous_binning_2d.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/multidimensional/binning_2d.py b/optbinning/binning/multidimensional/binning_2d.py
index e6b0f91..982348a 100644
--- a/optbinning/binning/multidimensional/binning_2d.py
+++ b/optbinning/binning/multidimensional/binning_2d.py
@@ -699,12 +699,12 @@ class OptimalBinning2D(OptimalBinning):
         D = np.empty(m * n, dtype=float)
         P = np.empty(m * n, dtype=int)
 
-        selected_rows = np.array(rows, dtype=object)[self._solution]
+        selected_rows = [r for r, s in zip(rows, self._solution) if s]
 
         self._selected_rows = selected_rows
         self._m, self._n = m, n
 
-        n_selected_rows = selected_rows.shape[0] + 2
+        n_selected_rows = len(selected_rows) + 2
 
         opt_n_nonevent = np.empty(n_selected_rows, dtype=int)
         opt_n_event = np.empty(n_selected_rows, dtype=int)
diff --git a/optbinning/binning/multidimensional/continuous_binning_2d.py b/optbinning/binning/multidimensional/continuous_binning_2d.py
index ee6834a..fbcab68 100644
--- a/optbinning/binning/multidimensional/continuous_binning_2d.py
+++ b/optbinning/binning/multidimensional/continuous_binning_2d.py
@@ -624,12 +624,12 @@ class ContinuousOptimalBinning2D(OptimalBinning2D):
         D = np.empty(m * n, dtype=float)
         P = np.empty(m * n, dtype=int)
 
-        selected_rows = np.array(rows, dtype=object)[self._solution]
+        selected_rows = [r for r, s in zip(rows, self._solution) if s]
 
         self._selected_rows = selected_rows
         self._m, self._n = m, n
 
-        n_selected_rows = selected_rows.shape[0] + 2
+        n_selected_rows = len(selected_rows) + 2
 
         opt_sums = np.empty(n_selected_rows, dtype=float)
         opt_n_records = np.empty(n_selected_rows, dtype=int)
-- 
2.43.0


From 3e74b7d4d69cf670e3f8560a137ff7e58075b941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:27 +0000
Subject: [PATCH 099/110] fix: continuous 2D binning with gamma and the cp
 solver

---
 optbinning/binning/multidimensional/continuous_binning_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/multidimensional/continuous_binning_2d.py b/optbinning/binning/multidimensional/continuous_binning_2d.py
index fbcab68..2ad8a44 100644
--- a/optbinning/binning/multidimensional/continuous_binning_2d.py
+++ b/optbinning/binning/multidimensional/continuous_binning_2d.py
@@ -721,7 +721,7 @@ class ContinuousOptimalBinning2D(OptimalBinning2D):
         indices_y = np.digitize(y_clean, splits_y, right=False)
         n_bins_y = n_splits_y + 1
 
-        R = np.empty((n_bins_y, n_bins_x), dtype=float)
+        R = np.empty((n_bins_y, n_bins_x), dtype=int)
         S = np.empty((n_bins_y, n_bins_x), dtype=float)
         SS = np.empty((n_bins_y, n_bins_x), dtype=float)
 
-- 
2.43.0


From ac8eee619de4cfa9644de34ffc544a69afbbd2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:19 +0000
Subject: [PATCH 100/110] fix: 2D binning is infeasible when no rectangle
 satisfies the limits

---
 optbinning/binning/multidimensional/cp_2d.py              | 2 +-
 optbinning/binning/multidimensional/mip_2d.py             | 2 +-
 optbinning/binning/multidimensional/model_data_2d.py      | 8 +++++---
 optbinning/binning/multidimensional/model_data_cart_2d.py | 8 +++++---
 4 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/optbinning/binning/multidimensional/cp_2d.py b/optbinning/binning/multidimensional/cp_2d.py
index 8918288..70a7207 100644
--- a/optbinning/binning/multidimensional/cp_2d.py
+++ b/optbinning/binning/multidimensional/cp_2d.py
@@ -48,7 +48,7 @@ class Binning2DCP:
 
         # Objective function
         if self.gamma:
-            total_records = int(n_records.sum())
+            total_records = max(int(n_records.sum()), 1)
             regularization = int(np.ceil(scale * self.gamma / total_records))
             pmax = model.NewIntVar(0, total_records, "pmax")
             pmin = model.NewIntVar(0, total_records, "pmin")
diff --git a/optbinning/binning/multidimensional/mip_2d.py b/optbinning/binning/multidimensional/mip_2d.py
index 2c94c7a..d886cd0 100644
--- a/optbinning/binning/multidimensional/mip_2d.py
+++ b/optbinning/binning/multidimensional/mip_2d.py
@@ -46,7 +46,7 @@ class Binning2DMIP:
 
         # Objective function
         if self.gamma:
-            total_records = int(n_records.sum())
+            total_records = max(int(n_records.sum()), 1)
             regularization = self.gamma / total_records
             pmax = solver.NumVar(0, total_records, "pmax")
             pmin = solver.NumVar(0, total_records, "pmin")
diff --git a/optbinning/binning/multidimensional/model_data_2d.py b/optbinning/binning/multidimensional/model_data_2d.py
index 90f1e90..9cf5832 100644
--- a/optbinning/binning/multidimensional/model_data_2d.py
+++ b/optbinning/binning/multidimensional/model_data_2d.py
@@ -128,8 +128,8 @@ def model_data(divergence, NE, E, monotonicity_x, monotonicity_y, scale,
 
                     n_rectangles += 1
 
-    n_event = np.array(n_fe)
-    n_nonevent = np.array(n_fne)
+    n_event = np.array(n_fe, dtype=int)
+    n_nonevent = np.array(n_fne, dtype=int)
 
     # Connected rectangles
     if monotonicity_x is not None or monotonicity_y is not None:
@@ -148,7 +148,9 @@ def model_data(divergence, NE, E, monotonicity_x, monotonicity_y, scale,
     p = n_event / E.sum()
     q = n_nonevent / NE.sum()
 
-    if divergence == "iv":
+    if not n_rectangles:
+        iv = np.zeros(0)
+    elif divergence == "iv":
         iv = jeffrey(p, q)
     elif divergence == "js":
         iv = jensen_shannon(p, q)
diff --git a/optbinning/binning/multidimensional/model_data_cart_2d.py b/optbinning/binning/multidimensional/model_data_cart_2d.py
index 4e9b471..d7ef3d4 100644
--- a/optbinning/binning/multidimensional/model_data_cart_2d.py
+++ b/optbinning/binning/multidimensional/model_data_cart_2d.py
@@ -194,8 +194,8 @@ def model_data_cart(tree, divergence, NE, E, monotonicity_x, monotonicity_y,
 
                         paths.add(path)
 
-    n_event = np.array(n_fe)
-    n_nonevent = np.array(n_fne)
+    n_event = np.array(n_fe, dtype=int)
+    n_nonevent = np.array(n_fne, dtype=int)
 
     # Connected rectangles
     if monotonicity_x is not None or monotonicity_y is not None:
@@ -214,7 +214,9 @@ def model_data_cart(tree, divergence, NE, E, monotonicity_x, monotonicity_y,
     p = n_event / E.sum()
     q = n_nonevent / NE.sum()
 
-    if divergence == "iv":
+    if not n_rectangles:
+        iv = np.zeros(0)
+    elif divergence == "iv":
         iv = jeffrey(p, q)
     elif divergence == "js":
         iv = jensen_shannon(p, q)
-- 
2.43.0


From 87056e2e25904303c017a994c5d04aa187ad9e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:14 +0000
Subject: [PATCH 101/110] fix: 2D cart strategy with at most one split

---
 optbinning/binning/multidimensional/binning_2d.py      |  2 +-
 .../binning/multidimensional/continuous_binning_2d.py  |  2 +-
 .../binning/multidimensional/model_data_cart_2d.py     | 10 ++++++++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/multidimensional/binning_2d.py b/optbinning/binning/multidimensional/binning_2d.py
index 982348a..2d2c4c4 100644
--- a/optbinning/binning/multidimensional/binning_2d.py
+++ b/optbinning/binning/multidimensional/binning_2d.py
@@ -638,7 +638,7 @@ class OptimalBinning2D(OptimalBinning):
             n_splits_x = len(splits_x)
             n_splits_y = len(splits_y)
 
-            clf_nodes = n_splits_x * n_splits_y
+            clf_nodes = max(n_splits_x * n_splits_y, 2)
 
             indices_x = np.digitize(x_clean, splits_x, right=False)
             n_bins_x = n_splits_x + 1
diff --git a/optbinning/binning/multidimensional/continuous_binning_2d.py b/optbinning/binning/multidimensional/continuous_binning_2d.py
index 2ad8a44..b147a07 100644
--- a/optbinning/binning/multidimensional/continuous_binning_2d.py
+++ b/optbinning/binning/multidimensional/continuous_binning_2d.py
@@ -563,7 +563,7 @@ class ContinuousOptimalBinning2D(OptimalBinning2D):
             n_splits_x = len(splits_x)
             n_splits_y = len(splits_y)
 
-            clf_nodes = n_splits_x * n_splits_y
+            clf_nodes = max(n_splits_x * n_splits_y, 2)
 
             indices_x = np.digitize(x_clean, splits_x, right=False)
             n_bins_x = n_splits_x + 1
diff --git a/optbinning/binning/multidimensional/model_data_cart_2d.py b/optbinning/binning/multidimensional/model_data_cart_2d.py
index d7ef3d4..11ceecb 100644
--- a/optbinning/binning/multidimensional/model_data_cart_2d.py
+++ b/optbinning/binning/multidimensional/model_data_cart_2d.py
@@ -38,6 +38,10 @@ def get_rectangles(tree, feature_names):
     # get ids of child nodes
     idx = np.argwhere(left == -1)[:, 0]
 
+    if len(idx) == 1:
+        # tree without splits: a single rectangle covers the grid
+        return [[]]
+
     def recurse(left, right, child, lineage=None):
         if lineage is None:
             lineage = [child]
@@ -127,6 +131,7 @@ def model_data_cart(tree, divergence, NE, E, monotonicity_x, monotonicity_y,
 
     # Auxiliary matrices
     A, G = get_auxiliary_matrices(tree, m, n, n_grid)
+    n_leaves = tree.get_n_leaves()
 
     paths = set()
 
@@ -138,7 +143,7 @@ def model_data_cart(tree, divergence, NE, E, monotonicity_x, monotonicity_y,
                 for l in range(j + 1, n + 1):
                     path = tuple(sorted(set(A[i:k, j:l].ravel())))
                     if path not in paths:
-                        if len(path) > 1:
+                        if len(path) > 1 or n_leaves == 1:
                             M = np.isin(A, path)
                             sr = list(M.sum(axis=0)) + [0]
                             sc = list(M.sum(axis=1)) + [0]
@@ -260,6 +265,7 @@ def continuous_model_data_cart(tree, R, S, SS, monotonicity_x, monotonicity_y,
 
     # Auxiliary matrices
     A, G = get_auxiliary_matrices(tree, m, n, n_grid)
+    n_leaves = tree.get_n_leaves()
 
     paths = set()
 
@@ -271,7 +277,7 @@ def continuous_model_data_cart(tree, R, S, SS, monotonicity_x, monotonicity_y,
                 for l in range(j + 1, n + 1):
                     path = tuple(sorted(set(A[i:k, j:l].ravel())))
                     if path not in paths:
-                        if len(path) > 1:
+                        if len(path) > 1 or n_leaves == 1:
                             M = np.isin(A, path)
                             sr = list(M.sum(axis=0)) + [0]
                             sc = list(M.sum(axis=1)) + [0]
-- 
2.43.0


From fdec62f79cb8d0e48d7eda66902a286990b6172e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:07 +0000
Subject: [PATCH 102/110] fix: continuous 2D binning standard deviation of
 constant bins is not nan

---
 optbinning/binning/multidimensional/model_data_2d.py      | 2 +-
 optbinning/binning/multidimensional/model_data_cart_2d.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/multidimensional/model_data_2d.py b/optbinning/binning/multidimensional/model_data_2d.py
index 9cf5832..345e654 100644
--- a/optbinning/binning/multidimensional/model_data_2d.py
+++ b/optbinning/binning/multidimensional/model_data_2d.py
@@ -255,7 +255,7 @@ def continuous_model_data(R, S, SS, monotonicity_x, monotonicity_y, scale,
     # Mean and norm
     t_mean = S.sum() / R.sum()
     mean = sums / n_records
-    stds = np.sqrt(ssums / n_records - mean ** 2)
+    stds = np.sqrt(np.maximum(ssums / n_records - mean ** 2, 0))
     norm = np.absolute(mean - t_mean)
 
     if scale is not None:
diff --git a/optbinning/binning/multidimensional/model_data_cart_2d.py b/optbinning/binning/multidimensional/model_data_cart_2d.py
index 11ceecb..26bbffd 100644
--- a/optbinning/binning/multidimensional/model_data_cart_2d.py
+++ b/optbinning/binning/multidimensional/model_data_cart_2d.py
@@ -337,7 +337,7 @@ def continuous_model_data_cart(tree, R, S, SS, monotonicity_x, monotonicity_y,
     # Mean and norm
     t_mean = S.sum() / R.sum()
     mean = sums / n_records
-    stds = np.sqrt(ssums / n_records - mean ** 2)
+    stds = np.sqrt(np.maximum(ssums / n_records - mean ** 2, 0))
     norm = np.absolute(mean - t_mean)
 
     if scale is not None:
-- 
2.43.0


From 7ae0669efcdb39f9ab69ee483e1c13ab3ddc0d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:00 +0000
Subject: [PATCH 103/110] fix: 2D cart strategy enforces the trend along whole
 sides of rectangles

---
 optbinning/binning/multidimensional/model_data_cart_2d.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/multidimensional/model_data_cart_2d.py b/optbinning/binning/multidimensional/model_data_cart_2d.py
index 26bbffd..6b8cd2f 100644
--- a/optbinning/binning/multidimensional/model_data_cart_2d.py
+++ b/optbinning/binning/multidimensional/model_data_cart_2d.py
@@ -180,11 +180,11 @@ def model_data_cart(tree, divergence, NE, E, monotonicity_x, monotonicity_y,
                                     cols[r].append(n_rectangles)
 
                                 if monotonicity_x is not None:
-                                    out = np.array([G[M]])
+                                    out = row.reshape((-1, max(sc)))
                                     outer_x.append(list(out[:, -1]))
 
                                 if monotonicity_y is not None:
-                                    out = np.array([G[M]])
+                                    out = row.reshape((-1, max(sc)))
                                     outer_y.append(list(out[-1, :]))
 
                                 rows.append(row)
@@ -301,11 +301,11 @@ def continuous_model_data_cart(tree, R, S, SS, monotonicity_x, monotonicity_y,
                                     cols[r].append(n_rectangles)
 
                                 if monotonicity_x is not None:
-                                    out = np.array([G[M]])
+                                    out = row.reshape((-1, max(sc)))
                                     outer_x.append(list(out[:, -1]))
 
                                 if monotonicity_y is not None:
-                                    out = np.array([G[M]])
+                                    out = row.reshape((-1, max(sc)))
                                     outer_y.append(list(out[-1, :]))
 
                                 rows.append(row)
-- 
2.43.0


From 562e591ebd03c3d5b7041f6f31cf357098b4a895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:47 +0000
Subject: [PATCH 104/110] fix: continuous binning statistics with sample
 weights

---
 optbinning/binning/binning_statistics.py | 62 ++++++++++++------------
 optbinning/binning/continuous_binning.py | 58 +++++++---------------
 2 files changed, 50 insertions(+), 70 deletions(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index 0a5bfd6..50910a8 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -165,6 +165,27 @@ def target_info_special_multiclass(special_codes, x, y, classes):
     return n_event
 
 
+def target_info_samples_continuous(y, sw):
+    # Samples with no weight do not take part in any statistic.
+    y = np.asarray(y)
+    sw = np.asarray(sw)
+
+    mask = sw > 0
+    y = y[mask]
+    sw = sw[mask]
+
+    if not len(y):
+        return 0, 0, 0, 0, None, None, None
+
+    n_records = np.sum(sw)
+    sums = np.sum(sw * y)
+    ssums = np.sum(sw * y ** 2)
+    n_zeros = np.sum(sw[y == 0])
+    std = np.sqrt(np.average((y - sums / n_records) ** 2, weights=sw))
+
+    return n_records, sums, ssums, n_zeros, std, np.min(y), np.max(y)
+
+
 def target_info_special_continuous(special_codes, x, y, sw):
     if isinstance(special_codes, dict):
         n_records_special = []
@@ -179,38 +200,19 @@ def target_info_special_continuous(special_codes, x, y, sw):
             sl = s if isinstance(s, (list, np.ndarray)) else [s]
             mask = xt.isin(sl).values
 
-            n_records = np.sum(sw[mask])
-            n_records_special.append(n_records)
-
-            ymask = sw[mask] * y[mask]
-            sum_special.append(np.sum(ymask))
-            n_zeros_special.append(np.count_nonzero(ymask == 0))
+            [n_records, s, _, n_zeros, std, min_t,
+             max_t] = target_info_samples_continuous(y[mask], sw[mask])
 
-            if n_records:
-                std_special.append(np.std(ymask))
-                min_target_special.append(np.min(ymask))
-                max_target_special.append(np.max(ymask))
-            else:
-                std_special.append(None)
-                min_target_special.append(None)
-                max_target_special.append(None)
+            n_records_special.append(n_records)
+            sum_special.append(s)
+            n_zeros_special.append(n_zeros)
+            std_special.append(std)
+            min_target_special.append(min_t)
+            max_target_special.append(max_t)
     else:
-        if len(sw):
-            sw_y = sw * y
-        else:
-            sw_y = y
-
-        n_records_special = np.sum(sw)
-        sum_special = np.sum(sw_y)
-        n_zeros_special = np.count_nonzero(sw_y == 0)
-        if len(y):
-            std_special = np.std(sw_y)
-            min_target_special = np.min(sw_y)
-            max_target_special = np.max(sw_y)
-        else:
-            std_special = None
-            min_target_special = None
-            max_target_special = None
+        [n_records_special, sum_special, _, n_zeros_special, std_special,
+         min_target_special,
+         max_target_special] = target_info_samples_continuous(y, sw)
 
     return (n_records_special, sum_special, n_zeros_special, std_special,
             min_target_special, max_target_special)
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index 8db38e8..97dd214 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -22,6 +22,7 @@ from .base import json_to_arrays
 from .binning import OptimalBinning
 from .binning_statistics import continuous_bin_info
 from .binning_statistics import ContinuousBinningTable
+from .binning_statistics import target_info_samples_continuous
 from .binning_statistics import target_info_special_continuous
 from .continuous_cp import ContinuousBinningCP
 from .preprocessing import preprocessing_user_splits_categorical
@@ -696,14 +697,8 @@ class ContinuousOptimalBinning(OptimalBinning):
         time_postprocessing = time.perf_counter()
 
         if not len(splits):
-            n_records = np.sum(sw_clean)
-            sw_y_clean = sw_clean * y_clean
-            sums = np.sum(sw_y_clean)
-            ssums = np.sum(sw_y_clean ** 2)
-            n_zeros = np.count_nonzero(sw_y_clean == 0)
-            stds = np.std(sw_y_clean)
-            min_t = np.min(sw_y_clean)
-            max_t = np.max(sw_y_clean)
+            [n_records, sums, ssums, n_zeros, stds, min_t,
+             max_t] = target_info_samples_continuous(y_clean, sw_clean)
 
         [self._n_records, self._sums, self._stds, self._min_target,
          self._max_target, self._n_zeros] = continuous_bin_info(
@@ -865,31 +860,17 @@ class ContinuousOptimalBinning(OptimalBinning):
          self._max_target_special] = target_info_special_continuous(
             self.special_codes, x_special, y_special, sw_special)
 
-        if len(sw_missing):
-            y_missing = y_missing * sw_missing
-
-        self._n_records_missing = np.sum(sw_missing)
-        self._sum_missing = np.sum(y_missing)
-        self._n_zeros_missing = np.count_nonzero(y_missing == 0)
-        if len(y_missing):
-            self._std_missing = np.std(y_missing)
-            self._min_target_missing = np.min(y_missing)
-            self._max_target_missing = np.max(y_missing)
-        else:
-            self._std_missing = None
-            self._min_target_missing = None
-            self._max_target_missing = None
+        [self._n_records_missing, self._sum_missing, _, self._n_zeros_missing,
+         self._std_missing, self._min_target_missing,
+         self._max_target_missing] = target_info_samples_continuous(
+            y_missing, sw_missing)
 
         if len(y_others):
-            if len(sw_others):
-                y_others = y_others * sw_others
-
-            self._n_records_cat_others = np.sum(sw_others)
-            self._sum_cat_others = np.sum(y_others)
-            self._std_cat_others = np.std(y_others)
-            self._min_target_others = np.min(y_others)
-            self._max_target_others = np.max(y_others)
-            self._n_zeros_others = np.count_nonzero(y_others == 0)
+            [self._n_records_cat_others, self._sum_cat_others, _,
+             self._n_zeros_others, self._std_cat_others,
+             self._min_target_others,
+             self._max_target_others] = target_info_samples_continuous(
+                y_others, sw_others)
 
         n_splits = len(splits_prebinning)
 
@@ -932,15 +913,12 @@ class ContinuousOptimalBinning(OptimalBinning):
         # Compute prebin information
         for i in range(n_bins):
             mask = (indices == i)
-            n_records[i] = np.sum(sw[mask])
-            ymask = sw[mask] * y[mask]
-            sums[i] = np.sum(ymask)
-            ssums[i] = np.sum(ymask ** 2)
-            n_zeros[i] = np.count_nonzero(ymask == 0)
-            if len(ymask):
-                stds[i] = np.std(ymask)
-                min_t[i] = np.min(ymask)
-                max_t[i] = np.max(ymask)
+            [n_records[i], sums[i], ssums[i], n_zeros[i], std, min_target,
+             max_target] = target_info_samples_continuous(y[mask], sw[mask])
+            if std is not None:
+                stds[i] = std
+                min_t[i] = min_target
+                max_t[i] = max_target
 
         mask_remove = (n_records == 0)
 
-- 
2.43.0


From d5126404e85e33c337e7eb910d767210a23f570d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:34 +0000
Subject: [PATCH 105/110] fix: event rate of pure special and missing rows in
 piecewise binning

---
 optbinning/binning/piecewise/binning_statistics.py | 2 +-
 optbinning/binning/piecewise/transformations.py    | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/piecewise/binning_statistics.py b/optbinning/binning/piecewise/binning_statistics.py
index 9e5f564..f6f7ee4 100644
--- a/optbinning/binning/piecewise/binning_statistics.py
+++ b/optbinning/binning/piecewise/binning_statistics.py
@@ -121,7 +121,7 @@ class PWBinningTable(BinningTable):
         t_n_records = self._t_n_nonevent + self._t_n_event
         p_records = n_records / t_n_records
 
-        mask = (n_event > 0) & (n_nonevent > 0)
+        mask = n_records > 0
         event_rate = np.zeros(len(n_records))
         event_rate[mask] = n_event[mask] / n_records[mask]
 
diff --git a/optbinning/binning/piecewise/transformations.py b/optbinning/binning/piecewise/transformations.py
index 6f15be6..4bc86f5 100644
--- a/optbinning/binning/piecewise/transformations.py
+++ b/optbinning/binning/piecewise/transformations.py
@@ -101,8 +101,9 @@ def transform_binary_target(splits, x, c, lb, ub, n_nonevent, n_event,
 
         mask = (n_event_special > 0) & (n_nonevent_special > 0)
 
-        event_rate_special[mask] = (
-            n_event_special[mask] / n_records_special[mask])
+        mask_records = n_records_special > 0
+        event_rate_special[mask_records] = (
+            n_event_special[mask_records] / n_records_special[mask_records])
 
         if metric == "woe":
             # Default woe is 0
-- 
2.43.0


From cc3ff1f42034b1b9c72c7b85df0e6b067f7320fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:18 +0000
Subject: [PATCH 106/110] fix: plots show the metric of the missing row when
 the special rows are hidden

---
 optbinning/binning/binning_statistics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index 50910a8..1a59df1 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -779,7 +779,7 @@ class BinningTable:
                 handle_missing = mpatches.Patch(hatch="\\", alpha=0.1)
                 label_missing = "Bin missing"
 
-                ax2.plot(pos_missing, metric_values[pos_missing], marker="o",
+                ax2.plot(pos_missing, metric_values[-1], marker="o",
                          color="black")
 
             if add_special and add_missing:
@@ -1349,7 +1349,7 @@ class MulticlassBinningTable:
             label_missing = "Bin missing"
 
             for i, cl in enumerate(self.classes):
-                ax2.plot(pos_missing, metric_values[pos_missing, i],
+                ax2.plot(pos_missing, metric_values[-1, i],
                          marker="o", color=colors[i])
 
         if add_special and add_missing:
@@ -1859,7 +1859,7 @@ class ContinuousBinningTable:
                 handle_missing = mpatches.Patch(hatch="\\", alpha=0.1)
                 label_missing = "Bin missing"
 
-                ax2.plot(pos_missing, metric_values[pos_missing], marker="o",
+                ax2.plot(pos_missing, metric_values[-1], marker="o",
                          color="black")
 
             if add_special and add_missing:
-- 
2.43.0


From 9472145e23ee7f0538fdb8c647a950780bafe8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:33 +0000
Subject: [PATCH 107/110] fix: plots hide the labels of all special rows

---
 optbinning/binning/binning_statistics.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index 1a59df1..bbc6179 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -802,7 +802,8 @@ class BinningTable:
                     bin_str = self._bin_str
 
                 if not add_special:
-                    bin_str = bin_str[:-2] + [bin_str[-1]]
+                    n_extra = self._n_specials + 1
+                    bin_str = bin_str[:-n_extra] + [bin_str[-1]]
 
                 if not add_missing:
                     bin_str = bin_str[:-1]
@@ -1368,7 +1369,8 @@ class MulticlassBinningTable:
         if show_bin_labels:
             bin_str = self._bin_str
             if not add_special:
-                bin_str = bin_str[:-2] + [bin_str[-1]]
+                n_extra = self._n_specials + 1
+                bin_str = bin_str[:-n_extra] + [bin_str[-1]]
 
             if not add_missing:
                 bin_str = bin_str[:-1]
@@ -1882,7 +1884,8 @@ class ContinuousBinningTable:
                     bin_str = self._bin_str
 
                 if not add_special:
-                    bin_str = bin_str[:-2] + [bin_str[-1]]
+                    n_extra = self._n_specials + 1
+                    bin_str = bin_str[:-n_extra] + [bin_str[-1]]
 
                 if not add_missing:
                     bin_str = bin_str[:-1]
-- 
2.43.0


From 212b3aa31c1e7d10d95ace708ee4107f47bb6b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:09 +0000
Subject: [PATCH 108/110] fix: plot of the population stability with a single
 bin

---
 optbinning/scorecard/monitoring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/scorecard/monitoring.py b/optbinning/scorecard/monitoring.py
index 44ba5c9..1b26c16 100644
--- a/optbinning/scorecard/monitoring.py
+++ b/optbinning/scorecard/monitoring.py
@@ -443,7 +443,7 @@ class ScorecardMonitoring(BaseEstimator):
 
         n_bins = len(self._n_records_a)
         indices = np.arange(n_bins)
-        width = np.min(np.diff(indices))/3
+        width = 1.0 / 3
 
         p_records_a = self._n_records_a / self._n_records_a.sum() * 100.0
         p_records_e = self._n_records_e / self._n_records_e.sum() * 100.0
-- 
2.43.0


From 91b0ca9a8ff9cf82fd940c60ca9a30549dcae1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:03 +0000
Subject: [PATCH 109/110] fix: multiclass MIP formulation uses one variable
 name for several classes, CBC aborts the process

---
 optbinning/binning/multiclass_mip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/multiclass_mip.py b/optbinning/binning/multiclass_mip.py
index 0ca7669..b070729 100644
--- a/optbinning/binning/multiclass_mip.py
+++ b/optbinning/binning/multiclass_mip.py
@@ -150,7 +150,7 @@ class MulticlassBinningMIP(BinningMIP):
             for c in range(n_classes):
                 if self.monotonic_trend[c] in ("peak", "valley"):
                     for i in range(n):
-                        y[c, i] = solver.BoolVar("y[{}]".format(i))
+                        y[c, i] = solver.BoolVar("y[{}, {}]".format(c, i))
 
                     # Change points
                     t[c] = solver.IntVar(0, n, "t[{}]".format(c))
-- 
2.43.0


From 590c59166141c8830e678da2fa088971acd2ddfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:14 +0000
Subject: [PATCH 110/110] fix: CART pre-binning drops a split at exactly -2

---
 optbinning/binning/prebinning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/prebinning.py b/optbinning/binning/prebinning.py
index 9b02baf..4f572b2 100644
--- a/optbinning/binning/prebinning.py
+++ b/optbinning/binning/prebinning.py
@@ -115,8 +115,8 @@ class PreBinning:
                 est = DecisionTreeRegressor(**cart_kwargs)
 
             est.fit(x.reshape(-1, 1), y, sample_weight=sample_weight)
-            splits = np.unique(est.tree_.threshold)
-            self._splits = splits[splits != _tree.TREE_UNDEFINED]
+            is_split = est.tree_.children_left != _tree.TREE_LEAF
+            self._splits = np.unique(est.tree_.threshold[is_split])
 
         elif self.method == "mdlp":
             mdlp_kwargs = {"min_samples_leaf": self.min_bin_size}
-- 
2.43.0

