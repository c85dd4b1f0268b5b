From d2e62c0a8dad4d72515532b50ffee2eb4aadc7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:00 +0000
Subject: [PATCH 01/16] fix: t_test no longer crashes on zero variance data

np.float was removed from numpy, so t_test raised AttributeError whenever the
scale of the data underflowed to zero with mean zero.
---
 mlpaper/mlpaper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlpaper/mlpaper.py b/mlpaper/mlpaper.py
index 6247e1f..ce15bd2 100644
--- a/mlpaper/mlpaper.py
+++ b/mlpaper/mlpaper.py
@@ -88,7 +88,7 @@ def t_test(x):
         assert np.var(x, ddof=1) <= 1e-100
         # It is debatable if the condition should be ``np.mean(x) == 0.0`` or
         # ``np.all(x == 0.0)``. Should not matter in practice.
-        pval = np.float(np.mean(x) == 0.0)
+        pval = float(np.mean(x) == 0.0)
     assert 0.0 <= pval and pval <= 1.0
     return pval
 
-- 
2.43.0


From 5ef26a5c9929c5f662a704996f2cd67a74db0afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:00 +0000
Subject: [PATCH 02/16] fix: pass checkpoint directory to joblib.Memory by
 position

The cachedir keyword was removed from joblib, so every call that fits and
predicts raised TypeError, with or without checkpointing.
---
 mlpaper/classification.py | 2 +-
 mlpaper/regression.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlpaper/classification.py b/mlpaper/classification.py
index 0b2157c..d996060 100644
--- a/mlpaper/classification.py
+++ b/mlpaper/classification.py
@@ -712,7 +712,7 @@ def get_pred_log_prob(
     assert X_train.dtype.kind == X_test.dtype.kind  # Would be weird otherwise
     assert min_log_prob < 0.0  # Ensure is a log-prob
 
-    memory = Memory(cachedir=checkpointdir, verbose=0)
+    memory = Memory(checkpointdir, verbose=0)
 
     @memory.cache
     def train_predict(method_obj, X_train, y_train, X_test):
diff --git a/mlpaper/regression.py b/mlpaper/regression.py
index 7b0cc5f..9de5f4e 100644
--- a/mlpaper/regression.py
+++ b/mlpaper/regression.py
@@ -255,7 +255,7 @@ def get_gauss_pred(X_train, y_train, X_test, methods, min_std=0.0, verbose=False
     assert X_train.dtype.kind == X_test.dtype.kind  # Would be weird otherwise
     assert min_std >= 0.0
 
-    memory = Memory(cachedir=checkpointdir, verbose=0)
+    memory = Memory(checkpointdir, verbose=0)
 
     @memory.cache
     def train_predict(method_obj, X_train, y_train, X_test):
-- 
2.43.0


From b4a22ebd305a87f07c19030a16aea1d60d24bfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:00 +0000
Subject: [PATCH 03/16] fix: build_lag_df works in Python 3 and puts lag 0
 first

Adding a range to a list raises TypeError in Python 3. The documented column
order starts with lag 0.
---
 mlpaper/data_splitter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mlpaper/data_splitter.py b/mlpaper/data_splitter.py
index 2785a2c..99d4a43 100644
--- a/mlpaper/data_splitter.py
+++ b/mlpaper/data_splitter.py
@@ -56,12 +56,13 @@ def build_lag_df(df, n_lags, stride=1, features=None):
          3    3  5  6   8   4   2   9
     """
     df_sub = df if features is None else df[list(features)]  # Take all if None
-    D = {(SFT_FMT % nn): df_sub.shift(stride * nn) for nn in range(1, n_lags)}
-    D[SFT_FMT % 0] = df
+    # Lag 0 goes first, and it always keeps all the columns
+    D = {SFT_FMT % 0: df}
+    D.update({(SFT_FMT % nn): df_sub.shift(stride * nn) for nn in range(1, n_lags)})
 
     df = pd.concat(D, axis=1, names=["lag"])
     # Re-order the levels so there are the same as before but lag at end
-    df = df.reorder_levels(range(1, len(df.columns.names)) + [0], axis=1)
+    df = df.reorder_levels(list(range(1, len(df.columns.names))) + [0], axis=1)
     return df
 
 
-- 
2.43.0


From 444a1c290fbd1cef1e392a258c87e8cce3f90c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:00 +0000
Subject: [PATCH 04/16] fix: ordered split when frac * n_cases is an integer

ordered_split_series picked one case too many and then failed its own
assertion whenever the requested fraction could be met exactly.
---
 mlpaper/data_splitter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mlpaper/data_splitter.py b/mlpaper/data_splitter.py
index 99d4a43..92e0f26 100644
--- a/mlpaper/data_splitter.py
+++ b/mlpaper/data_splitter.py
@@ -214,7 +214,9 @@ def ordered_split_series(S, frac, assume_sorted=False, assume_unique=False):
     else:
         all_cases = np.unique(S.values)
 
-    idx = min(int(frac * len(all_cases)), len(all_cases) - 1)
+    # Smallest idx such that the fraction of cases up to idx is at least frac
+    n_cases = len(all_cases)
+    idx = min(int(np.searchsorted(np.arange(1, n_cases + 1) / n_cases, frac)), n_cases - 1)
     assert 0 <= idx  # Should never happen due to frac check earlier
     pivotal_case = all_cases[idx]
     # Check we rounded to err just on side of putting more data in train
-- 
2.43.0


From 3cba98811bd5999647fa4226844ddccea990adef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:00 +0000
Subject: [PATCH 05/16] fix: TeX header of shifted metric contains \times and
 not a tab

---
 mlpaper/sciprint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlpaper/sciprint.py b/mlpaper/sciprint.py
index 3df8349..b079453 100644
--- a/mlpaper/sciprint.py
+++ b/mlpaper/sciprint.py
@@ -830,7 +830,7 @@ def adjust_headers(headers, shifts, unit_dict, use_prefix=True, use_tex=False):
     dictionaries in Python do not guarantee order.
     """
     prefix_dict = _PREFIX_TEX if use_tex else _PREFIX
-    fmt_shift = "%s $\times 10^{%d}$" if use_tex else "%s x 1e%d"
+    fmt_shift = r"%s $\times 10^{%d}$" if use_tex else "%s x 1e%d"
     fmt_unit = "%s (%s)"
     fmt_shift_unit = fmt_shift + " (%s)"
 
-- 
2.43.0


From 0b5e2866745b76e69d3fa581004e1a2eeb96ec58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:00 +0000
Subject: [PATCH 06/16] fix: clip_EB keeps the error bar when the mean is NaN

np.clip returns NaN for a NaN limit in current numpy, which lost an otherwise
valid error bar.
---
 mlpaper/mlpaper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mlpaper/mlpaper.py b/mlpaper/mlpaper.py
index ce15bd2..ed86af9 100644
--- a/mlpaper/mlpaper.py
+++ b/mlpaper/mlpaper.py
@@ -58,6 +58,8 @@ def clip_EB(mu, EB, lower=-np.inf, upper=np.inf, min_EB=0.0):
 
     with np.errstate(invalid="ignore"):  # expect non-finite here
         EB_trivial = np.fmax(upper - mu, mu - lower)
+    if np.isnan(EB_trivial):
+        EB_trivial = np.inf  # Can't clip from above
     assert not (min_EB > EB_trivial)  # Let NaNs pass
     EB = np.clip(EB, min_EB, EB_trivial)
     return EB
-- 
2.43.0


From 248dd14633c1d94186aae13158fd5b4dbc8bef11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:00 +0000
Subject: [PATCH 07/16] fix: decimalize stores results by column name

The results were assigned by position, so mean, error and p were silently
swapped if the statistics of the input table were in any other order.
---
 mlpaper/sciprint.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mlpaper/sciprint.py b/mlpaper/sciprint.py
index b079453..efe1894 100644
--- a/mlpaper/sciprint.py
+++ b/mlpaper/sciprint.py
@@ -369,7 +369,9 @@ def decimalize(perf_tbl, err_digits=2, pval_digits=4, default_digits=5, EB_limit
             pval = pval.quantize(decimal_1ek(-pval_digits), rounding=decimal.ROUND_CEILING)
             assert pval.is_nan() or (0 <= pval and pval <= 1)
 
-            perf_tbl_dec.loc[method, metric] = (mu, EB, pval)
+            perf_tbl_dec.loc[method, (metric, MEAN_COL)] = mu
+            perf_tbl_dec.loc[method, (metric, ERR_COL)] = EB
+            perf_tbl_dec.loc[method, (metric, PVAL_COL)] = pval
     return perf_tbl_dec
 
 
-- 
2.43.0


From a860adbc14832f3efd6770b7aeaf4130649ace73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:00 +0000
Subject: [PATCH 08/16] fix: JustNoise classifier accepts bool labels

---
 mlpaper/classification.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mlpaper/classification.py b/mlpaper/classification.py
index d996060..49bcd54 100644
--- a/mlpaper/classification.py
+++ b/mlpaper/classification.py
@@ -642,6 +642,7 @@ class JustNoise:
         n_labels = len(self.pred)
         n_points, = np.shape(y_train)
 
+        y_train = np.asarray(y_train, dtype=int)  # one_hot does not take bool
         counts = self.pseudo_count + np.sum(one_hot(y_train, n_labels), axis=0)
         n_total = n_points + n_labels * self.pseudo_count
         self.pred = np.log(counts / n_total)
-- 
2.43.0


From 38e83c0a43db18ddd80209b14a7a17bca033bcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:00 +0000
Subject: [PATCH 09/16] fix: format_table displays non-clipped infinite
 estimates

It failed an assertion although non_finite_fmt documents how to display inf.
---
 mlpaper/sciprint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlpaper/sciprint.py b/mlpaper/sciprint.py
index efe1894..6892342 100644
--- a/mlpaper/sciprint.py
+++ b/mlpaper/sciprint.py
@@ -770,7 +770,8 @@ def format_table(perf_tbl_dec, shift_mod=None, pad=True, crap_limit_max={}, crap
         max_clip = decimal_1ek(crap_limit_max.get(metric, "F"), signed=False)
         # Will ignore clipped values for shifting purposes, also check finite
         idx = (min_clip <= mean_series) & (mean_series <= max_clip)
-        # Subroutines can handle inf mean, but keep non-clipped finite for now
+        # Subroutines can handle inf mean, but they are not used to find shift
+        idx &= np.array([mu.is_finite() for mu in mean_series])
         assert decimal_all_finite(mean_series[idx])
         if len(idx) == 0:
             warnings.warn("no non-clipped values for metric %s" % str(metric))
-- 
2.43.0


From 683e148fb458547a806c4c831180627d820e9aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:23 +0000
Subject: [PATCH 10/16] fix: loss_summary_table when round off moves the mean
 outside the limits

The mean of e.g. [0.1, 0.1, 0.1] is above 0.1 in floating point. If the limit
is 0.1 then get_mean_and_EB clips it and the check that both means are equal
failed.
---
 mlpaper/mlpaper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlpaper/mlpaper.py b/mlpaper/mlpaper.py
index ed86af9..a341a08 100644
--- a/mlpaper/mlpaper.py
+++ b/mlpaper/mlpaper.py
@@ -520,7 +520,7 @@ def loss_summary_table(loss_table, ref_method, pairwise_CI=PAIRWISE_DEFAULT, con
             assert not np.any(np.isnan(loss))  # Would let method cheat
             assert np.all(lower <= loss) and np.all(loss <= upper)
 
-            mu = np.mean(loss)  # This is the same in all cases
+            mu = clip_chk(np.mean(loss), lower, upper)  # This is the same in all cases
 
             deltas = loss - loss_ref
             range_ = upper - lower
-- 
2.43.0


From 05298caa2d9ef46fd92cd06432d7b96e25429c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:01 +0000
Subject: [PATCH 11/16] fix: loss_table and curve_summary_table fail on tables
 with some methods removed

Selecting columns of a table keeps the removed names in the levels of its
columns, which gave a KeyError for methods that are not in the table.
---
 mlpaper/classification.py | 4 ++--
 mlpaper/regression.py     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mlpaper/classification.py b/mlpaper/classification.py
index 49bcd54..306ad1a 100644
--- a/mlpaper/classification.py
+++ b/mlpaper/classification.py
@@ -246,7 +246,7 @@ def loss_table(log_pred_prob_table, y, metrics_dict, assume_normalized=False):
         method foo's prediction of ``y[5]`` according to loss function bar is
         stored in ``loss_tbl.loc[5, ('bar', 'foo')]``.
     """
-    methods, labels = log_pred_prob_table.columns.levels
+    methods, labels = log_pred_prob_table.columns.remove_unused_levels().levels
     n_samples, n_labels = len(log_pred_prob_table), len(labels)
     assert y.shape == (n_samples,)
     assert n_samples >= 1 and n_labels >= 1 and len(methods) >= 1
@@ -480,7 +480,7 @@ def curve_summary_table(
         `x_grid`, the curve value, the lower end of confidence envelope,
         and the upper end of the confidence envelope.
     """
-    methods, labels = log_pred_prob_table.columns.levels
+    methods, labels = log_pred_prob_table.columns.remove_unused_levels().levels
     N, n_labels = len(log_pred_prob_table), len(labels)
     assert y.shape == (N,)
     assert ref_method in methods  # ==> len(methods) >= 1
diff --git a/mlpaper/regression.py b/mlpaper/regression.py
index 9de5f4e..bea19b5 100644
--- a/mlpaper/regression.py
+++ b/mlpaper/regression.py
@@ -156,7 +156,7 @@ def loss_table(pred_tbl, y, metrics_dict):
         prediction of ``y[5]`` according to loss function bar is stored in
         ``loss_tbl.loc[5, ('bar', 'foo')]``.
     """
-    methods, moments = pred_tbl.columns.levels
+    methods, moments = pred_tbl.columns.remove_unused_levels().levels
     assert "mu" in moments and "std" in moments
     n_samples = len(pred_tbl)
     assert y.shape == (n_samples,)
-- 
2.43.0


From 5da51667685e2dbc950ad656bd5920c71e14b5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:01 +0000
Subject: [PATCH 12/16] fix: loss_summary_table fails on tables with some
 metrics or methods removed

---
 mlpaper/mlpaper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlpaper/mlpaper.py b/mlpaper/mlpaper.py
index a341a08..614eaa9 100644
--- a/mlpaper/mlpaper.py
+++ b/mlpaper/mlpaper.py
@@ -499,7 +499,7 @@ def loss_summary_table(loss_table, ref_method, pairwise_CI=PAIRWISE_DEFAULT, con
         reference method `ref_method`.
     """
     assert loss_table.columns.names == (METRIC, METHOD)
-    metrics, methods = loss_table.columns.levels
+    metrics, methods = loss_table.columns.remove_unused_levels().levels
     assert ref_method in methods  # ==> len(methods) >= 1
     assert len(loss_table) >= 1 and len(metrics) >= 1
     # Could also test these are cartesian product if we wanted to be exhaustive
-- 
2.43.0


From 444c097492f322f9f83a7310e612378c0f01a97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:01 +0000
Subject: [PATCH 13/16] fix: formatting fails on tables with some metrics
 removed

---
 mlpaper/sciprint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlpaper/sciprint.py b/mlpaper/sciprint.py
index 6892342..529abb2 100644
--- a/mlpaper/sciprint.py
+++ b/mlpaper/sciprint.py
@@ -336,7 +336,7 @@ def decimalize(perf_tbl, err_digits=2, pval_digits=4, default_digits=5, EB_limit
     """
     assert pval_digits >= 1
     assert perf_tbl.columns.names == (METRIC, STAT)
-    metrics, stats = perf_tbl.columns.levels
+    metrics, stats = perf_tbl.columns.remove_unused_levels().levels
     assert sorted(stats) == sorted(STD_STATS)
 
     assert perf_tbl.index.name == METHOD
@@ -743,7 +743,7 @@ def format_table(perf_tbl_dec, shift_mod=None, pad=True, crap_limit_max={}, crap
     """
     # For now, require perf_tbl to be all finite, might relax later.
     assert perf_tbl_dec.columns.names == (METRIC, STAT)
-    metrics, stats = perf_tbl_dec.columns.levels
+    metrics, stats = perf_tbl_dec.columns.remove_unused_levels().levels
     assert sorted(stats) == sorted(STD_STATS)
 
     assert perf_tbl_dec.index.name == METHOD
-- 
2.43.0


From 955dd585d7b7e59e883f20c2838a868c3526fa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:17 +0000
Subject: [PATCH 14/16] fix: ordered split of categoricals and time zones

Converting the series to a numpy array lost the order of the categories, so
an ordered categorical was cut at the wrong value, and the time zone, so
time zone aware data could not be split at all.
---
 mlpaper/data_splitter.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/mlpaper/data_splitter.py b/mlpaper/data_splitter.py
index 92e0f26..fb18725 100644
--- a/mlpaper/data_splitter.py
+++ b/mlpaper/data_splitter.py
@@ -206,22 +206,20 @@ def ordered_split_series(S, frac, assume_sorted=False, assume_unique=False):
     assert not S.isnull().any()  # Ordering/comparing NaNs ambiguous
     assert 0.0 <= frac and frac <= 1.0
 
-    # Get all cases in sorted order
-    if assume_sorted and assume_unique:
-        all_cases = S.values
-    elif assume_unique:  # but not sorted
-        all_cases = np.sort(S.values)
-    else:
-        all_cases = np.unique(S.values)
+    # Get all cases in sorted order. Stay in pandas since going to numpy loses
+    # time zones and the order of categories.
+    all_cases = S if assume_sorted else S.sort_values()
+    if not assume_unique:
+        all_cases = all_cases.drop_duplicates()
 
     # Smallest idx such that the fraction of cases up to idx is at least frac
     n_cases = len(all_cases)
     idx = min(int(np.searchsorted(np.arange(1, n_cases + 1) / n_cases, frac)), n_cases - 1)
     assert 0 <= idx  # Should never happen due to frac check earlier
-    pivotal_case = all_cases[idx]
+    pivotal_case = all_cases.iloc[idx]
     # Check we rounded to err just on side of putting more data in train
     assert np.mean(all_cases <= pivotal_case) >= frac
-    assert idx == 0 or np.mean(all_cases <= all_cases[idx - 1]) < frac
+    assert idx == 0 or np.mean(all_cases <= all_cases.iloc[idx - 1]) < frac
     train_curr = S <= pivotal_case
     return train_curr
 
-- 
2.43.0


From a6d71d68091941990b3c567d03aea508a51496af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:17 +0000
Subject: [PATCH 15/16] fix: paired test of bool and unsigned integer losses

The difference to the reference wrapped around for unsigned integers, which
gave wrong error bars and p-values, and failed for bool.
---
 mlpaper/mlpaper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mlpaper/mlpaper.py b/mlpaper/mlpaper.py
index 614eaa9..0bcf392 100644
--- a/mlpaper/mlpaper.py
+++ b/mlpaper/mlpaper.py
@@ -514,6 +514,7 @@ def loss_summary_table(loss_table, ref_method, pairwise_CI=PAIRWISE_DEFAULT, con
         assert loss_ref.ndim == 1  # Weird stuff happens if names not unique
         assert not np.any(np.isnan(loss_ref))  # Would let method cheat
         assert np.all(lower <= loss_ref) and np.all(loss_ref <= upper)
+        loss_ref = loss_ref.astype(float)  # Difference of bool or unsigned int goes wrong
         for method in methods:
             loss = loss_table.loc[:, (metric, method)].values
             assert loss.ndim == 1  # Weird stuff happens if names not unique
-- 
2.43.0


From a910a343ee6a69de3065ed5cff56e8d258e4d501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:17 +0000
Subject: [PATCH 16/16] fix: regression losses of unsigned integer targets and
 predictions

The difference wrapped around, e.g. an absolute loss of 254 instead of 2.
---
 mlpaper/regression.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mlpaper/regression.py b/mlpaper/regression.py
index bea19b5..3e7032f 100644
--- a/mlpaper/regression.py
+++ b/mlpaper/regression.py
@@ -70,6 +70,7 @@ def square_loss(y, mu, std):
         Square error of target vs prediction. Same shape as `y`.
     """
     shape_and_validate(y, mu, std)
+    y = y.astype(float)  # Difference of unsigned ints would wrap around
     loss = (y - mu) ** 2
     return loss
 
@@ -95,6 +96,7 @@ def abs_loss(y, mu, std):
         Absolute error of target vs prediction. Same shape as `y`.
     """
     shape_and_validate(y, mu, std)
+    y = y.astype(float)  # Difference of unsigned ints would wrap around
     loss = np.abs(y - mu)
     return loss
 
@@ -120,6 +122,7 @@ def log_loss(y, mu, std):
         as `y`.
     """
     shape_and_validate(y, mu, std)
+    y = y.astype(float)  # Difference of unsigned ints would wrap around
     loss = -ss.norm.logpdf(y, loc=mu, scale=std)
     return loss
 
-- 
2.43.0

