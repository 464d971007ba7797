From c7a19bbe18d77fe197e515445dd1a5b1bfdcd60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:26 +0000
Subject: [PATCH 01/80] fix: ESTDEV of aggregated lines uses the weighted mean
 errors

ME and MSE were computed without the aggregation flag, so their sums were
not divided by the total number of pairs.
---
 metcalcpy/util/sl1l2_statistics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/util/sl1l2_statistics.py b/metcalcpy/util/sl1l2_statistics.py
index 9324a0d..a48a195 100644
--- a/metcalcpy/util/sl1l2_statistics.py
+++ b/metcalcpy/util/sl1l2_statistics.py
@@ -498,8 +498,8 @@ def calculate_estdev(input_data, columns_names, aggregation=False):
     warnings.filterwarnings('error')
     try:
         total = sum_column_data_by_name(input_data, columns_names, 'total')
-        me = calculate_me(input_data, columns_names)
-        mse = calculate_mse(input_data, columns_names)
+        me = calculate_me(input_data, columns_names, aggregation)
+        mse = calculate_mse(input_data, columns_names, aggregation)
         result = calculate_stddev(me * total, mse * total, total)
         result = round_half_up(result, PRECISION)
     except (TypeError, Warning):
-- 
2.43.0


From 1657baf6823fdee1943fdc49b116d98c621274d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:44 +0000
Subject: [PATCH 02/80] fix: keep the correlation of perfectly correlated pairs

Floating point noise can put a perfect correlation slightly above 1, which
was then reported as missing. Round before comparing with 1.
---
 metcalcpy/util/sal1l2_statistics.py | 2 +-
 metcalcpy/util/sl1l2_statistics.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/util/sal1l2_statistics.py b/metcalcpy/util/sal1l2_statistics.py
index 6a7913d..b44c407 100644
--- a/metcalcpy/util/sal1l2_statistics.py
+++ b/metcalcpy/util/sal1l2_statistics.py
@@ -47,7 +47,7 @@ def calculate_anom_corr(input_data, columns_names, aggregation=False):
         if v <= 0:
             return None
         anom_corr = (total ** 2 * fobar - total ** 2 * fbar * obar) / np.sqrt(v)
-        if anom_corr > 1:
+        if round_half_up(anom_corr, PRECISION) > 1:
             anom_corr = None
         else:
             anom_corr = round_half_up(anom_corr, PRECISION)
diff --git a/metcalcpy/util/sl1l2_statistics.py b/metcalcpy/util/sl1l2_statistics.py
index a48a195..96f5e65 100644
--- a/metcalcpy/util/sl1l2_statistics.py
+++ b/metcalcpy/util/sl1l2_statistics.py
@@ -288,7 +288,7 @@ def calculate_pr_corr(input_data, columns_names, aggregation=False):
         v = (total ** 2 * ffbar - total ** 2 * fbar ** 2) \
             * (total ** 2 * oobar - total ** 2 * obar ** 2)
         pr_corr = (total ** 2 * fobar - total ** 2 * fbar * obar) / np.sqrt(v)
-        if v <= 0 or pr_corr > 1:
+        if v <= 0 or round_half_up(pr_corr, PRECISION) > 1:
             pr_corr = None
         else:
             pr_corr = round_half_up(pr_corr, PRECISION)
-- 
2.43.0


From 8c7c400721fc390e1d991da04b40df4ead8cebba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:44 +0000
Subject: [PATCH 03/80] fix: weight FE by the line totals when aggregating

FE was missing from the list of statistics whose fields are multiplied by
the total, so lines with different totals had equal weights.
---
 metcalcpy/agg_stat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 1bcfd7f..2ce48c8 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -136,6 +136,7 @@ class AggStat:
         'anom_corr_raw': ['ffabar', 'ooabar', 'foabar'],
         'rmsfa': ['ffabar'],
         'rmsoa': ['ooabar'],
+        'fe': ['fbar', 'obar'],
         'me': ['fbar', 'obar'],
         'me2': ['fbar', 'obar'],
         'mse': ['ffbar', 'oobar', 'fobar'],
-- 
2.43.0


From 1ff9d033e0b01b17473b34d56c831c0a7a315395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:44 +0000
Subject: [PATCH 04/80] fix: weight VL1L2_FSPD and VL1L2_OSPD by the line
 totals

The wind components were divided by the total without having been
multiplied by it, so every aggregated speed was too small.
---
 metcalcpy/agg_stat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 2ce48c8..e897c11 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -180,6 +180,8 @@ class AggStat:
         'vl1l2_bias': ['uvffbar', 'uvoobar'],
         'vl1l2_fvar': ['uvffbar', 'f_speed_bar'],
         'vl1l2_ovar': ['uvoobar', 'o_speed_bar'],
+        'vl1l2_fspd': ['ufbar', 'vfbar'],
+        'vl1l2_ospd': ['uobar', 'vobar'],
         'vl1l2_speed_err': ['ufbar', 'vfbar', 'uobar', 'vobar'],
         'vl1l2_rmsve': ['uvffbar', 'uvfobar', 'uvoobar'],
         'vl1l2_msve': ['uvffbar', 'uvfobar', 'uvoobar'],
-- 
2.43.0


From 00622dedcb3101d22278eee94f8f8a7cf86f9e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:44 +0000
Subject: [PATCH 05/80] fix: return wind directions in degrees

The direction was computed in radians and then wrapped to 0-360 as if it
were in degrees.
---
 metcalcpy/util/met_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/met_stats.py b/metcalcpy/util/met_stats.py
index 33770dc..a9d3b3c 100644
--- a/metcalcpy/util/met_stats.py
+++ b/metcalcpy/util/met_stats.py
@@ -48,7 +48,7 @@ def calc_direction(u_comp, v_comp):
     if abs(u_comp) < tolerance and abs(v_comp) < tolerance:
         return None
 
-    direction = np.arctan2(u_comp, v_comp)
+    direction = np.rad2deg(np.arctan2(u_comp, v_comp))
     # convert to [0,360]
     direction = direction - 360 * math.floor(direction / 360)
     return direction
-- 
2.43.0


From 3ca7fc76925633eae1a0fe0c0f3b747d46b0b016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:44 +0000
Subject: [PATCH 06/80] fix: VCNT_DIR_ERR is a signed angle

The angle was wrapped to 0-360, so clockwise errors were never negative and
VCNT_DIR_ABSER could exceed 180 degrees.
---
 metcalcpy/util/vcnt_statistics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metcalcpy/util/vcnt_statistics.py b/metcalcpy/util/vcnt_statistics.py
index c24cc02..507cfc1 100644
--- a/metcalcpy/util/vcnt_statistics.py
+++ b/metcalcpy/util/vcnt_statistics.py
@@ -478,6 +478,9 @@ def calculate_vcnt_dir_err(input_data, columns_names, aggregation=False):
         b = uf * uo + vf * vo
 
         dir_err = calc_direction(a, b)
+        # signed angle
+        if dir_err is not None and dir_err > 180:
+            dir_err = dir_err - 360
 
         result = round_half_up(dir_err, PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
-- 
2.43.0


From 77bc6812f9399183e6018fd20390e6d9b2ae13c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:16 +0000
Subject: [PATCH 07/80] fix: SI has no value when the mean observation is zero

The division by zero was not caught and aborted the whole job.
---
 metcalcpy/util/sl1l2_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/sl1l2_statistics.py b/metcalcpy/util/sl1l2_statistics.py
index 96f5e65..b65d944 100644
--- a/metcalcpy/util/sl1l2_statistics.py
+++ b/metcalcpy/util/sl1l2_statistics.py
@@ -475,7 +475,7 @@ def calculate_si(input_data, columns_names, aggregation=False):
         obar = calculate_obar(input_data, columns_names, aggregation)
         result = rmse / obar
         result = round_half_up(result, PRECISION)
-    except (TypeError, Warning):
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
     return result
-- 
2.43.0


From 9f573d151c1f134df365bd64dfc017f374b701ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:56 +0000
Subject: [PATCH 08/80] fix: ESTDEV has no value for a single pair

The nested calculations switch off the conversion of numpy warnings to
exceptions, so the undefined value reached the rounding and raised an
error that was not caught.
---
 metcalcpy/util/sl1l2_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/sl1l2_statistics.py b/metcalcpy/util/sl1l2_statistics.py
index b65d944..f0ec151 100644
--- a/metcalcpy/util/sl1l2_statistics.py
+++ b/metcalcpy/util/sl1l2_statistics.py
@@ -502,7 +502,7 @@ def calculate_estdev(input_data, columns_names, aggregation=False):
         mse = calculate_mse(input_data, columns_names, aggregation)
         result = calculate_stddev(me * total, mse * total, total)
         result = round_half_up(result, PRECISION)
-    except (TypeError, Warning):
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
     return result
-- 
2.43.0


From 1e727d74e4dc32a1c708dd6f004382ba3469ea03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:56 +0000
Subject: [PATCH 09/80] fix: RMSE and BCRMSE survive a slightly negative mean
 square

Floating point noise can make the (bias corrected) mean square negative for
a constant error. The root of it raised an error that was not caught.
---
 metcalcpy/util/sl1l2_statistics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/util/sl1l2_statistics.py b/metcalcpy/util/sl1l2_statistics.py
index f0ec151..70fd148 100644
--- a/metcalcpy/util/sl1l2_statistics.py
+++ b/metcalcpy/util/sl1l2_statistics.py
@@ -449,7 +449,7 @@ def calculate_rmse(input_data, columns_names, aggregation=False):
     try:
         result = np.sqrt(calculate_mse(input_data, columns_names, aggregation))
         result = round_half_up(result, PRECISION)
-    except (TypeError, Warning):
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
     return result
@@ -552,7 +552,7 @@ def calculate_bcrmse(input_data, columns_names, aggregation=False):
     try:
         result = np.sqrt(calculate_bcmse(input_data, columns_names, aggregation))
         result = round_half_up(result, PRECISION)
-    except (TypeError, Warning):
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
     return result
-- 
2.43.0


From 69238a3b3b5aea3db67cecb334135228c3377edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:56 +0000
Subject: [PATCH 10/80] fix: aggregate ECNT_SPREAD_PLUS_OERR from its own
 column

It was computed from SPREAD_OERR.
---
 metcalcpy/agg_stat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index e897c11..a501ae9 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -491,7 +491,7 @@ class AggStat:
 
         variance = data_for_prepare['spread'].values * data_for_prepare['spread'].values
         variance_oerr = data_for_prepare['spread_oerr'].values * data_for_prepare['spread_oerr'].values
-        variance_plus_oerr = data_for_prepare['spread_oerr'].values * data_for_prepare['spread_oerr'].values
+        variance_plus_oerr = data_for_prepare['spread_plus_oerr'].values * data_for_prepare['spread_plus_oerr'].values
 
         data_for_prepare['mse'] = mse * data_for_prepare['total'].values
         data_for_prepare['mse_oerr'] = mse_oerr * data_for_prepare['total'].values
-- 
2.43.0


From 75f424258470b897f91b79637f937ce27ccf6fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:57 +0000
Subject: [PATCH 11/80] fix: SSVAR_TOTAL can be aggregated

It has no weighted fields and its preparation failed with a KeyError.
---
 metcalcpy/agg_stat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index a501ae9..44c6b50 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -535,7 +535,7 @@ class AggStat:
         data_for_prepare.rename(columns={"total": "total_orig", "bin_n": "total"}, inplace=True)
         self.column_names = data_for_prepare.columns.values
 
-        for column in self.STATISTIC_TO_FIELDS[self.statistic]:
+        for column in self.STATISTIC_TO_FIELDS.get(self.statistic, []):
             data_for_prepare[column] \
                 = data_for_prepare[column].values * data_for_prepare['total'].values
 
-- 
2.43.0


From cb212617747799df4679762b5b2dfddfb9eb9684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:57 +0000
Subject: [PATCH 12/80] fix: weight the observed event frequency of NBRCNT
 lines

O_RATE was divided by the total without having been multiplied by it, which
also affected AFSS and UFSS.
---
 metcalcpy/agg_stat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 44c6b50..04d0750 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -552,9 +552,11 @@ class AggStat:
         fss_den = (data_for_prepare['fbs'].values / (1.0 - data_for_prepare['fss'].values)) * total
 
         f_rate = total * data_for_prepare['f_rate'].values
+        o_rate = total * data_for_prepare['o_rate'].values
         data_for_prepare['fbs'] = fbs
         data_for_prepare['fss'] = fss_den
         data_for_prepare['f_rate'] = f_rate
+        data_for_prepare['o_rate'] = o_rate
 
     def _prepare_pct_data(self, data_for_prepare):
         """Prepares pct data.
-- 
2.43.0


From 8d23818bd0461843ae2e760cebaea50e8970558a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:03 +0000
Subject: [PATCH 13/80] fix: no sample standard deviation for one pair

With one pair the formula divides by zero; depending on rounding noise the
result was infinite and could not be rounded.
---
 metcalcpy/util/sl1l2_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/util/sl1l2_statistics.py b/metcalcpy/util/sl1l2_statistics.py
index 70fd148..9061f24 100644
--- a/metcalcpy/util/sl1l2_statistics.py
+++ b/metcalcpy/util/sl1l2_statistics.py
@@ -571,7 +571,7 @@ def calculate_stddev(sum_total, sum_sq, n):
                 calculated STDDEV as float
                 or None if some of the data values are missing or invalid
     """
-    if n < 1:
+    if n <= 1:
         return None
     v = (sum_sq - sum_total * sum_total / n) / (n - 1)
     if v < 0:
-- 
2.43.0


From 23608c105d5648a7d15b7ec5bafa6737c843c43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:56 +0000
Subject: [PATCH 14/80] fix: let the PSTD Brier, skill score and resolution be
 computed

The total is a number and has no reset_index, so all three raised
AttributeError.
---
 metcalcpy/util/pstd_statistics.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/metcalcpy/util/pstd_statistics.py b/metcalcpy/util/pstd_statistics.py
index 8d9f96d..2ee7a01 100644
--- a/metcalcpy/util/pstd_statistics.py
+++ b/metcalcpy/util/pstd_statistics.py
@@ -42,8 +42,6 @@ def calculate_pstd_brier(input_data, columns_names):
         o_bar_table = df_pct_perm['oy_i'].sum() / t_table
         o_bar = input_data[0, get_column_index_by_name(columns_names, 'o_bar')]
 
-        t_table.reset_index(inplace=True, drop=True)
-
         reliability = calc_reliability(t_table, df_pct_perm)
         resolution = calc_resolution(t_table, df_pct_perm, o_bar)
         uncertainty = calc_uncertainty(o_bar_table)
@@ -76,7 +74,6 @@ def calculate_pstd_bss_smpl(input_data, columns_names):
         o_bar_table = df_pct_perm['oy_i'].sum() / t_table
         o_bar = input_data[0, get_column_index_by_name(columns_names, 'o_bar')]
 
-        t_table.reset_index(inplace=True, drop=True)
         reliability = calc_reliability(t_table, df_pct_perm)
         resolution = calc_resolution(t_table, df_pct_perm, o_bar)
         uncertainty = calc_uncertainty(o_bar_table)
@@ -161,7 +158,6 @@ def calculate_pstd_resolution(input_data, columns_names):
         df_pct_perm = _calc_common_stats(columns_names, input_data)
         o_bar = input_data[0, get_column_index_by_name(columns_names, 'o_bar')]
         t_table = df_pct_perm['n_i'].sum()
-        t_table.reset_index(inplace=True, drop=True)
         resolution = calc_resolution(t_table, df_pct_perm, o_bar)
         result = round_half_up(resolution, PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
-- 
2.43.0


From 06be7d8821e7cfa44efce657f1d8ff26fc451b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:22 +0000
Subject: [PATCH 15/80] fix: report no value for an undefined PSTD_ROC_AUC

A table without observed events or without non-events raised a division
warning and left warnings turned into errors for later calls.
---
 metcalcpy/util/pstd_statistics.py | 46 ++++++++++++++++---------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/metcalcpy/util/pstd_statistics.py b/metcalcpy/util/pstd_statistics.py
index 2ee7a01..3ae93de 100644
--- a/metcalcpy/util/pstd_statistics.py
+++ b/metcalcpy/util/pstd_statistics.py
@@ -260,28 +260,30 @@ def calculate_pstd_roc_auc(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-
-    df_pct_perm = _calc_common_stats(columns_names, input_data)
-    roc = _calc_pct_roc(df_pct_perm)
-    # add 1st and last rows
-    final_roc = pd.DataFrame(
-        {'thresh': 0, 'n11': 0, 'n10': 0, 'n01': 0, 'n00': 0, 'pody': 1, 'pofd': 1},
-        index=[0])
-    final_roc = pd.concat([final_roc, roc])
-    final_roc = pd.concat([final_roc,
-        pd.DataFrame(
-            {'thresh': 0, 'n11': 0, 'n10': 0, 'n01': 0, 'n00': 0, 'pody': 0, 'pofd': 0},
-            index=[0]) ])
-
-    final_roc.reset_index(inplace=True, drop=True)
-    roc_auc = 0
-    for index, row in final_roc.iterrows():
-        if index != 0:
-            roc_auc = roc_auc + 0.5 * (final_roc.iloc[index - 1]['pody'] + row.pody) \
-                      * (final_roc.iloc[index - 1]['pofd'] - row.pofd)
-
-    result = round_half_up(roc_auc, PRECISION)
-
+    try:
+        df_pct_perm = _calc_common_stats(columns_names, input_data)
+        roc = _calc_pct_roc(df_pct_perm)
+        # add 1st and last rows
+        final_roc = pd.DataFrame(
+            {'thresh': 0, 'n11': 0, 'n10': 0, 'n01': 0, 'n00': 0, 'pody': 1, 'pofd': 1},
+            index=[0])
+        final_roc = pd.concat([final_roc, roc])
+        final_roc = pd.concat([final_roc,
+            pd.DataFrame(
+                {'thresh': 0, 'n11': 0, 'n10': 0, 'n01': 0, 'n00': 0, 'pody': 0, 'pofd': 0},
+                index=[0]) ])
+
+        final_roc.reset_index(inplace=True, drop=True)
+        roc_auc = 0
+        for index, row in final_roc.iterrows():
+            if index != 0:
+                roc_auc = roc_auc + 0.5 * (final_roc.iloc[index - 1]['pody'] + row.pody) \
+                          * (final_roc.iloc[index - 1]['pofd'] - row.pofd)
+
+        result = round_half_up(roc_auc, PRECISION)
+    except (TypeError, ZeroDivisionError, Warning, ValueError):
+        result = None
+    warnings.filterwarnings('ignore')
     return result
 
 
-- 
2.43.0


From 205108b87f2933203fd884c9cc67fbc39f20cc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:22 +0000
Subject: [PATCH 16/80] fix: take o_bar of a PCT point from the records of that
 point

It was computed over all independent values, so the Brier score at one
lead depended on the records of the other leads. A reliability diagram
(independent variable thresh_i) still uses the whole series.
---
 metcalcpy/agg_stat.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 04d0750..bc7f9a5 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -1045,7 +1045,8 @@ class AggStat:
                                 indy_val = filter_value
 
                             all_filters.append(self.input_data[field].isin(filter_list))
-                        if field in series_val.keys():
+                        if field in series_val.keys() or \
+                                (field == self.params['indy_var'] and field != 'thresh_i'):
                             all_filters_pct.append((self.input_data[field].isin(filter_list)))
 
                     # add fcst var
@@ -1054,6 +1055,7 @@ class AggStat:
                         fcst_var = list(self.params['fcst_var_val_' + axis].keys())[0]
                         if 'fcst_var' in self.input_data.columns:
                             all_filters.append((self.input_data['fcst_var'].isin([fcst_var])))
+                            all_filters_pct.append((self.input_data['fcst_var'].isin([fcst_var])))
 
                     # use numpy to select the rows where any record evaluates to True
                     mask = np.array(all_filters).all(axis=0)
-- 
2.43.0


From 5bef7f93359bc23450253366056fe4648b39efc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:56:40 +0000
Subject: [PATCH 17/80] fix: report no PSTD_ROC_AUC for a table without
 forecasts

The closing points alone made it 0.5.
---
 metcalcpy/util/pstd_statistics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metcalcpy/util/pstd_statistics.py b/metcalcpy/util/pstd_statistics.py
index 3ae93de..f49b283 100644
--- a/metcalcpy/util/pstd_statistics.py
+++ b/metcalcpy/util/pstd_statistics.py
@@ -262,6 +262,8 @@ def calculate_pstd_roc_auc(input_data, columns_names):
     warnings.filterwarnings('error')
     try:
         df_pct_perm = _calc_common_stats(columns_names, input_data)
+        if df_pct_perm.empty:
+            raise ValueError('no forecasts to calculate ROC_AUC')
         roc = _calc_pct_roc(df_pct_perm)
         # add 1st and last rows
         final_roc = pd.DataFrame(
-- 
2.43.0


From 2abfdbc57e96313f53a285d19a19e1e4eca9cdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:57:35 +0000
Subject: [PATCH 18/80] fix: order the points of a ROC curve by threshold value

The sorted thresholds were sorted again as text, so that '>=10' came
before '>=2'.
---
 metcalcpy/util/ctc_statistics.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/metcalcpy/util/ctc_statistics.py b/metcalcpy/util/ctc_statistics.py
index 007cec4..4b8160f 100644
--- a/metcalcpy/util/ctc_statistics.py
+++ b/metcalcpy/util/ctc_statistics.py
@@ -207,13 +207,8 @@ def calculate_ctc_roc(data, ascending):
     """
     # create a data frame to hold the aggregated contingency table and ROC data
     sorted_data = sort_by_thresh(data, ascending=ascending)
-    list_thresh = np.sort(np.unique(sorted_data['fcst_thresh'].to_numpy()))
-
-    # If descending order was requested for sorting the input dataframe,
-    # reverse the order of the list_thresh to
-    # maintain results in descending order.
-    if not ascending:
-        list_thresh = list_thresh[::-1]
+    # unique keeps the order of the sorted thresholds
+    list_thresh = sorted_data['fcst_thresh'].unique()
 
     df_roc = pd.DataFrame(
         {'thresh': list_thresh, 'pody': None, 'pofd': None})
-- 
2.43.0


From 8ca3b633db77916336f0131d8b6659b3f0607fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:14 +0000
Subject: [PATCH 19/80] fix: compute ECLV of PCT lines with current numpy

np.float no longer exists, so every PCT table raised AttributeError.
---
 metcalcpy/util/eclv_statistics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metcalcpy/util/eclv_statistics.py b/metcalcpy/util/eclv_statistics.py
index bd113e7..e74eccf 100644
--- a/metcalcpy/util/eclv_statistics.py
+++ b/metcalcpy/util/eclv_statistics.py
@@ -68,10 +68,10 @@ def calculate_eclv(input_data: np.array, columns_names: np.array,
             thresh_i_more = input_data[:, index_thresh_i] > thresh
             thresh_i_less = input_data[:, index_thresh_i] <= thresh
 
-            n11 = np.nansum(input_data[:, index_oy_i][thresh_i_more].astype(np.float))
-            n10 = np.nansum(input_data[:, index_on_i][thresh_i_more].astype(np.float))
-            n01 = np.nansum(input_data[:, index_oy_i][thresh_i_less].astype(np.float))
-            n00 = np.nansum(input_data[:, index_on_i][thresh_i_less].astype(np.float))
+            n11 = np.nansum(input_data[:, index_oy_i][thresh_i_more].astype(float))
+            n10 = np.nansum(input_data[:, index_on_i][thresh_i_more].astype(float))
+            n01 = np.nansum(input_data[:, index_oy_i][thresh_i_less].astype(float))
+            n00 = np.nansum(input_data[:, index_on_i][thresh_i_less].astype(float))
         else:
             n11 = sum_column_data_by_name(input_data, columns_names, 'fy_oy')
             n10 = sum_column_data_by_name(input_data, columns_names, 'fy_on')
-- 
2.43.0


From 7524a21ada85bb39584f136588d5c52f6a92d173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:23 +0000
Subject: [PATCH 20/80] fix: finish ECLV jobs that contain a series without an
 economic value

A series without records, without events or without non-events aborted
the whole job.
---
 metcalcpy/agg_eclv.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/metcalcpy/agg_eclv.py b/metcalcpy/agg_eclv.py
index eed39eb..ceceb37 100644
--- a/metcalcpy/agg_eclv.py
+++ b/metcalcpy/agg_eclv.py
@@ -143,9 +143,10 @@ class AggEclv:
 
         # if the data frame is empty - do nothing and return an empty object
         if series_data.empty:
-            return BootstrapResults(lower_bound=None,
-                                    value=None,
-                                    upper_bound=None)
+            return {ind: BootstrapResults(lower_bound=None,
+                                          value=None,
+                                          upper_bound=None)
+                    for ind in range(len(thresholds))}
 
         data = series_data[self.column_names].to_numpy()
         boot_stat_thresh = {}
@@ -259,8 +260,13 @@ class AggEclv:
 
             for thresh_ind, thresh in enumerate(thresholds):
                 out_frame_local['thresh_i'] = [thresh] * (len(self.steps) + self.add_base_rate)
-                out_frame_local['x_pnt_i'] = bootstrap_results[thresh_ind].value['cl']
-                out_frame_local['y_pnt_i'] = bootstrap_results[thresh_ind].value['V']
+                if bootstrap_results[thresh_ind].value is not None:
+                    out_frame_local['x_pnt_i'] = bootstrap_results[thresh_ind].value['cl']
+                    out_frame_local['y_pnt_i'] = bootstrap_results[thresh_ind].value['V']
+                else:
+                    # the economic value is undefined for this data
+                    out_frame_local['x_pnt_i'] = self.steps
+                    out_frame_local['y_pnt_i'] = None
                 out_frame_local['nstats'] = [len(point_data)] * (len(self.steps) + self.add_base_rate)
                 if self.params['num_iterations'] > 1:
                     out_frame_local['stat_btcu'] = bootstrap_results[thresh_ind].upper_bound
-- 
2.43.0


From 7419f77237f67601dd64817770a9034b92127dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:29 +0000
Subject: [PATCH 21/80] fix: select the objects that the MODE ratios name

RATIO_FSM_FSA counted cluster objects, RATIO_FSU_FSA counted matched
objects, RATIO_FSM_ASM, RATIO_OSM_ASM and AREARAT_FSM_ASM counted
unmatched objects, and AREARAT_OSA_FSA divided by itself.
---
 metcalcpy/util/mode_arearat_statistics.py | 6 +++---
 metcalcpy/util/mode_ratio_statistics.py   | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/metcalcpy/util/mode_arearat_statistics.py b/metcalcpy/util/mode_arearat_statistics.py
index 2ca56f8..e8ce45d 100644
--- a/metcalcpy/util/mode_arearat_statistics.py
+++ b/metcalcpy/util/mode_arearat_statistics.py
@@ -266,8 +266,8 @@ def calculate_arearat_fsm_asm(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 0}
-    denominator_filter = {'fcst_flag': 1, 'simple_flag': 1}
+    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 1}
+    denominator_filter = {'simple_flag': 1, 'matched_flag': 1}
 
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
@@ -613,7 +613,7 @@ def calculate_arearat_osa_fsa(input_data, columns_names):
     """
     warnings.filterwarnings('error')
     nominator_filter = {'fcst_flag': 0, 'simple_flag': 1}
-    denominator_filter = {'fcst_flag': 0, 'simple_flag': 1}
+    denominator_filter = {'fcst_flag': 1, 'simple_flag': 1}
 
     try:
         nominator_data = column_data_by_name_value(input_data, columns_names, nominator_filter)
diff --git a/metcalcpy/util/mode_ratio_statistics.py b/metcalcpy/util/mode_ratio_statistics.py
index 39b7571..d7ea142 100644
--- a/metcalcpy/util/mode_ratio_statistics.py
+++ b/metcalcpy/util/mode_ratio_statistics.py
@@ -136,7 +136,7 @@ def calculate_ratio_fsm_fsa(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 1, 'matched_flag': 1}
+    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 1}
     denominator_filter = {'fcst_flag': 1, 'simple_flag': 1}
     try:
         nominator = nrow_column_data_by_name_value(input_data, columns_names, nominator_filter)
@@ -162,7 +162,7 @@ def calculate_ratio_fsu_fsa(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 1}
+    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 0}
     denominator_filter = {'fcst_flag': 1, 'simple_flag': 1}
     try:
         nominator = nrow_column_data_by_name_value(input_data, columns_names, nominator_filter)
@@ -240,7 +240,7 @@ def calculate_ratio_fsm_asm(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 0}
+    nominator_filter = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 1}
     denominator_filter = {'matched_flag': 1, 'simple_flag': 1}
     try:
         nominator = nrow_column_data_by_name_value(input_data, columns_names, nominator_filter)
@@ -266,7 +266,7 @@ def calculate_ratio_osm_asm(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 0, 'simple_flag': 1, 'matched_flag': 0}
+    nominator_filter = {'fcst_flag': 0, 'simple_flag': 1, 'matched_flag': 1}
     denominator_filter = {'matched_flag': 1, 'simple_flag': 1}
     try:
         nominator = nrow_column_data_by_name_value(input_data, columns_names, nominator_filter)
-- 
2.43.0


From fe31089988479cd777d6990f2cffb14ddd7bf422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:29 +0000
Subject: [PATCH 22/80] fix: compute OBJCSI, OBJPODY and OBJAFAR from hits,
 misses and false alarms

OBJCSI counted unmatched forecasts as hits, OBJPODY counted false alarms
as misses and OBJAFAR weighted the hits four times.
---
 metcalcpy/util/mode_arearat_statistics.py | 2 +-
 metcalcpy/util/mode_ratio_statistics.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/metcalcpy/util/mode_arearat_statistics.py b/metcalcpy/util/mode_arearat_statistics.py
index e8ce45d..347bbd5 100644
--- a/metcalcpy/util/mode_arearat_statistics.py
+++ b/metcalcpy/util/mode_arearat_statistics.py
@@ -983,7 +983,7 @@ def calculate_objafar(input_data, columns_names):
         denominator_2_data = \
             column_data_by_name_value(input_data, columns_names, denominator_filter_2)
         denominator_2 = sum_column_data_by_name(denominator_2_data, columns_names, 'area')
-        result = round_half_up(nominator / (denominator_1 + 2 * denominator_2), PRECISION)
+        result = round_half_up(nominator / (denominator_1 + denominator_2 / 2), PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
     warnings.filterwarnings('ignore')
diff --git a/metcalcpy/util/mode_ratio_statistics.py b/metcalcpy/util/mode_ratio_statistics.py
index d7ea142..37373ea 100644
--- a/metcalcpy/util/mode_ratio_statistics.py
+++ b/metcalcpy/util/mode_ratio_statistics.py
@@ -838,7 +838,7 @@ def calculate_objcsi(input_data, columns_names):
             or None if some of the data values are missing or invalid
     """
     warnings.filterwarnings('error')
-    nominator_filter = {'fcst_flag': 1, 'matched_flag': 0}
+    nominator_filter = {'simple_flag': 1, 'matched_flag': 1}
     denominator_filter_1 = {'simple_flag': 1, 'matched_flag': 1}
     denominator_filter_2 = {'simple_flag': 1, 'matched_flag': 0}
 
@@ -871,7 +871,7 @@ def calculate_objpody(input_data, columns_names):
     warnings.filterwarnings('error')
     nominator_filter = {'simple_flag': 1, 'matched_flag': 1}
     denominator_filter_1 = {'simple_flag': 1, 'matched_flag': 1}
-    denominator_filter_2 = {'fcst_flag': 1, 'simple_flag': 1, 'matched_flag': 0}
+    denominator_filter_2 = {'fcst_flag': 0, 'simple_flag': 1, 'matched_flag': 0}
 
     try:
         nominator = nrow_column_data_by_name_value(input_data, columns_names, nominator_filter)
-- 
2.43.0


From 7b09385d4e6ce3b2fc677bb4d3ba5680d69bc627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:40 +0000
Subject: [PATCH 23/80] fix: find the columns of 3D objects in the volume
 ratios

The renamed columns were a list that never equals a column name, so every
volume statistic was missing.
---
 metcalcpy/util/mode_3d_volrat_statistics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/util/mode_3d_volrat_statistics.py b/metcalcpy/util/mode_3d_volrat_statistics.py
index 1f66035..ff8dbdb 100644
--- a/metcalcpy/util/mode_3d_volrat_statistics.py
+++ b/metcalcpy/util/mode_3d_volrat_statistics.py
@@ -11,6 +11,8 @@
 """
 Program Name: mode_3d_volrat_statistics.py
 """
+import numpy as np
+
 from metcalcpy.util.mode_arearat_statistics import *
 from metcalcpy.util.utils import column_data_by_name_value, THREE_D_DATA_FILTER
 
@@ -639,4 +641,4 @@ def rename_column(columns_names):
             columns_names_new.insert(index, 'area')
         else:
             columns_names_new.insert(index, name)
-    return columns_names_new
+    return np.array(columns_names_new)
-- 
2.43.0


From 288b9ad7f8d2ab9eb3b8e646cf989d41022cb9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:09 +0000
Subject: [PATCH 24/80] fix: sum no rows to zero

Object areas of an empty selection had no sum, so that an area ratio of
0 was reported as missing.
---
 metcalcpy/util/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index c8b9961..f170eb5 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -277,7 +277,8 @@ def sum_column_data_by_name(input_data, columns, column_name, rm_none=True):
 
     data_array = column_data_by_name(input_data, columns, column_name)
 
-    if data_array is None or np.isnan(data_array).all():
+    # the sum over no rows is 0, only missing values have no sum
+    if data_array is None or (data_array.size > 0 and np.isnan(data_array).all()):
         return None
 
     try:
-- 
2.43.0


From 47abbdb5099d967ed12d23de8f6ecc5b5aec5c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:07 +0000
Subject: [PATCH 25/80] fix: return no value for totals and counts of missing
 data

---
 metcalcpy/util/ctc_statistics.py | 8 ++++++++
 metcalcpy/util/utils.py          | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/metcalcpy/util/ctc_statistics.py b/metcalcpy/util/ctc_statistics.py
index 4b8160f..b01d1c9 100644
--- a/metcalcpy/util/ctc_statistics.py
+++ b/metcalcpy/util/ctc_statistics.py
@@ -703,6 +703,8 @@ def calculate_ctc_oy(input_data, columns_names):
     """
     fy_oy = sum_column_data_by_name(input_data, columns_names, 'fy_oy')
     fn_oy = sum_column_data_by_name(input_data, columns_names, 'fn_oy')
+    if fy_oy is None or fn_oy is None:
+        return None
     return round_half_up(fy_oy + fn_oy, PRECISION)
 
 
@@ -722,6 +724,8 @@ def calculate_ctc_on(input_data, columns_names):
     """
     fy_on = sum_column_data_by_name(input_data, columns_names, 'fy_on')
     fn_on = sum_column_data_by_name(input_data, columns_names, 'fn_on')
+    if fy_on is None or fn_on is None:
+        return None
     return round_half_up(fy_on + fn_on, PRECISION)
 
 
@@ -741,6 +745,8 @@ def calculate_ctc_fy(input_data, columns_names):
     """
     fy_on = sum_column_data_by_name(input_data, columns_names, 'fy_on')
     fy_oy = sum_column_data_by_name(input_data, columns_names, 'fy_oy')
+    if fy_on is None or fy_oy is None:
+        return None
     return round_half_up(fy_on + fy_oy, PRECISION)
 
 
@@ -760,6 +766,8 @@ def calculate_ctc_fn(input_data, columns_names):
     """
     fn_on = sum_column_data_by_name(input_data, columns_names, 'fn_on')
     fn_oy = sum_column_data_by_name(input_data, columns_names, 'fn_oy')
+    if fn_on is None or fn_oy is None:
+        return None
     return round_half_up(fn_on + fn_oy, PRECISION)
 
 
diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index f170eb5..c028cd0 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -253,8 +253,11 @@ def round_half_up(num, decimals=0):
             decimals: decimal place
         Returns:
             rounded number
+            or None if there is no number
 
     """
+    if num is None:
+        return None
     multiplier = 10 ** decimals
     return math.floor(num * multiplier + 0.5) / multiplier
 
-- 
2.43.0


From fddc7f2ac921dbe20641ae19525f10aa749c1107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:08:07 +0000
Subject: [PATCH 26/80] fix: ignore missing lines in BASER as in the other CTC
 statistics

---
 metcalcpy/util/ctc_statistics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metcalcpy/util/ctc_statistics.py b/metcalcpy/util/ctc_statistics.py
index b01d1c9..1e36711 100644
--- a/metcalcpy/util/ctc_statistics.py
+++ b/metcalcpy/util/ctc_statistics.py
@@ -41,9 +41,9 @@ def calculate_baser(input_data, columns_names):
     warnings.filterwarnings('error')
 
     try:
-        result = (sum(input_data[:, np.where(columns_names == 'fy_oy')[0][0]])
-                  + sum(input_data[:, np.where(columns_names == 'fn_oy')[0][0]])) \
-                 / sum(input_data[:, np.where(columns_names == 'total')[0][0]])
+        result = (sum_column_data_by_name(input_data, columns_names, 'fy_oy')
+                  + sum_column_data_by_name(input_data, columns_names, 'fn_oy')) \
+                 / sum_column_data_by_name(input_data, columns_names, 'total')
         result = round_half_up(result, PRECISION)
     except (TypeError, ZeroDivisionError, Warning, ValueError):
         result = None
-- 
2.43.0


From 431abaa9221e4e3a8908e9bea15732ddb4296279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:02 +0000
Subject: [PATCH 27/80] fix: restore the warning filters when a statistic
 returns early

---
 metcalcpy/util/ctc_statistics.py    | 7 +++++++
 metcalcpy/util/eclv_statistics.py   | 2 ++
 metcalcpy/util/sal1l2_statistics.py | 2 ++
 3 files changed, 11 insertions(+)

diff --git a/metcalcpy/util/ctc_statistics.py b/metcalcpy/util/ctc_statistics.py
index 1e36711..6c81c10 100644
--- a/metcalcpy/util/ctc_statistics.py
+++ b/metcalcpy/util/ctc_statistics.py
@@ -94,6 +94,7 @@ def calculate_fbias(input_data, columns_names):
         oy = sum_column_data_by_name(input_data, columns_names, 'fy_oy') \
              + sum_column_data_by_name(input_data, columns_names, 'fn_oy')
         if oy == 0:
+            warnings.filterwarnings('ignore')
             return None
         oyn = sum_column_data_by_name(input_data, columns_names, 'fy_oy') \
               + sum_column_data_by_name(input_data, columns_names, 'fy_on')
@@ -122,6 +123,7 @@ def calculate_fmean(input_data, columns_names):
     try:
         total = sum_column_data_by_name(input_data, columns_names, 'total')
         if total == 0:
+            warnings.filterwarnings('ignore')
             return None
         oyn = sum_column_data_by_name(input_data, columns_names, 'fy_oy') \
               + sum_column_data_by_name(input_data, columns_names, 'fy_on')
@@ -322,6 +324,7 @@ def calculate_gss(input_data, columns_names):
     try:
         total = sum_column_data_by_name(input_data, columns_names, 'total')
         if total == 0:
+            warnings.filterwarnings('ignore')
             return None
         fy_oy = sum_column_data_by_name(input_data, columns_names, 'fy_oy')
         fy_on = sum_column_data_by_name(input_data, columns_names, 'fy_on')
@@ -380,6 +383,7 @@ def calculate_hss(input_data, columns_names):
     try:
         total = sum_column_data_by_name(input_data, columns_names, 'total')
         if total == 0:
+            warnings.filterwarnings('ignore')
             return None
         fy_oy = sum_column_data_by_name(input_data, columns_names, 'fy_oy')
         fy_on = sum_column_data_by_name(input_data, columns_names, 'fy_on')
@@ -444,6 +448,7 @@ def calculate_lodds(input_data, columns_names):
         fn_oy = sum_column_data_by_name(input_data, columns_names, 'fn_oy')
         fn_on = sum_column_data_by_name(input_data, columns_names, 'fn_on')
         if fy_oy is None or fy_on is None or fn_oy is None or fn_on is None:
+            warnings.filterwarnings('ignore')
             return None
         v = np.log(fy_oy) + np.log(fn_on) - np.log(fy_on) - np.log(fn_oy)
         v = round_half_up(v, PRECISION)
@@ -473,8 +478,10 @@ def calculate_bagss(input_data, columns_names):
         total = sum_column_data_by_name(input_data, columns_names, 'total')
         fy_on = sum_column_data_by_name(input_data, columns_names, 'fy_on')
         if fy_oy is None or fn_oy is None or fy_on is None or total is None:
+            warnings.filterwarnings('ignore')
             return None
         if fy_oy == 0 or fn_oy == 0 or total == 0:
+            warnings.filterwarnings('ignore')
             return None
         dbl_o = fy_oy + fn_oy
         dbl_lf = np.log(dbl_o / fn_oy)
diff --git a/metcalcpy/util/eclv_statistics.py b/metcalcpy/util/eclv_statistics.py
index e74eccf..d6b2a31 100644
--- a/metcalcpy/util/eclv_statistics.py
+++ b/metcalcpy/util/eclv_statistics.py
@@ -55,9 +55,11 @@ def calculate_eclv(input_data: np.array, columns_names: np.array,
     # some validation
     if line_type != 'ctc' and line_type != 'pct':
         print(f'ERROR: incorrect line type {line_type} for calculating ECLV  ')
+        warnings.filterwarnings('ignore')
         return None
     if line_type == 'pct' and thresh is None:
         print(f'ERROR: provide thresh for calculating ECLV  ')
+        warnings.filterwarnings('ignore')
         return None
 
     try:
diff --git a/metcalcpy/util/sal1l2_statistics.py b/metcalcpy/util/sal1l2_statistics.py
index b44c407..d4fc25e 100644
--- a/metcalcpy/util/sal1l2_statistics.py
+++ b/metcalcpy/util/sal1l2_statistics.py
@@ -45,6 +45,7 @@ def calculate_anom_corr(input_data, columns_names, aggregation=False):
         v = (total ** 2 * ffbar - total ** 2 * fbar ** 2) \
             * (total ** 2 * oobar - total ** 2 * obar ** 2)
         if v <= 0:
+            warnings.filterwarnings('ignore')
             return None
         anom_corr = (total ** 2 * fobar - total ** 2 * fbar * obar) / np.sqrt(v)
         if round_half_up(anom_corr, PRECISION) > 1:
@@ -80,6 +81,7 @@ def calculate_anom_corr_raw(input_data, columns_names, aggregation=False):
         fobar = sum_column_data_by_name(input_data, columns_names, 'foabar') / total
         v = ffbar * oobar
         if v < 0:
+            warnings.filterwarnings('ignore')
             return None
         anom_corr_raw = fobar / np.sqrt(v)
         if anom_corr_raw > 1:
-- 
2.43.0


From f91953339adb13ae8cddd34ce1b4ee627eed83aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:58 +0000
Subject: [PATCH 28/80] fix: ignore missing PCT lines in o_bar

---
 metcalcpy/agg_stat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index bc7f9a5..520a25f 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -1071,10 +1071,10 @@ class AggStat:
                         filter_oy_i = [col for col in point_data_pct if col.startswith('oy_i')]
                         filter_on_i = [col for col in point_data_pct if col.startswith('on_i')]
                         # calculate oy_total
-                        oy_total = point_data_pct[filter_oy_i].values.sum()
+                        oy_total = np.nansum(point_data_pct[filter_oy_i].values)
 
                         # calculate T
-                        sum_n_i_orig_T = point_data_pct[filter_on_i].values.sum() + oy_total
+                        sum_n_i_orig_T = np.nansum(point_data_pct[filter_on_i].values) + oy_total
 
                         # calculate o_bar
                         o_bar = oy_total / sum_n_i_orig_T
-- 
2.43.0


From 6f24c03be9c5fc864c88e231eaee2d635e58f9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:21 +0000
Subject: [PATCH 29/80] fix: equalize each record once against the cases of all
 its series variables

---
 metcalcpy/agg_stat_eqz.py | 49 +++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 25 deletions(-)

diff --git a/metcalcpy/agg_stat_eqz.py b/metcalcpy/agg_stat_eqz.py
index 0102389..9e9a54d 100644
--- a/metcalcpy/agg_stat_eqz.py
+++ b/metcalcpy/agg_stat_eqz.py
@@ -89,6 +89,8 @@ class AggStatEventEqz:
             # perform for axis 2
             if self.params['series_val_2']:
                 output_ee_data = pd.concat([output_ee_data, self.perform_ee_on_axis(prev_cases, '2')])
+                # a record that belongs to both axes is saved once
+                output_ee_data = output_ee_data[~output_ee_data.index.duplicated()]
         else:
             output_ee_data = self.input_data
             if self.input_data.empty:
@@ -109,6 +111,10 @@ class AggStatEventEqz:
 
         output_ee_data = pd.DataFrame()
         for fcst_var, fcst_var_stats in self.params['fcst_var_val_' + axis].items():
+            # filter input data and previous cases based on fcst_var
+            # and all series variables values
+            series_data_for_ee = self.input_data[self.input_data['fcst_var'] == fcst_var]
+            series_data_for_prev_cases = prev_cases[prev_cases['fcst_var'] == fcst_var]
             for series_var, series_var_vals in self.params['series_val_' + axis].items():
 
                 series_var_vals_no_group = []
@@ -116,31 +122,24 @@ class AggStatEventEqz:
                     split_val = val.split(GROUP_SEPARATOR)
                     series_var_vals_no_group.extend(split_val)
 
-                # filter input data based on fcst_var, statistic and all series variables values
-                series_data_for_ee = self.input_data[
-                    (self.input_data['fcst_var'] == fcst_var)
-                    & (self.input_data[series_var].isin(series_var_vals_no_group))
-                    ]
-                # filter previous cases on the same  fcst_var,
-                # statistic and all series variables values
-                series_data_for_prev_cases = prev_cases[
-                    (prev_cases['fcst_var'] == fcst_var)
-                    & (prev_cases[series_var].isin(series_var_vals_no_group))
-                    ]
-                # get unique cases from filtered previous cases
-
-                series_data_for_prev_cases_unique = series_data_for_prev_cases['equalize'].unique()
-
-                # perform ee
-                series_data_after_ee = event_equalize_against_values(
-                    series_data_for_ee,
-                    series_data_for_prev_cases_unique)
-
-                # append EE data to result
-                if output_ee_data.empty:
-                    output_ee_data = series_data_after_ee
-                else:
-                    output_ee_data = pd.concat([output_ee_data, series_data_after_ee])
+                series_data_for_ee = series_data_for_ee[
+                    series_data_for_ee[series_var].isin(series_var_vals_no_group)]
+                series_data_for_prev_cases = series_data_for_prev_cases[
+                    series_data_for_prev_cases[series_var].isin(series_var_vals_no_group)]
+
+            # get unique cases from filtered previous cases
+            series_data_for_prev_cases_unique = series_data_for_prev_cases['equalize'].unique()
+
+            # perform ee
+            series_data_after_ee = event_equalize_against_values(
+                series_data_for_ee,
+                series_data_for_prev_cases_unique)
+
+            # append EE data to result
+            if output_ee_data.empty:
+                output_ee_data = series_data_after_ee
+            else:
+                output_ee_data = pd.concat([output_ee_data, series_data_after_ee])
         return output_ee_data
 
 
-- 
2.43.0


From d2ede0942041241539e618b11a84e463c084c0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:50 +0000
Subject: [PATCH 30/80] fix: keep the cases common to both axes, and each
 record once, in event equalization

---
 metcalcpy/util/utils.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index c028cd0..c4e4629 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -736,6 +736,9 @@ def equalize_axis_data(fix_vals_keys, fix_vals_permuted, params, input_data, axi
                 warnings.simplefilter(action="error", category=FutureWarning)
                 output_ee_data = pd.concat([output_ee_data, series_data_after_ee])
 
+    # without the statistic name the same records are equalized for each statistic, keep them once
+    output_ee_data = output_ee_data[~output_ee_data.index.duplicated()]
+
     try:
         output_ee_data_valid = output_ee_data.drop('equalize', axis=1)
 
@@ -790,22 +793,19 @@ def perform_event_equalization(params, input_data):
         output_ee_data_2 = \
             equalize_axis_data(fix_vals_keys, fix_vals_permuted_list, params, input_data, axis='2')
 
-        # append and reindex output from both axis
-        all_ee_records = pd.concat([output_ee_data, output_ee_data_2]).reindex()
-
-        # create a single unique dictionary from series for Y1 and Y2 to us in EE
-        all_series = {**params['series_val_1'], **params['series_val_2']}
-        for key in all_series:
-            all_series[key] = list(set(all_series[key]))
+        # append output from both axis
+        all_ee_records = pd.concat([output_ee_data.assign(ee_axis='y1'),
+                                    output_ee_data_2.assign(ee_axis='y2')])
 
-        # run EE on run event equalizer on Y1 and Y2
+        # each axis is already equalized, keep the cases that are present on both of them
         output_ee_data = event_equalize(all_ee_records, params['indy_var'],
-                                        all_series,
-                                        fix_vals_keys,
-                                        fix_vals_permuted_list, True,
+                                        {'ee_axis': ['y1', 'y2']},
+                                        [], [], True,
                                         params['line_type'] == "ssvar")
 
-        output_ee_data = output_ee_data.drop('equalize', axis=1)
+        output_ee_data = output_ee_data.drop(['equalize', 'ee_axis'], axis=1)
+        # keep the records that are used on both axes once
+        output_ee_data = output_ee_data[~output_ee_data.index.duplicated()]
 
     return output_ee_data
 
-- 
2.43.0


From 85edf6aceb743f3c34f83a7aeb36b8d0ca1bb6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:33 +0000
Subject: [PATCH 31/80] fix: equalize the fixed values and both axes in the
 event equalization job

---
 metcalcpy/agg_stat_event_equalize.py | 59 +++++++++++-----------------
 1 file changed, 22 insertions(+), 37 deletions(-)

diff --git a/metcalcpy/agg_stat_event_equalize.py b/metcalcpy/agg_stat_event_equalize.py
index 9a5d49f..f4275c5 100644
--- a/metcalcpy/agg_stat_event_equalize.py
+++ b/metcalcpy/agg_stat_event_equalize.py
@@ -36,8 +36,6 @@ import sys
 import itertools
 import pandas as pd
 import yaml
-import numpy as np
-import warnings
 
 from metcalcpy import GROUP_SEPARATOR
 from metcalcpy.event_equalize import event_equalize
@@ -72,17 +70,12 @@ class AggStatEventEqualize:
         """
         if not self.input_data.empty:
 
-            # list all fixed variables
+            # list all values of each fixed variable
+            fix_vals_permuted = []
             if 'fixed_vars_vals_input' in self.params:
-                fix_vals_permuted_list = []
                 for key in self.params['fixed_vars_vals_input']:
                     vals_permuted = list(itertools.product(*self.params['fixed_vars_vals_input'][key].values()))
-                    fix_vals_permuted_list.append(vals_permuted)
-
-                fix_vals_permuted = [item for sublist in fix_vals_permuted_list for item in sublist]
-
-            else:
-                fix_vals_permuted = []
+                    fix_vals_permuted.append([item for sublist in vals_permuted for item in sublist])
 
             # perform EE for each forecast variable on y1 axis
             output_ee_data = self.run_ee_on_axis(fix_vals_permuted, '1')
@@ -94,18 +87,16 @@ class AggStatEventEqualize:
 
                 output_ee_data = output_ee_data.drop('equalize', axis=1)
                 output_ee_data_2 = output_ee_data_2.drop('equalize', axis=1)
-                warnings.simplefilter(action='error', category=FutureWarning)
-                all_ee_records = pd.concat([output_ee_data, output_ee_data_2]).reindex()
-                all_series_vars = {}
-                for key in self.params['series_val_2']:
-                    all_series_vars[key] = np.unique(self.params['series_val_2'][key]
-                                                     + self.params['series_val_2'][key])
+                all_ee_records = pd.concat([output_ee_data.assign(ee_axis='y1'),
+                                            output_ee_data_2.assign(ee_axis='y2')])
 
+                # each axis is already equalized, keep the cases that are present on both of them
                 output_ee_data = event_equalize(all_ee_records, self.params['indy_var'],
-                                                all_series_vars,
-                                                list(self.params['fixed_vars_vals_input'].keys()),
-                                                fix_vals_permuted, True,
-                                                False)
+                                                {'ee_axis': ['y1', 'y2']},
+                                                [], [], True, False)
+                output_ee_data = output_ee_data.drop('ee_axis', axis=1)
+                # save the records that are used on both axes once
+                output_ee_data = output_ee_data[~output_ee_data.index.duplicated()]
 
         else:
             output_ee_data = pd.DataFrame()
@@ -122,7 +113,8 @@ class AggStatEventEqualize:
                A data frame that contains equalized records
        """
 
-        output_ee_data = pd.DataFrame()
+        # filter input data based on all series variables values
+        series_data_for_ee = self.input_data
         for series_var, series_var_vals in self.params['series_val_' + axis].items():
             # ungroup series value
             series_var_vals_no_group = []
@@ -130,23 +122,16 @@ class AggStatEventEqualize:
                 split_val = val.split(GROUP_SEPARATOR)
                 series_var_vals_no_group.extend(split_val)
 
-            # filter input data based on fcst_var, statistic and all series variables values
-            series_data_for_ee = self.input_data[
-                self.input_data[series_var].isin(series_var_vals_no_group)
+            series_data_for_ee = series_data_for_ee[
+                series_data_for_ee[series_var].isin(series_var_vals_no_group)
             ]
-            # perform EE on filtered data
-            series_data_after_ee = \
-                event_equalize(series_data_for_ee, self.params['indy_var'],
-                               self.params['series_val_' + axis],
-                               list(self.params['fixed_vars_vals_input'].keys()),
-                               fix_vals_permuted, True, False)
-
-            # append EE data to result
-            if output_ee_data.empty:
-                output_ee_data = series_data_after_ee
-            else:
-                warnings.simplefilter(action="error", category=FutureWarning)
-                output_ee_data = pd.concat([output_ee_data, series_data_after_ee])
+
+        # perform EE on filtered data
+        output_ee_data = \
+            event_equalize(series_data_for_ee, self.params['indy_var'],
+                           self.params['series_val_' + axis],
+                           list(self.params.get('fixed_vars_vals_input', {}).keys()),
+                           fix_vals_permuted, True, False)
 
         return output_ee_data
 
-- 
2.43.0


From 3aabfb48e4421e3316e8c816cd86313256ffb9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:19 +0000
Subject: [PATCH 32/80] fix: find numbers stored as text among names

---
 metcalcpy/agg_eclv.py           |  7 ++++---
 metcalcpy/agg_stat.py           |  7 ++++---
 metcalcpy/agg_stat_bootstrap.py | 14 ++++++++------
 metcalcpy/scorecard.py          |  7 ++++---
 metcalcpy/sum_stat.py           |  7 ++++---
 5 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/metcalcpy/agg_eclv.py b/metcalcpy/agg_eclv.py
index ceceb37..36ebc76 100644
--- a/metcalcpy/agg_eclv.py
+++ b/metcalcpy/agg_eclv.py
@@ -237,11 +237,12 @@ class AggEclv:
                 filter_value = point[field_ind]
                 filter_list = [filter_value]
                 out_frame_local[field] = [filter_value] * (len(self.steps))
-                for i, filter_val in enumerate(filter_list):
+                # a number can be stored as a number or, among names, as text
+                for filter_val in filter_list.copy():
                     if is_string_integer(filter_val):
-                        filter_list[i] = int(filter_val)
+                        filter_list.append(int(filter_val))
                     elif is_string_strictly_float(filter_val):
-                        filter_list[i] = float(filter_val)
+                        filter_list.append(float(filter_val))
                 if field in self.input_data.keys():
                     all_filters.append((self.input_data[field].isin(filter_list)))
 
diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 520a25f..d3fa3b2 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -1032,11 +1032,12 @@ class AggStat:
                             filter_list = filter_value.split(';')
                         else:
                             filter_list = [filter_value]
-                        for i, filter_val in enumerate(filter_list):
+                        # a number can be stored as a number or, among names, as text
+                        for filter_val in filter_list.copy():
                             if is_string_integer(filter_val):
-                                filter_list[i] = int(filter_val)
+                                filter_list.append(int(filter_val))
                             elif is_string_strictly_float(filter_val):
-                                filter_list[i] = float(filter_val)
+                                filter_list.append(float(filter_val))
                         if field in self.input_data.keys():
                             if field != self.params['indy_var']:  #
                                 filters_wihtout_indy. \
diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index 7514461..fe31263 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -149,11 +149,12 @@ class AggStatBootstrap:
                             filter_list = filter_value.split(';')
                         else:
                             filter_list = [filter_value]
-                        for i, filter_val in enumerate(filter_list):
+                        # a number can be stored as a number or, among names, as text
+                        for filter_val in filter_list.copy():
                             if is_string_integer(filter_val):
-                                filter_list[i] = int(filter_val)
+                                filter_list.append(int(filter_val))
                             elif is_string_strictly_float(filter_val):
-                                filter_list[i] = float(filter_val)
+                                filter_list.append(float(filter_val))
 
                         all_filters.append((filtered_by_indy_data[field].isin(filter_list)))
 
@@ -185,11 +186,12 @@ class AggStatBootstrap:
                                 filter_list = filter_value.split(';')
                             else:
                                 filter_list = [filter_value]
-                            for i, filter_val in enumerate(filter_list):
+                            # a number can be stored as a number or, among names, as text
+                            for filter_val in filter_list.copy():
                                 if is_string_integer(filter_val):
-                                    filter_list[i] = int(filter_val)
+                                    filter_list.append(int(filter_val))
                                 elif is_string_strictly_float(filter_val):
-                                    filter_list[i] = float(filter_val)
+                                    filter_list.append(float(filter_val))
 
                             all_filters.append((filtered_by_indy_data[field].isin(filter_list)))
                             out_frame_filter.append((out_frame[field].isin(filter_list)))
diff --git a/metcalcpy/scorecard.py b/metcalcpy/scorecard.py
index f128f55..ed623fd 100644
--- a/metcalcpy/scorecard.py
+++ b/metcalcpy/scorecard.py
@@ -147,11 +147,12 @@ class Scorecard:
                         filter_list = filter_value.split(';')
                     else:
                         filter_list = [filter_value]
-                    for i, filter_val in enumerate(filter_list):
+                    # a number can be stored as a number or, among names, as text
+                    for filter_val in filter_list.copy():
                         if is_string_integer(filter_val):
-                            filter_list[i] = int(filter_val)
+                            filter_list.append(int(filter_val))
                         elif is_string_strictly_float(filter_val):
-                            filter_list[i] = float(filter_val)
+                            filter_list.append(float(filter_val))
                     if field in self.input_data.keys():
                         if field != self.params['indy_var']:
                             filters_wihtout_indy.append((self.input_data[field].isin(filter_list)))
diff --git a/metcalcpy/sum_stat.py b/metcalcpy/sum_stat.py
index 1b7030d..c24dd39 100644
--- a/metcalcpy/sum_stat.py
+++ b/metcalcpy/sum_stat.py
@@ -217,11 +217,12 @@ class SumStat:
                             actual_series_vals = point[index].split(';')
                         else:
                             actual_series_vals = point[index].split(GROUP_SEPARATOR)
-                        for ind, val in enumerate(actual_series_vals):
+                        # a number can be stored as a number or, among names, as text
+                        for val in actual_series_vals.copy():
                             if is_string_integer(val):
-                                actual_series_vals[ind] = int(val)
+                                actual_series_vals.append(int(val))
                             elif is_string_strictly_float(val):
-                                actual_series_vals[ind] = float(val)
+                                actual_series_vals.append(float(val))
                         point_data = \
                             point_data[point_data[series_vars[index]].isin(actual_series_vals)]
 
-- 
2.43.0


From 4d78c8429b1c08bd13cfc71a15dfc58d6db25763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:52 +0000
Subject: [PATCH 33/80] fix: equalize series and fixed values that are numbers

---
 metcalcpy/agg_stat_eqz.py            |  2 ++
 metcalcpy/agg_stat_event_equalize.py |  4 ++--
 metcalcpy/event_equalize.py          | 36 +++++++++++++++++++++-------
 metcalcpy/util/utils.py              |  5 ++--
 4 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/metcalcpy/agg_stat_eqz.py b/metcalcpy/agg_stat_eqz.py
index 9e9a54d..0276ea8 100644
--- a/metcalcpy/agg_stat_eqz.py
+++ b/metcalcpy/agg_stat_eqz.py
@@ -40,6 +40,7 @@ import warnings
 
 from metcalcpy import GROUP_SEPARATOR
 from metcalcpy.event_equalize_against_values import event_equalize_against_values
+from metcalcpy.event_equalize import values_as_stored
 from metcalcpy.util.utils import parse_bool
 
 
@@ -121,6 +122,7 @@ class AggStatEventEqz:
                 for val in series_var_vals:
                     split_val = val.split(GROUP_SEPARATOR)
                     series_var_vals_no_group.extend(split_val)
+                series_var_vals_no_group = values_as_stored(series_var_vals_no_group)
 
                 series_data_for_ee = series_data_for_ee[
                     series_data_for_ee[series_var].isin(series_var_vals_no_group)]
diff --git a/metcalcpy/agg_stat_event_equalize.py b/metcalcpy/agg_stat_event_equalize.py
index f4275c5..577b45c 100644
--- a/metcalcpy/agg_stat_event_equalize.py
+++ b/metcalcpy/agg_stat_event_equalize.py
@@ -38,7 +38,7 @@ import pandas as pd
 import yaml
 
 from metcalcpy import GROUP_SEPARATOR
-from metcalcpy.event_equalize import event_equalize
+from metcalcpy.event_equalize import event_equalize, values_as_stored
 
 class AggStatEventEqualize:
     """A class that performs event equalisation logic on input data
@@ -123,7 +123,7 @@ class AggStatEventEqualize:
                 series_var_vals_no_group.extend(split_val)
 
             series_data_for_ee = series_data_for_ee[
-                series_data_for_ee[series_var].isin(series_var_vals_no_group)
+                series_data_for_ee[series_var].isin(values_as_stored(series_var_vals_no_group))
             ]
 
         # perform EE on filtered data
diff --git a/metcalcpy/event_equalize.py b/metcalcpy/event_equalize.py
index dfb172b..c55ae14 100644
--- a/metcalcpy/event_equalize.py
+++ b/metcalcpy/event_equalize.py
@@ -104,15 +104,11 @@ def event_equalize(series_data, indy_var, series_var_vals, fix_vars,
 
         permutation_data = series_data.copy()
         for var_for_ee_ind, var_for_ee in enumerate(list(vars_for_ee)):
-            if is_string_integer(permutation[var_for_ee_ind]):
-                permutation_data = permutation_data[permutation_data[var_for_ee]
-                                                    == int(permutation[var_for_ee_ind])]
+            if permutation[var_for_ee_ind] == 'NA':
+                permutation_data = permutation_data[permutation_data[var_for_ee].isnull()]
             else:
-                if permutation[var_for_ee_ind] == 'NA':
-                    permutation_data = permutation_data[permutation_data[var_for_ee].isnull()]
-                else:
-                    permutation_data = permutation_data[permutation_data[var_for_ee]
-                                                        == permutation[var_for_ee_ind]]
+                permutation_data = permutation_data[permutation_data[var_for_ee].isin(
+                    values_as_stored([permutation[var_for_ee_ind]]))]
         # if the list contains repetitive values, show a warning
         if multi is False and len(permutation_data['equalize']) \
                 != len(set(permutation_data['equalize'])):
@@ -176,3 +172,27 @@ def is_string_integer(str_int):
         return True
     except (ValueError, TypeError):
         return False
+
+
+def values_as_stored(values):
+    """Adds the numbers to the list of values. A number can be stored in the data
+        as a number or, among names, as text.
+
+         Args:
+             values: list of requested values
+
+        Returns:
+            list with requested values and the numbers they represent
+    """
+    result = list(values)
+    for value in values:
+        if not isinstance(value, str):
+            continue
+        if is_string_integer(value):
+            result.append(int(value))
+        elif '.' in value:
+            try:
+                result.append(float(value))
+            except ValueError:
+                pass
+    return result
diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index c4e4629..4ff0758 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -28,7 +28,7 @@ from scipy import stats
 from scipy.stats import t, nct
 from metcalcpy.util.correlation import corr, remove_none, acf
 from metcalcpy import GROUP_SEPARATOR, DATE_TIME_REGEX
-from metcalcpy.event_equalize import event_equalize
+from metcalcpy.event_equalize import event_equalize, values_as_stored
 from metcalcpy.util.wald_wolfowitz_runs_test import runs_test
 
 
@@ -714,7 +714,8 @@ def equalize_axis_data(fix_vals_keys, fix_vals_permuted, params, input_data, axi
                     series_data_for_ee = input_data
                     if series_var in input_data.keys():
                         series_data_for_ee = series_data_for_ee[
-                            series_data_for_ee[series_var].isin(series_var_vals_no_group)]
+                            series_data_for_ee[series_var].isin(
+                                values_as_stored(series_var_vals_no_group))]
                     if 'fcst_var' in input_data.keys():
                         series_data_for_ee = series_data_for_ee[series_data_for_ee['fcst_var'] == fcst_var]
                     if 'stat_name' in input_data.keys():
-- 
2.43.0


From c45ea5d9d3ab33d41063922cf00a0a72c4074f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:25 +0000
Subject: [PATCH 34/80] fix: do not turn every later warning into an error
 after event equalization

---
 metcalcpy/agg_stat_eqz.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/metcalcpy/agg_stat_eqz.py b/metcalcpy/agg_stat_eqz.py
index 0276ea8..282ebe6 100644
--- a/metcalcpy/agg_stat_eqz.py
+++ b/metcalcpy/agg_stat_eqz.py
@@ -36,7 +36,6 @@ import sys
 import logging
 import pandas as pd
 import yaml
-import warnings
 
 from metcalcpy import GROUP_SEPARATOR
 from metcalcpy.event_equalize_against_values import event_equalize_against_values
@@ -108,8 +107,6 @@ class AggStatEventEqz:
             Returns:
                 A data frame that contains equalized records
         """
-        warnings.filterwarnings('error')
-
         output_ee_data = pd.DataFrame()
         for fcst_var, fcst_var_stats in self.params['fcst_var_val_' + axis].items():
             # filter input data and previous cases based on fcst_var
-- 
2.43.0


From ce4868a2db24f4aa59c372a64942a41865338c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:25 +0000
Subject: [PATCH 35/80] fix: aggregate the lines of a ';' group case by case
 for every line type

---
 metcalcpy/agg_stat.py   |  20 +--
 metcalcpy/util/utils.py | 287 ++++++++++++++++------------------------
 2 files changed, 116 insertions(+), 191 deletions(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index d3fa3b2..5505db6 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -1019,8 +1019,6 @@ class AggStat:
                     # filter point data
                     all_filters = []
                     all_filters_pct = []
-                    filters_wihtout_indy = []
-                    indy_val = None
                     for field_ind, field in enumerate(all_fields_values.keys()):
 
                         filter_value = point[field_ind]
@@ -1039,12 +1037,6 @@ class AggStat:
                             elif is_string_strictly_float(filter_val):
                                 filter_list.append(float(filter_val))
                         if field in self.input_data.keys():
-                            if field != self.params['indy_var']:  #
-                                filters_wihtout_indy. \
-                                    append((self.input_data[field].isin(filter_list)))
-                            else:
-                                indy_val = filter_value
-
                             all_filters.append(self.input_data[field].isin(filter_list))
                         if field in series_val.keys() or \
                                 (field == self.params['indy_var'] and field != 'thresh_i'):
@@ -1085,14 +1077,10 @@ class AggStat:
                         point_data.insert(len(point_data.columns), 'o_bar', o_bar)
 
                     # aggregate point data
-                    series_var_val = self.params['series_val_' + axis]
-                    if any(';' in series_val for series_val in series_var_val):
-                        point_data = aggregate_field_values(series_var_val, point_data, self.params['line_type'])
-                    elif indy_val and ';' in indy_val:
-                        # if aggregated value in indy val - add it to series values add aggregate
-                        series_indy_var_val = series_var_val
-                        series_indy_var_val[self.params['indy_var']] = [indy_val]
-                        point_data = aggregate_field_values(series_indy_var_val, point_data,
+                    aggregated_var_val = {field: [value] for field, value in zip(all_fields_values.keys(), point)
+                                          if ';' in value and field in point_data.columns}
+                    if aggregated_var_val:
+                        point_data = aggregate_field_values(aggregated_var_val, point_data,
                                                             self.params['line_type'])
                     # calculate bootstrap results
                     bootstrap_results = self._get_bootstrapped_stats(point_data, axis)
diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 4ff0758..02ddb83 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -22,7 +22,6 @@ import statistics as st
 import numpy as np
 import pandas as pd
 from pandas import DataFrame
-import warnings
 
 from scipy import stats
 from scipy.stats import t, nct
@@ -459,6 +458,23 @@ def get_total_values(input_data, columns_names, aggregation):
     return total
 
 
+# columns that are averages over the pairs of a line
+SUMMED_COLUMNS = {
+    'sl1l2': ['fbar', 'obar', 'fobar', 'ffbar', 'oobar', 'mae'],
+    'sal1l2': ['fabar', 'oabar', 'foabar', 'ffabar', 'ooabar',
+               'fbar', 'obar', 'fobar', 'ffbar', 'oobar', 'mae'],
+    'vl1l2': ['ufbar', 'vfbar', 'uobar', 'vobar', 'uvfobar', 'uvffbar', 'uvoobar',
+              'f_speed_bar', 'o_speed_bar'],
+    'val1l2': ['ufabar', 'vfabar', 'uoabar', 'voabar', 'uvfoabar', 'uvffabar', 'uvooabar'],
+    'grad': ['fgbar', 'ogbar', 'mgbar', 'egbar']
+}
+ECNT_MEAN_COLUMNS = ['me', 'crps', 'crpscl', 'ign', 'me_oerr', 'crps_emp', 'crpscl_emp',
+                     'crps_emp_fair', 'spread_md', 'mae', 'mae_oerr']
+
+# line types that do not have one line for the sum of several lines
+NOT_SUMMED_LINE_TYPES = ['pct', 'mctc', 'ssvar', 'vcnt']
+
+
 def aggregate_field_values(series_var_val, input_data_frame, line_type):
     """Finds and aggregates statistics for fields with values containing ';'.
       Aggregation  happens by valid and lead times
@@ -474,103 +490,56 @@ def aggregate_field_values(series_var_val, input_data_frame, line_type):
                 Pandas DataFrame with aggregates statistics
             """
 
-    warnings.filterwarnings('error')
-
-    # get unique values for valid date/time and lead time
-    unique_valid = input_data_frame.fcst_valid_beg.unique()
-    unique_lead = input_data_frame.fcst_lead.unique()
+    if line_type in NOT_SUMMED_LINE_TYPES:
+        # the lines can be pooled but not summed
+        return input_data_frame
 
+    result = input_data_frame.reset_index(drop=True)
     for series_var, series_vals in series_var_val.items():
+        # records of different forecast variables and statistics are not aggregated together
+        case_fields = [field for field in ('fcst_valid_beg', 'fcst_lead', 'fcst_var', 'stat_name')
+                       if field in result.columns and field != series_var]
         for series_val in series_vals:
-            if ';' in series_val:
-                # found the aggregated field
-                single_values = series_val.split(';')
-
-                # for each valid
-                for valid in unique_valid:
-                    if series_var != 'fcst_lead':
-                        for lead in unique_lead:
-                            # find rows for the aggregation and their indexes
-                            rows_for_agg = input_data_frame[
-                                (input_data_frame.fcst_valid_beg == valid)
-                                & (input_data_frame.fcst_lead == lead)
-                                & (input_data_frame[series_var].isin(single_values))
-                                ]
-                            rows_indexes = rows_for_agg.index.values
-                            # reset indexes
-                            rows_for_agg.reset_index(inplace=True, drop=True)
-
-                            # remove these rows from the main data_frame
-                            input_data_frame = input_data_frame.drop(index=rows_indexes)
-
-                            aggregated_result = calc_series_sums(rows_for_agg, line_type)
-
-                            # record the result as a first row in the old selection
-                            for field in input_data_frame.columns:
-                                if field in aggregated_result.columns.values:
-                                    rows_for_agg.at[0, field] = aggregated_result[field][0]
-
-                            # replace the aggregated field name
-                            rows_for_agg.at[0, series_var] = series_val
-
-                            # add it to the result
-                            input_data_frame = pd.concat([input_data_frame, rows_for_agg.iloc[:1]])
-
-                    else:
-                        # if the aggregated field is 'fcst_lead'
-
-                        # pandas treats the fcst_lead values as dtype int64, therefore convert
-                        # the single_values to int type so the pd.isin() properly matches
-                        # the input_data_frame[series_var].
-                        single_values_int = []
-                        for val in single_values:
-                            if val != '':
-                                single_values_int.append((int(val)))
-
-                        # find rows for the aggregation and their indexes
-                        rows_for_agg = input_data_frame[
-                            (input_data_frame.fcst_valid_beg == valid)
-                            & (input_data_frame[series_var].isin(single_values_int))
-                            ]
-
-                        rows_indexes = rows_for_agg.index.values
-
-                        # reset indexes
-                        rows_for_agg.reset_index(inplace=True, drop=True)
-
-                        # remove these rows from the main data_frame
-                        input_data_frame = input_data_frame.drop(index=rows_indexes)
-
-                        aggregated_result = calc_series_sums(rows_for_agg, line_type)
-
-                        # record the result as a first row in the old selection
-                        for field in input_data_frame.columns:
-                            if field in aggregated_result.columns.values:
-                                rows_for_agg.at[0, field] = aggregated_result[field][0]
-
-                        # replace the aggregated field name
-
-                        # some versions of pandas will generate an error when assigning a numerical value with a ';'
-                        # strip off the ';' to make this "version-independent"
-                        if ';' in series_val:
-                            sep_val = series_val.split(';')
-
-                        # different versions of pandas may generate a SettingWithCopy Warning
-                        # For pandas 1.2, 1.3, and 1.5, use the df.at, but for pandas 1.4, use the df.loc.
-                        try:
-                            rows_for_agg.at[0, series_var] = sep_val[0]
-                        except:
-                            rows_for_agg.loc[0, series_var] = sep_val[0]
-
-                        # add it to the result
-                        input_data_frame = pd.concat([input_data_frame,(rows_for_agg.iloc[:1])])
+            if ';' not in series_val:
+                continue
+
+            # found the aggregated field
+            single_values = [val for val in series_val.split(';') if val != '']
+            if series_var == 'fcst_lead':
+                # the lead is a number, the aggregated lead is named after its first component
+                new_val = int(single_values[0])
+            else:
+                new_val = series_val
+            for val in single_values.copy():
+                if is_string_integer(val):
+                    single_values.append(int(val))
+                elif is_string_strictly_float(val):
+                    single_values.append(float(val))
+
+            rows_for_agg = result[result[series_var].isin(single_values)]
+            if rows_for_agg.empty:
+                continue
+            if isinstance(new_val, str):
+                result[series_var] = result[series_var].astype(object)
+
+            # aggregate the rows of each case
+            for _, case_rows in rows_for_agg.groupby(case_fields, dropna=False):
+                # the first row holds the aggregated values, the others are removed
+                first = case_rows.index[0]
+                aggregated_result = calc_series_sums(case_rows, line_type)
+                for field in aggregated_result.columns:
+                    if field in result.columns:
+                        result[field] = result[field].astype(float)
+                        result.at[first, field] = aggregated_result[field][0]
+                result.at[first, series_var] = new_val
+                result = result.drop(index=case_rows.index[1:])
 
-    return input_data_frame
+    return result
 
 
 def calc_series_sums(input_df, line_type):
     """ Aggregates column values of the input data frame. Aggregation depends on the line type.
-        Following line types are currently supported : ctc, sl1l2, sal1l2, vl1l2,
+        Following line types are currently supported : ctc, nbrctc, sl1l2, sal1l2, vl1l2,
         val1l2, grad, nbrcnt, ecnt, rps
 
            Args:
@@ -579,98 +548,67 @@ def calc_series_sums(input_df, line_type):
            Returns:
                Pandas DataFrame with aggregated values
        """
-    # create an array from the dataframe
-    sums_data_frame = pd.DataFrame()
+    data = input_df.to_numpy()
 
     # calculate aggregated total value and add it to the result
-    total = sum_column_data_by_name(input_df.to_numpy(), input_df.columns, 'total')
-    sums_data_frame['total'] = [total]
+    total = sum_column_data_by_name(data, input_df.columns, 'total')
+    sums = {'total': total}
+
+    def weighted_mean(values, weights='total'):
+        """ mean of the values weighted by a column"""
+        values = np.asarray(values, dtype=float)
+        weights_sum = sum_column_data_by_name(data, input_df.columns, weights)
+        if not weights_sum or np.isnan(values).all():
+            return np.nan
+        return np.nansum(values * input_df[weights].astype(float)) / weights_sum
+
+    def ratio(numerator, denominator):
+        """ ratio of two numbers or arrays without a value where the denominator is 0"""
+        denominator = np.asarray(denominator, dtype=float)
+        return np.asarray(numerator, dtype=float) / np.where(denominator == 0, np.nan, denominator)
 
     # proceed for the line type
-    if line_type in ('ctc', 'nbrctc'):
-        column_names = ['fy_oy', 'fy_on', 'fn_oy', 'fn_on']
-        for column in column_names:
-            sums_data_frame[column] = [sum_column_data_by_name(input_df.to_numpy(),
-                                                               column_names, column_names)]
-
-    elif line_type == 'sl1l2':
-        column_names = ['fbar', 'obar', 'fobar', 'ffbar', 'oobar']
-        for column in column_names:
-            sums_data_frame[column] = [np.nansum(input_df[column] * input_df.total.astype(float))
-                                       / total]
-
-    elif line_type == 'sal1l2':
-        sums_data_frame['fbar'] = [np.nansum(input_df['fabar'] * input_df.total.astype(float))
-                                   / total]
-        sums_data_frame['obar'] = [np.nansum(input_df['oabar'] * input_df.total.astype(float))
-                                   / total]
-        sums_data_frame['fobar'] = [np.nansum(input_df['foabar'] * input_df.total.astype(float))
-                                    / total]
-        sums_data_frame['ffbar'] = [np.nansum(input_df['ffabar'] * input_df.total.astype(float))
-                                    / total]
-        sums_data_frame['oobar'] = [np.nansum(input_df['ooabar'] * input_df.total.astype(float))
-                                    / total]
-
-    elif line_type == 'vl1l2':
-        column_names = ['ufbar', 'vfbar', 'uobar', 'vobar', 'uvfobar',
-                        'uvffbar', 'uvoobar', 'f_speed_bar', 'o_speed_bar']
-        for column in column_names:
-            sums_data_frame[column] = [np.nansum(input_df[column] * input_df.total.astype(float))
-                                       / total]
-
-    elif line_type == 'val1l2':
-        column_names = ['ufabar', 'vfabar', 'uoabar', 'voabar', 'uvfoabar', 'uvffabar', 'uvooabar']
-        for column in column_names:
-            sums_data_frame[column] = [np.nansum(input_df[column] * input_df.total.astype(float))
-                                       / total]
-
-    elif line_type == 'grad':
-        column_names = ['fgbar', 'ogbar', 'mgbar', 'egbar']
-        for column in column_names:
-            sums_data_frame[column] = [np.nansum(input_df[column] * input_df.total.astype(float))
-                                       / total]
-
-    elif line_type == 'nbrcnt':
-        dbl_fbs = np.nansum(input_df['fbs'] * input_df.total.astype(float)) / total
-        dbl_fss_den = np.nansum(
-            (input_df['fbs'] / (1.0 - input_df['fss'])) * input_df.total.astype(float)) \
-                      / total
-        dbl_fss = 1.0 - dbl_fbs / dbl_fss_den
-        dbl_f_rate = np.nansum(input_df['f_rate'] * input_df.total.astype(float)) / total
-        dbl_o_rate = np.nansum(input_df['o_rate'] * input_df.total.astype(float)) / total
-        dbl_a_fss_num = 2.0 * dbl_f_rate * dbl_o_rate
-        dbl_a_fss_den = dbl_f_rate * dbl_f_rate + dbl_o_rate * dbl_o_rate
-        dbl_a_fss = dbl_a_fss_num / dbl_a_fss_den
-        dbl_u_fss = 0.5 + dbl_o_rate / 2.0
-        sums_data_frame['fbs'] = [dbl_fbs]
-        sums_data_frame['fss'] = [dbl_fss]
-        sums_data_frame['afss'] = [dbl_a_fss]
-        sums_data_frame['ufss'] = [dbl_u_fss]
-        sums_data_frame['f_rate'] = [dbl_f_rate]
-        sums_data_frame['o_rate'] = [dbl_o_rate]
+    if line_type in ('ctc', 'nbrctc', 'nbr_ctc'):
+        for column in ['fy_oy', 'fy_on', 'fn_oy', 'fn_on']:
+            sums[column] = sum_column_data_by_name(data, input_df.columns, column)
+
+    elif line_type in SUMMED_COLUMNS:
+        for column in SUMMED_COLUMNS[line_type]:
+            if column in input_df.columns:
+                sums[column] = weighted_mean(input_df[column])
+
+    elif line_type in ('nbrcnt', 'nbr_cnt'):
+        for column in ['fbs', 'f_rate', 'o_rate']:
+            sums[column] = weighted_mean(input_df[column])
+        fss_den = weighted_mean(ratio(input_df['fbs'], 1.0 - input_df['fss']))
+        sums['fss'] = 1.0 - ratio(sums['fbs'], fss_den)
+        sums['afss'] = ratio(2.0 * sums['f_rate'] * sums['o_rate'],
+                             sums['f_rate'] * sums['f_rate'] + sums['o_rate'] * sums['o_rate'])
+        sums['ufss'] = 0.5 + sums['o_rate'] / 2.0
 
     elif line_type == 'ecnt':
-        mse = input_df['rmse'] * input_df['rmse']
-        mse_oerr = input_df['rmse_oerr'] * input_df['rmse_oerr']
-        crps_climo = input_df['crps'] / (1 - input_df['crpss'])
-
-        sums_data_frame['mse'] = [np.nansum(input_df['total'] * mse) / total]
-        sums_data_frame['mse_oerr'] = [np.nansum(input_df['total'] * mse_oerr) / total]
-        sums_data_frame['crps_climo'] = [np.nansum(input_df['total'] * crps_climo) / total]
-        column_names = ['me', 'crps', 'ign', 'spread', 'me_oerr', 'spread_oerr', 'spread_plus_oerr']
-        for column in column_names:
-            sums_data_frame[column] = [np.nansum(input_df[column] * input_df.total.astype(float))
-                                       / total]
+        for column in ECNT_MEAN_COLUMNS:
+            if column in input_df.columns:
+                sums[column] = weighted_mean(input_df[column])
+        # the mean of the squares is aggregated
+        for column in ['rmse', 'rmse_oerr', 'spread', 'spread_oerr', 'spread_plus_oerr']:
+            if column in input_df.columns:
+                sums[column] = np.sqrt(weighted_mean(input_df[column] * input_df[column]))
+        for name in ['ge_obs', 'lt_obs']:
+            if 'n_' + name in input_df.columns:
+                sums['n_' + name] = sum_column_data_by_name(data, input_df.columns, 'n_' + name)
+                sums['me_' + name] = weighted_mean(input_df['me_' + name], 'n_' + name)
+        if 'crpss' in input_df.columns:
+            sums['crps_climo'] = weighted_mean(ratio(input_df['crps'], 1 - input_df['crpss']))
+            sums['crpss'] = 1.0 - ratio(sums['crps'], sums['crps_climo'])
+
     elif line_type == 'rps':
-        d_rps_climo = input_df['rps'] / (1 - input_df['rpss'])
-        sums_data_frame['rps'] = [np.nansum(input_df["rps"] * input_df.total.astype(float))
-                                  / total]
-        sums_data_frame['rps_comp'] = [np.nansum(input_df["rps_comp"] * input_df.total.astype(float))
-                                       / total]
-        sums_data_frame['rps_climo'] = [np.nansum(d_rps_climo * input_df.total.astype(float))
-                                        / total]
+        for column in ['rps', 'rps_comp']:
+            sums[column] = weighted_mean(input_df[column])
+        sums['rps_climo'] = weighted_mean(ratio(input_df['rps'], 1 - input_df['rpss']))
+        sums['rpss'] = 1.0 - ratio(sums['rps'], sums['rps_climo'])
 
-    return sums_data_frame
+    return pd.DataFrame({column: [value] for column, value in sums.items()})
 
 
 def equalize_axis_data(fix_vals_keys, fix_vals_permuted, params, input_data, axis='1'):
@@ -734,7 +672,6 @@ def equalize_axis_data(fix_vals_keys, fix_vals_permuted, params, input_data, axi
             if output_ee_data.empty:
                 output_ee_data = series_data_after_ee
             else:
-                warnings.simplefilter(action="error", category=FutureWarning)
                 output_ee_data = pd.concat([output_ee_data, series_data_after_ee])
 
     # without the statistic name the same records are equalized for each statistic, keep them once
-- 
2.43.0


From a7d50df480c4ca21d2fe86b7e7bcf2b23e75d189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:25 +0000
Subject: [PATCH 36/80] fix: compute the statistics of every line type and of
 ';' groups in the summary job

---
 metcalcpy/sum_stat.py | 148 +++++++++++++++++++++++-------------------
 1 file changed, 80 insertions(+), 68 deletions(-)

diff --git a/metcalcpy/sum_stat.py b/metcalcpy/sum_stat.py
index c24dd39..1dba8e3 100644
--- a/metcalcpy/sum_stat.py
+++ b/metcalcpy/sum_stat.py
@@ -31,6 +31,7 @@ How to use:
                 new File(System.getProperty("user.home")));
 
 """
+import re
 import sys
 import itertools
 import argparse
@@ -38,13 +39,13 @@ import time
 import logging
 import yaml
 import pandas as pd
-import warnings
 from inspect import signature
 
-from metcalcpy import GROUP_SEPARATOR
+from metcalcpy import GROUP_SEPARATOR, DATE_TIME_REGEX
 from metcalcpy.util.ctc_statistics import *
 from metcalcpy.util.grad_statistics import *
 from metcalcpy.util.sl1l2_statistics import *
+from metcalcpy.util.sal1l2_statistics import *
 from metcalcpy.util.val1l2_statistics import *
 from metcalcpy.util.vcnt_statistics import *
 from metcalcpy.util.vl1l2_statistics import *
@@ -107,7 +108,7 @@ class SumStat:
     STATISTIC_TO_FIELDS = {'ctc': {"total", "fy_oy", "fy_on", "fn_oy", "fn_on"},
                            'sl1l2': {"total", "fbar", "obar", "fobar", "ffbar", "oobar"},
                            'grad': {"total", "fgbar", "ogbar", "mgbar", "egbar"},
-                           'sal1l2': {"total", "fbar", "obar", "fobar", "ffbar", "oobar"},
+                           'sal1l2': {"total", "fabar", "oabar", "foabar", "ffabar", "ooabar"},
                            'vl1l2': {"total", "ufbar", "vfbar", "uobar", "vobar", "uvfobar",
                                      "uvffbar", "uvoobar", "f_speed_bar", "o_speed_bar"},
                            'val1l2': {"total", "ufabar", "vfabar", "uoabar", "voabar",
@@ -127,16 +128,6 @@ class SumStat:
         try:
             fields = self.STATISTIC_TO_FIELDS[self.params['line_type']]
 
-            # change names for sal1l2 so we can reuse sl1l2 statistics
-            if self.params['line_type'] == 'sal1l2':
-                self.input_data = self.input_data.rename(columns={'fabar': 'fbar',
-                                                                  'oabar': 'obar',
-                                                                  'foabar': 'fobar',
-                                                                  'ffabar': 'ffbar',
-                                                                  'ooabar': 'oobar'
-                                                                  })
-                self.column_names = self.input_data.columns.values
-
             # perform EE if needed
             is_event_equal = parse_bool(self.params['event_equal'])
             if is_event_equal:
@@ -184,71 +175,64 @@ class SumStat:
         Args:
             axis - y1 or y1 axis
         """
-        warnings.filterwarnings('error')
-
-        # check if indy_vals have a field that need to be aggregated - the field with ';'
-        has_agg_indy_field = any(any(GROUP_SEPARATOR in i for i in item) for item in self.params['indy_vals'])
-
-        # look if there is a field that need to be aggregated first - the field with ';'
         series_var_val = self.params['series_val_' + axis]
-        has_agg_series_field = any(any(GROUP_SEPARATOR in i for i in item) for item in series_var_val)
+        indy_var = self.params['indy_var']
+        indy_vals = [val for val in self.params['indy_vals'] or [] if val is not None]
+
+        # look if there is a field that need to be aggregated - the field with ';'
+        has_agg_indy_field = any(';' in val for val in indy_vals)
+        has_agg_series_field = any(';' in val for vals in series_var_val.values() for val in vals)
 
         if series_var_val and (has_agg_indy_field or has_agg_series_field):
             # the special field was detected
 
-            all_points = list(itertools.product(*series_var_val.values()))
-            aggregated_values = pd.DataFrame()
-            series_vars = list(series_var_val.keys())
-            for indy_val in self.params['indy_vals']:
-                # filter the input frame by each indy value
-                if indy_val is None:
-                    filtered_by_indy = self.input_data
-                else:
-                    # filter by value or split the value and filter by multiple values
-                    filtered_by_indy = self.input_data[
-                        self.input_data[self.params['indy_var']].isin(indy_val.split(';'))]
-
-                for point in all_points:
-                    point_data = filtered_by_indy
-
-                    for index, series_var in enumerate(series_vars):
-                        # get actual series value(s) and filter by them
-                        if ';' in point[index]:
-                            actual_series_vals = point[index].split(';')
-                        else:
-                            actual_series_vals = point[index].split(GROUP_SEPARATOR)
-                        # a number can be stored as a number or, among names, as text
-                        for val in actual_series_vals.copy():
-                            if is_string_integer(val):
-                                actual_series_vals.append(int(val))
-                            elif is_string_strictly_float(val):
-                                actual_series_vals.append(float(val))
-                        point_data = \
-                            point_data[point_data[series_vars[index]].isin(actual_series_vals)]
-
-                    # aggregate point data
-                    if any(';' in series_val for series_val in point):
-                        point_data = aggregate_field_values(series_var_val,
-                                                            point_data,
-                                                            self.params['line_type'])
-                    elif ';' in indy_val:
-                        # if aggregated value in indy val - add it to series values add aggregate
-                        series_indy_var_val = series_var_val
-                        series_indy_var_val[self.params['indy_var']] = [indy_val]
-                        point_data = aggregate_field_values(series_indy_var_val,
-                                                            point_data,
-                                                            self.params['line_type'])
-
-                    aggregated_values = pd.concat([aggregated_values, point_data])
-            self.input_data = aggregated_values
-            self.input_data.reset_index(inplace=True, drop=True)
+            fields_values = series_var_val.copy()
+            if indy_vals:
+                fields_values[indy_var] = indy_vals
+            aggregated_values = []
+            is_aggregated = pd.Series(False, index=self.input_data.index)
+            is_single = pd.Series(False, index=self.input_data.index)
+            for point in itertools.product(*fields_values.values()):
+                # find the data of the point
+                is_point = pd.Series(True, index=self.input_data.index)
+                for field, value in zip(fields_values.keys(), point):
+                    if ';' in value:
+                        actual_vals = value.split(';')
+                    else:
+                        actual_vals = re.findall(DATE_TIME_REGEX, value) or value.split(GROUP_SEPARATOR)
+                    # a number can be stored as a number or, among names, as text
+                    for val in actual_vals.copy():
+                        if is_string_integer(val):
+                            actual_vals.append(int(val))
+                        elif is_string_strictly_float(val):
+                            actual_vals.append(float(val))
+                    is_point = is_point & self.input_data[field].isin(actual_vals)
+
+                # aggregate point data
+                aggregated_var_val = {field: [value] for field, value in zip(fields_values.keys(), point)
+                                      if ';' in value}
+                if aggregated_var_val and is_point.any():
+                    aggregated_values.append(aggregate_field_values(aggregated_var_val,
+                                                                    self.input_data[is_point],
+                                                                    self.params['line_type']))
+                    is_aggregated = is_aggregated | is_point
+                elif not aggregated_var_val:
+                    is_single = is_single | is_point
+
+            # replace the lines with their aggregation unless they are also requested individually
+            not_aggregated = self.input_data[~is_aggregated | is_single]
+            if not not_aggregated.empty or not aggregated_values:
+                aggregated_values.insert(0, not_aggregated)
+            self.input_data = pd.concat(aggregated_values, ignore_index=True)
 
     def process_rows(self):
         """For each row in the data frame finds the row statistic name,
             calculates it's value  and stores this value in the corresponding column
         """
 
-        for index, row in self.input_data.iterrows():
+        rows = self._prepare_rows()
+        column_names = rows.columns.values
+        for index, row in rows.iterrows():
             # statistic name
             stat = row['stat_name'].lower()
 
@@ -256,11 +240,39 @@ class SumStat:
             row_array = np.expand_dims(row.to_numpy(), axis=0)
 
             # calculate the stat value
-            stat_value = [calculate_statistic(row_array, self.column_names, stat)][0]
+            stat_value = [calculate_statistic(row_array, column_names, stat)][0]
 
             # save the value to the 'stat_value' column
             self.input_data.at[index, 'stat_value'] = stat_value
 
+    def _prepare_rows(self):
+        """Adds the values that the statistics of some line types are calculated from
+
+        Returns:
+            Pandas DataFrame with the input data and the added values
+        """
+        rows = self.input_data.copy()
+        line_type = self.params['line_type']
+        if line_type == 'nbrcnt':
+            # the statistic uses the denominator of fss
+            rows['fss'] = rows['fbs'] / (1.0 - rows['fss'])
+        elif line_type == 'rps':
+            rows['rps_climo'] = rows['rps'] / (1.0 - rows['rpss'])
+        elif line_type == 'ecnt':
+            for name, column in {'mse': 'rmse', 'mse_oerr': 'rmse_oerr', 'variance': 'spread',
+                                 'variance_oerr': 'spread_oerr',
+                                 'variance_plus_oerr': 'spread_plus_oerr'}.items():
+                if column in rows.columns:
+                    rows[name] = rows[column] * rows[column]
+            for name in ['ge_obs', 'lt_obs']:
+                if 'n_' + name in rows.columns:
+                    rows['me_' + name] = rows['me_' + name] * rows['n_' + name]
+        elif line_type == 'pct':
+            oy_total = rows[[col for col in rows if col.startswith('oy_i')]].sum(axis=1)
+            on_total = rows[[col for col in rows if col.startswith('on_i')]].sum(axis=1)
+            rows['o_bar'] = oy_total / (oy_total + on_total)
+        return rows
+
     # def parallelize(self, data, func, num_of_processes=8):
     #     data_split = np.array_split(data, num_of_processes)
     #     pool = mp.Pool(num_of_processes)
-- 
2.43.0


From 649fcbf7239f3c121a4e761227b808dc525e5976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:47 +0000
Subject: [PATCH 37/80] fix: find the series of a derived curve by their own
 values

---
 metcalcpy/agg_stat.py | 96 +++++++++++++++++++++++--------------------
 1 file changed, 51 insertions(+), 45 deletions(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 5505db6..80e1c6d 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -634,37 +634,14 @@ class AggStat:
                     break
         # find all components for the 1st and 2nd series
         derived_curve_component = self.derived_name_to_values[derived_name]
-        permute_for_first_series = derived_curve_component.first_component.copy()
-        for series_comp in series[1:]:
-            if series_comp not in permute_for_first_series:
-                permute_for_first_series.append(series_comp)
-
-        # replace first_series components group names to values
-        for i, perm in enumerate(permute_for_first_series):
-            if perm in self.group_to_value:
-                permute_for_first_series[i] = self.group_to_value[perm]
-
-        permute_for_second_series = derived_curve_component.second_component.copy()
-        for series_comp in series[1:]:
-            if series_comp not in permute_for_second_series:
-                permute_for_second_series.append(series_comp)
-
-        # replace second_series components group names to values
-        for i, perm in enumerate(permute_for_second_series):
-            if perm in self.group_to_value:
-                permute_for_second_series[i] = self.group_to_value[perm]
-
-        ds_1 = None
-        ds_2 = None
-
-        # for each component find  its BootstrapDistributionResult object
-        for series_to_distrib_key in distributions.keys():
-            if all(elem in permute_for_first_series for elem in series_to_distrib_key):
-                ds_1 = distributions[series_to_distrib_key]
-            if all(elem in permute_for_second_series for elem in series_to_distrib_key):
-                ds_2 = distributions[series_to_distrib_key]
-            if ds_1 is not None and ds_2 is not None:
-                break
+        series_1 = self._find_component_series(derived_curve_component.first_component,
+                                               series, distributions, axis)
+        series_2 = self._find_component_series(derived_curve_component.second_component,
+                                               series, distributions, axis)
+
+        # for each component get its BootstrapDistributionResult object
+        ds_1 = distributions[series_1]
+        ds_2 = distributions[series_2]
 
         # if BootstrapDistributionResult object doesn't exist
         # or the original series data size is 0 return an empty object
@@ -675,20 +652,8 @@ class AggStat:
                                     upper_bound=None)
         # calculate the number of values in the group if the series has a group
         # it is need d for the validation
-        num_diff_vals_first = 0
-        num_diff_vals_second = 0
-        for val in permute_for_first_series:
-            size = len(val.split(GROUP_SEPARATOR))
-            if size > 1:
-                num_diff_vals_first = num_diff_vals_first + size
-        for val in permute_for_second_series:
-            size = len(val.split(GROUP_SEPARATOR))
-            if size > 1:
-                num_diff_vals_second = num_diff_vals_second + size
-        if num_diff_vals_first == 0:
-            num_diff_vals_first = 1
-        if num_diff_vals_second == 0:
-            num_diff_vals_second = 1
+        num_diff_vals_first = self._get_number_of_group_values(series_1, axis)
+        num_diff_vals_second = self._get_number_of_group_values(series_2, axis)
 
         # validate data
         if derived_curve_component.derived_operation != 'SINGLE':
@@ -775,6 +740,47 @@ class AggStat:
 
         return results
 
+    def _find_component_series(self, component, derived_series, distributions, axis="1"):
+        """ Finds the series that a component of the derived series stands for
+            Args:
+                component: values that identify the component. The last one is the statistic
+                derived_series: values of the derived series point
+                distributions: dictionary of the series to its BootstrapDistributionResult object
+                axis: y1 or y2 axis
+
+            Returns:
+                key of the series in the dictionary
+        """
+        # replace group names to values
+        component = [self.group_to_value.get(value, value) for value in component]
+        number_of_fields = len(self.params['series_val_' + axis])
+        # independent value of the point and the statistic of the component
+        indy_and_stat = tuple(derived_series[number_of_fields:-1]) + (component[-1],)
+
+        series = tuple(component[:number_of_fields]) + indy_and_stat
+        if series in distributions:
+            return series
+        for series in distributions.keys():
+            if series[number_of_fields:] == indy_and_stat \
+                    and all(value in component for value in series[:number_of_fields]):
+                return series
+        raise NameError(f"Derived curve can't be calculated. Series {' '.join(component)} doesn't exist")
+
+    def _get_number_of_group_values(self, series, axis="1"):
+        """ Calculates how many records of the series can have the same valid date and lead
+            Args:
+                series: values of the series point
+                axis: y1 or y2 axis
+
+            Returns:
+                the product of the sizes of groups
+        """
+        result = 1
+        for field, value in zip([*self.params['series_val_' + axis], self.params['indy_var']], series[:-1]):
+            if field not in ('fcst_lead', 'fcst_valid_beg', 'fcst_valid', 'fcst_init_beg', 'fcst_init'):
+                result = result * len(value.split(GROUP_SEPARATOR))
+        return result
+
     def _get_bootstrapped_stats(self, series_data, axis="1"):
         """ Calculates aggregation statistic value and CI intervals if needed for input data
             Args:
-- 
2.43.0


From 3e199a70ca80d96ac0a22f6d7396719cafe74d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:51 +0000
Subject: [PATCH 38/80] fix: confidence intervals when the statistic of some
 resamples is undefined

The percentiles are taken over the resamples that have a value. The interval
is left empty when there are none. The economic value intervals use the value
at the same cost/loss ratio in the pivotal method.
---
 metcalcpy/bootstrap.py | 48 +++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/metcalcpy/bootstrap.py b/metcalcpy/bootstrap.py
index f105165..087c976 100644
--- a/metcalcpy/bootstrap.py
+++ b/metcalcpy/bootstrap.py
@@ -325,19 +325,25 @@ def _get_confidence_interval_and_value(bootstrap_dist, stat_val, alpha, ci_metho
     if stat_val is None:
         ci_method = "None"
 
+    # the statistic may be undefined for some of the resamples
+    bd = bootstrap_dist[bootstrap_dist != _np.array([None])]
+
     if ci_method == 'pivotal':
-        low = 2 * stat_val - _np.percentile(bootstrap_dist, 100 * (1 - alpha / 2.))
         val = stat_val
-        high = 2 * stat_val - _np.percentile(bootstrap_dist, 100 * (alpha / 2.))
+        if bd.size == 0:
+            low = None
+            high = None
+        else:
+            low = 2 * stat_val - _np.percentile(bd, 100 * (1 - alpha / 2.))
+            high = 2 * stat_val - _np.percentile(bd, 100 * (alpha / 2.))
     elif ci_method == 'perc':
         # check if All values of bootstrap_dist are equal and if YES -
         # display a warning and do not calculate CIs - like boot.ci in R
-        if _all_the_same(bootstrap_dist):
+        if _all_the_same(bd):
             print(f'All values of t are equal to {bootstrap_dist[0]}. Cannot calculate confidence intervals')
             low = None
             high = None
         else:
-            bd = bootstrap_dist[bootstrap_dist != _np.array([None])]
             low = _np.percentile(bd, 100 * (alpha / 2.), method='linear')
             high = _np.percentile(bd, 100 * (1 - alpha / 2.), method='linear')
         val = stat_val
@@ -371,34 +377,28 @@ def _get_confidence_interval_and_value_eclv(bootstrap_dist, stat_val, alpha, ci_
         high = None
 
     else:
+        # the value may be undefined for some of the resamples
         bd = bootstrap_dist[bootstrap_dist != _np.array([None])]
-        all_values = []
-        for dist_member in bd:
-            all_values.append(dist_member['V'].tolist())
-
-        all_values_np = _np.array(all_values)
+        all_values_np = _np.array([dist_member['V'] for dist_member in bd])
         steps_len = len(stat_val['cl'])
-        none_in_values = len(stat_val['V']) != sum(x is not None for x in stat_val['V'])
         stat_btcl = [None] * steps_len
         stat_btcu = [None] * steps_len
 
         for ind in range(steps_len):
             low = None
             high = None
-            column = all_values_np[:, ind]
-            if ci_method == 'pivotal':
-                low = 2 * stat_val - _np.percentile(column, 100 * (1 - alpha / 2.))
-                high = 2 * stat_val - _np.percentile(column, 100 * (alpha / 2.))
-
-            elif ci_method == 'perc':
-                if _all_the_same(column):
-                    print(f'All values of t are equal to {column[0]}. Cannot calculate confidence intervals')
-                    low = None
-                    high = None
-                else:
-                    if none_in_values:
-                        low = _np.percentile(column, 100 * (alpha / 2.), interpolation='linear')
-                        high = _np.percentile(column, 100 * (1 - alpha / 2.), interpolation='linear')
+            if bd.size > 0:
+                column = all_values_np[:, ind]
+                if ci_method == 'pivotal':
+                    low = 2 * stat_val['V'][ind] - _np.percentile(column, 100 * (1 - alpha / 2.))
+                    high = 2 * stat_val['V'][ind] - _np.percentile(column, 100 * (alpha / 2.))
+
+                elif ci_method == 'perc':
+                    if _all_the_same(column):
+                        print(f'All values of t are equal to {column[0]}. Cannot calculate confidence intervals')
+                    else:
+                        low = _np.percentile(column, 100 * (alpha / 2.), method='linear')
+                        high = _np.percentile(column, 100 * (1 - alpha / 2.), method='linear')
             stat_btcl[ind] = low
             stat_btcu[ind] = high
 
-- 
2.43.0


From b36e9fafda8437bed6a6df213b8e8c802356efe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:11 +0000
Subject: [PATCH 39/80] fix: use the requested alpha for all confidence
 intervals

---
 metcalcpy/agg_eclv.py           | 1 +
 metcalcpy/agg_stat.py           | 3 ++-
 metcalcpy/agg_stat_bootstrap.py | 1 +
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/agg_eclv.py b/metcalcpy/agg_eclv.py
index 36ebc76..bb462b5 100644
--- a/metcalcpy/agg_eclv.py
+++ b/metcalcpy/agg_eclv.py
@@ -175,6 +175,7 @@ class AggEclv:
                     results = bootstrap_and_value(
                         data,
                         stat_func=self._calc_stats,
+                        alpha=self.params.get('alpha', 0.05),
                         num_iterations=self.params['num_iterations'],
                         num_threads=self.params['num_threads'],
                         ci_method=self.params['method'],
diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 80e1c6d..a83b1ae 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -718,7 +718,7 @@ class AggStat:
                     num_iterations=self.params['num_iterations'],
                     num_threads=self.params['num_threads'],
                     ci_method=self.params['method'],
-                    alpha=self.params['alpha'],
+                    alpha=self.params.get('alpha', 0.05),
                     save_data=False,
                     save_distributions=derived_curve_component.derived_operation == 'DIFF_SIG',
                     block_length=block_length)
@@ -837,6 +837,7 @@ class AggStat:
                 results = bootstrap_and_value(
                     data,
                     stat_func=self._calc_stats,
+                    alpha=self.params.get('alpha', 0.05),
                     num_iterations=self.params['num_iterations'],
                     num_threads=self.params['num_threads'],
                     ci_method=self.params['method'],
diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index fe31263..cd21d39 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -234,6 +234,7 @@ class AggStatBootstrap:
                     self.series_data,
                     cases,
                     stat_func=self._calc_stats,
+                    alpha=self.params.get('alpha', 0.05),
                     num_iterations=self.params['num_iterations'],
                     num_threads=self.params['num_threads'],
                     ci_method=self.params['method'])
-- 
2.43.0


From df9a2b3d3484799f6490a96463d82d1f3225c5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:53 +0000
Subject: [PATCH 40/80] fix: bootstrap of MODE ratio statistics

Resamples use the records of a case as many times as the case was drawn.
Every statistic and group has its own row, records of other variables are
not used, and event equalized data is read back from the file it is saved to.
---
 metcalcpy/agg_stat_bootstrap.py | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index cd21d39..d1e691b 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -118,7 +118,6 @@ class AggStatBootstrap:
             if len(self.params['fcst_var_val_' + axis]) > 0 and 'fcst_var' in self.input_data.columns:
                 fcst_var = list(self.params['fcst_var_val_' + axis].keys())[0]
 
-            cases = []
             out_frame = self._init_out_frame(all_fields_values.keys(), all_points)
             point_to_distrib = {}
 
@@ -139,6 +138,7 @@ class AggStatBootstrap:
 
                 all_points = list(itertools.product(*all_fields_values.values()))
 
+                cases = []
                 for point in all_points:
                     all_filters = []
                     for field_ind, field in enumerate(all_fields_values.keys()):
@@ -194,7 +194,13 @@ class AggStatBootstrap:
                                     filter_list.append(float(filter_val))
 
                             all_filters.append((filtered_by_indy_data[field].isin(filter_list)))
-                            out_frame_filter.append((out_frame[field].isin(filter_list)))
+                            out_frame_filter.append((out_frame[field] == filter_value))
+
+                        # add fcst var
+                        if fcst_var is not None:
+                            all_filters.append((filtered_by_indy_data['fcst_var'].isin([fcst_var])))
+                        out_frame_filter.append((out_frame['stat_name'] == stat_upper))
+
                         # use numpy to select the rows where any record evaluates to True
                         mask = np.array(all_filters).all(axis=0)
                         mask_out_frame = np.array(out_frame_filter).all(axis=0)
@@ -221,6 +227,11 @@ class AggStatBootstrap:
         return out_frame
 
     def _get_bootstrapped_stats(self, series_data, cases):
+        # if there are no cases - do nothing and return an empty object
+        if len(cases) == 0:
+            return BootstrapResults(lower_bound=None,
+                                    value=None,
+                                    upper_bound=None)
         self.series_data = sort_data(series_data)
         if self.params['num_iterations'] == 1:
             stat_val = self._calc_stats(cases)[0]
@@ -268,9 +279,12 @@ class AggStatBootstrap:
         elif cases is not None and cases.ndim == 3:
             # bootstrapped case
             stat_values = []
+            data_cases = np.asarray(self.series_data['case'])
+            all_values = self.series_data.to_numpy()
             for row in cases:
-                values_ind = self.series_data['case'].isin(row.flatten())
-                values = self.series_data[values_ind]
+                # use records of the case as many times as the case was sampled
+                values_ind = [np.flatnonzero(data_cases == case) for case in row.flatten()]
+                values = all_values[np.concatenate(values_ind)]
                 stat_values.append([globals()[func_name](values, self.column_names)])
         else:
             raise KeyError("can't calculate statistic")
@@ -313,10 +327,12 @@ class AggStatBootstrap:
         """ Performs event equalisation on input data
         """
         agg_stat_event_eqz = AggStatEventEqz(self.params)
-
-        self.input_data = agg_stat_event_eqz.calculate_values()
+        agg_stat_event_eqz.calculate_values()
+        self.input_data = pd.read_csv(self.params['agg_stat_output'], header=[0], sep='\t')
         file_name = self.params['agg_stat_input'].replace("agg_stat_bootstrap", "dataAfterEq")
-        self.input_data.to_csv(file_name, index=None, header=True, mode='w', sep="\t", na_rep="NA")
+        # never replace the input data with the equalized data
+        if file_name != self.params['agg_stat_input']:
+            self.input_data.to_csv(file_name, index=None, header=True, mode='w', sep="\t", na_rep="NA")
 
 
 if __name__ == "__main__":
-- 
2.43.0


From e271cd87ae6b7592447ec0cc2967ab4647b8ffb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:14:11 +0000
Subject: [PATCH 41/80] fix: accept a boolean value of append_to_file

---
 metcalcpy/agg_eclv.py  | 2 +-
 metcalcpy/agg_stat.py  | 2 +-
 metcalcpy/scorecard.py | 5 +++--
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/metcalcpy/agg_eclv.py b/metcalcpy/agg_eclv.py
index bb462b5..80a2d6c 100644
--- a/metcalcpy/agg_eclv.py
+++ b/metcalcpy/agg_eclv.py
@@ -311,7 +311,7 @@ class AggEclv:
         header = True
         mode = 'w'
 
-        if 'append_to_file' in self.params.keys() and self.params['append_to_file'] == 'True':
+        if 'append_to_file' in self.params.keys() and parse_bool(self.params['append_to_file']):
             header = False
             mode = 'a'
 
diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index a83b1ae..b22cb66 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -1169,7 +1169,7 @@ class AggStat:
         header = True
         mode = 'w'
 
-        if 'append_to_file' in self.params.keys() and self.params['append_to_file'] == 'True':
+        if 'append_to_file' in self.params.keys() and parse_bool(self.params['append_to_file']):
             header = False
             mode = 'a'
 
diff --git a/metcalcpy/scorecard.py b/metcalcpy/scorecard.py
index ed623fd..20d0035 100644
--- a/metcalcpy/scorecard.py
+++ b/metcalcpy/scorecard.py
@@ -50,7 +50,8 @@ from metcalcpy.util.tost_paired import pt
 
 from metcalcpy.util.utils import intersection, get_derived_curve_name, \
     is_derived_point, is_string_integer, OPERATION_TO_SIGN, calc_derived_curve_value, \
-    perfect_score_adjustment, sort_data, PRECISION, DerivedCurveComponent, is_string_strictly_float
+    perfect_score_adjustment, sort_data, PRECISION, DerivedCurveComponent, is_string_strictly_float, \
+    parse_bool
 
 COLUMNS_TO_REMOVE = ['equalize', 'stat_ncl', 'stat_ncu', 'stat_bcl', 'stat_bcu', 'fcst_valid_beg', 'fcst_init_beg']
 
@@ -179,7 +180,7 @@ class Scorecard:
         if derived_frame is not None:
             header = True
             mode = 'w'
-            if 'append_to_file' in self.params.keys() and self.params['append_to_file'] == 'True':
+            if 'append_to_file' in self.params.keys() and parse_bool(self.params['append_to_file']):
                 header = False
                 mode = 'a'
             export_csv = derived_frame.to_csv(self.params['sum_stat_output'],
-- 
2.43.0


From 1cbebf92c95af77adf79c77050f167cd87dd874e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:17:57 +0000
Subject: [PATCH 42/80] fix: significance of scorecard cells with few or
 unequal values

A cell without two pairs of values has no significance instead of ending the
job. The orientation of the significance follows the compared statistic.
---
 metcalcpy/scorecard.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/metcalcpy/scorecard.py b/metcalcpy/scorecard.py
index 20d0035..a9f13c8 100644
--- a/metcalcpy/scorecard.py
+++ b/metcalcpy/scorecard.py
@@ -103,6 +103,7 @@ class Scorecard:
             logging.error('Parameter with key %s is missing', ex)
             raise
         self.group_to_value = {}
+        self.statistic = None
 
     def calculate_scorecard_data(self):
         """Calculates requested statistics for the scorecard. Possible statistic values:
@@ -284,10 +285,13 @@ class Scorecard:
         # calculate derived statistic based on the operation and stat_flag
         derived_stat = None
         if derived_curve_component.derived_operation == 'DIFF_SIG':
-            if self.params['stat_flag'] == 'EMC':
-                derived_stat = self._calculate_diff_sig_emc(stat_values_1, stat_values_2)
-            else:
-                derived_stat = self._calculate_diff_sig_ncar(stat_values_1, stat_values_2)
+            self.statistic = derived_curve_component.first_component[-1]
+            # the significance needs at least two pairs of values
+            if len(stat_values_1) == len(stat_values_2) and len(stat_values_1) > 1:
+                if self.params['stat_flag'] == 'EMC':
+                    derived_stat = self._calculate_diff_sig_emc(stat_values_1, stat_values_2)
+                else:
+                    derived_stat = self._calculate_diff_sig_ncar(stat_values_1, stat_values_2)
 
         elif derived_curve_component.derived_operation == 'DIFF':
             # perform the derived operation
@@ -295,7 +299,8 @@ class Scorecard:
                 stat_values_1,
                 stat_values_2,
                 'DIFF')
-            derived_stat = statistics.mean(derived_stat_list)
+            if derived_stat_list is not None:
+                derived_stat = statistics.mean(derived_stat_list)
 
         elif derived_curve_component.derived_operation == 'SINGLE':
             derived_stat = statistics.mean(stat_values_1)
@@ -343,7 +348,7 @@ class Scorecard:
         p_val = 1 - 2 * pt(abs(t), total - 1, lower_tail=False)
         derived_stat = perfect_score_adjustment(statistics.mean(ds_1_values),
                                                 statistics.mean(ds_2_values),
-                                                self.params['list_stat_1'][0],
+                                                self.statistic,
                                                 p_val)
         return derived_stat
 
@@ -368,13 +373,13 @@ class Scorecard:
         intvl = round(1.960 * std / math.sqrt(nsz - 1), 6)
         mean1 = round(statistics.mean(values_1), 6)
         mean2 = round(statistics.mean(values_2), 6)
-        if self.params['list_stat_1'][0].startswith('ME') or self.params['list_stat_1'][0].startswith('BIAS'):
+        if self.statistic.startswith('ME') or self.statistic.startswith('BIAS'):
             ds = (abs(mean2 - mean1)) / intvl
             sss = abs(mean2) - abs(mean1)
             if sss is not None and sss < 0:
                 ds = (-1) * ds
-        elif self.params['list_stat_1'][0].startswith('RMSE') \
-                or self.params['list_stat_1'][0].startswith('RMSVE'):
+        elif self.statistic.startswith('RMSE') \
+                or self.statistic.startswith('RMSVE'):
             ds = (mean2 - mean1) / intvl
         else:
             ds = (mean1 - mean2) / intvl
@@ -413,9 +418,7 @@ class Scorecard:
                 derived_stat = -0.95
             elif ds99 <= -1 and ds999 > -1:
                 derived_stat = -0.99
-            elif ds999 <= -1 and ds999 > -100.0:
-                derived_stat = -1
-            elif ds999 < -100.0:
+            elif ds999 <= -1:
                 derived_stat = -1
         return derived_stat
 
-- 
2.43.0


From 1350aa9661624b0479a9c5413ba604a30f00ebf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:30:36 +0000
Subject: [PATCH 43/80] fix: conclusions of the equivalence test at zero p
 values and at the level

A p value of zero was treated as missing and a p value equal to alpha had no
combined outcome. Identical paired series are handled in both modules.
---
 metcalcpy/util/tost_paired.py | 66 +++++++++++++++++++++--------------
 metcalcpy/util/utils.py       |  7 ++--
 2 files changed, 44 insertions(+), 29 deletions(-)

diff --git a/metcalcpy/util/tost_paired.py b/metcalcpy/util/tost_paired.py
index 5de53e2..2832981 100644
--- a/metcalcpy/util/tost_paired.py
+++ b/metcalcpy/util/tost_paired.py
@@ -119,23 +119,27 @@ def tost_paired(n, m1, m2, sd1, sd2, r12, low_eqbound_dz, high_eqbound_dz, alpha
         print("The correlation should be a value between -1 and 1.")
         sys.exit()
 
-    sdif = math.sqrt(sd1 * sd1 + sd2 * sd2 - 2 * r12 * sd1 * sd2)
+    # the variance of the difference can't be negative
+    sdif = math.sqrt(max(sd1 * sd1 + sd2 * sd2 - 2 * r12 * sd1 * sd2, 0))
     low_eqbound = low_eqbound_dz * sdif
     high_eqbound = high_eqbound_dz * sdif
     se = sdif / math.sqrt(n)
-    t = (m1 - m2) / se
     degree_f = n - 1
 
-    pttest = 2 * pt(abs(t), degree_f, lower_tail=False)
-
-    t1 = ((m1 - m2) - (low_eqbound_dz * sdif)) / se
-    p1 = pt(t1, degree_f, lower_tail=False)
-    t2 = ((m1 - m2) - (high_eqbound_dz * sdif)) / se
-    p2 = pt(t2, degree_f, lower_tail=True)
+    if se != 0:
+        t = (m1 - m2) / se
+        pttest = 2 * pt(abs(t), degree_f, lower_tail=False)
+        t1 = ((m1 - m2) - (low_eqbound_dz * sdif)) / se
+        p1 = pt(t1, degree_f, lower_tail=False)
+        t2 = ((m1 - m2) - (high_eqbound_dz * sdif)) / se
+        p2 = pt(t2, degree_f, lower_tail=True)
+        ptost = max(p1, p2)
+    else:
+        pttest = None
+        ptost = None
 
     ll90 = ((m1 - m2) - qt(1 - alpha, degree_f) * se)
     ul90 = ((m1 - m2) + qt(1 - alpha, degree_f) * se)
-    ptost = max(p1, p2)
 
     dif = (m1 - m2)
     ll95 = ((m1 - m2) - qt(1 - (alpha / 2), degree_f) * se)
@@ -143,32 +147,42 @@ def tost_paired(n, m1, m2, sd1, sd2, r12, low_eqbound_dz, high_eqbound_dz, alpha
     xlim_l = min(ll90, low_eqbound) - max(ul90 - ll90, high_eqbound - low_eqbound) / 10
     xlim_u = max(ul90, high_eqbound) + max(ul90 - ll90, high_eqbound - low_eqbound) / 10
 
-    if pttest <= alpha and ptost <= alpha:
-        combined_outcome = 'diff_eqv'
+    if pttest is not None and ptost is not None:
+        if pttest <= alpha and ptost <= alpha:
+            combined_outcome = 'diff_eqv'
 
-    if pttest < alpha and ptost > alpha:
-        combined_outcome = 'diff_no_eqv'
+        if pttest <= alpha and ptost > alpha:
+            combined_outcome = 'diff_no_eqv'
 
-    if pttest > alpha and ptost <= alpha:
-        combined_outcome = 'no_diff_eqv'
+        if pttest > alpha and ptost <= alpha:
+            combined_outcome = 'no_diff_eqv'
 
-    if pttest > alpha and ptost > alpha:
-        combined_outcome = 'no_diff_no_eqv'
+        if pttest > alpha and ptost > alpha:
+            combined_outcome = 'no_diff_no_eqv'
 
-    if pttest < alpha:
-        test_outcome = 'significant'
-    else:
-        test_outcome = 'non-significant'
+        if pttest < alpha:
+            test_outcome = 'significant'
+        else:
+            test_outcome = 'non-significant'
+
+        if ptost < alpha:
+            tost_outcome = 'significant'
+        else:
+            tost_outcome = 'non-significant'
 
-    if ptost < alpha:
-        tost_outcome = 'significant'
+        t = (round_half_up(t1, PRECISION), round_half_up(t2, PRECISION))
+        p = (round_half_up(p1, PRECISION), round_half_up(p2, PRECISION))
     else:
-        tost_outcome = 'non-significant'
+        combined_outcome = 'none'
+        tost_outcome = 'none'
+        test_outcome = 'none'
+        t = (None, None)
+        p = (None, None)
 
     return {
         'dif': round_half_up(dif, PRECISION),
-        't': (round_half_up(t1, PRECISION), round_half_up(t2, PRECISION)),
-        'p': (round_half_up(p1, PRECISION), round_half_up(p2, PRECISION)),
+        't': t,
+        'p': p,
         'degrees_of_freedom': round_half_up(degree_f, PRECISION),
         'ci_tost': (round_half_up(ll90, PRECISION), round_half_up(ul90, PRECISION) ),
         'ci_ttest': (round_half_up(ll95, PRECISION), round_half_up(ul95, PRECISION)),
diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 02ddb83..9ed1fb9 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -1134,7 +1134,8 @@ def tost_paired(n: int, m1: float, m2: float, sd1: float, sd2: float, r12: float
         print("The correlation should be a value between -1 and 1.")
         sys.exit()
 
-    sdif = math.sqrt(sd1 * sd1 + sd2 * sd2 - 2 * r12 * sd1 * sd2)
+    # the variance of the difference can't be negative
+    sdif = math.sqrt(max(sd1 * sd1 + sd2 * sd2 - 2 * r12 * sd1 * sd2, 0))
     low_eqbound = low_eqbound_dz * sdif
     high_eqbound = high_eqbound_dz * sdif
     se = sdif / math.sqrt(n)
@@ -1165,11 +1166,11 @@ def tost_paired(n: int, m1: float, m2: float, sd1: float, sd2: float, r12: float
     xlim_l = min(ll90, low_eqbound) - max(ul90 - ll90, high_eqbound - low_eqbound) / 10
     xlim_u = max(ul90, high_eqbound) + max(ul90 - ll90, high_eqbound - low_eqbound) / 10
 
-    if pttest and ptost:
+    if pttest is not None and ptost is not None:
         if pttest <= alpha and ptost <= alpha:
             combined_outcome = 'diff_eqv'
 
-        if pttest < alpha and ptost > alpha:
+        if pttest <= alpha and ptost > alpha:
             combined_outcome = 'diff_no_eqv'
 
         if pttest > alpha and ptost <= alpha:
-- 
2.43.0


From 3282f76011e329fa009c03b37523928268208517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:28 +0000
Subject: [PATCH 44/80] fix: correlation of three perfectly correlated pairs

---
 metcalcpy/util/correlation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/util/correlation.py b/metcalcpy/util/correlation.py
index 5f002b7..ce0cbf0 100644
--- a/metcalcpy/util/correlation.py
+++ b/metcalcpy/util/correlation.py
@@ -250,7 +250,8 @@ def corr(x, y, tail='two-sided', method='pearson', **kwargs):
 
     # Compute r2 and adj_r2
     r2 = r ** 2
-    adj_r2 = 1 - (((1 - r2) * (nx - 1)) / (nx - 3))
+    # adjusted r2 is not defined for 3 pairs
+    adj_r2 = 1 - (((1 - r2) * (nx - 1)) / (nx - 3)) if nx != 3 else np.nan
 
     # Compute the parametric 95% confidence interval and power
     ci = compute_esci(stat=r, nx=nx, ny=nx, eftype='r', decimals=6)
-- 
2.43.0


From 6be0ebaacb25216a66f8536c43a703cfccad8c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:59 +0000
Subject: [PATCH 45/80] fix: standard errors and lag one coefficient of short,
 gappy and trending series

---
 metcalcpy/util/utils.py | 92 ++++++++++++++++++++++++-----------------
 1 file changed, 53 insertions(+), 39 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 9ed1fb9..916adf0 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -804,36 +804,57 @@ def compute_std_err_from_mean(data):
     Returns: Standard Error, variance inflation factor flag, AR1 coefficient, the length of data
     """
     ratio_flag = 0
-    variance = st.variance(data)
+    data_without_non = [x for x in data if x is not None and not np.isnan(x)]
+    size = len(data_without_non)
+    variance = st.variance(data_without_non) if size > 2 else 0.0
 
-    number_of_none = sum(x is None for x in data)
-    if variance > 0.0 and (len(data) - number_of_none) > 2:
+    if variance > 0.0:
         # Compute the first order auto-correlation coefficient.
-        ar_1 = autocor_coef(data)
+        ar_1 = autocor_coef(data_without_non)
 
         # Compute a variance inflation factor
         # (having removed that portion of the time series that was correlated).
-        ratio = (1 + ar_1) / (1 - ar_1)
-
-        # Check for a zero RATIO, that will then be operated on by SQRT.
-        # If necessary, try a different arima method, or just set RATIO to one.
-        if ratio < 0.0:
-            ratio = 1.0
-            ratio_flag = 1
-
-        variance_inflation_factor = math.sqrt(ratio)
-
-        # If the AR1 coefficient is less than 0.3, then don't even use a vif!  Set vif = 1.0
-        if ar_1 < 0.3 or ar_1 >= 0.99:
-            variance_inflation_factor = 1.0
+        variance_inflation_factor, ratio_flag = compute_variance_inflation_factor(ar_1)
+        if ar_1 is None:
+            ar_1 = 0.0
 
         # Compute the Standard Error using the variance inflation factor.
-        std_err = variance_inflation_factor * math.sqrt(variance) / math.sqrt(len(data))
+        std_err = variance_inflation_factor * math.sqrt(variance) / math.sqrt(size)
 
     else:
         std_err = 0.0
         ar_1 = 0.0
-    return std_err, ratio_flag, ar_1, len(data)
+    return std_err, ratio_flag, ar_1, size
+
+
+def compute_variance_inflation_factor(ar_1):
+    """
+    Computes a variance inflation factor for the first order auto-correlation coefficient
+    Arg:
+        ar_1: AR1 coefficient or None
+
+    Returns: variance inflation factor, variance inflation factor flag
+    """
+    # without a usable AR1 coefficient don't use a vif
+    if ar_1 is None or ar_1 == 1:
+        return 1.0, 0
+
+    ratio_flag = 0
+    ratio = (1 + ar_1) / (1 - ar_1)
+
+    # Check for a zero RATIO, that will then be operated on by SQRT.
+    # If necessary, try a different arima method, or just set RATIO to one.
+    if ratio < 0.0:
+        ratio = 1.0
+        ratio_flag = 1
+
+    variance_inflation_factor = math.sqrt(ratio)
+
+    # If the AR1 coefficient is less than 0.3, then don't even use a vif!  Set vif = 1.0
+    if ar_1 < 0.3 or ar_1 >= 0.99:
+        variance_inflation_factor = 1.0
+
+    return variance_inflation_factor, ratio_flag
 
 
 def compute_std_err_from_median_no_variance_inflation_factor(data):
@@ -875,39 +896,29 @@ def compute_std_err_from_median_variance_inflation_factor(data):
         if val is not None and not np.isnan(val):
             data_without_non.append(val)
     ratio_flag = 0
+    size = len(data_without_non)
     iqr = stats.iqr(data_without_non, interpolation='linear')
-    number_of_none = sum(x is None or np.isnan(x) for x in data)
 
-    if iqr > 0.0 and (len(data) - number_of_none) > 2:
+    if iqr > 0.0 and size > 2:
         # Compute the first order auto-correlation coefficient
         # using a vector that is the same size as "data", but represents
         # represents excusions from the median of the data.
 
-        ar_1 = autocor_coef(data)
+        ar_1 = autocor_coef(data_without_non)
 
         # Compute an variance inflation factor
         # (having removed that portion of the time series that was correlated).
-        ratio = (1 + ar_1) / (1 - ar_1)
-
-        # Check for a zero RATIO, that will then be operated on by SQRT.
-        if ratio < 0.0:
-            ratio = 1.0
-            ratio_flag = 1
-
-        variance_inflation_factor = math.sqrt(ratio)
-
-        # If the AR1 coefficient is less than 0.3, then don't even use a vif!  Set vif = 1.0
-        if ar_1 < 0.3 or ar_1 >= 0.99:
-            variance_inflation_factor = 1.0
+        variance_inflation_factor, ratio_flag = compute_variance_inflation_factor(ar_1)
+        if ar_1 is None:
+            ar_1 = 0
 
         # Compute the Standard Error using the variance inflation factor.
-        iqr = stats.iqr(data, interpolation='linear')
-        std_err = variance_inflation_factor * (iqr * math.sqrt(math.pi / 2.)) / (1.349 * math.sqrt(len(data)))
+        std_err = variance_inflation_factor * (iqr * math.sqrt(math.pi / 2.)) / (1.349 * math.sqrt(size))
 
     else:
         std_err = 0.0
         ar_1 = 0
-    return std_err, ratio_flag, ar_1, len(data)
+    return std_err, ratio_flag, ar_1, size
 
 
 def compute_std_err_from_sum(data):
@@ -922,7 +933,7 @@ def compute_std_err_from_sum(data):
     std_err = compute_std_err_from_mean(data)
 
     # multiply Standard Error by data size
-    return std_err[0] * len(data), std_err[1], std_err[2], std_err[3]
+    return std_err[0] * std_err[3], std_err[1], std_err[2], std_err[3]
 
 
 def convert_lon_360_to_180(longitude):
@@ -1309,6 +1320,9 @@ def autocor_coef(data: list) -> Union[None, float]:
 
     x_i = data_valid[0: len(data_valid) - 1]
     y_i = data_valid[1: len(data_valid)]
+    # there is no regression on a constant
+    if min(x_i) == max(x_i):
+        return None
     data_mean = st.mean(data_valid)
 
     x = [x - data_mean for x in x_i]
@@ -1325,4 +1339,4 @@ def autocor_coef(data: list) -> Union[None, float]:
     sxy = sum(xy)
 
     n = len(data_valid)
-    return sx * sy / (sx - (n - 1) * sxx) + sxy / (sxx - sx * sx / (n - 1))
+    return sx * sy / (sx * sx - (n - 1) * sxx) + sxy / (sxx - sx * sx / (n - 1))
-- 
2.43.0


From 03bafc821d46fece3408d470641e11e02e974a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:40:29 +0000
Subject: [PATCH 46/80] fix: autocorrelation and runs test of constant and
 missing series

---
 metcalcpy/util/correlation.py | 9 ++++++++-
 metcalcpy/util/utils.py       | 4 ++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/util/correlation.py b/metcalcpy/util/correlation.py
index ce0cbf0..df17f07 100644
--- a/metcalcpy/util/correlation.py
+++ b/metcalcpy/util/correlation.py
@@ -311,8 +311,12 @@ def acf(x: Union[list, np.array], acf_type: str = 'correlation', lag_max: Union[
     acf_result = []
     size = np.size(x)
 
+    x_valid = remove_none(x)
+    if len(x_valid) == 0:
+        return None
+
     # calculate mean of the array excluding None
-    mean_val = mean(remove_none(x))
+    mean_val = mean(x_valid)
 
     # calculate lag if not provided
     if lag_max is None:
@@ -320,6 +324,9 @@ def acf(x: Union[list, np.array], acf_type: str = 'correlation', lag_max: Union[
     lag_max = int(min(lag_max, size - 1))
 
     cov_0 = autocovariance(x, size, 0, mean_val)
+    # autocorrelation of the constant is not defined
+    if acf_type == 'correlation' and cov_0 == 0:
+        return None
     for i in range(lag_max+1):
         cov = autocovariance(x, size, i, mean_val)
         if acf_type == 'covariance':
diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 916adf0..52bcfd4 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -1260,6 +1260,10 @@ def calculate_mtd_revision_stats(series_data: DataFrame, lag_max: Union[int, Non
 
     data_for_stats.pop()
 
+    # there are no statistics without values
+    if len(remove_none(data_for_stats)) == 0:
+        return result
+
     # subtract mean from each value
     mean_val = st.mean(remove_none(data_for_stats))
 
-- 
2.43.0


From 03698f59231bddc4b67b5c1a4d9e89cd492f131c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:47 +0000
Subject: [PATCH 47/80] fix: longitudes reordered from a positive starting
 longitude

---
 metcalcpy/util/utils.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 52bcfd4..b3d7610 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -976,11 +976,9 @@ def convert_lons_indices(lons_in, minlon_in, range_in):
       lonsortlocs:  sorted array indices
     '''
 
-    minlon = abs(minlon_in)
-
     # Use formula to convert longitude values based on the starting lon value and
     # the target number of longitudes
-    newlons = np.mod((lons_in + minlon), range_in) - minlon
+    newlons = np.mod((lons_in - minlon_in), range_in) + minlon_in
 
     # get the sorted array indices
     lonsortlocs = np.argsort(newlons)
-- 
2.43.0


From ff0a00140a64218a37d5948985c89bb4df85bc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:01:17 +0000
Subject: [PATCH 48/80] fix: revision statistics of series without random runs

---
 metcalcpy/util/utils.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index b3d7610..2582244 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -1279,9 +1279,16 @@ def calculate_mtd_revision_stats(series_data: DataFrame, lag_max: Union[int, Non
     # qnorm((1 + 0.05)/2) = 0.06270678
     result['auto_cor_p'] = round(0.06270678 / math.sqrt(np.size(data_for_stats)), 2)
 
-    p_value = runs_test(data_for_stats, 'left.sided', 'median')['p_value']
-    if p_value is not None:
-        result['ww_run'] = round(p_value, 2)
+    # the number of runs is random only if there are values on both sides of the median
+    # and more than one value on one of the sides
+    valid_data = remove_none(data_for_stats)
+    median_val = st.median(valid_data)
+    above = sum(1 for a in valid_data if a > median_val)
+    below = sum(1 for a in valid_data if a < median_val)
+    if above > 0 and below > 0 and above + below > 2:
+        p_value = runs_test(data_for_stats, 'left.sided', 'median')['p_value']
+        if p_value is not None:
+            result['ww_run'] = round(p_value, 2)
 
     return result
 
-- 
2.43.0


From b6924c05b6e7727d0cc1460a6913201022ba25c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:02:52 +0000
Subject: [PATCH 49/80] fix: image comparison can save and show its images more
 than once, negative similarity is not wrapped

---
 metcalcpy/compare_images.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/metcalcpy/compare_images.py b/metcalcpy/compare_images.py
index 2316630..4d01a94 100644
--- a/metcalcpy/compare_images.py
+++ b/metcalcpy/compare_images.py
@@ -73,7 +73,7 @@ class CompareImages:
         # compute the Structural Similarity Index (SSIM) between the two
         # images, ensuring that the difference image is returned
         (self.mssim, self.grad) = structural_similarity(gray_image_1, gray_image_2, full=True)
-        self.grad = (self.grad * 255).astype("uint8")
+        self.grad = (self.grad.clip(0, 1) * 255).astype("uint8")
         self.thresh = None
         self.diff_in_image_1 = None
         self.diff_in_image_2 = None
@@ -117,7 +117,7 @@ class CompareImages:
             Args:
                 path_to_file - Name of the file
         """
-        if not self.thresh:
+        if self.thresh is None:
             self._init_thresh()
         cv2.imwrite(path_to_file, self.thresh)
 
@@ -126,7 +126,7 @@ class CompareImages:
             Args:
                 wait_for_key_event : If True, The function waitKey waits for a key event infinitely
         """
-        if not self.thresh:
+        if self.thresh is None:
             self._init_thresh()
         cv2.imshow("Threshold", self.thresh)
         if wait_for_key_event:
@@ -195,7 +195,7 @@ class CompareImages:
             Args:
                 path_to_file - Name of the file
         """
-        if not self.diff_in_image_2:
+        if self.diff_in_image_2 is None:
             self._init_diff_in_image_2()
         cv2.imwrite(path_to_file, self.diff_in_image_2)
 
@@ -204,7 +204,7 @@ class CompareImages:
             Args:
                 wait_for_key_event : If True, The function waitKey waits for a key event infinitely
         """
-        if not self.diff_in_image_2:
+        if self.diff_in_image_2 is None:
             self._init_diff_in_image_2()
         cv2.imshow('Difference in image 2', self.diff_in_image_2)
         if wait_for_key_event:
-- 
2.43.0


From e215516cd5d4563cdf167747c8db0013c957db99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:02:52 +0000
Subject: [PATCH 50/80] fix: configuration reading no longer changes the shared
 YAML loader and substitutes each variable once

---
 metcalcpy/util/read_env_vars_in_config.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/metcalcpy/util/read_env_vars_in_config.py b/metcalcpy/util/read_env_vars_in_config.py
index dd458a5..9800777 100644
--- a/metcalcpy/util/read_env_vars_in_config.py
+++ b/metcalcpy/util/read_env_vars_in_config.py
@@ -32,8 +32,13 @@ def parse_config(path=None, data=None, tag='!ENV'):
     :param str tag: the tag to look for
     """
     # pattern for global vars: look for ${word}
-    pattern = re.compile('.*?\${(\w+)}.*?')
-    loader = yaml.SafeLoader
+    pattern = re.compile(r'.*?\${(\w+)}.*?')
+    variable = re.compile(r'\${(\w+)}')
+
+    class EnvLoader(yaml.SafeLoader):
+        """ Loader with its own resolver and constructor, so other users of SafeLoader are not affected """
+
+    loader = EnvLoader
 
     # the tag will be used to mark where to start searching for the pattern
     # e.g. somekey: !ENV somestring${MYENVVAR}blah blah blah
@@ -48,15 +53,8 @@ def parse_config(path=None, data=None, tag='!ENV'):
         variable
         """
         value = loader.construct_scalar(node)
-        match = pattern.findall(value)  # to find all env variables in line
-        if match:
-            full_value = value
-            for g in match:
-                full_value = full_value.replace(
-                    f'${{{g}}}', os.environ.get(g, g)
-                )
-            return full_value
-        return value
+        # replace all env variables in line
+        return variable.sub(lambda match: os.environ.get(match.group(1), match.group(1)), value)
 
     loader.add_constructor(tag, constructor_env_variables)
 
-- 
2.43.0


From c0472d17c62032d645ce546db411b50add8b85f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:02:52 +0000
Subject: [PATCH 51/80] fix: difficulty index refuses decreasing domains and
 vanishing spreads

---
 metcalcpy/calc_difficulty_index.py | 2 +-
 metcalcpy/piecewise_linear.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/calc_difficulty_index.py b/metcalcpy/calc_difficulty_index.py
index 5e6de79..b903a64 100644
--- a/metcalcpy/calc_difficulty_index.py
+++ b/metcalcpy/calc_difficulty_index.py
@@ -57,7 +57,7 @@ def _input_check(sigmaij, muij, threshold, fieldijn, sigma_over_mu_ref, under_fa
     """
     assert isinstance(threshold, (int, float, np.int32, np.float32))
     assert np.ndim(sigmaij) == FIELD_DIM
-    assert np.all(sigmaij) >= EPS
+    assert not np.any(sigmaij < EPS)
     fieldshape = np.shape(fieldijn)
     # muij is a scalar or 2D array
     if isinstance(muij, np.ndarray):
diff --git a/metcalcpy/piecewise_linear.py b/metcalcpy/piecewise_linear.py
index 5fd31be..c068533 100644
--- a/metcalcpy/piecewise_linear.py
+++ b/metcalcpy/piecewise_linear.py
@@ -40,7 +40,7 @@ class PiecewiseLinear():
         len_x = len(x_domain)
         if len_x < 2:
             raise IncompatibleLengths('Length of xdomain must be at least 2.')
-        if np.any(np.diff(x_domain)) < 0:
+        if np.any(np.diff(x_domain) < 0):
             print("X_domain (in {}) is {}".format(xunits, x_domain))
             raise UnsortedArray('Xdomain must be sorted in ascending order.')
         len_y = len(y_range)
-- 
2.43.0


From c0b57216540afaead2e5e566bb97f0bbfe80105c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:02:52 +0000
Subject: [PATCH 52/80] fix: meridional mean uses the requested latitudes

---
 metcalcpy/pre_processing/directional_means.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/pre_processing/directional_means.py b/metcalcpy/pre_processing/directional_means.py
index 1db3c88..579e03e 100644
--- a/metcalcpy/pre_processing/directional_means.py
+++ b/metcalcpy/pre_processing/directional_means.py
@@ -57,6 +57,6 @@ def meridional_mean(dat, lat1, lat2, dimvar='latitude'):
     elif lat1 == lat2:
         raise ValueError('lat1 is equal to lat2, but it must be less than lat2')
 
-    wgts = np.cos(np.deg2rad(dat[dimvar].where((dat[dimvar] >= 60) & (dat[dimvar] <= 90),drop=True)))
+    wgts = np.cos(np.deg2rad(dat[dimvar].where((dat[dimvar] >= lat1) & (dat[dimvar] <= lat2),drop=True)))
 
-    return dat.where((dat[dimvar] >= 60) & (dat[dimvar] <= 90),drop=True).weighted(wgts).mean(dimvar)
+    return dat.where((dat[dimvar] >= lat1) & (dat[dimvar] <= lat2),drop=True).weighted(wgts).mean(dimvar)
-- 
2.43.0


From 2aad9bc60f9aca348aa9513133e6bc1d648e7cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:02:52 +0000
Subject: [PATCH 53/80] fix: zonal waves of any number of longitudes and
 selection of wave numbers

---
 metcalcpy/pre_processing/waves.py | 77 +++++++++++++++----------------
 1 file changed, 36 insertions(+), 41 deletions(-)

diff --git a/metcalcpy/pre_processing/waves.py b/metcalcpy/pre_processing/waves.py
index d75cc3f..bec21f5 100644
--- a/metcalcpy/pre_processing/waves.py
+++ b/metcalcpy/pre_processing/waves.py
@@ -108,12 +108,28 @@ def _zonal_wave_coeffs_xrft(dat, dimvar):
     fc = xrft.fft(dat, dim=dimvar, real_dim=dimvar,
                   true_phase=False, true_amplitude=False)
 
-    fc = fc.rename({'freq_longitude': 'lon_wavenum'})
+    fc = fc.rename({f'freq_{dimvar}': 'lon_wavenum'})
     fc = fc.assign_coords({'lon_wavenum': np.arange(fc.lon_wavenum.size)})
 
     return fc
 
 
+def _symmetric_multiplier(fc):
+    r"""Number of times each zonal wavenumber occurs in the symmetric spectrum.
+    Parameters
+    ----------
+    fc : `xarray.DataArray`
+        output of zonal_wave_coeffs
+    Returns
+    -------
+    `xarray.DataArray`
+        1 for the zonal mean and for the Nyquist wavenumber of an even number of
+        longitudes, 2 for the others.
+    """
+    once = (fc.lon_wavenum == 0) | (2 * fc.lon_wavenum == fc.nlons)
+    return xr.where(once, 1, 2)
+
+
 def zonal_wave_ampl_phase(dat, dimvar='longitude', waves=None, phase_deg=False, fftpkg='scipy'):
     r"""Calculates the amplitudes and relative phases of waves in the zonal direction.
     Parameters
@@ -143,19 +159,10 @@ def zonal_wave_ampl_phase(dat, dimvar='longitude', waves=None, phase_deg=False,
 
     fc = zonal_wave_coeffs(dat, dimvar, waves=waves, fftpkg=fftpkg)
 
-    # where the longitudinal wavenumber is 0, `where' will
-    # mask to nan, so np.isfinite will return False in those
-    # spots and true everywhere else. Thus, add 1 to get
-    # the multiplying mask that keeps in mind the "zeroth"
-    # mode (which would be the zonal mean, if kept)
-    #
-    # this is necessary because of the symmetric spectrum,
-    # so all other wavenumbers except the 0th need to
-    # be multipled by 2 to get the right amplitude
-    mult_mask = np.isfinite(fc.where(fc.lon_wavenum != 0)) + 1
+    mult_mask = _symmetric_multiplier(fc)
 
-    ampl = mult_mask*np.abs(fc) / fc.nlons
-    phas = np.angle(fc, deg=phase_deg)
+    ampl = np.abs(fc)*mult_mask / fc.nlons
+    phas = xr.apply_ufunc(np.angle, fc, kwargs={'deg': phase_deg}, dask='allowed')
 
     return (ampl.astype(dat.dtype), phas.astype(dat.dtype))
 
@@ -183,38 +190,26 @@ def zonal_wave_contributions(dat, dimvar='longitude', waves=None, fftpkg='scipy'
     --------
     zonal_wave_coeffs
     """
-    fc = zonal_wave_coeffs(dat, dimvar, waves=waves, fftpkg=fftpkg)
+    # all coefficients are needed to go back to the longitudes
+    fc = zonal_wave_coeffs(dat, dimvar, fftpkg=fftpkg)
 
     if (waves is None):
         waves = fc.lon_wavenum.values
 
-    recons = []
-    if (fftpkg == 'scipy'):
-        new_dims = list(dat.dims)
-        new_dims += ['lon_wavenum']
-        new_coords = dict(dat.coords)
-        new_coords['lon_wavenum'] = waves
-
-        for k in waves:
-            mask = np.isnan(fc.where(fc.lon_wavenum != k))
-
-            kcont = scipy.fft.irfft((fc*mask).values, axis=fc.get_axis_num('lon_wavenum'))
-            recons.append(kcont[..., np.newaxis])
-
-        recons = np.concatenate(recons, axis=-1)
-        recons = xr.DataArray(recons, dims=new_dims, coords=new_coords)
-
-    elif (fftpkg == 'xarray'):
-        fc = fc.rename({'lon_wavenum': 'freq_longitude'})
+    new_dims = list(dat.dims)
+    new_dims += ['lon_wavenum']
+    new_coords = dict(dat.coords)
+    new_coords['lon_wavenum'] = waves
 
-        for k in waves:
-            mask = np.isnan(fc.where(fc.lon_wavenum != k))
+    recons = []
+    for k in waves:
+        mask = fc.lon_wavenum == k
 
-            kcont = xrft.ifft((fc*mask).values, dim='lon_wavenum', real_dim='lon_wavenum')
-            recons.append(kcont)
+        kcont = scipy.fft.irfft((fc*mask).values, n=fc.nlons, axis=fc.get_axis_num('lon_wavenum'))
+        recons.append(kcont[..., np.newaxis])
 
-        recons = xr.concat(recons, dim='lon_wavenum')
-        recons = recons.assign_coords({'lon_wavenum': waves, dimvar: dat[dimvar]})
+    recons = np.concatenate(recons, axis=-1)
+    recons = xr.DataArray(recons, dims=new_dims, coords=new_coords)
 
     return recons.astype(dat.dtype)
 
@@ -251,12 +246,12 @@ def zonal_wave_covariance(dat1, dat2, dimvar1='longitude', dimvar2='longitude',
     * Check for consistency between dat1 and dat2 and throw errors
     """
 
-    nlons = dat1[dimvar].size
+    nlons = dat1[dimvar1].size
 
     fc1 = zonal_wave_coeffs(dat1, dimvar1, waves=waves, fftpkg=fftpkg)
     fc2 = zonal_wave_coeffs(dat2, dimvar2, waves=waves, fftpkg=fftpkg)
 
-    mult_mask = np.isfinite(fc1.where(fc1.lon_wavenum != 0)) + 1
-    cov = mult_mask*np.real(fc1 * fc2.conj())/(nlons**2)
+    mult_mask = _symmetric_multiplier(fc1)
+    cov = np.real(fc1 * fc2.conj())*mult_mask/(nlons**2)
 
     return cov
-- 
2.43.0


From 32eddd848dd0b5719fc60afb62fd32c484114f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:02:52 +0000
Subject: [PATCH 54/80] fix: vertical interpolation at and beyond the levels,
 heights above the surface layer

---
 metcalcpy/vertical_interp.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index 8cbba86..6961db8 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -146,8 +146,8 @@ def vertical_interp(fieldname, config,
     try:
         logging.debug(coordinate_surfaces.attrs['units'])
         logging.debug(config['vertical_level_units'])
-        length_convert = float((ureg.Quantity(1, config['vertical_level_units'])
-                       / ureg.Quantity(1, coordinate_surfaces.attrs['units'])).to_base_units())
+        length_convert = float((ureg.Quantity(1, coordinate_surfaces.attrs['units'])
+                       / ureg.Quantity(1, config['vertical_level_units'])).to_base_units())
     except pint.errors.UndefinedUnitError:
         logging.warning('Unknown unit:' + coordinate_surfaces.attrs['units'])
         length_convert = 1
@@ -167,7 +167,8 @@ def vertical_interp(fieldname, config,
 
         distances = eta - length_convert * coordinate_surfaces
         above = distances < 0
-        below = distances > 0
+        # a layer on eta counts as below
+        below = distances >= 0
 
         """
         Compute weights for linear interpolation
@@ -201,7 +202,8 @@ def vertical_interp(fieldname, config,
         # where top most layer is below eta
         layer_below = below.loc[{lev_dim: vertical_coord[nlev - 1]}]
         weights.loc[{lev_dim: vertical_coord[nlev - 1]}] \
-            = xr.where(layer_below, 1, 0)
+            = xr.where(layer_below, 1,
+                       weights.loc[{lev_dim: vertical_coord[nlev - 1]}])
 
         """
         Compute weighted sum
@@ -370,12 +372,14 @@ def height_from_pressure(config,
         * np.log(pressure_convert * surface_pressure
                  / pressure.loc[{lev_dim: pressure_coord[0]}])
 
+    # the layer that contains the surface starts at the surface
     for k in pressure_indices[1:]:
         # logging.debug(k)
         layer_thickness.loc[{lev_dim:pressure_coord[k]}] \
             = gas_constant_gravity_ratio \
             * virtual_temperature.loc[{lev_dim: pressure_coord[k]}] \
-            * np.log(pressure.loc[{lev_dim: pressure_coord[k - 1]}] \
+            * np.log(np.minimum(pressure.loc[{lev_dim: pressure_coord[k - 1]}],
+                                pressure_convert * surface_pressure)
             / pressure.loc[{lev_dim: pressure_coord[k]}])
 
     layer_thickness = layer_thickness.fillna(0)
@@ -399,7 +403,7 @@ def height_from_pressure(config,
         surface_mask.loc[{lev_dim: pressure_coord[k]}] \
             = np.logical_and(
             pressure.loc[{lev_dim: pressure_coord[k - 1]}]
-            > pressure_convert * surface_pressure,
+            >= pressure_convert * surface_pressure,
             pressure.loc[{lev_dim: pressure_coord[k]}]
             < pressure_convert * surface_pressure)
 
-- 
2.43.0


From 96f62aa694af1dc477662721315c827519aff7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:23:55 +0000
Subject: [PATCH 55/80] fix: keep the longitudes when flipping between -180:180
 and 0:360

---
 metcalcpy/contributed/spacetime/spacetime_utils.py  | 3 ++-
 metcalcpy/contributed/tropical_diagnostics/utils.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime_utils.py b/metcalcpy/contributed/spacetime/spacetime_utils.py
index accce20..2e359b3 100755
--- a/metcalcpy/contributed/spacetime/spacetime_utils.py
+++ b/metcalcpy/contributed/spacetime/spacetime_utils.py
@@ -69,7 +69,8 @@ def lonFlip(data,lon):
     :return: dataflip
     """
 
-    lonnew = lon.values
+    # the longitudes of the caller stay as they are
+    lonnew = lon.values.copy()
 
     if lonnew.min() < 0:
         # change longitude to 0:360
diff --git a/metcalcpy/contributed/tropical_diagnostics/utils.py b/metcalcpy/contributed/tropical_diagnostics/utils.py
index 048a66a..6355417 100755
--- a/metcalcpy/contributed/tropical_diagnostics/utils.py
+++ b/metcalcpy/contributed/tropical_diagnostics/utils.py
@@ -67,7 +67,8 @@ def lonFlip(data,lon):
     :return: dataflip
     """
 
-    lonnew = lon.values
+    # the longitudes of the caller stay as they are
+    lonnew = lon.values.copy()
 
     if lonnew.min() < 0:
         # change longitude to 0:360
-- 
2.43.0


From f4e892d0bf3f063950c56daca5cacf85a29acfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:23:55 +0000
Subject: [PATCH 56/80] fix: frequencies, segments and smoothing of the
 space-time spectra

---
 metcalcpy/contributed/spacetime/spacetime.py | 86 ++++++++------------
 1 file changed, 32 insertions(+), 54 deletions(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime.py b/metcalcpy/contributed/spacetime/spacetime.py
index 8e82c25..f59813d 100644
--- a/metcalcpy/contributed/spacetime/spacetime.py
+++ b/metcalcpy/contributed/spacetime/spacetime.py
@@ -121,7 +121,7 @@ def mjo_cross_segment(XX, YY, opt=False):
             STC[1, :NT, 1:NL + 1] = PY
             STC[2, :NT, 1:NL + 1] = CXY
             STC[3, :NT, 1:NL + 1] = QXY
-            STC[0, NT, :] = STC[0, 0, :]
+            STC[:, NT, :] = STC[:, 0, :]
             STC[:, :, 0] = STC[:, :, NL]
 
     return STC
@@ -172,46 +172,26 @@ def mjo_cross_segment_realfft(XX, YY, opt=False):
     CXY = CXY[:, ::-1]
     QXY = QXY[:, ::-1]
 
-    # test if time and longitude are odd or even, fft algorithm
-    # returns the Nyquist frequency once for even NT or NL and twice
-    # if they are odd
-    NT = int(NT / 2) + 1
-    if NT % 2 == 1:
-        nfreq = NT
-        if NL % 2 == 1:
-            nwave = NL
-            STC = np.zeros([8, nfreq, nwave], dtype='double')
-            STC[0, :NT, :NL] = PX
-            STC[1, :NT, :NL] = PY
-            STC[2, :NT, :NL] = CXY
-            STC[3, :NT, :NL] = QXY
-        else:
-            nwave = NL + 1
-            STC = np.zeros([8, nfreq, nwave], dtype='double')
-            STC[0, :NT, 1:NL + 1] = PX
-            STC[1, :NT, 1:NL + 1] = PY
-            STC[2, :NT, 1:NL + 1] = CXY
-            STC[3, :NT, 1:NL + 1] = QXY
-            STC[:, :, 0] = STC[:, :, NL]
+    # the real fft returns the frequencies from 0 to the Nyquist frequency;
+    # test if longitude is odd or even, fft algorithm returns the Nyquist
+    # wavenumber once for even NL
+    NT = NT // 2 + 1
+    nfreq = NT
+    if NL % 2 == 1:
+        nwave = NL
+        STC = np.zeros([8, nfreq, nwave], dtype='double')
+        STC[0, :NT, :NL] = PX
+        STC[1, :NT, :NL] = PY
+        STC[2, :NT, :NL] = CXY
+        STC[3, :NT, :NL] = QXY
     else:
-        nfreq = NT + 1
-        if NL % 2 == 1:
-            nwave = NL
-            STC = np.zeros([8, nfreq, nwave], dtype='double')
-            STC[0, :NT, :NL] = PX
-            STC[1, :NT, :NL] = PY
-            STC[2, :NT, :NL] = CXY
-            STC[3, :NT, :NL] = QXY
-            STC[:, NT, :] = STC[:, 0, :]
-        else:
-            nwave = NL + 1
-            STC = np.zeros([8, nfreq, nwave], dtype='double')
-            STC[0, :NT, 1:NL + 1] = PX
-            STC[1, :NT, 1:NL + 1] = PY
-            STC[2, :NT, 1:NL + 1] = CXY
-            STC[3, :NT, 1:NL + 1] = QXY
-            STC[:, NT, :] = STC[:, 0, :]
-            STC[:, :, 0] = STC[:, :, NL]
+        nwave = NL + 1
+        STC = np.zeros([8, nfreq, nwave], dtype='double')
+        STC[0, :NT, 1:NL + 1] = PX
+        STC[1, :NT, 1:NL + 1] = PY
+        STC[2, :NT, 1:NL + 1] = CXY
+        STC[3, :NT, 1:NL + 1] = QXY
+        STC[:, :, 0] = STC[:, :, NL]
 
     return STC
 
@@ -328,11 +308,13 @@ def smooth121_1D(array_in):
     #array_out[1:-1] = sma
 
     for i in np.arange(0, len(temp), 1):
-        if np.isnan(temp[i]):
-            array_out[0] = np.nan
-        elif i == 0 or np.isnan(temp[i-1]):
+        no_previous = i == 0 or np.isnan(temp[i-1])
+        no_next = i == (len(temp)-1) or np.isnan(temp[i+1])
+        if np.isnan(temp[i]) or (no_previous and no_next):
+            array_out[i] = temp[i]
+        elif no_previous:
             array_out[i] = (3*temp[i]+temp[i+1])/4
-        elif i == (len(temp)-1) or np.isnan(temp[i+1]):
+        elif no_next:
             array_out[i] = (3 * temp[i] + temp[i-1]) / 4
         else:
             array_out[i] = (temp[i+1] + 2 * temp[i] + temp[i-1]) / 4
@@ -382,7 +364,7 @@ def mjo_cross(X, Y, segLen, segOverLap, opt=False):
 
     if any([ntim - ntim1, nlat - nlat1, mlon - mlon1]) != 0:
         print("mjo_cross: X and Y must be same size")
-        print("           dimX=" + [ntim, nlat, mlon] + "   dimY=" + [ntim1, nlat1, mlon1])
+        print("           dimX=" + str([ntim, nlat, mlon]) + "   dimY=" + str([ntim1, nlat1, mlon1]))
         return
 
     # make a local copy (time,lat,lon)
@@ -400,13 +382,9 @@ def mjo_cross(X, Y, segLen, segOverLap, opt=False):
     window = np.transpose(window)
     window = np.tile(window, [1, nlat, mlon])
 
-    # test if time and longitude are odd or even, fft algorithm
-    # returns the Nyquist frequency once for even NT or NL and twice
-    # if they are odd
-    if (segLen/2+1) % 2 == 1:
-        nfreq = int(segLen/2) + 1
-    else:
-        nfreq = int(segLen/2) + 2
+    # frequencies of the real fft, test if longitude is odd or even, fft algorithm
+    # returns the Nyquist wavenumber once for even mlon
+    nfreq = segLen // 2 + 1
     if mlon % 2 == 1:
         nwave = mlon
     else:
@@ -415,7 +393,7 @@ def mjo_cross(X, Y, segLen, segOverLap, opt=False):
     # initialize spectrum array
     STC = np.zeros([8, nfreq, nwave], dtype='double')
     wave = np.arange(-int(nwave / 2), int(nwave / 2) + 1, 1.)
-    freq = np.linspace(0, 0.5, num=nfreq)
+    freq = np.arange(nfreq) / segLen
 
     # find time-mean index
     indfreq0 = np.where(freq == 0.)[0]
@@ -426,7 +404,7 @@ def mjo_cross(X, Y, segLen, segOverLap, opt=False):
     switch = True
     while switch:
         ntLast = ntStrt + segLen
-        if (ntLast > (ntim - 1)):
+        if (ntLast > ntim):
             switch = False
             continue
 
-- 
2.43.0


From 805cf4b04959578dce9cd8f923918d53099e73f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:23:55 +0000
Subject: [PATCH 57/80] fix: latitudes of the symmetric and anti-symmetric part
 of a field

---
 metcalcpy/contributed/spacetime/spacetime.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime.py b/metcalcpy/contributed/spacetime/spacetime.py
index f59813d..0ff4ce1 100644
--- a/metcalcpy/contributed/spacetime/spacetime.py
+++ b/metcalcpy/contributed/spacetime/spacetime.py
@@ -210,21 +210,13 @@ def get_symmasymm(X, lat, opt=False):
         NT, NM, NL = X.shape
         if opt == 'symm':
             x = X[:, lat[:] >= 0, :]
-            if len(lat) % 2 == 1:
-                for ll in range(NM // 2 + 1):
-                    x[:, ll, :] = 0.5 * (X[:, ll, :] + X[:, NM - ll - 1, :])
-            else:
-                for ll in range(NM // 2):
-                    x[:, ll, :] = 0.5 * (X[:, ll, :] + X[:, NM - ll - 1, :])
+            for row, ll in enumerate(np.where(lat[:] >= 0)[0]):
+                x[:, row, :] = 0.5 * (X[:, ll, :] + X[:, NM - ll - 1, :])
         else:
             if opt == 'asymm' or opt == 'anti-symm':
                 x = X[:, lat[:] > 0, :]
-                if len(lat) % 2 == 1:
-                    for ll in range(NM // 2):
-                        x[:, ll, :] = 0.5 * (X[:, ll, :] - X[:, NM - ll - 1, :])
-                else:
-                    for ll in range(NM // 2):
-                        x[:, ll, :] = 0.5 * (X[:, ll, :] - X[:, NM - ll - 1, :])
+                for row, ll in enumerate(np.where(lat[:] > 0)[0]):
+                    x[:, row, :] = 0.5 * (X[:, ll, :] - X[:, NM - ll - 1, :])
     else:
         print("Please provide a valid option: symm or asymm.")
 
-- 
2.43.0


From 9d22d18256cb7ab3f408992f2d82aef546d0ad4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:23:55 +0000
Subject: [PATCH 58/80] fix: wavenumbers, open depth limits and odd lengths in
 the wave filter

---
 metcalcpy/contributed/spacetime/spacetime.py | 34 +++++++++-----------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime.py b/metcalcpy/contributed/spacetime/spacetime.py
index 0ff4ce1..61be99f 100644
--- a/metcalcpy/contributed/spacetime/spacetime.py
+++ b/metcalcpy/contributed/spacetime/spacetime.py
@@ -427,7 +427,7 @@ def mjo_cross(X, Y, segLen, segOverLap, opt=False):
     return {'STC': STC, 'freq': freq, 'wave': wave, 'nseg': kseg, 'dof': dof, 'p': prob, 'prob_coh2': prob_coh2}
 
 
-def kf_filter_mask(fftIn, obsPerDay, tMin, tMax, kMin, kMax, hMin, hMax, waveName):
+def kf_filter_mask(fftIn, obsPerDay, tMin, tMax, kMin, kMax, hMin, hMax, waveName, nt=None):
     """
     Generate a filtered mask array based on the FFT array and the wave information. Set all values
     outside the specified wave dispersion curves to zero.
@@ -440,29 +440,32 @@ def kf_filter_mask(fftIn, obsPerDay, tMin, tMax, kMin, kMax, hMin, hMax, waveNam
     :param hMin: Minimum equivalent depth to include in filtering region.
     :param hMax: Maximum equivalent depth to include in filtering region.
     :param waveName: Name of the wave to filter for.
+    :param nt: Number of times of the data, an even number is assumed if it is not given.
     :return: Array containing the fft coefficients of the same size as the input data, with coefficients outside the
     desired region set to zero.
     """
     fftData = np.copy(fftIn)
     fftData = np.transpose(fftData)
     nf, nk = fftData.shape  # frequency, wavenumber array
-    fftData = fftData[:, ::-1]
+    # reverse the wavenumbers, wavenumber 0 stays the first one
+    fftData = np.roll(fftData[:, ::-1], 1, axis=1)
 
-    nt = (nf - 1) * 2
+    if nt is None:
+        nt = (nf - 1) * 2
     jMin = int(round(nt / (tMax * obsPerDay)))
     jMax = int(round(nt / (tMin * obsPerDay)))
     jMax = np.array([jMax, nf]).min()
 
     if kMin < 0:
         iMin = int(round(nk + kMin))
-        iMin = np.array([iMin, nk // 2]).max()
+        iMin = np.array([iMin, (nk + 1) // 2]).max()
     else:
         iMin = int(round(kMin))
         iMin = np.array([iMin, nk // 2]).min()
 
     if kMax < 0:
         iMax = int(round(nk + kMax))
-        iMax = np.array([iMax, nk // 2]).max()
+        iMax = np.array([iMax, (nk + 1) // 2]).max()
     else:
         iMax = int(round(kMax))
         iMax = np.array([iMax, nk // 2]).min()
@@ -473,7 +476,7 @@ def kf_filter_mask(fftIn, obsPerDay, tMin, tMax, kMin, kMax, hMin, hMax, waveNam
         fftData[0:jMin, :] = 0
     if jMax < nf:
         fftData[jMax + 1:nf, :] = 0
-    if iMin < iMax:
+    if iMin < iMax or (iMin == iMax and (kMin < 0) == (kMax < 0)):
         # Set things outside the wavenumber range to zero, this is more normal
         if iMin > 0:
             fftData[:, 0:iMin] = 0
@@ -483,16 +486,8 @@ def kf_filter_mask(fftIn, obsPerDay, tMin, tMax, kMin, kMax, hMin, hMax, waveNam
         # Set things inside the wavenumber range to zero, this should be somewhat unusual
         fftData[:, iMax + 1:iMin] = 0
 
-    c = np.empty([2])
-    if hMin == -9999:
-        c[0] = np.nan
-        if hMax == -9999:
-            c[1] = np.nan
-    else:
-        if hMax == -9999:
-            c[1] = np.nan
-        else:
-            c = np.sqrt(g * np.array([hMin, hMax]))
+    # a depth of -9999 means no limit
+    c = np.sqrt(g * np.array([np.nan if h == -9999 else h for h in (hMin, hMax)], dtype=float))
 
     spc = 24 * 3600. / (2 * pi * obsPerDay)  # seconds per cycle
 
@@ -550,7 +545,7 @@ def kf_filter_mask(fftIn, obsPerDay, tMin, tMax, kMin, kMax, hMin, hMax, waveNam
         if jMaxWave < nf:
             fftData[jMaxWave + 1:nf, i] = 0
 
-    fftData = fftData[:, ::-1]
+    fftData = np.roll(fftData, -1, axis=1)[:, ::-1]
     fftData = np.transpose(fftData)
 
     return fftData
@@ -576,9 +571,10 @@ def kf_filter(data, obsPerDay, tMin, tMax, kMin, kMax, hMin, hMax, waveName):
     data = np.transpose(data, axes=[1, 0])
     fftdata = np.fft.rfft2(data, axes=(0, 1))
 
-    fftfilt = kf_filter_mask(fftdata, obsPerDay, tMin, tMax, kMin, kMax, hMin, hMax, waveName)
+    fftfilt = kf_filter_mask(fftdata, obsPerDay, tMin, tMax, kMin, kMax, hMin, hMax, waveName,
+                             nt=data.shape[1])
 
-    datafilt = np.fft.irfft2(fftfilt, axes=(0, 1))
+    datafilt = np.fft.irfft2(fftfilt, s=data.shape, axes=(0, 1))
     datafilt = np.transpose(datafilt, axes=[1, 0])
 
     return datafilt
-- 
2.43.0


From 183300001875315ebed2384f633f359d5976017c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:24:59 +0000
Subject: [PATCH 59/80] fix: filter the requested periods of the MJO indices
 and leave the input data alone

---
 .../contributed/rmm_omi/compute_mjo_indices.py  | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py b/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
index 83a337a..a0a3ccb 100755
--- a/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
+++ b/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
@@ -13,7 +13,7 @@ import numpy as np
 import xarray as xr
 import datetime
 import pandas as pd
-from scipy.fftpack import rfft, irfft, fftfreq
+from scipy.fftpack import rfft, irfft, rfftfreq
 from scipy.signal import detrend
 
 def rmm(olr, u850, u200, time, spd, EOF1, EOF2, rmm_norm, pc_norm):
@@ -235,7 +235,7 @@ def bandpass_filter_3D(data, time, a, b):
     dt = (time[1] - time[0]).astype('timedelta64[s]') / np.timedelta64(1, 'D')
 
     # remove linear trend from data in time
-    data = detrend(data,axis=0,type='linear',overwrite_data=True)
+    data = detrend(data,axis=0,type='linear')
 
     # taper time window and pad with zeros
     orig_data = data
@@ -257,7 +257,7 @@ def bandpass_filter_3D(data, time, a, b):
 
     # set up frequency array for masking
 
-    W = fftfreq(data[:,0,0].size, dt)
+    W = rfftfreq(data[:,0,0].size, dt)
     W = np.tile(W,(nm,nl,1))
     W = np.moveaxis(W,2,0)
     P = 1 / W
@@ -371,7 +371,7 @@ def perform_3dim_spectral_filtering(data, time_spacing, period_min, period_max,
         lat = orig_data['lat']
 
         print('detrending in time')
-        orig_data = detrend(orig_data, axis=0, type='linear', overwrite_data=True)
+        orig_data = detrend(orig_data, axis=0, type='linear')
 
         # ######################## Zero Padding ############################
         nt_max = 2 ** 17  # Zero padding for performance and resolution optimization, as well as consistency with origininal Kiladis code
@@ -439,10 +439,7 @@ def perform_3dim_spectral_filtering(data, time_spacing, period_min, period_max,
         for idx_m, ilat in enumerate(lat):
             print('filtering latitude: '+str(ilat))
             fourier_fft = np.fft.fft2(np.squeeze(data[:,idx_m,:]))
-            # reordering of spectrum is done to be consistent with the original kiladis ordering.
-            fourier_fft = np.fft.fftshift(fourier_fft, axes=(0, 1))
-            fourier_fft = np.roll(fourier_fft, int(nt / 2), axis=0)
-            fourier_fft = np.roll(fourier_fft, int(nl / 2), axis=1)
+            # the ordering of the spectrum is that of the original kiladis ordering.
 
             # ### Very similar to original Kiladis Code
             fourier_fft_filtered = fourier_fft
@@ -475,10 +472,6 @@ def perform_3dim_spectral_filtering(data, time_spacing, period_min, period_max,
                                 fourier_fft_filtered[ind_f, ind_wn] = 0
 
             # ############################ FFT Backward transformation ############
-            # #reorder spectrum back from kiladis ordering to python ordering
-            fourier_fft_filtered = np.roll(fourier_fft_filtered, -int(nt / 2), axis=0)
-            fourier_fft_filtered = np.roll(fourier_fft_filtered, -int(nl / 2), axis=1)
-            fourier_fft_filtered = np.fft.ifftshift(fourier_fft_filtered, axes=(0, 1))
             filtered_olr = np.fft.ifft2(fourier_fft_filtered)
             filtered_olr = np.real(filtered_olr)
 
-- 
2.43.0


From 91c4e3635c52408e914033faae3279e6770ec760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:24:59 +0000
Subject: [PATCH 60/80] fix: keep groups of blocked longitudes that lie across
 longitude 0

---
 metcalcpy/contributed/blocking_weather_regime/Blocking.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/metcalcpy/contributed/blocking_weather_regime/Blocking.py b/metcalcpy/contributed/blocking_weather_regime/Blocking.py
index 6399c7f..6725a1a 100644
--- a/metcalcpy/contributed/blocking_weather_regime/Blocking.py
+++ b/metcalcpy/contributed/blocking_weather_regime/Blocking.py
@@ -141,9 +141,8 @@ class BlockingCalculation():
         for i in np.arange(0,len(GIBL[:,0,0]),1):
             for k in np.arange(0,len(GIBL[0,:,0]),1):
                 gibli = np.zeros(len(GIBL[0,0,:]))
-                thresh = crit/2.0
+                thresh = self.ibl_dist
                 a = ibl[i,k,:]
-                db = self.ibl_dist
                 ibli = np.where(a==1)[0]
                 if len(ibli)==0:
                     continue
@@ -170,8 +169,6 @@ class BlockingCalculation():
                             ct=1
                         ct = 1
                         btlon = block[ll]
-                if len(btfin)/2 < crit :
-                    btfin = []
                 if len(btfin)==0:
                     continue
                 gibl1 = btfin
-- 
2.43.0


From b5a5fdef2374e37d0e781e5a47268ce22fc33eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:28:38 +0000
Subject: [PATCH 61/80] fix: move the data with the longitudes when east and
 west differ in number

---
 metcalcpy/contributed/spacetime/spacetime_utils.py  | 4 ++--
 metcalcpy/contributed/tropical_diagnostics/utils.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/metcalcpy/contributed/spacetime/spacetime_utils.py b/metcalcpy/contributed/spacetime/spacetime_utils.py
index 2e359b3..72f56e2 100755
--- a/metcalcpy/contributed/spacetime/spacetime_utils.py
+++ b/metcalcpy/contributed/spacetime/spacetime_utils.py
@@ -82,7 +82,7 @@ def lonFlip(data,lon):
         lonnew[0:nlonpos] = lon[ilonpos[0]].values
         lonnew[nlonpos:] = lon[ilonneg[0]].values + 360
 
-        dataflip = xr.DataArray(np.roll(data, nlonneg, axis=2),
+        dataflip = xr.DataArray(np.roll(data, nlonpos, axis=2),
              dims=data.dims,
              coords={'time': data['time'], 'lat': data['lat'],
                      'lon': lonnew})
@@ -97,7 +97,7 @@ def lonFlip(data,lon):
         lonnew[0:nlonneg] = lon[ilonneg[0]].values - 360
         lonnew[nlonneg:] = lon[ilonpos[0]].values
 
-        dataflip = xr.DataArray(np.roll(data, nlonpos, axis=2),
+        dataflip = xr.DataArray(np.roll(data, nlonneg, axis=2),
             dims=data.dims,
             coords={'time': data['time'],
             'lat': data['lat'], 'lon': lonnew})
diff --git a/metcalcpy/contributed/tropical_diagnostics/utils.py b/metcalcpy/contributed/tropical_diagnostics/utils.py
index 6355417..ce0c3c7 100755
--- a/metcalcpy/contributed/tropical_diagnostics/utils.py
+++ b/metcalcpy/contributed/tropical_diagnostics/utils.py
@@ -80,7 +80,7 @@ def lonFlip(data,lon):
         lonnew[0:nlonpos] = lon[ilonpos[0]].values
         lonnew[nlonpos:] = lon[ilonneg[0]].values + 360
 
-        dataflip = xr.DataArray(np.roll(data, nlonneg, axis=2), dims=data.dims,
+        dataflip = xr.DataArray(np.roll(data, nlonpos, axis=2), dims=data.dims,
                           coords={'time': data['time'], 'lat': data['lat'], 'lon': lonnew})
 
     else:
@@ -93,7 +93,7 @@ def lonFlip(data,lon):
         lonnew[0:nlonneg] = lon[ilonneg[0]].values - 360
         lonnew[nlonneg:] = lon[ilonpos[0]].values
 
-        dataflip = xr.DataArray(np.roll(data, nlonpos, axis=2), dims=data.dims,
+        dataflip = xr.DataArray(np.roll(data, nlonneg, axis=2), dims=data.dims,
                           coords={'time': data['time'], 'lat': data['lat'], 'lon': lonnew})
 
     return dataflip
-- 
2.43.0


From 049278ddad6eb51faf5fe8f1b2cf2366010bd47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:31:01 +0000
Subject: [PATCH 62/80] fix: refuse data on another grid than the EOFs

---
 .../contributed/rmm_omi/compute_mjo_indices.py     | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py b/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
index a0a3ccb..90abad7 100755
--- a/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
+++ b/metcalcpy/contributed/rmm_omi/compute_mjo_indices.py
@@ -37,13 +37,13 @@ def rmm(olr, u850, u200, time, spd, EOF1, EOF2, rmm_norm, pc_norm):
     # test that the input data has the same longitude values as the EOFs
     eoflon = EOF1['lon']
     lon = olr['lon']
-    if not np.all(lon == eoflon):
+    if not np.array_equal(lon, eoflon):
         raise ValueError("Longitude grid of EOFs and OLR is not equal.  Longitudes should be 0 to 375.5 by 2.5 degrees.")
     lon = u850['lon']
-    if not np.all(lon == eoflon):
+    if not np.array_equal(lon, eoflon):
         raise ValueError("Longitude grid of EOFs and U850 is not equal.  Longitudes should be 0 to 375.5 by 2.5 degrees.")
     lon = u200['lon']
-    if not np.all(lon == eoflon):
+    if not np.array_equal(lon, eoflon):
         raise ValueError("Longitude grid of EOFs and U200 is not equal.  Longitudes should be 0 to 375.5 by 2.5 degrees.")
 
     # remove previous 120 day mean from data
@@ -111,9 +111,9 @@ def omi(olr, time, spd, EOF1, EOF2):
     lon = olr['lon']
     eoflat = EOF1['lat']
     lat = olr['lat']
-    if not np.all(lat == eoflat):
+    if not np.array_equal(lat, eoflat):
         raise ValueError("Latitude grid of EOFs and OLR is not equal. Latitudes should be -20 to 20 by 2.5 degrees.")
-    if not np.all(lon == eoflon):
+    if not np.array_equal(lon, eoflon):
         raise ValueError("Longitude grid of EOFs and OLR is not equal. Longitudes should be 0 to 375.5 by 2.5 degrees.")
 
     # filter OLR for 20-96 days
@@ -147,9 +147,9 @@ def regress_3dim_data_onto_eofs(data, time, EOF1, EOF2):
     :param EOF2: the day of year dependent EOF2
     :return: PCs
     """
-    if not np.all(data.lat == EOF1.lat):
+    if not np.array_equal(data.lat, EOF1.lat):
         raise ValueError("Latitude grid of EOFs and OLR is not equal.")
-    if not np.all(data.lon == EOF1.lon):
+    if not np.array_equal(data.lon, EOF1.lon):
         raise ValueError("Longitude grid of EOFs and OLR is not equal.")
     pc1 = np.empty(data.time.size)
     pc2 = np.empty(data.time.size)
-- 
2.43.0


From 9589bbdc5c2ac25c0fcc0df37ad97f77883106f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:34:39 +0000
Subject: [PATCH 63/80] fix: track blocks across longitude 0 and seasons
 without blocks

---
 .../blocking_weather_regime/Blocking.py           | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/metcalcpy/contributed/blocking_weather_regime/Blocking.py b/metcalcpy/contributed/blocking_weather_regime/Blocking.py
index 6725a1a..f34b3b8 100644
--- a/metcalcpy/contributed/blocking_weather_regime/Blocking.py
+++ b/metcalcpy/contributed/blocking_weather_regime/Blocking.py
@@ -267,10 +267,9 @@ class BlockingCalculation():
         A = A[1:]
 
         ######### - Getting rid of non-consectutve Time steps which would prevent blocking - #################
-        dd=[]
-        dy = []
-        dA = A[0]
-        dA = np.expand_dims(dA,axis=0)
+        dd = np.empty(0)
+        dy = np.empty(0)
+        dA = np.zeros((1,lonlen))
         ct=0
         for i in np.arange(1,len(locy),1):
             dd1 = locd[i-1]
@@ -298,6 +297,10 @@ class BlockingCalculation():
         middle=[]
         for l in np.arange(0,len(dAfin),1):
             temp = np.where(dAfin[l]==1)[0]
+            # a block across longitude 0 continues beyond the last longitude
+            gap = np.where(np.diff(temp) > 1)[0]
+            if len(gap) > 0:
+                temp[:gap[0]+1] = temp[:gap[0]+1] + lonlen
             if len(temp) % 2 == 0:
                 temp = np.append(temp,0)
             midtemp = np.median(temp)
@@ -389,7 +392,9 @@ class BlockingCalculation():
             diffb = []
             start = middle[bb[0].astype(int)]
             for bbs in bb:
-                diffb = np.append(diffb, start - middle[bbs.astype(int)])
+                # distance on the circle of longitudes
+                dist = start - middle[bbs.astype(int)]
+                diffb = np.append(diffb, (dist + lonlen/2) % lonlen - lonlen/2)
             loc = np.where(np.abs(diffb) > distthresh)[0]
             if len(loc)==0:
                 newblock = newblock +[bb]
-- 
2.43.0


From dc147e4b0d6b9bc1f0dd2df2942a0391a61913c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:37:00 +0000
Subject: [PATCH 64/80] fix: leave days of unmatched weather regimes undefined

---
 .../blocking_weather_regime/Blocking_WeatherRegime_util.py     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/contributed/blocking_weather_regime/Blocking_WeatherRegime_util.py b/metcalcpy/contributed/blocking_weather_regime/Blocking_WeatherRegime_util.py
index 1c306c6..df4f78e 100644
--- a/metcalcpy/contributed/blocking_weather_regime/Blocking_WeatherRegime_util.py
+++ b/metcalcpy/contributed/blocking_weather_regime/Blocking_WeatherRegime_util.py
@@ -137,7 +137,8 @@ def reorder_fcst_regimes(kmeans_fcst,perc_fcst,wrc_fcst,wrnum_fcst,fcst_order):
     # the forecast and observations, is needed
     kmeans_fcst_new = np.empty(kmeans_fcst.shape,dtype=float)
     perc_fcst_new = np.empty(perc_fcst.shape,dtype=float)
-    wrc_fcst_new = np.empty(wrc_fcst.shape,dtype=float)
+    # days of a regime that matches none stay undefined
+    wrc_fcst_new = np.full(wrc_fcst.shape,np.nan)
     for wrn in np.arange(wrnum_fcst):
         perc_fcst_new[wrn] = perc_fcst[fcst_order[wrn]-1]
         kmeans_fcst_new[wrn,:,:] = kmeans_fcst[fcst_order[wrn]-1,:,:]
-- 
2.43.0


From 8e720191761aad14442ecc9017a6ccdcc34d1a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:45:16 +0000
Subject: [PATCH 65/80] fix: monthly MaKE and MaKI values of series that do not
 reach a month's first day after 90 days

---
 metcalcpy/contributed/mjo_enso/compute_mjo_enso.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/metcalcpy/contributed/mjo_enso/compute_mjo_enso.py b/metcalcpy/contributed/mjo_enso/compute_mjo_enso.py
index 9a47585..22f52ed 100644
--- a/metcalcpy/contributed/mjo_enso/compute_mjo_enso.py
+++ b/metcalcpy/contributed/mjo_enso/compute_mjo_enso.py
@@ -185,13 +185,14 @@ def make_maki(sst,wmjoks,meofs):
     make = list()
     maki = list()
 
-    while stdt <= edt:
+    # one value for the first day of every month
+    time_mon = pd.date_range(datemin, datemax, freq='MS')#.to_pydatetime().tolist()
+
+    for stdt in time_mon:
         padt = stdt - relativedelta(days=90)
         make.append(pcmake.sel(time=slice(padt.strftime(date_format),stdt.strftime(date_format))).min('time',skipna='True').data.tolist())
         maki.append(pcmaki.sel(time=slice(padt.strftime(date_format),stdt.strftime(date_format))).min('time',skipna='True').data.tolist())
-        stdt = stdt + relativedelta(months=1)
 
-    time_mon = pd.date_range(datemin, datemax, freq='MS')#.to_pydatetime().tolist()
     make = xr.DataArray(make,name='make',coords=[time_mon],dims="time")
     maki = xr.DataArray(maki,name='maki',coords=[time_mon],dims="time")
 
-- 
2.43.0


From 9503bdd60d5aaccb4aae886bc4a001e2e986bcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:59:18 +0000
Subject: [PATCH 66/80] fix: groups of the second axis summed from lines the
 first axis had replaced

---
 metcalcpy/sum_stat.py | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/metcalcpy/sum_stat.py b/metcalcpy/sum_stat.py
index 1dba8e3..896b9d6 100644
--- a/metcalcpy/sum_stat.py
+++ b/metcalcpy/sum_stat.py
@@ -135,8 +135,7 @@ class SumStat:
 
             if not self.input_data.empty:
                 # perform aggregation on a special field - needed for scorecard
-                self.aggregate_special_fields('1')
-                self.aggregate_special_fields('2')
+                self.aggregate_special_fields()
 
                 start_time = time.time()
                 # calculate statistic for each row
@@ -165,37 +164,40 @@ class SumStat:
                                index=None, header=True, mode='w',
                                sep="\t", na_rep="NA")
 
-    def aggregate_special_fields(self, axis='1'):
+    def aggregate_special_fields(self, axes=('1', '2')):
         """Finds the data for special fields - the field with ';' (EAST;NMT) -
-        and the requested axis in the initial dataframe
+        and the requested axes in the initial dataframe
         and aggregate it based on the line type rules.
         If there are no special fields that require aggregation - does nothing
         The result is stored in the initial dataframe
 
         Args:
-            axis - y1 or y1 axis
+            axes - the list of axes (y1 and y2)
         """
-        series_var_val = self.params['series_val_' + axis]
-        indy_var = self.params['indy_var']
         indy_vals = [val for val in self.params['indy_vals'] or [] if val is not None]
 
-        # look if there is a field that need to be aggregated - the field with ';'
-        has_agg_indy_field = any(';' in val for val in indy_vals)
-        has_agg_series_field = any(';' in val for vals in series_var_val.values() for val in vals)
+        # find the points of all axes
+        points = []
+        for axis in axes:
+            fields_values = self.params['series_val_' + axis].copy()
+            if fields_values and indy_vals:
+                fields_values[self.params['indy_var']] = indy_vals
+            for values in itertools.product(*fields_values.values()):
+                point = dict(zip(fields_values.keys(), values))
+                if point and point not in points:
+                    points.append(point)
 
-        if series_var_val and (has_agg_indy_field or has_agg_series_field):
+        # look if there is a field that need to be aggregated - the field with ';'
+        if any(';' in value for point in points for value in point.values()):
             # the special field was detected
 
-            fields_values = series_var_val.copy()
-            if indy_vals:
-                fields_values[indy_var] = indy_vals
             aggregated_values = []
             is_aggregated = pd.Series(False, index=self.input_data.index)
             is_single = pd.Series(False, index=self.input_data.index)
-            for point in itertools.product(*fields_values.values()):
+            for point in points:
                 # find the data of the point
                 is_point = pd.Series(True, index=self.input_data.index)
-                for field, value in zip(fields_values.keys(), point):
+                for field, value in point.items():
                     if ';' in value:
                         actual_vals = value.split(';')
                     else:
@@ -209,8 +211,7 @@ class SumStat:
                     is_point = is_point & self.input_data[field].isin(actual_vals)
 
                 # aggregate point data
-                aggregated_var_val = {field: [value] for field, value in zip(fields_values.keys(), point)
-                                      if ';' in value}
+                aggregated_var_val = {field: [value] for field, value in point.items() if ';' in value}
                 if aggregated_var_val and is_point.any():
                     aggregated_values.append(aggregate_field_values(aggregated_var_val,
                                                                     self.input_data[is_point],
-- 
2.43.0


From 5644bbb86bc35187cb8846156bc780d2aa2b5cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:00:54 +0000
Subject: [PATCH 67/80] fix: event equalization of groups joined with
 semicolons removed all data

---
 metcalcpy/agg_stat_eqz.py            |  6 ++----
 metcalcpy/agg_stat_event_equalize.py |  6 ++----
 metcalcpy/event_equalize.py          | 20 ++++++++++++++++----
 metcalcpy/util/utils.py              |  9 ++-------
 4 files changed, 22 insertions(+), 19 deletions(-)

diff --git a/metcalcpy/agg_stat_eqz.py b/metcalcpy/agg_stat_eqz.py
index 282ebe6..865b133 100644
--- a/metcalcpy/agg_stat_eqz.py
+++ b/metcalcpy/agg_stat_eqz.py
@@ -37,9 +37,8 @@ import logging
 import pandas as pd
 import yaml
 
-from metcalcpy import GROUP_SEPARATOR
 from metcalcpy.event_equalize_against_values import event_equalize_against_values
-from metcalcpy.event_equalize import values_as_stored
+from metcalcpy.event_equalize import ungroup_value, values_as_stored
 from metcalcpy.util.utils import parse_bool
 
 
@@ -117,8 +116,7 @@ class AggStatEventEqz:
 
                 series_var_vals_no_group = []
                 for val in series_var_vals:
-                    split_val = val.split(GROUP_SEPARATOR)
-                    series_var_vals_no_group.extend(split_val)
+                    series_var_vals_no_group.extend(ungroup_value(val))
                 series_var_vals_no_group = values_as_stored(series_var_vals_no_group)
 
                 series_data_for_ee = series_data_for_ee[
diff --git a/metcalcpy/agg_stat_event_equalize.py b/metcalcpy/agg_stat_event_equalize.py
index 577b45c..2fde206 100644
--- a/metcalcpy/agg_stat_event_equalize.py
+++ b/metcalcpy/agg_stat_event_equalize.py
@@ -37,8 +37,7 @@ import itertools
 import pandas as pd
 import yaml
 
-from metcalcpy import GROUP_SEPARATOR
-from metcalcpy.event_equalize import event_equalize, values_as_stored
+from metcalcpy.event_equalize import event_equalize, ungroup_value, values_as_stored
 
 class AggStatEventEqualize:
     """A class that performs event equalisation logic on input data
@@ -119,8 +118,7 @@ class AggStatEventEqualize:
             # ungroup series value
             series_var_vals_no_group = []
             for val in series_var_vals:
-                split_val = val.split(GROUP_SEPARATOR)
-                series_var_vals_no_group.extend(split_val)
+                series_var_vals_no_group.extend(ungroup_value(val))
 
             series_data_for_ee = series_data_for_ee[
                 series_data_for_ee[series_var].isin(values_as_stored(series_var_vals_no_group))
diff --git a/metcalcpy/event_equalize.py b/metcalcpy/event_equalize.py
index c55ae14..7169a3c 100644
--- a/metcalcpy/event_equalize.py
+++ b/metcalcpy/event_equalize.py
@@ -78,10 +78,7 @@ def event_equalize(series_data, indy_var, series_var_vals, fix_vars,
                 if isinstance(series_vals, str):
                     series_vals = [series_vals]
                 for series_val in series_vals:
-                    actual_vals = re.findall(DATE_TIME_REGEX, series_val)
-                    if len(actual_vals) == 0:
-                        actual_vals = series_val.split(GROUP_SEPARATOR)
-                    series_vals_no_groups.extend(actual_vals)
+                    series_vals_no_groups.extend(ungroup_value(series_val))
                 vars_for_ee[series_var] = series_vals_no_groups
 
     # add fixed variables if present
@@ -174,6 +171,21 @@ def is_string_integer(str_int):
         return False
 
 
+def ungroup_value(value):
+    """Splits the group of values like 'EAST:NMT' or, in scorecards, 'EAST;NMT'
+
+         Args:
+             value: a single value or a group
+
+        Returns:
+            list with the values of the group
+    """
+    values = re.findall(DATE_TIME_REGEX, value)
+    if len(values) == 0:
+        values = value.split(GROUP_SEPARATOR if GROUP_SEPARATOR in value else ';')
+    return values
+
+
 def values_as_stored(values):
     """Adds the numbers to the list of values. A number can be stored in the data
         as a number or, among names, as text.
diff --git a/metcalcpy/util/utils.py b/metcalcpy/util/utils.py
index 2582244..2686a15 100644
--- a/metcalcpy/util/utils.py
+++ b/metcalcpy/util/utils.py
@@ -16,7 +16,6 @@ __author__ = 'Tatiana Burek'
 from typing import Union
 import math
 import sys
-import re
 import itertools
 import statistics as st
 import numpy as np
@@ -26,8 +25,7 @@ from pandas import DataFrame
 from scipy import stats
 from scipy.stats import t, nct
 from metcalcpy.util.correlation import corr, remove_none, acf
-from metcalcpy import GROUP_SEPARATOR, DATE_TIME_REGEX
-from metcalcpy.event_equalize import event_equalize, values_as_stored
+from metcalcpy.event_equalize import event_equalize, ungroup_value, values_as_stored
 from metcalcpy.util.wald_wolfowitz_runs_test import runs_test
 
 
@@ -642,10 +640,7 @@ def equalize_axis_data(fix_vals_keys, fix_vals_permuted, params, input_data, axi
                     # ungroup series value if needed
                     series_var_vals_no_group = []
                     for val in series_var_vals:
-                        split_val = re.findall(DATE_TIME_REGEX, val)
-                        if len(split_val) == 0:
-                            split_val = val.split(GROUP_SEPARATOR)
-                        series_var_vals_no_group.extend(split_val)
+                        series_var_vals_no_group.extend(ungroup_value(val))
 
                     # filter input data based on fcst_var, statistic
                     # and all series variables values
-- 
2.43.0


From d64092fdf1ec452a00405a919abd58bdf32df71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:11:59 +0000
Subject: [PATCH 68/80] fix: jobs with equivalence testing curves failed

---
 metcalcpy/agg_stat.py | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index b22cb66..507ff0f 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -665,17 +665,12 @@ class AggStat:
             # calculate the derived statistic and exit
 
             if derived_curve_component.derived_operation == 'ETB':
-                index_array = np.where(self.column_names == 'stat_value')[0]
-                func_name = f'calculate_{self.statistic}'
-                for row in ds_1.values:
-                    stat = [globals()[func_name](row[np.newaxis, ...], self.column_names)]
-                    row[index_array] = stat
-                for row in ds_2.values:
-                    stat = [globals()[func_name](row[np.newaxis, ...], self.column_names)]
-                    row[index_array] = stat
-
-                ds_1_value = ds_1.values[:, index_array].flatten().tolist()
-                ds_2_value = ds_2.values[:, index_array].flatten().tolist()
+                # the equivalence of the statistics of single records
+                ds_1_value = self._calc_stats_of_records(ds_1.values, series_1[-1])
+                ds_2_value = self._calc_stats_of_records(ds_2.values, series_2[-1])
+                # the test needs values that vary
+                if len(set(ds_1_value)) < 2 or len(set(ds_2_value)) < 2:
+                    ds_1_value = None
             else:
                 ds_1_value = [ds_1.value]
                 ds_2_value = [ds_2.value]
@@ -684,7 +679,11 @@ class AggStat:
                 ds_1_value,
                 ds_2_value,
                 derived_curve_component.derived_operation)
-            if stat_val is not None:
+            if stat_val is not None and derived_curve_component.derived_operation == 'ETB':
+                results = BootstrapResults(lower_bound=stat_val['ci_tost'][0],
+                                           value=stat_val['dif'],
+                                           upper_bound=stat_val['ci_tost'][1])
+            elif stat_val is not None:
                 results = BootstrapResults(lower_bound=None,
                                        value=round_half_up(stat_val[0], 5),
                                        upper_bound=None)
@@ -740,6 +739,20 @@ class AggStat:
 
         return results
 
+    def _calc_stats_of_records(self, values, statistic):
+        """ Calculates the statistic of each record
+            Args:
+                values: a 2d np.array of values, each row is a record
+                statistic: the name of the statistic
+            Returns:
+                a list of calculated statistics
+        """
+        point_statistic = self.statistic
+        self.statistic = statistic.lower()
+        stat_values = [self._calc_stats(row[np.newaxis, ...])[0] for row in values]
+        self.statistic = point_statistic
+        return stat_values
+
     def _find_component_series(self, component, derived_series, distributions, axis="1"):
         """ Finds the series that a component of the derived series stands for
             Args:
-- 
2.43.0


From d9ac79a091b135560c269524d442fe0e33741cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:17:22 +0000
Subject: [PATCH 69/80] fix: groups of series values and requests without
 series in economic value jobs

A series value such as 'A:B' asks for the lines of both members together.
The job compared the whole text with each line and found nothing.
A request without any series values failed with a KeyError, because the
combination of no filters is not a mask of the lines.
---
 metcalcpy/agg_eclv.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/metcalcpy/agg_eclv.py b/metcalcpy/agg_eclv.py
index 80a2d6c..a6f711e 100644
--- a/metcalcpy/agg_eclv.py
+++ b/metcalcpy/agg_eclv.py
@@ -39,7 +39,7 @@ import yaml
 import pandas as pd
 
 from metcalcpy.bootstrap import bootstrap_and_value, BootstrapResults
-from metcalcpy.event_equalize import event_equalize
+from metcalcpy.event_equalize import event_equalize, ungroup_value
 from metcalcpy.util.utils import PRECISION, is_string_strictly_float
 from metcalcpy.util.eclv_statistics import *
 
@@ -236,7 +236,7 @@ class AggEclv:
             all_filters = []
             for field_ind, field in enumerate(series_val.keys()):
                 filter_value = point[field_ind]
-                filter_list = [filter_value]
+                filter_list = ungroup_value(filter_value)
                 out_frame_local[field] = [filter_value] * (len(self.steps))
                 # a number can be stored as a number or, among names, as text
                 for filter_val in filter_list.copy():
@@ -248,8 +248,10 @@ class AggEclv:
                     all_filters.append((self.input_data[field].isin(filter_list)))
 
             # use numpy to select the rows where any record evaluates to True
-            mask = np.array(all_filters).all(axis=0)
-            point_data = self.input_data.loc[mask]
+            point_data = self.input_data
+            if all_filters:
+                mask = np.array(all_filters).all(axis=0)
+                point_data = self.input_data.loc[mask]
 
             # calculate bootstrap results
             if 'thresh_i' in point_data.columns:
-- 
2.43.0


From bf55e74ca6d0d6e74695adadad88b8d0bb4b0ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:35:41 +0000
Subject: [PATCH 70/80] fix: groups of dates, numbers among names and
 equalization that removes everything in object jobs

A series value with a date was split at the colons of its time.
An independent value that looks like a number was not found when the
column also holds names.
A job failed to read its own equalized data when no case was left.
---
 metcalcpy/agg_stat_bootstrap.py | 43 +++++----------------------------
 metcalcpy/agg_stat_eqz.py       |  5 ++--
 2 files changed, 9 insertions(+), 39 deletions(-)

diff --git a/metcalcpy/agg_stat_bootstrap.py b/metcalcpy/agg_stat_bootstrap.py
index d1e691b..1cca41a 100644
--- a/metcalcpy/agg_stat_bootstrap.py
+++ b/metcalcpy/agg_stat_bootstrap.py
@@ -39,16 +39,16 @@ import yaml
 import pandas as pd
 import numpy as np
 
-from metcalcpy import GROUP_SEPARATOR
 from metcalcpy.agg_stat_eqz import AggStatEventEqz
 from metcalcpy.bootstrap import  bootstrap_and_value_mode, BootstrapResults
+from metcalcpy.event_equalize import ungroup_value, values_as_stored
 from metcalcpy.util.mode_ratio_statistics import *
 from metcalcpy.util.mode_arearat_statistics import *
 from metcalcpy.util.mode_2d_arearat_statistics import *
 from metcalcpy.util.mode_2d_ratio_statistics import *
 from metcalcpy.util.mode_3d_volrat_statistics import *
 from metcalcpy.util.mode_3d_ratio_statistics import *
-from metcalcpy.util.utils import is_string_integer, parse_bool, sort_data, is_string_strictly_float
+from metcalcpy.util.utils import parse_bool, sort_data
 
 
 class AggStatBootstrap:
@@ -124,15 +124,8 @@ class AggStatBootstrap:
             # run the bootstrap flow for each independent variable value
             for indy_val in indy_vals:
                 # extract the records for the current indy value
-                if is_string_integer(indy_val):
-                    filtered_by_indy_data = \
-                        self.input_data[self.input_data[self.params['indy_var']] == int(indy_val)]
-                elif is_string_strictly_float(indy_val):
-                    filtered_by_indy_data = \
-                        self.input_data[self.input_data[self.params['indy_var']] == float(indy_val)]
-                else:
-                    filtered_by_indy_data = \
-                        self.input_data[self.input_data[self.params['indy_var']] == indy_val]
+                filtered_by_indy_data = self.input_data[
+                    self.input_data[self.params['indy_var']].isin(values_as_stored([indy_val]))]
                 # and statistics and then permute them
                 all_fields_values = series_val.copy()
 
@@ -143,19 +136,7 @@ class AggStatBootstrap:
                     all_filters = []
                     for field_ind, field in enumerate(all_fields_values.keys()):
                         filter_value = point[field_ind]
-                        if GROUP_SEPARATOR in filter_value:
-                            filter_list = filter_value.split(GROUP_SEPARATOR)
-                        elif ';' in filter_value:
-                            filter_list = filter_value.split(';')
-                        else:
-                            filter_list = [filter_value]
-                        # a number can be stored as a number or, among names, as text
-                        for filter_val in filter_list.copy():
-                            if is_string_integer(filter_val):
-                                filter_list.append(int(filter_val))
-                            elif is_string_strictly_float(filter_val):
-                                filter_list.append(float(filter_val))
-
+                        filter_list = values_as_stored(ungroup_value(filter_value))
                         all_filters.append((filtered_by_indy_data[field].isin(filter_list)))
 
                     # add fcst var
@@ -180,19 +161,7 @@ class AggStatBootstrap:
                         out_frame_filter = []
                         for field_ind, field in enumerate(all_fields_values.keys()):
                             filter_value = point[field_ind]
-                            if ':' in filter_value:
-                                filter_list = filter_value.split(':')
-                            elif ';' in filter_value:
-                                filter_list = filter_value.split(';')
-                            else:
-                                filter_list = [filter_value]
-                            # a number can be stored as a number or, among names, as text
-                            for filter_val in filter_list.copy():
-                                if is_string_integer(filter_val):
-                                    filter_list.append(int(filter_val))
-                                elif is_string_strictly_float(filter_val):
-                                    filter_list.append(float(filter_val))
-
+                            filter_list = values_as_stored(ungroup_value(filter_value))
                             all_filters.append((filtered_by_indy_data[field].isin(filter_list)))
                             out_frame_filter.append((out_frame[field] == filter_value))
 
diff --git a/metcalcpy/agg_stat_eqz.py b/metcalcpy/agg_stat_eqz.py
index 865b133..dbb7a3e 100644
--- a/metcalcpy/agg_stat_eqz.py
+++ b/metcalcpy/agg_stat_eqz.py
@@ -106,7 +106,8 @@ class AggStatEventEqz:
             Returns:
                 A data frame that contains equalized records
         """
-        output_ee_data = pd.DataFrame()
+        # an empty frame still has the columns of the input data
+        output_ee_data = self.input_data.iloc[0:0]
         for fcst_var, fcst_var_stats in self.params['fcst_var_val_' + axis].items():
             # filter input data and previous cases based on fcst_var
             # and all series variables values
@@ -133,7 +134,7 @@ class AggStatEventEqz:
                 series_data_for_prev_cases_unique)
 
             # append EE data to result
-            if output_ee_data.empty:
+            if output_ee_data.empty and not series_data_after_ee.empty:
                 output_ee_data = series_data_after_ee
             else:
                 output_ee_data = pd.concat([output_ee_data, series_data_after_ee])
-- 
2.43.0


From 7394c41b5ae57146e4c89fbbf33316c61b76fdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:42:47 +0000
Subject: [PATCH 71/80] fix: scorecard rows of data without time ranges changed
 the input of later rows

The first row of the data was reused for the output without copying it.
When none of its columns are removed, the result was written over the
first value of the series and used by the comparisons that follow.
---
 metcalcpy/scorecard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/scorecard.py b/metcalcpy/scorecard.py
index a9f13c8..556514f 100644
--- a/metcalcpy/scorecard.py
+++ b/metcalcpy/scorecard.py
@@ -306,7 +306,7 @@ class Scorecard:
             derived_stat = statistics.mean(stat_values_1)
 
         # create dataframe from teh 1st row of the original data
-        df = ds_1.head(1)
+        df = ds_1.head(1).copy()
         # remove unneeded columns
         for column in COLUMNS_TO_REMOVE:
             if column in self.column_names:
-- 
2.43.0


From 02bb88613b63028b33bc2ab6530eb6ae5a02abc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:44:31 +0000
Subject: [PATCH 72/80] fix: remove the trend from the data of the regimes and
 accept latitudes of every grid point

weights_detrend removed the trend of an array of zeros, so that the data
kept its trend. It also could not reshape data on a two-dimensional grid
of latitudes and longitudes that is not square.
---
 .../contributed/blocking_weather_regime/WeatherRegime.py    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metcalcpy/contributed/blocking_weather_regime/WeatherRegime.py b/metcalcpy/contributed/blocking_weather_regime/WeatherRegime.py
index cdab30f..c90bb83 100644
--- a/metcalcpy/contributed/blocking_weather_regime/WeatherRegime.py
+++ b/metcalcpy/contributed/blocking_weather_regime/WeatherRegime.py
@@ -54,14 +54,14 @@ class WeatherRegimeCalculation():
         #Remove trend and seasonal cycle
         atemp = np.zeros(arr_shape)
         for i in np.arange(0,len(indata[0,:,0,0]),1):
-            atemp[:,i] = signal.detrend(atemp[:,i],axis=0)
-            atemp[:,i] = (indata[:,i] - np.nanmean(indata[:,i],axis=0)) * weightf
+            atemp[:,i] = signal.detrend(indata[:,i],axis=0)
+            atemp[:,i] = (atemp[:,i] - np.nanmean(atemp[:,i],axis=0)) * weightf
 
         a = atemp
         atemp=0
 
         #Reshape into time X space
-        a1 = np.reshape(a,[len(a[:,0,0,0])*len(a[0,:,0,0]),len(lons)*len(lats)])
+        a1 = np.reshape(a,[arr_shape[0]*arr_shape[1],arr_shape[2]*arr_shape[3]])
 
         return a,a1
 
-- 
2.43.0


From 0a7e97e9012e36b70e05535904e613ac6f7ecc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:49:50 +0000
Subject: [PATCH 73/80] fix: times and attributes in the files of the vertical
 interpolation

The option to create a time dimension failed with a TypeError.
The forecast reference time was shifted by the local time zone.
The time coordinate was written without the time it is relative to, and
the attributes of all coordinates were lost.
The fallback that writes with xarray called a method of the wrong object.
---
 metcalcpy/vertical_interp.py | 38 +++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index 6961db8..2755efe 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -44,7 +44,7 @@ import sys
 import argparse
 import logging
 import yaml
-from datetime import datetime
+from datetime import datetime, timezone
 import numpy as np
 import xarray as xr  # http://xarray.pydata.org/
 import netCDF4 as nc
@@ -477,6 +477,13 @@ def read_required_fields(config, ds):
         temperature, relative_humidity
 
 
+def time_to_datetime(time):
+    """
+    Convert a NumPy date and time to a datetime in UTC
+    """
+    return np.datetime64(time, 'us').astype(datetime)
+
+
 def write_dataset(ds, ds_nc, coords_interp=None,
     forecast_reference_time=None, create_time_dim=False):
     """
@@ -492,23 +499,23 @@ def write_dataset(ds, ds_nc, coords_interp=None,
         coord = ds_nc.createVariable(
             dim, dtype, (dim))
         coord_vars[dim] = coord
-        if dim != 'time':
+        for attr in ds.coords[dim].attrs:
+            setattr(coord, attr, ds.coords[dim].attrs[attr])
+        if not np.issubdtype(ds.coords[dim].dtype, np.datetime64):
             coord[:] = ds.coords[dim].values
         else:
-            dt_array = [datetime.utcfromtimestamp(dt.astype('O')/1e9)
-                        for dt in ds.coords[dim].values]
+            dt_array = [time_to_datetime(dt) for dt in ds.coords[dim].values]
             t_array = np.array([(dt - dt_array[0]).total_seconds()
                                 for dt in dt_array], dtype=np.float64)
             coord[:] = t_array
+            coord.units = 'seconds since ' + str(dt_array[0])
 
     if create_time_dim:
         ds_nc.createDimension('valid_time', 1)
         time_coord = ds_nc.createVariable(
             'valid_time', 'float64', ('valid_time'))
-        dt_valid = datetime.utcfromtimestamp(
-            ds['valid_time'].astype('O')/1e9)
-        dt_init = datetime.utcfromtimestamp(
-            ds['init_time'].astype('O')/1e9)
+        dt_valid = time_to_datetime(ds['valid_time'].values)
+        dt_init = time_to_datetime(ds['init_time'].values)
         time_coord[:] = (dt_valid - dt_init).total_seconds()
         time_coord.long_name = 'valid_time'
         time_coord.units = 'seconds since ' + str(dt_init)
@@ -527,12 +534,14 @@ def write_dataset(ds, ds_nc, coords_interp=None,
         if dtype not in ['uint32', 'uint64', 'int32', 'int64', 'float32', 'float64']:
             dtype = 'uint64'
         if create_time_dim:
+            if field == 'valid_time':
+                # already written as the coordinate
+                continue
             dims_with_time = list(ds[field].dims)
             dims_with_time.insert(0, 'valid_time')
-            if field != 'valid_time':
-                var = ds_nc.createVariable(
-                    field, dtype, tuple(dims_with_time))
-                var[:] = ds[field].values
+            var = ds_nc.createVariable(
+                field, dtype, tuple(dims_with_time))
+            var[:] = ds[field].values
         else:
             var = ds_nc.createVariable(
                 field, dtype, ds[field].dims)
@@ -561,7 +570,7 @@ def write_dataset(ds, ds_nc, coords_interp=None,
         mm = int(yyyymmddhh_str[4:6])
         dd = int(yyyymmddhh_str[6:8])
         hh = int(yyyymmddhh_str[8:10])
-        ref_time_obj = datetime(yyyy, mm, dd, hh)
+        ref_time_obj = datetime(yyyy, mm, dd, hh, tzinfo=timezone.utc)
         ref_time_coord[:] = ref_time_obj.timestamp()
 
 
@@ -703,6 +712,7 @@ if __name__ == '__main__':
         ds_nc.close()
     except:
         logging.info('Creating with xarray ' + filename_out)
-        ds_nc.to_netcdf(filename_out)
+        ds_nc.close()
+        ds_out.to_netcdf(filename_out)
 
     logging.debug(os.system('ncdump -h ' + filename_out))
-- 
2.43.0


From 963ac050766cfda8d4ebbbca88481ecd118d9ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:57:34 +0000
Subject: [PATCH 74/80] fix: keep the grid dimension when only one point has
 stress data

calc_tau_MJO squeezed the list of points with data, so a grid with a single
such point failed with an IndexError.
---
 metcalcpy/contributed/mjo_enso/compute_mjo_enso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metcalcpy/contributed/mjo_enso/compute_mjo_enso.py b/metcalcpy/contributed/mjo_enso/compute_mjo_enso.py
index 22f52ed..3111ba0 100644
--- a/metcalcpy/contributed/mjo_enso/compute_mjo_enso.py
+++ b/metcalcpy/contributed/mjo_enso/compute_mjo_enso.py
@@ -11,7 +11,7 @@ def calc_tau_MJO(flxa,flx_eof,filt1,filt2):
      flxa_rg = flxa.stack(grid=("lat","lon")).transpose("time","grid").astype('float32')
 
      # find indices where the data is not missing and subset the uflxi
-     indx = np.squeeze(np.argwhere(~np.isnan(flxa_rg[10,:].data)))
+     indx = np.flatnonzero(~np.isnan(flxa_rg[10,:].data))
      flx = flxa_rg[:,indx]
 
 
-- 
2.43.0


From 09722ac383be9fb17b7db58be0a83d23ef6d4a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:05:06 +0000
Subject: [PATCH 75/80] fix: robust correlations of perfectly correlated data,
 number of outliers

Rounding could take the biweight and percentage bend coefficients past 1,
and the computation of power then failed. The number of outliers removed by
Shepherd's pi was documented as part of the result but left out.
---
 metcalcpy/util/correlation.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/metcalcpy/util/correlation.py b/metcalcpy/util/correlation.py
index df17f07..fe3b5e2 100644
--- a/metcalcpy/util/correlation.py
+++ b/metcalcpy/util/correlation.py
@@ -268,6 +268,10 @@ def corr(x, y, tail='two-sided', method='pearson', **kwargs):
          'power': pr
          }
 
+    # Number of outliers for the methods that remove them
+    if method == 'shepherd':
+        stats_dict['outliers'] = int(np.sum(outliers))
+
     # Compute the BF10 for Pearson correlation only
     if method == 'pearson':
         stats_dict['BF10'] = bayesfactor_pearson(r, nx, tail=tail)
@@ -409,7 +413,8 @@ def bicor(x, y, c=9):
     y_norm = (y - y_median) * w_y
     denom = (np.sqrt((x_norm ** 2).sum()) * np.sqrt((y_norm ** 2).sum()))
     # Calculate r, t and two-sided p-value
-    r = (x_norm * y_norm).sum() / denom
+    # rounding can take the coefficient of perfectly correlated data past 1
+    r = np.clip((x_norm * y_norm).sum() / denom, -1, 1)
     tval = r * np.sqrt((nx - 2) / (1 - r ** 2))
     pval = 2 * t.sf(abs(tval), nx - 2)
     return r, pval
@@ -475,7 +480,8 @@ def percbend(x, y, beta=.2):
 
     # Get r, tval and pval
     a, b = a
-    r = (a * b).sum() / np.sqrt((a ** 2).sum() * (b ** 2).sum())
+    # rounding can take the coefficient of perfectly correlated data past 1
+    r = np.clip((a * b).sum() / np.sqrt((a ** 2).sum() * (b ** 2).sum()), -1, 1)
     tval = r * np.sqrt((nx - 2) / (1 - r ** 2))
     pval = 2 * t.sf(abs(tval), nx - 2)
     return r, pval
-- 
2.43.0


From d04831598f67e5dc20454e1c4e062157076bb8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:07:49 +0000
Subject: [PATCH 76/80] fix: significance level of one-sided correlation tests

The critical correlation lost its sign for levels above 0.5, so the power was
not monotonic in the level and solving for the level always failed.
---
 metcalcpy/util/correlation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/util/correlation.py b/metcalcpy/util/correlation.py
index fe3b5e2..cb4c2c9 100644
--- a/metcalcpy/util/correlation.py
+++ b/metcalcpy/util/correlation.py
@@ -943,7 +943,8 @@ def power_corr(r=None, n=None, power=None, alpha=0.05, tail='two-sided'):
         def func(r, n, power, alpha):
             dof = n - 2
             ttt = stats.t.ppf(1 - alpha, dof)
-            rc = np.sqrt(ttt ** 2 / (ttt ** 2 + dof))
+            # negative for the levels above 0.5
+            rc = ttt / np.sqrt(ttt ** 2 + dof)
             zr = np.arctanh(r) + r / (2 * (n - 1))
             zrc = np.arctanh(rc)
             power = stats.norm.cdf((zr - zrc) * np.sqrt(n - 3))
-- 
2.43.0


From 73a6a29641b987508f8ceacdebf891d198de26c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:13:05 +0000
Subject: [PATCH 77/80] fix: names and files of the METviewer validation

The postfix went before every dot of a name and not only before the extension.
Directories had to end with a slash, which the documentation does not say.
Files of a plot whose images agree were removed by prefix, together with those
of other plots whose names begin the same way. Images of different sizes ended
the validation of all plots.
---
 metcalcpy/validate_mv_python.py | 38 +++++++++++++++++----------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/metcalcpy/validate_mv_python.py b/metcalcpy/validate_mv_python.py
index 7e7eeaf..45d38c5 100644
--- a/metcalcpy/validate_mv_python.py
+++ b/metcalcpy/validate_mv_python.py
@@ -51,7 +51,8 @@ def replace_name(old_name, postfix):
        Returns:
            file name with postfix
     """
-    return old_name.replace(".", "_" + postfix + ".")
+    (name, extension) = os.path.splitext(old_name)
+    return name + "_" + postfix + extension
 
 
 def clean(params):
@@ -95,7 +96,7 @@ def main(params):
 
         plot_name = doc.getElementsByTagName('plot_file')[0].firstChild.nodeValue
         plot_path = doc.getElementsByTagName('plots')[0].firstChild.nodeValue
-        original_plot_path = plot_path + '/' + plot_name
+        original_plot_path = os.path.join(plot_path, plot_name)
 
         # replace the original XML with new values
         doc.getElementsByTagName('plot_file')[0].firstChild.nodeValue \
@@ -104,8 +105,8 @@ def main(params):
             = replace_name(doc.getElementsByTagName('data_file')[0].firstChild.nodeValue, 'py')
         doc.getElementsByTagName('r_file')[0].firstChild.nodeValue \
             = replace_name(doc.getElementsByTagName('r_file')[0].firstChild.nodeValue, 'py')
-        doc.getElementsByTagName('r_tmpl')[0].firstChild.nodeValue = params['mv_home'] + 'R_tmpl'
-        doc.getElementsByTagName('r_work')[0].firstChild.nodeValue = params['mv_home'] + 'R_work'
+        doc.getElementsByTagName('r_tmpl')[0].firstChild.nodeValue = os.path.join(params['mv_home'], 'R_tmpl')
+        doc.getElementsByTagName('r_work')[0].firstChild.nodeValue = os.path.join(params['mv_home'], 'R_work')
         doc.getElementsByTagName('plots')[0].firstChild.nodeValue = params['output_plots_dir']
         doc.getElementsByTagName('user')[0].firstChild.nodeValue = params['db_user']
         doc.getElementsByTagName('password')[0].firstChild.nodeValue = params['db_pass']
@@ -113,19 +114,20 @@ def main(params):
         doc.getElementsByTagName('scripts')[0].firstChild.nodeValue = params['output_scripts_dir']
 
         # save new XML
-        new_xml_file = params['output_xml_dir'] + os.path.basename(replace_name(file, 'py'))
+        new_xml_file = os.path.join(params['output_xml_dir'], os.path.basename(replace_name(file, 'py')))
         with open(new_xml_file, "w") as xml_file:
             doc.writexml(xml_file)
 
         # run METviewer with the new XML and wait till it is done
-        process = subprocess.Popen([params['mv_home'] + '/bin/mv_batch.sh', new_xml_file],
+        process = subprocess.Popen([os.path.join(params['mv_home'], 'bin/mv_batch.sh'), new_xml_file],
                                    stdout=subprocess.PIPE,
                                    universal_newlines=True)
 
         (output, err) = process.communicate()
         p_status = process.wait()
 
-        new_image_path = params['output_plots_dir'] + replace_name(plot_name, 'py')
+        new_plot_name = replace_name(plot_name, 'py')
+        new_image_path = os.path.join(params['output_plots_dir'], new_plot_name)
 
         # check if both images are present or not
         if not os.path.exists(original_plot_path) \
@@ -135,9 +137,9 @@ def main(params):
             # remove new XML
             os.remove(new_xml_file)
             # remove new script
-            delete_similar_files(params['output_scripts_dir'], plot_name)
+            delete_similar_files(params['output_scripts_dir'], new_plot_name)
             # remove new data files
-            delete_similar_files(params['output_data_dir'], plot_name)
+            delete_similar_files(params['output_data_dir'], new_plot_name)
 
         else:
             # compare images
@@ -151,17 +153,18 @@ def main(params):
                     # remove new XML
                     os.remove(new_xml_file)
                     # remove new script
-                    delete_similar_files(params['output_scripts_dir'], plot_name)
+                    delete_similar_files(params['output_scripts_dir'], new_plot_name)
                     # remove new data files
-                    delete_similar_files(params['output_data_dir'], plot_name)
+                    delete_similar_files(params['output_data_dir'], new_plot_name)
 
                 else:
                     print(f'ERROR: For {plot_name} images are different')
                     # add more diagnostic images
-                    compare.save_thresh_image(params['output_plots_dir']
-                                              + replace_name(plot_name, 'thresh'))
+                    compare.save_thresh_image(os.path.join(params['output_plots_dir'],
+                                                           replace_name(plot_name, 'thresh')))
 
-            except KeyError as err:
+            except (KeyError, ValueError) as err:
+                # an image can't be read or the images have different sizes
                 print(f'ERROR: For {plot_name} : {err}')
 
 
@@ -173,9 +176,8 @@ def delete_similar_files(directory, file_name):
             file_name - name of the file to delete
 
     """
-    for filename in glob.glob(directory
-                              + file_name.split('.')[0]
-                              + '*'):
+    name = os.path.splitext(file_name)[0]
+    for filename in glob.glob(os.path.join(glob.escape(directory), glob.escape(name) + '.*')):
         os.remove(filename)
 
 
@@ -196,7 +198,7 @@ def get_test_xml(params):
     # for each fie in the directory check the date and extension
     # and include it to the output list if it fits the criteria
     for file in os.listdir(params['input_xml_dir']):
-        file_name = params['input_xml_dir'] + file
+        file_name = os.path.join(params['input_xml_dir'], file)
         filetime = dt.datetime.fromtimestamp(os.path.getmtime(file_name))
         extension = os.path.splitext(file)[1]
         if start <= filetime.date() <= end and extension == '.xml':
-- 
2.43.0


From 25aa002129a35302e66386727c1618a0cf02dc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:21:03 +0000
Subject: [PATCH 78/80] fix: anomalies, skill and patterns of wave activity

A period with a leap day in which no date occurs twice was taken for one with
several years, and the calendar day means of such a period failed. The skill
overwrote the activities it was computed from and failed for a single forecast
lead or line. Patterns of data whose time is not the first dimension failed.
---
 .../tropical_diagnostics/ccew_activity.py     | 34 ++++++++-----------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/metcalcpy/contributed/tropical_diagnostics/ccew_activity.py b/metcalcpy/contributed/tropical_diagnostics/ccew_activity.py
index 8b0c50f..0a62434 100644
--- a/metcalcpy/contributed/tropical_diagnostics/ccew_activity.py
+++ b/metcalcpy/contributed/tropical_diagnostics/ccew_activity.py
@@ -111,9 +111,10 @@ def waveact(data: object, wave: str, eofpath: str, spd: int, res: str, nlat: int
 
     # remove mean annual cycle
     print("remove annual cycle")
-    doy = data['time.dayofyear']
-    doy_oad = doy[0::spd]
-    nd = len(doy_oad) - len(np.unique(doy_oad))
+    # days of different years are the same when they have the same date, which
+    # the day of the year does not say for leap years
+    month_day = data.indexes['time'].strftime('%m-%d')[0::spd]
+    nd = len(month_day) - len(np.unique(month_day))
     if nd > 0:
         data_anom = rem_seas_cyc(data)
     else:
@@ -145,20 +146,12 @@ def rem_seas_cyc(data: object, opt: object = False) -> object:
     :param opt: optional parameter, not currently used
     :return: xr.DataArray containing anomalies from daily climatology
     """
-    da = xr.DataArray(np.arange(len(data['time'])), coords=[data['time']], dims=['time'])
-    month_day_str = xr.DataArray(da.indexes['time'].strftime('%m-%d'), coords=da.coords, name='month_day_str')
-    time = data['time']
+    month_day_str = xr.DataArray(data.indexes['time'].strftime('%m-%d'), coords=[data['time']], dims=['time'],
+                                 name='month_day_str')
+    days = data.groupby(month_day_str)
+    data_anom = days - days.mean('time')
 
-    data = data.rename({'time': 'month_day_str'})
-    month_day_str = month_day_str.rename({'time': 'month_day_str'})
-    data = data.assign_coords(month_day_str=month_day_str)
-    clim = data.groupby('month_day_str').mean('month_day_str')
-
-    data_anom = data.groupby('month_day_str') - clim
-    data_anom = data_anom.rename({'month_day_str': 'time'})
-    data_anom = data_anom.assign_coords(time=time)
-
-    return data_anom
+    return data_anom.drop_vars('month_day_str')
 
 def rem_seas_mean(data: object, opt: object = False) -> object:
     """
@@ -212,7 +205,8 @@ def wave_skill(act):
     :rtype:
     """
     nfchr, nlines, ntim = act.shape
-    skill = act[:, 1::, 0].squeeze()
+    # a copy, because the activities should stay as they are
+    skill = act[:, 1::, 0].copy()
 
     for ff in np.arange(nfchr):
         for ll in np.arange(nlines-1):
@@ -417,12 +411,12 @@ def eof_comp(data, neof, opt, dim=0):
 
     # move dimension dim to 0
     if dim != 0:
-        data_reord = np.moveaxis(data, dim, 0)
+        data_reord = np.moveaxis(data.values, dim, 0)
     else:
-        data_reord = data
+        data_reord = data.values
 
     # reshape to 2d by combining all dimensions 1 and up
-    a = np.reshape(data_reord.values, (dimsizes[dim], diml))
+    a = np.reshape(data_reord, (dimsizes[dim], diml))
 
     # standardize if correlation matrix instead of covariance matrix is needed
     if opt.covariance == False:
-- 
2.43.0


From 79be1d00a26ccc47282e43f6caab1e2fb12831b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:21:42 +0000
Subject: [PATCH 79/80] fix: interpolate integer fields onto the requested
 levels

The requested levels were converted to the type of the field.
For a field of integers levels such as 2.5 were cut to 2, in the
interpolation and in the coordinate of the result.
---
 metcalcpy/vertical_interp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metcalcpy/vertical_interp.py b/metcalcpy/vertical_interp.py
index 2755efe..e72eaf5 100644
--- a/metcalcpy/vertical_interp.py
+++ b/metcalcpy/vertical_interp.py
@@ -88,7 +88,9 @@ def vertical_interp(fieldname, config,
     """
     Vertical coordinates on which to interpolate
     """
-    vertical_levels = np.array(config['vertical_levels'], dtype=field.dtype)
+    # fields of integers are interpolated onto levels with decimals as well
+    vertical_levels = np.array(config['vertical_levels'],
+                               dtype=np.result_type(field.dtype, np.float32))
     nlev_interp = len(vertical_levels)
     logging.debug(vertical_levels)
     logging.debug(coordinate_surfaces.shape)
-- 
2.43.0


From dbd791116396e7a0e589a7cc55275e9028786694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:09:01 +0000
Subject: [PATCH 80/80] fix: write derived curves of series that share a group

---
 metcalcpy/agg_stat.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/metcalcpy/agg_stat.py b/metcalcpy/agg_stat.py
index 507ff0f..e0ae896 100644
--- a/metcalcpy/agg_stat.py
+++ b/metcalcpy/agg_stat.py
@@ -953,11 +953,15 @@ class AggStat:
 
             # series 2 components
             ds_2 = derived_serie[1].split(' ')
+
+            # replace group names to values
+            ds_1_values = [self.group_to_value.get(value, value) for value in ds_1]
+            ds_2_values = [self.group_to_value.get(value, value) for value in ds_2]
             # find a variable of the operation by comparing values in each derived series component
             series_var_vals = ()
-            for ind, name in enumerate(ds_1):
-                if name != ds_2[ind]:
-                    series_var_vals = (name, ds_2[ind])
+            for ind, name in enumerate(ds_1_values):
+                if name != ds_2_values[ind]:
+                    series_var_vals = (name, ds_2_values[ind])
                     break
 
             series_var = list(series_val.keys())[-1]
@@ -972,9 +976,9 @@ class AggStat:
 
             for var in series_val.keys():
                 if derived_val[var] is not None \
-                        and intersection(derived_val[var], ds_1) \
-                        == intersection(derived_val[var], ds_1):
-                    derived_val[var] = intersection(derived_val[var], ds_1)
+                        and intersection(derived_val[var], ds_1_values) \
+                        == intersection(derived_val[var], ds_1_values):
+                    derived_val[var] = intersection(derived_val[var], ds_1_values)
 
             derived_curve_name = get_derived_curve_name(derived_serie)
             derived_val[series_var] = [derived_curve_name]
-- 
2.43.0

