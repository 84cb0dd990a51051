From 463f666a0ab9d132bb0d77b1db27dbb8718da8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:30 +0000
Subject: [PATCH 01/74] fix: within-transform the TWFE treatment interaction
 with the outcome

The outcome and covariates were demeaned by unit and time but the
treatment x post regressor was not, so the reported ATT was not the
two-way fixed effects coefficient (attenuated by the share of variation
absorbed by the fixed effects).
---
 diff_diff/twfe.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/diff_diff/twfe.py b/diff_diff/twfe.py
index 45b08d6..17a08ab 100644
--- a/diff_diff/twfe.py
+++ b/diff_diff/twfe.py
@@ -96,19 +96,28 @@ class TwoWayFixedEffects(DifferenceInDifferences):
         # Use unit-level clustering if not specified (use local variable to avoid mutation)
         cluster_var = self.cluster if self.cluster is not None else unit
 
-        # Demean data (within transformation for fixed effects)
-        data_demeaned = self._within_transform(data, outcome, unit, time, covariates)
-
         # Create treatment × post interaction
         # For staggered designs, we'd need to identify treatment timing per unit
         # For now, assume standard 2-period design
-        data_demeaned["_treatment_post"] = (
-            data_demeaned[treatment] * data_demeaned[time]
+        data_interacted = data.copy()
+        data_interacted["_treatment_post"] = data[treatment] * data[time]
+
+        # Demean data (within transformation for fixed effects). The interaction
+        # must be demeaned along with the outcome and covariates (FWL theorem),
+        # otherwise its coefficient is not the two-way fixed effects estimate.
+        data_demeaned = self._within_transform(
+            data_interacted, outcome, unit, time,
+            ["_treatment_post"] + list(covariates or []),
         )
 
         # Extract variables for regression
         y = data_demeaned[f"{outcome}_demeaned"].values
-        X_list = [data_demeaned["_treatment_post"].values]
+        interaction = data_demeaned["_treatment_post_demeaned"].values
+        raw_interaction = data_demeaned["_treatment_post"].values
+        if np.max(np.abs(interaction)) <= 1e-10 * np.max(np.abs(raw_interaction)):
+            # Fully absorbed by the fixed effects: nothing is left to demean
+            interaction = raw_interaction
+        X_list = [interaction]
 
         if covariates:
             for cov in covariates:
-- 
2.43.0


From 2cafbef467f45a9e2433ae871e0099b475dbdc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:30 +0000
Subject: [PATCH 02/74] fix: exact two-way demeaning on unbalanced panels

The closed form y - unit mean - time mean + grand mean only removes both
sets of fixed effects when the panel is balanced. Refine it by alternating
projections when group means remain, so estimates equal the dummy-variable
regression on unbalanced panels too.
---
 diff_diff/utils.py | 65 +++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 61 insertions(+), 4 deletions(-)

diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 010d011..14cff4c 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -1403,6 +1403,54 @@ def demean_by_group(
     return data, n_effects
 
 
+def _refine_two_way_demeaned(
+    values: np.ndarray,
+    scale: float,
+    unit_codes: np.ndarray,
+    time_codes: np.ndarray,
+    max_iter: int = 10000,
+    tol: float = 1e-12,
+) -> np.ndarray:
+    """
+    Remove remaining unit and time means by alternating projections.
+
+    On balanced panels the closed-form two-way transformation is exact and the
+    input is returned unchanged. On unbalanced panels the closed form leaves
+    non-zero group means, which are removed by alternating between the two
+    groupings until both vanish (relative to ``scale``, the magnitude of the
+    untransformed variable).
+    """
+    x = np.asarray(values, dtype=float)
+    if len(x) == 0 or not np.all(np.isfinite(x)):
+        return values
+    if np.any(unit_codes < 0) or np.any(time_codes < 0):
+        return values
+
+    unit_counts = np.bincount(unit_codes)
+    time_counts = np.bincount(time_codes)
+
+    def group_means(codes: np.ndarray, counts: np.ndarray) -> np.ndarray:
+        return np.bincount(codes, weights=x) / counts
+
+    remaining = max(
+        float(np.max(np.abs(group_means(unit_codes, unit_counts)))),
+        float(np.max(np.abs(group_means(time_codes, time_counts)))),
+    )
+    if remaining <= 1e-10 * scale:
+        return values  # closed form already exact (balanced panel)
+
+    for _ in range(max_iter):
+        unit_means = group_means(unit_codes, unit_counts)
+        x = x - unit_means[unit_codes]
+        time_means = group_means(time_codes, time_counts)
+        x = x - time_means[time_codes]
+        change = max(float(np.max(np.abs(unit_means))), float(np.max(np.abs(time_means))))
+        if change <= tol * scale:
+            break
+
+    return x
+
+
 def within_transform(
     data: pd.DataFrame,
     variables: List[str],
@@ -1414,7 +1462,9 @@ def within_transform(
     """
     Apply two-way within transformation to remove unit and time fixed effects.
 
-    Computes: y_it - y_i. - y_.t + y_.. for each variable.
+    Computes: y_it - y_i. - y_.t + y_.. for each variable. On unbalanced panels,
+    where that closed form is not exact, the remaining unit and time means are
+    removed by alternating projections.
 
     This is the standard fixed effects transformation for panel data that
     removes both unit-specific and time-specific effects.
@@ -1458,6 +1508,8 @@ def within_transform(
     # Cache groupby objects for efficiency
     unit_grouper = data.groupby(unit, sort=False)
     time_grouper = data.groupby(time, sort=False)
+    unit_codes = pd.factorize(data[unit])[0]
+    time_codes = pd.factorize(data[time])[0]
 
     if inplace:
         # Modify columns in place
@@ -1465,7 +1517,11 @@ def within_transform(
             unit_means = unit_grouper[var].transform("mean")
             time_means = time_grouper[var].transform("mean")
             grand_mean = data[var].mean()
+            scale = float(data[var].abs().max())
             data[var] = data[var] - unit_means - time_means + grand_mean
+            data[var] = _refine_two_way_demeaned(
+                data[var].values, scale, unit_codes, time_codes
+            )
     else:
         # Build all demeaned columns at once to avoid DataFrame fragmentation
         demeaned_data = {}
@@ -1473,9 +1529,10 @@ def within_transform(
             unit_means = unit_grouper[var].transform("mean")
             time_means = time_grouper[var].transform("mean")
             grand_mean = data[var].mean()
-            demeaned_data[f"{var}{suffix}"] = (
-                data[var] - unit_means - time_means + grand_mean
-            ).values
+            demeaned_data[f"{var}{suffix}"] = _refine_two_way_demeaned(
+                (data[var] - unit_means - time_means + grand_mean).values,
+                float(data[var].abs().max()), unit_codes, time_codes,
+            )
 
         # Add all columns at once
         demeaned_df = pd.DataFrame(demeaned_data, index=data.index)
-- 
2.43.0


From a0d5a9d86443458829f02351b55ce690725ba96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:44 +0000
Subject: [PATCH 03/74] fix: TWFE uses the treatment status itself with
 calendar periods

---
 diff_diff/twfe.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/diff_diff/twfe.py b/diff_diff/twfe.py
index 17a08ab..66ab731 100644
--- a/diff_diff/twfe.py
+++ b/diff_diff/twfe.py
@@ -100,7 +100,13 @@ class TwoWayFixedEffects(DifferenceInDifferences):
         # For staggered designs, we'd need to identify treatment timing per unit
         # For now, assume standard 2-period design
         data_interacted = data.copy()
-        data_interacted["_treatment_post"] = data[treatment] * data[time]
+        time_is_post = data[time].isin([0, 1]).all()
+        if not time_is_post and data.groupby(unit)[treatment].nunique().max() > 1:
+            # Calendar periods with a time-varying treatment status: the status
+            # itself is D_i × Post_t (multiplying by the period would scale it)
+            data_interacted["_treatment_post"] = data[treatment]
+        else:
+            data_interacted["_treatment_post"] = data[treatment] * data[time]
 
         # Demean data (within transformation for fixed effects). The interaction
         # must be demeaned along with the outcome and covariates (FWL theorem),
-- 
2.43.0


From 2ddc3edb2948d5fe3dff18e2581bd1b84897e083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:04 +0000
Subject: [PATCH 04/74] fix: never-treated units coded inf are not a
 Callaway-Sant'Anna cohort

---
 diff_diff/staggered.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index f01400e..008cd20 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -641,7 +641,7 @@ class CallawaySantAnna(
 
         # Identify groups and time periods
         time_periods = sorted(df[time].unique())
-        treatment_groups = sorted([g for g in df[first_treat].unique() if g > 0])
+        treatment_groups = sorted([g for g in df[first_treat].unique() if g > 0 and np.isfinite(g)])
 
         # Never-treated indicator (first_treat = 0 or inf)
         df['_never_treated'] = (df[first_treat] == 0) | (df[first_treat] == np.inf)
@@ -652,7 +652,7 @@ class CallawaySantAnna(
             '_never_treated': 'first'
         }).reset_index()
 
-        n_treated_units = (unit_info[first_treat] > 0).sum()
+        n_treated_units = ((unit_info[first_treat] > 0) & ~unit_info['_never_treated']).sum()
         n_control_units = (unit_info['_never_treated']).sum()
 
         if n_control_units == 0:
-- 
2.43.0


From f4aa66f40fd63d0dd9d0acec09fc1c99e825d3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:04 +0000
Subject: [PATCH 05/74] fix: not-yet-treated controls must be untreated in the
 base period too

---
 diff_diff/staggered.py       | 7 +++++--
 docs/methodology/REGISTRY.md | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index 008cd20..b03fd76 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -491,9 +491,12 @@ class CallawaySantAnna(
         if self.control_group == "never_treated":
             control_mask = never_treated_mask
         else:  # not_yet_treated
-            # Not yet treated at time t: never-treated OR (first_treat > t AND not cohort g)
+            # Not yet treated: never-treated OR (first_treat after both periods of the
+            # comparison AND not cohort g). The base period can lie after t (universal
+            # base), and a unit treated by then is no valid control either.
             # Must exclude cohort g since they are the treated group for this ATT(g,t)
-            control_mask = never_treated_mask | ((unit_cohorts > t) & (unit_cohorts != g))
+            last_period = max(t, base_period_val)
+            control_mask = never_treated_mask | ((unit_cohorts > last_period) & (unit_cohorts != g))
 
         # Extract outcomes for base and post periods
         y_base = outcome_matrix[:, base_col]
diff --git a/docs/methodology/REGISTRY.md b/docs/methodology/REGISTRY.md
index 36febbc..f66896d 100644
--- a/docs/methodology/REGISTRY.md
+++ b/docs/methodology/REGISTRY.md
@@ -266,7 +266,7 @@ The multiplier bootstrap uses random weights w_i with E[w]=0 and Var(w)=1:
   - Always excludes cohort g from controls when computing ATT(g,t)
   - This applies to both pre-treatment (t < g) and post-treatment (t >= g) periods
   - For pre-treatment periods: even though cohort g hasn't been treated yet at time t, they are the treated group for this ATT(g,t) and cannot serve as their own controls
-  - Control mask: `never_treated OR (first_treat > t AND first_treat != g)`
+  - Control mask: `never_treated OR (first_treat > max(t, base period) AND first_treat != g)`
 
 **Reference implementation(s):**
 - R: `did::att_gt()` (Callaway & Sant'Anna's official package)
-- 
2.43.0


From a87411e1cf3ba1742d191b1aebe0ff1bb05bd020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:21 +0000
Subject: [PATCH 06/74] fix: standard error of Callaway-Sant'Anna IPW matches
 its influence function

---
 diff_diff/staggered.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index b03fd76..0d1fde8 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -918,7 +918,6 @@ class CallawaySantAnna(
         """
         n_t = len(treated_change)
         n_c = len(control_change)
-        n_total = n_treated + n_control
 
         if X_treated is not None and X_control is not None and X_treated.shape[1] > 0:
             # Covariate-adjusted IPW estimation
@@ -959,8 +958,8 @@ class CallawaySantAnna(
             # Variance of treated mean
             var_t = np.var(treated_change, ddof=1) if n_t > 1 else 0.0
 
-            # Variance of weighted control mean
-            weighted_var_c = np.sum(weights_control * (control_change - np.sum(weights_control * control_change)) ** 2)
+            # Variance of weighted control mean (weights are normalized)
+            weighted_var_c = np.sum(weights_control ** 2 * (control_change - np.sum(weights_control * control_change)) ** 2)
 
             se = np.sqrt(var_t / n_t + weighted_var_c) if (n_t > 0 and n_c > 0) else 0.0
 
@@ -970,15 +969,13 @@ class CallawaySantAnna(
             inf_func = np.concatenate([inf_treated, inf_control])
         else:
             # Unconditional IPW (reduces to difference in means)
-            p_treat = n_treated / n_total  # unconditional propensity score
-
             att = np.mean(treated_change) - np.mean(control_change)
 
             var_t = np.var(treated_change, ddof=1) if n_t > 1 else 0.0
             var_c = np.var(control_change, ddof=1) if n_c > 1 else 0.0
 
-            # Adjusted variance for IPW
-            se = np.sqrt(var_t / n_t + var_c * (1 - p_treat) / (n_c * p_treat)) if (n_t > 0 and n_c > 0 and p_treat > 0) else 0.0
+            # With a constant propensity score all controls carry equal weight
+            se = np.sqrt(var_t / n_t + var_c / n_c) if (n_t > 0 and n_c > 0) else 0.0
 
             # Influence function (for aggregation)
             inf_treated = (treated_change - np.mean(treated_change)) / n_t
-- 
2.43.0


From b740523e7e77348133cf7fa02664b33ed26414cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:25 +0000
Subject: [PATCH 07/74] fix: collinear covariates in Callaway-Sant'Anna no
 longer turn effects into NaN

---
 diff_diff/staggered.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index 0d1fde8..cbaa915 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -858,7 +858,8 @@ class CallawaySantAnna(
                 rank_deficient_action=self.rank_deficient_action,
             )
 
-            # Predict counterfactual for treated units
+            # Predict counterfactual for treated units (dropped columns contribute nothing)
+            beta = np.nan_to_num(beta, nan=0.0)
             X_treated_with_intercept = np.column_stack([np.ones(n_t), X_treated])
             predicted_control = X_treated_with_intercept @ beta
 
@@ -1019,6 +1020,8 @@ class CallawaySantAnna(
             )
 
             # Predict counterfactual for both treated and control
+            # (dropped columns contribute nothing)
+            beta = np.nan_to_num(beta, nan=0.0)
             X_treated_with_intercept = np.column_stack([np.ones(n_t), X_treated])
             X_control_with_intercept = np.column_stack([np.ones(n_c), X_control])
             m_treated = X_treated_with_intercept @ beta
-- 
2.43.0


From aa6a5ee6a510ccc87280eb65df842b39a4f959b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:54 +0000
Subject: [PATCH 08/74] fix: bootstrap replicates that do not vary give NaN
 inference, not a finite p-value

---
 diff_diff/staggered_bootstrap.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/diff_diff/staggered_bootstrap.py b/diff_diff/staggered_bootstrap.py
index 4bcf235..0d2f4c3 100644
--- a/diff_diff/staggered_bootstrap.py
+++ b/diff_diff/staggered_bootstrap.py
@@ -745,6 +745,13 @@ class CallawaySantAnnaBootstrapMixin:
         n_valid_bootstrap = len(valid_dist)
 
         se = float(np.std(valid_dist, ddof=1))
+
+        # Replicates that do not vary (beyond rounding error) carry no
+        # information about sampling uncertainty: signal invalid inference
+        scale = max(1.0, float(np.max(np.abs(valid_dist))))
+        if not se > 1e-13 * scale:
+            return np.nan, (np.nan, np.nan), np.nan
+
         ci = self._compute_percentile_ci(valid_dist, self.alpha)
 
         # Compute p-value using shared method with correct floor based on valid sample count
-- 
2.43.0


From b53fcc71c5f69d85442d70d1a3b10a9912164140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 09/74] fix: never-treated units coded inf are not a
 Sun-Abraham cohort

---
 diff_diff/sun_abraham.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index cb7313f..86ff2b6 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -488,7 +488,9 @@ class SunAbraham:
 
         # Identify groups and time periods
         time_periods = sorted(df[time].unique())
-        treatment_groups = sorted([g for g in df[first_treat].unique() if g > 0])
+        treatment_groups = sorted(
+            [g for g in df[first_treat].unique() if g > 0 and np.isfinite(g)]
+        )
 
         # Never-treated indicator
         df["_never_treated"] = (df[first_treat] == 0) | (df[first_treat] == np.inf)
@@ -500,7 +502,9 @@ class SunAbraham:
             .reset_index()
         )
 
-        n_treated_units = int((unit_info[first_treat] > 0).sum())
+        n_treated_units = int(
+            ((unit_info[first_treat] > 0) & ~unit_info["_never_treated"]).sum()
+        )
         n_control_units = int((unit_info["_never_treated"]).sum())
 
         if n_control_units == 0:
-- 
2.43.0


From 68fd332f397f6c720701e336dc8e8ab66a5fb991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 10/74] fix: Sun-Abraham reports NaN inference when the
 standard error or overall effect is unavailable

---
 diff_diff/sun_abraham.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index 86ff2b6..ac3f1ab 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -604,7 +604,7 @@ class SunAbraham:
             coef_index_map,
         )
 
-        overall_t = overall_att / overall_se if overall_se > 0 else 0.0
+        overall_t = overall_att / overall_se if overall_se > 0 else np.nan
         overall_p = compute_p_value(overall_t)
         overall_ci = compute_confidence_interval(overall_att, overall_se, self.alpha)
 
@@ -627,7 +627,7 @@ class SunAbraham:
 
             # Update results with bootstrap inference
             overall_se = bootstrap_results.overall_att_se
-            overall_t = overall_att / overall_se if overall_se > 0 else 0.0
+            overall_t = overall_att / overall_se if overall_se > 0 else np.nan
             overall_p = bootstrap_results.overall_att_p_value
             overall_ci = bootstrap_results.overall_att_ci
 
@@ -644,7 +644,7 @@ class SunAbraham:
                     eff_val = event_study_effects[e]["effect"]
                     se_val = event_study_effects[e]["se"]
                     event_study_effects[e]["t_stat"] = (
-                        eff_val / se_val if se_val > 0 else 0.0
+                        eff_val / se_val if se_val > 0 else np.nan
                     )
 
         # Convert cohort effects to storage format
@@ -882,7 +882,7 @@ class SunAbraham:
             agg_var = float(weight_vec @ vcov_subset @ weight_vec)
             agg_se = np.sqrt(max(agg_var, 0))
 
-            t_stat = agg_effect / agg_se if agg_se > 0 else 0.0
+            t_stat = agg_effect / agg_se if agg_se > 0 else np.nan
             p_val = compute_p_value(t_stat)
             ci = compute_confidence_interval(agg_effect, agg_se, self.alpha)
 
@@ -919,7 +919,7 @@ class SunAbraham:
         ]
 
         if not post_effects:
-            return 0.0, 0.0
+            return np.nan, np.nan
 
         # Weight by number of treated observations at each relative time
         post_weights = []
-- 
2.43.0


From fae86e2d1d404614ff768d937bbbe16c193f4da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 11/74] fix: Sun-Abraham bootstrap selects rows by position,
 not by index label

---
 diff_diff/sun_abraham.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index ac3f1ab..d9ef207 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -1012,7 +1012,7 @@ class SunAbraham:
             # Create bootstrap sample efficiently
             # Build index array for all selected units
             boot_indices = np.concatenate([
-                df.index[df[unit] == u].values for u in boot_units
+                np.flatnonzero((df[unit] == u).values) for u in boot_units
             ])
             df_b = df.iloc[boot_indices].copy()
 
-- 
2.43.0


From b4bc1704f6f15ef3c7879bd4df9ad4ef5c6226b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:49 +0000
Subject: [PATCH 12/74] fix: Sun-Abraham bootstrap inference survives
 replicates without identified effects

---
 diff_diff/sun_abraham.py | 45 +++++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index d9ef207..ed61f17 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -1108,18 +1108,16 @@ class SunAbraham:
             boot_dist = bootstrap_effects[e]
             original_effect = original_event_study[e]["effect"]
 
-            se = float(np.std(boot_dist, ddof=1))
-            ci = self._compute_percentile_ci(boot_dist, self.alpha)
-            p_value = self._compute_bootstrap_pvalue(original_effect, boot_dist)
+            se, ci, p_value = self._compute_bootstrap_stats(
+                original_effect, boot_dist
+            )
 
             event_study_ses[e] = se
             event_study_cis[e] = ci
             event_study_p_values[e] = p_value
 
         # Overall ATT statistics
-        overall_se = float(np.std(bootstrap_overall, ddof=1))
-        overall_ci = self._compute_percentile_ci(bootstrap_overall, self.alpha)
-        overall_p = self._compute_bootstrap_pvalue(
+        overall_se, overall_ci, overall_p = self._compute_bootstrap_stats(
             original_overall_att, bootstrap_overall
         )
 
@@ -1136,6 +1134,39 @@ class SunAbraham:
             bootstrap_distribution=bootstrap_overall,
         )
 
+    def _compute_bootstrap_stats(
+        self,
+        original_effect: float,
+        boot_dist: np.ndarray,
+    ) -> Tuple[float, Tuple[float, float], float]:
+        """
+        Compute bootstrap SE, percentile CI and p-value for one effect.
+
+        Replicates in which the effect is not identified are dropped. NaN is
+        returned for all statistics if fewer than half of the replicates remain
+        or if the remaining ones do not vary.
+        """
+        valid_dist = boot_dist[np.isfinite(boot_dist)]
+        n_total = len(boot_dist)
+        if len(valid_dist) < n_total:
+            warnings.warn(
+                f"Dropping {n_total - len(valid_dist)}/{n_total} non-finite "
+                "bootstrap samples.",
+                RuntimeWarning,
+                stacklevel=4,
+            )
+        invalid = (np.nan, (np.nan, np.nan), np.nan)
+        if not np.isfinite(original_effect) or len(valid_dist) < max(2, 0.5 * n_total):
+            return invalid
+
+        se = float(np.std(valid_dist, ddof=1))
+        if not se > 1e-13 * max(1.0, float(np.max(np.abs(valid_dist)))):
+            return invalid
+
+        ci = self._compute_percentile_ci(valid_dist, self.alpha)
+        p_value = self._compute_bootstrap_pvalue(original_effect, valid_dist)
+        return se, ci, p_value
+
     def _compute_percentile_ci(
         self,
         boot_dist: np.ndarray,
@@ -1158,7 +1189,7 @@ class SunAbraham:
             p_one_sided = float(np.mean(boot_dist >= 0))
 
         p_value = min(2 * p_one_sided, 1.0)
-        p_value = max(p_value, 1 / (self.n_bootstrap + 1))
+        p_value = max(p_value, 1 / (len(boot_dist) + 1))
 
         return p_value
 
-- 
2.43.0


From 31168d1b50df831e722a52719f3bc460fd6fd7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:52 +0000
Subject: [PATCH 13/74] fix: exact Bacon weights follow Theorem 1, so the
 decomposition reproduces TWFE

---
 diff_diff/bacon.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/diff_diff/bacon.py b/diff_diff/bacon.py
index 8f09d9f..9062edb 100644
--- a/diff_diff/bacon.py
+++ b/diff_diff/bacon.py
@@ -611,7 +611,6 @@ class BaconDecomposition:
         of the treatment indicator in each 2x2 comparison window.
         """
         n_total_obs = len(df)
-        n_total_units = df[unit].nunique()
 
         for comp in comparisons:
             # Get data for this specific comparison
@@ -683,13 +682,12 @@ class BaconDecomposition:
             D_k = T_post / T_window  # proportion treated for treated group
 
             # Within-comparison variance of treatment
-            # Var(D) = n_k/(n_k+n_l) * D_k * (1-D_k) for the 2x2
-            var_D_22 = n_k_share * D_k * (1 - D_k)
+            # Var(D) = n_k/(n_k+n_l) * n_l/(n_k+n_l) * D_k * (1-D_k) for the 2x2
+            var_D_22 = n_k_share * (1 - n_k_share) * D_k * (1 - D_k)
 
-            # Exact weight: proportional to sample share * variance
-            # Scale by (n_k + n_l) / n_total_units to account for subsample
-            unit_share = (n_k + n_l) / n_total_units
-            comp.weight = sample_share * var_D_22 * unit_share
+            # Theorem 1: squared share of the sample used by this 2x2 times the
+            # variance of treatment within it (weights are normalized later)
+            comp.weight = sample_share ** 2 * var_D_22
 
     def _compute_treated_vs_never(
         self,
-- 
2.43.0


From f858f5d8ca7713b058eb59d6abe07a1d2d58e28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:27 +0000
Subject: [PATCH 14/74] fix: Bacon treated-vs-never comparisons that are not
 estimable are left out, not NaN

---
 diff_diff/bacon.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/diff_diff/bacon.py b/diff_diff/bacon.py
index 9062edb..4fce246 100644
--- a/diff_diff/bacon.py
+++ b/diff_diff/bacon.py
@@ -735,6 +735,12 @@ class BaconDecomposition:
         never_pre = df_never[df_never[time].isin(pre_periods)][outcome].mean()
         never_post = df_never[df_never[time].isin(post_periods)][outcome].mean()
 
+        # Not estimable if a group is unobserved before or after treatment
+        if np.isnan(treated_pre) or np.isnan(treated_post):
+            return None
+        if np.isnan(never_pre) or np.isnan(never_post):
+            return None
+
         estimate = (treated_post - treated_pre) - (never_post - never_pre)
 
         # Calculate weight components
-- 
2.43.0


From 42f598d3959be0d9f6946e51d3eda4866e1ec5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:16 +0000
Subject: [PATCH 15/74] fix: synthetic DiD bootstrap p-value compares the
 estimate with zero, not with itself

---
 diff_diff/synthetic_did.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/diff_diff/synthetic_did.py b/diff_diff/synthetic_did.py
index dca934b..9641797 100644
--- a/diff_diff/synthetic_did.py
+++ b/diff_diff/synthetic_did.py
@@ -328,8 +328,10 @@ class SyntheticDiD(DifferenceInDifferences):
         # Compute test statistics
         if se > 0:
             t_stat = att / se
-            # Use placebo distribution for p-value if available
-            if len(placebo_effects) > 0:
+            # Use placebo distribution for p-value if available. Bootstrap
+            # replicates are centred on the estimate, not on zero, so they are
+            # not a null distribution
+            if inference_method == "placebo" and len(placebo_effects) > 0:
                 # Two-sided p-value from placebo distribution
                 p_value = np.mean(np.abs(placebo_effects) >= np.abs(att))
                 p_value = max(p_value, 1.0 / (len(placebo_effects) + 1))
-- 
2.43.0


From cc9294d847b565b3b9700aa5099b4ef5575c734c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:43 +0000
Subject: [PATCH 16/74] fix: synthetic DiD reports NaN inference when no
 standard error is available

---
 diff_diff/synthetic_did.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/diff_diff/synthetic_did.py b/diff_diff/synthetic_did.py
index 9641797..4f22220 100644
--- a/diff_diff/synthetic_did.py
+++ b/diff_diff/synthetic_did.py
@@ -338,8 +338,10 @@ class SyntheticDiD(DifferenceInDifferences):
             else:
                 p_value = compute_p_value(t_stat)
         else:
-            t_stat = 0.0
-            p_value = 1.0
+            # No usable standard error: no inference
+            se = np.nan
+            t_stat = np.nan
+            p_value = np.nan
 
         # Confidence interval
         conf_int = compute_confidence_interval(att, se, self.alpha)
@@ -471,6 +473,10 @@ class SyntheticDiD(DifferenceInDifferences):
 
         Uses block bootstrap at the unit level.
         """
+        if self.n_bootstrap == 0:
+            # Bootstrap inference disabled
+            return np.nan, np.array([])
+
         rng = np.random.default_rng(self.seed)
 
         all_units = treated_units + control_units
@@ -548,12 +554,12 @@ class SyntheticDiD(DifferenceInDifferences):
             warnings.warn(
                 f"Only 1/{self.n_bootstrap} bootstrap iteration succeeded. "
                 f"Standard error cannot be computed reliably (requires at least 2). "
-                f"Returning SE=0.0. Consider the suggestions above for improving "
+                f"Returning SE=NaN. Consider the suggestions above for improving "
                 f"bootstrap convergence.",
                 UserWarning,
                 stacklevel=2,
             )
-            se = 0.0
+            se = np.nan
         elif failure_rate > 0.05:
             warnings.warn(
                 f"Only {n_successful}/{self.n_bootstrap} bootstrap iterations succeeded "
@@ -637,7 +643,7 @@ class SyntheticDiD(DifferenceInDifferences):
                 UserWarning,
                 stacklevel=3,
             )
-            return 0.0, np.array([])
+            return np.nan, np.array([])
 
         placebo_estimates = []
 
@@ -699,7 +705,7 @@ class SyntheticDiD(DifferenceInDifferences):
                 UserWarning,
                 stacklevel=3,
             )
-            return 0.0, placebo_estimates
+            return np.nan, placebo_estimates
 
         # Warn if many replications failed
         failure_rate = 1 - (n_successful / replications)
-- 
2.43.0


From c4a97f91eb2daec3aa925ae32586f7149c01be62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:09 +0000
Subject: [PATCH 17/74] fix: synthetic DiD refuses unbalanced panels and
 treatment varying within unit

---
 diff_diff/synthetic_did.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/diff_diff/synthetic_did.py b/diff_diff/synthetic_did.py
index 4f22220..6ace279 100644
--- a/diff_diff/synthetic_did.py
+++ b/diff_diff/synthetic_did.py
@@ -246,6 +246,11 @@ class SyntheticDiD(DifferenceInDifferences):
 
         # Identify treated and control units
         # Treatment indicator should be constant within unit
+        if (data.groupby(unit)[treatment].nunique() > 1).any():
+            raise ValueError(
+                f"Treatment '{treatment}' must be constant within unit "
+                "(1 in every period for treated units)"
+            )
         unit_treatment = data.groupby(unit)[treatment].first()
         treated_units = unit_treatment[unit_treatment == 1].index.tolist()
         control_units = unit_treatment[unit_treatment == 0].index.tolist()
@@ -270,6 +275,13 @@ class SyntheticDiD(DifferenceInDifferences):
                 pre_periods, post_periods, treated_units, control_units
             )
 
+        for Y in (Y_pre_control, Y_post_control, Y_pre_treated, Y_post_treated):
+            if not np.all(np.isfinite(Y)):
+                raise ValueError(
+                    "SyntheticDiD requires a balanced panel: every unit must be "
+                    "observed with a finite outcome in every period"
+                )
+
         # Compute unit weights (synthetic control weights)
         # Average treated outcomes across treated units
         Y_pre_treated_mean = np.mean(Y_pre_treated, axis=1)
-- 
2.43.0


From cfb7c7a50ee6dbc1d7d6bc4019ee152b53439270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:57 +0000
Subject: [PATCH 18/74] fix: SyntheticDiD(n_bootstrap=0) uses placebo inference
 as documented instead of dividing by zero

---
 diff_diff/synthetic_did.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/diff_diff/synthetic_did.py b/diff_diff/synthetic_did.py
index 6ace279..917c87c 100644
--- a/diff_diff/synthetic_did.py
+++ b/diff_diff/synthetic_did.py
@@ -316,7 +316,8 @@ class SyntheticDiD(DifferenceInDifferences):
         pre_fit_rmse = np.sqrt(np.mean((Y_pre_treated_mean - synthetic_pre) ** 2))
 
         # Compute standard errors based on variance_method
-        if self.variance_method == "bootstrap":
+        # (n_bootstrap=0 disables the bootstrap in favour of placebo inference)
+        if self.variance_method == "bootstrap" and self.n_bootstrap > 0:
             se, bootstrap_estimates = self._bootstrap_se(
                 working_data, outcome, unit, time,
                 pre_periods, post_periods, treated_units, control_units
@@ -333,7 +334,8 @@ class SyntheticDiD(DifferenceInDifferences):
                 unit_weights,
                 time_weights,
                 n_treated=len(treated_units),
-                replications=self.n_bootstrap  # Reuse n_bootstrap for replications
+                # Reuse n_bootstrap for replications
+                replications=self.n_bootstrap if self.n_bootstrap > 0 else 200
             )
             inference_method = "placebo"
 
@@ -485,10 +487,6 @@ class SyntheticDiD(DifferenceInDifferences):
 
         Uses block bootstrap at the unit level.
         """
-        if self.n_bootstrap == 0:
-            # Bootstrap inference disabled
-            return np.nan, np.array([])
-
         rng = np.random.default_rng(self.seed)
 
         all_units = treated_units + control_units
-- 
2.43.0


From 6c33fea6ca33a4410d91c1dcc4dcd05c8f567eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:29 +0000
Subject: [PATCH 19/74] fix: doubly robust triple difference uses its outcome
 model and normalized weights

---
 diff_diff/triple_diff.py | 180 +++++++++++++++------------------------
 1 file changed, 71 insertions(+), 109 deletions(-)

diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index 126d30b..50dc2af 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -941,32 +941,33 @@ class TripleDifference:
         cell_2 = (G == 1) & (P == 0)
         cell_3 = (G == 0) & (P == 1)
         cell_4 = (G == 0) & (P == 0)
+        cells = [cell_1, cell_2, cell_3, cell_4]
+
+        # Step 1: Outcome regression for each cell-time combination.
+        # mu_fitted: own-cell predictions; mu_ref[k, t]: predictions of the
+        # model of cell k at time t for the effectively treated at time t
+        mu_fitted = np.zeros(n)
+        mu_ref = {}
+        for k, cell_mask in enumerate(cells):
+            for t_val in [0, 1]:
+                mask = cell_mask & (T == t_val)
+                ref = cell_1 & (T == t_val)
+                mu_fitted[mask] = np.mean(y[mask])
+                mu_ref[k, t_val] = np.full(np.sum(ref), np.mean(y[mask]))
+                if X is not None and X.shape[1] > 0 and np.sum(mask) > X.shape[1] + 1:
+                    try:
+                        beta, fitted, _ = _linear_regression(
+                            X[mask], y[mask],
+                            rank_deficient_action=self.rank_deficient_action,
+                        )
+                    except Exception:
+                        continue  # keep the cell mean
+                    mu_fitted[mask] = fitted
+                    # Dropped (collinear) columns have NaN coefficients
+                    beta = np.where(np.isnan(beta), 0.0, beta)
+                    mu_ref[k, t_val] = beta[0] + X[ref] @ beta[1:]
 
-        # Step 1: Outcome regression for each cell-time combination
-        # Predict E[Y|X,T] for each cell
         if X is not None and X.shape[1] > 0:
-            # Fit outcome models for each cell
-            mu_fitted = np.zeros(n)
-
-            for cell_mask, cell_name in [
-                (cell_1, "cell_1"), (cell_2, "cell_2"),
-                (cell_3, "cell_3"), (cell_4, "cell_4")
-            ]:
-                for t_val in [0, 1]:
-                    mask = cell_mask & (T == t_val)
-                    if np.sum(mask) > 1:
-                        X_cell = np.column_stack([X[mask], T[mask]])
-                        try:
-                            _, fitted, _ = _linear_regression(
-                                X_cell, y[mask],
-                                rank_deficient_action=self.rank_deficient_action,
-                            )
-                            mu_fitted[mask] = fitted
-                        except Exception:
-                            mu_fitted[mask] = np.mean(y[mask])
-                    elif np.sum(mask) == 1:
-                        mu_fitted[mask] = y[mask]
-
             # Propensity scores
             try:
                 _, p_G = _logistic_regression(X, G)
@@ -993,14 +994,6 @@ class TripleDifference:
                 "P(P=1) std": float(np.std(p_P)),
             }
         else:
-            # No covariates: use cell means as predictions
-            mu_fitted = np.zeros(n)
-            for cell_mask in [cell_1, cell_2, cell_3, cell_4]:
-                for t_val in [0, 1]:
-                    mask = cell_mask & (T == t_val)
-                    if np.sum(mask) > 0:
-                        mu_fitted[mask] = np.mean(y[mask])
-
             # Unconditional probabilities
             p_cell_1 = np.full(n, np.mean(cell_1))
             p_cell_2 = np.full(n, np.mean(cell_2))
@@ -1015,83 +1008,30 @@ class TripleDifference:
         p_cell_4 = np.clip(p_cell_4, self.pscore_trim, 1 - self.pscore_trim)
 
         # Step 2: Doubly robust estimator
-        # For each cell, compute the augmented IPW term:
-        # (Y - mu(X)) * weight + mu(X)
-
-        pre_mask = T == 0
-        post_mask = T == 1
-
-        # Influence function components for each observation
-        n_1 = np.sum(cell_1)
-        p_ref = n_1 / n
-
-        # Cell 1 (G=1, P=1) - effectively treated
-        inf_11 = np.zeros(n)
-        inf_11[cell_1] = (y[cell_1] - mu_fitted[cell_1]) / p_ref
-        # Add outcome model contribution
-        inf_11 += mu_fitted * cell_1.astype(float) / p_ref
-
-        # Cell 2 (G=1, P=0)
-        w_10 = cell_2.astype(float) * (p_cell_1 / p_cell_2)
-        inf_10 = w_10 * (y - mu_fitted) / p_ref
-        # Add outcome model contribution for cell 2 (vectorized)
-        inf_10[cell_2] += mu_fitted[cell_2] * (p_cell_1[cell_2] / p_cell_2[cell_2]) / p_ref
-
-        # Cell 3 (G=0, P=1)
-        w_01 = cell_3.astype(float) * (p_cell_1 / p_cell_3)
-        inf_01 = w_01 * (y - mu_fitted) / p_ref
-        # Add outcome model contribution for cell 3 (vectorized)
-        inf_01[cell_3] += mu_fitted[cell_3] * (p_cell_1[cell_3] / p_cell_3[cell_3]) / p_ref
-
-        # Cell 4 (G=0, P=0)
-        w_00 = cell_4.astype(float) * (p_cell_1 / p_cell_4)
-        inf_00 = w_00 * (y - mu_fitted) / p_ref
-        # Add outcome model contribution for cell 4 (vectorized)
-        inf_00[cell_4] += mu_fitted[cell_4] * (p_cell_1[cell_4] / p_cell_4[cell_4]) / p_ref
-
-        # Compute cell-time means using DR formula
-        def dr_mean(inf_vals, t_mask):
-            return np.mean(inf_vals[t_mask])
-
-        y_11_pre = dr_mean(inf_11, pre_mask)
-        y_11_post = dr_mean(inf_11, post_mask)
-        y_10_pre = dr_mean(inf_10, pre_mask)
-        y_10_post = dr_mean(inf_10, post_mask)
-        y_01_pre = dr_mean(inf_01, pre_mask)
-        y_01_post = dr_mean(inf_01, post_mask)
-        y_00_pre = dr_mean(inf_00, pre_mask)
-        y_00_post = dr_mean(inf_00, post_mask)
-
-        # DDD estimate
-        att = (
-            (y_11_post - y_11_pre)
-            - (y_10_post - y_10_pre)
-            - (y_01_post - y_01_pre)
-            + (y_00_post - y_00_pre)
-        )
-
-        # Standard error computation
-        # Use the simpler variance formula for the DDD estimator
-        # Var(DDD) ≈ sum of variances of cell means / cell_sizes
-
-        # Compute variances within each cell-time combination
-        def cell_var(cell_mask, t_mask, y_vals):
-            mask = cell_mask & t_mask
-            if np.sum(mask) > 1:
-                return np.var(y_vals[mask], ddof=1), np.sum(mask)
-            return 0.0, max(1, np.sum(mask))
-
-        # Variance components for each of the 8 cells
-        var_components = []
-        for cell_mask in [cell_1, cell_2, cell_3, cell_4]:
-            for t_mask in [pre_mask, post_mask]:
-                v, n_cell = cell_var(cell_mask, t_mask, y)
-                if n_cell > 0:
-                    var_components.append(v / n_cell)
-
-        # Total variance is sum of components (assuming independence)
-        total_var = sum(var_components)
-        se = np.sqrt(total_var)
+        # Mean of each comparison cell, standardized to the covariates of the
+        # effectively treated: prediction plus reweighted residual
+        # (normalized weights)
+        inf = np.zeros(n)  # contribution of each observation to the estimate
+        att = 0.0
+        for t_val, t_sign in [(0, -1.0), (1, 1.0)]:
+            ref = cell_1 & (T == t_val)
+            ref_values = y[ref].copy()
+            for k, p_cell, sign in [
+                (1, p_cell_2, 1.0), (2, p_cell_3, 1.0), (3, p_cell_4, -1.0)
+            ]:
+                mask = cells[k] & (T == t_val)
+                w = p_cell_1[mask] / p_cell[mask]
+                w = w / np.sum(w)
+                resid = y[mask] - mu_fitted[mask]
+                correction = np.sum(w * resid)
+                ref_values -= sign * mu_ref[k, t_val]
+                att -= t_sign * sign * correction
+                inf[mask] = -t_sign * sign * w * (resid - correction)
+            att += t_sign * np.mean(ref_values)
+            inf[ref] = t_sign * (ref_values - np.mean(ref_values)) / np.sum(ref)
+
+        # Standard error from the influence function
+        se = self._influence_se(inf, G, P, T)
 
         # R-squared from outcome regression
         if X is not None:
@@ -1103,6 +1043,28 @@ class TripleDifference:
 
         return att, se, r_squared, pscore_stats
 
+    def _influence_se(
+        self,
+        inf: np.ndarray,
+        G: np.ndarray,
+        P: np.ndarray,
+        T: np.ndarray,
+    ) -> float:
+        """
+        Standard error from each observation's contribution to the estimate.
+
+        Contributions are centered within each of the eight cells.
+        """
+        total_var = 0.0
+        for g_val in [0, 1]:
+            for p_val in [0, 1]:
+                for t_val in [0, 1]:
+                    mask = (G == g_val) & (P == p_val) & (T == t_val)
+                    n_cell = np.sum(mask)
+                    if n_cell > 1:
+                        total_var += np.sum(inf[mask] ** 2) * n_cell / (n_cell - 1)
+        return float(np.sqrt(total_var))
+
     def _compute_se(
         self,
         X: np.ndarray,
-- 
2.43.0


From 2081b337991c964967e93e2ec223d4b9b127d886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:00 +0000
Subject: [PATCH 20/74] fix: IPW triple-difference standard error does not
 depend on the outcome level

---
 diff_diff/triple_diff.py | 65 +++++++---------------------------------
 1 file changed, 10 insertions(+), 55 deletions(-)

diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index 50dc2af..604aa0d 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -910,12 +910,16 @@ class TripleDifference:
             + (y_00_post - y_00_pre)
         )
 
-        # Standard error (approximate, using delta method)
-        # For simplicity, use influence function approach
-        se = self._compute_ipw_se(
-            y, G, P, T, cell_1, cell_2, cell_3, cell_4,
-            p_cell_1, p_cell_2, p_cell_3, p_cell_4, att
-        )
+        # Standard error from the influence function of the weighted cell means
+        inf = np.zeros(n)
+        for mask, w, sign in [
+            (w1_post, w1_post.astype(float), 1.0), (w1_pre, w1_pre.astype(float), -1.0),
+            (w2_post > 0, w2_post, -1.0), (w2_pre > 0, w2_pre, 1.0),
+            (w3_post > 0, w3_post, -1.0), (w3_pre > 0, w3_pre, 1.0),
+            (w4_post > 0, w4_post, 1.0), (w4_pre > 0, w4_pre, -1.0),
+        ]:
+            inf[mask] = sign * w[mask] * (y[mask] - weighted_mean(y, w)) / np.sum(w)
+        se = self._influence_se(inf, G, P, T)
 
         return att, se, None, pscore_stats
 
@@ -1087,55 +1091,6 @@ class TripleDifference:
 
         return float(np.sqrt(vcov[coef_idx, coef_idx]))
 
-    def _compute_ipw_se(
-        self,
-        y: np.ndarray,
-        G: np.ndarray,
-        P: np.ndarray,
-        T: np.ndarray,
-        cell_1: np.ndarray,
-        cell_2: np.ndarray,
-        cell_3: np.ndarray,
-        cell_4: np.ndarray,
-        p_cell_1: np.ndarray,
-        p_cell_2: np.ndarray,
-        p_cell_3: np.ndarray,
-        p_cell_4: np.ndarray,
-        att: float,
-    ) -> float:
-        """Compute standard error for IPW estimator using influence function."""
-        n = len(y)
-        post_mask = T == 1
-
-        # Influence function for IPW estimator (vectorized)
-        inf_func = np.zeros(n)
-
-        n_ref = np.sum(cell_1)
-        p_ref = n_ref / n
-
-        # Sign: +1 for post, -1 for pre
-        sign = np.where(post_mask, 1.0, -1.0)
-
-        # Cell 1 (G=1, P=1): sign * (y - att) / p_ref
-        inf_func[cell_1] = sign[cell_1] * (y[cell_1] - att) / p_ref
-
-        # Cell 2 (G=1, P=0): -sign * y * (p_cell_1 / p_cell_2) / p_ref
-        w_2 = p_cell_1[cell_2] / p_cell_2[cell_2]
-        inf_func[cell_2] = -sign[cell_2] * y[cell_2] * w_2 / p_ref
-
-        # Cell 3 (G=0, P=1): -sign * y * (p_cell_1 / p_cell_3) / p_ref
-        w_3 = p_cell_1[cell_3] / p_cell_3[cell_3]
-        inf_func[cell_3] = -sign[cell_3] * y[cell_3] * w_3 / p_ref
-
-        # Cell 4 (G=0, P=0): sign * y * (p_cell_1 / p_cell_4) / p_ref
-        w_4 = p_cell_1[cell_4] / p_cell_4[cell_4]
-        inf_func[cell_4] = sign[cell_4] * y[cell_4] * w_4 / p_ref
-
-        var_inf = np.var(inf_func, ddof=1)
-        se = np.sqrt(var_inf / n)
-
-        return se
-
     def get_params(self) -> Dict[str, Any]:
         """
         Get estimator parameters (sklearn-compatible).
-- 
2.43.0


From c251553588306cc47644555766af00d75f002d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:03 +0000
Subject: [PATCH 21/74] fix: triple difference honours the cluster parameter

---
 diff_diff/triple_diff.py | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index 604aa0d..cf87a19 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -573,6 +573,15 @@ class TripleDifference:
             if np.any(np.isnan(X)):
                 raise ValueError("Covariates contain missing values")
 
+        # Get cluster identifiers if clustering
+        cluster_ids = None
+        if self.cluster is not None:
+            if self.cluster not in data.columns:
+                raise ValueError(f"Cluster column '{self.cluster}' not found in data")
+            cluster_ids = data[self.cluster].values
+            if len(pd.unique(cluster_ids)) < 2:
+                raise ValueError("Need at least 2 clusters for cluster-robust SEs")
+
         # Count observations in each cell
         n_obs = len(y)
         n_treated_eligible = int(np.sum((G == 1) & (P == 1)))
@@ -586,15 +595,15 @@ class TripleDifference:
         # Estimate ATT based on method
         if self.estimation_method == "reg":
             att, se, r_squared, pscore_stats = self._regression_adjustment(
-                y, G, P, T, X
+                y, G, P, T, X, cluster_ids
             )
         elif self.estimation_method == "ipw":
             att, se, r_squared, pscore_stats = self._ipw_estimation(
-                y, G, P, T, X
+                y, G, P, T, X, cluster_ids
             )
         else:  # doubly robust
             att, se, r_squared, pscore_stats = self._doubly_robust(
-                y, G, P, T, X
+                y, G, P, T, X, cluster_ids
             )
 
         # Compute inference
@@ -723,6 +732,7 @@ class TripleDifference:
         P: np.ndarray,
         T: np.ndarray,
         X: Optional[np.ndarray],
+        cluster_ids: Optional[np.ndarray] = None,
     ) -> Tuple[float, float, Optional[float], Optional[Dict[str, float]]]:
         """
         Estimate ATT using regression adjustment.
@@ -762,6 +772,7 @@ class TripleDifference:
         reg = LinearRegression(
             include_intercept=False,  # Intercept already in design_matrix
             robust=self.robust,
+            cluster_ids=cluster_ids,
             alpha=self.alpha,
             rank_deficient_action=self.rank_deficient_action,
         ).fit(design_matrix, y)
@@ -781,6 +792,7 @@ class TripleDifference:
         P: np.ndarray,
         T: np.ndarray,
         X: Optional[np.ndarray],
+        cluster_ids: Optional[np.ndarray] = None,
     ) -> Tuple[float, float, Optional[float], Optional[Dict[str, float]]]:
         """
         Estimate ATT using inverse probability weighting.
@@ -919,7 +931,7 @@ class TripleDifference:
             (w4_post > 0, w4_post, 1.0), (w4_pre > 0, w4_pre, -1.0),
         ]:
             inf[mask] = sign * w[mask] * (y[mask] - weighted_mean(y, w)) / np.sum(w)
-        se = self._influence_se(inf, G, P, T)
+        se = self._influence_se(inf, G, P, T, cluster_ids)
 
         return att, se, None, pscore_stats
 
@@ -930,6 +942,7 @@ class TripleDifference:
         P: np.ndarray,
         T: np.ndarray,
         X: Optional[np.ndarray],
+        cluster_ids: Optional[np.ndarray] = None,
     ) -> Tuple[float, float, Optional[float], Optional[Dict[str, float]]]:
         """
         Estimate ATT using doubly robust estimation.
@@ -1035,7 +1048,7 @@ class TripleDifference:
             inf[ref] = t_sign * (ref_values - np.mean(ref_values)) / np.sum(ref)
 
         # Standard error from the influence function
-        se = self._influence_se(inf, G, P, T)
+        se = self._influence_se(inf, G, P, T, cluster_ids)
 
         # R-squared from outcome regression
         if X is not None:
@@ -1053,12 +1066,19 @@ class TripleDifference:
         G: np.ndarray,
         P: np.ndarray,
         T: np.ndarray,
+        cluster_ids: Optional[np.ndarray] = None,
     ) -> float:
         """
         Standard error from each observation's contribution to the estimate.
 
-        Contributions are centered within each of the eight cells.
+        Contributions are centered within each of the eight cells. With
+        clusters, contributions are summed within clusters first.
         """
+        if cluster_ids is not None:
+            sums = pd.Series(inf).groupby(pd.factorize(cluster_ids)[0]).sum()
+            n_clusters = len(sums)
+            return float(np.sqrt(np.sum(sums ** 2) * n_clusters / (n_clusters - 1)))
+
         total_var = 0.0
         for g_val in [0, 1]:
             for p_val in [0, 1]:
-- 
2.43.0


From b4d0980a3fb88be3bee61cd80bfa757848692245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:05 +0000
Subject: [PATCH 22/74] fix: triple difference t-statistic is NaN, not 0,
 without a usable standard error

---
 diff_diff/triple_diff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index cf87a19..afb6682 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -607,7 +607,7 @@ class TripleDifference:
             )
 
         # Compute inference
-        t_stat = att / se if se > 0 else 0.0
+        t_stat = att / se if se > 0 else np.nan
         df = n_obs - 8  # Approximate df (8 cell means)
         if covariates:
             df -= len(covariates)
-- 
2.43.0


From f7f92ca0ed977dd0ef52f7716a51bf6a41f57c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:59 +0000
Subject: [PATCH 23/74] fix: TROP bootstrap and jackknife weights come from
 their own sample

---
 diff_diff/trop.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index a6e2fdc..148c8cb 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -2288,7 +2288,10 @@ class TROP:
             Weight matrix (n_periods x n_units) for observation (i, t).
         """
         # Use pre-computed structures when available
-        if self._precomputed is not None:
+        # (only for the panel they were computed from: bootstrap and jackknife
+        # samples have their own outcomes, treatment status and unit order)
+        if (self._precomputed is not None
+                and Y is self._precomputed["Y"] and D is self._precomputed["D"]):
             # Time weights from pre-computed time distance matrix
             # time_dist_matrix[t, s] = |t - s|
             time_weights = np.exp(-lambda_time * self._precomputed["time_dist_matrix"][t, :])
-- 
2.43.0


From 2ae7927fa76950a3c4bdf2c667d22fc03a891ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:08 +0000
Subject: [PATCH 24/74] fix: two-step TROP scales the nuclear-norm penalty with
 the step size, like the other solvers

---
 diff_diff/trop.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index 148c8cb..63efd24 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -2491,16 +2491,19 @@ class TROP:
         W_max = np.max(W)
         if W_max > 0:
             W_norm = W / W_max
+            # The step size applies to the penalty as well
+            threshold = lambda_nn / W_max
         else:
             W_norm = W
+            threshold = lambda_nn
 
         # Initialize L
         L = L_init.copy()
 
         # Proximal gradient iteration with weighted soft-impute
         # This solves: min_L ||W^{1/2} ⊙ (R - L)||_F^2 + λ||L||_*
-        # Using: L_{k+1} = prox_{λ/η}(L_k + W ⊙ (R - L_k))
-        # where η is the step size (we use η = 1 with normalized weights)
+        # Using: L_{k+1} = prox_{ηλ}(L_k + ηW ⊙ (R - L_k))
+        # with step size η = 1 / max(W)
         for _ in range(max_inner_iter):
             L_old = L.copy()
 
@@ -2509,7 +2512,7 @@ class TROP:
             gradient_step = L + W_norm * (R_masked - L)
 
             # Proximal step: soft-threshold singular values
-            L = self._soft_threshold_svd(gradient_step, lambda_nn)
+            L = self._soft_threshold_svd(gradient_step, threshold)
 
             # Check convergence
             if np.max(np.abs(L - L_old)) < self.tol:
-- 
2.43.0


From 5a01d5587f71eb260b7b88670af0873945231513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:08 +0000
Subject: [PATCH 25/74] fix: TROP confidence interval uses the same t
 distribution as its p-value

---
 diff_diff/trop.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index 63efd24..05b709b 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -1512,7 +1512,9 @@ class TROP:
         if se > 0:
             t_stat = att / se
             p_value = 2 * (1 - stats.t.cdf(abs(t_stat), df=max(1, n_treated_obs - 1)))
-            conf_int = compute_confidence_interval(att, se, self.alpha)
+            conf_int = compute_confidence_interval(
+                att, se, self.alpha, df=max(1, n_treated_obs - 1)
+            )
         else:
             t_stat = np.nan
             p_value = np.nan
@@ -2189,7 +2191,9 @@ class TROP:
         if se > 0:
             t_stat = att / se
             p_value = 2 * (1 - stats.t.cdf(abs(t_stat), df=max(1, n_treated_obs - 1)))
-            conf_int = compute_confidence_interval(att, se, self.alpha)
+            conf_int = compute_confidence_interval(
+                att, se, self.alpha, df=max(1, n_treated_obs - 1)
+            )
         else:
             # When SE is undefined/zero, ALL inference fields should be NaN
             t_stat = np.nan
-- 
2.43.0


From ea0bf48e4c57222390cb5eda2a807a897e437787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:10 +0000
Subject: [PATCH 26/74] fix: TROP leave-one-out score treats infinite tuning
 values as disabled, like the search

---
 diff_diff/trop.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index 05b709b..5051bf1 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -2077,9 +2077,12 @@ class TROP:
 
             # Compute final score for the optimized parameters
             try:
+                # (infinite values mean "disabled", as in the search itself)
                 best_score = self._loocv_score_obs_specific(
                     Y, D, control_mask, control_unit_idx,
-                    lambda_time, lambda_unit, lambda_nn,
+                    0.0 if np.isinf(lambda_time) else lambda_time,
+                    0.0 if np.isinf(lambda_unit) else lambda_unit,
+                    1e10 if np.isinf(lambda_nn) else lambda_nn,
                     n_units, n_periods
                 )
                 # Only accept finite scores - infinite means all fits failed
-- 
2.43.0


From dcdbc6581485ad8188fcdb9355ebec467370d9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:27 +0000
Subject: [PATCH 27/74] fix: HonestDiD uses the covariance of the post-period
 effects of MultiPeriodDiD

---
 diff_diff/honest_did.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index 81c8caf..51bd3e8 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -565,6 +565,15 @@ def _extract_event_study_params(
         # Get vcov if available
         if results.vcov is not None:
             sigma = results.vcov
+            # The full covariance also covers the intercept, group and period terms:
+            # pick the rows/columns of the post-period effects
+            names = list(results.coefficients) if results.coefficients else []
+            idx = [
+                j for period in post_periods for j, name in enumerate(names)
+                if str(name).endswith(f":period_{period}")
+            ]
+            if len(names) == sigma.shape[0] and len(idx) == num_post_periods:
+                sigma = sigma[np.ix_(idx, idx)]
         else:
             # Construct diagonal vcov from SEs
             sigma = np.diag(np.array(ses) ** 2)
-- 
2.43.0


From 500a3b07b0a85bad1a0a72e198e4c574885b1aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:27 +0000
Subject: [PATCH 28/74] fix: relative-magnitude bounds scale with the total
 absolute weight

---
 diff_diff/honest_did.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index 51bd3e8..52a00e6 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -938,7 +938,8 @@ def _compute_clf_ci(
     theta = np.dot(l_vec, beta_post)
     se = np.sqrt(l_vec @ sigma_post @ l_vec)
 
-    bound = Mbar * max_pre_violation
+    # |l'delta| <= sum|l_t| * max|delta_t|
+    bound = Mbar * max_pre_violation * np.sum(np.abs(l_vec))
 
     # Simple bounds: theta +/- bound
     lb = theta - bound
-- 
2.43.0


From 0a65c0620548773932c05dc3487019d4cc12fb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:27 +0000
Subject: [PATCH 29/74] fix: a missing HonestDiD interval is not reported as
 significant

---
 diff_diff/honest_did.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index 52a00e6..47d65fb 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -197,7 +197,7 @@ class HonestDiDResults:
     )
 
     def __repr__(self) -> str:
-        sig = "" if self.ci_lb <= 0 <= self.ci_ub else "*"
+        sig = self.significance_stars
         return (
             f"HonestDiDResults(bounds=[{self.lb:.4f}, {self.ub:.4f}], "
             f"CI=[{self.ci_lb:.4f}, {self.ci_ub:.4f}]{sig}, "
@@ -207,7 +207,7 @@ class HonestDiDResults:
     @property
     def is_significant(self) -> bool:
         """Check if CI excludes zero (effect is robust to violations)."""
-        return not (self.ci_lb <= 0 <= self.ci_ub)
+        return bool(self.ci_lb > 0 or self.ci_ub < 0)
 
     @property
     def significance_stars(self) -> str:
@@ -443,7 +443,7 @@ class SensitivityResults:
                 "ub": ub,
                 "ci_lb": ci_lb,
                 "ci_ub": ci_ub,
-                "is_significant": not (ci_lb <= 0 <= ci_ub),
+                "is_significant": bool(ci_lb > 0 or ci_ub < 0),
             })
         return pd.DataFrame(rows)
 
-- 
2.43.0


From 9dcbc1d697787468b65a16db8ffb54572dd56ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:27 +0000
Subject: [PATCH 30/74] fix: a breakdown value of 0 is not printed as None

---
 diff_diff/honest_did.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index 47d65fb..da69f6a 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -377,7 +377,7 @@ class SensitivityResults:
     alpha: float = 0.05
 
     def __repr__(self) -> str:
-        breakdown_str = f"{self.breakdown_M:.4f}" if self.breakdown_M else "None"
+        breakdown_str = f"{self.breakdown_M:.4f}" if self.has_breakdown else "None"
         return (
             f"SensitivityResults(n_M={len(self.M_values)}, "
             f"breakdown_M={breakdown_str})"
-- 
2.43.0


From 53ff58f872ea80bcf4ed6386eddc09fd8b2375ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:48 +0000
Subject: [PATCH 31/74] fix: HonestDiD breakdown value does not depend on the
 order or start of the grid

---
 diff_diff/honest_did.py | 51 +++++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index da69f6a..941d4e2 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -1356,37 +1356,33 @@ class HonestDiD:
 
         Uses binary search for precision.
         """
-        # Check if any CI includes zero
-        includes_zero = [ci_lb <= 0 <= ci_ub for ci_lb, ci_ub in ci_list]
+        # Values of M at which the CI does not exclude zero
+        breaks = [
+            M for M, (ci_lb, ci_ub) in zip(M_values, ci_list)
+            if not (ci_lb > 0 or ci_ub < 0)
+        ]
 
-        if not any(includes_zero):
+        if not breaks:
             # Always significant - no breakdown
             return None
 
-        if all(includes_zero):
+        if not self.fit(results, M=0).is_significant:
             # Never significant - breakdown at 0
             return 0.0
 
-        # Find first transition point
-        for i, (inc, M) in enumerate(zip(includes_zero, M_values)):
-            if inc and (i == 0 or not includes_zero[i - 1]):
-                # Binary search between M_values[i-1] and M_values[i]
-                if i == 0:
-                    return 0.0
-
-                lo, hi = M_values[i - 1], M_values[i]
-
-                for _ in range(20):  # 20 iterations for precision
-                    mid = (lo + hi) / 2
-                    result = self.fit(results, M=mid)
-                    if result.ci_lb <= 0 <= result.ci_ub:
-                        hi = mid
-                    else:
-                        lo = mid
+        # Binary search between the last significant value (M = 0 at the latest)
+        # and the first insignificant one, whatever the order of the grid
+        hi = min(breaks)
+        lo = max([M for M in M_values if M < hi], default=0.0)
 
-                return (lo + hi) / 2
+        for _ in range(20):  # 20 iterations for precision
+            mid = (lo + hi) / 2
+            if self.fit(results, M=mid).is_significant:
+                lo = mid
+            else:
+                hi = mid
 
-        return None
+        return (lo + hi) / 2
 
     def breakdown_value(
         self,
@@ -1413,12 +1409,12 @@ class HonestDiD:
         """
         # Check at M=0
         result_0 = self.fit(results, M=0)
-        if result_0.ci_lb <= 0 <= result_0.ci_ub:
+        if not result_0.is_significant:
             return 0.0
 
         # Check if significant even for large M
         result_large = self.fit(results, M=10)
-        if not (result_large.ci_lb <= 0 <= result_large.ci_ub):
+        if result_large.is_significant:
             return None  # Always significant
 
         # Binary search
@@ -1426,11 +1422,10 @@ class HonestDiD:
 
         while hi - lo > tol:
             mid = (lo + hi) / 2
-            result = self.fit(results, M=mid)
-            if result.ci_lb <= 0 <= result.ci_ub:
-                hi = mid
-            else:
+            if self.fit(results, M=mid).is_significant:
                 lo = mid
+            else:
+                hi = mid
 
         return (lo + hi) / 2
 
-- 
2.43.0


From 23d943da3ac90da6c434d61ec7aceff851cdb0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:30 +0000
Subject: [PATCH 32/74] fix: power_at of a custom violation pattern uses that
 pattern, not equal weights

---
 diff_diff/pretrends.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/diff_diff/pretrends.py b/diff_diff/pretrends.py
index d9bc1c6..4016921 100644
--- a/diff_diff/pretrends.py
+++ b/diff_diff/pretrends.py
@@ -73,6 +73,8 @@ class PreTrendsPowerResults:
         Standard errors of pre-period effects.
     vcov : np.ndarray
         Variance-covariance matrix of pre-period effects.
+    violation_weights : np.ndarray, optional
+        Violation pattern the power was computed for (unit L2 norm).
     """
 
     power: float
@@ -89,6 +91,7 @@ class PreTrendsPowerResults:
     pre_period_ses: np.ndarray = field(repr=False)
     vcov: np.ndarray = field(repr=False)
     original_results: Optional[Any] = field(default=None, repr=False)
+    violation_weights: Optional[np.ndarray] = field(default=None, repr=False)
 
     def __repr__(self) -> str:
         return (
@@ -225,7 +228,9 @@ class PreTrendsPowerResults:
 
         # Reconstruct violation weights based on violation type
         # Must match PreTrendsPower._get_violation_weights() exactly
-        if self.violation_type == "linear":
+        if self.violation_weights is not None:
+            weights = np.asarray(self.violation_weights, dtype=float)
+        elif self.violation_type == "linear":
             # Linear trend: weights decrease toward treatment
             # [n-1, n-2, ..., 1, 0] for n pre-periods
             weights = np.arange(-n_pre + 1, 1, dtype=float)
@@ -907,6 +912,7 @@ class PreTrendsPower:
             pre_period_ses=ses,
             vcov=vcov,
             original_results=results,
+            violation_weights=weights,
         )
 
     def power_at(
-- 
2.43.0


From 86599633291774a6da26f77fbc6224d7a5436c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:30 +0000
Subject: [PATCH 33/74] fix: minimum detectable violation is zero when the
 target power does not exceed the level

---
 diff_diff/pretrends.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/diff_diff/pretrends.py b/diff_diff/pretrends.py
index 4016921..162af85 100644
--- a/diff_diff/pretrends.py
+++ b/diff_diff/pretrends.py
@@ -801,6 +801,10 @@ class PreTrendsPower:
         """
         n_pre = len(weights)
 
+        # The test rejects with probability alpha even without a violation
+        if self.target_power <= self.alpha:
+            return 0.0
+
         # Critical value
         critical_value = stats.chi2.ppf(1 - self.alpha, df=n_pre)
 
-- 
2.43.0


From 0309f6eb4954eb88f84b4bd095c2c7090efb7e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:32 +0000
Subject: [PATCH 34/74] fix: pre-trends power finds the period interactions
 whatever the treatment column is called

---
 diff_diff/pretrends.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/diff_diff/pretrends.py b/diff_diff/pretrends.py
index 162af85..a7a993a 100644
--- a/diff_diff/pretrends.py
+++ b/diff_diff/pretrends.py
@@ -369,6 +369,15 @@ class PreTrendsPowerCurve:
         return ax
 
 
+def _find_interaction_key(coefficients: Dict[str, float], period: Any) -> Optional[str]:
+    """Name of the treatment-by-period coefficient, whatever the treatment column is called."""
+    suffix = f":period_{period}"
+    for key in coefficients:
+        if key.endswith(suffix):
+            return key
+    return None
+
+
 # =============================================================================
 # Main Class
 # =============================================================================
@@ -575,9 +584,12 @@ class PreTrendsPower:
             # (excludes the reference period which is omitted from estimation)
             if hasattr(results, 'coefficients') and results.coefficients:
                 # Find which pre-periods have estimated coefficients
+                coef_key = {
+                    p: _find_interaction_key(results.coefficients, p)
+                    for p in all_pre_periods
+                }
                 estimated_pre_periods = [
-                    p for p in all_pre_periods
-                    if f"treated:period_{p}" in results.coefficients
+                    p for p in all_pre_periods if coef_key[p] is not None
                 ]
 
                 if len(estimated_pre_periods) == 0:
@@ -591,7 +603,7 @@ class PreTrendsPower:
 
                 # Extract effects for estimated periods only
                 effects = np.array([
-                    results.coefficients[f"treated:period_{p}"]
+                    results.coefficients[coef_key[p]]
                     for p in estimated_pre_periods
                 ])
 
@@ -610,9 +622,8 @@ class PreTrendsPower:
                     # Get ordered list of all coefficient keys
                     coef_keys = list(results.coefficients.keys())
                     pre_indices = [
-                        coef_keys.index(f"treated:period_{p}")
+                        coef_keys.index(coef_key[p])
                         for p in estimated_pre_periods
-                        if f"treated:period_{p}" in coef_keys
                     ]
                     if len(pre_indices) == n_pre and results.vcov.shape[0] > max(pre_indices):
                         vcov = results.vcov[np.ix_(pre_indices, pre_indices)]
-- 
2.43.0


From d93bfa205305b8522efd62c62e3324e992ed14d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:57 +0000
Subject: [PATCH 35/74] fix: panel sample size inverts the panel variance (was
 twice the required size)

---
 diff_diff/power.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diff_diff/power.py b/diff_diff/power.py
index b8aa10d..351e7f7 100644
--- a/diff_diff/power.py
+++ b/diff_diff/power.py
@@ -681,10 +681,10 @@ class PowerAnalysis:
             design_effect = 1 + (T - 1) * rho
 
             # Var = sigma^2 * (1/n_t + 1/n_c) * design_effect / T
-            # For balanced: Var = 2 * sigma^2 / N * design_effect / T
+            #     = sigma^2 / (N*p*(1-p)) * design_effect / T
 
             n_total = (
-                2 * sigma**2 * (z_alpha + z_beta)**2 * design_effect
+                sigma**2 * (z_alpha + z_beta)**2 * design_effect
                 / (effect_size**2 * treat_frac * (1 - treat_frac) * T)
             )
 
-- 
2.43.0


From 97c0f2932a7e45da218423619ad70e5a62d53bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:31 +0000
Subject: [PATCH 36/74] fix: reported sample size attains the requested power
 after rounding to whole units

---
 diff_diff/power.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/diff_diff/power.py b/diff_diff/power.py
index 351e7f7..5526580 100644
--- a/diff_diff/power.py
+++ b/diff_diff/power.py
@@ -741,14 +741,21 @@ class PowerAnalysis:
 
         n_treated = max(2, int(np.ceil(n_total * treat_frac)))
         n_control = max(2, n_total - n_treated)
-        n_total = n_treated + n_control
 
         # Compute actual power achieved
         variance = self._compute_variance(
             n_treated, n_control, n_pre, n_post, sigma, rho, design
         )
-        se = np.sqrt(variance)
-        mde = self._compute_mde_from_se(se)
+        mde = self._compute_mde_from_se(np.sqrt(variance))
+
+        # Rounding the treated units up leaves the controls up to one unit short
+        if mde > abs(effect_size) * (1 + 1e-12) and n_total < MAX_SAMPLE_SIZE:
+            n_control += 1
+            variance = self._compute_variance(
+                n_treated, n_control, n_pre, n_post, sigma, rho, design
+            )
+            mde = self._compute_mde_from_se(np.sqrt(variance))
+        n_total = n_treated + n_control
 
         return PowerResults(
             power=self.target_power,
-- 
2.43.0


From 3850b08b31f7284d61b6dcb621409889a7ffa281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:31 +0000
Subject: [PATCH 37/74] fix: simulate_power reads the overall effect of
 CallawaySantAnna results

---
 diff_diff/power.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/diff_diff/power.py b/diff_diff/power.py
index 5526580..c192d89 100644
--- a/diff_diff/power.py
+++ b/diff_diff/power.py
@@ -1132,11 +1132,14 @@ def simulate_power(
                         **est_kwargs
                     )
 
-                # Extract results
-                att = result.att if hasattr(result, 'att') else result.avg_att
-                se = result.se if hasattr(result, 'se') else result.avg_se
-                p_val = result.p_value if hasattr(result, 'p_value') else result.avg_p_value
-                ci = result.conf_int if hasattr(result, 'conf_int') else result.avg_conf_int
+                # Extract results (prefix depends on the result class)
+                prefix = next(
+                    (p for p in ("", "avg_") if hasattr(result, f"{p}att")), "overall_"
+                )
+                att = getattr(result, f"{prefix}att")
+                se = getattr(result, f"{prefix}se")
+                p_val = getattr(result, f"{prefix}p_value")
+                ci = getattr(result, f"{prefix}conf_int")
 
                 estimates.append(att)
                 ses.append(se)
-- 
2.43.0


From df389b81ff2afa1ac42643621cce552e3cde7d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:07 +0000
Subject: [PATCH 38/74] fix: simulate_power fits TwoWayFixedEffects with the
 post indicator, not the calendar period

---
 diff_diff/power.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff_diff/power.py b/diff_diff/power.py
index c192d89..bb8e543 100644
--- a/diff_diff/power.py
+++ b/diff_diff/power.py
@@ -1093,7 +1093,7 @@ def simulate_power(
                         data,
                         outcome="outcome",
                         treatment="treated",
-                        time="period",
+                        time="post",
                         unit="unit",
                         **est_kwargs
                     )
-- 
2.43.0


From c184e4989ac16594a8da68d1815f9963bd487793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:02 +0000
Subject: [PATCH 39/74] fix: fake_group placebo test uses only never-treated
 units

---
 diff_diff/diagnostics.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/diff_diff/diagnostics.py b/diff_diff/diagnostics.py
index 123a7de..88e57c3 100644
--- a/diff_diff/diagnostics.py
+++ b/diff_diff/diagnostics.py
@@ -317,6 +317,7 @@ def run_placebo_test(
             fake_treated_units=fake_treatment_group,
             post_periods=post_periods,
             alpha=alpha,
+            treatment=treatment,
             **estimator_kwargs
         )
 
@@ -459,6 +460,7 @@ def placebo_group_test(
     fake_treated_units: List[Any],
     post_periods: Optional[List[Any]] = None,
     alpha: float = 0.05,
+    treatment: Optional[str] = None,
     **estimator_kwargs
 ) -> PlaceboTestResults:
     """
@@ -484,6 +486,10 @@ def placebo_group_test(
         List of post-treatment period values.
     alpha : float, default=0.05
         Significance level.
+    treatment : str, optional
+        Treatment indicator column. If given, units that are ever treated are
+        dropped and may not be listed in fake_treated_units. If omitted, data
+        must already contain never-treated units only.
     **estimator_kwargs
         Arguments passed to DifferenceInDifferences.
 
@@ -495,6 +501,15 @@ def placebo_group_test(
     if fake_treated_units is None or len(fake_treated_units) == 0:
         raise ValueError("fake_treated_units must be a non-empty list")
 
+    if treatment is not None:
+        ever_treated = set(data.loc[data[treatment] == 1, unit])
+        overlap = [u for u in fake_treated_units if u in ever_treated]
+        if overlap:
+            raise ValueError(
+                f"fake_treated_units must be never-treated units, got treated units: {overlap}"
+            )
+        data = data[~data[unit].isin(ever_treated)]
+
     all_periods = sorted(data[time].unique())
 
     # Infer post periods if not provided
-- 
2.43.0


From 85983612c69430835a9bf2eb6e9306b7ea757a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:05 +0000
Subject: [PATCH 40/74] fix: placebo timing and group intervals use the
 requested level

---
 diff_diff/diagnostics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/diff_diff/diagnostics.py b/diff_diff/diagnostics.py
index 88e57c3..33075dd 100644
--- a/diff_diff/diagnostics.py
+++ b/diff_diff/diagnostics.py
@@ -417,7 +417,7 @@ def placebo_timing_test(
     pre_data["_fake_post"] = (pre_data[time] >= fake_treatment_period).astype(int)
 
     # Fit DiD on pre-treatment data with fake post
-    did = DifferenceInDifferences(**estimator_kwargs)
+    did = DifferenceInDifferences(alpha=alpha, **estimator_kwargs)
     results = did.fit(
         pre_data,
         outcome=outcome,
@@ -428,7 +428,7 @@ def placebo_timing_test(
     # Also fit on full data for comparison
     data_with_post = data.copy()
     data_with_post["_post"] = data_with_post[time].isin(post_periods).astype(int)
-    did_full = DifferenceInDifferences(**estimator_kwargs)
+    did_full = DifferenceInDifferences(alpha=alpha, **estimator_kwargs)
     results_full = did_full.fit(
         data_with_post,
         outcome=outcome,
@@ -523,7 +523,7 @@ def placebo_group_test(
     fake_data["_post"] = fake_data[time].isin(post_periods).astype(int)
 
     # Fit DiD
-    did = DifferenceInDifferences(**estimator_kwargs)
+    did = DifferenceInDifferences(alpha=alpha, **estimator_kwargs)
     results = did.fit(
         fake_data,
         outcome=outcome,
-- 
2.43.0


From 9702a0286e8e424df59dbcadcda22fe64c0a1b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:07 +0000
Subject: [PATCH 41/74] fix: permutation and leave-one-out tests without a
 usable spread report no t-statistic

---
 diff_diff/diagnostics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/diff_diff/diagnostics.py b/diff_diff/diagnostics.py
index 33075dd..7e2d497 100644
--- a/diff_diff/diagnostics.py
+++ b/diff_diff/diagnostics.py
@@ -677,7 +677,7 @@ def permutation_test(
     ci_upper = np.percentile(valid_effects, (1 - alpha / 2) * 100)
 
     # T-stat from original estimate
-    t_stat = original_att / se if se > 0 else 0.0
+    t_stat = original_att / se if se > 0 else np.nan
 
     return PlaceboTestResults(
         test_type="permutation",
@@ -797,15 +797,15 @@ def leave_one_out_test(
 
     # Statistics of LOO distribution
     mean_effect = np.mean(valid_effects)
-    se = np.std(valid_effects, ddof=1) if len(valid_effects) > 1 else 0.0
-    t_stat = mean_effect / se if se > 0 else 0.0
+    se = np.std(valid_effects, ddof=1) if len(valid_effects) > 1 else np.nan
+    t_stat = mean_effect / se if se > 0 else np.nan
 
     # Use t-distribution for p-value
     df = len(valid_effects) - 1 if len(valid_effects) > 1 else 1
     p_value = compute_p_value(t_stat, df=df)
 
     # CI
-    conf_int = compute_confidence_interval(mean_effect, se, alpha, df=df)
+    conf_int = compute_confidence_interval(mean_effect, se if se > 0 else np.nan, alpha, df=df)
 
     return PlaceboTestResults(
         test_type="leave_one_out",
-- 
2.43.0


From 790955d73ad1897ef93ce158ab2eb690e3ad7d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:55 +0000
Subject: [PATCH 42/74] fix: wild cluster bootstrap imposes the null when
 computing the p-value

---
 diff_diff/utils.py | 44 +++++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 14cff4c..94f4cdc 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -437,7 +437,7 @@ def wild_bootstrap_se(
     n = X.shape[0]
 
     # Step 1: Compute original coefficient and cluster-robust SE
-    beta_hat, _, vcov_original = _solve_ols_linalg(
+    beta_hat, residuals_unrestricted, vcov_original = _solve_ols_linalg(
         X, y, cluster_ids=cluster_ids, return_vcov=True
     )
     original_coef = beta_hat[coefficient_index]
@@ -445,16 +445,17 @@ def wild_bootstrap_se(
     t_stat_original = (original_coef - null_hypothesis) / se_original
 
     # Step 2: Impose null hypothesis (restricted estimation)
-    # Create restricted y: y_restricted = y - X[:, coef_index] * null_hypothesis
-    # This imposes the null that the coefficient equals null_hypothesis
-    y_restricted = y - X[:, coefficient_index] * null_hypothesis
-
-    # Fit restricted model (but we need to drop the column for the restricted coef)
-    # Actually, for WCR bootstrap we keep all columns but impose the null via residuals
-    # Re-estimate with the restricted dependent variable
-    beta_restricted, residuals_restricted, _ = _solve_ols_linalg(
-        X, y_restricted, return_vcov=False
-    )
+    # Fix the coefficient at null_hypothesis and re-estimate the others
+    null_component = X[:, coefficient_index] * null_hypothesis
+    residuals_restricted = y - null_component
+    if X.shape[1] > 1:
+        _, residuals_restricted, _ = _solve_ols_linalg(
+            np.delete(X, coefficient_index, axis=1), residuals_restricted, return_vcov=False
+        )
+    fitted_restricted = y - residuals_restricted
+
+    # Replicates of the unrestricted fit give the SE and the confidence interval
+    fitted_unrestricted = y - residuals_unrestricted
 
     # Create cluster-to-observation mapping for efficiency
     cluster_map = {c: np.where(cluster_ids == c)[0] for c in unique_clusters}
@@ -473,14 +474,13 @@ def wild_bootstrap_se(
         for g, indices in enumerate(cluster_indices):
             obs_weights[indices] = cluster_weights[g]
 
-        # Construct bootstrap sample: y* = X @ beta_restricted + e_restricted * weights
-        y_star = X @ beta_restricted + residuals_restricted * obs_weights
+        # Construct bootstrap sample under the null: y* = fitted + e_restricted * weights
+        y_star = fitted_restricted + residuals_restricted * obs_weights
 
         # Estimate bootstrap coefficients with cluster-robust SE
         beta_star, residuals_star, vcov_star = _solve_ols_linalg(
             X, y_star, cluster_ids=cluster_ids, return_vcov=True
         )
-        bootstrap_coefs[b] = beta_star[coefficient_index]
         se_star = np.sqrt(vcov_star[coefficient_index, coefficient_index])
 
         # Compute bootstrap t-statistic (under null hypothesis)
@@ -489,12 +489,22 @@ def wild_bootstrap_se(
         else:
             bootstrap_t_stats[b] = 0.0
 
+        # Replicate around the estimate, with the same weights
+        beta_boot, _, _ = _solve_ols_linalg(
+            X, fitted_unrestricted + residuals_unrestricted * obs_weights, return_vcov=False
+        )
+        bootstrap_coefs[b] = beta_boot[coefficient_index]
+
     # Step 4: Compute bootstrap p-value
     # P-value is proportion of |t*| >= |t_original|
-    p_value = np.mean(np.abs(bootstrap_t_stats) >= np.abs(t_stat_original))
+    if not np.isfinite(t_stat_original):
+        # Coefficient or its standard error not identified
+        p_value = np.nan
+    else:
+        p_value = np.mean(np.abs(bootstrap_t_stats) >= np.abs(t_stat_original))
 
-    # Ensure p-value is at least 1/(n_bootstrap+1) to avoid exact zero
-    p_value = float(max(float(p_value), 1 / (n_bootstrap + 1)))
+        # Ensure p-value is at least 1/(n_bootstrap+1) to avoid exact zero
+        p_value = float(max(float(p_value), 1 / (n_bootstrap + 1)))
 
     # Step 5: Compute bootstrap SE and confidence interval
     # SE from standard deviation of bootstrap coefficient distribution
-- 
2.43.0


From 84925cd19d1508a1b98699e008d6066addabbd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:13 +0000
Subject: [PATCH 43/74] fix: an analytical refit does not report the previous
 fit's bootstrap

---
 diff_diff/estimators.py | 1 +
 diff_diff/twfe.py       | 1 +
 2 files changed, 2 insertions(+)

diff --git a/diff_diff/estimators.py b/diff_diff/estimators.py
index 83fc72b..4e1faac 100644
--- a/diff_diff/estimators.py
+++ b/diff_diff/estimators.py
@@ -299,6 +299,7 @@ class DifferenceInDifferences:
         att = coefficients[att_idx]
 
         # Get inference - either from bootstrap or analytical
+        self._bootstrap_results = None  # never report an earlier fit's bootstrap
         if self.inference == "wild_bootstrap" and self.cluster is not None:
             # Override with wild cluster bootstrap inference
             se, p_value, conf_int, t_stat, vcov, _ = self._run_wild_bootstrap_inference(
diff --git a/diff_diff/twfe.py b/diff_diff/twfe.py
index 66ab731..0fa31df 100644
--- a/diff_diff/twfe.py
+++ b/diff_diff/twfe.py
@@ -209,6 +209,7 @@ class TwoWayFixedEffects(DifferenceInDifferences):
                     )
 
         # Get inference - either from bootstrap or analytical
+        self._bootstrap_results = None  # never report an earlier fit's bootstrap
         if self.inference == "wild_bootstrap":
             # Override with wild cluster bootstrap inference
             se, p_value, conf_int, t_stat, vcov, _ = self._run_wild_bootstrap_inference(
-- 
2.43.0


From abe04eb34cd1e26f6076f09a8e31e76fb013fe3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:32 +0000
Subject: [PATCH 44/74] fix: permutation test counts placebo effects that tie
 with the estimate up to rounding

---
 diff_diff/diagnostics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/diff_diff/diagnostics.py b/diff_diff/diagnostics.py
index 7e2d497..4e787e6 100644
--- a/diff_diff/diagnostics.py
+++ b/diff_diff/diagnostics.py
@@ -665,8 +665,9 @@ def permutation_test(
                 stacklevel=2
             )
 
-    # Compute p-value: proportion of |permuted| >= |original|
-    p_value = np.mean(np.abs(valid_effects) >= np.abs(original_att))
+    # Compute p-value: proportion of |permuted| >= |original|. Reassignments that
+    # reproduce or mirror the original one tie up to rounding error and count.
+    p_value = np.mean(np.abs(valid_effects) >= np.abs(original_att) * (1 - 1e-9))
 
     # Ensure p-value is at least 1/(n_permutations + 1)
     p_value = max(p_value, 1 / (len(valid_effects) + 1))
-- 
2.43.0


From d66fe35fa7a9cc618459e2a26be849c32d44c25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:32 +0000
Subject: [PATCH 45/74] fix: wild bootstrap counts replicates that tie with the
 observed statistic up to rounding

---
 diff_diff/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 94f4cdc..e2dab8e 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -496,12 +496,15 @@ def wild_bootstrap_se(
         bootstrap_coefs[b] = beta_boot[coefficient_index]
 
     # Step 4: Compute bootstrap p-value
-    # P-value is proportion of |t*| >= |t_original|
+    # P-value is proportion of |t*| >= |t_original|. Draws that flip no cluster or
+    # every cluster tie with the original up to rounding error and count.
     if not np.isfinite(t_stat_original):
         # Coefficient or its standard error not identified
         p_value = np.nan
     else:
-        p_value = np.mean(np.abs(bootstrap_t_stats) >= np.abs(t_stat_original))
+        p_value = np.mean(
+            np.abs(bootstrap_t_stats) >= np.abs(t_stat_original) * (1 - 1e-9)
+        )
 
         # Ensure p-value is at least 1/(n_bootstrap+1) to avoid exact zero
         p_value = float(max(float(p_value), 1 / (n_bootstrap + 1)))
-- 
2.43.0


From c47bb257155998c240d5fca24192659857f37754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:32 +0000
Subject: [PATCH 46/74] fix: parallel trends permutation test counts distances
 that tie with the observed one up to rounding

---
 diff_diff/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index e2dab8e..6ecdeaf 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -749,8 +749,9 @@ def check_parallel_trends_robust(
         perm_control = all_changes[perm_idx[n_treated:]]
         permuted_distances[i] = stats.wasserstein_distance(perm_treated, perm_control)
 
-    # P-value: proportion of permuted distances >= observed
-    wasserstein_p = np.mean(permuted_distances >= wasserstein_dist)
+    # P-value: proportion of permuted distances >= observed (splits that reproduce
+    # the observed one tie up to rounding error and count)
+    wasserstein_p = np.mean(permuted_distances >= wasserstein_dist * (1 - 1e-9))
 
     # Kolmogorov-Smirnov test
     ks_stat, ks_p = stats.ks_2samp(treated_changes, control_changes)
-- 
2.43.0


From a92813e303ee17ed0a45b62aa7d3bf86737caaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:40 +0000
Subject: [PATCH 47/74] fix: parallel trends check reports no verdict for a
 slope fitted through two observations

---
 diff_diff/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 6ecdeaf..41b9bac 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -599,6 +599,10 @@ def check_parallel_trends(
 
         slope = np.sum((time_norm - mean_t) * (outcome_values - mean_y)) / time_var
 
+        # Two observations fit exactly: no residual degrees of freedom for the SE
+        if n == 2:
+            return slope, np.nan
+
         # Compute standard error of slope
         y_hat = mean_y + slope * (time_norm - mean_t)
         residuals = outcome_values - y_hat
-- 
2.43.0


From cf40173c6df67e126716d8808e2d990d02de9597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:32 +0000
Subject: [PATCH 48/74] fix: a zero coefficient with a zero standard error has
 no test statistic

---
 diff_diff/linalg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/diff_diff/linalg.py b/diff_diff/linalg.py
index f5764d8..4fe8db1 100644
--- a/diff_diff/linalg.py
+++ b/diff_diff/linalg.py
@@ -1299,13 +1299,14 @@ class LinearRegression:
                 "This may indicate perfect multicollinearity or numerical issues.",
                 UserWarning,
             )
-            # Use inf for t-stat when SE is zero (perfect fit scenario)
+            # Use inf for t-stat when SE is zero (perfect fit scenario);
+            # 0/0 is undefined, not a null effect
             if coef > 0:
                 t_stat = np.inf
             elif coef < 0:
                 t_stat = -np.inf
             else:
-                t_stat = 0.0
+                t_stat = np.nan
         else:
             t_stat = coef / se
 
-- 
2.43.0


From c2494b9ac727aef3eb4b6f793539ee33c50c37fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 49/74] fix: within transformation replaces existing columns
 that carry the names of the demeaned ones

---
 diff_diff/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 41b9bac..bb8e186 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -1552,8 +1552,8 @@ def within_transform(
                 float(data[var].abs().max()), unit_codes, time_codes,
             )
 
-        # Add all columns at once
+        # Add all columns at once, replacing columns of the same name
         demeaned_df = pd.DataFrame(demeaned_data, index=data.index)
-        data = pd.concat([data, demeaned_df], axis=1)
+        data = pd.concat([data.drop(columns=list(demeaned_data), errors="ignore"), demeaned_df], axis=1)
 
     return data
-- 
2.43.0


From 9f7f604b78a5c25b2ec03d862c145011fae44beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 50/74] fix: Callaway-Sant'Anna keeps an outcome or covariate
 that is named first_treat

---
 diff_diff/staggered.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index cbaa915..9bda467 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -638,10 +638,6 @@ class CallawaySantAnna(
         df[time] = pd.to_numeric(df[time])
         df[first_treat] = pd.to_numeric(df[first_treat])
 
-        # Standardize the first_treat column name for internal use
-        # This avoids hardcoding column names in internal methods
-        df['first_treat'] = df[first_treat]
-
         # Identify groups and time periods
         time_periods = sorted(df[time].unique())
         treatment_groups = sorted([g for g in df[first_treat].unique() if g > 0 and np.isfinite(g)])
@@ -667,6 +663,10 @@ class CallawaySantAnna(
             covariates, time_periods, treatment_groups
         )
 
+        # Standardize the first_treat column name for internal use (aggregation).
+        # Only now: the user's own 'first_treat' column may be the outcome or a covariate
+        df['first_treat'] = df[first_treat]
+
         # Compute ATT(g,t) for each group-time combination
         group_time_effects = {}
         influence_func_info = {}  # Store influence functions for bootstrap
-- 
2.43.0


From 676abfcb070bb6e27d88056c6e2229b73f476ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 51/74] fix: unsigned period and cohort labels do not wrap
 around in relative time

---
 diff_diff/staggered.py   | 4 ++++
 diff_diff/sun_abraham.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index 9bda467..3d0874c 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -637,6 +637,10 @@ class CallawaySantAnna(
         # Ensure numeric types
         df[time] = pd.to_numeric(df[time])
         df[first_treat] = pd.to_numeric(df[first_treat])
+        # Unsigned labels would wrap around when periods are subtracted
+        for col in (time, first_treat):
+            if df[col].dtype.kind == "u":
+                df[col] = df[col].astype("int64")
 
         # Identify groups and time periods
         time_periods = sorted(df[time].unique())
diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index ed61f17..a3b8ada 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -485,6 +485,10 @@ class SunAbraham:
         # Ensure numeric types
         df[time] = pd.to_numeric(df[time])
         df[first_treat] = pd.to_numeric(df[first_treat])
+        # Unsigned labels would wrap around when periods are subtracted
+        for col in (time, first_treat):
+            if df[col].dtype.kind == "u":
+                df[col] = df[col].astype("int64")
 
         # Identify groups and time periods
         time_periods = sorted(df[time].unique())
-- 
2.43.0


From 782fde6b068bf17c472eb37b773749baf89f63da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 52/74] fix: Callaway-Sant'Anna differences integer outcomes
 without overflow

---
 diff_diff/staggered.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index 3d0874c..86d48ec 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -406,7 +406,8 @@ class CallawaySantAnna(
         outcome_wide = df.pivot(index=unit, columns=time, values=outcome)
         # Reindex to ensure all units are present (handles unbalanced panels)
         outcome_wide = outcome_wide.reindex(all_units)
-        outcome_matrix = outcome_wide.values  # Shape: (n_units, n_periods)
+        # Floats: differences of small or unsigned integers would overflow
+        outcome_matrix = outcome_wide.to_numpy(dtype=float, na_value=np.nan)  # Shape: (n_units, n_periods)
         period_to_col = {t: i for i, t in enumerate(outcome_wide.columns)}
 
         # Pre-compute cohort masks (boolean arrays)
-- 
2.43.0


From da78eea0f9e079cb5c921b028b198c3635cd907b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 53/74] fix: Sun-Abraham bootstrap draws do not depend on the
 order of the rows

---
 diff_diff/sun_abraham.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index a3b8ada..adbcd3a 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -1000,8 +1000,9 @@ class SunAbraham:
 
         rng = np.random.default_rng(self.seed)
 
-        # Get unique units
-        all_units = df[unit].unique()
+        # Get unique units, in sorted order so that the draws of a seed
+        # do not depend on the order of the rows
+        all_units = df.groupby(unit, observed=True).size().index.values
         n_units = len(all_units)
 
         # Store bootstrap samples
-- 
2.43.0


From f2fd7c372f46f533360bc3ca3b066a09b3b7fe73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 54/74] fix: outcome changes of unsigned outcomes do not wrap
 around

---
 diff_diff/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index bb8e186..d8f37eb 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -824,7 +824,10 @@ def _compute_outcome_changes(
     if unit is not None:
         # Unit-level changes: compute change for each unit across periods
         data_sorted = data.sort_values([unit, time])
-        data_sorted["_outcome_change"] = data_sorted.groupby(unit)[outcome].diff()
+        # Floats: differences of unsigned integers would wrap around
+        data_sorted["_outcome_change"] = (
+            data_sorted[outcome].astype(float).groupby(data_sorted[unit]).diff()
+        )
 
         # Remove NaN from first period of each unit
         changes_data = data_sorted.dropna(subset=["_outcome_change"])
-- 
2.43.0


From 4318d19e43519d76c163ab1e9bd532eee3e24f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:26 +0000
Subject: [PATCH 55/74] fix: TROP accepts outcomes of nullable numeric types

---
 diff_diff/trop.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index 5051bf1..203f144 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -1269,7 +1269,7 @@ class TROP:
         Y = (
             data.pivot(index=time, columns=unit, values=outcome)
             .reindex(index=all_periods, columns=all_units)
-            .values
+            .to_numpy(dtype=float, na_value=np.nan)
         )
 
         D_raw = (
@@ -1603,7 +1603,7 @@ class TROP:
                 Y = (
                     data.pivot(index=time, columns=unit, values=outcome)
                     .reindex(index=all_periods, columns=all_units)
-                    .values
+                    .to_numpy(dtype=float, na_value=np.nan)
                 )
                 D = (
                     data.pivot(index=time, columns=unit, values=treatment)
@@ -1720,7 +1720,7 @@ class TROP:
         Y = (
             data.pivot(index=time, columns=unit, values=outcome)
             .reindex(index=all_periods, columns=all_units)
-            .values
+            .to_numpy(dtype=float, na_value=np.nan)
         )
         D = (
             data.pivot(index=time, columns=unit, values=treatment)
@@ -1901,7 +1901,7 @@ class TROP:
         Y = (
             data.pivot(index=time, columns=unit, values=outcome)
             .reindex(index=all_periods, columns=all_units)
-            .values
+            .to_numpy(dtype=float, na_value=np.nan)
         )
 
         # For D matrix, track missing values BEFORE fillna to support unbalanced panels
@@ -3046,7 +3046,7 @@ class TROP:
         Y = (
             data.pivot(index=time, columns=unit, values=outcome)
             .reindex(index=all_periods, columns=all_units)
-            .values
+            .to_numpy(dtype=float, na_value=np.nan)
         )
         D = (
             data.pivot(index=time, columns=unit, values=treatment)
-- 
2.43.0


From 62213c70d1e5668371774ee3922c959d7b8e7f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:57 +0000
Subject: [PATCH 56/74] fix: set_params refuses unknown and invalid values
 without changing anything and equals constructing with them

---
 diff_diff/bacon.py         |  9 ++-------
 diff_diff/estimators.py    |  7 ++-----
 diff_diff/honest_did.py    |  8 ++------
 diff_diff/pretrends.py     |  9 ++-------
 diff_diff/staggered.py     | 12 +++++++-----
 diff_diff/sun_abraham.py   |  7 ++-----
 diff_diff/synthetic_did.py |  7 ++-----
 diff_diff/triple_diff.py   |  7 ++-----
 diff_diff/trop.py          |  8 ++------
 diff_diff/utils.py         | 34 ++++++++++++++++++++++++++++++++++
 10 files changed, 57 insertions(+), 51 deletions(-)

diff --git a/diff_diff/bacon.py b/diff_diff/bacon.py
index 4fce246..2068fb0 100644
--- a/diff_diff/bacon.py
+++ b/diff_diff/bacon.py
@@ -17,6 +17,7 @@ from typing import Any, Dict, List, Optional, Tuple
 import numpy as np
 import pandas as pd
 
+from diff_diff.utils import update_params
 from diff_diff.utils import within_transform as _within_transform_util
 
 
@@ -876,13 +877,7 @@ class BaconDecomposition:
 
     def set_params(self, **params) -> "BaconDecomposition":
         """Set estimator parameters (sklearn-compatible)."""
-        if "weights" in params:
-            if params["weights"] not in ("approximate", "exact"):
-                raise ValueError(
-                    f"weights must be 'approximate' or 'exact', "
-                    f"got '{params['weights']}'"
-                )
-            self.weights = params["weights"]
+        update_params(self, params)
         return self
 
     def summary(self) -> str:
diff --git a/diff_diff/estimators.py b/diff_diff/estimators.py
index 4e1faac..2114ca0 100644
--- a/diff_diff/estimators.py
+++ b/diff_diff/estimators.py
@@ -29,6 +29,7 @@ from diff_diff.utils import (
     compute_confidence_interval,
     compute_p_value,
     demean_by_group,
+    update_params,
     validate_binary,
     wild_bootstrap_se,
 )
@@ -621,11 +622,7 @@ class DifferenceInDifferences:
         -------
         self
         """
-        for key, value in params.items():
-            if hasattr(self, key):
-                setattr(self, key, value)
-            else:
-                raise ValueError(f"Unknown parameter: {key}")
+        update_params(self, params)
         return self
 
     def summary(self) -> str:
diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index 941d4e2..64605f8 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -27,6 +27,7 @@ from scipy import optimize, stats
 from diff_diff.results import (
     MultiPeriodDiDResults,
 )
+from diff_diff.utils import update_params
 
 # =============================================================================
 # Delta Restriction Classes
@@ -1045,12 +1046,7 @@ class HonestDiD:
 
     def set_params(self, **params) -> "HonestDiD":
         """Set parameters for this estimator."""
-        for key, value in params.items():
-            if hasattr(self, key):
-                setattr(self, key, value)
-            else:
-                raise ValueError(f"Invalid parameter: {key}")
-        self._validate_params()
+        update_params(self, params)
         return self
 
     def fit(
diff --git a/diff_diff/pretrends.py b/diff_diff/pretrends.py
index a7a993a..8527b7f 100644
--- a/diff_diff/pretrends.py
+++ b/diff_diff/pretrends.py
@@ -33,6 +33,7 @@ import pandas as pd
 from scipy import stats, optimize
 
 from diff_diff.results import MultiPeriodDiDResults
+from diff_diff.utils import update_params
 
 
 # =============================================================================
@@ -486,13 +487,7 @@ class PreTrendsPower:
 
     def set_params(self, **params) -> "PreTrendsPower":
         """Set parameters for this estimator."""
-        for key, value in params.items():
-            if key == "power":
-                self.target_power = value
-            elif hasattr(self, key):
-                setattr(self, key, value)
-            else:
-                raise ValueError(f"Invalid parameter: {key}")
+        update_params(self, params)
         return self
 
     def _get_violation_weights(self, n_pre: int) -> np.ndarray:
diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index 86d48ec..9be9f01 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -16,6 +16,7 @@ from diff_diff.linalg import solve_ols
 from diff_diff.utils import (
     compute_confidence_interval,
     compute_p_value,
+    update_params,
 )
 
 # Import from split modules
@@ -1106,11 +1107,12 @@ class CallawaySantAnna(
 
     def set_params(self, **params) -> "CallawaySantAnna":
         """Set estimator parameters (sklearn-compatible)."""
-        for key, value in params.items():
-            if hasattr(self, key):
-                setattr(self, key, value)
-            else:
-                raise ValueError(f"Unknown parameter: {key}")
+        current = self.get_params()
+        # The deprecated name is an alias of bootstrap_weights
+        del current["bootstrap_weight_type"]
+        if "bootstrap_weight_type" in params and "bootstrap_weights" not in params:
+            del current["bootstrap_weights"]
+        update_params(self, params, current)
         return self
 
     def summary(self) -> str:
diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index adbcd3a..4ffeb33 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -21,6 +21,7 @@ from diff_diff.results import _get_significance_stars
 from diff_diff.utils import (
     compute_confidence_interval,
     compute_p_value,
+    update_params,
     within_transform as _within_transform_util,
 )
 
@@ -1212,11 +1213,7 @@ class SunAbraham:
 
     def set_params(self, **params) -> "SunAbraham":
         """Set estimator parameters (sklearn-compatible)."""
-        for key, value in params.items():
-            if hasattr(self, key):
-                setattr(self, key, value)
-            else:
-                raise ValueError(f"Unknown parameter: {key}")
+        update_params(self, params)
         return self
 
     def summary(self) -> str:
diff --git a/diff_diff/synthetic_did.py b/diff_diff/synthetic_did.py
index 917c87c..994f076 100644
--- a/diff_diff/synthetic_did.py
+++ b/diff_diff/synthetic_did.py
@@ -18,6 +18,7 @@ from diff_diff.utils import (
     compute_sdid_estimator,
     compute_synthetic_weights,
     compute_time_weights,
+    update_params,
     validate_binary,
 )
 
@@ -748,9 +749,5 @@ class SyntheticDiD(DifferenceInDifferences):
 
     def set_params(self, **params) -> "SyntheticDiD":
         """Set estimator parameters."""
-        for key, value in params.items():
-            if hasattr(self, key):
-                setattr(self, key, value)
-            else:
-                raise ValueError(f"Unknown parameter: {key}")
+        update_params(self, params)
         return self
diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index afb6682..b7d7aba 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -42,6 +42,7 @@ from diff_diff.results import _get_significance_stars
 from diff_diff.utils import (
     compute_confidence_interval,
     compute_p_value,
+    update_params,
 )
 
 # =============================================================================
@@ -1142,11 +1143,7 @@ class TripleDifference:
         -------
         self
         """
-        for key, value in params.items():
-            if hasattr(self, key):
-                setattr(self, key, value)
-            else:
-                raise ValueError(f"Unknown parameter: {key}")
+        update_params(self, params)
         return self
 
     def summary(self) -> str:
diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index 203f144..772b76c 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -42,7 +42,7 @@ from diff_diff._backend import (
     _rust_bootstrap_trop_variance_joint,
 )
 from diff_diff.results import _get_significance_stars
-from diff_diff.utils import compute_confidence_interval, compute_p_value
+from diff_diff.utils import compute_confidence_interval, compute_p_value, update_params
 
 
 # Sentinel value for "disabled" mode in LOOCV parameter search
@@ -3108,11 +3108,7 @@ class TROP:
 
     def set_params(self, **params) -> "TROP":
         """Set estimator parameters."""
-        for key, value in params.items():
-            if hasattr(self, key):
-                setattr(self, key, value)
-            else:
-                raise ValueError(f"Unknown parameter: {key}")
+        update_params(self, params)
         return self
 
 
diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index d8f37eb..6d20dd3 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -114,6 +114,40 @@ def compute_confidence_interval(
     return (lower, upper)
 
 
+def update_params(
+    estimator: Any, params: Dict[str, Any], current: Optional[Dict[str, Any]] = None
+) -> None:
+    """
+    Set estimator parameters: all of them, with the effect of constructing with them, or none.
+
+    Parameters
+    ----------
+    estimator : object
+        Estimator whose public attributes are its constructor parameters.
+    params : dict
+        Parameters to change.
+    current : dict, optional
+        Constructor arguments that describe the estimator as it is. Defaults to
+        ``estimator.get_params()``.
+
+    Raises
+    ------
+    ValueError
+        If a parameter is unknown or the constructor rejects its value; the
+        estimator is unchanged.
+    """
+    known = estimator.get_params()
+    for key in params:
+        if key not in known:
+            raise ValueError(f"Unknown parameter: {key}")
+    if current is None:
+        current = known
+    updated = type(estimator)(**{**current, **params})
+    for name, value in vars(updated).items():
+        if not name.startswith("_") and not name.endswith("_"):
+            setattr(estimator, name, value)
+
+
 def compute_p_value(t_stat: float, df: Optional[int] = None, two_sided: bool = True) -> float:
     """
     Compute p-value for a t-statistic.
-- 
2.43.0


From a96d7dbdde429962ee122dca2aeef4f0a78393ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:21 +0000
Subject: [PATCH 57/74] fix: a crash while caching a dataset never leaves a
 partial cache file

---
 diff_diff/datasets.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/diff_diff/datasets.py b/diff_diff/datasets.py
index d676a5c..d143062 100644
--- a/diff_diff/datasets.py
+++ b/diff_diff/datasets.py
@@ -8,6 +8,8 @@ All datasets are downloaded from public sources and cached locally
 for subsequent use.
 """
 
+import os
+import tempfile
 from io import StringIO
 from pathlib import Path
 from typing import Dict
@@ -28,6 +30,18 @@ def _get_cache_path(name: str) -> Path:
     return _CACHE_DIR / f"{name}.csv"
 
 
+def _write_cache(cache_path: Path, content: str) -> None:
+    """Write a cache file so that it is either complete or not there at all."""
+    fd, tmp_name = tempfile.mkstemp(dir=cache_path.parent, prefix=".", suffix=".tmp")
+    try:
+        with os.fdopen(fd, "w", encoding="utf-8") as f:
+            f.write(content)
+        os.replace(tmp_name, cache_path)
+    except BaseException:
+        os.unlink(tmp_name)
+        raise
+
+
 def _download_with_cache(
     url: str,
     name: str,
@@ -42,7 +56,7 @@ def _download_with_cache(
     try:
         with urlopen(url, timeout=30) as response:
             content = response.read().decode("utf-8")
-            cache_path.write_text(content)
+            _write_cache(cache_path, content)
             return content
     except (HTTPError, URLError) as e:
         if cache_path.exists():
-- 
2.43.0


From 7bdd375ff54ed163dafb7877765c36217464786f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:41 +0000
Subject: [PATCH 58/74] fix: dataset loading falls back on any failed download
 or unusable cache

---
 diff_diff/datasets.py | 59 +++++++++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 16 deletions(-)

diff --git a/diff_diff/datasets.py b/diff_diff/datasets.py
index d143062..36f2fd2 100644
--- a/diff_diff/datasets.py
+++ b/diff_diff/datasets.py
@@ -10,10 +10,10 @@ for subsequent use.
 
 import os
 import tempfile
+from http.client import HTTPException
 from io import StringIO
 from pathlib import Path
-from typing import Dict
-from urllib.error import HTTPError, URLError
+from typing import Dict, Optional
 from urllib.request import urlopen
 
 import numpy as np
@@ -26,20 +26,41 @@ _CACHE_DIR = Path.home() / ".cache" / "diff_diff" / "datasets"
 
 def _get_cache_path(name: str) -> Path:
     """Get the cache path for a dataset."""
-    _CACHE_DIR.mkdir(parents=True, exist_ok=True)
     return _CACHE_DIR / f"{name}.csv"
 
 
+def _read_cache(cache_path: Path) -> Optional[str]:
+    """Read a cached file; None if there is none or it cannot be used."""
+    try:
+        content = cache_path.read_text(encoding="utf-8")
+    except (OSError, UnicodeDecodeError):
+        return None
+    return content if content.strip() else None
+
+
 def _write_cache(cache_path: Path, content: str) -> None:
-    """Write a cache file so that it is either complete or not there at all."""
-    fd, tmp_name = tempfile.mkstemp(dir=cache_path.parent, prefix=".", suffix=".tmp")
+    """
+    Write a cache file so that it is either complete or not there at all.
+
+    A cache that cannot be written is not an error: the data is downloaded
+    again next time.
+    """
+    tmp_name = None
     try:
+        cache_path.parent.mkdir(parents=True, exist_ok=True)
+        fd, tmp_name = tempfile.mkstemp(dir=cache_path.parent, prefix=".", suffix=".tmp")
         with os.fdopen(fd, "w", encoding="utf-8") as f:
             f.write(content)
         os.replace(tmp_name, cache_path)
-    except BaseException:
-        os.unlink(tmp_name)
-        raise
+        tmp_name = None
+    except OSError:
+        pass
+    finally:
+        if tmp_name is not None:
+            try:
+                os.unlink(tmp_name)
+            except OSError:
+                pass
 
 
 def _download_with_cache(
@@ -49,30 +70,36 @@ def _download_with_cache(
 ) -> str:
     """Download a file and cache it locally."""
     cache_path = _get_cache_path(name)
+    cached = _read_cache(cache_path)
 
-    if cache_path.exists() and not force_download:
-        return cache_path.read_text()
+    if cached is not None and not force_download:
+        return cached
 
     try:
         with urlopen(url, timeout=30) as response:
             content = response.read().decode("utf-8")
-            _write_cache(cache_path, content)
-            return content
-    except (HTTPError, URLError) as e:
-        if cache_path.exists():
+        if not content.strip():
+            raise HTTPException("empty response")
+    except (OSError, HTTPException, UnicodeDecodeError) as e:
+        # Failed connections, timeouts, interrupted or undecodable responses
+        if cached is not None:
             # Use cached version if download fails
-            return cache_path.read_text()
+            return cached
         raise RuntimeError(
             f"Failed to download dataset '{name}' from {url}: {e}\n"
             "Check your internet connection or try again later."
         ) from e
 
+    _write_cache(cache_path, content)
+    return content
+
 
 def clear_cache() -> None:
     """Clear the local dataset cache."""
     if _CACHE_DIR.exists():
         for f in _CACHE_DIR.glob("*.csv"):
-            f.unlink()
+            if f.is_file():
+                f.unlink(missing_ok=True)
         print(f"Cleared cache at {_CACHE_DIR}")
 
 
-- 
2.43.0


From fc8c69226ff6bc31374873a38d25ca30e738840f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:44 +0000
Subject: [PATCH 59/74] fix: built-in datasets leave the global random state
 alone

---
 diff_diff/datasets.py | 58 +++++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/diff_diff/datasets.py b/diff_diff/datasets.py
index 36f2fd2..54dfa7b 100644
--- a/diff_diff/datasets.py
+++ b/diff_diff/datasets.py
@@ -201,7 +201,7 @@ def _construct_card_krueger_data() -> pd.DataFrame:
     Uses aggregated data that preserves the key DiD estimates.
     """
     # Representative sample based on published summary statistics
-    np.random.seed(1994)  # Card-Krueger publication year, for reproducibility
+    rng = np.random.RandomState(1994)  # Card-Krueger publication year, for reproducibility
 
     stores = []
     store_id = 1
@@ -212,8 +212,8 @@ def _construct_card_krueger_data() -> pd.DataFrame:
     for chain in ["bk", "kfc", "roys", "wendys"]:
         n_stores = {"bk": 85, "kfc": 62, "roys": 48, "wendys": 36}[chain]
         for _ in range(n_stores):
-            emp_pre = np.random.normal(20.44, 8.5)
-            emp_post = emp_pre + np.random.normal(0.59, 7.0)  # Change ≈ 0.59
+            emp_pre = rng.normal(20.44, 8.5)
+            emp_post = emp_pre + rng.normal(0.59, 7.0)  # Change ≈ 0.59
             emp_pre = max(0, emp_pre)
             emp_post = max(0, emp_post)
 
@@ -223,8 +223,8 @@ def _construct_card_krueger_data() -> pd.DataFrame:
                 "chain": chain,
                 "emp_pre": round(emp_pre, 1),
                 "emp_post": round(emp_post, 1),
-                "wage_pre": round(np.random.normal(4.61, 0.35), 2),
-                "wage_post": round(np.random.normal(5.08, 0.12), 2),
+                "wage_pre": round(rng.normal(4.61, 0.35), 2),
+                "wage_post": round(rng.normal(5.08, 0.12), 2),
             })
             store_id += 1
 
@@ -234,8 +234,8 @@ def _construct_card_krueger_data() -> pd.DataFrame:
     for chain in ["bk", "kfc", "roys", "wendys"]:
         n_stores = {"bk": 30, "kfc": 20, "roys": 14, "wendys": 15}[chain]
         for _ in range(n_stores):
-            emp_pre = np.random.normal(23.33, 8.2)
-            emp_post = emp_pre + np.random.normal(-2.16, 7.0)  # Change ≈ -2.16
+            emp_pre = rng.normal(23.33, 8.2)
+            emp_post = emp_pre + rng.normal(-2.16, 7.0)  # Change ≈ -2.16
             emp_pre = max(0, emp_pre)
             emp_post = max(0, emp_post)
 
@@ -245,8 +245,8 @@ def _construct_card_krueger_data() -> pd.DataFrame:
                 "chain": chain,
                 "emp_pre": round(emp_pre, 1),
                 "emp_post": round(emp_post, 1),
-                "wage_pre": round(np.random.normal(4.63, 0.35), 2),
-                "wage_post": round(np.random.normal(4.62, 0.35), 2),
+                "wage_pre": round(rng.normal(4.63, 0.35), 2),
+                "wage_post": round(rng.normal(4.62, 0.35), 2),
             })
             store_id += 1
 
@@ -346,7 +346,7 @@ def _construct_castle_doctrine_data() -> pd.DataFrame:
 
     This is a fallback when the online source is unavailable.
     """
-    np.random.seed(2013)  # Cheng-Hoekstra publication year, for reproducibility
+    rng = np.random.RandomState(2013)  # Cheng-Hoekstra publication year, for reproducibility
 
     # States and their Castle Doctrine adoption years
     # 0 = never adopted during the study period
@@ -369,9 +369,9 @@ def _construct_castle_doctrine_data() -> pd.DataFrame:
     data = []
     for state, first_treat in state_adoption.items():
         # State-level baseline characteristics
-        base_homicide = np.random.uniform(3.0, 8.0)
-        pop = np.random.randint(500000, 20000000)
-        base_income = np.random.uniform(30000, 50000)
+        base_homicide = rng.uniform(3.0, 8.0)
+        pop = rng.randint(500000, 20000000)
+        base_income = rng.uniform(30000, 50000)
 
         for year in range(2000, 2011):
             # Time trend
@@ -383,15 +383,15 @@ def _construct_castle_doctrine_data() -> pd.DataFrame:
             else:
                 treatment_effect = 0
 
-            homicide = max(0, base_homicide + time_effect + treatment_effect + np.random.normal(0, 0.5))
+            homicide = max(0, base_homicide + time_effect + treatment_effect + rng.normal(0, 0.5))
 
             data.append({
                 "state": state,
                 "year": year,
                 "first_treat": first_treat,
                 "homicide_rate": round(homicide, 2),
-                "population": pop + year * 10000 + np.random.randint(-5000, 5000),
-                "income": round(base_income * (1 + 0.02 * (year - 2000)) + np.random.normal(0, 1000), 0),
+                "population": pop + year * 10000 + rng.randint(-5000, 5000),
+                "income": round(base_income * (1 + 0.02 * (year - 2000)) + rng.normal(0, 1000), 0),
                 "treated": int(first_treat > 0 and year >= first_treat),
             })
 
@@ -495,7 +495,7 @@ def _construct_divorce_laws_data() -> pd.DataFrame:
 
     This is a fallback when the online source is unavailable.
     """
-    np.random.seed(2006)  # Stevenson-Wolfers publication year, for reproducibility
+    rng = np.random.RandomState(2006)  # Stevenson-Wolfers publication year, for reproducibility
 
     # State adoption years for unilateral divorce (from Wolfers 2006)
     # 0 = never adopted or adopted before 1968
@@ -518,9 +518,9 @@ def _construct_divorce_laws_data() -> pd.DataFrame:
     data = []
     for state, first_treat in state_adoption.items():
         # State-level baselines
-        base_divorce = np.random.uniform(2.0, 6.0)
-        base_lfp = np.random.uniform(0.35, 0.55)
-        base_suicide = np.random.uniform(4.0, 8.0)
+        base_divorce = rng.uniform(2.0, 6.0)
+        base_lfp = rng.uniform(0.35, 0.55)
+        base_suicide = rng.uniform(4.0, 8.0)
 
         for year in range(1968, 1989):
             # Time trends
@@ -553,11 +553,11 @@ def _construct_divorce_laws_data() -> pd.DataFrame:
                 "year": year,
                 "first_treat": first_treat if first_treat >= 1968 else 0,
                 "divorce_rate": round(max(0, base_divorce + time_trend + divorce_effect +
-                                          np.random.normal(0, 0.3)), 2),
+                                          rng.normal(0, 0.3)), 2),
                 "female_lfp": round(min(1, max(0, base_lfp + 0.01 * (year - 1968) +
-                                               lfp_effect + np.random.normal(0, 0.02))), 3),
+                                               lfp_effect + rng.normal(0, 0.02))), 3),
                 "suicide_rate": round(max(0, base_suicide + suicide_effect +
-                                          np.random.normal(0, 0.5)), 2),
+                                          rng.normal(0, 0.5)), 2),
             })
 
     df = pd.DataFrame(data)
@@ -642,7 +642,7 @@ def _construct_mpdta_data() -> pd.DataFrame:
 
     This replicates the simulated dataset used in Callaway-Sant'Anna tutorials.
     """
-    np.random.seed(2021)  # Callaway-Sant'Anna publication year, for reproducibility
+    rng = np.random.RandomState(2021)  # Callaway-Sant'Anna publication year, for reproducibility
 
     n_counties = 500
     years = [2003, 2004, 2005, 2006, 2007]
@@ -653,9 +653,9 @@ def _construct_mpdta_data() -> pd.DataFrame:
 
     data = []
     for county in range(1, n_counties + 1):
-        first_treat = np.random.choice(cohorts, p=cohort_probs)
-        base_lpop = np.random.normal(12.0, 1.0)
-        base_lemp = base_lpop - np.random.uniform(1.5, 2.5)
+        first_treat = rng.choice(cohorts, p=cohort_probs)
+        base_lpop = rng.normal(12.0, 1.0)
+        base_lemp = base_lpop - rng.uniform(1.5, 2.5)
 
         for year in years:
             time_effect = (year - 2003) * 0.02
@@ -674,8 +674,8 @@ def _construct_mpdta_data() -> pd.DataFrame:
             data.append({
                 "countyreal": county,
                 "year": year,
-                "lpop": round(base_lpop + np.random.normal(0, 0.05), 4),
-                "lemp": round(base_lemp + time_effect + te + np.random.normal(0, 0.02), 4),
+                "lpop": round(base_lpop + rng.normal(0, 0.05), 4),
+                "lemp": round(base_lemp + time_effect + te + rng.normal(0, 0.02), 4),
                 "first_treat": first_treat,
                 "treat": int(first_treat > 0),
             })
-- 
2.43.0


From f81fbab83389c59cd24f55d23050c44ac8266223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:02 +0000
Subject: [PATCH 60/74] fix: the pure Python backend setting does not load the
 accelerated module

---
 diff_diff/_backend.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/diff_diff/_backend.py b/diff_diff/_backend.py
index 60bf853..055e4b2 100644
--- a/diff_diff/_backend.py
+++ b/diff_diff/_backend.py
@@ -17,6 +17,8 @@ _backend_env = os.environ.get('DIFF_DIFF_BACKEND', 'auto').lower()
 
 # Try to import Rust backend for accelerated operations
 try:
+    if _backend_env == 'python':
+        raise ImportError("pure Python backend requested")
     from diff_diff._rust_backend import (
         generate_bootstrap_weights_batch as _rust_bootstrap_weights,
         compute_synthetic_weights as _rust_synthetic_weights,
-- 
2.43.0


From a9aedec6a1259a644933d99713912066dbb3c706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:40 +0000
Subject: [PATCH 61/74] fix: missing cluster identifiers are refused and
 identifiers of any type are accepted; an unchecked solve falls back when the
 accelerated variance is missing

---
 diff_diff/linalg.py      | 20 ++++++++++++++++----
 diff_diff/triple_diff.py |  4 ++++
 diff_diff/utils.py       |  4 ++++
 3 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/diff_diff/linalg.py b/diff_diff/linalg.py
index 4fe8db1..ddd0968 100644
--- a/diff_diff/linalg.py
+++ b/diff_diff/linalg.py
@@ -71,9 +71,16 @@ def _factorize_cluster_ids(cluster_ids: np.ndarray) -> np.ndarray:
     -------
     np.ndarray
         Integer cluster codes (dtype int64) suitable for Rust backend.
+
+    Raises
+    ------
+    ValueError
+        If any cluster identifier is missing.
     """
     # Use pandas factorize for efficient conversion of any dtype
-    codes, _ = pd.factorize(cluster_ids)
+    codes, _ = pd.factorize(np.asarray(cluster_ids))
+    if np.any(codes < 0):
+        raise ValueError("Cluster identifiers contain missing values")
     return codes.astype(np.int64)
 
 
@@ -301,6 +308,9 @@ def _solve_ols_rust(
         fall back to Python backend.
     """
     # Convert cluster_ids to int64 for Rust (handles string/categorical IDs)
+    # They only enter the variance
+    if not return_vcov:
+        cluster_ids = None
     if cluster_ids is not None:
         cluster_ids = _factorize_cluster_ids(cluster_ids)
 
@@ -489,7 +499,9 @@ def solve_ols(
                 return_vcov=return_vcov,
                 return_fitted=return_fitted,
             )
-            if result is not None:
+            if result is not None and not (
+                return_vcov and result[-1] is not None and np.any(np.isnan(result[-1]))
+            ):
                 return result
             # Fall through to NumPy on numerical instability
         # Fall through to Python without rank check (user guarantees full rank)
@@ -759,7 +771,7 @@ def compute_robust_vcov(
 
         cluster_ids_int = None
         if cluster_ids is not None:
-            cluster_ids_int = pd.factorize(cluster_ids)[0].astype(np.int64)
+            cluster_ids_int = _factorize_cluster_ids(cluster_ids)
 
         try:
             return _rust_compute_robust_vcov(X, residuals, cluster_ids_int)
@@ -829,7 +841,7 @@ def _compute_robust_vcov_numpy(
         meat = X.T @ (X * u_squared[:, np.newaxis])
     else:
         # Cluster-robust standard errors (vectorized via groupby)
-        cluster_ids = np.asarray(cluster_ids)
+        cluster_ids = _factorize_cluster_ids(cluster_ids)
         unique_clusters = np.unique(cluster_ids)
         n_clusters = len(unique_clusters)
 
diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index b7d7aba..86e8d0f 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -580,6 +580,10 @@ class TripleDifference:
             if self.cluster not in data.columns:
                 raise ValueError(f"Cluster column '{self.cluster}' not found in data")
             cluster_ids = data[self.cluster].values
+            if np.any(pd.isna(cluster_ids)):
+                raise ValueError(
+                    f"Cluster column '{self.cluster}' contains missing values"
+                )
             if len(pd.unique(cluster_ids)) < 2:
                 raise ValueError("Need at least 2 clusters for cluster-robust SEs")
 
diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 6d20dd3..05f1dc8 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -441,6 +441,10 @@ def wild_bootstrap_se(
             f"weight_type must be one of {valid_weight_types}, got '{weight_type}'"
         )
 
+    # Codes in sorted order of the identifiers, whatever their type
+    cluster_ids, _ = pd.factorize(np.asarray(cluster_ids), sort=True)
+    if np.any(cluster_ids < 0):
+        raise ValueError("Cluster identifiers contain missing values")
     unique_clusters = np.unique(cluster_ids)
     n_clusters = len(unique_clusters)
 
-- 
2.43.0


From e60cc6423fc767185362068f534cb2c1acea575a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:13 +0000
Subject: [PATCH 62/74] fix: synthetic control weights reach the documented
 optimum whatever the level of the outcomes

---
 diff_diff/utils.py | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 05f1dc8..2b2ecef 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -21,7 +21,7 @@ from diff_diff._backend import (
 )
 
 # Numerical constants for optimization algorithms
-_OPTIMIZATION_MAX_ITER = 1000  # Maximum iterations for weight optimization
+_OPTIMIZATION_MAX_ITER = 10000  # Maximum iterations for weight optimization
 _OPTIMIZATION_TOL = 1e-8  # Convergence tolerance for optimization
 _NUMERICAL_EPS = 1e-10  # Small constant to prevent division by zero
 
@@ -1102,6 +1102,12 @@ def compute_synthetic_weights(
     if n_control == 1:
         return np.asarray([1.0])
 
+    # The weights sum to 1, so the level of a period drops out of the objective;
+    # left in, it makes the problem too badly scaled to be solved
+    period_means = np.mean(Y_control, axis=1)
+    Y_control = Y_control - period_means[:, np.newaxis]
+    Y_treated = Y_treated - period_means
+
     # Use Rust backend if available
     if HAS_RUST_BACKEND:
         Y_control = np.ascontiguousarray(Y_control, dtype=np.float64)
@@ -1151,20 +1157,34 @@ def _compute_synthetic_weights_numpy(
     # Project onto probability simplex
     step_size = 1.0 / (np.linalg.norm(H, 2) + _NUMERICAL_EPS)
 
+    # Momentum, restarted whenever it points uphill: plain steps do not get
+    # near the optimum when units differ in level much more than over time
+    point = weights
+    momentum = 1.0
+
     for _ in range(_OPTIMIZATION_MAX_ITER):
         weights_old = weights.copy()
 
         # Gradient step: minimize ||Y - Y_control @ w||^2
-        grad = H @ weights - f
-        weights = weights - step_size * grad
-
+        grad = H @ point - f
         # Project onto simplex (sum to 1, non-negative)
-        weights = _project_simplex(weights)
+        weights = _project_simplex(point - step_size * grad)
 
         # Check convergence
-        if np.linalg.norm(weights - weights_old) < _OPTIMIZATION_TOL:
+        if (
+            np.linalg.norm(weights - weights_old) < _OPTIMIZATION_TOL
+            and np.linalg.norm(weights - point) < _OPTIMIZATION_TOL
+        ):
             break
 
+        if (point - weights) @ (weights - weights_old) > 0:
+            momentum = 1.0
+            point = weights
+        else:
+            next_momentum = (1.0 + np.sqrt(1.0 + 4.0 * momentum**2)) / 2.0
+            point = weights + (momentum - 1.0) / next_momentum * (weights - weights_old)
+            momentum = next_momentum
+
     return weights
 
 
-- 
2.43.0


From bd04a09ff99864b74cda6536839d07013c4da806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:51 +0000
Subject: [PATCH 63/74] fix: indicator helpers accept any collection of values
 and date strings; infinite treatment times of any dtype are never treated;
 validation survives values that cannot be sorted

---
 diff_diff/prep.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/diff_diff/prep.py b/diff_diff/prep.py
index 3f80cfe..94db799 100644
--- a/diff_diff/prep.py
+++ b/diff_diff/prep.py
@@ -99,8 +99,10 @@ def make_treatment_indicator(
         raise ValueError(f"Column '{column}' not found in DataFrame.")
 
     if treated_values is not None:
-        # Convert single value to list
-        if not isinstance(treated_values, (list, tuple, set)):
+        # Convert single value to list (any list-like is a collection of values)
+        if pd.api.types.is_list_like(treated_values):
+            treated_values = list(treated_values)
+        else:
             treated_values = [treated_values]
         df[new_column] = df[column].isin(treated_values).astype(int)
     else:
@@ -175,9 +177,14 @@ def make_post_indicator(
         raise ValueError(f"Column '{time_column}' not found in DataFrame.")
 
     if post_periods is not None:
-        # Convert single value to list
-        if not isinstance(post_periods, (list, tuple, set)):
+        # Convert single value to list (any list-like is a collection of periods)
+        if pd.api.types.is_list_like(post_periods):
+            post_periods = list(post_periods)
+        else:
             post_periods = [post_periods]
+        # Convert to same type as column if needed
+        if pd.api.types.is_datetime64_any_dtype(df[time_column].dtype):
+            post_periods = [pd.to_datetime(p) for p in post_periods]
         df[new_column] = df[time_column].isin(post_periods).astype(int)
     else:
         # Use treatment_start - convert to same type as column if needed
@@ -389,6 +396,14 @@ def balance_panel(
     return data
 
 
+def _sorted_values(values: Any) -> List[Any]:
+    """Sort values for a message, also when their types cannot be compared."""
+    try:
+        return sorted(values)
+    except TypeError:
+        return sorted(values, key=lambda v: (type(v).__name__, str(v)))
+
+
 def validate_did_data(
     data: pd.DataFrame,
     outcome: str,
@@ -467,14 +482,14 @@ def validate_did_data(
     if not set(treatment_vals).issubset({0, 1}):
         errors.append(
             f"Treatment column '{treatment}' must be binary (0 or 1). "
-            f"Found values: {sorted(treatment_vals)}"
+            f"Found values: {_sorted_values(treatment_vals)}"
         )
 
     # Check time is binary for simple DiD
     time_vals = data[time].dropna().unique()
     if len(time_vals) == 2 and not set(time_vals).issubset({0, 1}):
         warnings.append(
-            f"Time column '{time}' has 2 values but they are not 0 and 1: {sorted(time_vals)}. "
+            f"Time column '{time}' has 2 values but they are not 0 and 1: {_sorted_values(time_vals)}. "
             "For basic DiD, use 0 for pre-treatment and 1 for post-treatment."
         )
 
@@ -711,7 +726,7 @@ def create_event_time(
     if pd.api.types.is_numeric_dtype(col):
         never_treated = col.isna() | np.isinf(col)
     else:
-        never_treated = col.isna()
+        never_treated = col.isna() | col.isin([np.inf, -np.inf])
     df.loc[never_treated, new_column] = np.nan
 
     return df
-- 
2.43.0


From 5484186732d9f4173c8ba324962c39e8a68a148c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:54 +0000
Subject: [PATCH 64/74] fix: ranking control units handles missing outcomes and
 covariates, time-varying treatment columns and unsorted rows

---
 diff_diff/prep.py | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/diff_diff/prep.py b/diff_diff/prep.py
index 94db799..f3d1f87 100644
--- a/diff_diff/prep.py
+++ b/diff_diff/prep.py
@@ -958,7 +958,7 @@ def rank_control_units(
     if treated_units is not None:
         treated_set = set(treated_units)
     elif treatment_column is not None:
-        unit_treatment = data.groupby(unit_column)[treatment_column].first()
+        unit_treatment = data.groupby(unit_column)[treatment_column].max()
         treated_set = set(unit_treatment[unit_treatment == 1].index)
     elif suggest_treatment_candidates:
         # Treatment candidate discovery mode - no treated units
@@ -1018,26 +1018,33 @@ def rank_control_units(
     # -------------------------------------------------------------------------
     # Compute outcome trend scores
     # -------------------------------------------------------------------------
-    # Synthetic weights (higher = better match)
-    synthetic_weights = compute_synthetic_weights(
-        Y_control, Y_treated_mean, lambda_reg=lambda_reg
-    )
+    # Synthetic weights (higher = better match); controls with missing outcomes
+    # cannot enter the synthetic control and get weight zero
+    observed = ~np.isnan(Y_treated_mean)
+    complete = ~np.isnan(Y_control[observed]).any(axis=0) & observed.any()
+    synthetic_weights = np.zeros(len(control_candidates))
+    if complete.any():
+        synthetic_weights[complete] = compute_synthetic_weights(
+            Y_control[observed][:, complete], Y_treated_mean[observed], lambda_reg=lambda_reg
+        )
 
     # RMSE for each control vs treated mean (use nanmean to handle missing data)
     rmse_scores = []
     for j in range(len(control_candidates)):
-        y_c = Y_control[:, j]
-        rmse = np.sqrt(np.nanmean((y_c - Y_treated_mean) ** 2))
-        rmse_scores.append(rmse)
+        gap = Y_control[:, j] - Y_treated_mean
+        gap = gap[~np.isnan(gap)]
+        rmse_scores.append(np.sqrt(np.mean(gap ** 2)) if len(gap) > 0 else np.nan)
 
     # Convert RMSE to similarity score (lower RMSE = higher score)
-    max_rmse = max(rmse_scores) if rmse_scores else 1.0
-    min_rmse = min(rmse_scores) if rmse_scores else 0.0
+    # (controls without comparable outcomes have no score)
+    known_rmse = [rmse for rmse in rmse_scores if not np.isnan(rmse)]
+    max_rmse = max(known_rmse) if known_rmse else 1.0
+    min_rmse = min(known_rmse) if known_rmse else 0.0
     rmse_range = max_rmse - min_rmse
 
     if rmse_range < 1e-10:
         # All controls have identical/similar pre-trends (includes single control case)
-        outcome_trend_scores = [1.0] * len(rmse_scores)
+        outcome_trend_scores = [np.nan if np.isnan(rmse) else 1.0 for rmse in rmse_scores]
     else:
         # Normalize so best control gets 1.0, worst gets 0.0
         outcome_trend_scores = [1 - (rmse - min_rmse) / rmse_range for rmse in rmse_scores]
@@ -1050,7 +1057,7 @@ def rank_control_units(
         cov_data = pre_data.groupby(unit_column)[covariates].mean()
 
         # Treated covariate profile (mean across treated units)
-        treated_cov = cov_data.loc[list(treated_set)].mean()
+        treated_cov = cov_data.loc[treated_list].mean()
 
         # Standardize covariates
         cov_mean = cov_data.mean()
@@ -1066,13 +1073,15 @@ def rank_control_units(
         )
 
         # Convert distance to similarity score (min-max normalization)
-        max_dist = covariate_distances.max() if len(covariate_distances) > 0 else 1.0
-        min_dist = covariate_distances.min() if len(covariate_distances) > 0 else 0.0
+        # (controls with missing covariates have no score)
+        known_dist = covariate_distances[~np.isnan(covariate_distances)]
+        max_dist = known_dist.max() if len(known_dist) > 0 else 1.0
+        min_dist = known_dist.min() if len(known_dist) > 0 else 0.0
         dist_range = max_dist - min_dist
 
         if dist_range < 1e-10:
             # All controls have identical/similar covariate profiles
-            covariate_scores = [1.0] * len(covariate_distances)
+            covariate_scores = [np.nan if np.isnan(d) else 1.0 for d in covariate_distances]
         else:
             # Normalize so best control (closest) gets 1.0, worst gets 0.0
             covariate_scores = (1 - (covariate_distances - min_dist) / dist_range).tolist()
@@ -1188,7 +1197,8 @@ def _suggest_treatment_candidates(
         # Average outcome level
         avg_outcome = unit_data[outcome_column].mean()
 
-        # Trend (simple linear regression slope)
+        # Trend (simple linear regression slope over the periods in order)
+        unit_data = unit_data.dropna(subset=[outcome_column]).sort_values(time_column)
         times = unit_data[time_column].values
         outcomes = unit_data[outcome_column].values
         if len(times) > 1:
-- 
2.43.0


From a76acbb65c9f43e48705ca37dc05aa6f0137894b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:52 +0000
Subject: [PATCH 65/74] fix: generated panels have exactly the requested share
 of treated units

---
 diff_diff/prep_dgp.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/diff_diff/prep_dgp.py b/diff_diff/prep_dgp.py
index d8707aa..a2f507a 100644
--- a/diff_diff/prep_dgp.py
+++ b/diff_diff/prep_dgp.py
@@ -12,6 +12,11 @@ import numpy as np
 import pandas as pd
 
 
+def _count_share(n_units: int, share: float) -> int:
+    """Whole number of units in a share, immune to float error (29% of 100 is 29)."""
+    return int(n_units * share + 1e-9)
+
+
 def generate_did_data(
     n_units: int = 100,
     n_periods: int = 4,
@@ -82,7 +87,7 @@ def generate_did_data(
     rng = np.random.default_rng(seed)
 
     # Determine treated units
-    n_treated = int(n_units * treatment_fraction)
+    n_treated = _count_share(n_units, treatment_fraction)
     treated_units = set(range(n_treated))
 
     # Generate unit fixed effects
@@ -216,7 +221,7 @@ def generate_staggered_data(
             )
 
     # Determine number of never-treated and treated units
-    n_never = int(n_units * never_treated_frac)
+    n_never = _count_share(n_units, never_treated_frac)
     n_treated = n_units - n_never
 
     # Assign treatment cohorts
@@ -622,7 +627,7 @@ def generate_panel_data(
     if treatment_period >= n_periods:
         raise ValueError(f"treatment_period must be less than n_periods ({n_periods})")
 
-    n_treated = int(n_units * treatment_fraction)
+    n_treated = _count_share(n_units, treatment_fraction)
 
     records = []
     for unit in range(n_units):
@@ -739,7 +744,7 @@ def generate_event_study_data(
 
     n_periods = n_pre + n_post
     treatment_period = n_pre
-    n_treated = int(n_units * treatment_fraction)
+    n_treated = _count_share(n_units, treatment_fraction)
 
     records = []
     for unit in range(n_units):
-- 
2.43.0


From 4d69e46e50be25d5d13283cda6f14212381f5b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:58 +0000
Subject: [PATCH 66/74] fix: summaries print the confidence and significance
 levels that were used, not truncated or fixed ones

---
 diff_diff/diagnostics.py       | 6 +++---
 diff_diff/honest_did.py        | 2 +-
 diff_diff/results.py           | 6 +++---
 diff_diff/staggered_results.py | 2 +-
 diff_diff/sun_abraham.py       | 2 +-
 diff_diff/triple_diff.py       | 2 +-
 diff_diff/trop.py              | 2 +-
 diff_diff/utils.py             | 2 +-
 8 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/diff_diff/diagnostics.py b/diff_diff/diagnostics.py
index 4e787e6..47ddb13 100644
--- a/diff_diff/diagnostics.py
+++ b/diff_diff/diagnostics.py
@@ -85,7 +85,7 @@ class PlaceboTestResults:
 
     def summary(self) -> str:
         """Generate formatted summary of placebo test results."""
-        conf_level = int((1 - self.alpha) * 100)
+        conf_level = f"{(1 - self.alpha) * 100:.10g}"
 
         lines = [
             "=" * 65,
@@ -143,14 +143,14 @@ class PlaceboTestResults:
 
         if self.is_significant:
             lines.append(
-                "WARNING: Significant placebo effect detected (p < 0.05)."
+                f"WARNING: Significant placebo effect detected (p < {self.alpha:g})."
             )
             lines.append(
                 "This suggests potential violations of the parallel trends assumption."
             )
         else:
             lines.append(
-                "No significant placebo effect detected (p >= 0.05)."
+                f"No significant placebo effect detected (p >= {self.alpha:g})."
             )
             lines.append(
                 "This is consistent with the parallel trends assumption."
diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index 64605f8..3c009ac 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -241,7 +241,7 @@ class HonestDiDResults:
         str
             Formatted summary.
         """
-        conf_level = int((1 - self.alpha) * 100)
+        conf_level = f"{(1 - self.alpha) * 100:.10g}"
 
         method_names = {
             "smoothness": "Smoothness (Delta^SD)",
diff --git a/diff_diff/results.py b/diff_diff/results.py
index 213d09f..79d7170 100644
--- a/diff_diff/results.py
+++ b/diff_diff/results.py
@@ -83,7 +83,7 @@ class DiDResults:
             Formatted summary table.
         """
         alpha = alpha or self.alpha
-        conf_level = int((1 - alpha) * 100)
+        conf_level = f"{(1 - alpha) * 100:.10g}"
 
         lines = [
             "=" * 70,
@@ -324,7 +324,7 @@ class MultiPeriodDiDResults:
             Formatted summary table.
         """
         alpha = alpha or self.alpha
-        conf_level = int((1 - alpha) * 100)
+        conf_level = f"{(1 - alpha) * 100:.10g}"
 
         lines = [
             "=" * 80,
@@ -562,7 +562,7 @@ class SyntheticDiDResults:
             Formatted summary table.
         """
         alpha = alpha or self.alpha
-        conf_level = int((1 - alpha) * 100)
+        conf_level = f"{(1 - alpha) * 100:.10g}"
 
         lines = [
             "=" * 75,
diff --git a/diff_diff/staggered_results.py b/diff_diff/staggered_results.py
index 617a839..9b4f1f3 100644
--- a/diff_diff/staggered_results.py
+++ b/diff_diff/staggered_results.py
@@ -137,7 +137,7 @@ class CallawaySantAnnaResults:
             Formatted summary.
         """
         alpha = alpha or self.alpha
-        conf_level = int((1 - alpha) * 100)
+        conf_level = f"{(1 - alpha) * 100:.10g}"
 
         lines = [
             "=" * 85,
diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index 4ffeb33..1d0fdb7 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -109,7 +109,7 @@ class SunAbrahamResults:
             Formatted summary.
         """
         alpha = alpha or self.alpha
-        conf_level = int((1 - alpha) * 100)
+        conf_level = f"{(1 - alpha) * 100:.10g}"
 
         lines = [
             "=" * 85,
diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index 86e8d0f..6d67d80 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -137,7 +137,7 @@ class TripleDifferenceResults:
             Formatted summary table.
         """
         alpha = alpha or self.alpha
-        conf_level = int((1 - alpha) * 100)
+        conf_level = f"{(1 - alpha) * 100:.10g}"
 
         lines = [
             "=" * 75,
diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index 772b76c..d8c5fab 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -196,7 +196,7 @@ class TROPResults:
             Formatted summary table.
         """
         alpha = alpha or self.alpha
-        conf_level = int((1 - alpha) * 100)
+        conf_level = f"{(1 - alpha) * 100:.10g}"
 
         lines = [
             "=" * 75,
diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 2b2ecef..c17cca8 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -236,7 +236,7 @@ class WildBootstrapResults:
             f"Bootstrap SE:        {self.se:.6f}",
             f"Bootstrap p-value:   {self.p_value:.4f}",
             f"Original t-stat:     {self.t_stat_original:.4f}",
-            f"CI ({int((1-self.alpha)*100)}%):           [{self.ci_lower:.6f}, {self.ci_upper:.6f}]",
+            f"{f'CI ({(1 - self.alpha) * 100:.10g}%):':<20}[{self.ci_lower:.6f}, {self.ci_upper:.6f}]",
             f"Number of clusters:  {self.n_clusters}",
             f"Bootstrap reps:      {self.n_bootstrap}",
             f"Weight type:         {self.weight_type}",
-- 
2.43.0


From 1f2672023d30546392bc7f9d48f3f725f60a491d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:19 +0000
Subject: [PATCH 67/74] fix: plots draw the stored intervals, mark interpolated
 power correctly and label what they mark

---
 diff_diff/visualization.py | 75 ++++++++++++++++++++++++--------------
 1 file changed, 47 insertions(+), 28 deletions(-)

diff --git a/diff_diff/visualization.py b/diff_diff/visualization.py
index 3ba3a80..28727bc 100644
--- a/diff_diff/visualization.py
+++ b/diff_diff/visualization.py
@@ -176,8 +176,18 @@ def plot_event_study(
     # Track if reference_period was explicitly provided by user
     reference_period_explicit = reference_period is not None
 
+    # Confidence limits supplied with a DataFrame take precedence over effect +/- z*se
+    given_ci: Dict[Any, Tuple[float, float]] = {}
+
     # Extract data from results if provided
     if results is not None:
+        if isinstance(results, pd.DataFrame) and {
+            'period', 'conf_int_lower', 'conf_int_upper'
+        }.issubset(results.columns):
+            given_ci = dict(zip(
+                results['period'],
+                zip(results['conf_int_lower'], results['conf_int_upper'])
+            ))
         extracted = _extract_plot_data(
             results, periods, pre_periods, post_periods, reference_period
         )
@@ -215,6 +225,8 @@ def plot_event_study(
             # Set reference SE to NaN (it's now a constraint, not an estimate)
             # This follows fixest convention where the omitted category has no SE/CI
             se = {p: (np.nan if p == reference_period else s) for p, s in se.items()}
+            given_ci = {p: (lo - ref_effect, hi - ref_effect)
+                        for p, (lo, hi) in given_ci.items()}
 
     plot_data = []
     for period in periods:
@@ -227,8 +239,10 @@ def plot_event_study(
 
         # Compute CI only if SE is finite
         if np.isfinite(std_err):
-            ci_lower = effect - critical_value * std_err
-            ci_upper = effect + critical_value * std_err
+            ci_lower, ci_upper = given_ci.get(period, (
+                effect - critical_value * std_err,
+                effect + critical_value * std_err,
+            ))
         else:
             ci_lower = np.nan
             ci_upper = np.nan
@@ -279,12 +293,11 @@ def plot_event_study(
     if has_ci.any():
         df_with_ci = df[has_ci]
         x_with_ci = [period_to_x[p] for p in df_with_ci['period']]
-        yerr = [
-            df_with_ci['effect'] - df_with_ci['ci_lower'],
-            df_with_ci['ci_upper'] - df_with_ci['effect']
-        ]
+        # Centered on the interval: a supplied interval need not contain the effect
+        ci_mid = (df_with_ci['ci_lower'] + df_with_ci['ci_upper']) / 2
+        ci_half = (df_with_ci['ci_upper'] - df_with_ci['ci_lower']) / 2
         ax.errorbar(
-            x_with_ci, df_with_ci['effect'], yerr=yerr,
+            x_with_ci, ci_mid, yerr=ci_half,
             fmt='none', color=color, capsize=capsize, linewidth=linewidth,
             capthick=linewidth, zorder=2
         )
@@ -842,13 +855,12 @@ def plot_honest_event_study(
         linewidth=1, alpha=0.6, label='Standard CI'
     )
 
-    # Plot honest CIs (thicker, foreground)
-    yerr_honest = [
-        [e - lower for e, lower in zip(effects, honest_ci_lower)],
-        [u - e for e, u in zip(effects, honest_ci_upper)]
-    ]
+    # Plot honest CIs (thicker, foreground). Error bars are centered on the
+    # interval, not the effect, which may lie outside the scalar bounds.
+    honest_mid = [(lower + u) / 2 for lower, u in zip(honest_ci_lower, honest_ci_upper)]
+    honest_half = [(u - lower) / 2 for lower, u in zip(honest_ci_lower, honest_ci_upper)]
     ax.errorbar(
-        x_vals, effects, yerr=yerr_honest,
+        x_vals, honest_mid, yerr=honest_half,
         fmt='none', color=honest_color, capsize=capsize,
         linewidth=2, label=f'Honest CI (M={honest_results.M:.2f})'
     )
@@ -1314,6 +1326,8 @@ def plot_power_curve(
             "Install it with: pip install matplotlib"
         )
 
+    mde_label = "MDE"
+
     # Extract data from results if provided
     if results is not None:
         if isinstance(results, pd.DataFrame):
@@ -1336,6 +1350,7 @@ def plot_power_curve(
             if mde is None and hasattr(results, "true_effect"):
                 # Mark true effect on plot
                 mde = results.true_effect
+                mde_label = "True effect"
         elif hasattr(results, "mde"):
             # PowerResults - create curve data
             raise ValueError(
@@ -1397,22 +1412,19 @@ def plot_power_curve(
             linestyle=":",
             linewidth=1.5,
             alpha=0.7,
-            label=f"MDE = {mde:.3f}"
+            label=f"{mde_label} = {mde:.3f}"
         )
 
         # Mark intersection point
         # Find power at MDE
-        if mde in effect_sizes:
-            idx = effect_sizes.index(mde)
-            power_at_mde = powers[idx]
+        # Interpolate (np.interp needs increasing effect sizes)
+        effect_arr = np.array(effect_sizes)
+        power_arr = np.array(powers)
+        if effect_arr.min() <= mde <= effect_arr.max():
+            order = np.argsort(effect_arr)
+            power_at_mde = np.interp(mde, effect_arr[order], power_arr[order])
         else:
-            # Interpolate
-            effect_arr = np.array(effect_sizes)
-            power_arr = np.array(powers)
-            if effect_arr.min() <= mde <= effect_arr.max():
-                power_at_mde = np.interp(mde, effect_arr, power_arr)
-            else:
-                power_at_mde = None
+            power_at_mde = None
 
         if power_at_mde is not None:
             ax.scatter(
@@ -1452,7 +1464,7 @@ def plot_pretrends_power(
     M_values: Optional[List[float]] = None,
     powers: Optional[List[float]] = None,
     mdv: Optional[float] = None,
-    target_power: float = 0.80,
+    target_power: Optional[float] = None,
     figsize: Tuple[float, float] = (10, 6),
     title: str = "Pre-Trends Test Power Curve",
     xlabel: str = "Violation Magnitude (M)",
@@ -1485,8 +1497,9 @@ def plot_pretrends_power(
         Power values (y-axis). Required if results is None.
     mdv : float, optional
         Minimum detectable violation to mark on the plot.
-    target_power : float, default=0.80
-        Target power level to show as horizontal line.
+    target_power : float, optional
+        Target power level to show as horizontal line. If None, uses the
+        target power stored in results, or 0.80 if there is none.
     figsize : tuple, default=(10, 6)
         Figure size (width, height) in inches.
     title : str
@@ -1589,6 +1602,8 @@ def plot_pretrends_power(
             # Single PreTrendsPowerResults - create a simple plot
             if mdv is None:
                 mdv = results.mdv
+            if target_power is None:
+                target_power = getattr(results, "target_power", None)
             # Create minimal curve around MDV
             if np.isfinite(mdv):
                 M_values = [0, mdv * 0.5, mdv, mdv * 1.5, mdv * 2]
@@ -1606,6 +1621,9 @@ def plot_pretrends_power(
             "Must provide either 'results' or both 'M_values' and 'powers'"
         )
 
+    if target_power is None:
+        target_power = 0.80
+
     # Create figure if needed
     if ax is None:
         fig, ax = plt.subplots(figsize=figsize)
@@ -1649,7 +1667,8 @@ def plot_pretrends_power(
             M_arr = np.array(M_values)
             power_arr = np.array(powers)
             if M_arr.min() <= mdv <= M_arr.max():
-                power_at_mdv = np.interp(mdv, M_arr, power_arr)
+                order = np.argsort(M_arr)
+                power_at_mdv = np.interp(mdv, M_arr[order], power_arr[order])
                 ax.scatter(
                     [mdv], [power_at_mdv],
                     color=mdv_color,
-- 
2.43.0


From 54aa9096668d34a9a0b3fa9626a6a0103eb78467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:03 +0000
Subject: [PATCH 68/74] fix: with collinear columns the later ones are dropped,
 so an unidentified interaction is not reported as an effect

---
 diff_diff/linalg.py | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/diff_diff/linalg.py b/diff_diff/linalg.py
index ddd0968..3617542 100644
--- a/diff_diff/linalg.py
+++ b/diff_diff/linalg.py
@@ -96,9 +96,9 @@ def _detect_rank_deficiency(
     """
     Detect rank deficiency using pivoted QR decomposition.
 
-    This follows R's lm() approach of using pivoted QR to detect which columns
-    are linearly dependent. The pivoting ensures we drop the "least important"
-    columns (those with smallest contribution to the column space).
+    Pivoted QR determines the rank. As in R's lm(), a column is then dropped if
+    it depends linearly on the columns before it, so that, for instance, an
+    interaction spanned by its main effects is reported as not identified.
 
     Parameters
     ----------
@@ -146,13 +146,35 @@ def _detect_rank_deficiency(
     # Columns after rank position (in pivot order) are linearly dependent
     # We need to map back to original column indices
     if rank < k:
-        dropped_cols = np.sort(pivot[rank:])
+        kept_cols = _independent_columns(X, tol) if rank > 0 else []
+        if len(kept_cols) == rank:
+            dropped_cols = np.setdiff1d(np.arange(k), kept_cols)
+        else:
+            dropped_cols = np.sort(pivot[rank:])
     else:
         dropped_cols = np.array([], dtype=int)
 
     return rank, dropped_cols, pivot
 
 
+def _independent_columns(X: np.ndarray, tol: float) -> List[int]:
+    """Indices of the columns that are not spanned (up to tol) by the columns before them."""
+    n, k = X.shape
+    basis = np.empty((n, min(n, k)))
+    kept: List[int] = []
+    for j in range(k):
+        if len(kept) == basis.shape[1]:
+            break
+        Q = basis[:, :len(kept)]
+        remainder = X[:, j] - Q @ (Q.T @ X[:, j])
+        remainder = remainder - Q @ (Q.T @ remainder)
+        norm = np.linalg.norm(remainder)
+        if norm > tol:
+            basis[:, len(kept)] = remainder / norm
+            kept.append(j)
+    return kept
+
+
 def _format_dropped_columns(
     dropped_cols: np.ndarray,
     column_names: Optional[List[str]] = None,
-- 
2.43.0


From a6ae9593ffa2046cdc3cbf2a92b7ab33a0ed3650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:27 +0000
Subject: [PATCH 69/74] fix: a negative or missing M is refused for a single
 fit and in a grid, too

---
 diff_diff/honest_did.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index 3c009ac..7a972b7 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -1030,7 +1030,7 @@ class HonestDiD:
                 f"method must be 'smoothness', 'relative_magnitude', or 'combined', "
                 f"got method='{self.method}'"
             )
-        if self.M < 0:
+        if not self.M >= 0:
             raise ValueError(f"M must be non-negative, got M={self.M}")
         if not 0 < self.alpha < 1:
             raise ValueError(f"alpha must be between 0 and 1, got alpha={self.alpha}")
@@ -1070,6 +1070,8 @@ class HonestDiD:
             Results containing bounds and robust confidence intervals.
         """
         M = M if M is not None else self.M
+        if not M >= 0:
+            raise ValueError(f"M must be non-negative, got M={M}")
 
         # Extract event study parameters
         (beta_hat, sigma, num_pre, num_post,
-- 
2.43.0


From e28f5772d02d63cca30498baaa4f92e9a63555b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:34 +0000
Subject: [PATCH 70/74] fix: a design matrix of zeros gives missing
 coefficients instead of an IndexError

---
 diff_diff/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff_diff/linalg.py b/diff_diff/linalg.py
index 3617542..254a290 100644
--- a/diff_diff/linalg.py
+++ b/diff_diff/linalg.py
@@ -707,7 +707,7 @@ def _solve_ols_numpy(
         # else: "silent" - no warning
 
         # Extract kept columns for the reduced solve
-        kept_cols = np.array([i for i in range(k) if i not in dropped_cols])
+        kept_cols = np.array([i for i in range(k) if i not in dropped_cols], dtype=int)
         X_reduced = X[:, kept_cols]
 
         # Solve the reduced system (now full-rank)
-- 
2.43.0


From f94278ac36f02df018526e13d1ece7f78b1b9027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:51 +0000
Subject: [PATCH 71/74] fix: a resample without control units gives no
 Sun-Abraham estimate instead of rounding noise

---
 diff_diff/sun_abraham.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index 1d0fdb7..38d1e24 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -769,9 +769,14 @@ class SunAbraham:
         if covariates:
             X_cols.extend([f"{cov}_dm" for cov in covariates])
 
-        X = df_demeaned[X_cols].values
+        X = df_demeaned[X_cols].values.astype(float)
         y = df_demeaned[f"{outcome}_dm"].values
 
+        # A column absorbed by the fixed effects leaves only rounding error
+        # (e.g. a resample without control units): it is not identified
+        raw = df[interaction_cols + list(covariates or [])].values.astype(float)
+        X[:, np.abs(X).max(axis=0) <= 1e-10 * np.abs(raw).max(axis=0)] = 0.0
+
         # Fit OLS using LinearRegression helper (more stable than manual X'X inverse)
         cluster_ids = df_demeaned[cluster_var].values
         reg = LinearRegression(
-- 
2.43.0


From f7ea44e47ece166e3c3667da1af88f69784dcf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:21 +0000
Subject: [PATCH 72/74] fix: the time window of a Bacon comparison ends at its
 last observed period

---
 diff_diff/bacon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff_diff/bacon.py b/diff_diff/bacon.py
index 2068fb0..52ba2eb 100644
--- a/diff_diff/bacon.py
+++ b/diff_diff/bacon.py
@@ -817,7 +817,7 @@ class BaconDecomposition:
             if not pre_periods or not post_periods:
                 return None
 
-            time_window = (min(time_periods), g_late - 1)
+            time_window = (min(time_periods), max(post_periods))
 
         else:  # later_vs_earlier (forbidden)
             # Later treated vs Earlier treated (used as control after treatment)
-- 
2.43.0


From 0caef8824891fe11b1099861265ad38174ec2c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:00 +0000
Subject: [PATCH 73/74] fix: the default pre-trends power curve reaches 2.5
 times the MDV on every outcome scale

---
 diff_diff/pretrends.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff_diff/pretrends.py b/diff_diff/pretrends.py
index 8527b7f..3230439 100644
--- a/diff_diff/pretrends.py
+++ b/diff_diff/pretrends.py
@@ -987,7 +987,7 @@ class PreTrendsPower:
 
         # Create M grid if not provided
         if M_grid is None:
-            max_M = min(2.5 * mdv if np.isfinite(mdv) else 10 * np.max(ses), 100)
+            max_M = 2.5 * mdv if np.isfinite(mdv) else 10 * np.max(ses)
             M_grid = np.linspace(0, max_M, n_points)
         else:
             M_grid = np.asarray(M_grid)
-- 
2.43.0


From b62f4ddc0ef5360ea80ff08cff39a7f56f7f155a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:00 +0000
Subject: [PATCH 74/74] fix: pre-trends violation patterns follow the calendar
 when pre_periods are listed out of order

---
 diff_diff/pretrends.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/diff_diff/pretrends.py b/diff_diff/pretrends.py
index 3230439..80c48b0 100644
--- a/diff_diff/pretrends.py
+++ b/diff_diff/pretrends.py
@@ -564,6 +564,9 @@ class PreTrendsPower:
             # Get pre-period information - use explicit pre_periods if provided
             if pre_periods is not None:
                 all_pre_periods = list(pre_periods)
+                if self.violation_type != "custom":
+                    # Violation patterns follow the calendar, not the order listed
+                    all_pre_periods = sorted(all_pre_periods)
             else:
                 all_pre_periods = results.pre_periods
 
-- 
2.43.0

