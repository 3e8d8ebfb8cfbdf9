From bee5d55d17a59ecdbac52eeba81990b34f3f2c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:40 +0000
Subject: [PATCH 1/9] fix: scale the wage that non-employment benefits are
 based on in the simulation

The solution applies elasticity_scale to the systematic wage before computing
wage-replacing benefits; the simulation only scaled the realised wage, so choices
and simulated resources disagreed with the solution whenever the scale is not 1.
---
 soepy/simulate/simulate_auxiliary.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/soepy/simulate/simulate_auxiliary.py b/soepy/simulate/simulate_auxiliary.py
index 3ddada2..3b54459 100644
--- a/soepy/simulate/simulate_auxiliary.py
+++ b/soepy/simulate/simulate_auxiliary.py
@@ -159,10 +159,9 @@ def simulate_agents_over_periods(
                 pt_increment=pt_increment,
                 period=period,
             )
-        )
+        ) + np.log(model_spec.elasticity_scale)
 
         wages = np.exp(log_wage_agents + draws_sim[period, : len(current_states)])
-        wages = wages * float(model_spec.elasticity_scale)
 
         female_income = wages[:, None] * HOURS[None, 1:]
 
-- 
2.43.0


From 5e28610be7d79dd23802c58feecb4ec7e9eb3b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:58 +0000
Subject: [PATCH 2/9] fix: interpolate simulated continuation values on the
 model's experience grid

The simulation assumed grid points at equal distances although the solution uses
exp_grid as given, so a non-uniform grid yielded wrong continuation values.
---
 soepy/simulate/simulate_auxiliary.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/soepy/simulate/simulate_auxiliary.py b/soepy/simulate/simulate_auxiliary.py
index 3b54459..52bd5e8 100644
--- a/soepy/simulate/simulate_auxiliary.py
+++ b/soepy/simulate/simulate_auxiliary.py
@@ -139,7 +139,9 @@ def simulate_agents_over_periods(
         # Interpolate continuation values on the experience grid.
         continuation_grid = emaxs[idx, :, :NUM_CHOICES]
         continuation_grid = np.transpose(continuation_grid, (0, 2, 1))
-        continuation_values = _interp_uniform_grid(continuation_grid, stock[:, None])
+        continuation_values = _interp_exp_grid(
+            np.asarray(model_spec.exp_grid), continuation_grid, stock[:, None]
+        )
 
         non_cons_util_agents = non_consumption_utilities[idx]
 
@@ -321,23 +323,24 @@ def simulate_agents_over_periods(
     return data
 
 
-def _interp_uniform_grid(values, stock):
-    """Interpolate along the last axis on a uniform [0,1] grid.
+def _interp_exp_grid(grid, values, stock):
+    """Interpolate along the last axis on the experience grid.
 
     Parameters
     ----------
+    grid : np.ndarray
+        Shape (n_grid,), increasing.
     values : np.ndarray
         Shape (..., n_grid)
     stock : np.ndarray
         Shape (...) matching the leading dimensions of values.
     """
 
-    n_grid = values.shape[-1]
-    u = np.clip(stock, 0.0, 1.0) * (n_grid - 1)
-
-    idx_lo = np.floor(u).astype(int)
-    idx_hi = np.minimum(idx_lo + 1, n_grid - 1)
-    w = u - idx_lo
+    idx_hi = np.clip(np.searchsorted(grid, stock, side="right"), 1, len(grid) - 1)
+    idx_lo = idx_hi - 1
+    w = (np.clip(stock, grid[0], grid[-1]) - grid[idx_lo]) / (
+        grid[idx_hi] - grid[idx_lo]
+    )
 
     take_lo = np.take_along_axis(values, idx_lo[..., None], axis=-1)[..., 0]
     take_hi = np.take_along_axis(values, idx_hi[..., None], axis=-1)[..., 0]
-- 
2.43.0


From 8eeb7788138be6b866f697ed1f5578cef17a4b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:58 +0000
Subject: [PATCH 3/9] fix: pay Erziehungsgeld to part-time workers irrespective
 of child benefits

The claim already requires a baby. The solution additionally required positive child
benefits, which neither the simulation nor the non-employment branch does.
---
 soepy/solve/validation_solve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soepy/solve/validation_solve.py b/soepy/solve/validation_solve.py
index 55238b4..013592e 100644
--- a/soepy/solve/validation_solve.py
+++ b/soepy/solve/validation_solve.py
@@ -54,7 +54,7 @@ def _get_max_aggregated_utilities(
             erziehungsgeld_inc_married,
             erziehungsgeld,
         )
-        net_income = net_income + jnp.where((child_benefits > 0) & (j == 1), eg, 0.0)
+        net_income = net_income + jnp.where(j == 1, eg, 0.0)
 
         child_costs = child_care_costs[child_care_bin, j - 1]
 
-- 
2.43.0


From 30adff64324f174c0333cbe20aa5bbc569c1543a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:25 +0000
Subject: [PATCH 4/9] fix: match unobserved types by their number

Shares were taken in row order and utility shifters in alphabetical order of their
names, so reordered rows or more than ten types paired shares with other types' shifters.
---
 soepy/pre_processing/model_processing.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/soepy/pre_processing/model_processing.py b/soepy/pre_processing/model_processing.py
index b05e736..34d1c57 100644
--- a/soepy/pre_processing/model_processing.py
+++ b/soepy/pre_processing/model_processing.py
@@ -49,7 +49,11 @@ def expand_model_params_dict(model_params_dict):
     # Extract the values of the type shares
     try:
         type_shares_non_baseline = [
-            _ for k, _ in model_params_dict["shares"].items() if "share" in k
+            _
+            for k, _ in sorted(
+                model_params_dict["shares"].items(), key=_unobserved_type_number
+            )
+            if "share" in k
         ]
 
         num_types = len(type_shares_non_baseline) + 1
@@ -77,6 +81,12 @@ def expand_model_params_dict(model_params_dict):
     return model_params_dict
 
 
+def _unobserved_type_number(item):
+    """Type number at the end of a parameter name, e.g. 10 for theta_p10."""
+    digits = item[0][len(item[0].rstrip("0123456789")) :]
+    return int(digits) if digits else -1
+
+
 def group_parameters(model_params_dict_expanded):
     """Groups the parameters to be estimates
     in flat dictionary structure"""
@@ -140,7 +150,10 @@ def group_parameters(model_params_dict_expanded):
         model_params_dict_flat["theta_" + i] = np.array(
             [
                 v
-                for k, v in sorted(model_params_dict_expanded["hetrg_unobs"].items())
+                for k, v in sorted(
+                    model_params_dict_expanded["hetrg_unobs"].items(),
+                    key=_unobserved_type_number,
+                )
                 if "{}".format("theta_" + i) in k
             ],
             dtype=float,
-- 
2.43.0


From 1b710c26f59e0be12d06fba6f825705123e2fed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:25 +0000
Subject: [PATCH 5/9] fix: reject parameters whose type shares and type
 shifters do not match in number

A missing shifter was silently replaced by that of another type.
---
 soepy/pre_processing/model_processing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/soepy/pre_processing/model_processing.py b/soepy/pre_processing/model_processing.py
index 34d1c57..8d0eaf8 100644
--- a/soepy/pre_processing/model_processing.py
+++ b/soepy/pre_processing/model_processing.py
@@ -158,6 +158,10 @@ def group_parameters(model_params_dict_expanded):
             ],
             dtype=float,
         )
+        if len(model_params_dict_flat["theta_" + i]) != len(
+            model_params_dict_flat["type_shares"]
+        ):
+            raise ValueError(f"Each type with a share needs exactly one theta_{i}.")
 
     return model_params_dict_flat
 
-- 
2.43.0


From 9a60bcd350df1e85eb254fc50f356b13447a799c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:29 +0000
Subject: [PATCH 6/9] fix: reject type shifters given without shares of the
 types

---
 soepy/pre_processing/model_processing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/soepy/pre_processing/model_processing.py b/soepy/pre_processing/model_processing.py
index 8d0eaf8..7802d90 100644
--- a/soepy/pre_processing/model_processing.py
+++ b/soepy/pre_processing/model_processing.py
@@ -64,6 +64,9 @@ def expand_model_params_dict(model_params_dict):
 
     except KeyError:
 
+        if model_params_dict.get("hetrg_unobs"):
+            raise ValueError("Type shifters are given without shares of the types.")
+
         type_shares = [1]
         num_types = 1
         model_params_dict["hetrg_unobs"] = {}
-- 
2.43.0


From 1531b6f3d078ff4442f041546b5ae04f30d1076f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:27 +0000
Subject: [PATCH 7/9] fix: refuse entry with children older than child_age_max

A child of age child_age_max + 1 at entry was silently treated as no child
(the women kept the age in the data), older ones ended in an IndexError.
---
 soepy/pre_processing/model_processing.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/soepy/pre_processing/model_processing.py b/soepy/pre_processing/model_processing.py
index 7802d90..634d211 100644
--- a/soepy/pre_processing/model_processing.py
+++ b/soepy/pre_processing/model_processing.py
@@ -204,6 +204,13 @@ def expand_model_spec_dict(model_spec_init_dict, model_params_df):
     # Gather education years in list object
     num_educ_levels = len(model_spec_init_dict["EDUC"]["educ_years"])
 
+    # Children at entry must be in the state space
+    if (
+        model_spec_init_dict["INITIAL_CONDITIONS"]["child_age_init_max"]
+        > model_spec_init_dict["EXOG_PROC"]["child_age_max"]
+    ):
+        raise ValueError("child_age_init_max exceeds child_age_max.")
+
     # Determine number of types
     try:
         num_types = len(model_params_df.loc["shares"].to_numpy()) + 1
-- 
2.43.0


From cba1e4bf2c1c44113dce53b0c3f0c4cfd87866d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:35 +0000
Subject: [PATCH 8/9] fix: refuse parameters and table rows that are stated
 more than once

Of a parameter stated twice the last value was taken; a table row stated
twice shifted the rows that follow to other education levels or periods.
---
 soepy/exogenous_processes/children.py    | 3 +++
 soepy/exogenous_processes/education.py   | 3 +++
 soepy/exogenous_processes/experience.py  | 3 +++
 soepy/exogenous_processes/partner.py     | 5 +++++
 soepy/exogenous_processes/table_rows.py  | 7 +++++++
 soepy/pre_processing/model_processing.py | 3 +++
 6 files changed, 24 insertions(+)
 create mode 100644 soepy/exogenous_processes/table_rows.py

diff --git a/soepy/exogenous_processes/children.py b/soepy/exogenous_processes/children.py
index 1c0e9ab..d2689ba 100644
--- a/soepy/exogenous_processes/children.py
+++ b/soepy/exogenous_processes/children.py
@@ -3,6 +3,7 @@ process of childbirth."""
 import numpy as np
 import pandas as pd
 
+from soepy.exogenous_processes.table_rows import refuse_duplicate_rows
 from soepy.shared.constants_and_indices import AGE_YOUNGEST_CHILD
 
 
@@ -22,6 +23,7 @@ def gen_prob_child_vector(model_spec):
     """Generate probability of childbirth for each period and lagged choice."""
 
     exog_child_info_df = pd.read_pickle(model_spec.child_info_file_name)
+    refuse_duplicate_rows(exog_child_info_df, "birth probabilities")
 
     exog_child_info_df = exog_child_info_df.iloc[
         exog_child_info_df.index.get_level_values("period") < model_spec.num_periods
@@ -44,6 +46,7 @@ def gen_prob_child_init_age_vector(model_spec):
     """Generate shares of initial child ages by education level."""
 
     child_age_shares = pd.read_pickle(model_spec.child_age_shares_file_name)
+    refuse_duplicate_rows(child_age_shares, "child age shares")
 
     prob_child_age = []
     for educ_level in range(model_spec.num_educ_levels):
diff --git a/soepy/exogenous_processes/education.py b/soepy/exogenous_processes/education.py
index 055b92c..7f5c722 100644
--- a/soepy/exogenous_processes/education.py
+++ b/soepy/exogenous_processes/education.py
@@ -2,12 +2,15 @@
 on years of education"""
 import pandas as pd
 
+from soepy.exogenous_processes.table_rows import refuse_duplicate_rows
+
 
 def gen_prob_educ_level_vector(model_spec):
     """Generates a vector of probabilities reflecting the fractions of individuals
     with low, middle, and high levels of education in the SOEP data."""
 
     prob_educ_level = pd.read_pickle(model_spec.educ_shares_file_name)
+    refuse_duplicate_rows(prob_educ_level, "education shares")
 
     prob_educ_level = list(prob_educ_level["educ_shares"])
 
diff --git a/soepy/exogenous_processes/experience.py b/soepy/exogenous_processes/experience.py
index e8979a2..611b63b 100644
--- a/soepy/exogenous_processes/experience.py
+++ b/soepy/exogenous_processes/experience.py
@@ -18,6 +18,8 @@ No implicit defaults: the model spec must define
 import numpy as np
 import pandas as pd
 
+from soepy.exogenous_processes.table_rows import refuse_duplicate_rows
+
 
 def gen_prob_init_exp_component_vector(model_spec, model_spec_exp_file_key):
     """Generates a list of lists containing the shares of individuals with
@@ -25,6 +27,7 @@ def gen_prob_init_exp_component_vector(model_spec, model_spec_exp_file_key):
     Shares differ by the level of education of the individuals."""
 
     exp_shares = pd.read_pickle(model_spec_exp_file_key)
+    refuse_duplicate_rows(exp_shares, "experience shares")
 
     init_exp = []
     for educ_level in range(model_spec.num_educ_levels):
diff --git a/soepy/exogenous_processes/partner.py b/soepy/exogenous_processes/partner.py
index d096380..ed5d8f7 100644
--- a/soepy/exogenous_processes/partner.py
+++ b/soepy/exogenous_processes/partner.py
@@ -3,6 +3,8 @@ process of marriage."""
 import numpy as np
 import pandas as pd
 
+from soepy.exogenous_processes.table_rows import refuse_duplicate_rows
+
 
 def gen_prob_partner(model_spec):
     """Generates a vector with length `num_periods` which contains
@@ -13,6 +15,7 @@ def gen_prob_partner(model_spec):
     exog_partner_separation_info_df = pd.read_pickle(
         model_spec.partner_separation_info_file_name
     )
+    refuse_duplicate_rows(exog_partner_separation_info_df, "separation probabilities")
 
     exog_partner_separation_info_df = exog_partner_separation_info_df.loc[
         (range(model_spec.num_periods), slice(None)), :
@@ -23,6 +26,7 @@ def gen_prob_partner(model_spec):
     exog_partner_arrival_info_df = pd.read_pickle(
         model_spec.partner_arrival_info_file_name
     )
+    refuse_duplicate_rows(exog_partner_arrival_info_df, "partner arrival probabilities")
 
     exog_partner_arrival_info_df = exog_partner_arrival_info_df.loc[
         (range(model_spec.num_periods), slice(None)), :
@@ -47,4 +51,5 @@ def gen_prob_partner_present_vector(model_spec):
     Shares differ by the level of education of the individuals."""
 
     partner_shares = pd.read_pickle(model_spec.partner_shares_file_name)
+    refuse_duplicate_rows(partner_shares, "partner shares")
     return partner_shares.to_numpy().flatten()
diff --git a/soepy/exogenous_processes/table_rows.py b/soepy/exogenous_processes/table_rows.py
new file mode 100644
index 0000000..abc1cb0
--- /dev/null
+++ b/soepy/exogenous_processes/table_rows.py
@@ -0,0 +1,7 @@
+"""Tables of exogenous processes state every situation once."""
+
+
+def refuse_duplicate_rows(table, name):
+    """Raise an error if a row of an input table is stated twice."""
+    if table.index.has_duplicates:
+        raise ValueError(f"Rows of the {name} are stated more than once.")
diff --git a/soepy/pre_processing/model_processing.py b/soepy/pre_processing/model_processing.py
index 634d211..fb52c6c 100644
--- a/soepy/pre_processing/model_processing.py
+++ b/soepy/pre_processing/model_processing.py
@@ -24,6 +24,9 @@ def read_model_params_init(model_params_init_file_name):
     else:
         raise NotImplementedError
 
+    if model_params_df.index.has_duplicates:
+        raise ValueError("Parameters are stated more than once.")
+
     # Transform data frame to dictionary
     model_params_dict = {
         l: model_params_df.loc[l, "value"].to_dict()
-- 
2.43.0


From 7ae7d24f5874e581146e453a26a6f261ff803748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:50 +0000
Subject: [PATCH 9/9] fix: refuse type shares and preference shifters of
 different types

Only their numbers were compared, so that the share of one type could be
paired with the preferences of another.
---
 soepy/pre_processing/model_processing.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/soepy/pre_processing/model_processing.py b/soepy/pre_processing/model_processing.py
index fb52c6c..1ffba53 100644
--- a/soepy/pre_processing/model_processing.py
+++ b/soepy/pre_processing/model_processing.py
@@ -164,9 +164,17 @@ def group_parameters(model_params_dict_expanded):
             ],
             dtype=float,
         )
-        if len(model_params_dict_flat["theta_" + i]) != len(
-            model_params_dict_flat["type_shares"]
-        ):
+        theta_types = sorted(
+            _unobserved_type_number(item)
+            for item in model_params_dict_expanded["hetrg_unobs"].items()
+            if "theta_" + i in item[0]
+        )
+        share_types = sorted(
+            _unobserved_type_number(item)
+            for item in model_params_dict_expanded.get("shares", {}).items()
+            if "share" in item[0]
+        )
+        if theta_types != [0] + share_types:
             raise ValueError(f"Each type with a share needs exactly one theta_{i}.")
 
     return model_params_dict_flat
-- 
2.43.0

