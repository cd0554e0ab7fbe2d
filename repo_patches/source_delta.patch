From 65fc416cbcbc9ff6fbb4b3078d257cffbaf90eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 01/18] fix: resolve every reference in a parameter value, also
 to non-text values

---
 mimosa/common/config/parseconfig.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mimosa/common/config/parseconfig.py b/mimosa/common/config/parseconfig.py
index 2446e14..c9df843 100644
--- a/mimosa/common/config/parseconfig.py
+++ b/mimosa/common/config/parseconfig.py
@@ -120,13 +120,14 @@ def parse_param_values(params):
     def leaf_function(keys, node):
         if not isinstance(node, str):
             return
+        new_value = node
         for match in re.findall(r"\{([\w -]+)\}", node):
             try:
                 other_value = get_nested(params, match.split(" - "))
-                new_value = node.replace(f"{{{match}}}", other_value)
-                set_nested(params, keys, new_value)
-            except KeyError:
-                pass
+            except (KeyError, TypeError):
+                continue
+            new_value = new_value.replace(f"{{{match}}}", str(other_value))
+            set_nested(params, keys, new_value)
 
     recursive_traverse(params, leaf_function, leaf_criterium)
 
-- 
2.43.0


From 3fd8770062ac2c3638e0a1011803dd0744aab0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 02/18] fix: per-capita convergence with percapconv_year false
 keeps grandfathering shares

---
 mimosa/components/effortsharing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mimosa/components/effortsharing.py b/mimosa/components/effortsharing.py
index c9d43c0..4a30447 100644
--- a/mimosa/components/effortsharing.py
+++ b/mimosa/components/effortsharing.py
@@ -259,7 +259,7 @@ def percapconv_share_rule(m, t, r):
     """
 
     year_0, year_t = m.year(0), m.year(t)
-    year_conv = m.percapconv_year
+    year_conv = value(m.percapconv_year)
 
     if year_conv is False:
         # If it is false, use grandfathering all the time
-- 
2.43.0


From 28e338aafba251c832ec86c8f1bbdc129b349600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 03/18] fix: reject not-a-number for numerical parameters

---
 mimosa/common/config/utils/parsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mimosa/common/config/utils/parsers.py b/mimosa/common/config/utils/parsers.py
index 77df185..a7dc87d 100644
--- a/mimosa/common/config/utils/parsers.py
+++ b/mimosa/common/config/utils/parsers.py
@@ -173,7 +173,7 @@ class NumParser(GeneralParser):
                 f"Value {value} can not be parsed to a {self.num_type_fct.__name__}"
             )
         # Check if value within bounds
-        if parsed_value < self.min or parsed_value > self.max:
+        if not self.min <= parsed_value <= self.max:
             self.error(
                 f"Value {parsed_value} not within bounds ({self.min}, {self.max})"
             )
-- 
2.43.0


From 0ca8fe68b4dacd462da39c400abceadb5a401716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 04/18] fix: global cost pool no longer redefines variables of
 the mitigation component

---
 .../emissiontrade/globalcostpool.py           | 24 ++-----------------
 1 file changed, 2 insertions(+), 22 deletions(-)

diff --git a/mimosa/components/emissiontrade/globalcostpool.py b/mimosa/components/emissiontrade/globalcostpool.py
index d91e013..07e3222 100644
--- a/mimosa/components/emissiontrade/globalcostpool.py
+++ b/mimosa/components/emissiontrade/globalcostpool.py
@@ -13,12 +13,9 @@ from mimosa.common import (
     GlobalConstraint,
     RegionalConstraint,
     Constraint,
-    NonNegativeReals,
     quant,
 )
 
-from mimosa.components.mitigation import AC
-
 
 def get_constraints(m: AbstractModel) -> Sequence[GeneralConstraint]:
     """Emission trading equations and constraints
@@ -37,22 +34,10 @@ def get_constraints(m: AbstractModel) -> Sequence[GeneralConstraint]:
     """
     constraints = []
 
-    m.area_under_MAC = Var(
-        m.t,
-        m.regions,
-        within=NonNegativeReals,
-        initialize=0,
-        units=quant.unit("currency_unit"),
-    )
-
-    # The global mitigation cost pool:
+    # The global mitigation cost pool (the variables area_under_MAC and mitigation_costs
+    # are defined in the mitigation component):
     constraints.extend(
         [
-            RegionalConstraint(
-                lambda m, t, r: m.area_under_MAC[t, r]
-                == AC(m.relative_abatement[t, r], m, t, r) * m.baseline[t, r],
-                "mitigation_costs",
-            ),
             GlobalConstraint(
                 lambda m, t: sum(m.mitigation_costs[t, r] for r in m.regions)
                 == sum(m.area_under_MAC[t, r] for r in m.regions),
@@ -95,11 +80,6 @@ def get_constraints(m: AbstractModel) -> Sequence[GeneralConstraint]:
                 ),
                 "import_export_emission_reduction_balance",
             ),
-            RegionalConstraint(
-                lambda m, t, r: m.import_export_mitigation_cost_balance[t, r]
-                == m.mitigation_costs[t, r] - m.area_under_MAC[t, r],
-                "import_export_mitigation_cost_balance",
-            ),
         ]
     )
 
-- 
2.43.0


From 6433d065c397652ff5156acd6c39a57190f01bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 05/18] fix: extrapolate baseline data far enough for end years
 up to 2300

---
 mimosa/common/data/datastore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mimosa/common/data/datastore.py b/mimosa/common/data/datastore.py
index 8a4082c..54f74f1 100644
--- a/mimosa/common/data/datastore.py
+++ b/mimosa/common/data/datastore.py
@@ -103,7 +103,7 @@ class DataStore:
             unit = quantity.units
 
         # 2. Extrapolate this data to beyond 2100
-        extra_years = np.arange(2110, 2260, 10)
+        extra_years = np.arange(2110, 2360, 10)
         extended_data = extrapolate(
             values, years, extra_years, [var_info["variable"], region]
         )
-- 
2.43.0


From 997bb815438bb066d82483c7ab32055c1a288246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 06/18] fix: logarithmic utility when elasmu equals 1

---
 mimosa/components/welfare/utility_fct.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mimosa/components/welfare/utility_fct.py b/mimosa/components/welfare/utility_fct.py
index 96b3cca..56249a1 100644
--- a/mimosa/components/welfare/utility_fct.py
+++ b/mimosa/components/welfare/utility_fct.py
@@ -2,7 +2,7 @@
 Common utility function
 """
 
-from mimosa.common import soft_min
+from mimosa.common import log, soft_min, value
 
 
 def calc_utility(consumption, population, elasmu):
@@ -18,5 +18,9 @@ def calc_utility(consumption, population, elasmu):
 
     """
 
+    # Limit case of logarithmic utility
+    if value(elasmu) == 1:
+        return log(soft_min(consumption / population))
+
     # Note that the `soft_min` function is used to avoid division by zero
     return (soft_min(consumption / population) ** (1 - elasmu) - 1) / (1 - elasmu)
-- 
2.43.0


From 648d3e416c22d1281e0a63cf62a4fb1f40bd2803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 07/18] fix: never modify the parameter dictionary given by the
 caller

---
 mimosa/common/config/parseconfig.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mimosa/common/config/parseconfig.py b/mimosa/common/config/parseconfig.py
index c9df843..74ce568 100644
--- a/mimosa/common/config/parseconfig.py
+++ b/mimosa/common/config/parseconfig.py
@@ -2,6 +2,7 @@
 Parses the config.yaml file and checks for consistency with the default config template.
 """
 
+import copy
 import re
 
 from mimosa.common.utils import load_yaml
@@ -84,6 +85,9 @@ def load_default_yaml():
 
 
 def check_params(input_params, return_parser_tree=False):
+    # The parsed parameters should never share (nested) values with the input dictionary
+    input_params = copy.deepcopy(input_params)
+
     default_yaml = load_default_yaml()
 
     parsed_params, params_parser_tree = parse_params(
-- 
2.43.0


From 097357794b65f46601fd475ed4455ff0af84275b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:23 +0000
Subject: [PATCH 08/18] fix: no extra model year when the time step divides the
 horizon inexactly in floating point

---
 mimosa/concrete_model/instantiate_params.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mimosa/concrete_model/instantiate_params.py b/mimosa/concrete_model/instantiate_params.py
index b1e8b8e..2a09a17 100644
--- a/mimosa/concrete_model/instantiate_params.py
+++ b/mimosa/concrete_model/instantiate_params.py
@@ -62,7 +62,8 @@ class InstantiatedModel:
         t_start = params["time"]["start"]
         t_end = params["time"]["end"]
         dt = params["time"]["dt"]
-        num_years = int(np.ceil((t_end - t_start) / dt)) + 1
+        # Round to avoid an extra year because of floating point errors (e.g. 21 / 0.7)
+        num_years = int(np.ceil(round((t_end - t_start) / dt, 9))) + 1
         self.abstract_model.year = lambda t: t_start + t * dt
         year2100 = int((2100 - t_start) / dt)
 
-- 
2.43.0


From 2417c72be40a396c92024ba1e534c7927af09f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:23 +0000
Subject: [PATCH 09/18] fix: reject not-a-number for quantities

---
 mimosa/common/config/utils/parsers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mimosa/common/config/utils/parsers.py b/mimosa/common/config/utils/parsers.py
index a7dc87d..8eb4546 100644
--- a/mimosa/common/config/utils/parsers.py
+++ b/mimosa/common/config/utils/parsers.py
@@ -285,6 +285,8 @@ class QuantityParser(GeneralParser):
             UndefinedUnitError,
         ):
             self.error(f"Cannot parse quantity `{value}` to unit `{self.unit}`")
+        if np.isnan(parsed):
+            self.error(f"Quantity `{value}` is not a number")
         return value  # Returns the string, unit will be really converted when instantiating the model
 
     def to_string(self):
-- 
2.43.0


From c2902373df8974cdc6dd4cdf036242ac7e4bd0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:40 +0000
Subject: [PATCH 10/18] fix: apply the custom mapping after the values of
 combined damages

---
 mimosa/concrete_model/instantiate_params.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mimosa/concrete_model/instantiate_params.py b/mimosa/concrete_model/instantiate_params.py
index 2a09a17..ba71e13 100644
--- a/mimosa/concrete_model/instantiate_params.py
+++ b/mimosa/concrete_model/instantiate_params.py
@@ -49,6 +49,10 @@ class InstantiatedModel:
             # otherwise, the parameter values are set dynamically
             self._set_instance_data_coacch(instance_data)
 
+        ## Values given by the user take precedence over all of the above
+        if "custom_mapping" in self.params["simulation"]:
+            instance_data[None].update(self.params["simulation"]["custom_mapping"])
+
         return instance_data
 
     ########################
@@ -122,9 +126,6 @@ class InstantiatedModel:
 
         parameter_mapping.update(parameter_mapping_manual)
 
-        if "custom_mapping" in params["simulation"]:
-            parameter_mapping.update(params["simulation"]["custom_mapping"])
-
         instance_data[None].update(parameter_mapping)
 
     def _set_instance_data_coacch(self, instance_data) -> None:
-- 
2.43.0


From 262b5f69d4654cafb92116adcc80030dc2b62fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:13 +0000
Subject: [PATCH 11/18] fix: report the value of variables linked to a fixed
 aggregate variable

---
 mimosa/mimosa.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mimosa/mimosa.py b/mimosa/mimosa.py
index df40b6c..87c6614 100644
--- a/mimosa/mimosa.py
+++ b/mimosa/mimosa.py
@@ -145,6 +145,14 @@ class MIMOSA:
             TransformationFactory("contrib.aggregate_vars").update_variables(
                 self.concrete_model
             )
+            # Aggregate variables that are fixed don't reach the solver, and are
+            # therefore skipped by `update_variables`
+            aggregates = self.concrete_model._var_aggregator_info.z_to_vars
+            for aggregate_var, linked_vars in aggregates.items():
+                if aggregate_var.fixed:
+                    for var in linked_vars:
+                        var.stale = True
+                        var.set_value(aggregate_var.value, skip_validation=True)
 
     @utils.timer("Model solve", True)
     def solve(
-- 
2.43.0


From 0a33480dfe744e9e1371b46304ccd3f02fa67d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:22 +0000
Subject: [PATCH 12/18] fix: build soft-equality constraints without an
 ignore_if condition

---
 mimosa/common/pyomo_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mimosa/common/pyomo_utils.py b/mimosa/common/pyomo_utils.py
index fc7760c..f14fcfb 100644
--- a/mimosa/common/pyomo_utils.py
+++ b/mimosa/common/pyomo_utils.py
@@ -138,7 +138,7 @@ class GeneralSoftEqualityConstraint(GeneralConstraint):
             rule_rhs (typing.Callable): function (right-hand side) with parameters m, [t], [r]
             name (str, optional): name of the constraint, useful for debugging. Defaults to None.
             epsilon (float, optional): tolerance for upper/lower bounds. Defaults to 0.005.
-            ignore_if (typing.Callable): function with parameters m that returns True when constraint should be ignored
+            ignore_if (typing.Callable): function with parameters m, [t], [r] that returns True when constraint should be ignored
         """
         super().__init__(rule_lhs, [f"{name}_upperbound", f"{name}_lowerbound"])
 
@@ -147,7 +147,7 @@ class GeneralSoftEqualityConstraint(GeneralConstraint):
         self.absolute_epsilon = absolute_epsilon
 
         if ignore_if is None:
-            ignore_if = lambda m: False  # Never ignore when ignore_if is None
+            ignore_if = lambda *args: False  # Never ignore when ignore_if is None
         self.ignore_if = ignore_if
 
     def rhs_eps(self, rule_rhs, is_upper: bool, *args):
-- 
2.43.0


From cda78170c3d1b59b258edcc3102683ed77a85279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:57 +0000
Subject: [PATCH 13/18] fix: accept a dictionary for parameters of type
 str_or_plain_dict

---
 mimosa/common/config/parseconfig.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mimosa/common/config/parseconfig.py b/mimosa/common/config/parseconfig.py
index 74ce568..4621c5a 100644
--- a/mimosa/common/config/parseconfig.py
+++ b/mimosa/common/config/parseconfig.py
@@ -56,7 +56,11 @@ def create_leaf_criterium(parser_tree):
             parser_type = get_nested(parser_tree, keys).type
         except (AttributeError, KeyError):
             parser_type = None
-        if isinstance(node, dict) and parser_type not in ["dict", "datasource"]:
+        if isinstance(node, dict) and parser_type not in [
+            "dict",
+            "datasource",
+            "str_or_plain_dict",
+        ]:
             return False
         return True
 
-- 
2.43.0


From 66df23babff7d9f33d54f9611d787a6be79f2b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:47 +0000
Subject: [PATCH 14/18] fix: replace a parameter mentioned in a documentation
 page only where exactly it is mentioned

---
 docs/scripts/mkdocs_hooks.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/docs/scripts/mkdocs_hooks.py b/docs/scripts/mkdocs_hooks.py
index dbaff4d..a7a0379 100644
--- a/docs/scripts/mkdocs_hooks.py
+++ b/docs/scripts/mkdocs_hooks.py
@@ -163,7 +163,7 @@ def _print_param(tree, mainkey, breadcrumbs, indent=""):
 
 
 def on_page_content(html, **kwargs):
-    pattern = re.compile(r"(param::([a-zA-Z0-9_]+))")
+    pattern = re.compile(r"((?<!manual)param::([a-zA-Z0-9_]+))")
     for match, param_name in re.findall(pattern, html):
         try:
             param = getattr(model, param_name)
@@ -174,7 +174,9 @@ def on_page_content(html, **kwargs):
                     keys = param.doc.split("::")[1].split(".")
                     doc = get_nested(parser_tree, keys).to_string()
                     formatted_text = f"<a href='../../parameters/#{param.doc.split('::')[1]}'><code>{param_name}</code></a>: {doc}"
-            html = html.replace(match, formatted_text)
+            # Only replace this reference, and not longer names starting with it
+            exact_match = rf"(?<!manual){match}(?![a-zA-Z0-9_])"
+            html = re.sub(exact_match, lambda _: formatted_text, html)
 
         except AttributeError:
             pass
-- 
2.43.0


From 6857a557fda23fe9c643f973a30479581aad91d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:05 +0000
Subject: [PATCH 15/18] fix: let several soft-equality constraints go without a
 name

---
 mimosa/common/pyomo_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mimosa/common/pyomo_utils.py b/mimosa/common/pyomo_utils.py
index f14fcfb..f50581c 100644
--- a/mimosa/common/pyomo_utils.py
+++ b/mimosa/common/pyomo_utils.py
@@ -140,7 +140,11 @@ class GeneralSoftEqualityConstraint(GeneralConstraint):
             epsilon (float, optional): tolerance for upper/lower bounds. Defaults to 0.005.
             ignore_if (typing.Callable): function with parameters m, [t], [r] that returns True when constraint should be ignored
         """
-        super().__init__(rule_lhs, [f"{name}_upperbound", f"{name}_lowerbound"])
+        super().__init__(
+            rule_lhs,
+            # Without name, each of both constraints gets its own generated name
+            [f"{name}_upperbound", f"{name}_lowerbound"] if name else [None, None],
+        )
 
         self.rule_rhs = rule_rhs
         self.epsilon = epsilon
-- 
2.43.0


From ea7ed3294ddbaee76f8d8763c4d14eda7f2d0282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:27 +0000
Subject: [PATCH 16/18] fix: run_calibration.py fails when the output folder
 does not exist yet

---
 run_calibration.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/run_calibration.py b/run_calibration.py
index 455730f..f65d0c3 100644
--- a/run_calibration.py
+++ b/run_calibration.py
@@ -8,10 +8,7 @@ params = load_params()
 params["economics"]["damages"]["ignore damages"] = True
 params["time"]["end"] = 2100
 
-try:
-    os.mkdir("output/calibration")
-except FileExistsError:
-    pass
+os.makedirs("output/calibration", exist_ok=True)
 
 carbon_budgets = np.arange(200, 1501, 100)
 
-- 
2.43.0


From 623dc31c2f01902f721d632d328573ade93070bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:35 +0000
Subject: [PATCH 17/18] fix: the unit of the carbon price is money per amount
 of emissions, not per year

---
 mimosa/components/mitigation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mimosa/components/mitigation.py b/mimosa/components/mitigation.py
index f2c4da7..abd49d4 100644
--- a/mimosa/components/mitigation.py
+++ b/mimosa/components/mitigation.py
@@ -197,7 +197,7 @@ def _get_mac_constraints(m: AbstractModel) -> Sequence[GeneralConstraint]:
         m.t,
         m.regions,
         bounds=lambda m: (0, 2 * m.MAC_gamma),
-        units=quant.unit("currency_unit/emissions_unit"),
+        units=quant.unit("currency_unit/emissionsrate_unit"),
     )
     constraints.extend(
         [
-- 
2.43.0


From 5187ffb67ec50d2e607b2af30a2c0669456d1b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:20 +0000
Subject: [PATCH 18/18] fix: imposed paths of regions that lack values for some
 of the years

A region without a value in one of the years of an imposed path (simulation
mode) was interpolated through not-a-number, so that the problem handed to the
solver had not-a-number bounds in every year of that region. Only the years
for which the region has a value are used.
---
 mimosa/concrete_model/simulation_mode/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mimosa/concrete_model/simulation_mode/utils.py b/mimosa/concrete_model/simulation_mode/utils.py
index 89fbf3a..350bcfe 100644
--- a/mimosa/concrete_model/simulation_mode/utils.py
+++ b/mimosa/concrete_model/simulation_mode/utils.py
@@ -40,6 +40,8 @@ class InterpolatingData:
 
     @staticmethod
     def interp(row):
+        # Only use the years for which this region has data
+        row = row.dropna()
         values = row.values
         years = row.index.astype(float).to_numpy()
         extra_years = np.arange(years[-1] + 5, 2151, 5)
-- 
2.43.0

