From 7d03f86e3a344505b6e6698466ea3a31058ee5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:14 +0000
Subject: [PATCH 01/62] fix: do not crash on filters that carry no value
 (is_null, boolean_true, ...)

---
 metrics_layer/core/sql/query_filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metrics_layer/core/sql/query_filter.py b/metrics_layer/core/sql/query_filter.py
index 5993e31..0793e27 100644
--- a/metrics_layer/core/sql/query_filter.py
+++ b/metrics_layer/core/sql/query_filter.py
@@ -141,14 +141,14 @@ class MetricsLayerFilter(MetricsLayerBase):
                     pass
 
             if self.design.query_type in Definitions.needs_datetime_cast and isinstance(
-                definition["value"], datetime.datetime
+                definition.get("value"), datetime.datetime
             ):
                 definition["value"] = datatype_cast(self.field, definition["value"])
 
-            if self.field.type == "yesno" and "False" in str(definition["value"]):
+            if self.field.type == "yesno" and "False" in str(definition.get("value")):
                 definition["expression"] = "boolean_false"
 
-            if self.field.type == "yesno" and "True" in str(definition["value"]):
+            if self.field.type == "yesno" and "True" in str(definition.get("value")):
                 definition["expression"] = "boolean_true"
 
     def group_sql_query(
-- 
2.43.0


From a3ffee638e13c40980dca5dbe3dfed9c5c7fd53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:40 +0000
Subject: [PATCH 02/62] fix: use symmetric aggregates when a one_to_many join
 branches off a duplicated view

---
 metrics_layer/core/sql/query_design.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/metrics_layer/core/sql/query_design.py b/metrics_layer/core/sql/query_design.py
index a1113e5..f6f3023 100644
--- a/metrics_layer/core/sql/query_design.py
+++ b/metrics_layer/core/sql/query_design.py
@@ -235,6 +235,8 @@ class MetricsLayerDesign:
 
         previous_join_type = None
         base_sequence = deepcopy([base_view.name])
+        # The views that have exactly one row per row of the view the joins are currently based on
+        views_at_grain = {base_view.name}
         for i, j in enumerate(sorted_joins):
             previous_join_type = None if i == 0 else sorted_joins[i - 1].relationship
             if j.relationship == ZenlyticJoinRelationship.many_to_many:
@@ -246,7 +248,16 @@ class MetricsLayerDesign:
             ):
                 return Definitions.does_not_exist
             elif j.relationship == ZenlyticJoinRelationship.one_to_many:
+                # If this join branches off from a view that earlier joins have already
+                # duplicated (or a view many_to_one to the base), no view's key is unique
+                if j.base_view_name not in views_at_grain:
+                    return Definitions.does_not_exist
                 base_sequence.append(j.join_view_name)
+                views_at_grain = {j.join_view_name}
+            elif (
+                j.relationship == ZenlyticJoinRelationship.one_to_one and j.base_view_name in views_at_grain
+            ):
+                views_at_grain.add(j.join_view_name)
         primary_key = base_sequence[-1]
         return primary_key
 
-- 
2.43.0


From 6cb77e3bff948825db510893baf634cbab235ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:12 +0000
Subject: [PATCH 03/62] fix: a literal filter with OR no longer escapes access
 filters and other conditions

---
 metrics_layer/core/sql/query_generator.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/metrics_layer/core/sql/query_generator.py b/metrics_layer/core/sql/query_generator.py
index 5fea256..2795bbf 100644
--- a/metrics_layer/core/sql/query_generator.py
+++ b/metrics_layer/core/sql/query_generator.py
@@ -1,3 +1,4 @@
+import re
 from copy import copy
 from typing import Dict, List
 
@@ -170,7 +171,7 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
 
         # Apply the where filters
         if self.where_filters:
-            where = [f.sql_query() for f in self.where_filters]
+            where = [self._where_criterion(f) for f in self.where_filters]
             base_query = base_query.where(Criterion.all(where))
 
         # Group by
@@ -281,6 +282,14 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
             sql += ";"
         return sql
 
+    def _where_criterion(self, where_filter: MetricsLayerFilter):
+        criterion = where_filter.sql_query()
+        is_combined = len(self.where_filters) > 1 or self.having_group_by_filters or self.funnel_filters
+        # A literal with a top level OR must not swallow the conditions (e.g. access filters) next to it
+        if where_filter.is_literal_filter and is_combined and re.search(r"(?i)\bor\b", criterion.sql_query):
+            return LiteralValueCriterion(f"({criterion.sql_query})")
+        return criterion
+
     # Code to handle SELECT portion of query
     def get_select_columns(self):
         if self.no_group_by:
-- 
2.43.0


From 8dcb510fe9696f9a745298c88c60e6edaebcf64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:12 +0000
Subject: [PATCH 04/62] fix: allow more than one group_by (subquery) filter in
 a query

---
 metrics_layer/core/sql/query_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metrics_layer/core/sql/query_generator.py b/metrics_layer/core/sql/query_generator.py
index 2795bbf..82bc587 100644
--- a/metrics_layer/core/sql/query_generator.py
+++ b/metrics_layer/core/sql/query_generator.py
@@ -186,7 +186,7 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
 
         if self.having_group_by_filters:
             group_by_where = []
-            for i, f in enumerate(sorted(self.having_group_by_filters)):
+            for i, f in enumerate(self.having_group_by_filters):
                 cte_alias = f"filter_subquery_{i}"
                 cte_query = f.cte(query_class=MetricsLayerQuery, design_class=MetricsLayerDesign)
                 base_query = base_query.with_(Table(cte_query), cte_alias)
-- 
2.43.0


From 2dd020986c1123bd771014b3ac05e55378da89e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:17 +0000
Subject: [PATCH 05/62] fix: join the view of the field a group_by (subquery)
 filter groups by

---
 metrics_layer/core/sql/single_query_resolve.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/metrics_layer/core/sql/single_query_resolve.py b/metrics_layer/core/sql/single_query_resolve.py
index 8438af3..6b0d369 100644
--- a/metrics_layer/core/sql/single_query_resolve.py
+++ b/metrics_layer/core/sql/single_query_resolve.py
@@ -180,6 +180,13 @@ class SingleSQLQueryResolver:
         for name in self._order_by_field_names:
             self.field_lookup[name] = self.get_field_with_error_handling(name, "Order by field")
 
+        # The field a subquery filter groups by is compared in the main query, so its view must be joined in
+        for clause in (self.where, self.having):
+            for condition in [] if self._is_literal(clause) else clause:
+                if "group_by" in condition:
+                    name = condition["group_by"]
+                    self.field_lookup[name] = self.get_field_with_error_handling(name, "Group by filter field")
+
     def get_field_with_error_handling(self, field_name: str, error_prefix: str):
         field = self.project.get_field(field_name, model=self.model)
         if field is None:
-- 
2.43.0


From 044859d25903aef6cb74c3d16e68d9346f37d797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:40 +0000
Subject: [PATCH 06/62] fix: having filter on a metric that shares its column
 with a cumulative metric

---
 metrics_layer/core/sql/query_cumulative_metric.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/metrics_layer/core/sql/query_cumulative_metric.py b/metrics_layer/core/sql/query_cumulative_metric.py
index 029dfe0..1f9c33b 100644
--- a/metrics_layer/core/sql/query_cumulative_metric.py
+++ b/metrics_layer/core/sql/query_cumulative_metric.py
@@ -77,7 +77,13 @@ class CumulativeMetricsQuery(MetricsLayerQueryBase):
         base_cte_query = base_cte_query.select(*select)
 
         if self.having:
-            where = self.get_where_with_aliases(self.having, project=self.design)
+            # A non-cumulative metric can have the same column name as the measure behind a cumulative metric
+            cumulative_aliases = {f.measure.alias(with_view=True) for f in self.cumulative_metrics}
+            metric_aliases = {f.alias(with_view=True) for f in self.non_cumulative_metrics}
+            cte_alias_lookup = {a: self.base_cte_name for a in metric_aliases & cumulative_aliases}
+            where = self.get_where_with_aliases(
+                self.having, project=self.design, cte_alias_lookup=cte_alias_lookup
+            )
             base_cte_query = base_cte_query.where(Criterion.all(where))
 
         base_cte_query = base_cte_query.limit(self.limit)
-- 
2.43.0


From 97722b46d4e3b5810ffba33f6e8c6be7ae6faa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:38 +0000
Subject: [PATCH 07/62] fix: date filter on a cumulative query whose date
 belongs to another metric's view

---
 metrics_layer/core/sql/query_cumulative_metric.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metrics_layer/core/sql/query_cumulative_metric.py b/metrics_layer/core/sql/query_cumulative_metric.py
index 1f9c33b..62f508b 100644
--- a/metrics_layer/core/sql/query_cumulative_metric.py
+++ b/metrics_layer/core/sql/query_cumulative_metric.py
@@ -258,11 +258,11 @@ class CumulativeMetricsQuery(MetricsLayerQueryBase):
             where_field = self.design.get_field(w["field"])
             if self._is_default_date(where_field):
                 date_having = deepcopy(w)
-                dimension_group = deepcopy(date_field.dimension_group)
-                date_field.dimension_group = where_field.dimension_group
-                date_having["field"] = date_field.id()
                 date_having["query_type"] = self.query_type
                 f = MetricsLayerFilter(definition=date_having, design=self.design, filter_type="having")
+                # The date spine takes the filter's timeframe, whichever metric's default date the filter is on
+                dimension_group = deepcopy(date_field.dimension_group)
+                date_field.dimension_group = where_field.dimension_group
                 date_spine_sql = date_field.apply_dimension_group_time_sql(
                     date_spine_reference, self.query_type
                 )
-- 
2.43.0


From 5c7084ad835b6c31bdfe96c3748da46884292c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:55 +0000
Subject: [PATCH 08/62] fix: a cumulative metric's where timeframe leaked into
 other cumulative metrics on the same date

---
 metrics_layer/core/sql/query_cumulative_metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metrics_layer/core/sql/query_cumulative_metric.py b/metrics_layer/core/sql/query_cumulative_metric.py
index 62f508b..d5cb4c1 100644
--- a/metrics_layer/core/sql/query_cumulative_metric.py
+++ b/metrics_layer/core/sql/query_cumulative_metric.py
@@ -312,7 +312,7 @@ class CumulativeMetricsQuery(MetricsLayerQueryBase):
                 and field.dimension_group != dimension_group
                 and cumulative_metric.update_where_timeframe
             ):
-                field.dimension_group = dimension_group
+                field = self.design.get_field(f"{field.view.name}.{field.name}_{dimension_group}")
 
             sql = field.sql_query(query_type=self.query_type, alias_only=True)
             replaced_where = replaced_where.replace("${" + ref + "}", f"{cte_prefix}.{sql}")
-- 
2.43.0


From 4032926991990c183923c9961148c207edf81539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:09 +0000
Subject: [PATCH 09/62] fix: do not repeat in a funnel a metric that the query
 both requests and filters on

---
 metrics_layer/core/sql/query_funnel.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/metrics_layer/core/sql/query_funnel.py b/metrics_layer/core/sql/query_funnel.py
index 46fbf7b..c90cb13 100644
--- a/metrics_layer/core/sql/query_funnel.py
+++ b/metrics_layer/core/sql/query_funnel.py
@@ -129,8 +129,11 @@ class FunnelQuery(MetricsLayerQueryBase):
 
         event_condition_fields = self._get_event_condition_fields()
 
-        having_metrics = list(set(f["field"] for f in self.having)) if self.having else []
-        self.metrics = self.metrics + having_metrics
+        having_metrics = sorted(set(f["field"] for f in self.having)) if self.having else []
+        requested_metrics = {self.design.get_field(m).id() for m in self.metrics}
+        self.metrics = self.metrics + [
+            m for m in having_metrics if self.design.get_field(m).id() not in requested_metrics
+        ]
 
         base_dimensions = self.dimensions + [event_date.id()] + event_condition_fields
         join_graphs = self.join_graphs_for_query(self.metrics, base_dimensions, self.where)
-- 
2.43.0


From aab2f91e9a72434ea19770dad94b0c77eedf98f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:23 +0000
Subject: [PATCH 10/62] fix: funnel with a filtered metric referred to columns
 of the filters that the funnel's base does not have

---
 metrics_layer/core/model/field.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metrics_layer/core/model/field.py b/metrics_layer/core/model/field.py
index 8408d23..7a1930f 100644
--- a/metrics_layer/core/model/field.py
+++ b/metrics_layer/core/model/field.py
@@ -573,7 +573,9 @@ class Field(MetricsLayerBase, SQLReplacement):
         return different_functional_pk
 
     def _get_sql_distinct_key(self, sql_distinct_key: str, query_type: str, alias_only: bool):
-        if self.filters:
+        # The aliased measure column is already filtered, and the columns
+        # the filters refer to are not part of the query we are selecting it from
+        if self.filters and not alias_only:
             clean_sql_distinct_key = Filter.translate_looker_filters_to_sql(
                 sql_distinct_key, self.filters, self.view
             )
-- 
2.43.0


From ad07c2d8f05ebff999de4bc3c0f4f820ed6a0e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:13 +0000
Subject: [PATCH 11/62] fix: a query with a non-additive metric could use or
 delete a measure of the user named like its temporary one

---
 metrics_layer/core/sql/query_generator.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/metrics_layer/core/sql/query_generator.py b/metrics_layer/core/sql/query_generator.py
index 82bc587..0aa5eb1 100644
--- a/metrics_layer/core/sql/query_generator.py
+++ b/metrics_layer/core/sql/query_generator.py
@@ -401,6 +401,16 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
 
         temp_field_name = definition["window_choice"] + "_" + definition["name"].split(".")[-1]
         project = copy(self.design.project)
+        # The temporary field must not touch the fields of the project this one was copied from
+        # (which may have a field with the name of the temporary field)
+        project._views = [
+            (
+                {**view, "fields": [f for f in view["fields"] if f["name"].lower() != temp_field_name.lower()]}
+                if view["name"] == non_additive_dimension.view.name
+                else view
+            )
+            for view in project._views
+        ]
         project.add_field(
             {
                 "name": temp_field_name,
@@ -427,9 +437,7 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
             "return_pypika_query": True,
         }
         generator = MetricsLayerQuery(config, design=design)
-        cte_query = generator.get_query()
-        project.remove_field(temp_field_name, view_name=non_additive_dimension.view.name, refresh_cache=False)
-        return cte_query
+        return generator.get_query()
 
     # Code for the GROUP BY part of the query
     def get_group_by_columns(self):
-- 
2.43.0


From 9e58439e4e6443ea6ccad0395814e8bef1ae1c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:00 +0000
Subject: [PATCH 12/62] fix: rows outside the window of a non-additive average,
 median, min or max metric counted as 0

---
 metrics_layer/core/model/field.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/metrics_layer/core/model/field.py b/metrics_layer/core/model/field.py
index 7a1930f..f5e8c97 100644
--- a/metrics_layer/core/model/field.py
+++ b/metrics_layer/core/model/field.py
@@ -273,9 +273,10 @@ class Field(MetricsLayerBase, SQLReplacement):
 
             else_0 = False
             if non_additive_dimension := self.non_additive_dimension:
-                # We need to do else 0 if it's a numeric operation like sum, average, etc
-                # But we need to do else null if it is a non numeric op like count, count_distinct
-                else_0 = self.type not in {ZenlyticType.count, ZenlyticType.count_distinct}
+                # We need to do else 0 if it's a sum, which the rows outside of the window do not change.
+                # But we need to do else null for all other types (e.g. count, average, max, min),
+                # because there a 0 is one more value to aggregate
+                else_0 = self.type in {ZenlyticType.sum, ZenlyticType.sum_distinct}
                 if isinstance(self.non_additive_dimension, dict):
                     filters_to_apply += [
                         {
-- 
2.43.0


From 5188d5d94b5b0d8f8b4c1081898adc74cb909116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:42 +0000
Subject: [PATCH 13/62] fix: a date of another view narrowed the window of a
 non-additive metric not aware of the query's dimensions

---
 metrics_layer/core/sql/query_generator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metrics_layer/core/sql/query_generator.py b/metrics_layer/core/sql/query_generator.py
index 0aa5eb1..173cae2 100644
--- a/metrics_layer/core/sql/query_generator.py
+++ b/metrics_layer/core/sql/query_generator.py
@@ -203,10 +203,10 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
                 else:
                     non_additive_dim = self.design.get_field(definition["name"])
                     # Only add a dimension if it's a variation of the non additive dimension
-                    dimensions_to_add = [
-                        d for d in self.dimensions if non_additive_dim.name == self.design.get_field(d).name
-                    ]
-                    group_by_dimensions.extend(dimensions_to_add)
+                    for d in self.dimensions:
+                        field = self.design.get_field(d)
+                        if non_additive_dim.name == field.name and non_additive_dim.view.name == field.view.name:
+                            group_by_dimensions.append(d)
                 group_by_dimensions = list(
                     sorted(set(group_by_dimensions), key=lambda x: group_by_dimensions.index(x))
                 )
-- 
2.43.0


From 5068cf4ec6749aeb291e39b774f1c6f00e8e5633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:58 +0000
Subject: [PATCH 14/62] fix: a cumulative query can be a sub-query of a merged
 query

---
 metrics_layer/core/sql/query_cumulative_metric.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metrics_layer/core/sql/query_cumulative_metric.py b/metrics_layer/core/sql/query_cumulative_metric.py
index d5cb4c1..8351019 100644
--- a/metrics_layer/core/sql/query_cumulative_metric.py
+++ b/metrics_layer/core/sql/query_cumulative_metric.py
@@ -87,6 +87,9 @@ class CumulativeMetricsQuery(MetricsLayerQueryBase):
             base_cte_query = base_cte_query.where(Criterion.all(where))
 
         base_cte_query = base_cte_query.limit(self.limit)
+        if self.return_pypika_query:
+            return base_cte_query
+
         sql = str(base_cte_query)
         if semicolon:
             sql += ";"
-- 
2.43.0


From 586693c868b06cbb5ff8b487647dbcae22469cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:01 +0000
Subject: [PATCH 15/62] fix: an interval of 'ago for N quarters' lasts until
 the end of its last day

---
 metrics_layer/core/model/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metrics_layer/core/model/filter.py b/metrics_layer/core/model/filter.py
index 9be8867..d28bdeb 100644
--- a/metrics_layer/core/model/filter.py
+++ b/metrics_layer/core/model/filter.py
@@ -191,7 +191,7 @@ class Filter(MetricsLayerBase):
         plural_date_part = FilterInterval.plural(date_part)
         singular_date_part = FilterInterval.singular(date_part)
         if singular_date_part == "quarter":
-            date = date.add(months=3 * lag).last_of("quarter")
+            date = date.add(months=3 * lag).last_of("quarter").end_of("day")
         else:
             date = date.add(**{plural_date_part: lag}).end_of(singular_date_part)
         return date
-- 
2.43.0


From 7003e260cabed754920c96cad556df9e8a6ebd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:01 +0000
Subject: [PATCH 16/62] fix: 'to date' intervals count calendar days across a
 clock change

---
 metrics_layer/core/model/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metrics_layer/core/model/filter.py b/metrics_layer/core/model/filter.py
index d28bdeb..1b97534 100644
--- a/metrics_layer/core/model/filter.py
+++ b/metrics_layer/core/model/filter.py
@@ -311,7 +311,7 @@ class Filter(MetricsLayerBase):
 
             # We need to figure out how many days are between now and the start of the period
             start_of_period = Filter._start_date(lag=0, date_part=date_part, tz=tz, return_date=True)
-            time_change = Filter._today(tz=tz) - start_of_period
+            time_change = Filter._today(tz=tz).date() - start_of_period.date()
             lag = time_change.days - 1 if time_change.days > 0 else 0
             end_date = Filter._add_to_end_date(start_date, lag=lag, date_part="day")
             result.append((end_expression, Filter._date_to_string(end_date)))
-- 
2.43.0


From 3db9b63378eaefe5e3b761444e864af12922ef82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:23 +0000
Subject: [PATCH 17/62] fix: date filters of measures use the model's week
 start day and timezone

---
 metrics_layer/core/model/filter.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/metrics_layer/core/model/filter.py b/metrics_layer/core/model/filter.py
index 1b97534..57de292 100644
--- a/metrics_layer/core/model/filter.py
+++ b/metrics_layer/core/model/filter.py
@@ -483,10 +483,22 @@ class Filter(MetricsLayerBase):
     def _date_to_string(date_obj):
         return date_obj.strftime("%Y-%m-%dT%H:%M:%S")
 
+    @staticmethod
+    def _date_settings(view: "View"):
+        try:
+            week_start_day, timezone = view.week_start_day, view.project.timezone
+            if timezone:
+                pendulum.timezone(timezone)
+            return week_start_day, timezone
+        # An invalid model or timezone is reported when the project is validated
+        except Exception:
+            return None, None
+
     @staticmethod
     def translate_looker_filters_to_sql(sql: str, filters: list, view: "View", else_0: bool = False):
         case_sql = "case when "
         conditions = []
+        week_start_day, timezone = Filter._date_settings(view)
         for f in filters:
             # All filters must have both of these keys, otherwise they are invalid
             if not all(k in f for k in ["field", "value"]):
@@ -502,7 +514,10 @@ class Filter(MetricsLayerBase):
             except Exception:
                 field_datatype = "unknown"
             filter_dict = Filter._filter_dict(
-                f["field"], f["value"], f.get("week_start_day"), f.get("timezone")
+                f["field"],
+                f["value"],
+                f.get("week_start_day", week_start_day),
+                f.get("timezone", timezone),
             )
             if isinstance(filter_dict, dict):
                 filter_list = [filter_dict]
-- 
2.43.0


From 17b18eea5c1380c7f88abd66ec121f597650e40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:53 +0000
Subject: [PATCH 18/62] fix: an identifier join that replaces an explicit join
 no longer keeps the explicit join's join type

---
 metrics_layer/core/model/join_graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metrics_layer/core/model/join_graph.py b/metrics_layer/core/model/join_graph.py
index 10e8fda..3f7e2cc 100644
--- a/metrics_layer/core/model/join_graph.py
+++ b/metrics_layer/core/model/join_graph.py
@@ -183,6 +183,9 @@ class JoinGraph(SQLReplacement):
                             new_score = self._join_preference.index(join_info["relationship"])
                             # Only if the new identifier gives us a more preferable join will we change
                             if existing_score > new_score:
+                                # add_edge only updates the attributes of an existing edge, so the ones
+                                # of the join we are replacing (like join_type) have to be removed first
+                                graph[view.name][join_view_name].clear()
                                 graph.add_edge(view.name, join_view_name, **join_info)
                         else:
                             graph.add_edge(view.name, join_view_name, **join_info)
-- 
2.43.0


From 8031bcfbbbf19bc1f7114f28a094fd8b5fe480b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:53 +0000
Subject: [PATCH 19/62] fix: views joinable only through a view that joins to
 none of them directly no longer raise a join error

---
 metrics_layer/core/sql/query_design.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/metrics_layer/core/sql/query_design.py b/metrics_layer/core/sql/query_design.py
index f6f3023..1119549 100644
--- a/metrics_layer/core/sql/query_design.py
+++ b/metrics_layer/core/sql/query_design.py
@@ -90,6 +90,18 @@ class MetricsLayerDesign:
                 except ValueError:
                     pass
 
+            # None of those joins reaches every required view, so the required views have to be
+            # joined starting from a view that is not directly joined to any of them
+            join_roots = set.intersection(*({v, *networkx.ancestors(g, v)} for v in required_views))
+            options = []
+            for view_pair in sorted(e for e in raw_edges if e not in edges and e[0] in join_roots):
+                try:
+                    options.append(self._greedy_build_join(g, view_pair, required_views))
+                except ValueError:
+                    pass
+            if options:
+                return min(options, key=len)
+
             raise networkx.exception.NetworkXNoPath
 
     def _bridge_views(self, required_views: list):
-- 
2.43.0


From e45220bf822ac96f8656ee4e29a530ef88d79d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:53 +0000
Subject: [PATCH 20/62] fix: dimensions of unjoinable views without a date
 raise a query error instead of an AttributeError

---
 metrics_layer/core/sql/merged_query_resolve.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metrics_layer/core/sql/merged_query_resolve.py b/metrics_layer/core/sql/merged_query_resolve.py
index 8c8b5f6..175d75e 100644
--- a/metrics_layer/core/sql/merged_query_resolve.py
+++ b/metrics_layer/core/sql/merged_query_resolve.py
@@ -239,6 +239,11 @@ class MergedSQLQueryResolver(SingleSQLQueryResolver):
                                     break
 
                 if not_in_metrics:
+                    if field.canon_date is None:
+                        raise QueryError(
+                            f"Could not find a date field associated with field {field.id()} "
+                            "in the project, so it cannot be merged with the other fields in the query."
+                        )
                     field_key = f"{field.view.name}.{field.name}"
                     canon_date = field.canon_date.replace(".", "_")
                     key = f"{canon_date}__{join_group_hash}"
-- 
2.43.0


From f8b597a7a8ee402133f25716c54fdc049ef8d571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:31 +0000
Subject: [PATCH 21/62] fix: mapped fields in one join graph are no longer
 labelled as mergeable with metrics of another

---
 metrics_layer/core/model/join_graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metrics_layer/core/model/join_graph.py b/metrics_layer/core/model/join_graph.py
index 3f7e2cc..d155147 100644
--- a/metrics_layer/core/model/join_graph.py
+++ b/metrics_layer/core/model/join_graph.py
@@ -280,6 +280,9 @@ class JoinGraph(SQLReplacement):
                 continue
             for reference in mapping["references"]:
                 to_field = reference["field"]
+                # Fields in the same join graph don't give the other join graph anything to map to
+                if mapping["from_join_hash"] == reference["to_join_hash"]:
+                    continue
                 if mapping["from_join_hash"] in must_exist_in and reference["to_join_hash"] in must_exist_in:
                     from_ = self._get_field_with_memo(from_field).id()
                     to_ = self._get_field_with_memo(to_field).id()
-- 
2.43.0


From 8d0463139942c53794fd7ee0dcb230f4a0488e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:09 +0000
Subject: [PATCH 22/62] fix: a mapping with a field of a view without a date no
 longer breaks merged queries over the other fields

---
 metrics_layer/core/sql/merged_query_resolve.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metrics_layer/core/sql/merged_query_resolve.py b/metrics_layer/core/sql/merged_query_resolve.py
index 175d75e..6523f4c 100644
--- a/metrics_layer/core/sql/merged_query_resolve.py
+++ b/metrics_layer/core/sql/merged_query_resolve.py
@@ -233,7 +233,6 @@ class MergedSQLQueryResolver(SingleSQLQueryResolver):
                             # If the field is in a different subgraph, attach it to the correct subgraph
                             # using the mapping that exists going "to" the join hash we're in the loop for
                             else:
-                                canon_date = ref_field.canon_date.replace(".", "_")
                                 if mapping_info["to_join_hash"] in join_hash:
                                     self.query_dimensions[join_hash].append(ref_field)
                                     break
@@ -252,6 +251,9 @@ class MergedSQLQueryResolver(SingleSQLQueryResolver):
                     if field_key in dimension_mapping:
                         for mapping_info in dimension_mapping[field_key]:
                             ref_field = self.project.get_field(mapping_info["field"])
+                            # A mapped field without a date has no place in the merged query
+                            if ref_field.canon_date is None:
+                                continue
                             canon_date = ref_field.canon_date.replace(".", "_")
                             mapped_key = f"{canon_date}__{mapping_info['to_join_hash']}"
                             self.query_dimensions[mapped_key].append(ref_field)
-- 
2.43.0


From d9c9989ea3f5a0e669d88d475c2267ae68be2f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:05 +0000
Subject: [PATCH 23/62] fix: using a project no longer rewrites its definitions
 (label prefix, filters, always filters, non-additive dimensions)

---
 metrics_layer/core/model/field.py         | 7 +++++--
 metrics_layer/core/model/view.py          | 2 ++
 metrics_layer/core/sql/query_generator.py | 2 +-
 metrics_layer/core/sql/resolve.py         | 2 +-
 4 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/metrics_layer/core/model/field.py b/metrics_layer/core/model/field.py
index f5e8c97..af3d970 100644
--- a/metrics_layer/core/model/field.py
+++ b/metrics_layer/core/model/field.py
@@ -453,6 +453,8 @@ class Field(MetricsLayerBase, SQLReplacement):
     def non_additive_dimension(self):
         non_additive_dimension = self._definition.get("non_additive_dimension")
         if non_additive_dimension and isinstance(non_additive_dimension, dict):
+            # The definition belongs to the project, so it must not be modified
+            non_additive_dimension = {**non_additive_dimension}
             if "." not in non_additive_dimension["name"]:
                 qualified_name = f"{self.view.name}.{non_additive_dimension['name']}"
                 non_additive_dimension["name"] = qualified_name
@@ -1665,6 +1667,7 @@ class Field(MetricsLayerBase, SQLReplacement):
 
                 else:
                     if "field" in f and isinstance(f["field"], str) and "." not in f["field"]:
+                        f = f.copy()
                         f["field"] = f"{self.view.name}.{f['field']}"
 
                     if "field" in f and f["field"] == f"{self.view.name}.{self.name}":
@@ -2347,7 +2350,7 @@ class Field(MetricsLayerBase, SQLReplacement):
                                     (
                                         f"Field {self.name} in view {self.view.name} has an invalid"
                                         " non_additive_dimension. The field"
-                                        f" {self._definition['non_additive_dimension']['name']} referenced in"
+                                        f" {self.non_additive_dimension['name']} referenced in"
                                         " non_additive_dimension is not a valid dimension group with type"
                                         " time."
                                     ),
@@ -2360,7 +2363,7 @@ class Field(MetricsLayerBase, SQLReplacement):
                                 (
                                     f"Field {self.name} in view {self.view.name} has an invalid"
                                     " non_additive_dimension. The field"
-                                    f" {self._definition['non_additive_dimension']['name']} referenced in"
+                                    f" {self.non_additive_dimension['name']} referenced in"
                                     " non_additive_dimension does not exist."
                                 ),
                             )
diff --git a/metrics_layer/core/model/view.py b/metrics_layer/core/model/view.py
index 0c778a6..70f53b7 100644
--- a/metrics_layer/core/model/view.py
+++ b/metrics_layer/core/model/view.py
@@ -433,6 +433,7 @@ class View(MetricsLayerBase, SQLReplacement):
                     continue
 
                 if "field" in f and isinstance(f["field"], str) and "." not in f["field"]:
+                    f = f.copy()
                     f["field"] = f"{self.name}.{f['field']}"
                 errors.extend(
                     Field.collect_field_filter_errors(
@@ -979,6 +980,7 @@ class View(MetricsLayerBase, SQLReplacement):
         fields = []
         for f in self._definition.get("fields", []):
             if self.field_prefix:
+                f = f.copy()
                 f["label_prefix"] = self.field_prefix
             field = Field(f, view=self)
             if self.project.can_access_field(field):
diff --git a/metrics_layer/core/sql/query_generator.py b/metrics_layer/core/sql/query_generator.py
index 173cae2..1e01dea 100644
--- a/metrics_layer/core/sql/query_generator.py
+++ b/metrics_layer/core/sql/query_generator.py
@@ -197,7 +197,7 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
 
         if self.non_additive_ctes:
             for definition in sorted(self.non_additive_ctes, key=lambda x: x["alias"]):
-                group_by_dimensions = definition.get("window_groupings", [])
+                group_by_dimensions = list(definition.get("window_groupings", []))
                 if definition.get("window_aware_of_query_dimensions", True):
                     group_by_dimensions.extend([d.lower() for d in self.dimensions])
                 else:
diff --git a/metrics_layer/core/sql/resolve.py b/metrics_layer/core/sql/resolve.py
index f248065..e486cb1 100644
--- a/metrics_layer/core/sql/resolve.py
+++ b/metrics_layer/core/sql/resolve.py
@@ -479,7 +479,7 @@ class SQLQueryResolver(SingleSQLQueryResolver):
                     parsed_filters = []
                     for f in field.view.always_filter:
                         if "." not in f["field"]:
-                            f["field"] = f"{field.view.name}.{f['field']}"
+                            f = {**f, "field": f"{field.view.name}.{f['field']}"}
                         parsed_filters.extend(Filter({**f, **to_add}).filter_dict(json_safe=True))
                     always_where.extend(parsed_filters)
             # Handle mappings exception
-- 
2.43.0


From 83a4dc0dc27dc07b6900ba9a069e7a1bbcd07c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:26 +0000
Subject: [PATCH 24/62] fix: resolving a query no longer modifies the lists and
 filters passed by the caller

---
 metrics_layer/core/query/query.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/metrics_layer/core/query/query.py b/metrics_layer/core/query/query.py
index 0ab3469..eeb1960 100644
--- a/metrics_layer/core/query/query.py
+++ b/metrics_layer/core/query/query.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 import sqlparse
 
 from metrics_layer.core.convert import MQLConverter
@@ -122,6 +124,11 @@ class MetricsLayerConnection:
         merged_queries: list = [],
         **kwargs,
     ):
+        # Resolving the query replaces and completes parts of these, and they belong to the caller
+        metrics, dimensions, funnel = deepcopy(metrics), deepcopy(dimensions), deepcopy(funnel)
+        where, having, order_by = deepcopy(where), deepcopy(having), deepcopy(order_by)
+        merged_queries = deepcopy(merged_queries)
+
         if sql:
             converter = MQLConverter(
                 sql, project=self.project, connections=self.connections, **{**self.kwargs, **kwargs}
-- 
2.43.0


From ed758a6566d7d3a00b8018efc8621de409493ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:44 +0000
Subject: [PATCH 25/62] fix: a function in a literal filter is not taken for a
 field

---
 metrics_layer/core/sql/query_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metrics_layer/core/sql/query_base.py b/metrics_layer/core/sql/query_base.py
index 5c9a9fd..94279c3 100644
--- a/metrics_layer/core/sql/query_base.py
+++ b/metrics_layer/core/sql/query_base.py
@@ -43,7 +43,8 @@ class MetricsLayerQueryBase(MetricsLayerBase):
         field_names = []
         for i, token in enumerate(generator):
             not_already_added = i == 0 or str(generator[i - 1]) != "."
-            if token.ttype == Name and not_already_added:
+            is_function = i + 1 < len(generator) and str(generator[i + 1]) == "("
+            if token.ttype == Name and not_already_added and not is_function:
                 field_names.append(str(token))
 
             if token.ttype == Punctuation and str(token) == ".":
-- 
2.43.0


From 500dc2c27850166b91042677081bcc89f633dad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:44 +0000
Subject: [PATCH 26/62] fix: always filters apply to queries whose where is a
 literal instead of raising an AttributeError

---
 metrics_layer/core/sql/resolve.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/metrics_layer/core/sql/resolve.py b/metrics_layer/core/sql/resolve.py
index e486cb1..842248e 100644
--- a/metrics_layer/core/sql/resolve.py
+++ b/metrics_layer/core/sql/resolve.py
@@ -1,12 +1,15 @@
 from collections import Counter, defaultdict
 from copy import deepcopy
+from datetime import datetime
 from typing import List, Union
 
 from metrics_layer.core.exceptions import JoinError, QueryError
-from metrics_layer.core.model.filter import Filter
+from metrics_layer.core.model.definitions import Definitions
+from metrics_layer.core.model.filter import Filter, MetricsLayerFilterExpressionType
 from metrics_layer.core.model.project import Project
 from metrics_layer.core.sql.merged_query_resolve import MergedSQLQueryResolver
 from metrics_layer.core.sql.query_base import QueryKindTypes
+from metrics_layer.core.sql.query_filter import datatype_cast
 from metrics_layer.core.sql.single_query_resolve import SingleSQLQueryResolver
 
 
@@ -40,7 +43,7 @@ class SQLQueryResolver(SingleSQLQueryResolver):
         self.funnel = funnel
         self.where = where if where else []
         always_where = self._apply_always_filter(metrics + dimensions)
-        if always_where:
+        if always_where and not self._is_literal(self.where):
             self.where.extend(always_where)
         self.where = self._clean_conditional_filter_syntax(self.where)
         self.having = self._clean_conditional_filter_syntax(having)
@@ -48,6 +51,9 @@ class SQLQueryResolver(SingleSQLQueryResolver):
         self.kwargs = kwargs
         self.connection = self._get_connection(self.model.connection)
         self.kwargs["query_type"] = self._get_query_type(self.connection, self.kwargs)
+        if always_where and self._is_literal(self.where):
+            always_literal = [self._filter_literal(f) for f in always_where]
+            self.where = " and ".join([f"({self.where})"] + always_literal)
         connection_schema = self._get_connection_schema(self.connection)
         self.project.set_connection_schema(connection_schema)
         self.field_id_mapping = {}
@@ -488,6 +494,14 @@ class SQLQueryResolver(SingleSQLQueryResolver):
 
         return self._deduplicate_always_where_filters(always_where)
 
+    def _filter_literal(self, filter_dict: dict):
+        field = self.project.get_field(filter_dict["field"])
+        value = filter_dict["value"]
+        if self.kwargs["query_type"] in Definitions.needs_datetime_cast and isinstance(value, datetime):
+            value = datatype_cast(field, value)
+        expression = MetricsLayerFilterExpressionType.parse(filter_dict["expression"])
+        return str(Filter.sql_query("${" + field.id() + "}", expression, value, field.type))
+
     @staticmethod
     def _deduplicate_always_where_filters(filters: list):
         seen = set()
-- 
2.43.0


From 84ab1226037ceddab0418e2d434395752441c8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:04 +0000
Subject: [PATCH 27/62] fix: setting the user drops the join graph built for
 another user's views

---
 metrics_layer/core/model/project.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metrics_layer/core/model/project.py b/metrics_layer/core/model/project.py
index 9ea90cb..71f69f8 100644
--- a/metrics_layer/core/model/project.py
+++ b/metrics_layer/core/model/project.py
@@ -74,6 +74,8 @@ class Project:
 
     def set_user(self, user: dict):
         self._user = user
+        # The join graph only has the views this user can access
+        self._join_graph = None
 
     def set_connection_schema(self, schema: str):
         self._connection_schema = schema
-- 
2.43.0


From c72b2562151255c75f7c14b41eacbd8beba394b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:22 +0000
Subject: [PATCH 28/62] fix: fields added or removed are followed by the field
 caches; choosing a timeframe no longer changes shared fields

---
 metrics_layer/core/model/field.py                 | 5 +----
 metrics_layer/core/model/join_graph.py            | 6 ++----
 metrics_layer/core/model/project.py               | 6 ++++++
 metrics_layer/core/query/query.py                 | 7 +++++++
 metrics_layer/core/sql/query_cumulative_metric.py | 8 ++++----
 5 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/metrics_layer/core/model/field.py b/metrics_layer/core/model/field.py
index af3d970..b230fd5 100644
--- a/metrics_layer/core/model/field.py
+++ b/metrics_layer/core/model/field.py
@@ -888,10 +888,7 @@ class Field(MetricsLayerBase, SQLReplacement):
             return False
 
         if self.field_type == ZenlyticFieldType.dimension_group and self.dimension_group is None:
-            if field_name_only in self.dimension_group_names():
-                self.dimension_group = self.get_dimension_group_name(field_name_only)
-                return True
-            return False
+            return field_name_only in self.dimension_group_names()
         elif self.field_type == ZenlyticFieldType.dimension_group:
             return self.alias() == field_name_only
         return self.name == field_name_only
diff --git a/metrics_layer/core/model/join_graph.py b/metrics_layer/core/model/join_graph.py
index d155147..ff4bd04 100644
--- a/metrics_layer/core/model/join_graph.py
+++ b/metrics_layer/core/model/join_graph.py
@@ -259,11 +259,9 @@ class JoinGraph(SQLReplacement):
                 try:
                     canon_date = self._get_field_with_memo(measure.canon_date, by_name=True)
                     for timeframe in canon_date.timeframes:
-                        canon_date.dimension_group = timeframe
+                        canon_date_id = f"{canon_date.view.name}.{canon_date.name}_{timeframe}"
                         root_node_name = join_root + "_" + timeframe
-                        graph.add_edges_from(
-                            [(root_node_name, canon_date.id()), (root_node_name, measure_id)]
-                        )
+                        graph.add_edges_from([(root_node_name, canon_date_id), (root_node_name, measure_id)])
                         existing_root_nodes.add(root_node_name)
                 except AccessDeniedOrDoesNotExistException:
                     # In the event that the canon_date doesn't exist anymore, don't break everything
diff --git a/metrics_layer/core/model/project.py b/metrics_layer/core/model/project.py
index 71f69f8..673f44b 100644
--- a/metrics_layer/core/model/project.py
+++ b/metrics_layer/core/model/project.py
@@ -72,6 +72,10 @@ class Project:
         string_to_hash = model_str + view_str + dash_str + conn_str + str(self.looker_env)
         return hash(string_to_hash)
 
+    def _refresh_content_hash(self):
+        # The hash identifies the content in the caches of the fields, so it must follow the content
+        self.__dict__.pop("_content_hash", None)
+
     def set_user(self, user: dict):
         self._user = user
         # The join graph only has the views this user can access
@@ -99,6 +103,7 @@ class Project:
         # If the field already exists, then do not add it
         if not any(f["name"].lower() == field["name"].lower() for f in view["fields"]):
             view["fields"].append(field)
+            self._refresh_content_hash()
         if refresh_cache:
             self.refresh_cache()
 
@@ -111,6 +116,7 @@ class Project:
                 object_type="view",
             )
         view["fields"] = [f for f in view["fields"] if f["name"] != field_name]
+        self._refresh_content_hash()
         if refresh_cache:
             self.refresh_cache()
 
diff --git a/metrics_layer/core/query/query.py b/metrics_layer/core/query/query.py
index eeb1960..be4774e 100644
--- a/metrics_layer/core/query/query.py
+++ b/metrics_layer/core/query/query.py
@@ -4,6 +4,7 @@ import sqlparse
 
 from metrics_layer.core.convert import MQLConverter
 from metrics_layer.core.exceptions import QueryError
+from metrics_layer.core.model.field import Field
 from metrics_layer.core.parse import ProjectLoader
 from metrics_layer.core.parse.connections import BaseConnection
 from metrics_layer.core.sql import QueryRunner, SQLQueryResolver
@@ -223,6 +224,12 @@ class MetricsLayerConnection:
         dimensions = self.list_dimensions(view_name=view_name)
         try:
             dimension = next((d for d in dimensions if d.equal(dimension_name)))
+            if dimension.field_type == "dimension_group" and dimension.dimension_group is None:
+                # The field is shared by everything that uses the project, so the dimension
+                # group has to be chosen on a field of its own
+                _, _, name_only = Field.field_name_parts(dimension_name)
+                dimension = Field(dimension._definition, view=dimension.view)
+                dimension.dimension_group = dimension.get_dimension_group_name(name_only)
             return dimension
         except ParseError as e:
             raise e(f"Could not find dimension {dimension_name} in the project config")
diff --git a/metrics_layer/core/sql/query_cumulative_metric.py b/metrics_layer/core/sql/query_cumulative_metric.py
index 8351019..2d1f76b 100644
--- a/metrics_layer/core/sql/query_cumulative_metric.py
+++ b/metrics_layer/core/sql/query_cumulative_metric.py
@@ -5,6 +5,7 @@ from pypika import Criterion, JoinType, Table
 
 from metrics_layer.core.exceptions import AccessDeniedOrDoesNotExistException
 from metrics_layer.core.model.definitions import Definitions
+from metrics_layer.core.model.field import Field
 from metrics_layer.core.model.filter import LiteralValueCriterion
 from metrics_layer.core.sql.query_base import MetricsLayerQueryBase
 from metrics_layer.core.sql.query_design import MetricsLayerDesign
@@ -264,12 +265,11 @@ class CumulativeMetricsQuery(MetricsLayerQueryBase):
                 date_having["query_type"] = self.query_type
                 f = MetricsLayerFilter(definition=date_having, design=self.design, filter_type="having")
                 # The date spine takes the filter's timeframe, whichever metric's default date the filter is on
-                dimension_group = deepcopy(date_field.dimension_group)
-                date_field.dimension_group = where_field.dimension_group
-                date_spine_sql = date_field.apply_dimension_group_time_sql(
+                spine_definition = {**date_field._definition, "dimension_group": where_field.dimension_group}
+                spine_field = Field(spine_definition, view=date_field.view)
+                date_spine_sql = spine_field.apply_dimension_group_time_sql(
                     date_spine_reference, self.query_type
                 )
-                date_field.dimension_group = dimension_group
                 having.append(f.criterion(date_spine_sql))
 
         if default_date_is_present:
-- 
2.43.0


From 3b7a3f435760ce368ac3551cf82ed5ac5aaf28bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:40 +0000
Subject: [PATCH 29/62] fix: a guarded metric named count is not replaced by
 the default count; mapped fields out of the user's reach no longer refuse the
 others

---
 metrics_layer/core/model/project.py |  7 ++++++-
 metrics_layer/core/sql/resolve.py   | 23 +++++++++++++++++------
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/metrics_layer/core/model/project.py b/metrics_layer/core/model/project.py
index 673f44b..ac62109 100644
--- a/metrics_layer/core/model/project.py
+++ b/metrics_layer/core/model/project.py
@@ -570,7 +570,7 @@ class Project:
                 "\n\nor change the names of the fields to ensure uniqueness"
             )
             raise QueryError(err_msg)
-        elif field_name == "count" and view_name:
+        elif field_name == "count" and view_name and not self._defines_field(field_name, view_name):
             definition = {"type": "count", "name": "count", "field_type": "measure"}
             return Field(definition, view=self.get_view(view_name))
         else:
@@ -583,6 +583,11 @@ class Project:
             err_msg += " specify 'order_raw' or 'order_date' or 'order_month'"
             raise AccessDeniedOrDoesNotExistException(err_msg, object_name=field_name, object_type="field")
 
+    def _defines_field(self, field_name: str, view_name: str):
+        # This includes the fields the user does not have access to
+        fields = [f for v in self._views if v.get("name") == view_name for f in v.get("fields") or []]
+        return any(str(f.get("name")).lower() == field_name for f in fields)
+
     def resolve_dbt_ref(self, ref_name: str):
         # This just returns the table name, assuming the schema will be set in the connection
         if not self.manifest_exists:
diff --git a/metrics_layer/core/sql/resolve.py b/metrics_layer/core/sql/resolve.py
index 842248e..f6d1abd 100644
--- a/metrics_layer/core/sql/resolve.py
+++ b/metrics_layer/core/sql/resolve.py
@@ -3,7 +3,7 @@ from copy import deepcopy
 from datetime import datetime
 from typing import List, Union
 
-from metrics_layer.core.exceptions import JoinError, QueryError
+from metrics_layer.core.exceptions import AccessDeniedOrDoesNotExistException, JoinError, QueryError
 from metrics_layer.core.model.definitions import Definitions
 from metrics_layer.core.model.filter import Filter, MetricsLayerFilterExpressionType
 from metrics_layer.core.model.project import Project
@@ -228,8 +228,7 @@ class SQLQueryResolver(SingleSQLQueryResolver):
             # overlap in the mappings.
             check = defaultdict(list)
             for name, mapped_field in self.mapping_lookup.items():
-                for field_id in mapped_field["fields"]:
-                    ref_field = self.project.get_field(field_id)
+                for field_id, ref_field in self._accessible_mapped_fields(mapped_field):
                     check[name].append((field_id, ref_field.join_graphs()))
 
             # Next, we iterate over all mappings and check if there is a valid join path
@@ -293,7 +292,7 @@ class SQLQueryResolver(SingleSQLQueryResolver):
             elif len(self.mapping_lookup) == 1:
                 for name, mapped_field in self.mapping_lookup.items():
                     replaced_mapping = name
-                    replace_with = self.project.get_field(mapped_field["fields"][0])
+                    _, replace_with = self._accessible_mapped_fields(mapped_field)[0]
                     self.field_lookup[name] = replace_with.join_graphs()
                 self._replace_mapped_field(name, replace_with)
             else:
@@ -317,10 +316,22 @@ class SQLQueryResolver(SingleSQLQueryResolver):
             metric_field = self.project.get_field(field_name, model=self.model)
         return metric_field
 
+    def _accessible_mapped_fields(self, mapped_field: dict):
+        # If the user doesn't have access to one of the mapped fields, we skip it but continue
+        # to give them access to the other fields which they *do* have access to
+        result, error = [], None
+        for field_id in mapped_field["fields"]:
+            try:
+                result.append((field_id, self.project.get_field(field_id)))
+            except AccessDeniedOrDoesNotExistException as e:
+                error = e
+        if error and not result:
+            raise error
+        return result
+
     def determine_field_to_replace_with(self, mapped_field, joinable_graphs, mergeable_graphs):
         joinable, mergeable = [], []
-        for field_name in mapped_field["fields"]:
-            field = self.project.get_field(field_name)
+        for _, field in self._accessible_mapped_fields(mapped_field):
             join_graphs = field.join_graphs()
             if any(g in joinable_graphs for g in join_graphs):
                 joinable.append(field)
-- 
2.43.0


From cdc83948f695bd45d3dc56564738faf4de7caf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:58 +0000
Subject: [PATCH 30/62] fix: a date mapping without any date in the project
 raises a query error instead of an IndexError

---
 metrics_layer/core/sql/resolve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metrics_layer/core/sql/resolve.py b/metrics_layer/core/sql/resolve.py
index f6d1abd..ac10691 100644
--- a/metrics_layer/core/sql/resolve.py
+++ b/metrics_layer/core/sql/resolve.py
@@ -327,6 +327,8 @@ class SQLQueryResolver(SingleSQLQueryResolver):
                 error = e
         if error and not result:
             raise error
+        elif not result:
+            raise QueryError(f'No valid join path found for mapped field "{mapped_field["name"]}"')
         return result
 
     def determine_field_to_replace_with(self, mapped_field, joinable_graphs, mergeable_graphs):
-- 
2.43.0


From e54725e775ffff76ad9f355eb6c889444559e1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:58 +0000
Subject: [PATCH 31/62] fix: looking up a metric or dimension by name ignores
 case and never picks one of several matches

---
 metrics_layer/core/model/field.py |  8 +++---
 metrics_layer/core/query/query.py | 42 ++++++++++++++++++-------------
 2 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/metrics_layer/core/model/field.py b/metrics_layer/core/model/field.py
index b230fd5..858e70b 100644
--- a/metrics_layer/core/model/field.py
+++ b/metrics_layer/core/model/field.py
@@ -901,10 +901,10 @@ class Field(MetricsLayerBase, SQLReplacement):
         return []
 
     def get_dimension_group_name(self, field_name: str):
-        if self.type == "duration" and f"_{self.name}" in field_name:
-            return field_name.replace(f"_{self.name}", "")
-        if self.type == "time":
-            return field_name.replace(f"{self.name}_", "")
+        if self.type == "duration" and field_name.endswith(f"_{self.name}"):
+            return field_name[: -len(f"_{self.name}")]
+        if self.type == "time" and field_name.startswith(f"{self.name}_"):
+            return field_name[len(f"{self.name}_") :]
         return None
 
     def apply_dimension_group_duration_sql(self, sql_start: str, sql_end: str, query_type: str):
diff --git a/metrics_layer/core/query/query.py b/metrics_layer/core/query/query.py
index be4774e..8f7cca9 100644
--- a/metrics_layer/core/query/query.py
+++ b/metrics_layer/core/query/query.py
@@ -3,13 +3,12 @@ from copy import deepcopy
 import sqlparse
 
 from metrics_layer.core.convert import MQLConverter
-from metrics_layer.core.exceptions import QueryError
+from metrics_layer.core.exceptions import AccessDeniedOrDoesNotExistException, QueryError
 from metrics_layer.core.model.field import Field
 from metrics_layer.core.parse import ProjectLoader
 from metrics_layer.core.parse.connections import BaseConnection
 from metrics_layer.core.sql import QueryRunner, SQLQueryResolver
 from metrics_layer.core.sql.arbitrary_merge_resolve import ArbitraryMergedQueryResolver
-from metrics_layer.core.sql.query_errors import ParseError
 
 
 class DBConnectionError(Exception):
@@ -207,11 +206,7 @@ class MetricsLayerConnection:
 
     def get_metric(self, metric_name: str, view_name: str = None):
         metrics = self.list_metrics(view_name=view_name)
-        try:
-            metric = next((m for m in metrics if m.equal(metric_name)))
-            return metric
-        except ParseError as e:
-            raise e(f"Could not find metric {metric_name} in the project config")
+        return self._get_matching_field(metrics, metric_name, view_name)
 
     def list_dimensions(self, view_name: str = None, names_only: bool = False, show_hidden: bool = False):
         all_fields = self.project.fields(view_name=view_name, show_hidden=show_hidden)
@@ -222,17 +217,28 @@ class MetricsLayerConnection:
 
     def get_dimension(self, dimension_name: str, view_name: str = None):
         dimensions = self.list_dimensions(view_name=view_name)
-        try:
-            dimension = next((d for d in dimensions if d.equal(dimension_name)))
-            if dimension.field_type == "dimension_group" and dimension.dimension_group is None:
-                # The field is shared by everything that uses the project, so the dimension
-                # group has to be chosen on a field of its own
-                _, _, name_only = Field.field_name_parts(dimension_name)
-                dimension = Field(dimension._definition, view=dimension.view)
-                dimension.dimension_group = dimension.get_dimension_group_name(name_only)
-            return dimension
-        except ParseError as e:
-            raise e(f"Could not find dimension {dimension_name} in the project config")
+        dimension = self._get_matching_field(dimensions, dimension_name, view_name)
+        if dimension.field_type == "dimension_group" and dimension.dimension_group is None:
+            # The field is shared by everything that uses the project, so the dimension
+            # group has to be chosen on a field of its own
+            _, _, name_only = Field.field_name_parts(dimension_name.lower())
+            dimension = Field(dimension._definition, view=dimension.view)
+            dimension.dimension_group = dimension.get_dimension_group_name(name_only)
+        return dimension
+
+    def _get_matching_field(self, fields: list, field_name: str, view_name: str = None):
+        _, specified_view_name, name_only = Field.field_name_parts(field_name)
+        view_name = specified_view_name or view_name
+        name_only = name_only.lower()
+        matching = [f for f in fields if f.equal(f"{view_name}.{name_only}" if view_name else name_only)]
+        if len(matching) == 1:
+            return matching[0]
+        names = f", multiple fields match: {[f.id() for f in matching]}" if matching else ""
+        raise AccessDeniedOrDoesNotExistException(
+            f"Could not find the field {field_name} in the project config{names}",
+            object_name=field_name,
+            object_type="field",
+        )
 
     def list_views(self, names_only=False):
         views = self.project.views()
-- 
2.43.0


From 25ad8d9f626ddc8d0bf3904a4f339028d3a6c7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:12 +0000
Subject: [PATCH 32/62] fix: a set's reference to another set means the one of
 the same view; names in sets ignore case

---
 metrics_layer/core/model/set.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/metrics_layer/core/model/set.py b/metrics_layer/core/model/set.py
index 55cc1f5..3f70328 100644
--- a/metrics_layer/core/model/set.py
+++ b/metrics_layer/core/model/set.py
@@ -89,13 +89,13 @@ class Set(MetricsLayerBase):
             elif "-" in field_name:
                 _, view_name, field_name = self.field_name_parts(field_name.replace("-", ""))
                 view_name = self._get_view_name(view_name, field_name)
-                names_to_exclude.append(f"{view_name}.{field_name}")
+                names_to_exclude.append(f"{view_name}.{field_name.lower()}")
 
             # This is just a field that we're adding to the result
             else:
                 _, view_name, field_name = self.field_name_parts(field_name)
                 view_name = self._get_view_name(view_name, field_name)
-                all_field_names.append(f"{view_name}.{field_name}")
+                all_field_names.append(f"{view_name}.{field_name.lower()}")
 
         # Perform exclusion
         result_field_names = set(f for f in all_field_names if f not in names_to_exclude)
@@ -110,7 +110,10 @@ class Set(MetricsLayerBase):
             return [f"{f.view.name}.{f.alias()}" for f in all_fields]
 
         _, view_name, set_name = self.field_name_parts(set_name)
-        _set = self.project.get_set(set_name, view_name=view_name)
+        _set = self.project.get_set(set_name, view_name=view_name or self.view_name)
+        # A set of the same view takes precedence, without one a set of any view can be meant
+        if _set is None and view_name is None:
+            _set = self.project.get_set(set_name)
         if _set is None:
             print(f"WARNING: Could not find set with name {set_name}, disregarding those fields")
             return []
-- 
2.43.0


From 331aad4e8c1057183ce33cbabc054c5d285e1e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:55 +0000
Subject: [PATCH 33/62] fix: date intervals do not depend on other threads or
 on requests that failed before

---
 metrics_layer/core/model/filter.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/metrics_layer/core/model/filter.py b/metrics_layer/core/model/filter.py
index 57de292..b0209de 100644
--- a/metrics_layer/core/model/filter.py
+++ b/metrics_layer/core/model/filter.py
@@ -1,4 +1,5 @@
 import re
+import threading
 from datetime import datetime
 from enum import Enum
 from typing import TYPE_CHECKING
@@ -112,6 +113,7 @@ class FilterInterval(str, Enum):
 
 
 class Filter(MetricsLayerBase):
+    _week_start_day_lock = threading.RLock()
     week_start_day_default = pendulum.MONDAY
     week_end_day_default = pendulum.SUNDAY
     week_start_day_lookup = {
@@ -364,9 +366,13 @@ class Filter(MetricsLayerBase):
             ">": MetricsLayerFilterExpressionType.GreaterThan,
             "<": MetricsLayerFilterExpressionType.LessThan,
         }
-        Filter._set_week_start_day(week_start_day)
-        date_condition = Filter.parse_date_condition(value, tz=tz)
-        Filter._reset_week_start_day()
+        # The week start is state of the whole process in pendulum
+        with Filter._week_start_day_lock:
+            try:
+                Filter._set_week_start_day(week_start_day)
+                date_condition = Filter.parse_date_condition(value, tz=tz)
+            finally:
+                Filter._reset_week_start_day()
 
         first_word = str(value).split(" ")[0]
         first_two_words = " ".join(str(value).split(" ")[:2])
-- 
2.43.0


From 5917f9d6c2f01bb72e6fb31d416a6dd3bffae7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:27 +0000
Subject: [PATCH 34/62] fix: a limit of zero rows is honoured on SQL Server and
 Synapse

---
 metrics_layer/core/sql/query_dialect.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metrics_layer/core/sql/query_dialect.py b/metrics_layer/core/sql/query_dialect.py
index bcb0697..2087d0b 100644
--- a/metrics_layer/core/sql/query_dialect.py
+++ b/metrics_layer/core/sql/query_dialect.py
@@ -176,6 +176,9 @@ class MSSQLQueryBuilderCorrectLimit(MSSQLQueryBuilder):
     def limit(self, limit: int):
         self._top = limit
 
+    def _top_sql(self) -> str:
+        return "" if self._top is None else f"TOP ({self._top}) "
+
 
 class MSSSQLQuery(Query):
     """
-- 
2.43.0


From afdb8672e9e320f5a02c59bfacfe901c63d226d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:27 +0000
Subject: [PATCH 35/62] fix: an order given as text heeds names that contain
 asc or desc

---
 metrics_layer/core/sql/query_generator.py | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/metrics_layer/core/sql/query_generator.py b/metrics_layer/core/sql/query_generator.py
index 1e01dea..4da4d14 100644
--- a/metrics_layer/core/sql/query_generator.py
+++ b/metrics_layer/core/sql/query_generator.py
@@ -123,24 +123,13 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
         # Handle literal order by
         if isinstance(order_by, str):
             for order_clause in order_by.split(","):
-                if "desc" in order_clause.lower():
-                    field_reference = (
-                        order_clause.lower()
-                        .replace("desc", "")
-                        .replace("nulls last", "")
-                        .replace("nulls first", "")
-                        .strip()
-                    )
-                    results.append({"field": field_reference, "sort": "desc"})
+                # The direction is a word of its own after the field, whose name may contain "asc" or "desc"
+                clause = re.sub(r"(?i)\s+nulls\s+(last|first)\s*$", "", order_clause.strip())
+                match = re.match(r"(?i)^(.*\S)\s+(asc|desc)$", clause)
+                if match:
+                    results.append({"field": match.group(1).lower(), "sort": match.group(2).lower()})
                 else:
-                    field_reference = (
-                        order_clause.lower()
-                        .replace("asc", "")
-                        .replace("nulls last", "")
-                        .replace("nulls first", "")
-                        .strip()
-                    )
-                    results.append({"field": field_reference, "sort": "asc"})
+                    results.append({"field": clause.lower(), "sort": "asc"})
 
         # Handle JSON order_by
         if isinstance(order_by, list):
-- 
2.43.0


From 7c7de496349f38f9f8a485a006333e02853d75f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:12 +0000
Subject: [PATCH 36/62] fix: MQL reads every name and clause of its statement,
 wherever the statement stands

Names that are words of SQL (date, month, type, count...) and LIMIT were dropped silently; an
MQL() inside of a CTE, a subquery or a list of tables was left as it is or raised TypeError, as
did a space before the parenthesis; a semicolon was added for warehouses that do not accept one.
---
 metrics_layer/core/convert/convert.py | 299 +++++++++++++-------------
 1 file changed, 154 insertions(+), 145 deletions(-)

diff --git a/metrics_layer/core/convert/convert.py b/metrics_layer/core/convert/convert.py
index a46df20..060643e 100644
--- a/metrics_layer/core/convert/convert.py
+++ b/metrics_layer/core/convert/convert.py
@@ -3,12 +3,12 @@
 # for that configuration then replaces the MQL() section of the original string
 # with the correct SQL
 
-from copy import copy, deepcopy
-
 import sqlparse
-from sqlparse.sql import Function, Identifier, IdentifierList, Statement, Where
-from sqlparse.tokens import Keyword, Whitespace
+from sqlparse.sql import Function, Identifier, Parenthesis
+from sqlparse.tokens import Comment, Keyword, Name
 
+from metrics_layer.core.exceptions import QueryError
+from metrics_layer.core.model.definitions import Definitions
 from metrics_layer.core.sql.query_errors import ParseError
 from metrics_layer.core.sql.resolve import SQLQueryResolver
 
@@ -68,24 +68,31 @@ class MQLConverter:
         ) as subquery
     """
 
+    # The keywords which begin a part of the statement, and the part they begin. Inside of
+    # a funnel the steps are divided by THEN, and they end with WITHIN
+    _clause_keywords = {
+        "BY": "dimensions",
+        "WHERE": "where",
+        "HAVING": "having",
+        "ORDER BY": "order_by",
+        "LIMIT": "limit",
+        "FOR": "for",
+        "FUNNEL": "funnel",
+    }
+    _funnel_keywords = {"THEN": "funnel", "WITHIN": "within"}
+
     def __init__(self, sql: str, project, **kwargs):
         self._function_name = "MQL"
         self.sql = sql
         self.project = project
         self.kwargs = kwargs
         self.connection = None
+        self.query_kind = None
+        self._semicolon = True
 
     def get_query(self):
-        converted_sql = copy(self.sql)
-        statement = sqlparse.parse(self.sql)[0]
-        for token in statement:
-            # Handle case without an alias
-            if isinstance(token, Function):
-                mql_as_sql = self.parse_and_resolve_mql(token)
-                if mql_as_sql:
-                    # Do the replace for the MQL() function with the resolved SQL
-                    converted_sql = converted_sql.replace(str(token), mql_as_sql)
-
+        statements = sqlparse.parse(self.sql)
+        for token in statements[0] if statements else []:
             # Handle error with parenthesis
             if isinstance(token, Identifier) and str(token).upper() == self._function_name:
                 raise ParseError(
@@ -93,150 +100,152 @@ class MQLConverter:
                     f"{str(token)} in statement {self.sql}"
                 )
 
-            # Handle case with alias
-            if isinstance(token, Identifier) and f"{self._function_name}(" in str(token).upper():
-                # We have to index into the first token here because the MQL is the first part of the token
-                # with an alias e.g. [part 1] MQL(blah by blah) [part 2] as [part 3] alias
-                mql_token = token[0]
-                mql_as_sql = self.parse_and_resolve_mql(mql_token)
-                if mql_as_sql:
-                    # Do the replace for the MQL() function with the resolved SQL
-                    converted_sql = converted_sql.replace(str(mql_token), mql_as_sql)
-
-        if converted_sql[-1] != ";":
+        converted_sql = "".join(self._convert(statement) for statement in statements).rstrip()
+        if self._semicolon and not converted_sql.endswith(";"):
             converted_sql += ";"
         return converted_sql
 
+    def _convert(self, token):
+        """The SQL of the token, where every MQL() function is replaced with the SQL it resolves to"""
+        if self._is_mql(token):
+            return self.parse_and_resolve_mql(token)
+        if token.is_group:
+            return "".join(self._convert(child) for child in token.tokens)
+        return str(token)
+
+    def _is_mql(self, token):
+        return isinstance(token, Function) and str(token[0]).upper() == self._function_name
+
     def parse_and_resolve_mql(self, token):
-        function_name = token[0]
-        if str(function_name).upper() == self._function_name:
-            mql_as_sql = self.resolve_mql_statement(token[1])
-            wrap_parenthesis = str(token) != self.sql
-            if wrap_parenthesis:
-                mql_as_sql = f"({mql_as_sql})"
-            return mql_as_sql
-        return
+        parenthesis = next(t for t in token.tokens if isinstance(t, Parenthesis))
+        mql_as_sql = self.resolve_mql_statement(parenthesis)
+        # The MQL is part of a larger statement, unless it's all there is
+        wrap_parenthesis = str(token).strip() != self.sql.strip()
+        if wrap_parenthesis:
+            mql_as_sql = f"({mql_as_sql})"
+        return mql_as_sql
 
     def resolve_mql_statement(self, mql_statement):
-        metrics, dimensions, where, having, order_by = [], [], [], [], []
-        funnel_steps, funnel_for, funnel_within = [], None, {}
-        mode = "metrics"
-        # We do this to trim off the starting and ending parenthesis
-        for token in mql_statement[1:-1]:
-            if mode == "for" and token.ttype != Whitespace:
-                funnel_for = str(token.value).split(" ")[0].lower().strip()
-                mode = "funnel"
-                funnel_step = []
-                continue
-
-            is_conjunction = str(token).strip().upper() in {"AND", "OR"}
-            if (token.ttype == Keyword or self._is_funnel(token)) and not is_conjunction:
-                mode = self._resolve_mode(token, mode)
-                if mode == "funnel" and str(token).upper() != "THEN":
-                    funnel_step = []
-                    continue
-                elif mode == "dimensions" and str(token).upper() in {"SOURCE"}:
-                    self._add_by_mode(metrics, dimensions, mode, str(token))
+        clauses, steps = self._split_clauses(mql_statement)
 
-            if mode == "funnel":
-                if str(token).upper() == "THEN":
-                    funnel_steps.append(deepcopy(funnel_step))
-                    funnel_step = []
-                    continue
-                elif "WITHIN" in str(token).upper():
-                    lowered = str(token).lower()
-                    funnel_step.append(str(token)[: lowered.index("within")].strip())
-                    funnel_steps.append(deepcopy(funnel_step))
-                    mode = "within"
-                    continue
-                else:
-                    funnel_step.append(str(token))
-                    continue
+        metrics = self._split_names(clauses.get("metrics", []))
+        dimensions = self._split_names(clauses.get("dimensions", []))
+        if not metrics and not dimensions:
+            raise QueryError(
+                "No metrics or dimensions specified in the MQL statement. Please "
+                f"provide metrics or dimensions in statement {self.sql}"
+            )
 
-            if mode == "within" and isinstance(token, Identifier):
-                n, unit = str(token).strip().split(" ")
-                funnel_within = {"value": int(n), "unit": unit.lower()}
-                mode = "metrics"
-                continue
-
-            if mode == "having":
-                having.append(token)
-                continue
-
-            if mode == "order_by":
-                order_by.append(token)
-                continue
-
-            if isinstance(token, Identifier) and not self._is_funnel(token):
-                identifier = str(token)
-                self._add_by_mode(metrics, dimensions, mode, identifier)
-
-            if isinstance(token, IdentifierList):
-                for id_token in token.get_identifiers():
-                    identifier = str(id_token)
-                    self._add_by_mode(metrics, dimensions, mode, identifier)
-
-            if isinstance(token, Where):
-                where = token
-
-        if funnel_within != {} and len(funnel_steps) > 0:
-            steps = ["".join(s).strip() for s in funnel_steps]
-            funnel = {"steps": steps, "within": funnel_within}
-            if funnel_for:
-                funnel["view_name"] = funnel_for
-        else:
-            funnel = {}
-
-        # For all of these we do [1:] to ignore the keyword at the beginning of the statement
-        where_literal = self._tokens_to_sql(where[1:])
-        having_literal = self._tokens_to_sql(having[1:])
-        order_by_literal = self._tokens_to_sql(order_by[1:])
+        kwargs = {**self.kwargs}
+        if "limit" in clauses:
+            kwargs["limit"] = self._whole_number("LIMIT", self._clause_sql(clauses["limit"]))
 
         resolver = SQLQueryResolver(
             metrics=metrics,
             dimensions=dimensions,
-            funnel=funnel,
-            where=where_literal,
-            having=having_literal,
-            order_by=order_by_literal,
+            funnel=self._funnel(clauses, steps),
+            where=self._clause_sql(clauses.get("where")),
+            having=self._clause_sql(clauses.get("having")),
+            order_by=self._clause_sql(clauses.get("order_by")),
             project=self.project,
-            **self.kwargs,
+            **kwargs,
         )
-        if self.kwargs.get("return_connection", False):
-            self.connection = resolver.connection
-        return resolver.get_query(semicolon=False)
-
-    def _resolve_mode(self, token, mode):
-        keyword = str(token).upper()
-        if keyword == "BY":
-            mode = "dimensions"
-        elif keyword == "HAVING":
-            mode = "having"
-        elif keyword == "ORDER BY":
-            mode = "order_by"
-        elif keyword == "FOR":
-            mode = "for"
-        elif keyword in {"FUNNEL", "THEN"}:
-            mode = "funnel"
-        elif keyword == "WITHIN":
-            mode = "within"
-        else:
-            mode = mode
-        return mode
-
-    def _add_by_mode(self, metrics: list, dimensions: list, mode: str, identifier: str):
-        if mode == "metrics":
-            metrics.append(identifier)
-        elif mode == "dimensions":
-            dimensions.append(identifier)
-        else:
-            raise ParseError(f"Could not parse identifier {identifier} in statement {self.sql}")
+        self.connection = resolver.connection
+        query = resolver.get_query(semicolon=False)
+        self.query_kind = resolver.query_kind
+        if resolver.query_type in Definitions.no_semicolon_warehouses:
+            self._semicolon = False
+        return query
+
+    def _split_clauses(self, mql_statement):
+        """The tokens of each clause in the statement, and of each step of its funnel"""
+        # We do this to trim off the starting and ending parenthesis
+        tokens = list(mql_statement.flatten())[1:-1]
+        clause, clauses, steps = "metrics", {"metrics": []}, []
+        depth, case_depth = 0, 0
+        for i, token in enumerate(tokens):
+            value = str(token)
+            if token.ttype in Comment:
+                token, value = None, " "
+
+            if value in {"(", "{", "["}:
+                depth += 1
+            elif value in {")", "}", "]"}:
+                depth -= 1
+
+            is_word = token is not None and (token.ttype in Keyword or token.ttype in Name)
+            is_qualified = "." in {str(t) for t in tokens[max(i - 1, 0) : i] + tokens[i + 1 : i + 2]}
+            if is_word and not is_qualified and depth == 0:
+                keyword = " ".join(value.upper().split())
+                if clause not in {"metrics", "dimensions"} and keyword == "CASE":
+                    case_depth += 1
+                elif case_depth > 0 and keyword == "END":
+                    case_depth -= 1
+
+                next_clause = self._clause_keywords.get(keyword)
+                if clause == "funnel":
+                    next_clause = self._funnel_keywords.get(keyword, next_clause)
+                if next_clause and case_depth == 0:
+                    if next_clause in clauses and keyword != "THEN":
+                        raise ParseError(f"Found {keyword} more than once in statement {self.sql}")
+                    clause = next_clause
+                    clauses.setdefault(clause, [])
+                    if clause == "funnel":
+                        steps.append([])
+                    continue
 
-    @staticmethod
-    def _tokens_to_sql(tokens: list):
-        if len(tokens) == 0:
-            return
-        return str(Statement(tokens)).strip()
+            clauses[clause].append(value)
+            if clause == "funnel":
+                steps[-1].append(value)
+        return clauses, steps
+
+    def _split_names(self, values: list):
+        """The names in a clause, where they are separated by commas"""
+        if self._clause_sql(values) is None:
+            return []
+        names, depth = [[]], 0
+        for value in values:
+            if value in {"(", "{", "["}:
+                depth += 1
+            elif value in {")", "}", "]"}:
+                depth -= 1
+            if value == "," and depth == 0:
+                names.append([])
+            else:
+                names[-1].append(value)
+        names = [self._clause_sql(name) for name in names]
+        if any(name is None for name in names):
+            raise ParseError(f"Could not parse identifiers {''.join(values)} in statement {self.sql}")
+        return names
+
+    def _funnel(self, clauses: dict, steps: list):
+        if "funnel" not in clauses:
+            if "for" in clauses:
+                raise ParseError(f"Found FOR without FUNNEL in statement {self.sql}")
+            return {}
+
+        steps = [self._clause_sql(step) for step in steps]
+        within = (self._clause_sql(clauses.get("within")) or "").split()
+        if len(within) != 2 or any(step is None for step in steps):
+            raise ParseError(
+                "Expected a funnel to look like: FUNNEL condition THEN condition "
+                f"WITHIN number unit in statement {self.sql}"
+            )
+        value = self._whole_number("WITHIN", within[0])
+        funnel = {"steps": steps, "within": {"value": value, "unit": within[1].lower()}}
+        if "for" in clauses:
+            funnel["view_name"] = (self._clause_sql(clauses["for"]) or "").lower()
+        return funnel
+
+    def _whole_number(self, keyword: str, value: str):
+        try:
+            return int(value)
+        except (TypeError, ValueError):
+            raise ParseError(
+                f"Expected a whole number after {keyword} but found {value} in statement {self.sql}"
+            )
 
-    def _is_funnel(self, token):
-        return str(token).upper().strip() == "FUNNEL"
+    @staticmethod
+    def _clause_sql(values: list):
+        sql = "".join(values or []).strip()
+        return sql if sql else None
-- 
2.43.0


From 2510ac633ccce64cc99e929aea1f5976421f75ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:12 +0000
Subject: [PATCH 37/62] fix: MQL gives back the connection and the query kind
 it resolved

---
 metrics_layer/core/query/query.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metrics_layer/core/query/query.py b/metrics_layer/core/query/query.py
index 8f7cca9..2384fc8 100644
--- a/metrics_layer/core/query/query.py
+++ b/metrics_layer/core/query/query.py
@@ -133,8 +133,8 @@ class MetricsLayerConnection:
             converter = MQLConverter(
                 sql, project=self.project, connections=self.connections, **{**self.kwargs, **kwargs}
             )
-            connection = converter.connection
             query = converter.get_query()
+            connection, query_kind = converter.connection, converter.query_kind
         elif metrics or dimensions:
             resolver = SQLQueryResolver(
                 metrics=metrics,
@@ -149,6 +149,7 @@ class MetricsLayerConnection:
             )
             connection = resolver.connection
             query = resolver.get_query()
+            query_kind = getattr(resolver, "query_kind", None)
         elif len(merged_queries) > 0:
             # This kwarg is meaningless in the context of the merged query resolver
             # But it can mess up sub queries if it's not popped here
@@ -164,6 +165,7 @@ class MetricsLayerConnection:
             )
             connection = resolver.connection
             query = resolver.get_query()
+            query_kind = getattr(resolver, "query_kind", None)
         else:
             raise QueryError(
                 'No metrics or dimensions specified. Please provide either "metrics" or "dimensions"'
@@ -176,7 +178,7 @@ class MetricsLayerConnection:
             return query, connection
 
         if kwargs.get("return_query_kind", False):
-            return query, resolver.query_kind
+            return query, query_kind
         return query
 
     def run_query(self, query: str, connection: BaseConnection, **kwargs):
-- 
2.43.0


From 0dfee0aceafdd33d6de8aa572a0612e5c5cae72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:25 +0000
Subject: [PATCH 38/62] fix: a condition or an order given as text heeds fields
 named like words of SQL, and mappings whole names only

---
 metrics_layer/core/sql/query_base.py          | 40 ++++++++++++++++++-
 metrics_layer/core/sql/query_generator.py     |  9 +----
 metrics_layer/core/sql/resolve.py             |  4 +-
 .../core/sql/single_query_resolve.py          |  3 +-
 4 files changed, 43 insertions(+), 13 deletions(-)

diff --git a/metrics_layer/core/sql/query_base.py b/metrics_layer/core/sql/query_base.py
index 94279c3..ce56f01 100644
--- a/metrics_layer/core/sql/query_base.py
+++ b/metrics_layer/core/sql/query_base.py
@@ -4,7 +4,7 @@ from copy import deepcopy
 import sqlparse
 from pypika import JoinType
 from pypika.terms import LiteralValue
-from sqlparse.tokens import Name, Punctuation
+from sqlparse.tokens import Keyword, Name, Punctuation
 
 from metrics_layer.core.exceptions import QueryError
 from metrics_layer.core.model.base import MetricsLayerBase
@@ -41,10 +41,15 @@ class MetricsLayerQueryBase(MetricsLayerBase):
         generator = list(sqlparse.parse(clause)[0].flatten())
 
         field_names = []
+        in_braces = False
         for i, token in enumerate(generator):
+            in_braces = str(token) == "{" or (in_braces and str(token) != "}")
             not_already_added = i == 0 or str(generator[i - 1]) != "."
             is_function = i + 1 < len(generator) and str(generator[i + 1]) == "("
-            if token.ttype == Name and not_already_added and not is_function:
+            # Inside of ${} everything is the name of a field, words of SQL like date or type too
+            is_word_in_braces = in_braces and (token.ttype in Name or token.ttype in Keyword)
+            is_name = token.ttype == Name or is_word_in_braces
+            if is_name and not_already_added and not is_function:
                 field_names.append(str(token))
 
             if token.ttype == Punctuation and str(token) == ".":
@@ -52,6 +57,37 @@ class MetricsLayerQueryBase(MetricsLayerBase):
                     field_names[-1] += f".{str(generator[i+1])}"
         return field_names
 
+    @staticmethod
+    def replace_identifier_in_clause(clause: str, to_replace: str, replace_with: str):
+        """Replaces the name of a field in the clause, and neither text like it nor longer names with it"""
+        tokens = [str(token) for token in sqlparse.parse(clause)[0].flatten()]
+        replaced, n_parts = "", len(to_replace.split(".")) * 2 - 1
+        i = 0
+        while i < len(tokens):
+            is_match = "".join(tokens[i : i + n_parts]) == to_replace
+            before, after = "".join(tokens[max(i - 1, 0) : i]), "".join(tokens[i + n_parts : i + n_parts + 1])
+            if is_match and before != "." and after not in {".", "("}:
+                replaced += replace_with
+                i += n_parts
+            else:
+                replaced += tokens[i]
+                i += 1
+        return replaced
+
+    @staticmethod
+    def parse_order_by_clause(clause: str):
+        """The field and the direction of every part of an order given as text"""
+        results = []
+        for order_clause in (clause or "").split(","):
+            # The direction is a word of its own after the field, whose name may contain "asc" or "desc"
+            order = re.sub(r"(?i)\s+nulls\s+(last|first)\s*$", "", order_clause.strip())
+            match = re.match(r"(?i)^(.*\S)\s+(asc|desc)$", order)
+            if match:
+                results.append({"field": match.group(1).lower(), "sort": match.group(2).lower()})
+            elif order:
+                results.append({"field": order.lower(), "sort": "asc"})
+        return results
+
     @staticmethod
     def get_pypika_join_type(join: Join):
         return MetricsLayerQueryBase.pypika_join_type_lookup(join.join_type)
diff --git a/metrics_layer/core/sql/query_generator.py b/metrics_layer/core/sql/query_generator.py
index 4da4d14..8b54e71 100644
--- a/metrics_layer/core/sql/query_generator.py
+++ b/metrics_layer/core/sql/query_generator.py
@@ -122,14 +122,7 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
         results = []
         # Handle literal order by
         if isinstance(order_by, str):
-            for order_clause in order_by.split(","):
-                # The direction is a word of its own after the field, whose name may contain "asc" or "desc"
-                clause = re.sub(r"(?i)\s+nulls\s+(last|first)\s*$", "", order_clause.strip())
-                match = re.match(r"(?i)^(.*\S)\s+(asc|desc)$", clause)
-                if match:
-                    results.append({"field": match.group(1).lower(), "sort": match.group(2).lower()})
-                else:
-                    results.append({"field": clause.lower(), "sort": "asc"})
+            results.extend(self.parse_order_by_clause(order_by))
 
         # Handle JSON order_by
         if isinstance(order_by, list):
diff --git a/metrics_layer/core/sql/resolve.py b/metrics_layer/core/sql/resolve.py
index ac10691..23be119 100644
--- a/metrics_layer/core/sql/resolve.py
+++ b/metrics_layer/core/sql/resolve.py
@@ -8,7 +8,7 @@ from metrics_layer.core.model.definitions import Definitions
 from metrics_layer.core.model.filter import Filter, MetricsLayerFilterExpressionType
 from metrics_layer.core.model.project import Project
 from metrics_layer.core.sql.merged_query_resolve import MergedSQLQueryResolver
-from metrics_layer.core.sql.query_base import QueryKindTypes
+from metrics_layer.core.sql.query_base import MetricsLayerQueryBase, QueryKindTypes
 from metrics_layer.core.sql.query_filter import datatype_cast
 from metrics_layer.core.sql.single_query_resolve import SingleSQLQueryResolver
 
@@ -410,7 +410,7 @@ class SQLQueryResolver(SingleSQLQueryResolver):
 
     def _replace_dict_or_literal(self, where, to_replace, field):
         if self._is_literal(where):
-            return where.replace(to_replace, field.id())
+            return MetricsLayerQueryBase.replace_identifier_in_clause(where, to_replace, field.id())
         else:
             result = []
             for w in where:
diff --git a/metrics_layer/core/sql/single_query_resolve.py b/metrics_layer/core/sql/single_query_resolve.py
index 6b0d369..5d05ea9 100644
--- a/metrics_layer/core/sql/single_query_resolve.py
+++ b/metrics_layer/core/sql/single_query_resolve.py
@@ -208,7 +208,8 @@ class SingleSQLQueryResolver:
 
         self.order_by = self._check_for_dict(order_by)
         if self._is_literal(self.order_by):
-            self._order_by_field_names = MetricsLayerQuery.parse_identifiers_from_clause(self.order_by)
+            parsed_order_by = MetricsLayerQuery.parse_order_by_clause(self.order_by)
+            self._order_by_field_names = [order["field"] for order in parsed_order_by]
         else:
             self._order_by_field_names = self.parse_identifiers_from_dicts(self.order_by)
         return self._where_field_names, self._having_field_names, self._order_by_field_names
-- 
2.43.0


From 8aec3656a5a118d13d029a9887214b24984b9288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:57 +0000
Subject: [PATCH 39/62] fix: merged results accept conditions given as text

---
 .../core/sql/merged_query_resolve.py          | 30 +++++++++++++++++--
 metrics_layer/core/sql/query_base.py          |  4 +--
 .../core/sql/query_merged_results.py          |  4 ++-
 3 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/metrics_layer/core/sql/merged_query_resolve.py b/metrics_layer/core/sql/merged_query_resolve.py
index 6523f4c..d678eb8 100644
--- a/metrics_layer/core/sql/merged_query_resolve.py
+++ b/metrics_layer/core/sql/merged_query_resolve.py
@@ -1,10 +1,12 @@
 import hashlib
 import json
+import re
 from collections import defaultdict
 from copy import deepcopy
 
 from metrics_layer.core.exceptions import QueryError
 from metrics_layer.core.model.definitions import Definitions
+from metrics_layer.core.sql.query_base import MetricsLayerQueryBase
 from metrics_layer.core.sql.query_merged_results import MetricsLayerMergedResultsQuery
 from metrics_layer.core.sql.single_query_resolve import SingleSQLQueryResolver
 
@@ -91,7 +93,7 @@ class MergedSQLQueryResolver(SingleSQLQueryResolver):
             "merged_metrics": self.merged_metrics,
             "query_metrics": readable_metrics,
             "query_dimensions": readable_dimensions,
-            "having": self.having,
+            "having": self._having_with_aliases(),
             "queries_to_join": queries_to_join,
             "join_hashes": list(sorted(readable_join_hashes)),
             "mapping_lookup": readable_mapping_lookup,
@@ -125,8 +127,8 @@ class MergedSQLQueryResolver(SingleSQLQueryResolver):
 
         secondary_metric_ids = [m.id() for m in self.secondary_metrics]
         merged_metric_ids = [m.id() for m in self.merged_metrics]
-        for h in self.flatten_filters(self.having):
-            field = self.project.get_field(h["field"])
+        for having_field_name in self._having_field_names:
+            field = self.project.get_field(having_field_name)
             if field.id() not in secondary_metric_ids and not field.is_merged_result:
                 self.secondary_metrics.append(field)
             elif field.id() not in merged_metric_ids and field.is_merged_result:
@@ -263,6 +265,11 @@ class MergedSQLQueryResolver(SingleSQLQueryResolver):
         keys = list(self.query_metrics.keys()) + list(self.query_dimensions.keys())
         unique_keys = sorted(list(set(keys)), key=lambda x: keys.index(x))
         self.query_where = defaultdict(list)
+        if self.where and self._is_literal(self.where):
+            for join_hash in unique_keys:
+                self.query_where[join_hash] = self._parse_where_literal(dimension_mapping, join_hash)
+            return
+
         for join_hash in unique_keys:
             for where in self.where:
                 resolved_where = self._parse_where_filter(where, dimension_mapping, join_hash)
@@ -280,6 +287,23 @@ class MergedSQLQueryResolver(SingleSQLQueryResolver):
             clean_wheres[k] = [lookup[h] for h in sorted_hashes]
         self.query_where = clean_wheres
 
+    def _parse_where_literal(self, dimension_mapping, join_hash):
+        where = self.where
+        for name in self._where_field_names:
+            resolved = self._resolve_where_mapped_filter({"field": name}, dimension_mapping, join_hash)
+            where = MetricsLayerQueryBase.replace_identifier_in_clause(where, name, resolved["field"])
+        return where
+
+    def _having_with_aliases(self):
+        if not self.having or not self._is_literal(self.having):
+            return self.having
+        # The conditions apply to the columns of the merged result
+        having = self.having
+        for name in self._having_field_names:
+            alias = self.project.get_field(name).alias(with_view=True)
+            having = re.sub(r"\$\{\s*" + re.escape(name) + r"\s*\}", lambda _: alias, having)
+        return having
+
     def _parse_where_filter(self, where_filter, dimension_mapping, join_hash):
         def recurse(filter_obj):
             if isinstance(filter_obj, dict):
diff --git a/metrics_layer/core/sql/query_base.py b/metrics_layer/core/sql/query_base.py
index ce56f01..accad67 100644
--- a/metrics_layer/core/sql/query_base.py
+++ b/metrics_layer/core/sql/query_base.py
@@ -60,11 +60,11 @@ class MetricsLayerQueryBase(MetricsLayerBase):
     @staticmethod
     def replace_identifier_in_clause(clause: str, to_replace: str, replace_with: str):
         """Replaces the name of a field in the clause, and neither text like it nor longer names with it"""
-        tokens = [str(token) for token in sqlparse.parse(clause)[0].flatten()]
+        tokens = [str(token) for statement in sqlparse.parse(clause) for token in statement.flatten()]
         replaced, n_parts = "", len(to_replace.split(".")) * 2 - 1
         i = 0
         while i < len(tokens):
-            is_match = "".join(tokens[i : i + n_parts]) == to_replace
+            is_match = "".join(tokens[i : i + n_parts]).lower() == to_replace.lower()
             before, after = "".join(tokens[max(i - 1, 0) : i]), "".join(tokens[i + n_parts : i + n_parts + 1])
             if is_match and before != "." and after not in {".", "("}:
                 replaced += replace_with
diff --git a/metrics_layer/core/sql/query_merged_results.py b/metrics_layer/core/sql/query_merged_results.py
index 9f79274..775bf10 100644
--- a/metrics_layer/core/sql/query_merged_results.py
+++ b/metrics_layer/core/sql/query_merged_results.py
@@ -23,7 +23,9 @@ class MetricsLayerMergedResultsQuery(MetricsLayerQueryBase):
         select = self.get_select_columns()
         complete_query = base_cte_query.select(*select)
 
-        if self.having:
+        if self.having and isinstance(self.having, str):
+            complete_query = complete_query.where(LiteralValueCriterion(self.having))
+        elif self.having:
             where = self.get_where_with_aliases(self.having, project=self.project)
             complete_query = complete_query.where(Criterion.all(where))
 
-- 
2.43.0


From ff2e0286ddd1bf9af6fa621c54900ca0ade2f8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:07 +0000
Subject: [PATCH 40/62] fix: cumulative metrics and funnels accept conditions
 given as text, and non-additive metrics join the views they name

---
 .../core/sql/merged_query_resolve.py          |  7 +-
 metrics_layer/core/sql/query_base.py          | 52 ++++++++++-
 .../core/sql/query_cumulative_metric.py       | 86 +++++++++++++------
 metrics_layer/core/sql/query_funnel.py        |  8 +-
 metrics_layer/core/sql/query_generator.py     |  7 +-
 5 files changed, 116 insertions(+), 44 deletions(-)

diff --git a/metrics_layer/core/sql/merged_query_resolve.py b/metrics_layer/core/sql/merged_query_resolve.py
index d678eb8..4fa16f3 100644
--- a/metrics_layer/core/sql/merged_query_resolve.py
+++ b/metrics_layer/core/sql/merged_query_resolve.py
@@ -1,6 +1,5 @@
 import hashlib
 import json
-import re
 from collections import defaultdict
 from copy import deepcopy
 
@@ -298,11 +297,7 @@ class MergedSQLQueryResolver(SingleSQLQueryResolver):
         if not self.having or not self._is_literal(self.having):
             return self.having
         # The conditions apply to the columns of the merged result
-        having = self.having
-        for name in self._having_field_names:
-            alias = self.project.get_field(name).alias(with_view=True)
-            having = re.sub(r"\$\{\s*" + re.escape(name) + r"\s*\}", lambda _: alias, having)
-        return having
+        return MetricsLayerQueryBase.literal_with_aliases(self.having, self.project).sql_query
 
     def _parse_where_filter(self, where_filter, dimension_mapping, join_hash):
         def recurse(filter_obj):
diff --git a/metrics_layer/core/sql/query_base.py b/metrics_layer/core/sql/query_base.py
index accad67..2eb37f3 100644
--- a/metrics_layer/core/sql/query_base.py
+++ b/metrics_layer/core/sql/query_base.py
@@ -4,12 +4,14 @@ from copy import deepcopy
 import sqlparse
 from pypika import JoinType
 from pypika.terms import LiteralValue
-from sqlparse.tokens import Keyword, Name, Punctuation
+from sqlparse.tokens import Comment, Keyword, Name, Punctuation
 
 from metrics_layer.core.exceptions import QueryError
 from metrics_layer.core.model.base import MetricsLayerBase
+from metrics_layer.core.model.filter import LiteralValueCriterion
 from metrics_layer.core.model.join import Join, ZenlyticJoinType
 from metrics_layer.core.sql.query_filter import MetricsLayerFilter
+from metrics_layer.core.utils import flatten_filters
 
 
 class MetricsLayerQueryBase(MetricsLayerBase):
@@ -19,6 +21,9 @@ class MetricsLayerQueryBase(MetricsLayerBase):
     def get_where_with_aliases(
         self, filters: list, project, cte_alias_lookup: dict = {}, raise_if_not_in_lookup: bool = False
     ):
+        if isinstance(filters, str):
+            return [self.literal_with_aliases(filters, project, cte_alias_lookup, raise_if_not_in_lookup)]
+
         where = []
         for filter_clause in filters:
             filter_clause["query_type"] = self.query_type
@@ -34,6 +39,51 @@ class MetricsLayerQueryBase(MetricsLayerBase):
             )
         return where
 
+    @staticmethod
+    def literal_with_aliases(
+        clause: str, project, cte_alias_lookup: dict = {}, raise_if_not_in_lookup: bool = False
+    ):
+        """The conditions given as text, on the columns that have the fields' aliases as names"""
+        for name in MetricsLayerQueryBase.parse_identifiers_from_clause(clause):
+            field = project.get_field(name)
+            alias = field.alias(with_view=True)
+            if alias in cte_alias_lookup:
+                alias = f"{cte_alias_lookup[alias]}.{alias}"
+            elif raise_if_not_in_lookup:
+                MetricsLayerBase._raise_query_error_from_cte(field.id())
+            clause = MetricsLayerQueryBase.replace_field_in_clause(clause, name, alias)
+        return LiteralValueCriterion(clause)
+
+    @staticmethod
+    def replace_field_in_clause(clause: str, name: str, sql: str):
+        return re.sub(r"\$\{\s*" + re.escape(name) + r"\s*\}", lambda _: sql, clause)
+
+    @staticmethod
+    def split_clause(clause: str):
+        """The conditions that are combined with AND on the top level of the clause"""
+        parts, depth, case_depth, is_between, has_or = [""], 0, 0, False, False
+        for token in sqlparse.parse(clause)[0].flatten():
+            value = str(token).upper()
+            depth += {"(": 1, ")": -1}.get(value, 0)
+            case_depth += {"CASE": 1, "END": -1}.get(value, 0) if token.ttype in Keyword else 0
+            is_top_level = depth == 0 and case_depth == 0 and token.ttype in Keyword
+            has_or = has_or or (is_top_level and value == "OR")
+            if is_top_level and value == "AND" and not is_between:
+                parts.append("")
+                continue
+            if is_top_level and value in {"BETWEEN", "AND"}:
+                is_between = value == "BETWEEN"
+            parts[-1] += " " if token.ttype in Comment else str(token)
+        parts = [" and ".join(parts)] if has_or else parts
+        return [part.strip() for part in parts if part.strip()]
+
+    @staticmethod
+    def condition_field_names(conditions):
+        """The names of the fields in conditions, which are given as text or as dictionaries"""
+        if isinstance(conditions, str):
+            return MetricsLayerQueryBase.parse_identifiers_from_clause(conditions)
+        return [f["field"] for f in flatten_filters(conditions) if "field" in f]
+
     @staticmethod
     def parse_identifiers_from_clause(clause: str):
         if clause is None:
diff --git a/metrics_layer/core/sql/query_cumulative_metric.py b/metrics_layer/core/sql/query_cumulative_metric.py
index 2d1f76b..21b2ed2 100644
--- a/metrics_layer/core/sql/query_cumulative_metric.py
+++ b/metrics_layer/core/sql/query_cumulative_metric.py
@@ -3,10 +3,16 @@ from copy import deepcopy
 
 from pypika import Criterion, JoinType, Table
 
-from metrics_layer.core.exceptions import AccessDeniedOrDoesNotExistException
+from metrics_layer.core.exceptions import (
+    AccessDeniedOrDoesNotExistException,
+    QueryError,
+)
 from metrics_layer.core.model.definitions import Definitions
 from metrics_layer.core.model.field import Field
-from metrics_layer.core.model.filter import LiteralValueCriterion
+from metrics_layer.core.model.filter import (
+    LiteralValueCriterion,
+    MetricsLayerFilterGroupLogicalOperatorType,
+)
 from metrics_layer.core.sql.query_base import MetricsLayerQueryBase
 from metrics_layer.core.sql.query_design import MetricsLayerDesign
 from metrics_layer.core.sql.query_dialect import query_lookup
@@ -98,11 +104,8 @@ class CumulativeMetricsQuery(MetricsLayerQueryBase):
 
     def separate_metrics(self):
         cumulative_metrics, non_cumulative_metrics = [], []
-        for field_name in self.metrics + self.having:
-            if isinstance(field_name, str):
-                field = self.design.get_field(field_name)
-            else:
-                field = self.design.get_field(field_name["field"])
+        for field_name in self.metrics + self.condition_field_names(self.having):
+            field = self.design.get_field(field_name)
 
             if field.is_cumulative():
                 if field.type == "number":
@@ -163,12 +166,7 @@ class CumulativeMetricsQuery(MetricsLayerQueryBase):
             dimensions.extend(self._cumulative_where_fields(cumulative_metric))
         dimension_ids = [d.id() for d in dimensions]
 
-        where = []
-        for w in self.where:
-            where_field = self.design.get_field(w["field"])
-            if not self._is_default_date(where_field):
-                where.append(w)
-
+        _, where = self._separate_where()
         query = self._subquery(
             metrics=[reference_metric], dimensions=dimension_ids, where=where, no_group_by=True
         )
@@ -257,20 +255,8 @@ class CumulativeMetricsQuery(MetricsLayerQueryBase):
 
         from_query = from_query.where(LiteralValueCriterion(f"{date_spine_reference}<={self.current_date}"))
 
-        having = []
-        for w in self.where:
-            where_field = self.design.get_field(w["field"])
-            if self._is_default_date(where_field):
-                date_having = deepcopy(w)
-                date_having["query_type"] = self.query_type
-                f = MetricsLayerFilter(definition=date_having, design=self.design, filter_type="having")
-                # The date spine takes the filter's timeframe, whichever metric's default date the filter is on
-                spine_definition = {**date_field._definition, "dimension_group": where_field.dimension_group}
-                spine_field = Field(spine_definition, view=date_field.view)
-                date_spine_sql = spine_field.apply_dimension_group_time_sql(
-                    date_spine_reference, self.query_type
-                )
-                having.append(f.criterion(date_spine_sql))
+        date_where, _ = self._separate_where()
+        having = [self._date_spine_criterion(w, date_field, date_spine_reference) for w in date_where]
 
         if default_date_is_present:
             group_by.append(self.sql(date_spine_reference))
@@ -283,6 +269,52 @@ class CumulativeMetricsQuery(MetricsLayerQueryBase):
 
         return from_query, cumulative_metric.cte_prefix()
 
+    def _separate_where(self):
+        """The conditions on the date spine, and the conditions on the rows the metrics accumulate"""
+        date_where, where = [], []
+        is_literal = isinstance(self.where, str)
+        for condition in self.split_clause(self.where) if is_literal else self.where or []:
+            fields = [self.design.get_field(n) for n in self.condition_field_names(condition)]
+            on_default_date = {self._is_default_date(field) for field in fields}
+            if len(on_default_date) > 1:
+                raise QueryError(
+                    "Cannot mix the default date of a cumulative metric with other fields in one condition: "
+                    f"{condition}"
+                )
+            if on_default_date == {True}:
+                date_where.append(condition)
+            else:
+                where.append(condition)
+        if is_literal:
+            where = " and ".join(f"({condition})" for condition in where) if len(where) > 1 else "".join(where)
+        return date_where, where
+
+    def _date_spine_criterion(self, condition, date_field: Field, date_spine_reference: str):
+        def date_spine_sql(field_name: str):
+            # The date spine takes the filter's timeframe, whichever metric's default date the filter is on
+            dimension_group = self.design.get_field(field_name).dimension_group
+            spine_definition = {**date_field._definition, "dimension_group": dimension_group}
+            spine_field = Field(spine_definition, view=date_field.view)
+            return spine_field.apply_dimension_group_time_sql(date_spine_reference, self.query_type)
+
+        if isinstance(condition, str):
+            for name in self.parse_identifiers_from_clause(condition):
+                condition = self.replace_field_in_clause(condition, name, date_spine_sql(name))
+            return LiteralValueCriterion(f"({condition})")
+
+        if "conditions" in condition:
+            criteria = [
+                self._date_spine_criterion(c, date_field, date_spine_reference)
+                for c in condition["conditions"]
+            ]
+            is_or = condition.get("logical_operator") == MetricsLayerFilterGroupLogicalOperatorType.or_
+            return Criterion.any(criteria) if is_or else Criterion.all(criteria)
+
+        date_having = deepcopy(condition)
+        date_having["query_type"] = self.query_type
+        f = MetricsLayerFilter(definition=date_having, design=self.design, filter_type="having")
+        return f.criterion(date_spine_sql(condition["field"]))
+
     def _is_default_date(self, field):
         date_aliases = []
         for cumulative_metric in self.cumulative_metrics:
diff --git a/metrics_layer/core/sql/query_funnel.py b/metrics_layer/core/sql/query_funnel.py
index c90cb13..0701e28 100644
--- a/metrics_layer/core/sql/query_funnel.py
+++ b/metrics_layer/core/sql/query_funnel.py
@@ -129,7 +129,7 @@ class FunnelQuery(MetricsLayerQueryBase):
 
         event_condition_fields = self._get_event_condition_fields()
 
-        having_metrics = sorted(set(f["field"] for f in self.having)) if self.having else []
+        having_metrics = sorted(set(self.condition_field_names(self.having)))
         requested_metrics = {self.design.get_field(m).id() for m in self.metrics}
         self.metrics = self.metrics + [
             m for m in having_metrics if self.design.get_field(m).id() not in requested_metrics
@@ -158,11 +158,7 @@ class FunnelQuery(MetricsLayerQueryBase):
         return list(set(fields))
 
     def _get_fields_from_condition(self, condition):
-        if isinstance(condition, list):
-            fields = [f["field"] for f in condition if "field" in f]
-        else:
-            fields = self.parse_identifiers_from_clause(condition)
-        return fields
+        return self.condition_field_names(condition)
 
     def get_event_date(self):
         if "view_name" in self.funnel:
diff --git a/metrics_layer/core/sql/query_generator.py b/metrics_layer/core/sql/query_generator.py
index 8b54e71..d3c66d5 100644
--- a/metrics_layer/core/sql/query_generator.py
+++ b/metrics_layer/core/sql/query_generator.py
@@ -15,7 +15,6 @@ from metrics_layer.core.sql.query_design import MetricsLayerDesign
 from metrics_layer.core.sql.query_dialect import NullSorting, query_lookup
 from metrics_layer.core.sql.query_errors import ArgumentError
 from metrics_layer.core.sql.query_filter import MetricsLayerFilter
-from metrics_layer.core.utils import flatten_filters
 
 
 class MetricsLayerQuery(MetricsLayerQueryBase):
@@ -82,7 +81,7 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
         # them as CTE's for the appropriate filters
         self.non_additive_ctes = []
         metrics_in_select = definition.get("metrics", [])
-        metrics_in_having = [h["field"] for h in flatten_filters(having)]
+        metrics_in_having = self.condition_field_names(having)
         for metric in metrics_in_select + metrics_in_having:
             metric_field = self.design.get_field(metric)
             for ref_field in [metric_field] + metric_field.referenced_fields(metric_field.sql):
@@ -377,8 +376,8 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
         field_lookup[non_additive_dimension.id()] = non_additive_dimension
 
         # We also need to make all fields in the where clause available to the query
-        for f in flatten_filters(self.where):
-            field = self.design.get_field(f["field"])
+        for field_name in self.condition_field_names(self.where):
+            field = self.design.get_field(field_name)
             field_lookup[field.id()] = field
 
         temp_field_name = definition["window_choice"] + "_" + definition["name"].split(".")[-1]
-- 
2.43.0


From 87fe51559c320c165399632f946c11c84e4e8960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:07 +0000
Subject: [PATCH 41/62] fix: an MQL statement that ends with a semicolon is not
 put in parentheses

---
 metrics_layer/core/convert/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metrics_layer/core/convert/convert.py b/metrics_layer/core/convert/convert.py
index 060643e..f24f64a 100644
--- a/metrics_layer/core/convert/convert.py
+++ b/metrics_layer/core/convert/convert.py
@@ -120,7 +120,7 @@ class MQLConverter:
         parenthesis = next(t for t in token.tokens if isinstance(t, Parenthesis))
         mql_as_sql = self.resolve_mql_statement(parenthesis)
         # The MQL is part of a larger statement, unless it's all there is
-        wrap_parenthesis = str(token).strip() != self.sql.strip()
+        wrap_parenthesis = str(token).strip() != self.sql.strip().rstrip(";").strip()
         if wrap_parenthesis:
             mql_as_sql = f"({mql_as_sql})"
         return mql_as_sql
-- 
2.43.0


From c50bdaedd9f4e2f15f3471d631b9b390fe649e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:43 +0000
Subject: [PATCH 42/62] fix: merged queries accept compound conditions, and
 conditions and orders given as text

---
 .../core/sql/arbitrary_merge_resolve.py       | 42 +++++++++++++++----
 metrics_layer/core/sql/query_base.py          |  3 ++
 2 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/metrics_layer/core/sql/arbitrary_merge_resolve.py b/metrics_layer/core/sql/arbitrary_merge_resolve.py
index 20b06e9..75b119d 100644
--- a/metrics_layer/core/sql/arbitrary_merge_resolve.py
+++ b/metrics_layer/core/sql/arbitrary_merge_resolve.py
@@ -11,7 +11,7 @@ from metrics_layer.core.model.project import Project
 from metrics_layer.core.sql.query_arbitrary_merged_queries import (
     MetricsLayerMergedQueries,
 )
-from metrics_layer.core.sql.query_base import QueryKindTypes
+from metrics_layer.core.sql.query_base import MetricsLayerQueryBase, QueryKindTypes
 from metrics_layer.core.sql.resolve import SQLQueryResolver
 from metrics_layer.core.sql.single_query_resolve import SingleSQLQueryResolver
 
@@ -78,12 +78,11 @@ class ArbitraryMergedQueryResolver(SingleSQLQueryResolver):
 
         mapping_lookup = self._mapping_lookup
         self.model = resolver.model
-        clean_where = [{**w, "field": mapping_lookup.get(w["field"].lower(), w["field"])} for w in self.where]
-        clean_having = [
-            {**h, "field": mapping_lookup.get(h["field"].lower(), h["field"])} for h in self.having
-        ]
+        clean_where = self._replace_mapped_conditions(self.where, mapping_lookup)
+        clean_having = self._replace_mapped_conditions(self.having, mapping_lookup)
         clean_order_by = [
-            {**o, "field": mapping_lookup.get(o["field"].lower(), o["field"])} for o in self.order_by
+            {**o, "field": mapping_lookup.get(o["field"].lower(), o["field"])}
+            for o in self._order_by_as_list(self.order_by)
         ]
         merged_queries_resolver = MetricsLayerMergedQueries(
             {
@@ -103,6 +102,31 @@ class ArbitraryMergedQueryResolver(SingleSQLQueryResolver):
         query = merged_queries_resolver.get_query(semicolon=semicolon)
         return query
 
+    def _replace_mapped_conditions(self, conditions, mapping_lookup: dict):
+        if isinstance(conditions, str):
+            for name in MetricsLayerQueryBase.parse_identifiers_from_clause(conditions):
+                if name.lower() in mapping_lookup:
+                    conditions = MetricsLayerQueryBase.replace_identifier_in_clause(
+                        conditions, name, mapping_lookup[name.lower()]
+                    )
+            return conditions
+
+        replaced = []
+        for condition in conditions or []:
+            if "conditions" in condition:
+                nested = self._replace_mapped_conditions(condition["conditions"], mapping_lookup)
+                replaced.append({**condition, "conditions": nested})
+            else:
+                field_name = mapping_lookup.get(condition["field"].lower(), condition["field"])
+                replaced.append({**condition, "field": field_name})
+        return replaced
+
+    @staticmethod
+    def _order_by_as_list(order_by):
+        if isinstance(order_by, str):
+            return MetricsLayerQueryBase.parse_order_by_clause(order_by)
+        return order_by or []
+
     def _resolve_join_fields_mappings(
         self,
         primary_resolver: SQLQueryResolver,
@@ -161,8 +185,8 @@ class ArbitraryMergedQueryResolver(SingleSQLQueryResolver):
         )
 
     def _add_mapping_lookup(self, resolver: SQLQueryResolver):
-        where_fields = [f["field"] for f in resolver.where]
-        order_by_fields = [f["field"] for f in resolver.order_by]
+        where_fields = MetricsLayerQueryBase.condition_field_names(resolver.where)
+        order_by_fields = [o["field"] for o in self._order_by_as_list(resolver.order_by)]
         for mapping_name, mapping_field in resolver.mapping_lookup.items():
             if mapping_name not in self._mapping_lookup:
                 if any(d in mapping_field["fields"] for d in resolver.dimensions):
@@ -171,6 +195,8 @@ class ArbitraryMergedQueryResolver(SingleSQLQueryResolver):
                     field_name = next((f for f in mapping_field["fields"] if f in where_fields))
                 elif any(f in mapping_field["fields"] for f in order_by_fields):
                     field_name = next((f for f in mapping_field["fields"] if f in order_by_fields))
+                else:
+                    continue
                 self._mapping_lookup[mapping_name] = field_name
 
     @staticmethod
diff --git a/metrics_layer/core/sql/query_base.py b/metrics_layer/core/sql/query_base.py
index 2eb37f3..b1986cd 100644
--- a/metrics_layer/core/sql/query_base.py
+++ b/metrics_layer/core/sql/query_base.py
@@ -52,6 +52,9 @@ class MetricsLayerQueryBase(MetricsLayerBase):
             elif raise_if_not_in_lookup:
                 MetricsLayerBase._raise_query_error_from_cte(field.id())
             clause = MetricsLayerQueryBase.replace_field_in_clause(clause, name, alias)
+        # An OR in the text must not swallow the conditions next to it
+        if re.search(r"(?i)\bor\b", clause):
+            clause = f"({clause})"
         return LiteralValueCriterion(clause)
 
     @staticmethod
-- 
2.43.0


From 4a45fd4066517f5ebe4adbcc04bf1ead9b074069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:00 +0000
Subject: [PATCH 43/62] fix: merged results take a dimension's value from the
 fields it is joined on only

---
 .../core/sql/query_merged_results.py          | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/metrics_layer/core/sql/query_merged_results.py b/metrics_layer/core/sql/query_merged_results.py
index 775bf10..5030fc2 100644
--- a/metrics_layer/core/sql/query_merged_results.py
+++ b/metrics_layer/core/sql/query_merged_results.py
@@ -109,9 +109,8 @@ class MetricsLayerMergedResultsQuery(MetricsLayerQueryBase):
                     )
 
         dimension_sql = {}
-        all_dimension_ids = [field.id() for fields in self.query_dimensions.values() for field in fields]
         for join_hash, field_set in sorted(self.query_dimensions.items()):
-            for field in field_set:
+            for position, field in enumerate(field_set):
                 alias = field.alias(with_view=True)
                 if alias not in dimension_sql:
                     dimension_sql[alias] = f"{join_hash}.{alias}"
@@ -120,12 +119,17 @@ class MetricsLayerMergedResultsQuery(MetricsLayerQueryBase):
                     dimension_sql[alias] = f"{if_null_func}({dimension_sql[alias]}, {join_hash}.{alias})"
 
                 if field.id() in mapping_lookup:
-                    present_fields = [
-                        f for f in mapping_lookup[field.id()] if f["field"] in all_dimension_ids
-                    ]
-                    if_null_func = if_null_lookup[self.query_type]
-                    nested_sql = self.nested_if_null(present_fields, if_null_func)
-                    dimension_sql[alias] = f"{if_null_func}({join_hash}.{alias}, {nested_sql})"
+                    # Only the fields this one is joined on, which are in the same position
+                    # in the other sub queries, hold the same values as this field
+                    present_fields = []
+                    for f in mapping_lookup[field.id()]:
+                        joined_fields = self.query_dimensions.get(f["cte"], [])
+                        if position < len(joined_fields) and joined_fields[position].id() == f["field"]:
+                            present_fields.append(f)
+                    if present_fields:
+                        if_null_func = if_null_lookup[self.query_type]
+                        nested_sql = self.nested_if_null(present_fields, if_null_func)
+                        dimension_sql[alias] = f"{if_null_func}({join_hash}.{alias}, {nested_sql})"
 
         for alias, sql in dimension_sql.items():
             select.append(self.sql(sql, alias=alias))
-- 
2.43.0


From 45affd3129d4fed18bee4f7f493625b3c174480b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:00 +0000
Subject: [PATCH 44/62] fix: a mapping may be spelled in several cases, and a
 date mapping among mappings only is the date of the metrics

---
 metrics_layer/core/sql/resolve.py | 76 ++++++++++++++++++++++---------
 1 file changed, 54 insertions(+), 22 deletions(-)

diff --git a/metrics_layer/core/sql/resolve.py b/metrics_layer/core/sql/resolve.py
index 23be119..f3771a4 100644
--- a/metrics_layer/core/sql/resolve.py
+++ b/metrics_layer/core/sql/resolve.py
@@ -148,7 +148,17 @@ class SQLQueryResolver(SingleSQLQueryResolver):
         for do_replace, field_name in zip(replace_bools, field_ids):
             mapped_field = self.project.get_mapped_field(field_name, model=self.model)
             if mapped_field:
-                self.mapping_lookup[field_name] = {**mapped_field, "do_replace": do_replace}
+                # Mapping names are not case sensitive, so one mapping can be spelled in several ways
+                same_mapping = (m for m in self.mapping_lookup.values() if m["name"] == mapped_field["name"])
+                existing = next(same_mapping, None)
+                if existing is None:
+                    self.mapping_lookup[field_name] = {
+                        **mapped_field,
+                        "do_replace": do_replace,
+                        "spellings": [field_name],
+                    }
+                elif do_replace and field_name not in existing["spellings"]:
+                    existing["spellings"].append(field_name)
             else:
                 field_obj = self.project.get_field(field_name, model=self.model)
                 self.field_object_lookup[field_name] = field_obj
@@ -166,21 +176,7 @@ class SQLQueryResolver(SingleSQLQueryResolver):
 
                 is_date_mapping = mapped_field["name"] in self.model.special_mapping_values
                 if is_date_mapping and len(self.metrics) >= 1:
-                    # Use the first metric to replace the mapped field everywhere
-                    # This is fine to do in the case we have multiple metrics because in that
-                    # case we'll need to run a merged result query which will take care of mapping the
-                    # canon_date's for each metric regardless of the canon_date chosen for the filters
-                    first_metric_field = self._get_field_from_lookup(self.metrics[0])
-                    canon_date_id = f'{first_metric_field.canon_date}_{mapped_field["name"]}'
-                    replace_with = self.project.get_field(canon_date_id)
-
-                    # If the additional metrics have different canon_dates, we'll need to
-                    # change the query type to be a merged result
-                    for field_name in self.metrics[1:]:
-                        metric_field = self._get_field_from_lookup(field_name)
-                        if metric_field.canon_date != first_metric_field.canon_date:
-                            self.mapping_forces_merged_result = True
-                            break
+                    replace_with = self._metric_canon_date(mapped_field)
                 elif is_date_mapping and len(self.dimensions) >= 1:
                     canon_dates = set()
                     for d in self.dimensions:
@@ -226,8 +222,19 @@ class SQLQueryResolver(SingleSQLQueryResolver):
             # Since we have no "real" fields, we have no basis for required join graphs we
             # must match, yet. This gives us the raw material to derive which join graphs
             # overlap in the mappings.
+            # A date mapping is the date of the query's metrics, so with metrics in the query it is
+            # resolved after them and is no basis for the join graphs.
+            dates_of_metrics = {}
+            if len(self.metrics) >= 1:
+                dates_of_metrics = {
+                    name: mapped_field
+                    for name, mapped_field in self.mapping_lookup.items()
+                    if mapped_field["name"] in self.model.special_mapping_values
+                }
+            join_basis = {k: v for k, v in self.mapping_lookup.items() if k not in dates_of_metrics}
+
             check = defaultdict(list)
-            for name, mapped_field in self.mapping_lookup.items():
+            for name, mapped_field in join_basis.items():
                 for field_id, ref_field in self._accessible_mapped_fields(mapped_field):
                     check[name].append((field_id, ref_field.join_graphs()))
 
@@ -273,7 +280,7 @@ class SQLQueryResolver(SingleSQLQueryResolver):
                         validity[name][field_id] = points
 
             # If this exists and we have more than one mapping present
-            if validity and len(self.mapping_lookup) > 1:
+            if validity and len(join_basis) > 1:
                 replaced_mapping = None
                 all_items = [
                     (name, *item) for name, field_info in validity.items() for item in field_info.items()
@@ -289,8 +296,8 @@ class SQLQueryResolver(SingleSQLQueryResolver):
 
                 self._replace_mapped_field(name, replace_with)
             # In the event there is only one mapping, just pick the first field in the options
-            elif len(self.mapping_lookup) == 1:
-                for name, mapped_field in self.mapping_lookup.items():
+            elif len(join_basis) == 1:
+                for name, mapped_field in join_basis.items():
                     replaced_mapping = name
                     _, replace_with = self._accessible_mapped_fields(mapped_field)[0]
                     self.field_lookup[name] = replace_with.join_graphs()
@@ -298,7 +305,7 @@ class SQLQueryResolver(SingleSQLQueryResolver):
             else:
                 raise QueryError("No valid join path found for mapped fields")
 
-            for name, mapped_field in self.mapping_lookup.items():
+            for name, mapped_field in join_basis.items():
                 if name != replaced_mapping:
                     mergeable_graphs, joinable_graphs = self._join_graphs_by_type(self.field_lookup)
                     self._handle_invalid_merged_result(mergeable_graphs, joinable_graphs)
@@ -307,6 +314,27 @@ class SQLQueryResolver(SingleSQLQueryResolver):
                     )
                     self._replace_mapped_field(name, replace_with)
 
+            for name, mapped_field in dates_of_metrics.items():
+                self._replace_mapped_field(name, self._metric_canon_date(mapped_field))
+
+    def _metric_canon_date(self, mapped_field: dict):
+        # Use the first metric to replace the mapped field everywhere
+        # This is fine to do in the case we have multiple metrics because in that
+        # case we'll need to run a merged result query which will take care of mapping the
+        # canon_date's for each metric regardless of the canon_date chosen for the filters
+        first_metric_field = self._get_field_from_lookup(self.metrics[0])
+        canon_date_id = f'{first_metric_field.canon_date}_{mapped_field["name"]}'
+        canon_date_field = self.project.get_field(canon_date_id)
+
+        # If the additional metrics have different canon_dates, we'll need to
+        # change the query type to be a merged result
+        for field_name in self.metrics[1:]:
+            metric_field = self._get_field_from_lookup(field_name)
+            if metric_field.canon_date != first_metric_field.canon_date:
+                self.mapping_forces_merged_result = True
+                break
+        return canon_date_field
+
     def _get_field_from_lookup(self, field_name: str, only_search_lookup: bool = False):
         if field_name in self.field_object_lookup:
             metric_field = self.field_object_lookup[field_name]
@@ -390,7 +418,11 @@ class SQLQueryResolver(SingleSQLQueryResolver):
             )
             raise QueryError(error_message)
 
-    def _replace_mapped_field(self, to_replace: str, field):
+    def _replace_mapped_field(self, name: str, field):
+        for spelling in self.mapping_lookup[name]["spellings"]:
+            self._replace_spelled_mapped_field(spelling, field)
+
+    def _replace_spelled_mapped_field(self, to_replace: str, field):
         self.field_id_mapping[to_replace] = field.id()
         if to_replace in self.metrics:
             idx = self.metrics.index(to_replace)
-- 
2.43.0


From a54d3b717d9c2be8e5748102e9fd83af85cf867c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:56 +0000
Subject: [PATCH 45/62] fix: an event dimension named with its view is that
 field, not the default date

---
 metrics_layer/core/model/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metrics_layer/core/model/view.py b/metrics_layer/core/model/view.py
index 70f53b7..9253610 100644
--- a/metrics_layer/core/model/view.py
+++ b/metrics_layer/core/model/view.py
@@ -137,7 +137,7 @@ class View(MetricsLayerBase, SQLReplacement):
         if "event_dimension" in self._definition:
             if "." not in str(self._definition["event_dimension"]):
                 return f'{self.name}.{self._definition["event_dimension"]}'
-            return str(self._definition["default_date"])
+            return str(self._definition["event_dimension"])
         return None
 
     @property
-- 
2.43.0


From 4fc524828a10ac5c24dd45a234827f3423fec252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:17 +0000
Subject: [PATCH 46/62] fix: validation reports malformed definitions instead
 of raising

---
 metrics_layer/core/model/project.py | 58 ++++++++++++++++++++++++-----
 1 file changed, 48 insertions(+), 10 deletions(-)

diff --git a/metrics_layer/core/model/project.py b/metrics_layer/core/model/project.py
index ac62109..c41d274 100644
--- a/metrics_layer/core/model/project.py
+++ b/metrics_layer/core/model/project.py
@@ -145,8 +145,14 @@ class Project:
         join_as_to_create = {}
         copied_views = json.loads(json.dumps(views))
         for v in copied_views:
-            for identifier in v.get("identifiers", []):
-                if "join_as" in identifier and identifier["type"] == "primary":
+            identifiers = v.get("identifiers", [])
+            # Anything that is not an identifier is reported in the validation
+            if not isinstance(identifiers, list):
+                continue
+            for identifier in identifiers:
+                if not isinstance(identifier, dict) or not isinstance(identifier.get("join_as"), str):
+                    continue
+                if identifier.get("type") == "primary":
                     # To assign the join ONLY to the new view, we need to
                     # remove the identifier from the original view
                     v["identifiers"] = [i for i in v["identifiers"] if i["name"] != identifier["name"]]
@@ -240,14 +246,31 @@ class Project:
         # For project level errors we cannot attribute a line or column
         return {**extra, "message": error, "line": None, "column": None}
 
+    def _unexpected_error(self, location: str, exception: Exception, extra: dict = {}):
+        # A definition so broken that collecting its errors fails is reported as an error itself
+        if isinstance(exception, (AccessDeniedOrDoesNotExistException, QueryError)):
+            message = f"{exception} in {location}"
+        elif isinstance(exception, RecursionError):
+            message = f"Could not resolve references that refer back to themselves in {location}"
+        else:
+            message = f"Could not read the definition of {location}: {type(exception).__name__} {exception}"
+        return self._error(message, extra)
+
     def validate(self):
         all_errors = []
-        for model in self.models():
+        try:
+            models = self.models()
+        except QueryError as e:
+            return [self._error(str(e))]
+
+        for model in models:
             try:
                 all_errors.extend(model.collect_errors())
             except QueryError as e:
                 # If we have an error building the model, we cannot continue
                 return [self._error(str(e))]
+            except Exception as e:
+                return [self._unexpected_error(f"the model {model.name}", e)]
 
         try:
             all_errors.extend(self.join_graph.collect_errors())
@@ -255,6 +278,8 @@ class Project:
             # If we have an error building the graph, we cannot continue
             # and no other errors will be relevant until this is fixed
             return [self._error(str(e))]
+        except Exception as e:
+            return [self._unexpected_error("the joins of the project", e)]
 
         for join_graph in self.join_graph.list_join_graphs():
             try:
@@ -294,12 +319,18 @@ class Project:
                 view.sql_table_name
             except QueryError as e:
                 all_errors.append(self._error(str(e) + f" in the view {view.name}", {"view_name": view.name}))
+            referenced_fields = []
             try:
                 referenced_fields = view.referenced_fields()
-            except (AccessDeniedOrDoesNotExistException, QueryError) as e:
-                all_errors.append(self._error(str(e) + f" in the view {view.name}", {"view_name": view.name}))
+            except Exception as e:
+                all_errors.append(
+                    self._unexpected_error(f"the view {view.name}", e, {"view_name": view.name})
+                )
 
-            view_errors = view.collect_errors()
+            try:
+                view_errors = view.collect_errors()
+            except Exception as e:
+                view_errors = [self._unexpected_error(f"the view {view.name}", e, {"view_name": view.name})]
 
             for field in referenced_fields:
                 if isinstance(field, tuple):
@@ -322,11 +353,18 @@ class Project:
                     )
             all_errors.extend(view_errors)
 
-        for dashboard in self.dashboards():
-            errors = dashboard.collect_errors()
-            all_errors.extend(errors)
+        try:
+            dashboards = self.dashboards()
+            all_errors.extend(self._validate_dashboard_names())
+        except QueryError as e:
+            dashboards = []
+            all_errors.append(self._error(str(e)))
 
-        all_errors.extend(self._validate_dashboard_names())
+        for dashboard in dashboards:
+            try:
+                all_errors.extend(dashboard.collect_errors())
+            except Exception as e:
+                all_errors.append(self._unexpected_error(f"the dashboard {dashboard.name}", e))
 
         cleaned_errors, _seen = [], set([])
         for e in all_errors:
-- 
2.43.0


From c66ac2777d62684c1b533c89ec0ab67bdc74b3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:17 +0000
Subject: [PATCH 47/62] fix: validation checks a join_as label, prefix and
 include_metrics without a join_as

---
 metrics_layer/core/model/view.py | 59 ++++++++++++++++----------------
 1 file changed, 30 insertions(+), 29 deletions(-)

diff --git a/metrics_layer/core/model/view.py b/metrics_layer/core/model/view.py
index 9253610..dc15136 100644
--- a/metrics_layer/core/model/view.py
+++ b/metrics_layer/core/model/view.py
@@ -909,38 +909,39 @@ class View(MetricsLayerBase, SQLReplacement):
                         ),
                     )
                 )
-            if "join_as_label" in identifier and not isinstance(identifier["join_as_label"], str):
-                errors.append(
-                    error_func(
-                        identifier["join_as_label"],
-                        (
-                            f"The join_as_label property, {identifier['join_as_label']} in the identifier"
-                            f" {identifier['name']} in view {self.name} must be a string"
-                        ),
-                    )
+        # The join_as itself is not present anymore in the identifier of the view it creates
+        if "join_as_label" in identifier and not isinstance(identifier["join_as_label"], str):
+            errors.append(
+                error_func(
+                    identifier["join_as_label"],
+                    (
+                        f"The join_as_label property, {identifier['join_as_label']} in the identifier"
+                        f" {identifier['name']} in view {self.name} must be a string"
+                    ),
                 )
-            if "join_as_field_prefix" in identifier and not isinstance(
-                identifier["join_as_field_prefix"], str
-            ):
-                errors.append(
-                    error_func(
-                        identifier["join_as_field_prefix"],
-                        (
-                            f"The join_as_field_prefix property, {identifier['join_as_field_prefix']} in the"
-                            f" identifier {identifier['name']} in view {self.name} must be a string"
-                        ),
-                    )
+            )
+        if "join_as_field_prefix" in identifier and not isinstance(
+            identifier["join_as_field_prefix"], str
+        ):
+            errors.append(
+                error_func(
+                    identifier["join_as_field_prefix"],
+                    (
+                        f"The join_as_field_prefix property, {identifier['join_as_field_prefix']} in the"
+                        f" identifier {identifier['name']} in view {self.name} must be a string"
+                    ),
                 )
-            if "include_metrics" in identifier and not isinstance(identifier["include_metrics"], bool):
-                errors.append(
-                    error_func(
-                        identifier["include_metrics"],
-                        (
-                            f"The include_metrics property, {identifier['include_metrics']} in the identifier"
-                            f" {identifier['name']} in view {self.name} must be a boolean"
-                        ),
-                    )
+            )
+        if "include_metrics" in identifier and not isinstance(identifier["include_metrics"], bool):
+            errors.append(
+                error_func(
+                    identifier["include_metrics"],
+                    (
+                        f"The include_metrics property, {identifier['include_metrics']} in the identifier"
+                        f" {identifier['name']} in view {self.name} must be a boolean"
+                    ),
                 )
+            )
 
         join_properties = additional_properties + all_identifier_properties + join_as_valid_properties
         for e in self.invalid_property_error(
-- 
2.43.0


From 5a499996cdbb2d6122257c529c3a0ae98dcbb0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:17 +0000
Subject: [PATCH 48/62] fix: validation reports missing and circular sets

---
 metrics_layer/core/model/set.py | 36 +++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/metrics_layer/core/model/set.py b/metrics_layer/core/model/set.py
index 3f70328..e2932cf 100644
--- a/metrics_layer/core/model/set.py
+++ b/metrics_layer/core/model/set.py
@@ -49,8 +49,16 @@ class Set(MetricsLayerBase):
                 )
             )
         else:
+            errors.extend(self._missing_set_errors())
             try:
                 field_names = self.field_names()
+            except RecursionError:
+                field_names = []
+                errors.append(
+                    self._error(
+                        self._definition["fields"], f"The Set {self.name} refers back to itself in its fields"
+                    )
+                )
             except Exception:
                 # These errors are handled in the view in which the set is defined
                 field_names = []
@@ -70,6 +78,21 @@ class Set(MetricsLayerBase):
         )
         return errors
 
+    def _missing_set_errors(self):
+        errors = []
+        for field_name in self.fields:
+            if not isinstance(field_name, str) or "*" not in field_name:
+                continue
+            set_name = field_name.replace("*", "").replace("-", "")
+            if set_name != "ALL_FIELDS" and self._referenced_set(set_name) is None:
+                errors.append(
+                    self._error(
+                        self._definition["fields"],
+                        f"In the Set {self.name} Could not find the set {set_name} in your project",
+                    )
+                )
+        return errors
+
     def field_names(self):
         all_field_names, names_to_exclude = [], []
         for field_name in self.fields:
@@ -109,15 +132,20 @@ class Set(MetricsLayerBase):
             )
             return [f"{f.view.name}.{f.alias()}" for f in all_fields]
 
+        _set = self._referenced_set(set_name)
+        if _set is None:
+            _, _, set_name = self.field_name_parts(set_name)
+            print(f"WARNING: Could not find set with name {set_name}, disregarding those fields")
+            return []
+        return _set.field_names()
+
+    def _referenced_set(self, set_name: str):
         _, view_name, set_name = self.field_name_parts(set_name)
         _set = self.project.get_set(set_name, view_name=view_name or self.view_name)
         # A set of the same view takes precedence, without one a set of any view can be meant
         if _set is None and view_name is None:
             _set = self.project.get_set(set_name)
-        if _set is None:
-            print(f"WARNING: Could not find set with name {set_name}, disregarding those fields")
-            return []
-        return _set.field_names()
+        return _set
 
     def _get_view_name(self, view_name: Union[None, str], field_name: str):
         if view_name:
-- 
2.43.0


From 256ac69b8ebcbf3c5fe4cc954e75f86cf365f43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:17 +0000
Subject: [PATCH 49/62] fix: validation reports a sql that refers back to
 itself through other fields

---
 metrics_layer/core/model/field.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/metrics_layer/core/model/field.py b/metrics_layer/core/model/field.py
index 858e70b..364396a 100644
--- a/metrics_layer/core/model/field.py
+++ b/metrics_layer/core/model/field.py
@@ -2459,6 +2459,14 @@ class Field(MetricsLayerBase, SQLReplacement):
                         )
                     )
 
+        if self._refers_back_to_itself():
+            errors.append(
+                self._error(
+                    self._definition.get("sql"),
+                    f"Field {self.name} in view {self.view.name} refers back to itself in its sql.",
+                )
+            )
+
         # Catch invalid attributes for all field types
         # (this property is scoped based on field_type)
         properties = self.valid_properties + self.internal_properties
@@ -2506,6 +2514,29 @@ class Field(MetricsLayerBase, SQLReplacement):
                     errors.append(error_func(sql, error_text))
         return errors
 
+    def _refers_back_to_itself(self):
+        def _directly_referenced_fields(field):
+            for to_replace in field.fields_to_replace(field.sql) if isinstance(field.sql, str) else []:
+                try:
+                    yield field.get_field_with_view_info(to_replace)
+                except (AccessDeniedOrDoesNotExistException, QueryError):
+                    continue
+
+        # A sql consisting of only itself is already reported with the errors of its sql
+        if self.sql == "${" + self.name + "}":
+            return False
+
+        visited, to_visit = set(), [self]
+        while to_visit:
+            for referenced_field in _directly_referenced_fields(to_visit.pop()):
+                key = (referenced_field.view.name, referenced_field.name)
+                if key == (self.view.name, self.name):
+                    return True
+                if key not in visited:
+                    visited.add(key)
+                    to_visit.append(referenced_field)
+        return False
+
     def get_referenced_sql_query(self, strings_only=True):
         if self.sql and ("{%" in self.sql or self.sql == ""):
             return None
-- 
2.43.0


From 8a5632344fd823cfe59672f65a3967b7bc9d085e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:10 +0000
Subject: [PATCH 50/62] fix: the private key and the clone are removed when
 fetching or working on a repository fails

---
 metrics_layer/core/parse/github_repo.py | 54 ++++++++++++++-----------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/metrics_layer/core/parse/github_repo.py b/metrics_layer/core/parse/github_repo.py
index a0dea97..adca19b 100644
--- a/metrics_layer/core/parse/github_repo.py
+++ b/metrics_layer/core/parse/github_repo.py
@@ -91,8 +91,12 @@ class GithubRepo(BaseRepo):
         self.branch_options = []
 
     def fetch(self, private_key: str = None):
-        self.git_repo, branch_options, self._file_path = self.fetch_github_repo(private_key)
-        self.dbt_path = self.get_dbt_path()
+        try:
+            self.git_repo, branch_options, self._file_path = self.fetch_github_repo(private_key)
+            self.dbt_path = self.get_dbt_path()
+        except BaseException:
+            self.delete()
+            raise
         self.branch_options = branch_options
 
     def delete(self, folder: str = None):
@@ -158,13 +162,11 @@ class GithubRepo(BaseRepo):
     def _ssh_wrapped(self, func, **kwargs):
         private_key = kwargs.pop("private_key", None)
         if private_key and self._file_path:
-            self._write_private_key(private_key, self._file_path)
             try:
+                self._write_private_key(private_key, self._file_path)
                 func(**kwargs)
-                os.remove(self._file_path)
-            except Exception as e:
-                os.remove(self._file_path)
-                raise e
+            finally:
+                self._remove_private_key(self._file_path)
         else:
             func(**kwargs)
 
@@ -192,19 +194,16 @@ class GithubRepo(BaseRepo):
 
     @staticmethod
     def _fetch_github_repo_ssh(repo_url: str, repo_destination: str, branch: str, private_key: str):
+        if os.path.exists(repo_destination) and os.path.isdir(repo_destination):
+            shutil.rmtree(repo_destination)
         file_path = GithubRepo._write_private_key(private_key)
         git_env = GithubRepo._private_key_git_ssh_env(file_path)
 
         try:
             repo = git.Repo.clone_from(url=repo_url, to_path=repo_destination, branch=branch, env=git_env)
             branch_options = GithubRepo._fetch_branch_options(repo, branch)
-            os.remove(file_path)
-        except Exception as e:
-            try:
-                os.remove(file_path)
-            except Exception as e:
-                print(f"Exception removing private key file: {e}")
-            raise e
+        finally:
+            GithubRepo._remove_private_key(file_path)
 
         return repo, branch_options, file_path
 
@@ -217,19 +216,28 @@ class GithubRepo(BaseRepo):
         if file_path is None:
             file_name = f"ssh_p8_key_{utils.generate_uuid(db_safe=True)}"
             file_path = os.path.join(BASE_PATH, file_name)
-        with open(file_path, "wb") as f:
-            f.write(private_key)
-            try:
-                os.chmod(file_path, 0o600)
-            except Exception as e:
-                print(f"Exception chmoding private key file: {e}")
+        try:
+            with open(file_path, "wb") as f:
+                f.write(private_key)
                 try:
-                    os.remove(file_path)
+                    os.chmod(file_path, 0o600)
                 except Exception as e:
-                    print(f"Exception removing private key file: {e}")
-                    raise e
+                    print(f"Exception chmoding private key file: {e}")
+                    try:
+                        os.remove(file_path)
+                    except Exception as e:
+                        print(f"Exception removing private key file: {e}")
+                        raise e
+        except BaseException:
+            GithubRepo._remove_private_key(file_path)
+            raise
         return file_path
 
+    @staticmethod
+    def _remove_private_key(file_path: str):
+        if os.path.exists(file_path):
+            os.remove(file_path)
+
     @staticmethod
     def _fetch_branch_options(repo, branch):
         try:
-- 
2.43.0


From d90f2860ef25a4dbaaedd354857d42fbb9be5520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:10 +0000
Subject: [PATCH 51/62] fix: the clone is removed when a project cannot be
 loaded

---
 metrics_layer/core/parse/project_loader.py | 32 ++++++++++++----------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/metrics_layer/core/parse/project_loader.py b/metrics_layer/core/parse/project_loader.py
index a981a09..64f4304 100644
--- a/metrics_layer/core/parse/project_loader.py
+++ b/metrics_layer/core/parse/project_loader.py
@@ -43,21 +43,23 @@ class ProjectLoader:
 
     def _load_project(self, private_key):
         self.repo.fetch(private_key=private_key)
-        repo_type = self.repo.get_repo_type()
-        if repo_type == "metricflow":
-            reader = MetricflowProjectReader(repo=self.repo)
-        elif repo_type == "metrics_layer":
-            reader = MetricsLayerProjectReader(self.repo)
-        else:
-            raise TypeError(f"Unknown repo type: {repo_type}, valid types are 'metrics_layer', 'metricflow'")
-
-        models, views, dashboards = reader.load()
-        commit_hash = (
-            self.repo.git_repo.head.commit.hexsha
-            if isinstance(self.repo, GithubRepo) and self.repo.git_repo is not None
-            else None
-        )
-        self.repo.delete()
+        try:
+            repo_type = self.repo.get_repo_type()
+            if repo_type == "metricflow":
+                reader = MetricflowProjectReader(repo=self.repo)
+            elif repo_type == "metrics_layer":
+                reader = MetricsLayerProjectReader(self.repo)
+            else:
+                raise TypeError(f"Unknown repo type: {repo_type}, valid types are 'metrics_layer', 'metricflow'")
+
+            models, views, dashboards = reader.load()
+            commit_hash = (
+                self.repo.git_repo.head.commit.hexsha
+                if isinstance(self.repo, GithubRepo) and self.repo.git_repo is not None
+                else None
+            )
+        finally:
+            self.repo.delete()
 
         project = Project(
             models=models,
-- 
2.43.0


From aaf8174a4f7924c830e3ba1df89c807fa4d05294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:10 +0000
Subject: [PATCH 52/62] fix: connections are closed when a query fails, and a
 raw cursor of Postgres has run the query

---
 metrics_layer/core/sql/query_runner.py | 46 ++++++++++++++++----------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/metrics_layer/core/sql/query_runner.py b/metrics_layer/core/sql/query_runner.py
index 6874044..24c242d 100644
--- a/metrics_layer/core/sql/query_runner.py
+++ b/metrics_layer/core/sql/query_runner.py
@@ -59,14 +59,15 @@ class QueryRunner:
         self, timeout: int, raw_cursor: bool, run_pre_queries: bool, start_warehouse: bool
     ):
         snowflake_connection = self._get_snowflake_connection(self.connection)
-        if run_pre_queries:
-            self._run_snowflake_pre_queries(snowflake_connection)
-        elif start_warehouse:
-            self._run_snowflake_pre_queries(snowflake_connection, warehouse_only=True)
-        cursor = snowflake_connection.cursor()
-        cursor.execute(self.query, timeout=timeout)
-
-        snowflake_connection.close()
+        try:
+            if run_pre_queries:
+                self._run_snowflake_pre_queries(snowflake_connection)
+            elif start_warehouse:
+                self._run_snowflake_pre_queries(snowflake_connection, warehouse_only=True)
+            cursor = snowflake_connection.cursor()
+            cursor.execute(self.query, timeout=timeout)
+        finally:
+            snowflake_connection.close()
         if raw_cursor:
             return cursor
         df = cursor.fetch_pandas_all()
@@ -76,10 +77,11 @@ class QueryRunner:
         self, timeout: int, raw_cursor: bool, run_pre_queries: bool, start_warehouse: bool
     ):
         redshift_connection = self._get_redshift_connection(self.connection, timeout=timeout)
-        cursor = redshift_connection.cursor()
-        cursor.execute(self.query)
-
-        redshift_connection.close()
+        try:
+            cursor = redshift_connection.cursor()
+            cursor.execute(self.query)
+        finally:
+            redshift_connection.close()
         if raw_cursor:
             return cursor
         df = cursor.fetch_dataframe()
@@ -91,19 +93,29 @@ class QueryRunner:
         postgres_connection = self._get_postgres_connection(self.connection, timeout=timeout)
 
         if raw_cursor:
-            cursor = postgres_connection.cursor()
+            # The rows are read through the connection, so it stays open for as long as the cursor is used
+            try:
+                cursor = postgres_connection.connection.cursor()
+                cursor.execute(self.query)
+            except BaseException:
+                postgres_connection.close()
+                raise
             return cursor
 
-        df = pd.read_sql(self.query, postgres_connection)
-        postgres_connection.close()
+        try:
+            df = pd.read_sql(self.query, postgres_connection)
+        finally:
+            postgres_connection.close()
         return df
 
     def _run_bigquery_query(
         self, timeout: int, raw_cursor: bool, run_pre_queries: bool, start_warehouse: bool
     ):
         bigquery_connection = self._get_bigquery_connection(self.connection)
-        result = bigquery_connection.query(self.query, timeout=timeout, job_retry=None)
-        bigquery_connection.close()
+        try:
+            result = bigquery_connection.query(self.query, timeout=timeout, job_retry=None)
+        finally:
+            bigquery_connection.close()
         if raw_cursor:
             return result
         df = result.to_dataframe()
-- 
2.43.0


From 0ed06dec12c4c4c51fc2210563ede939329beab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:21 +0000
Subject: [PATCH 53/62] fix: dumped texts like yes, no, on and 1:30 are read as
 texts again

---
 metrics_layer/core/parse/project_reader_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metrics_layer/core/parse/project_reader_base.py b/metrics_layer/core/parse/project_reader_base.py
index 7eb263e..6d486ae 100644
--- a/metrics_layer/core/parse/project_reader_base.py
+++ b/metrics_layer/core/parse/project_reader_base.py
@@ -128,6 +128,8 @@ class ProjectReaderBase:
         # yaml.representer.add_representer(ZenlyticPreservedScalarString, ProjectReaderBase.repr_str)
         # yaml.representer.add_representer(ZenlyticDoubleQuotedScalarString, ProjectReaderBase.repr_str)
         # yaml.representer.add_representer(ZenlyticSingleQuotedScalarString, ProjectReaderBase.repr_str)
+        # Files are read as YAML 1.1, where yes, no, on, off and 1:30 are not text unless they are quoted
+        yaml.version = (1, 1)
         filtered_data = {k: v for k, v in data.items() if not k.startswith("_")}
         with open(path, "w") as f:
             yaml.dump(filtered_data, f)
-- 
2.43.0


From 323b05fa9b6f11e0965f73d1356825fd074f83cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:21 +0000
Subject: [PATCH 54/62] fix: definitions can be dumped into a folder within
 folders that do not exist

---
 metrics_layer/core/parse/project_dumper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metrics_layer/core/parse/project_dumper.py b/metrics_layer/core/parse/project_dumper.py
index fedbc06..ea86e09 100644
--- a/metrics_layer/core/parse/project_dumper.py
+++ b/metrics_layer/core/parse/project_dumper.py
@@ -22,7 +22,7 @@ class ProjectDumper(ProjectReaderBase):
                 file_name = model["name"] + "_model.yml"
                 models_folder = os.path.join(path, self._model_folder)
                 if not os.path.exists(models_folder):
-                    os.mkdir(models_folder)
+                    os.makedirs(models_folder)
                 file_path = os.path.join(models_folder, file_name)
             self.dump_yaml_file(self._sort_model(model), file_path)
 
@@ -36,7 +36,7 @@ class ProjectDumper(ProjectReaderBase):
                 file_name = view["name"] + "_view.yml"
                 views_folder = os.path.join(path, self._view_folder)
                 if not os.path.exists(views_folder):
-                    os.mkdir(views_folder)
+                    os.makedirs(views_folder)
                 file_path = os.path.join(views_folder, file_name)
             self.dump_yaml_file(self._sort_view(view), file_path)
 
-- 
2.43.0


From 63b8dfad8d41d6c1d39a345becc5ac8e22749df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:21 +0000
Subject: [PATCH 55/62] fix: a project's files are all those below its folders,
 and only those

---
 metrics_layer/core/parse/github_repo.py                  | 6 +++---
 metrics_layer/core/parse/project_reader_metrics_layer.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/metrics_layer/core/parse/github_repo.py b/metrics_layer/core/parse/github_repo.py
index adca19b..af31b3c 100644
--- a/metrics_layer/core/parse/github_repo.py
+++ b/metrics_layer/core/parse/github_repo.py
@@ -1,6 +1,6 @@
 import os
 import shutil
-from glob import glob
+from glob import escape, glob
 import pathlib
 import yaml
 
@@ -31,7 +31,7 @@ class BaseRepo:
             fn
             for f in folders
             for fn in self.glob_search(f, pattern, include_hidden=include_hidden)
-            if "venv" not in fn
+            if "venv" not in os.path.dirname(os.path.relpath(fn, start=f))
         ]
 
     def fetch(self):
@@ -60,7 +60,7 @@ class BaseRepo:
             for file_ref in pathlib.Path(folder).glob(f"**/{pattern}"):
                 files.append(str(file_ref))
             return files
-        return glob(f"{folder}**/{pattern}", recursive=True)
+        return glob(os.path.join(escape(folder), "**", pattern), recursive=True)
 
 
 class LocalRepo(BaseRepo):
diff --git a/metrics_layer/core/parse/project_reader_metrics_layer.py b/metrics_layer/core/parse/project_reader_metrics_layer.py
index b90f482..e32626b 100644
--- a/metrics_layer/core/parse/project_reader_metrics_layer.py
+++ b/metrics_layer/core/parse/project_reader_metrics_layer.py
@@ -55,4 +55,4 @@ class MetricsLayerProjectReader(ProjectReaderBase):
     def _abs_path(self, path: str):
         if not os.path.isabs(path):
             path = os.path.join(self.repo.folder, path)
-        return path
+        return os.path.normpath(path)
-- 
2.43.0


From 5dc05715e5b2641924eb22eb0af96e69f7cedde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:34 +0000
Subject: [PATCH 56/62] fix: access filters and views of a query are taken in
 the order of its fields, whatever the hash seed

---
 metrics_layer/core/sql/query_design.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metrics_layer/core/sql/query_design.py b/metrics_layer/core/sql/query_design.py
index 1119549..7888b5b 100644
--- a/metrics_layer/core/sql/query_design.py
+++ b/metrics_layer/core/sql/query_design.py
@@ -199,7 +199,7 @@ class MetricsLayerDesign:
 
     @staticmethod
     def _fields_to_unique_views(field_list: list):
-        return list(set([v for field in field_list for v in field.required_views()]))
+        return list(dict.fromkeys(v for field in field_list for v in field.required_views()))
 
     def deduplicate_fields(self, field_list: list):
         return self.project.deduplicate_fields(field_list)
-- 
2.43.0


From db2c8bfa000341e172eaf266a902d5242472e6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:34 +0000
Subject: [PATCH 57/62] fix: the fields a field refers to are listed in the
 order of its sql, whatever the hash seed

---
 metrics_layer/core/model/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metrics_layer/core/model/field.py b/metrics_layer/core/model/field.py
index 364396a..19bab56 100644
--- a/metrics_layer/core/model/field.py
+++ b/metrics_layer/core/model/field.py
@@ -832,7 +832,7 @@ class Field(MetricsLayerBase, SQLReplacement):
             # default count measure which references only the field's base view
             pass
 
-        return list(set([self.view.name] + views))
+        return list(dict.fromkeys([self.view.name] + views))
 
     def _get_required_views_from_sql(self, sql: str):
         views = []
@@ -2552,7 +2552,7 @@ class Field(MetricsLayerBase, SQLReplacement):
 
         if strings_only:
             valid_references = [f for f in referenced_fields if not isinstance(f, str)]
-            return list(set(f"{f.view.name}.{f.name}" for f in valid_references))
+            return list(dict.fromkeys(f"{f.view.name}.{f.name}" for f in valid_references))
         return referenced_fields
 
     @functools.lru_cache(maxsize=None)
-- 
2.43.0


From 343022e08e9d7c567a741dccf4ca24083d1c7c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:34 +0000
Subject: [PATCH 58/62] fix: fields of funnel steps are selected in the order
 of the steps, whatever the hash seed

---
 metrics_layer/core/sql/query_funnel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metrics_layer/core/sql/query_funnel.py b/metrics_layer/core/sql/query_funnel.py
index 0701e28..a3d2a26 100644
--- a/metrics_layer/core/sql/query_funnel.py
+++ b/metrics_layer/core/sql/query_funnel.py
@@ -155,7 +155,7 @@ class FunnelQuery(MetricsLayerQueryBase):
         fields = []
         for step in self.funnel["steps"]:
             fields.extend(self._get_fields_from_condition(step))
-        return list(set(fields))
+        return list(dict.fromkeys(fields))
 
     def _get_fields_from_condition(self, condition):
         return self.condition_field_names(condition)
-- 
2.43.0


From 3f11502a69516e70a8dd623b840515cce3e2fd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:34 +0000
Subject: [PATCH 59/62] fix: yaml files are read in sorted order, whatever the
 hash seed

---
 metrics_layer/core/parse/project_reader_metrics_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metrics_layer/core/parse/project_reader_metrics_layer.py b/metrics_layer/core/parse/project_reader_metrics_layer.py
index e32626b..5846734 100644
--- a/metrics_layer/core/parse/project_reader_metrics_layer.py
+++ b/metrics_layer/core/parse/project_reader_metrics_layer.py
@@ -37,7 +37,7 @@ class MetricsLayerProjectReader(ProjectReaderBase):
 
     def search_for_yaml_files(self, folders: list):
         file_names = self.repo.search("*.yml", folders) + self.repo.search("*.yaml", folders)
-        return list(set(file_names))
+        return sorted(set(file_names))
 
     def get_folders(self, key: str, default: str = None, raise_errors: bool = True):
         if not self.zenlytic_project:
-- 
2.43.0


From d0376afba76667a9df223e8f7f07b5f84a731015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:34 +0000
Subject: [PATCH 60/62] fix: a date mapping chooses the same date among equals,
 whatever the hash seed

---
 metrics_layer/core/sql/resolve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metrics_layer/core/sql/resolve.py b/metrics_layer/core/sql/resolve.py
index f3771a4..99f7300 100644
--- a/metrics_layer/core/sql/resolve.py
+++ b/metrics_layer/core/sql/resolve.py
@@ -198,7 +198,7 @@ class SQLQueryResolver(SingleSQLQueryResolver):
                                 ]
                                 views_by_n_measures[canon_date] = len(measures)
                             sorted_canon_dates = list(
-                                sorted(canon_dates, key=lambda x: views_by_n_measures[x], reverse=True)
+                                sorted(sorted(canon_dates), key=lambda x: views_by_n_measures[x], reverse=True)
                             )
                         else:
                             # Sort is not needed if there is only one canon_date
-- 
2.43.0


From f60b38c0d9cc978533a66f1ee9ec1fd3a08f72da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:34 +0000
Subject: [PATCH 61/62] fix: the duplicate field names of a view are reported
 in their order, whatever the hash seed

---
 metrics_layer/core/model/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metrics_layer/core/model/view.py b/metrics_layer/core/model/view.py
index dc15136..50f15de 100644
--- a/metrics_layer/core/model/view.py
+++ b/metrics_layer/core/model/view.py
@@ -617,7 +617,7 @@ class View(MetricsLayerBase, SQLReplacement):
                     self._definition.get("fields"),
                     (
                         f"Duplicate field names in view {self.name}:"
-                        f" {', '.join(set(f for f in field_names if field_names.count(f) > 1))}"
+                        f" {', '.join(dict.fromkeys(f for f in field_names if field_names.count(f) > 1))}"
                     ),
                 )
             )
-- 
2.43.0


From 02c4f268d72c958db87e020763fba122f5ae07ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:09 +0000
Subject: [PATCH 62/62] fix: spaces inside quoted values and names of a field's
 sql are kept

---
 metrics_layer/core/model/field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metrics_layer/core/model/field.py b/metrics_layer/core/model/field.py
index 19bab56..4073302 100644
--- a/metrics_layer/core/model/field.py
+++ b/metrics_layer/core/model/field.py
@@ -2607,7 +2607,8 @@ class Field(MetricsLayerBase, SQLReplacement):
         if sql_query is None or "{%" in sql_query or sql_query == "":
             return None
         clean_sql = self.replace_fields(sql_query, query_type, alias_only=alias_only)
-        clean_sql = re.sub(r"[ ]{2,}", " ", clean_sql)
+        # Spaces inside of quotes are part of the value (or name) and must stay
+        clean_sql = re.sub(r"""('[^']*'|"[^"]*")|[ ]{2,}""", lambda m: m.group(1) or " ", clean_sql)
         clean_sql = clean_sql.replace("'", "'")
         return clean_sql
 
-- 
2.43.0

