From e491356cf2b997c0648618ef9963c9ff4400cb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:29 +0000
Subject: [PATCH 01/16] fix: entropy filters stop when no class can be removed
 and respect the removal limit

With every remaining class untouchable (or, for the indirect filters, no
candidate or only NaN entropies) the filters failed with ValueError or looped
forever removing None; max_events_to_remove=0 removed classes anyway.
---
 .../legacy/filtering/event_log_filters.py     | 27 ++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/python/ficus/legacy/filtering/event_log_filters.py b/src/python/ficus/legacy/filtering/event_log_filters.py
index da52672..8faf0ab 100644
--- a/src/python/ficus/legacy/filtering/event_log_filters.py
+++ b/src/python/ficus/legacy/filtering/event_log_filters.py
@@ -39,7 +39,7 @@ def filter_events_default_entropy_indirect(log: MyEventLog,
                                            untouchable_event_func=default_untouchable_func) -> MyEventLog:
     removed_events_count = 0
     while True:
-        if len(log) == 0:
+        if len(log) == 0 or removed_events_count >= max_events_to_remove:
             return log
 
         if calculate_default_entropy_average(log, laplace) <= threshold:
@@ -47,17 +47,21 @@ def filter_events_default_entropy_indirect(log: MyEventLog,
 
         min_event_name, min_sum_entropy = next_removal_default_entropy_indirect(log, laplace, top_percent,
                                                                                 untouchable_event_func)
+        if min_event_name is None:
+            return log
+
         print(f'Removing {min_event_name} with entropy {min_sum_entropy}')
         log = remove_event_from_log(log, min_event_name)
 
         removed_events_count += 1
-        if removed_events_count >= max_events_to_remove:
-            return log
 
 
 def _determine_next_event_to_remove_direct(log: MyEventLog,
                                            metric_func: Callable[[MyEventLog], dict[str, float]]) -> (str, float):
     metrics_for_events = metric_func(log)
+    if len(metrics_for_events) == 0:
+        return None, 0
+
     event_name = max(metrics_for_events, key=metrics_for_events.get)
     return event_name, metrics_for_events[event_name]
 
@@ -68,17 +72,15 @@ def _do_filter_by_metric_direct(log: MyEventLog,
                                 max_events_to_delete: int = 1e9) -> MyEventLog:
     removed_events_count = 0
     while True:
-        if len(log) == 0:
+        if len(log) == 0 or removed_events_count >= max_events_to_delete:
             return log
 
         event_name, metric = _determine_next_event_to_remove_direct(log, metric_func)
 
-        if metric > threshold:
+        if event_name is not None and metric > threshold:
             print(f'Removing {event_name} with metric {metric}')
             log = remove_event_from_log(log, event_name)
             removed_events_count += 1
-            if removed_events_count == max_events_to_delete:
-                return log
         else:
             return log
 
@@ -98,6 +100,8 @@ def _do_filter_by_metric_direct_till_end(log: MyEventLog,
 
         metric_before_removal = sum(metric_func(log).values())
         event_name, metric = _determine_next_event_to_remove_direct(log, metric_func)
+        if event_name is None:
+            break
 
         if metric_kind == TillEndFilteringMetricKind.BeforeOnly:
             removals.append((event_name, metric_before_removal))
@@ -191,6 +195,9 @@ def filter_events_pos_entropy_indirect(log: MyEventLog,
                                        untouchable_event_func=default_untouchable_func) -> MyEventLog:
     removed_events_count = 0
     while True:
+        if len(log) == 0 or removed_events_count >= max_events_to_remove:
+            return log
+
         trace_counts = calculate_events_in_each_trace(log)
         info = create_log_information(log)
         positions = create_events_positions(log)
@@ -200,13 +207,13 @@ def filter_events_pos_entropy_indirect(log: MyEventLog,
 
         min_event_name, min_entropy = next_event_remove_pos_entropy_indirect(log, trace_counts, info, positions,
                                                                              untouchable_event_func)
+        if min_event_name is None:
+            return log
 
         print(f'Removing event {min_event_name} with resulting log entropy {min_entropy}')
         log = remove_event_from_log(log, min_event_name)
 
         removed_events_count += 1
-        if removed_events_count >= max_events_to_remove:
-            return log
 
 
 def filter_events_pos_entropy_indirect_till_end(log: MyEventLog,
@@ -223,6 +230,8 @@ def filter_events_pos_entropy_indirect_till_end(log: MyEventLog,
         pos_entropy_before_removal = calculate_position_entropies_fast_sum(log, positions=positions)
         min_event_name, min_entropy = next_event_remove_pos_entropy_indirect(log, trace_counts, info, positions,
                                                                              untouchable_event_func)
+        if min_event_name is None:
+            break
 
         print(f'Removing event {min_event_name} with resulting log entropy {min_entropy}')
         if metric_kind == TillEndFilteringMetricKind.BeforeOnly:
-- 
2.43.0


From ca71e5d1aea7437a2ad7b7190c4686c4314ec7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:09 +0000
Subject: [PATCH 02/16] fix: fast position entropy of an ignored class equals
 the reference one

For a class that is itself ignored the fast version counted its positions
anyway (or failed with IndexError) while the reference version does not.
---
 src/python/ficus/legacy/analysis/event_log_analysis_entropy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/ficus/legacy/analysis/event_log_analysis_entropy.py b/src/python/ficus/legacy/analysis/event_log_analysis_entropy.py
index aac94d6..b23708f 100644
--- a/src/python/ficus/legacy/analysis/event_log_analysis_entropy.py
+++ b/src/python/ficus/legacy/analysis/event_log_analysis_entropy.py
@@ -180,6 +180,9 @@ def calculate_position_entropy_fast(log: MyEventLog,
 
         non_empty_traces_count += 1
 
+        if events_to_ignore is not None and event_name in events_to_ignore.ignored_events:
+            continue
+
         positions_of_our_event = trace_positions.positions.get(event_name, None)
         if positions_of_our_event is None:
             continue
-- 
2.43.0


From 1c7f55fe425a8313ede0ceb8ca4daa42d62c0666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:17 +0000
Subject: [PATCH 03/16] fix: split traces into variants by event names, not by
 their hashes

Names whose polynomial hashes collide ('Bb' and 'aa') were put into one variant.
---
 src/python/ficus/legacy/analysis/event_log_split.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/event_log_split.py b/src/python/ficus/legacy/analysis/event_log_split.py
index 5c7244a..16e602c 100644
--- a/src/python/ficus/legacy/analysis/event_log_split.py
+++ b/src/python/ficus/legacy/analysis/event_log_split.py
@@ -33,15 +33,15 @@ def split_log_by_traces(log: MyEventLog) -> list[list[MyTrace]]:
                     continue
 
                 all_groups_has_one_trace = False
-                hashes2traces = dict()
+                names2traces = dict()
                 for trace in group:
-                    hash_code = calculate_string_poly_hash(trace[index][concept_name])
-                    if hash_code in hashes2traces:
-                        hashes2traces[hash_code].append(trace)
+                    event_name = trace[index][concept_name]
+                    if event_name in names2traces:
+                        names2traces[event_name].append(trace)
                     else:
-                        hashes2traces[hash_code] = [trace]
+                        names2traces[event_name] = [trace]
 
-                for _, new_group in hashes2traces.items():
+                for _, new_group in names2traces.items():
                     new_groups.append(new_group)
 
             if all_groups_has_one_trace:
-- 
2.43.0


From b6f668aeaf54c6933ce331e0b0cd4c32349e8f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:21 +0000
Subject: [PATCH 04/16] fix: read boolean XES values by their text

bool('False') is True, so every boolean attribute was read back as True.
---
 src/python/ficus/legacy/log/functions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/log/functions.py b/src/python/ficus/legacy/log/functions.py
index 9b7ba89..33863db 100644
--- a/src/python/ficus/legacy/log/functions.py
+++ b/src/python/ficus/legacy/log/functions.py
@@ -124,12 +124,16 @@ def _parse_datetime(value: str):
     return parser.parse(value)
 
 
+def _parse_bool(value: str):
+    return value.strip().lower() in ('true', '1')
+
+
 parse_functions = {
     const_tag_string: str,
     const_tag_date: _parse_datetime,
     const_tag_int: int,
     const_tag_float: float,
-    const_tag_bool: bool
+    const_tag_bool: _parse_bool
 }
 
 
-- 
2.43.0


From 5cdfaa15da5d5bae458e4163d495ab7f2fd6ba78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:25 +0000
Subject: [PATCH 05/16] fix: write log properties to XES as typed key/value
 tags

They were written as <string {key}={value}>, which the reader rejects with
KeyError, and non-string values failed while writing.
---
 src/python/ficus/legacy/log/functions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/python/ficus/legacy/log/functions.py b/src/python/ficus/legacy/log/functions.py
index 33863db..e804f5c 100644
--- a/src/python/ficus/legacy/log/functions.py
+++ b/src/python/ficus/legacy/log/functions.py
@@ -237,9 +237,10 @@ def serialize_log_to_xes(log: MyEventLog) -> str:
         log_element.append(classifier_element)
 
     for key, value in log.properties.items():
-        property_element = ET.Element(const_tag_string)
-        property_element.attrib[key] = value
-        log_element.append(property_element)
+        if not _should_serialize_payload_key_value(key, value):
+            continue
+
+        log_element.append(_create_value_tag(key, value))
 
     for scope_name, scope_default_values in log.global_values.items():
         global_scope_element = ET.Element(const_tag_global)
-- 
2.43.0


From 431506ce49b69d84292421813a2c1f6690b1fc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:54 +0000
Subject: [PATCH 06/16] fix: keep the types of XES global defaults

Defaults were read back as text whatever their tag, so attributes equal to a
non-text default came back with a different type and value; a default that XES
cannot carry made writing fail; a value equal to a default of another type
(True and 1) came back with the type of the default.
---
 src/python/ficus/legacy/log/functions.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/log/functions.py b/src/python/ficus/legacy/log/functions.py
index e804f5c..369e2f6 100644
--- a/src/python/ficus/legacy/log/functions.py
+++ b/src/python/ficus/legacy/log/functions.py
@@ -81,7 +81,8 @@ def read_log_from_xes(path: str) -> MyEventLog:
 
             for global_child in child:
                 attrs = global_child.attrib
-                log.global_values[scope][attrs[const_attr_key]] = attrs[const_attr_value]
+                value = _parse_value_tag(global_child) if _is_value_tag(global_child) else attrs[const_attr_value]
+                log.global_values[scope][attrs[const_attr_key]] = value
 
             continue
 
@@ -246,6 +247,9 @@ def serialize_log_to_xes(log: MyEventLog) -> str:
         global_scope_element = ET.Element(const_tag_global)
         global_scope_element.attrib[const_scope] = scope_name
         for name, value in scope_default_values.items():
+            if not _should_serialize_payload_key_value(name, value):
+                continue
+
             global_scope_element.append(_create_value_tag(name, value))
 
         log_element.append(global_scope_element)
@@ -294,7 +298,8 @@ def _check_if_default_value(log: MyEventLog,
     if key not in defaults[entity_name]:
         return False
 
-    return defaults[entity_name][key] == value
+    default_value = defaults[entity_name][key]
+    return type(default_value) is type(value) and default_value == value
 
 
 def save_event_log_to_xes(log: MyEventLog, save_path: str):
-- 
2.43.0


From 81c8fdb54307cba73663ba38429e8dfd5ba3a53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:58 +0000
Subject: [PATCH 07/16] fix: save a log to a path without a directory part

---
 src/python/ficus/legacy/log/functions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/log/functions.py b/src/python/ficus/legacy/log/functions.py
index 369e2f6..af1ee6d 100644
--- a/src/python/ficus/legacy/log/functions.py
+++ b/src/python/ficus/legacy/log/functions.py
@@ -304,7 +304,10 @@ def _check_if_default_value(log: MyEventLog,
 
 def save_event_log_to_xes(log: MyEventLog, save_path: str):
     log_xes_string = serialize_log_to_xes(log)
-    os.makedirs(os.path.dirname(save_path), exist_ok=True)
+    directory = os.path.dirname(save_path)
+    if directory != '':
+        os.makedirs(directory, exist_ok=True)
+
     with open(save_path, 'w') as fout:
         fout.write(log_xes_string)
 
-- 
2.43.0


From 8a913bc943b2d3d60f484dd7ea116b8de5af2288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:02 +0000
Subject: [PATCH 08/16] fix: copies of traces and logs keep trace attributes
 and global values

---
 src/python/ficus/legacy/log/event_log.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/python/ficus/legacy/log/event_log.py b/src/python/ficus/legacy/log/event_log.py
index 574d755..e7c1e9a 100644
--- a/src/python/ficus/legacy/log/event_log.py
+++ b/src/python/ficus/legacy/log/event_log.py
@@ -79,10 +79,10 @@ class MyTrace(MyEventsSequence):
         self.attributes = attributes if attributes is not None else {}
 
     def __copy__(self):
-        return MyTrace(copy.copy(self.raw_events))
+        return MyTrace(copy.copy(self.raw_events), dict(self.attributes))
 
     def __deepcopy__(self, memodict={}):
-        return MyTrace(copy.deepcopy(self.raw_events))
+        return MyTrace(copy.deepcopy(self.raw_events), deep_copy_dict(self.attributes))
 
 
 class MyEventLog(Sequence):
@@ -131,11 +131,13 @@ class MyEventLog(Sequence):
                           attributes=dict(self.attributes),
                           extensions=dict(self.extensions),
                           classifiers=dict(self.classifiers),
-                          properties=dict(self.properties))
+                          properties=dict(self.properties),
+                          global_values=dict(self.global_values))
 
     def __deepcopy__(self, memodict={}):
         return MyEventLog(traces=[copy.deepcopy(trace) for trace in self.traces],
                           attributes=deep_copy_dict(self.attributes),
                           extensions=deep_copy_dict(self.extensions),
                           classifiers=deep_copy_dict(self.classifiers),
-                          properties=deep_copy_dict(self.properties))
+                          properties=deep_copy_dict(self.properties),
+                          global_values=deep_copy_dict(self.global_values))
-- 
2.43.0


From 33469afad62ec9b3d627410d8974c689b05ee59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:08 +0000
Subject: [PATCH 09/16] fix: tell blocks and event sets of patterns apart by
 content, not by hash

The polynomial hashes of ['B', 'b'] and ['a', 'a'] (or of the sets {B, z} and
{a, y}) are equal, so a tandem array or a repeat set could be dropped because an
unrelated one had been seen before.
---
 .../analysis/patterns/event_log_patterns.py   | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py b/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py
index a0cb6e3..41badc2 100644
--- a/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py
+++ b/src/python/ficus/legacy/analysis/patterns/event_log_patterns.py
@@ -12,7 +12,7 @@ from ..common.common_models import SubArrayInEventLog
 from ...analysis.event_log_info import create_log_information
 from ...analysis.type_aliases import *
 from ...log.event_log import *
-from ...util import concept_name, calculate_poly_hash_for_collection
+from ...util import concept_name
 
 
 def find_maximal_tandem_arrays(log: MyEventLog,
@@ -30,11 +30,11 @@ def _find_maximal_tandem_arrays(traces: list[list[int]],
         tandem_arrays = []
         for length in range(2, max_tandem_array_length):
             for i in range(0, len(trace) - length):
-                sub_array_hash = calculate_poly_hash_for_collection(trace, i, i + length)
-                if sub_array_hash in visited:
+                sub_array = tuple(trace[i:(i + length)])
+                if sub_array in visited:
                     continue
 
-                visited.add(sub_array_hash)
+                visited.add(sub_array)
                 candidate_tandem_array = _try_extract_tandem_array(trace, i, length)
                 if candidate_tandem_array is not None:
                     tandem_arrays.append(candidate_tandem_array)
@@ -150,13 +150,12 @@ def _do_create_repeat_sets(hashes_traces: list[list[int]],
         for sub_array in trace_sub_arrays:
             start = sub_array.first_pos
             end = sub_array.first_pos + sub_array.length
-            sub_array_from_log = list(sorted(set(trace[start:end])))
-            sub_array_hash = calculate_poly_hash_for_collection(sub_array_from_log)
+            events_set = frozenset(trace[start:end])
 
-            if sub_array_hash not in repeat_sets:
-                repeat_sets[sub_array_hash] = SubArrayWithTraceIndex(first_pos=start,
-                                                                     length=sub_array.length,
-                                                                     trace_index=index)
+            if events_set not in repeat_sets:
+                repeat_sets[events_set] = SubArrayWithTraceIndex(first_pos=start,
+                                                                 length=sub_array.length,
+                                                                 trace_index=index)
         index += 1
 
     return list(repeat_sets.values())
-- 
2.43.0


From 40c7b3b6754f7d3c7d12a6e39920eae54fb397e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:12 +0000
Subject: [PATCH 10/16] fix: do not extend the activities list shared with
 other contexts

Inside ParallelPipeline or WithInputCopy the list belongs to the original
context too, so the added activities leaked out of the isolated pipeline.
---
 src/python/ficus/legacy/pipelines/analysis/high_level.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/pipelines/analysis/high_level.py b/src/python/ficus/legacy/pipelines/analysis/high_level.py
index 8f51896..e44672e 100644
--- a/src/python/ficus/legacy/pipelines/analysis/high_level.py
+++ b/src/python/ficus/legacy/pipelines/analysis/high_level.py
@@ -128,8 +128,7 @@ class AdjustWithActivitiesFromUnattachedEvents(InternalPipelinePart):
 
         def output_merger(initial_input: PipelinePartResult, temp_output: PipelinePartResult) -> PipelinePartResult:
             old_activities = activities(initial_input) if initial_input.has_value(activities_key) else []
-            old_activities.extend(activities(temp_output))
-            return initial_input.with_activities(old_activities)
+            return initial_input.with_activities(old_activities + activities(temp_output))
 
         if not current_input.has_value(traces_activities_key):
             current_input = current_input.with_trace_activities([[] for _ in log(current_input)])
-- 
2.43.0


From c279440a73197bfb33cfd88d21be55b12b1c679d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:15 +0000
Subject: [PATCH 11/16] fix: pass should_narrow_activity on when discovering
 activities instances

---
 src/python/ficus/legacy/pipelines/analysis/high_level.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/ficus/legacy/pipelines/analysis/high_level.py b/src/python/ficus/legacy/pipelines/analysis/high_level.py
index e44672e..bc721dc 100644
--- a/src/python/ficus/legacy/pipelines/analysis/high_level.py
+++ b/src/python/ficus/legacy/pipelines/analysis/high_level.py
@@ -56,7 +56,8 @@ class DiscoverActivitiesFromTandemArrays(DiscoverActivitiesBase):
             ),
             PrintActivities(self.debug_prints),
             DiscoverActivitiesInTraces(self.class_extractor,
-                                       activity_in_trace_filter=self.activity_in_trace_filter),
+                                       activity_in_trace_filter=self.activity_in_trace_filter,
+                                       should_narrow_activity=self.should_narrow_activity),
         )(current_input)
 
 
@@ -91,7 +92,8 @@ class DiscoverActivitiesInstancesFromRepeats(DiscoverActivitiesBase):
             ),
             PrintActivities(self.debug_prints),
             DiscoverActivitiesInTraces(self.class_extractor,
-                                       activity_in_trace_filter=self.activity_in_trace_filter),
+                                       activity_in_trace_filter=self.activity_in_trace_filter,
+                                       should_narrow_activity=self.should_narrow_activity),
         )(current_input)
 
 
-- 
2.43.0


From a8fdacf27b76e18dff12b048154df50bea3bc56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:20 +0000
Subject: [PATCH 12/16] fix: AddAllPatterns uses the given class extractor

---
 .../ficus/legacy/pipelines/analysis/patterns/patterns_parts.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py b/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py
index 9930dd9..7f28787 100644
--- a/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py
+++ b/src/python/ficus/legacy/pipelines/analysis/patterns/patterns_parts.py
@@ -41,7 +41,7 @@ class AddAllPatterns(InternalPipelinePart):
         self.class_extractor = class_extractor
 
     def execute(self, current_input: PipelinePartResult) -> PipelinePartResult:
-        hashed_log = _do_create_hashes_traces(log(current_input))
+        hashed_log = _do_create_hashes_traces(log(current_input), self.class_extractor)
         all_patterns = add_all_patterns(hashed_log, patterns(current_input))
 
         return current_input.with_patterns(all_patterns)
-- 
2.43.0


From a6a7da9b4a05682a7fdb5ad40b8a2f529a369481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:04 +0000
Subject: [PATCH 13/16] fix: PrintEventlogInfoBeforeAfter sends its pipeline
 and receives its results

---
 src/python/ficus/grpc_pipelines/util_parts.py | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/python/ficus/grpc_pipelines/util_parts.py b/src/python/ficus/grpc_pipelines/util_parts.py
index f90addb..d2e3593 100644
--- a/src/python/ficus/grpc_pipelines/util_parts.py
+++ b/src/python/ficus/grpc_pipelines/util_parts.py
@@ -1,5 +1,5 @@
 from .constants import const_use_names_event_log, const_names_event_log, const_get_names_event_log, \
-    const_pipeline
+    const_pipeline, const_execute_frontend_part
 from .grpc_pipelines import PipelinePart2, _create_default_pipeline_part, PipelinePart2WithCallback, \
     _create_complex_get_context_part, Pipeline2, append_pipeline_value, PrintEventLogInfo2
 from .models.pipelines_and_context_pb2 import GrpcPipelinePartBase, GrpcPipelinePartConfiguration, \
@@ -26,19 +26,27 @@ class PrintEventlogInfoBeforeAfter(PipelinePart2):
     def __init__(self, inner_pipeline: Pipeline2):
         super().__init__()
         self.inner_pipeline = inner_pipeline
+        self.before_part = PrintEventLogInfo2()
+        self.after_part = PrintEventLogInfo2()
 
     def to_grpc_part(self) -> GrpcPipelinePartBase:
         config = GrpcPipelinePartConfiguration()
 
+        append_pipeline_value(config, const_pipeline, self._create_pipeline())
+
+        return GrpcPipelinePartBase(defaultPart=_create_default_pipeline_part(const_execute_frontend_part, config))
+
+    def append_parts_with_callbacks(self, parts: list['PipelinePart2WithCallback']):
+        super().append_parts_with_callbacks(parts)
+        self._create_pipeline().append_parts_with_callbacks(parts)
+
+    def _create_pipeline(self) -> Pipeline2:
         pipeline = Pipeline2(
-            PrintEventLogInfo2(),
+            self.before_part,
         )
 
         for part in self.inner_pipeline.parts:
             pipeline.parts.append(part)
 
-        pipeline.parts.append(PrintEventLogInfo2())
-
-        append_pipeline_value(config, const_pipeline, pipeline)
-
-        return GrpcPipelinePartBase(defaultPart=_create_default_pipeline_part())
+        pipeline.parts.append(self.after_part)
+        return pipeline
-- 
2.43.0


From bcc72c708549dd036eaf32985fe93a128de76ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:04 +0000
Subject: [PATCH 14/16] fix: DiscoverActivitiesUntilNoMore2 sends the
 configured array length

---
 src/python/ficus/grpc_pipelines/activities_parts.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/ficus/grpc_pipelines/activities_parts.py b/src/python/ficus/grpc_pipelines/activities_parts.py
index bfcde4f..f2079ed 100644
--- a/src/python/ficus/grpc_pipelines/activities_parts.py
+++ b/src/python/ficus/grpc_pipelines/activities_parts.py
@@ -180,6 +180,7 @@ class DiscoverActivitiesUntilNoMore2(PipelinePart2):
         append_undef_activity_handling_strat(config, const_undef_activity_handling_strategy, self.undef_strategy)
         append_activity_filter_kind(config, const_activity_filter_kind, self.activity_filter_kind)
         append_bool_value(config, const_execute_only_on_last_extraction, self.execute_only_on_last_extraction)
+        append_uint32_value(config, const_tandem_array_length, self.max_array_length)
 
         if self.event_class is not None:
             append_string_value(config, const_event_class_regex, self.event_class)
-- 
2.43.0


From 5362da9cba1c8114c340dfcd87005ec39b1a2003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:04 +0000
Subject: [PATCH 15/16] fix: executing a remote pipeline leaves the given
 context alone

---
 src/python/ficus/grpc_pipelines/grpc_pipelines.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/ficus/grpc_pipelines/grpc_pipelines.py b/src/python/ficus/grpc_pipelines/grpc_pipelines.py
index 1b267ca..1567912 100644
--- a/src/python/ficus/grpc_pipelines/grpc_pipelines.py
+++ b/src/python/ficus/grpc_pipelines/grpc_pipelines.py
@@ -30,6 +30,7 @@ class Pipeline2:
 
         addr = initial_context[ficus_backend_addr_key] if ficus_backend_addr_key in initial_context else 'localhost:8080'
         if ficus_backend_addr_key in initial_context:
+            initial_context = dict(initial_context)
             del initial_context[ficus_backend_addr_key]
 
         with grpc.insecure_channel(addr, options=options) as channel:
-- 
2.43.0


From f6e52373c2d1dd85e7a49e6d4b07e5a41855216f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:04 +0000
Subject: [PATCH 16/16] fix: the wire form of an event log info is a context
 value

---
 src/python/ficus/grpc_pipelines/context_values.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python/ficus/grpc_pipelines/context_values.py b/src/python/ficus/grpc_pipelines/context_values.py
index 7961876..f9dbca8 100644
--- a/src/python/ficus/grpc_pipelines/context_values.py
+++ b/src/python/ficus/grpc_pipelines/context_values.py
@@ -120,9 +120,9 @@ class EventLogInfo(ContextValue):
     traces_count: int
 
     def to_grpc_context_value(self) -> GrpcContextValue:
-        return GrpcEventLogInfo(events_count=self.events_count,
-                                traces_count=self.traces_count,
-                                event_classes_count=self.event_classes_count)
+        return GrpcContextValue(event_log_info=GrpcEventLogInfo(events_count=self.events_count,
+                                                                traces_count=self.traces_count,
+                                                                event_classes_count=self.event_classes_count))
 
 
 def from_grpc_colors_log(grpc_colors_log: GrpcColorsEventLog) -> list[list[ColoredRectangle]]:
-- 
2.43.0

