#!/usr/bin/env python3
"""Single source of properties.jsonl (run once by hand; the output is committed)."""
import json
L='src/python/ficus/legacy/'
G='src/python/ficus/grpc_pipelines/'
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

prop('C01','Filtering and in-place edits of a log change exactly what was asked',
 'For every log and every selection rule (by name, set of names, predicate, trace length), filtering returns exactly the selected events of each trace in their original order as the same event objects, drops exactly the traces left with no event (or, for trace filters, exactly the rejected traces) and never modifies the log it was given. In-place edits (rename events, map events to classes, drop the lifecycle attribute, add artificial start/end events) change exactly the addressed attribute or positions of exactly the addressed events and nothing else. Replacing aggregated events by their underlying events yields the underlying leaf events in order.',
 ['inputs'],'every log (any number and length of traces, empty ones included, repeated names, any payload), every predicate / name set / length limit',
 'Tests filter a few hand-written logs by one name; order, identity, emptiness handling and the no-modification frame for all logs and predicates are not sampled.',
 [L+'mutations/event_log_mutations.py',L+'pipelines/mutations/mutations_parts.py',L+'pipelines/filtering/filter_parts.py',L+'analysis/patterns/util.py'],
 [('_filter_events / _filter_traces build a new log with the accepted items',L+'mutations/event_log_mutations.py'),('preprocess_*/remove_lifecycle_attribute/ApplyClassExtractor/AddArtificialStartEndEvents write in place',L+'pipelines/mutations/mutations_parts.py')],
 ['returned log','payloads of the input events','input log after the call'])
prop('C02','Log statistics and directly-follows counts are exact',
 'For every log, the reported count of each event class, of events per trace and of events overall equals the number of occurrences in the log, and the directly-follows count of each ordered pair equals the number of adjacent occurrences in the log after deleting the ignored classes (plus one artificial start pair and one artificial end pair per non-empty remaining trace when requested). The derived follower map, the set of events with a single follower, the per-trace counts and the set of classes on which a predicate always holds are exactly those determined by the same occurrences. The log is not modified.',
 ['inputs','configurations'],'every log, every set of ignored classes, with and without artificial start/end',
 'Tests check a couple of small logs; the counts must be right for every interleaving of ignored classes, empty traces and repetitions.',
 [L+'analysis/event_log_info.py',L+'util.py'],
 [('create_log_information single pass with previous non-ignored event',L+'analysis/event_log_info.py'),('DirectlyFollowsGraph constructor',L+'analysis/event_log_info.py')],
 ['LogInformation','DirectlyFollowsGraph','TraceCounts list'])
prop('C03','Position and directly-follows entropies follow their definition',
 'For every log, event class and set of ignored classes, the fast position entropy equals the reference one: the entropy of the histogram of positions the class takes in the log from which the ignored classes are deleted, over the non-empty remaining traces, and precomputed positions are exactly the ascending indices of each class in each trace. The default and the Laplace-smoothed directly-follows entropies of a class are the entropy of its follower frequencies plus the entropy of its predecessor frequencies over all classes plus the artificial end/start. Sums and averages over classes aggregate exactly these values.',
 ['inputs','configurations'],'every log, class, ignored set and cached position table built from that log',
 'Tests compare fast and reference entropies on a few logs; the position shift caused by ignored events must be right for every placement of ignored events.',
 [L+'analysis/event_log_analysis_entropy.py',L+'analysis/event_log_info.py'],
 [('create_events_positions / calculate_position_entropy_fast merge of sorted positions',L+'analysis/event_log_analysis_entropy.py'),('_calculate_entropies',L+'analysis/event_log_analysis_entropy.py')],
 ['entropy dictionaries','PositionEntropyEventsPositions'])
prop('C04','Entropy-based filtering removes whole classes within its limits',
 'For every log, the entropy-based filters (direct and indirect, position and directly-follows) return the events of the input log, trace by trace, with some event classes removed completely (traces left without events dropped) and nothing else changed, never remove a class declared untouchable, remove at most the requested number of classes, and each removal is of the class the metric designates (largest own metric, or smallest remaining entropy) while the metric exceeds the threshold. The input log is never modified and the filters terminate. When every remaining class is untouchable or no class qualifies they return instead of failing or looping.',
 ['inputs','configurations','histories'],'every log, threshold, limit and untouchable rule; every sequence of removals',
 'Tests run each filter on one log; the limits, the untouchable rule and termination are statements about every sequence of removals.',
 [L+'filtering/event_log_filters.py',L+'mutations/event_log_mutations.py',L+'pipelines/filtering/filter_parts.py'],
 [('_do_filter_by_metric_direct and the indirect removal loops',L+'filtering/event_log_filters.py')],
 ['returned log','input log','removal list'])
prop('C05','Splitting by variants partitions the log; merging keeps every event',
 'For every log, splitting by variants puts every trace into exactly one group as the same object, two traces share a group exactly when their sequences of event names are equal, and filtering by variants keeps exactly the first trace of each variant. Merging all traces into one yields a single trace with a copy of every event in order, each original trace followed by exactly one separator whose name occurs nowhere else. The original log is not modified.',
 ['inputs'],'every log (duplicates, empty traces, common prefixes, equal lengths)',
 'Tests split a handful of logs; grouping refines position by position and must be right for every set of traces.',
 [L+'analysis/event_log_split.py',L+'pipelines/filtering/filter_parts.py'],
 [('length buckets refined index by index',L+'analysis/event_log_split.py'),('merge_all_traces_in_one_log',L+'analysis/event_log_split.py')],
 ['list of groups','merged log'])
prop('C06','Logs survive serialization: XES and plain text round trips',
 'For every log, writing it to XES and reading it back yields the same traces, events and attributes in the same order with the same values and types for text, integer, real, boolean and timestamp values, and the same extensions, classifiers, log attributes, log-level values and global defaults; attributes equal to a global default come back through that default. Values that XES cannot carry are left out without disturbing the others. Writing a log of non-empty traces as separated names (names free of the separator and line breaks) and parsing each line back yields the same names.',
 ['inputs'],'every log with XML-representable text, every value type, every global-default table whose attributes the events carry; classifier keys non-empty and without blanks',
 'Tests serialize string-valued logs only; every combination of value types and defaults is out of their reach.',
 [L+'log/functions.py',L+'log/event_log.py'],
 [('_create_value_tag / _parse_value_tag type tables',L+'log/functions.py'),('serialize_log_to_xes / read_log_from_xes',L+'log/functions.py'),('parse_trace_from_string / serialize_log',L+'log/functions.py')],
 ['log read back','serialized text'])
prop('C07','Copies are faithful and independent; equality agrees with content',
 'For every event, trace and log, a copy and a deep copy carry the same events, payloads, attributes and metadata in the same order; changing the structure of a copy never changes the original, and after a deep copy changing any event or payload does not either. Conversions to and from the pm4py representation keep every event payload in order and share nothing with the source. Objects with equal content compare equal and hash equal regardless of the order in which attributes were inserted, and the polynomial hashes are the stated polynomial of the content.',
 ['inputs','histories'],'every log and every later mutation of the copy or of the original',
 'Tests compare one copy right after making it; independence is about every later mutation and faithfulness about every field.',
 [L+'log/event_log.py',L+'util.py',L+'log/pm4py_converters.py'],
 [('__copy__/__deepcopy__ of event, trace and log',L+'log/event_log.py'),('calculate_*_hash',L+'util.py'),('deep_copy_dict',L+'util.py'),('from_pm4py_log / to_pm4py_log',L+'log/pm4py_converters.py')],
 ['copied objects','original after mutation','hash values'])
prop('C08','Pipelines run their parts in order and isolate what they promise to',
 'For every list of parts, a pipeline runs each non-null part exactly once in the given order feeding each the previous result, rejects anything that is not a part, and returns the last result (the input when empty). Parallel, copy, conditional and temporary-input combinators run their inner pipelines on the promised (copied, transformed or untouched) input and return the promised result, so changes made by an isolated inner pipeline to the context never leak out. The context store returns for each kind of value exactly what was last stored under that kind, keeps the other kinds untouched, and raises an error for a value never stored.',
 ['programs','histories'],'every sequence of parts and every history of stores, removals, copies and reads on the context',
 'Tests run fixed pipelines; ordering, isolation and store/read agreement must hold for all part lists and store histories.',
 [L+'pipelines/pipelines.py',L+'pipelines/contexts/part_results.py',L+'pipelines/contexts/accessors.py',L+'pipelines/contexts/keys.py',L+'pipelines/start/start_parts.py'],
 [('Pipeline.execute fold',L+'pipelines/pipelines.py'),('PipelinePartResult values dictionary and its copy',L+'pipelines/contexts/part_results.py')],
 ['sequence of part executions','returned context','caller context'])
prop('C09','Reported tandem arrays are real, maximal and complete up to content',
 'For every trace and length limit, each reported tandem array is a block of the reported length starting at the reported position that really repeats back to back the reported number of times (at least two), all inside the trace, and the block does not repeat once more right after. Every block content of length at least two below the limit whose first occurrence repeats is reported exactly once, at that first occurrence, per trace. Primitive tandem arrays are exactly the maximal ones whose start position does not also start a tandem array of a length from two up to half (rounded up) of their block length.',
 ['inputs','configurations'],'every log, class extractor and length limit',
 'Tests list the arrays of about a dozen short strings; indices and repeat counts must be right for every trace.',
 [L+'analysis/patterns/event_log_patterns.py',L+'analysis/patterns/util.py'],
 [('_try_extract_tandem_array',L+'analysis/patterns/event_log_patterns.py'),('_find_maximal_tandem_arrays visited set',L+'analysis/patterns/event_log_patterns.py'),('find_primitive_tandem_arrays',L+'analysis/patterns/event_log_patterns.py')],
 ['lists of tandem arrays per trace'])
prop('C10','Reported repeats are exactly the repeats of their kind',
 'For every log, the maximal repeats reported for a trace are sub-sequences that occur at least twice in that trace and cannot be extended without losing an occurrence context, each content reported once at a real position; the super-maximal ones are those contained in no other maximal repeat and the near-super-maximal ones those with an occurrence not enclosed in an occurrence of a longer kept repeat. The repeat sets built from any sub-arrays contain, for each distinct set of event classes covered by a sub-array, exactly one entry: the first such sub-array in order, with its trace. Results use the given class extractor and do not modify the log.',
 ['inputs'],'every log and class extractor, every list of sub-arrays inside the traces',
 'Tests list repeats of a few strings; the definitions quantify over all occurrences in all traces.',
 [L+'analysis/patterns/event_log_patterns.py',L+'analysis/patterns/util.py'],
 [('_do_find_maximal_repeats over the suffix tree',L+'analysis/patterns/event_log_patterns.py'),('_do_find_super_maximal_repeats, _do_find_near_super_maximal_repeats',L+'analysis/patterns/event_log_patterns.py'),('_do_create_repeat_sets',L+'analysis/patterns/event_log_patterns.py')],
 ['lists of repeats per trace','list of repeat sets'])
prop('C11','The activity forest holds every repeat set once under a superset',
 'For every log and list of repeat sets with pairwise different event sets, the built forest contains exactly one node per repeat set carrying that repeat set, its set of event classes, the name made by the name creator and the level; each child has a strictly smaller event set contained in its parent\'s, and a node is a root only if no node considered before it contains its set. Class trees contain every event name of the log once as a leaf, and each inner node groups exactly the nodes mapped to its name by the extractor of its layer. Splitting activities by level keeps every activity once, under its own level, in order.',
 ['inputs'],'every log, list of repeat sets, class extractor chain and list of activities',
 'Tests build trees for a few fixed repeat sets and compare text dumps.',
 [L+'analysis/patterns/event_log_patterns.py',L+'analysis/patterns/patterns_models.py',L+'analysis/patterns/util.py'],
 [('_do_build_repeat_set_tree',L+'analysis/patterns/event_log_patterns.py'),('build_class_tree',L+'analysis/patterns/event_log_patterns.py'),('split_activities_by_levels_dict',L+'analysis/patterns/util.py')],
 ['forest of activity nodes','class tree','level dictionary'])
prop('C12','Activity instances are disjoint, ordered and made of their own events',
 'For every log and activity forest, the instances found in a trace are non-empty intervals inside the trace, strictly ordered and non-overlapping, and every event covered by an instance belongs to the event set of the instance\'s activity. Only instances accepted by the filter are reported, and with a filter that accepts everything each uncovered event belongs to no root activity. Narrowing returns the activity itself or a descendant whose set still contains all events seen, the smallest such reachable one.',
 ['inputs','configurations'],'every log, forest, filter, class extractor, with and without narrowing',
 'Tests compare instances on fixed strings; the scan has index rollback and set growth whose invariants must hold for every trace.',
 [L+'analysis/patterns/event_log_patterns.py',L+'analysis/patterns/util.py'],
 [('_do_extract_activities_from_log scan',L+'analysis/patterns/event_log_patterns.py'),('narrow_activity',L+'analysis/patterns/event_log_patterns.py'),('_split_activity_nodes_by_size',L+'analysis/patterns/util.py')],
 ['lists of activity instances per trace'])
prop('C13','Abstracting a log by activities loses and invents no event',
 'For every log with ordered disjoint instances, activities and gaps are visited left to right and tile each trace exactly once; the abstracted log has one event per instance carrying copies of exactly the covered events and the activities, the gaps handled as the strategy says, and substituting the underlying events back (gaps inserted) restores the original names in order. The unattached-events log holds exactly the uncovered events in order, and adding activities in the gaps keeps every existing instance, adds only instances inside gaps of at least the requested size, and returns them ordered and disjoint. Counting and visiting underlying events covers each leaf exactly once.',
 ['inputs','configurations'],'every log, list of ordered disjoint instances, undefined-activity strategy, nesting of aggregated events',
 'Tests check fixed logs; tiling must hold for adjacent, leading, trailing, nested and empty cases alike.',
 [L+'analysis/patterns/event_log_patterns.py',L+'analysis/patterns/util.py',L+'pipelines/mutations/mutations_parts.py'],
 [('_process_trace_activities',L+'analysis/patterns/event_log_patterns.py'),('create_new_log_from_activities',L+'analysis/patterns/event_log_patterns.py'),('create_unattached_events_log, add_unattached_activities',L+'analysis/patterns/event_log_patterns.py'),('substitute_original_events, count_underlying_events',L+'analysis/patterns/util.py')],
 ['abstracted log','unattached log','instances lists','leaf counts'])
prop('C14','Per-activity logs contain exactly the instances of that activity',
 'For every log with ordered instances and every level, the log created for an activity name has one trace per instance of an activity of that name and of the requested level, in log order, whose events are copies of the covered events renamed by the class extractor; the original log is not modified and no other names appear. With promotion, instances of lower levels are included exactly when, mapped up to the requested level, their event classes equal those of the activity\'s repeat set, and instances of higher levels never are. Selecting instances or activities of a level keeps exactly those of that level in order.',
 ['inputs','configurations'],'every log, instances, level, class extractors, adjusting option',
 'Tests cover two fixed logs; grouping by name and level filtering must hold for every instance list.',
 [L+'analysis/patterns/event_log_patterns.py',L+'analysis/patterns/util.py'],
 [('_create_logs_for_activities',L+'analysis/patterns/event_log_patterns.py'),('create_logs_for_activities_with_promote',L+'analysis/patterns/event_log_patterns.py'),('select_traces_activities_for_activity_level',L+'analysis/patterns/util.py')],
 ['dictionary of logs'])
prop('C15','Values cross the gRPC boundary unchanged',
 'For every supported value (text, real, unsigned integer, boolean, enum, list of texts, name logs, hash logs, pipelines), its wire form carries exactly that value under the field of its type and nothing else. Decoding a wire message (name log, colour log, log info, Petri net, markings, annotations, datasets, graphs) yields an object with exactly the same elements, identifiers, order, numbers and labels. Decoding what was encoded gives back the original.',
 ['inputs'],'every value of the wire types, including empty collections and zero/false values',
 'The existing tests never exercise the conversions without a running backend.',
 [G+'context_values.py',G+'data_models.py',L+'discovery/petri_net.py',L+'discovery/graph.py'],
 [('*ContextValue.to_grpc_context_value',G+'context_values.py'),('from_grpc_*',G+'context_values.py')],
 ['wire messages','decoded objects'])
prop('C16','Remote pipelines ask for what was configured and dispatch every result',
 'For every remote pipeline, the request contains one wire part per part in order with the part\'s name, exactly its configured parameters under their documented keys and, for parts that fetch results, the keys they read and the part\'s own identifier; nested pipelines are encoded the same way and anything that is not a part is rejected. For every stream of results, each result addressed to a part with a callback (nested ones included) triggers exactly that part\'s callback once with exactly the delivered values, other results trigger none, nothing after the final result is processed, and a successful execution is dropped on the backend by its identifier. The final result is returned and the initial context given is not modified.',
 ['programs','histories','configurations'],'every list and nesting of parts and every stream of backend responses',
 'The tests that would exercise this need a backend that is not available; streams and nestings are unbounded.',
 [G+'grpc_pipelines.py',G+'activities_parts.py',G+'patterns_parts.py',G+'filtering_parts.py',G+'discovery_parts.py',G+'drawing_parts.py',G+'util_parts.py',G+'xes_parts.py',G+'mutation_parts.py',G+'constants.py'],
 [('Pipeline2.execute dispatch by uuid',G+'grpc_pipelines.py'),('to_grpc_part of every part',G+'activities_parts.py')],
 ['request message','callbacks invoked','DropExecutionResult calls','returned result'])
with open('properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
