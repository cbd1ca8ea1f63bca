from contracts.common import *
from contracts.C15 import messages, message, exactly, image, prefix, const

P = 'C16'
G = 'ficus.grpc_pipelines.'
GP = G + 'grpc_pipelines:'
DM = G + 'data_models:'
ACT, PAT, FIL, DIS, DRA, UTL, XES, MUTP = (G + m + '_parts:' for m in ('activities', 'patterns', 'filtering', 'discovery', 'drawing', 'util', 'xes', 'mutation'))
UID = TRef('UUID')


def world(v):
    """identifiers: uuid4 gives a new one each time; str is injective with inverse UUID"""
    v.types.ref['UUID'] = {}
    v.eng.assumed.add('uuid.uuid4 never repeats; uuid.UUID(str(u)) == u')
    US, SS = S(v, UID), S(v, STR)
    v.text = z3.Function('str_of_' + v.types.name(UID), US, SS)
    v.parse = z3.Function('uuid_parse', SS, US)
    v.eng.ext['uuid.uuid4'] = lambda eng, st, a, kw: [(st, Z(eng.new_ref(st, 'UUID'), UID))]

    def parse(eng, st, a, kw):
        t = eng.lower(st, a[0], STR)
        return [(st, Z(v.parse(t), UID))]
    v.eng.ext['uuid.UUID'] = parse
    LEMMAS.append(lambda app: [v.parse(app) == app.arg(0)] if app.decl().eq(v.text) else None)
    for m in ('pipelines_and_context_pb2', 'pm_models_pb2', 'util_pb2', 'backend_service_pb2'):
        v.eng.repo.module(G + 'models.' + m)


def lit_is(v, s, x, text, what):
    v.prove(s, z3.BoolVal(x is not None) if x is None else v.eng.lower(s, x, STR) == v.eng.lit(text).t, what)


def elems(v, s, l):
    if l is None:
        return []
    c = s.store[l.place.oid] if isinstance(l, VPl) and isinstance(l.place, Root) else None
    if c is None or c[0] != 'LC':
        raise Unsupported('repeated field of unknown length')
    return list(c[1])


def value_is(v, s, m, spec, what):
    kind, x = spec
    if kind == 'enum':
        exactly(v, s, m, 'GrpcContextValue', enum=lambda e: exactly(v, s, e, 'GrpcEnum', enumType=v.eng.lit(x[0]), value=x[1]))
    elif kind == 'strings':
        exactly(v, s, m, 'GrpcContextValue', strings=lambda e: exactly(v, s, e, 'GrpcStrings', strings=lambda q: v.prove(s, v.eng.lower(s, q, TList(STR)) == x, '%s: the texts in order' % what)))
    elif kind == 'pipeline' and callable(x):
        exactly(v, s, m, 'GrpcContextValue', pipeline=lambda p: x(s, p))
    elif kind == 'pipeline':
        exactly(v, s, m, 'GrpcContextValue', pipeline=lambda p: same_val(v, s, p, x, '%s: the wire form of the inner pipeline' % what))
    else:
        exactly(v, s, m, 'GrpcContextValue', **{kind: x})


def config_is(v, s, cfg, want, what):
    """the configuration has exactly these parameters, each once"""
    ps = elems(v, s, message(v, s, cfg, 'GrpcPipelinePartConfiguration').get('configurationParameters')) if cfg is not None else []
    got = {}
    for kv in ps:
        f = message(v, s, kv, 'GrpcContextKeyValue')
        k = v.eng.litname(v.eng.lower(s, message(v, s, f['key'], 'GrpcContextKey')['name'], STR))
        v.prove(s, z3.BoolVal(k not in got), '%s: parameter %s once' % (what, k))
        got[k] = f.get('value')
    v.prove(s, z3.BoolVal(set(got) == set(want)), '%s: exactly the parameters %s' % (what, ', '.join(sorted(want))))
    for k, spec in want.items():
        if k in got:
            value_is(v, s, got[k], spec, '%s: %s' % (what, k))


def part_is(v, s, m, name, params=None, keys=None, uid=None, simple=False):
    """the wire form of a part"""
    f = message(v, s, m, 'GrpcPipelinePartBase')
    which = 'defaultPart' if keys is None else 'simpleContextRequestPart' if simple else 'complexContextRequestPart'
    what = name or keys[0]
    v.prove(s, z3.BoolVal(list(f) == [which]), '%s is sent as %s' % (what, which))
    if list(f) != [which]:
        return
    p = f[which]
    if keys is not None:
        q = message(v, s, p, 'GrpcSimpleContextRequestPipelinePart' if simple else 'GrpcComplexContextRequestPipelinePart')
        exactly(v, s, q.get('frontendPartUuid'), 'GrpcUuid', uuid=lambda x: v.prove(s, v.eng.lower(s, x, STR) == v.text(uid.t), '%s: its own identifier' % what))
        ks = [q.get('key')] if simple else elems(v, s, q.get('keys'))
        v.prove(s, z3.BoolVal(len(ks) == len(keys)), '%s: number of keys' % what)
        for a, b in zip(ks, keys):
            exactly(v, s, a, 'GrpcContextKey', name=v.eng.lit(b))
        p = q.get('beforePipelinePart')
    if not simple:
        q = message(v, s, p, 'GrpcPipelinePart')
        v.prove(s, v.eng.lower(s, q['name'], STR) == v.eng.lit(name).t, '%s: the name' % what)
        config_is(v, s, q.get('configuration'), params or {}, what)


class Args:
    """symbolic constructor arguments together with the wire form each must get"""

    def __init__(self, v):
        self.v, self.n = v, 0

    def name(self, p):
        self.n += 1
        return '%s_%d' % (p, self.n)

    def str(self):
        x, _ = self.v.param(self.name('text'), STR)
        return x, ('string', x)

    def int(self):
        x, _ = self.v.param(self.name('number'), INT)
        return x, ('uint32', x)

    def real(self):
        x, _ = self.v.param(self.name('real'), REAL)
        return x, ('float', x)

    def bool(self):
        x, _ = self.v.param(self.name('flag'), BOOL)
        return x, ('bool', x)

    def strs(self):
        x, t = self.v.param(self.name('texts'), TList(STR))
        return x, ('strings', t)

    def enum(self, qual, wire):
        v = self.v
        mod, cls = qual.split(':')
        import ast
        n = [x.targets[0].id for x in v.klass(qual).node.body if isinstance(x, ast.Assign)]
        enum_member(v, qual, n[0])
        x, t = v.param(self.name(cls), TEnum(cls))
        v.require(t >= 0, t < len(n))
        nm, = v.eng.getattr(v.st, x, 'name')
        # the name of a member is the name it is declared under
        v.st = nm[0]
        for i, k in enumerate(n):
            v.prove(v.st, z3.Implies(t == i, nm[1].t == v.eng.lit(k).t), 'name of %s.%s' % (cls, k))
        return x, ('enum', (wire, nm[1]))

    def pipe(self):
        v = self.v
        x = make(v, GP + 'Pipeline2')
        w = opaque(v, self.name('inner_wire'), 'PipelineWire')
        spied.append((x, w))
        return x, ('pipeline', w)


spied = []


def pipes(v):
    """contract of Pipeline2.to_grpc_pipeline / append_parts_with_callbacks for the pipelines given as arguments (their own units prove them)"""
    del spied[:]
    v.asked = []

    def which(eng, st, x):
        for p, w in spied:
            if isinstance(x, VPl) and isinstance(x.place, Root) and x.place.oid == p.place.oid:
                return p, w

    def wire(eng, st, env, f):
        w = which(eng, st, env['self'])
        if w is None:
            return None
        return [(st, w[1])]

    def cbs(eng, st, env, f):
        w = which(eng, st, env['self'])
        if w is None:
            return None
        eng.list_append(st, env['parts'], Z(z3.Const('callbacks_of_%d' % w[0].place.oid, eng.sort(TRef('Registered'))), TRef('Registered')))
        return [(st, VNone)]
    v.types.ref['Registered'] = {}
    v.eng.contracts[GP + 'Pipeline2.to_grpc_pipeline'] = wire
    v.eng.contracts[GP + 'Pipeline2.append_parts_with_callbacks'] = cbs


def check_part(v, cls, kw, name, params, keys=None, simple=False, inner=None, optional=()):
    """to_grpc_part of cls(**kw) is exactly the wire form; the callbacks it registers are itself (if it fetches results) and those of the inner pipeline"""
    for miss in ([()] if not optional else [(), *[(o,) for o in optional], tuple(optional)]):
        v.st0 = v.st
        k2 = {k: VNone if k in miss else x[0] if isinstance(x, tuple) else x for k, x in kw.items()}
        x = make(v, cls, **k2)
        uid = get(v, v.st, x, 'uuid')
        want = {w: kw[k][1] for w, k in params.items() if k not in miss}
        for s, r in v.returns(v.call(cls + '.to_grpc_part', [x])):
            part_is(v, s, r, name, want, keys, uid, simple)
            for s2, r2 in v.returns(v.call(cls + '.to_grpc_part', [x], st=s)):
                part_is(v, s2, r2, name, want, keys, uid, simple)
        l = v.eng.new_root(v.st, ('LC', ()))
        exp = ([x] if keys is not None else [])
        if inner and inner not in miss:
            exp = exp + [next(p for p, w in spied if p is kw[inner][0])]
        for s, r in v.returns(v.call(cls + '.append_parts_with_callbacks', [x, l])):
            got = elems(v, s, l)
            v.prove(s, z3.BoolVal(len(got) == len(exp)), '%s registers %d' % (cls.split(':')[1], len(exp)))
            for a, b in zip(got, exp):
                if isinstance(a, Z):
                    v.prove(s, z3.BoolVal(a.t.decl().name() == 'callbacks_of_%d' % b.place.oid), 'the callbacks of the inner pipeline')
                else:
                    same_val(v, s, a, b, 'the part itself')
        v.st = v.st0


def plain(v, table):
    for cls, name in table:
        check_part(v, cls, {}, name, {})


@unit(P, 'plain_parts', *[c + '.to_grpc_part' for c in (FIL + 'FilterLogByVariants2', MUTP + 'AddStartEndArtificialEvents2', XES + 'ReadLogFromXes2', UTL + 'UseNamesEventLog2', ACT + 'SubstituteUnderlyingEvents2', DIS + 'DiscoverPetriNetAlpha2')])
def u(v):
    """parts without parameters: the name, no parameter"""
    world(v)
    pipes(v)
    plain(v, [(FIL + 'FilterLogByVariants2', 'FilterLogByVariants'), (MUTP + 'AddStartEndArtificialEvents2', 'AddArtificialStartEndEvents'),
              (MUTP + 'AddStartArtificialEvents2', 'AddArtificialStartEvents'), (MUTP + 'AddEndArtificialEvents2', 'AddArtificialEndEvents'),
              (XES + 'ReadLogFromXes2', 'ReadLogFromXes'), (XES + 'ReadLogFromBxes2', 'ReadLogFromBxes'), (UTL + 'UseNamesEventLog2', 'UseNamesEventLog'),
              (ACT + 'SubstituteUnderlyingEvents2', 'SubstituteUnderlyingEvents'), (ACT + 'ClearActivitiesRelatedStuff2', 'ClearActivities'),
              (DIS + 'DiscoverPetriNetAlpha2', 'DiscoverPetriNetAlpha'), (DIS + 'DiscoverPetriNetAlphaPlus2', 'DiscoverPetriNetAlphaPlus'),
              (DIS + 'DiscoverPetriNetAlphaPlusPlus2', 'DiscoverPetriNetAlphaPlusPlus'), (DIS + 'DiscoverPetriNetAlphaPlusPlusNfc2', 'DiscoverPetriNetAlphaPlusPlusNfc'),
              (DIS + 'EnsureInitialMarking', 'EnsureInitialMarking')])


@unit(P, 'filtering_and_files', *[c + '.to_grpc_part' for c in (FIL + 'FilterTracesByEventsCount2', FIL + 'FilterEventsByName2', FIL + 'FilterEventsByRegex2', XES + 'WriteLogToXes2', XES + 'WriteLogToBxes2', DIS + 'SerializePetriNetToPNML2', ACT + 'ApplyClassExtractor2')])
def u(v):
    """name and every configured parameter under its key"""
    world(v)
    pipes(v)
    A = Args(v)
    check_part(v, FIL + 'FilterTracesByEventsCount2', dict(min_events_in_trace=A.int()), 'FilterTracesByEventsCount', {'events_count': 'min_events_in_trace'})
    check_part(v, FIL + 'FilterEventsByName2', dict(event_name=A.str()), 'FilterEventsByName', {'event_name': 'event_name'})
    check_part(v, FIL + 'FilterEventsByRegex2', dict(regex=A.str()), 'FilterEventsByRegex', {'regex': 'regex'})
    for c in ('WriteLogToXes', 'WriteLogToBxes'):
        check_part(v, XES + c + '2', dict(save_path=A.str()), c, {'path': 'save_path'})
    check_part(v, DIS + 'SerializePetriNetToPNML2', dict(save_path=A.str(), use_names_as_ids=A.bool()), 'SerializePetriNet', {'path': 'save_path', 'pnml_use_names_as_ids': 'use_names_as_ids'})
    check_part(v, ACT + 'ApplyClassExtractor2', dict(class_extractor_regex=A.str(), filter_regex=A.str()), 'ApplyClassExtractor', {'event_class_regex': 'class_extractor_regex', 'regex': 'filter_regex'})


@unit(P, 'patterns', PAT + 'FindTandemArrays2.to_grpc_part', PAT + 'FindRepeats2.to_grpc_part')
def u(v):
    """name and every configured parameter under its key; the class regex only when given"""
    world(v)
    pipes(v)
    A = Args(v)
    for c in ('FindPrimitiveTandemArrays', 'FindMaximalTandemArrays'):
        check_part(v, PAT + c + '2', dict(max_array_length=A.int(), class_extractor=A.str()), c, {'tandem_array_length': 'max_array_length', 'event_class_regex': 'class_extractor'}, optional=('class_extractor',))
    for c in ('FindMaximalRepeats', 'FindSuperMaximalRepeats', 'FindNearSuperMaximalRepeats'):
        check_part(v, PAT + c + '2', dict(strategy=A.enum(DM + 'PatternsDiscoveryStrategy', 'PatternsDiscoveryStrategy'), class_extractor=A.str()), c,
                   {'patterns_discovery_strategy': 'strategy', 'event_class_regex': 'class_extractor'}, optional=('class_extractor',))


UNDEF = L + 'analysis.patterns.patterns_models:UndefinedActivityHandlingStrategy'
ADJ = L + 'pipelines.analysis.patterns.models:AdjustingMode'


@unit(P, 'activities', *[ACT + c + '.to_grpc_part' for c in ('DiscoverActivities2', 'DiscoverActivitiesInstances2', 'CreateLogFromActivitiesInstances2', 'DiscoverActivitiesForSeveralLevels2', 'DiscoverActivitiesUntilNoMore2', 'ExecuteWithEachActivityLog2', 'PrintNumberOfUnderlyingEvents2')])
def u(v):
    """name and every configured parameter under its key; inner pipelines in their wire form, only when given"""
    world(v)
    pipes(v)
    A = Args(v)
    check_part(v, ACT + 'DiscoverActivities2', dict(activity_level=A.int()), 'DiscoverActivities', {'activity_level': 'activity_level'})
    narrow = lambda: A.enum(DM + 'NarrowActivityKind', 'ActivityNarrowingKind')
    filt = lambda: A.enum(DM + 'ActivityFilterKind', 'ActivityInTraceFilterKind')
    check_part(v, ACT + 'DiscoverActivitiesInstances2', dict(narrow_activities=narrow(), min_events_in_activity=A.int(), activity_filter_kind=filt()), 'DiscoverActivitiesInstances',
               {'narrow_activities': 'narrow_activities', 'min_activity_length': 'min_events_in_activity', 'activity_in_trace_filter_kind': 'activity_filter_kind'})
    undef = lambda: A.enum(UNDEF, 'UndefActivityHandlingStrategyDto')
    check_part(v, ACT + 'CreateLogFromActivitiesInstances2', dict(strategy=undef()), 'CreateLogFromActivities', {'undef_activity_handling_strategy': 'strategy'})
    common = lambda: dict(narrow_activities=narrow(), patterns_kind=A.enum(DM + 'PatternsKind', 'PatternsKindDto'), activity_level=A.int(), strategy=A.enum(DM + 'PatternsDiscoveryStrategy', 'PatternsDiscoveryStrategy'),
                          max_array_length=A.int(), adjusting_mode=A.enum(ADJ, 'AdjustingMode'), min_events_in_unattached_subtrace_count=A.int(), min_events_in_activity_count=A.int(), activity_filter_kind=filt())
    keys = {'patterns_kind': 'patterns_kind', 'narrow_activities': 'narrow_activities', 'activity_level': 'activity_level', 'patterns_discovery_strategy': 'strategy', 'tandem_array_length': 'max_array_length',
            'adjusting_mode': 'adjusting_mode', 'events_count': 'min_events_in_unattached_subtrace_count', 'min_activity_length': 'min_events_in_activity_count', 'activity_in_trace_filter_kind': 'activity_filter_kind'}
    check_part(v, ACT + 'DiscoverActivitiesForSeveralLevels2', dict(common(), event_classes=A.strs()), 'DiscoverActivitiesForSeveralLevels', dict(keys, event_classes_regexes='event_classes'))
    check_part(v, ACT + 'DiscoverActivitiesUntilNoMore2', dict(common(), event_class=A.str(), undef_strategy=undef(), after_activities_extraction_pipeline=A.pipe(), execute_only_on_last_extraction=A.bool()), 'DiscoverActivitiesUntilNoMore',
               dict(keys, event_class_regex='event_class', undef_activity_handling_strategy='undef_strategy', pipeline='after_activities_extraction_pipeline', execute_only_on_last_extraction='execute_only_on_last_extraction'),
               inner='after_activities_extraction_pipeline', optional=('event_class', 'after_activities_extraction_pipeline'))
    check_part(v, ACT + 'ExecuteWithEachActivityLog2', dict(activities_logs_source=A.enum(DM + 'ActivitiesLogsSource', 'ActivitiesLogsSourceDto'), activity_level=A.int(), activity_log_pipeline=A.pipe()), 'ExecuteWithEachActivityLog',
               {'pipeline': 'activity_log_pipeline', 'activity_level': 'activity_level', 'activities_logs_source': 'activities_logs_source'}, inner='activity_log_pipeline')
    check_part(v, ACT + 'PrintNumberOfUnderlyingEvents2', {}, 'GetUnderlyingEventsCount', {}, ['underlying_events_count'])


@unit(P, 'from_patterns', ACT + 'DiscoverActivitiesFromPatterns2.to_grpc_part')
def u(v):
    """a nested pipeline of the miner of the configured kind with its parameter, then DiscoverActivities with the level"""
    world(v)
    pipes(v)
    A = Args(v)
    v.eng.max_rec = 2      # the inner pipeline has parts of its own, which have no inner pipeline
    for k in ('MaximalRepeats', 'SuperMaximalRepeats', 'NearSuperMaximalRepeats', 'PrimitiveTandemArrays', 'MaximalTandemArrays'):
        st = A.enum(DM + 'PatternsDiscoveryStrategy', 'PatternsDiscoveryStrategy')
        n, l = A.int(), A.int()
        miner = {'tandem_array_length': n[1]} if k.endswith('Arrays') else {'patterns_discovery_strategy': st[1]}

        def inner(s, p, k=k, miner=miner, l=l):
            ps = elems(v, s, message(v, s, p, 'GrpcPipeline').get('parts'))
            v.prove(s, z3.BoolVal(len(ps) == 2), 'two inner parts')
            if len(ps) == 2:
                part_is(v, s, ps[0], 'Find' + k, miner)
                part_is(v, s, ps[1], 'DiscoverActivities', {'activity_level': l[1]})
        check_part(v, ACT + 'DiscoverActivitiesFromPatterns2', dict(patterns_kind=(enum_member(v, DM + 'PatternsKind', k), ('pipeline', inner)), strategy=st, max_array_length=n, activity_level=l),
                   'ExecuteFrontendPipeline', {'pipeline': 'patterns_kind'})


@unit(P, 'clustering', *[ACT + c + '.to_grpc_part' for c in ('ClusterizeActivitiesFromTracesKMeans', 'ClusterizeActivitiesFromTracesKMeansGridSearch', 'ClusterizeActivitiesFromTracesDbscan', 'VisualizeTracesActivities2', 'ClusterizeLogTracesDbscan')])
def u(v):
    """name, parameters, the key of the dataset and the part's identifier"""
    world(v)
    pipes(v)
    A = Args(v)
    src = lambda: A.enum(DM + 'ActivitiesRepresentationSource', 'ActivityRepresentationSource')
    dist = lambda: A.enum(DM + 'Distance', 'FicusDistance')
    common = lambda: dict(activity_level=A.int(), tolerance=A.real(), class_extractor=A.str(), activities_repr_source=src(), distance=dist())
    keys = {'activity_level': 'activity_level', 'tolerance': 'tolerance', 'event_class_regex': 'class_extractor', 'activities_repr_source': 'activities_repr_source', 'distance': 'distance'}
    DS = ['labeled_traces_activities_dataset']
    c = 'ClusterizeActivitiesFromTracesKMeans'
    check_part(v, ACT + c, dict(common(), clusters_count=A.int(), learning_iterations_count=A.int()), c, dict(keys, clusters_count='clusters_count', learning_iterations_count='learning_iterations_count'), DS, optional=('class_extractor',))
    c += 'GridSearch'
    check_part(v, ACT + c, dict(common(), learning_iterations_count=A.int()), c, dict(keys, learning_iterations_count='learning_iterations_count'), DS, optional=('class_extractor',))
    c = 'ClusterizeActivitiesFromTracesDbscan'
    check_part(v, ACT + c, dict(common(), min_events_count_in_cluster=A.int()), c, dict(keys, min_events_in_cluster_count='min_events_count_in_cluster'), DS, optional=('class_extractor',))
    check_part(v, ACT + 'VisualizeTracesActivities2', dict(activity_level=A.int(), class_extractor=A.str(), activities_repr_source=src()), 'CreateTracesActivitiesDataset',
               {k: keys[k] for k in ('activity_level', 'event_class_regex', 'activities_repr_source')}, ['traces_activities_dataset'], optional=('class_extractor',))
    check_part(v, ACT + 'ClusterizeLogTracesDbscan', dict(after_clusterization_pipeline=A.pipe(), min_events_count_in_cluster=A.int(), tolerance=A.real(), distance=dist(),
               traces_repr_source=A.enum(DM + 'TracesRepresentationSource', 'TracesRepresentationSource'), class_extractor=A.str()), 'ClusterizeLogTraces',
               {'tolerance': 'tolerance', 'distance': 'distance', 'traces_repr_source': 'traces_repr_source', 'min_events_in_cluster_count': 'min_events_count_in_cluster', 'pipeline': 'after_clusterization_pipeline', 'event_class_regex': 'class_extractor'},
               ['labeled_log_traces_dataset'], inner='after_clusterization_pipeline', optional=('class_extractor',))


@unit(P, 'discovery', *[DIS + c + '.to_grpc_part' for c in ('DiscoverPetriNetHeuristic2', 'DiscoverFuzzyGraph', 'ViewPetriNet2', 'ViewGraph2', 'ViewDirectlyFollowsGraph2', 'AnnotatePetriNet2')])
def u(v):
    """name, thresholds under their keys; the viewers ask for their keys"""
    world(v)
    pipes(v)
    A = Args(v)
    ks = ['dependency_threshold', 'positive_observations_threshold', 'relative_to_best_threshold', 'and_threshold', 'loop_length_two_threshold']
    check_part(v, DIS + 'DiscoverPetriNetHeuristic2', {k: A.int() if k.startswith('pos') else A.real() for k in ks}, 'DiscoverPetriNetHeuristic', {k: k for k in ks})
    ks = ['unary_frequency_threshold', 'binary_significance_threshold', 'preserve_threshold', 'ratio_threshold', 'utility_rate', 'edge_cutoff_threshold', 'node_cutoff_threshold']
    check_part(v, DIS + 'DiscoverFuzzyGraph', {k: A.real() for k in ks}, 'DiscoverFuzzyGraph', {k.replace('binary_s', 'binary_frequency_s'): k for k in ks})
    check_part(v, DIS + 'ViewPetriNet2', {}, None, {}, ['petri_net'], simple=True)
    check_part(v, DIS + 'ViewGraph2', {}, None, {}, ['graph'], simple=True)
    check_part(v, DIS + 'ViewDirectlyFollowsGraph2', {}, 'DiscoverDirectlyFollowsGraph', {}, ['graph'])
    for c, k in (('Count', 'count'), ('Frequency', 'frequency'), ('TraceFrequency', 'trace_frequency')):
        check_part(v, DIS + 'AnnotatePetriNetWith%s2' % c, dict(terminate_on_unreplayable_trace=A.bool()), 'AnnotatePetriNetWith' + c, {'terminate_on_unreplayable_traces': 'terminate_on_unreplayable_trace'}, ['petri_net', 'petri_net_%s_annotation' % k])


@unit(P, 'drawing', *[DRA + c + '.to_grpc_part' for c in ('TracesDiversityDiagram2', 'DrawPlacementsOfEventByName2', 'DrawPlacementOfEventsByRegex2', 'DrawActivitiesDiagramBase2', 'TracesDiversityDiagram2Canvas', 'DrawPlacementsOfEventByName2Canvas', 'DrawPlacementOfEventsByRegex2Canvas', 'DrawActivitiesDiagramBase2Canvas')])
def u(v):
    """the diagram asked for, with its parameter, and the key of the colours"""
    world(v)
    pipes(v)
    A = Args(v)
    for c, n, p in (('TracesDiversityDiagram2', 'TracesDiversityDiagram', None), ('DrawPlacementsOfEventByName2', 'DrawPlacementOfEventByName', 'event_name'),
                    ('DrawPlacementOfEventsByRegex2', 'DrawPlacementOfEventsByRegex', 'regex'), ('DrawFullActivitiesDiagram2', 'DrawFullActivitiesDiagram', None),
                    ('DrawShortActivitiesDiagram2', 'DrawShortActivitiesDiagram', None)):
        for cv in ('', 'Canvas'):
            check_part(v, DRA + c + cv, {p: A.str()} if p else {}, n, {p: p} if p else {}, ['colors_event_log'])


@unit(P, 'printing', UTL + 'PrintEventLog2.to_grpc_part', GP + 'PrintEventLogInfo2.to_grpc_part')
def u(v):
    """the value asked for and its key"""
    world(v)
    pipes(v)
    check_part(v, UTL + 'PrintEventLog2', {}, 'GetNamesEventLog', {}, ['names_event_log'])
    check_part(v, GP + 'PrintEventLogInfo2', {}, 'GetEventLogInfo', {}, ['event_log_info'])


PT = TRef('PipelinePart2WithCallback')      # an object of unknown class: is_part says whether it is a part


def parts_world(v):
    """parts as unknown objects: WIRE(part) is what to_grpc_part returns, CB(part) the parts it registers (proved for every part class by the units above)"""
    world(v)
    v.types.ref['PipelinePart2WithCallback'] = {'uuid': ('imm', UID)}
    v.types.ref['PartWire'] = {}
    v.klass(GP + 'PipelinePart2')
    v.klass(GP + 'PipelinePart2WithCallback')
    v.eng.isinst[('PipelinePart2WithCallback', 'PipelinePart2')] = v.ispart = z3.Function('is_part', S(v, PT), z3.BoolSort())
    v.eng.isinst[('PipelinePart2WithCallback', 'PipelinePart2WithCallback')] = z3.Function('has_callback', S(v, PT), z3.BoolSort())
    v.klass(GP + 'Pipeline2')
    v.types.obj['Pipeline2'] = [('parts', TList(PT))]
    v.wire = z3.Function('WIRE', S(v, PT), S(v, TRef('PartWire')))
    v.cb = z3.Function('CB', S(v, PT), S(v, TList(PT)))
    v.eng.contracts[GP + 'PipelinePart2.to_grpc_part'] = lambda eng, st, env, f: [(st, Z(v.wire(env['self'].t), TRef('PartWire')))]

    def cbs(eng, st, env, f):
        p = env['parts']
        if not isinstance(env['self'], Z):
            return None
        old = eng.lower(st, p, TList(PT))
        eng.write(st, p.place, z3.Concat(old, v.cb(env['self'].t)))
        return [(st, VNone)]
    v.eng.contracts[GP + 'PipelinePart2.append_parts_with_callbacks'] = v.eng.contracts[GP + 'PipelinePart2WithCallback.append_parts_with_callbacks'] = cbs
    SP, SW = S(v, TList(PT)), S(v, TList(TRef('PartWire')))
    v.WIRES = image(v, 'WIRES', PT, TRef('PartWire'), v.wire)
    v.CBS = SpecFn('CBS', [SP, SP, I], SP, lambda l, s, i: z3.If(i <= 0, l, z3.Concat(v.CBS(l, s, i - 1), v.cb(s[i - 1]))))
    v.fold_templates(v.WIRES)


I = z3.IntSort()


def callbacks_template(v):
    def t(Lp):
        for x in Lp.mods(TList(PT)):
            for q in Lp.all(TList(PT)):
                for i in Lp.mods(INT):
                    if q is not x:
                        yield ('%s gets the callbacks of %s below %s' % (x.name, q.name, i.name), lambda st, x=x, q=q, i=i: x(st) == v.CBS(x(Lp.entry), q(st), i(st)))
    v.eng.templates.append(t)


def wires_is(v, s, m, ps, what):
    """a wire pipeline with exactly the wire forms of the parts in order"""
    q = message(v, s, m, 'GrpcPipeline').get('parts')
    v.prove(s, v.eng.lower(s, q, TList(TRef('PartWire'))) == v.WIRES(ps, z3.Length(ps)), '%s: one wire part per part, in order' % what)


@unit(P, 'pipeline_to_wire', GP + 'Pipeline2.to_grpc_pipeline', GP + 'Pipeline2._create_grpc_pipeline', GP + 'PipelineContextValue.to_grpc_context_value')
def u(v):
    """one wire part per part, in order; anything that is not a part is rejected, nothing else is"""
    parts_world(v)
    ispart = v.ispart
    p, pt = v.param('self', TObj('Pipeline2'))
    ps = fld(v, 'Pipeline2', 'parts', pt)
    k0 = z3.Int('k0')
    v.require(0 <= k0, k0 < z3.Length(ps))

    def t(Lp):
        for i in Lp.mods(INT):
            yield ('parts checked below %s' % i.name, lambda st, i=i: z3.Implies(k0 < i(st), ispart(ps[k0])))
    v.eng.templates.append(t)
    ALL = UPred('ALLPARTS', [S(v, TList(PT))], I, lambda s, k: z3.Or(k < 0, k >= z3.Length(s), ispart(s[k])))
    outs = v.call(GP + 'Pipeline2.to_grpc_pipeline', [p])
    for s, r in v.returns(outs, allow_raise=True):
        wires_is(v, s, r, ps, 'the request')
        v.prove(s, ispart(ps[k0]), 'every accepted element is a part')
        v.prove(s, v.eng.lower(s, p, TObj('Pipeline2')) == pt, 'frame: the pipeline is unchanged')
    for s, k, r in outs:
        if k == 'raise':
            v.prove(s, z3.BoolVal(r[0] == 'TypeError'), 'rejection is a TypeError')
    c = make(v, GP + 'PipelineContextValue', p)
    s0 = v.st.clone()
    s0.assume(ALL(ps))
    for s, r in v.returns(v.call(GP + 'Pipeline2.to_grpc_pipeline', [p], st=s0)):
        v.prove(s, z3.BoolVal(True), 'parts are accepted')
    for s, r in v.returns(v.call(GP + 'PipelineContextValue.to_grpc_context_value', [c], st=s0)):
        exactly(v, s, r, 'GrpcContextValue', pipeline=lambda m: wires_is(v, s, m, ps, 'a nested pipeline'))


@unit(P, 'registered_callbacks', GP + 'Pipeline2.append_parts_with_callbacks')
def u(v):
    """every part registers its callbacks on the given list, in order; nothing else is registered"""
    parts_world(v)
    p, pt = v.param('self', TObj('Pipeline2'))
    l, lt = v.param('parts', TList(PT))
    ps = fld(v, 'Pipeline2', 'parts', pt)

    callbacks_template(v)
    for s, r in v.returns(v.call(GP + 'Pipeline2.append_parts_with_callbacks', [p, l])):
        v.prove(s, v.eng.lower(s, l, TList(PT)) == v.CBS(lt, ps, z3.Length(ps)), 'the callbacks of every part, in order')
        v.prove(s, v.eng.lower(s, p, TObj('Pipeline2')) == pt, 'frame: the pipeline is unchanged')


@unit(P, 'before_after', UTL + 'PrintEventlogInfoBeforeAfter.to_grpc_part', UTL + 'PrintEventlogInfoBeforeAfter.append_parts_with_callbacks', UTL + 'PrintEventlogInfoBeforeAfter._create_pipeline')
def u(v):
    """printing before and after: a nested pipeline of the same printing part, the inner parts in order, the other printing part; the callbacks of exactly these;
    the inner pipeline is unchanged; the same twice"""
    parts_world(v)
    made = []

    def print_part(eng, st, a, kw):
        x = eng.new_ref(st, 'PipelinePart2WithCallback')
        made.append(x)
        st.assume(v.ispart(x), v.cb(x) == z3.Unit(x))
        return [(st, Z(x, PT))]
    v.eng.makers['PrintEventLogInfo2'] = print_part       # its wire form and its callbacks: unit printing
    p, pt = v.param('inner_pipeline', TObj('Pipeline2'))
    ps = fld(v, 'Pipeline2', 'parts', pt)
    v.klass(UTL + 'PrintEventlogInfoBeforeAfter')
    x = make(v, UTL + 'PrintEventlogInfoBeforeAfter', p)
    v.prove(v.st, z3.BoolVal(len(made) == 2), 'two printing parts')
    b, a = (get(v, v.st, x, f).t for f in ('before_part', 'after_part'))
    v.prove(v.st, z3.And(b != a, b == made[0], a == made[1]), 'the two printing parts')
    cat = z3.Concat(z3.Unit(b), ps, z3.Unit(a))
    j0 = z3.Int('j0')
    v.require(0 <= j0, j0 < z3.Length(cat), z3.Implies(z3.And(1 <= j0, j0 < z3.Length(cat) - 1), v.ispart(ps[j0 - 1])))

    def t(Lp):
        for y in Lp.mods(TList(PT)):
            for q in Lp.all(TList(PT)):
                for i in Lp.mods(INT):
                    if q is not y:
                        yield ('%s grows by %s below %s' % (y.name, q.name, i.name), lambda st, y=y, q=q, i=i: y(st) == z3.Concat(y(Lp.entry), z3.Extract(q(st), z3.IntVal(0), i(st))))
    v.eng.templates.append(t)
    callbacks_template(v)
    W = opaque(v, 'wire_of_the_whole', 'PipelineWire')

    def whole(eng, st, env, f):
        if eng.mode == 'final':
            got = fld(v, 'Pipeline2', 'parts', eng.lower(st, env['self'], TObj('Pipeline2')))
            v.prove(st, got == cat, 'sent: the printing part, the inner parts in order, the other printing part')
            v.prove(st, v.ispart(cat[j0]), 'precondition of to_grpc_pipeline: every element is a part')
        return [(st, W)]
    v.eng.contracts[GP + 'Pipeline2.to_grpc_pipeline'] = whole
    l, lt = v.param('parts', TList(PT))
    st = v.st
    for n in range(2):
        for s, r in v.returns(v.call(UTL + 'PrintEventlogInfoBeforeAfter.to_grpc_part', [x], st=st)):
            part_is(v, s, r, 'ExecuteFrontendPipeline', {'pipeline': ('pipeline', W)})
            v.prove(s, v.eng.lower(s, p, TObj('Pipeline2')) == pt, 'frame: the inner pipeline is unchanged')
            st = s
    for s, r in v.returns(v.call(UTL + 'PrintEventlogInfoBeforeAfter.append_parts_with_callbacks', [x, l], st=st)):
        v.prove(s, v.eng.lower(s, l, TList(PT)) == v.CBS(lt, cat, z3.Length(cat)), 'the callbacks of the printing part, of the inner parts in order, of the other printing part')
        v.prove(s, v.eng.lower(s, p, TObj('Pipeline2')) == pt, 'frame: the inner pipeline is unchanged')


RES, FIN, PRES, NV, CVR = TRef('GrpcPipelinePartExecutionResult'), TRef('GrpcFinalResult'), TRef('GrpcPartResult'), TRef('GrpcNamedValue'), TRef('ContextValue')
VW, GUID, REQ = TRef('ValueWire'), TRef('GrpcGuid'), TRef('Sent')
LOG, DROP, ASK = ('ghost', 'callbacks'), ('ghost', 'dropped'), ('ghost', 'asked')
VALS = TDict(STR, VW)
CALL = TTup(PT, VALS)
CTX = TDict(STR, CVR)


def set_list(eng, st, ls, ty, term):
    eng.to_sym(st, ls, ty.a[0])
    eng.write(st, ls.place, term)


def wire_world(v):
    """the stream of results as unknown objects: which alternative is set and its content"""
    parts_world(v)
    r = v.types.ref
    for c in ('GrpcPipelinePartExecutionResult', 'GrpcFinalResult', 'GrpcPartResult', 'GrpcNamedValue', 'GrpcWireUuid', 'GrpcLogMessage'):
        v.klass('vmodels.wire:' + c)
    v.klass(G + 'context_values:ContextValue')
    r['GrpcPipelinePartExecutionResult'] = {'finalResult': ('imm', FIN), 'pipelinePartResult': ('imm', PRES), 'logMessage': ('imm', TRef('GrpcLogMessage'))}
    r['GrpcFinalResult'] = {'success': ('imm', GUID), 'error': ('imm', STR)}
    r['GrpcPartResult'] = {'uuid': ('imm', TRef('GrpcWireUuid')), 'contextValues': ('imm', TList(NV))}
    r['GrpcWireUuid'] = {'uuid': ('imm', STR)}
    r['GrpcNamedValue'] = {'key_name': ('imm', STR), 'value': ('imm', VW)}
    r['GrpcLogMessage'] = {'message': ('imm', STR)}
    for c in ('ContextValue', 'ValueWire', 'GrpcGuid'):
        r[c] = {}
    imm = lambda c, f, ty: v.eng.imm(c, f, ty)
    v.has = {}

    def hasfield(cls):
        def h(eng, st, env, f):
            n = eng.litname(eng.lower(st, env['name'], STR))
            if n is None:
                raise Unsupported('HasField of an unknown field')
            return [(st, Z(has(cls, n)(env['self'].t), BOOL))]
        return h

    def has(cls, n):
        return z3.Function('has_' + n, S(v, TRef(cls)), z3.BoolSort())
    for c in ('GrpcPipelinePartExecutionResult', 'GrpcFinalResult'):
        v.eng.contracts['vmodels.wire:%s.HasField' % c] = hasfield(c)
    R = 'GrpcPipelinePartExecutionResult'
    v.isfin, v.ispres, v.islog = has(R, 'finalResult'), has(R, 'pipelinePartResult'), has(R, 'logMessage')
    v.success = has('GrpcFinalResult', 'success')
    v.final = lambda x: imm(R, 'finalResult', FIN)(x)
    v.guid = lambda x: imm('GrpcFinalResult', 'success', GUID)(x)
    pres = lambda x: imm(R, 'pipelinePartResult', PRES)(x)
    v.addr = lambda x: v.parse(imm('GrpcWireUuid', 'uuid', STR)(imm('GrpcPartResult', 'uuid', TRef('GrpcWireUuid'))(pres(x))))
    v.nvs = lambda x: imm('GrpcPartResult', 'contextValues', TList(NV))(pres(x))
    v.key = lambda x: imm('GrpcNamedValue', 'key_name', STR)(x)
    v.val = lambda x: imm('GrpcNamedValue', 'value', VW)(x)
    v.uid = lambda x: imm('PipelinePart2WithCallback', 'uuid', UID)(x)
    v.eng.assumed.add('at most one alternative of a result is set (protobuf oneof); an unset final result has no success')

    def oneof(app):
        if app.decl().eq(v.isfin) or app.decl().eq(v.ispres) or app.decl().eq(v.islog):
            x = app.arg(0)
            return [z3.Not(z3.And(v.isfin(x), v.ispres(x))), z3.Not(z3.And(v.isfin(x), v.islog(x))), z3.Not(z3.And(v.ispres(x), v.islog(x)))]
        if app.decl().eq(v.success) and z3.is_app(app.arg(0)) and app.arg(0).num_args() == 1:
            return [z3.Implies(app, v.isfin(app.arg(0).arg(0)))]
        return None
    LEMMAS.append(oneof)
    DS = S(v, VALS)
    v.VALUES = SpecFn('VALUES', [S(v, TList(NV)), I], DS, lambda s, i: z3.If(i <= 0, v.eng.empty_dict(VALS), v.eng.d_store(VALS, v.VALUES(s, i - 1), v.key(s[i - 1]), v.val(s[i - 1]))))
    REG = TDict(UID, PT)
    v.REG = SpecFn('REGISTRY', [S(v, TList(PT)), I], S(v, REG), lambda s, i: z3.If(i <= 0, v.eng.empty_dict(REG), v.eng.d_store(REG, v.REG(s, i - 1), v.uid(s[i - 1]), s[i - 1])))
    RS = S(v, REG)
    v.owned = lambda cbs, u: z3.Select(RS.has(v.REG(cbs, z3.Length(cbs))), u)
    v.owner = lambda cbs, u: z3.Select(RS.val(v.REG(cbs, z3.Length(cbs))), u)
    LS = S(v, TList(CALL))
    call = S(v, CALL).constructor(0)

    def calls(cbs, q, i):
        x = q[i - 1]
        hit = z3.And(v.ispres(x), v.owned(cbs, v.addr(x)))
        n = v.nvs(x)
        return z3.If(i <= 0, z3.Empty(LS), z3.If(hit, z3.Concat(v.CALLS(cbs, q, i - 1), z3.Unit(call(v.owner(cbs, v.addr(x)), v.VALUES(n, z3.Length(n))))), v.CALLS(cbs, q, i - 1)))
    v.CALLS = SpecFn('CALLS', [S(v, TList(PT)), S(v, TList(RES)), I], LS, calls)
    folds(v, v.VALUES, v.REG)

    def cb(eng, st, env, f):
        st.heap[LOG] = z3.Concat(st.heap[LOG], z3.Unit(call(env['self'].t, eng.lower(st, env['values'], VALS))))
        eng.log(('heap',) + LOG)
        return [(st, VNone)]
    v.eng.contracts[GP + 'PipelinePart2WithCallback.execute_callback'] = cb
    v.st.heap[LOG] = z3.Empty(LS)
    v.st.heap[DROP] = z3.Empty(S(v, TList(GUID)))
    v.eng.ext['time.time'] = lambda eng, st, a, kw: [(st, Z(eng.fresh('time', REAL), REAL))]
    v.vw = z3.Function('VALUE_WIRE', S(v, CVR), S(v, VW))
    v.eng.contracts[G + 'context_values:ContextValue.to_grpc_context_value'] = lambda eng, st, env, f: [(st, Z(v.vw(env['self'].t), VW))]
    v.eng.repo.module(G + 'models.util_pb2')
    v.types.obj['GrpcContextKey'] = [('name', STR)]
    v.types.obj['GrpcContextKeyValue'] = [('key', TObj('GrpcContextKey')), ('value', VW)]
    KV = S(v, TObj('GrpcContextKeyValue'))
    D = S(v, CTX)
    v.INIT = SpecFn('INITIAL', [D, I], S(v, TList(TObj('GrpcContextKeyValue'))), lambda d, i: z3.If(i <= 0, z3.Empty(S(v, TList(TObj('GrpcContextKeyValue')))), z3.Concat(
        v.INIT(d, i - 1), z3.Unit(KV.mk(S(v, TObj('GrpcContextKey')).mk(D.keys(d)[i - 1]), v.vw(z3.Select(D.val(d), D.keys(d)[i - 1])))))))
    folds(v, v.INIT)


@unit(P, 'initial_context', GP + 'Pipeline2._create_initial_context')
def u(v):
    """one entry per key, with its key and the wire form of its value"""
    wire_world(v)
    c, ct = v.param('context', CTX)
    for s, r in v.returns(v.call(GP + 'Pipeline2._create_initial_context', [c])):
        v.prove(s, v.eng.lower(s, r, TList(TObj('GrpcContextKeyValue'))) == v.INIT(ct, z3.Length(S(v, CTX).keys(ct))), 'one entry per key, in order')
        v.prove(s, v.eng.lower(s, c, CTX) == ct, 'frame: the context is unchanged')


@unit(P, 'registry', GP + 'Pipeline2.execute')
def u(v):
    """the registry built from the registered parts gives, for every identifier, a part with that identifier, and knows every registered one"""
    wire_world(v)
    s = z3.Const('s!reg', S(v, TList(PT)))
    i, j = z3.Ints('i!reg j!reg')
    u_ = z3.Const('u!reg', S(v, UID))
    RS = S(v, TDict(UID, PT))
    sound = lambda k: z3.Implies(z3.Select(RS.has(v.REG(s, k)), u_), v.uid(z3.Select(RS.val(v.REG(s, k)), u_)) == u_)
    full = lambda k: z3.Implies(z3.And(0 <= j, j < k), z3.Select(RS.has(v.REG(s, k)), v.uid(s[j])))
    for nm, f in (('the part found has the identifier asked for', sound), ('every registered part is found', full)):
        v.lemma(nm + ' (base)', [i <= 0], f(i), fuel=1)
        v.lemma(nm + ' (step)', [i > 0, i <= z3.Length(s), f(i - 1)], f(i), fuel=3)
    v.no_paths_ok = True


@unit(P, 'execute', GP + 'Pipeline2.execute', L + 'util:performance_cookie', budget=300)
def u(v):
    """the request is exactly the parts and the initial values; each result addressed to a registered part runs exactly that part's callback once with exactly
    the delivered values, no other does; nothing after the final result is processed; it is returned; a successful execution is dropped by its identifier"""
    wire_world(v)
    v.eng.fuel = 3
    p, pt = v.param('self', TObj('Pipeline2'))
    ps = fld(v, 'Pipeline2', 'parts', pt)
    ALL = UPred('ALLPARTS', [S(v, TList(PT))], I, lambda s, k: z3.Or(k < 0, k >= z3.Length(s), v.ispart(s[k])))
    c, ct = v.param('initial_context', CTX)
    q, qt = v.param('stream', TList(RES), frozen=True)
    n, f = z3.Length(qt), z3.Int('first_final')
    NOFIN = UPred('NOTFINAL', [S(v, TList(RES)), I], I, lambda s, f, k: z3.Or(k < 0, k >= f, z3.Not(v.isfin(s[k]))))
    v.require(ALL(ps), n >= 1, 0 <= f, f <= n, z3.Implies(f < n, v.isfin(qt[f])), NOFIN(qt, f))
    cbs = v.CBS(z3.Empty(S(v, TList(PT))), ps, z3.Length(ps))
    D = S(v, CTX)
    bk = v.eng.lit('backend').t
    k0 = z3.Const('k0', S(v, STR))
    wire, kvs = opaque(v, 'the_wire_pipeline', 'PipelineWire'), v.param('the_initial_values', TList(TObj('GrpcContextKeyValue')), frozen=True)
    v.eng.contracts[GP + 'Pipeline2.append_parts_with_callbacks'] = lambda eng, st, env, f_: (set_list(eng, st, env['parts'], TList(PT), z3.Concat(eng.lower(st, env['parts'], TList(PT)), cbs)), [(st, VNone)])[1]
    n_asked = []

    def parts_spy(eng, st, env, f_):
        if eng.mode == 'final':
            v.prove(st, eng.lower(st, env['parts'], TList(PT)) == ps, 'the request is built from the parts of the pipeline')
        return [(st, wire)]

    def init_spy(eng, st, env, f_):
        d = eng.lower(st, env['context'], CTX)
        if eng.mode == 'final':
            v.prove(st, z3.And(z3.Select(D.has(d), k0) == z3.And(k0 != bk, z3.Select(D.has(ct), k0)), z3.Implies(z3.Select(D.has(d), k0), z3.Select(D.val(d), k0) == z3.Select(D.val(ct), k0))), 'the initial context is sent without the address of the backend')
        return [(st, kvs[0])]
    v.eng.contracts[GP + 'Pipeline2._create_grpc_pipeline'] = parts_spy
    v.eng.contracts[GP + 'Pipeline2._create_initial_context'] = init_spy
    chan = opaque(v, 'channel', 'Channel')

    def connect(eng, st, a, kw):
        if eng.mode == 'final':
            v.prove(st, z3.Implies(z3.Select(D.has(ct), bk), eng.lower(st, a[0], CVR) == z3.Select(D.val(ct), bk)) if isinstance(a[0], Z) and a[0].ty == CVR else z3.Not(z3.Select(D.has(ct), bk)), 'the backend of the context is asked')
        return [(st, chan)]
    v.eng.ext['grpc.insecure_channel'] = connect
    ST = G + 'models.backend_service_pb2_grpc:GrpcBackendServiceStub'

    def ask(eng, st, a, kw):
        n_asked.append(1)
        if eng.mode == 'final':
            exactly(v, st, a[0], 'GrpcPipelineExecutionRequest', pipeline=lambda m: same_val(v, st, m, wire, 'the wire pipeline is sent'),
                    initialContext=lambda m: v.prove(st, eng.lower(st, m, TList(TObj('GrpcContextKeyValue'))) == kvs[1], 'the initial values are sent'))
        return [(st, q)]

    def drop(eng, st, a, kw):
        st.heap[DROP] = z3.Concat(st.heap[DROP], z3.Unit(eng.lower(st, a[0], GUID)))
        eng.log(('heap',) + DROP)
        return [(st, VNone)]

    def stub(eng, st, env, f_):
        if eng.mode == 'final':
            same_val(v, st, env['channel'], chan, 'the stub uses the channel')
        eng.setattr(st, env['self'], 'ExecutePipeline', VPy(ask, 'ExecutePipeline'))
        eng.setattr(st, env['self'], 'DropExecutionResult', VPy(drop, 'DropExecutionResult'))
        return [(st, VNone)]
    v.eng.contracts[ST + '.__init__'] = stub
    v.eng.assumed.add('the generated stub calls the backend method of its name; the channel is closed by the with statement')

    def t(Lp):
        for i in Lp.mods(INT):
            for s in Lp.all(TList(RES)):
                yield ('callbacks == CALLS(%s, %s)' % (s.name, i.name), lambda st, s=s, i=i: st.heap[LOG] == v.CALLS(cbs, s(st), i(st)))
                yield ('%s not beyond the first final of %s' % (i.name, s.name), lambda st, s=s, i=i: i(st) <= f)
                for x in Lp.mods(TOpt(RES)):
                    O = S(v, TOpt(RES))
                    yield ('%s is the last of %s below %s' % (x.name, s.name, i.name), lambda st, s=s, i=i, x=x: z3.Implies(i(st) > 0, x(st) == O.some(s(st)[i(st) - 1])))
    v.eng.templates.append(t)
    for s, r in v.returns(v.call(GP + 'Pipeline2.execute', [p, c])):
        last = z3.If(f < n, qt[f], qt[n - 1])
        v.prove(s, s.heap[LOG] == v.CALLS(cbs, qt, f), 'each result before the final one addressed to a registered part runs its callback once with its values, in order')
        v.prove(s, v.eng.lower(s, r, RES) == last, 'the final result is returned')
        G1 = z3.Unit(v.guid(v.final(last)))
        v.prove(s, s.heap[DROP] == z3.If(z3.And(f < n, v.success(v.final(last))), G1, z3.Empty(G1.sort())), 'a successful execution is dropped by its identifier, once')
        v.prove(s, v.eng.lower(s, c, CTX) == ct, 'frame: the context given is unchanged')
        v.prove(s, v.eng.lower(s, p, TObj('Pipeline2')) == pt, 'frame: the pipeline is unchanged')
    v.prove(v.st, z3.BoolVal(len(n_asked) > 0), 'the backend is asked')
