from base import *
import struct, uuid as uuidlib, atexit
import C15
from C15 import TEXTS
CHECKS[:] = []

G = 'grpc_pipelines.'
GP = G + 'grpc_pipelines'


def f32(x):
    return struct.unpack('f', struct.pack('f', x))[0]


def S(x):
    return ('string', x)


def U(x):
    return ('uint32', x)


def F(x):
    return ('float', f32(x))


def B(x):
    return ('bool', x)


def E(t, x):
    return ('enum', (t, x.name))


def L(x):
    return ('strings', list(x))


def NARROW(x):
    return E('ActivityNarrowingKind', x)


def FILT(x):
    return E('ActivityInTraceFilterKind', x)


def STRAT(x):
    return E('PatternsDiscoveryStrategy', x)


def ADJ(x):
    return E('AdjustingMode', x)


def UNDEF(x):
    return E('UndefActivityHandlingStrategyDto', x)


def KIND(x):
    return E('PatternsKindDto', x)


def val(v):
    k = v.WhichOneof('contextValue')
    expect(k is not None, 'a parameter without a value')
    x = getattr(v, k)
    if k == 'enum':
        x = (x.enumType, x.value)
    elif k == 'strings':
        x = list(x.strings)
    elif k == 'pipeline':
        x = [wire(p) for p in x.parts]
    return (k, x)


def conf(c):
    d = {}
    for kv in c.configurationParameters:
        expect(kv.key.name not in d, 'parameter %s is sent twice' % kv.key.name)
        d[kv.key.name] = val(kv.value)
    return d


def wire(p):
    """readable form of a wire part: (kind, name, parameters, keys, identifier)"""
    k = p.WhichOneof('part')
    if k == 'defaultPart':
        return ('default', p.defaultPart.name, conf(p.defaultPart.configuration), [], None)
    if k == 'simpleContextRequestPart':
        q = p.simpleContextRequestPart
        return ('simple', None, {}, [q.key.name], q.frontendPartUuid.uuid)
    q = p.complexContextRequestPart
    return ('complex', q.beforePipelinePart.name, conf(q.beforePipelinePart.configuration), [x.name for x in q.keys], q.frontendPartUuid.uuid)


def dm(n):
    return api(G + 'data_models', n)


def en(rng, cls):
    return rng.choice(list(cls))


def text(rng):
    return rng.choice(TEXTS)


def num(rng):
    return rng.choice([0, 1, 2, 5, 20, 255, 2 ** 32 - 1, rng.randint(0, 10 ** 6)])


def real(rng):
    return rng.choice([0.0, 0.5, 1.0, 1e-5, rng.random()])


def opt(rng, f):
    return None if rng.random() < 0.5 else f(rng)


class Gen:
    """builds a random part of every kind together with the wire form it must have"""

    def __init__(self, rng):
        self.rng = rng
        self.cb = []        # (part, readable label) with a callback, expected registration

    def default(self, part, name, params=None):
        return part, ('default', name, params or {}, [], None)

    def complex(self, part, name, keys, params=None):
        self.cb.append(part)
        return part, ('complex', name, params or {}, keys, str(part.uuid))

    def simple(self, part, key):
        self.cb.append(part)
        return part, ('simple', None, {}, [key], str(part.uuid))

    def pipe(self, depth):
        P = api(GP, 'Pipeline2')
        items = [self.part(depth - 1) for _ in range(self.rng.randint(0, 3))]
        return P(*[p for p, _ in items]), ('pipeline', [w for _, w in items])

    def part(self, depth=1):
        names = sorted(n[2:] for n in dir(self) if n.startswith('k_') and (depth > 0 or not n.startswith('k_nested')))
        return getattr(self, 'k_' + self.rng.choice(names))(depth)

    # filtering, mutation, xes
    def k_f1(self, d):
        n = num(self.rng)
        return self.default(api(G + 'filtering_parts', 'FilterTracesByEventsCount2')(n), 'FilterTracesByEventsCount', {'events_count': U(n)})

    def k_f2(self, d):
        n = text(self.rng)
        return self.default(api(G + 'filtering_parts', 'FilterEventsByName2')(n), 'FilterEventsByName', {'event_name': S(n)})

    def k_f3(self, d):
        n = text(self.rng)
        return self.default(api(G + 'filtering_parts', 'FilterEventsByRegex2')(n), 'FilterEventsByRegex', {'regex': S(n)})

    def k_plain(self, d):
        m, c, n = self.rng.choice([
            ('filtering_parts', 'FilterLogByVariants2', 'FilterLogByVariants'),
            ('mutation_parts', 'AddStartEndArtificialEvents2', 'AddArtificialStartEndEvents'),
            ('mutation_parts', 'AddStartArtificialEvents2', 'AddArtificialStartEvents'),
            ('mutation_parts', 'AddEndArtificialEvents2', 'AddArtificialEndEvents'),
            ('xes_parts', 'ReadLogFromXes2', 'ReadLogFromXes'), ('xes_parts', 'ReadLogFromBxes2', 'ReadLogFromBxes'),
            ('util_parts', 'UseNamesEventLog2', 'UseNamesEventLog'),
            ('activities_parts', 'SubstituteUnderlyingEvents2', 'SubstituteUnderlyingEvents'),
            ('activities_parts', 'ClearActivitiesRelatedStuff2', 'ClearActivities'),
            ('discovery_parts', 'DiscoverPetriNetAlpha2', 'DiscoverPetriNetAlpha'),
            ('discovery_parts', 'DiscoverPetriNetAlphaPlus2', 'DiscoverPetriNetAlphaPlus'),
            ('discovery_parts', 'DiscoverPetriNetAlphaPlusPlus2', 'DiscoverPetriNetAlphaPlusPlus'),
            ('discovery_parts', 'DiscoverPetriNetAlphaPlusPlusNfc2', 'DiscoverPetriNetAlphaPlusPlusNfc'),
            ('discovery_parts', 'EnsureInitialMarking', 'EnsureInitialMarking')])
        return self.default(api(G + m, c)(), n)

    def k_write(self, d):
        n = text(self.rng)
        c, w = self.rng.choice([('WriteLogToXes2', 'WriteLogToXes'), ('WriteLogToBxes2', 'WriteLogToBxes')])
        return self.default(api(G + 'xes_parts', c)(n), w, {'path': S(n)})

    # patterns
    def k_tandem(self, d):
        c = self.rng.choice(['FindPrimitiveTandemArrays', 'FindMaximalTandemArrays'])
        n, x = num(self.rng), opt(self.rng, text)
        p = {'tandem_array_length': U(n)}
        if x is not None:
            p['event_class_regex'] = S(x)
        return self.default(api(G + 'patterns_parts', c + '2')(n, x), c, p)

    def k_repeats(self, d):
        c = self.rng.choice(['FindMaximalRepeats', 'FindSuperMaximalRepeats', 'FindNearSuperMaximalRepeats'])
        s, x = en(self.rng, dm('PatternsDiscoveryStrategy')), opt(self.rng, text)
        p = {'patterns_discovery_strategy': STRAT(s)}
        if x is not None:
            p['event_class_regex'] = S(x)
        return self.default(api(G + 'patterns_parts', c + '2')(s, x), c, p)

    # activities
    def k_disc(self, d):
        n = num(self.rng)
        return self.default(api(G + 'activities_parts', 'DiscoverActivities2')(n), 'DiscoverActivities', {'activity_level': U(n)})

    def k_inst(self, d):
        a, b, c = en(self.rng, dm('NarrowActivityKind')), num(self.rng), en(self.rng, dm('ActivityFilterKind'))
        return self.default(api(G + 'activities_parts', 'DiscoverActivitiesInstances2')(a, b, c), 'DiscoverActivitiesInstances',
                            {'narrow_activities': NARROW(a), 'min_activity_length': U(b), 'activity_in_trace_filter_kind': FILT(c)})

    def k_newlog(self, d):
        s = en(self.rng, api('legacy.analysis.patterns.patterns_models', 'UndefinedActivityHandlingStrategy'))
        return self.default(api(G + 'activities_parts', 'CreateLogFromActivitiesInstances2')(s), 'CreateLogFromActivities', {'undef_activity_handling_strategy': UNDEF(s)})

    def k_levels(self, d):
        r = self.rng
        a = dict(event_classes=[text(r) for _ in range(r.randint(0, 3))], patterns_kind=en(r, dm('PatternsKind')), narrow_activities=en(r, dm('NarrowActivityKind')),
                 activity_level=num(r), strategy=en(r, dm('PatternsDiscoveryStrategy')), max_array_length=num(r),
                 adjusting_mode=en(r, api('legacy.pipelines.analysis.patterns.models', 'AdjustingMode')),
                 min_events_in_unattached_subtrace_count=num(r), min_events_in_activity_count=num(r), activity_filter_kind=en(r, dm('ActivityFilterKind')))
        return self.default(api(G + 'activities_parts', 'DiscoverActivitiesForSeveralLevels2')(**a), 'DiscoverActivitiesForSeveralLevels', {
            'event_classes_regexes': L(a['event_classes']), 'patterns_kind': KIND(a['patterns_kind']), 'narrow_activities': NARROW(a['narrow_activities']),
            'activity_level': U(a['activity_level']), 'patterns_discovery_strategy': STRAT(a['strategy']), 'tandem_array_length': U(a['max_array_length']),
            'adjusting_mode': ADJ(a['adjusting_mode']), 'events_count': U(a['min_events_in_unattached_subtrace_count']),
            'min_activity_length': U(a['min_events_in_activity_count']), 'activity_in_trace_filter_kind': FILT(a['activity_filter_kind'])})

    def k_frompat(self, d):
        r = self.rng
        k, s, n, l = en(r, dm('PatternsKind')), en(r, dm('PatternsDiscoveryStrategy')), num(r), num(r)
        if k.name.endswith('TandemArrays'):
            inner = ('default', 'Find' + k.name, {'tandem_array_length': U(n)}, [], None)
        else:
            inner = ('default', 'Find' + k.name, {'patterns_discovery_strategy': STRAT(s)}, [], None)
        return self.default(api(G + 'activities_parts', 'DiscoverActivitiesFromPatterns2')(k, s, n, l), 'ExecuteFrontendPipeline',
                            {'pipeline': ('pipeline', [inner, ('default', 'DiscoverActivities', {'activity_level': U(l)}, [], None)])})

    def k_nested_until(self, d):
        r = self.rng
        mk = self.pipe(d) if r.random() < 0.6 else None
        a = dict(event_class=opt(r, text), patterns_kind=en(r, dm('PatternsKind')), narrow_activities=en(r, dm('NarrowActivityKind')), activity_level=num(r),
                 strategy=en(r, dm('PatternsDiscoveryStrategy')), undef_strategy=en(r, api('legacy.analysis.patterns.patterns_models', 'UndefinedActivityHandlingStrategy')),
                 max_array_length=num(r), adjusting_mode=en(r, api('legacy.pipelines.analysis.patterns.models', 'AdjustingMode')),
                 min_events_in_unattached_subtrace_count=num(r), min_events_in_activity_count=num(r), activity_filter_kind=en(r, dm('ActivityFilterKind')),
                 after_activities_extraction_pipeline=mk and mk[0], execute_only_on_last_extraction=r.random() < 0.5)
        p = {'patterns_kind': KIND(a['patterns_kind']), 'narrow_activities': NARROW(a['narrow_activities']), 'activity_level': U(a['activity_level']),
             'patterns_discovery_strategy': STRAT(a['strategy']), 'tandem_array_length': U(a['max_array_length']), 'adjusting_mode': ADJ(a['adjusting_mode']),
             'events_count': U(a['min_events_in_unattached_subtrace_count']), 'min_activity_length': U(a['min_events_in_activity_count']),
             'activity_in_trace_filter_kind': FILT(a['activity_filter_kind']), 'undef_activity_handling_strategy': UNDEF(a['undef_strategy']),
             'execute_only_on_last_extraction': B(a['execute_only_on_last_extraction'])}
        if a['event_class'] is not None:
            p['event_class_regex'] = S(a['event_class'])
        if mk:
            p['pipeline'] = mk[1]
        return self.default(api(G + 'activities_parts', 'DiscoverActivitiesUntilNoMore2')(**a), 'DiscoverActivitiesUntilNoMore', p)

    def k_nested_each(self, d):
        s, n = en(self.rng, dm('ActivitiesLogsSource')), num(self.rng)
        pl, w = self.pipe(d)
        return self.default(api(G + 'activities_parts', 'ExecuteWithEachActivityLog2')(s, n, pl), 'ExecuteWithEachActivityLog',
                            {'pipeline': w, 'activity_level': U(n), 'activities_logs_source': E('ActivitiesLogsSourceDto', s)})

    def k_apply(self, d):
        a, b = text(self.rng), text(self.rng)
        return self.default(api(G + 'activities_parts', 'ApplyClassExtractor2')(a, b), 'ApplyClassExtractor', {'event_class_regex': S(a), 'regex': S(b)})

    def k_under(self, d):
        return self.complex(api(G + 'activities_parts', 'PrintNumberOfUnderlyingEvents2')(), 'GetUnderlyingEventsCount', ['underlying_events_count'])

    def k_cluster(self, d):
        r = self.rng
        c, n = r.choice([('ClusterizeActivitiesFromTracesKMeans',) * 2, ('ClusterizeActivitiesFromTracesKMeansGridSearch',) * 2, ('ClusterizeActivitiesFromTracesDbscan',) * 2])
        a = dict(activity_level=num(r), tolerance=real(r), class_extractor=opt(r, text), activities_repr_source=en(r, dm('ActivitiesRepresentationSource')), distance=en(r, dm('Distance')))
        p = {'activity_level': U(a['activity_level']), 'tolerance': F(a['tolerance']), 'activities_repr_source': E('ActivityRepresentationSource', a['activities_repr_source']),
             'distance': E('FicusDistance', a['distance'])}
        if a['class_extractor'] is not None:
            p['event_class_regex'] = S(a['class_extractor'])
        if c.endswith('KMeans'):
            a['clusters_count'] = num(r)
            p['clusters_count'] = U(a['clusters_count'])
        if 'KMeans' in c:
            a['learning_iterations_count'] = num(r)
            p['learning_iterations_count'] = U(a['learning_iterations_count'])
        else:
            a['min_events_count_in_cluster'] = num(r)
            p['min_events_in_cluster_count'] = U(a['min_events_count_in_cluster'])
        return self.complex(api(G + 'activities_parts', c)(**a), n, ['labeled_traces_activities_dataset'], p)

    def k_vis(self, d):
        r = self.rng
        a = dict(activity_level=num(r), class_extractor=opt(r, text), activities_repr_source=en(r, dm('ActivitiesRepresentationSource')))
        p = {'activity_level': U(a['activity_level']), 'activities_repr_source': E('ActivityRepresentationSource', a['activities_repr_source'])}
        if a['class_extractor'] is not None:
            p['event_class_regex'] = S(a['class_extractor'])
        return self.complex(api(G + 'activities_parts', 'VisualizeTracesActivities2')(**a), 'CreateTracesActivitiesDataset', ['traces_activities_dataset'], p)

    def k_nested_traces(self, d):
        r = self.rng
        pl, w = self.pipe(d)
        a = dict(min_events_count_in_cluster=num(r), tolerance=real(r), distance=en(r, dm('Distance')), traces_repr_source=en(r, dm('TracesRepresentationSource')), class_extractor=opt(r, text))
        p = {'tolerance': F(a['tolerance']), 'distance': E('FicusDistance', a['distance']), 'traces_repr_source': E('TracesRepresentationSource', a['traces_repr_source']),
             'min_events_in_cluster_count': U(a['min_events_count_in_cluster']), 'pipeline': w}
        if a['class_extractor'] is not None:
            p['event_class_regex'] = S(a['class_extractor'])
        return self.complex(api(G + 'activities_parts', 'ClusterizeLogTracesDbscan')(pl, **a), 'ClusterizeLogTraces', ['labeled_log_traces_dataset'], p)

    # discovery
    def k_heur(self, d):
        r = self.rng
        a = dict(dependency_threshold=real(r), positive_observations_threshold=num(r), relative_to_best_threshold=real(r), and_threshold=real(r), loop_length_two_threshold=real(r))
        return self.default(api(G + 'discovery_parts', 'DiscoverPetriNetHeuristic2')(**a), 'DiscoverPetriNetHeuristic',
                            {k: (U if k == 'positive_observations_threshold' else F)(v) for k, v in a.items()})

    def k_fuzzy(self, d):
        r = self.rng
        ks = ['unary_frequency_threshold', 'binary_significance_threshold', 'preserve_threshold', 'ratio_threshold', 'utility_rate', 'edge_cutoff_threshold', 'node_cutoff_threshold']
        a = {k: real(r) for k in ks}
        p = {k: F(v) for k, v in a.items()}
        p['binary_frequency_significance_threshold'] = p.pop('binary_significance_threshold')
        return self.default(api(G + 'discovery_parts', 'DiscoverFuzzyGraph')(**a), 'DiscoverFuzzyGraph', p)

    def k_pnml(self, d):
        a, b = text(self.rng), self.rng.random() < 0.5
        return self.default(api(G + 'discovery_parts', 'SerializePetriNetToPNML2')(a, b), 'SerializePetriNet', {'path': S(a), 'pnml_use_names_as_ids': B(b)})

    def k_viewnet(self, d):
        return self.simple(api(G + 'discovery_parts', 'ViewPetriNet2')(), 'petri_net')

    def k_viewgraph(self, d):
        return self.simple(api(G + 'discovery_parts', 'ViewGraph2')(), 'graph')

    def k_viewdfg(self, d):
        return self.complex(api(G + 'discovery_parts', 'ViewDirectlyFollowsGraph2')(), 'DiscoverDirectlyFollowsGraph', ['graph'])

    def k_annotate(self, d):
        c, n, k = self.rng.choice([('AnnotatePetriNetWithCount2', 'AnnotatePetriNetWithCount', 'petri_net_count_annotation'),
                                   ('AnnotatePetriNetWithFrequency2', 'AnnotatePetriNetWithFrequency', 'petri_net_frequency_annotation'),
                                   ('AnnotatePetriNetWithTraceFrequency2', 'AnnotatePetriNetWithTraceFrequency', 'petri_net_trace_frequency_annotation')])
        t = self.rng.random() < 0.5
        return self.complex(api(G + 'discovery_parts', c)(t), n, ['petri_net', k], {'terminate_on_unreplayable_traces': B(t)})

    # drawing
    def k_draw(self, d):
        r = self.rng
        cv = r.choice(['', 'Canvas'])
        c, n, p = r.choice([('TracesDiversityDiagram2', 'TracesDiversityDiagram', None), ('DrawPlacementsOfEventByName2', 'DrawPlacementOfEventByName', 'event_name'),
                            ('DrawPlacementOfEventsByRegex2', 'DrawPlacementOfEventsByRegex', 'regex'), ('DrawFullActivitiesDiagram2', 'DrawFullActivitiesDiagram', None),
                            ('DrawShortActivitiesDiagram2', 'DrawShortActivitiesDiagram', None)])
        x = text(r)
        args = [x] if p else []
        return self.complex(api(G + 'drawing_parts', c + cv)(*args, title='t'), n, ['colors_event_log'], {p: S(x)} if p else {})

    # util
    def k_names(self, d):
        return self.complex(api(G + 'util_parts', 'PrintEventLog2')(), 'GetNamesEventLog', ['names_event_log'])

    def k_info(self, d):
        return self.complex(api(GP, 'PrintEventLogInfo2')(), 'GetEventLogInfo', ['event_log_info'])

    def k_nested_before(self, d):
        pl, w = self.pipe(d)
        part = api(G + 'util_parts', 'PrintEventlogInfoBeforeAfter')(pl)
        parts = []
        part.append_parts_with_callbacks(parts)
        mine = [x for x in parts if not any(x is y for y in self.cb)]
        self.cb += mine
        eq(len(mine), 2, 'callbacks of PrintEventlogInfoBeforeAfter besides those of the inner pipeline')
        inf = [('complex', 'GetEventLogInfo', {}, ['event_log_info'], str(x.uuid)) for x in mine]
        return self.default(part, 'ExecuteFrontendPipeline', {'pipeline': ('pipeline', [inf[0]] + w[1] + [inf[1]])})


def mk_kind(kind):
    def f(rng):
        g = Gen(rng)
        part, w = getattr(g, kind)(2)
        note['part'] = str(w)[:1500]
        got = wire(part.to_grpc_part())
        eq(got, w, 'wire form of %s' % type(part).__name__)
        eq(wire(part.to_grpc_part()), w, 'wire form of %s when asked again' % type(part).__name__)
        cbs = []
        part.append_parts_with_callbacks(cbs)
        eq(sorted(str(x.uuid) for x in cbs), sorted(str(x.uuid) for x in g.cb), 'parts with callbacks registered by %s' % type(part).__name__)
        nt()
    check('wire_' + kind[2:])(f)


for k in sorted(n for n in dir(Gen) if n.startswith('k_')):
    mk_kind(k)


@check()
def request_of_a_pipeline(rng):
    P = api(GP, 'Pipeline2')
    g = Gen(rng)
    items = [g.part(2) for _ in range(rng.randint(0, 5))]
    note['parts'] = str([w for _, w in items])[:1500]
    p = P(*[x for x, _ in items])
    eq([wire(x) for x in p.to_grpc_pipeline().parts], [w for _, w in items], 'request parts in order')
    cbs = []
    p.append_parts_with_callbacks(cbs)
    eq(sorted(str(x.uuid) for x in cbs), sorted(str(x.uuid) for x in g.cb), 'registered callbacks')
    us = [x.uuid for x in g.cb]
    eq(len(set(us)), len(us), 'identifiers are distinct')
    nt(len(items) > 1)


@check()
def rejects(rng):
    P = api(GP, 'Pipeline2')
    g = Gen(rng)
    good = [g.part(0)[0] for _ in range(rng.randint(0, 2))]
    bad = rng.choice([1, None, 'x', object(), P(), type(g.part(0)[0]), lambda: 1])
    note['bad'] = repr(bad)
    args = good + [bad]
    rng.shuffle(args)
    try:
        P(*args).to_grpc_pipeline()
    except TypeError:
        nt()
        return
    raise Violation('a pipeline with %r was encoded' % (bad,))


SRV = {}


def backend():
    """a real gRPC server on the loopback interface that records requests and plays back a script of results"""
    if 'err' in SRV:
        raise Skip(SRV['err'])
    if not SRV:
        try:
            import grpc
            from concurrent import futures
            pg = mod('grpc_pipelines.models.backend_service_pb2_grpc')
            from google.protobuf.empty_pb2 import Empty

            class S(pg.GrpcBackendServiceServicer):
                def ExecutePipeline(self, request, context):
                    SRV['requests'].append(request)
                    for r in SRV['script']:
                        yield r

                def DropExecutionResult(self, request, context):
                    SRV['dropped'].append(request.guid)
                    return Empty()

                def GetContextValue(self, request, context):
                    raise NotImplementedError()
            s = grpc.server(futures.ThreadPoolExecutor(max_workers=2))
            pg.add_GrpcBackendServiceServicer_to_server(S(), s)
            port = s.add_insecure_port('127.0.0.1:0')
            if not port:
                raise OSError('no port')
            s.start()
            SRV.update(server=s, addr='127.0.0.1:%d' % port)
            atexit.register(lambda: s.stop(0))
        except Exception as e:
            SRV['err'] = 'no loopback gRPC server: %r' % (e,)
            raise Skip(SRV['err'])
    SRV.update(requests=[], script=[], dropped=[])
    return SRV


@check(limit=20, terminates=False)
def execute(rng):
    P = api(GP, 'Pipeline2')
    be = mod('grpc_pipelines.models.backend_service_pb2')
    srv = backend()
    g = Gen(rng)
    items = [g.part(2) for _ in range(rng.randint(0, 4))]
    calls = []
    for x in g.cb:
        x.execute_callback = (lambda values, x=x: calls.append((str(x.uuid), dict(values))))
    known = [str(x.uuid) for x in g.cb]
    script, exp = [], []

    def part_result(u, vals):
        r = be.GrpcPipelinePartExecutionResult()
        r.pipelinePartResult.uuid.uuid = u
        for k, v in vals.items():
            c = r.pipelinePartResult.contextValues.add(key_name=k)
            c.value.string = v
        return r
    for _ in range(rng.randint(0, 6)):
        k = rng.random()
        vals = {'k%d' % i: text(rng) for i in range(rng.randint(0, 3))}
        if k < 0.5 and known:
            u = rng.choice(known)
            script.append(part_result(u, vals))
            exp.append((u, vals))
        elif k < 0.75:
            script.append(part_result(str(uuidlib.UUID(int=rng.getrandbits(128))), vals))
        else:
            r = be.GrpcPipelinePartExecutionResult()
            r.logMessage.message = text(rng)
            script.append(r)
    fin = be.GrpcPipelinePartExecutionResult()
    ok = rng.random() < 0.7
    if ok:
        fin.finalResult.success.guid = 'guid-%d' % rng.randint(0, 99)
    else:
        fin.finalResult.error = rng.choice(['boom', ''])
        if not fin.finalResult.error:
            fin.finalResult.error = 'e'
    script.append(fin)
    after = rng.random() < 0.4
    if after and known:
        script.append(part_result(rng.choice(known), {'late': '1'}))
        l = be.GrpcPipelinePartExecutionResult()
        l.finalResult.success.guid = 'late'
        script.append(l)
    srv['script'] = script
    cv = mod('grpc_pipelines.context_values')
    c = {}
    if rng.random() < 0.7:
        c['path'] = cv.StringContextValue(text(rng))
    if rng.random() < 0.5:
        c['n'] = cv.Uint32ContextValue(num(rng))
    want = {k: ('string' if k == 'path' else 'uint32', v.value) for k, v in c.items()}
    c['backend'] = srv['addr']
    c0 = dict(c)
    note.update(parts=str([w[1] for _, w in items]), results=len(script), success=ok)
    r = P(*[x for x, _ in items]).execute(c)
    eq(len(srv['requests']), 1, 'number of requests')
    q = srv['requests'][0]
    eq([wire(x) for x in q.pipeline.parts], [w for _, w in items], 'parts of the request')
    eq(len(q.initialContext), len(want), 'number of initial values')
    eq({kv.key.name: val(kv.value) for kv in q.initialContext}, want, 'initial context of the request')
    eq([(u, {k: v.string for k, v in vs.items()}) for u, vs in calls], exp, 'callbacks with their values, in order')
    eq(r, fin, 'returned result')
    eq(list(srv['dropped']), [fin.finalResult.success.guid] if ok else [], 'executions dropped on the backend')
    eq(c, c0, 'the context given')
    nt(exp)


@check(limit=20, terminates=False)
def raising_context_values(rng):
    """anything that is not a part is rejected before anything is sent"""
    P = api(GP, 'Pipeline2')
    srv = backend()
    g = Gen(rng)
    try:
        P(g.part(0)[0], 1).execute({'backend': srv['addr']})
    except TypeError:
        eq(len(srv['requests']), 0, 'requests sent')
        nt()
        return
    raise Violation('a pipeline with a non-part was executed')


@check()
def printing_callbacks(rng):
    """callbacks of the printing parts print exactly the delivered values"""
    import io, contextlib
    pbm = mod('grpc_pipelines.models.pipelines_and_context_pb2')

    def out(part, vals):
        b = io.StringIO()
        with contextlib.redirect_stdout(b):
            part.execute_callback(vals)
        return b.getvalue()
    n = num(rng)
    expect(str(n) in out(api(G + 'activities_parts', 'PrintNumberOfUnderlyingEvents2')(), {'underlying_events_count': pbm.GrpcContextValue(uint32=n)}), 'the number of underlying events is printed')
    log = [[text(rng) for _ in range(rng.randint(0, 3))] for _ in range(rng.randint(0, 3))]
    v = mod('grpc_pipelines.context_values').NamesLogContextValue(log).to_grpc_context_value()
    eq(out(api(G + 'util_parts', 'PrintEventLog2')(), {'names_event_log': v}), ''.join(str(t) + '\n' for t in log), 'printed log')
    a, b, c = 1000001 + num(rng) % 1000, 2000001, 3000001
    s = out(api(GP, 'PrintEventLogInfo2')(), {'event_log_info': pbm.GrpcContextValue(event_log_info=pbm.GrpcEventLogInfo(events_count=a, traces_count=b, event_classes_count=c))})
    expect(all(str(x) in s for x in (a, b, c)), 'the log info is printed: %r' % s)
    nt()


@check()
def drawing_callbacks(rng):
    """callbacks of the drawing parts hand the decoded values and the configured options to the drawing function"""
    m = mod(GP)
    dp = mod('grpc_pipelines.discovery_parts')
    pbm = mod('grpc_pipelines.models.pipelines_and_context_pb2')
    got = []
    saved = []

    def patch(mm, n):
        if hasattr(mm, n):
            saved.append((mm, n, getattr(mm, n)))
            setattr(mm, n, lambda *a, **k: got.append((n, a, k)))
    try:
        patch(m, 'draw_colors_event_log')
        patch(m, 'draw_colors_event_log_canvas')
        patch(dp, 'draw_petri_net')
        patch(dp, 'draw_graph')
        if len(saved) < 4:
            raise Skip('drawing functions are imported elsewhere')
        cl = pbm.GrpcColorsEventLog()
        exp = [[(i, rng.randint(0, 9), text(rng)) for i in range(rng.randint(0, 3))] for _ in range(rng.randint(0, 3))]
        for t in exp:
            tr = cl.traces.add()
            for s, l, n in t:
                tr.event_colors.add(start_index=s, length=l, name=n)
        cv = rng.random() < 0.5
        c = rng.choice(['TracesDiversityDiagram2', 'DrawFullActivitiesDiagram2', 'DrawShortActivitiesDiagram2']) + ('Canvas' if cv else '')
        a = dict(title=opt(rng, text), save_path=opt(rng, text), plot_legend=rng.random() < 0.5, height_scale=rng.randint(1, 5), width_scale=rng.randint(6, 9))
        api(G + 'drawing_parts', c)(**a).execute_callback({'colors_event_log': pbm.GrpcContextValue(colors_log=cl)})
        eq([x[0] for x in got], ['draw_colors_event_log_canvas' if cv else 'draw_colors_event_log'], 'drawing function of %s' % c)
        n, pa, ka = got[0]
        eq([[(r.start_pos, r.length, r.name) for r in t] for t in pa[0]], exp, 'drawn log')
        if len(pa) == 1:
            eq(ka, a, 'options of %s' % c)
        got.clear()
        gr = pbm.GrpcGraph()
        gr.nodes.add(id=7, data='x')
        gr.edges.add(from_node=7, to_node=7, data='y')
        a = dict(name=text(rng), background_color=text(rng), engine=text(rng), export_path=opt(rng, text), rankdir=text(rng))
        c = rng.choice(['ViewGraph2', 'ViewDirectlyFollowsGraph2'])
        api(G + 'discovery_parts', c)(**a).execute_callback({'graph': pbm.GrpcContextValue(graph=gr)})
        eq([x[0] for x in got], ['draw_graph'], 'drawing function of %s' % c)
        n, pa, ka = got[0]
        eq([(x.id, x.data) for x in pa[0].nodes] + [(x.from_node, x.to_node, x.data) for x in pa[0].edges], [(7, 'x'), (7, 7, 'y')], 'drawn graph')
        if len(pa) == 1:
            eq(ka, a, 'options of %s' % c)
        got.clear()
        v = pbm.GrpcContextValue()
        v.petriNet.places.add(id=3, name='p')
        ann, k = pbm.GrpcContextValue(), None
        c, k, fld = rng.choice([('AnnotatePetriNetWithCount2', 'petri_net_count_annotation', 'count_annotation'), ('AnnotatePetriNetWithFrequency2', 'petri_net_frequency_annotation', 'frequency_annotation'),
                                ('AnnotatePetriNetWithTraceFrequency2', 'petri_net_trace_frequency_annotation', 'frequency_annotation')])
        x = getattr(ann, fld).annotations.add(entityId=5)
        if fld == 'count_annotation':
            x.count = 9
            e = {5: '9'}
        else:
            x.frequency = 0.25
            e = {5: '0.25'}
        a = dict(show_places_names=rng.random() < 0.5, name=text(rng), background_color=text(rng), engine=text(rng), export_path=opt(rng, text), rankdir=text(rng))
        api(G + 'discovery_parts', c)(**a).execute_callback({'petri_net': v, k: ann})
        n, pa, ka = got[0]
        eq([(p.id, p.name) for p in pa[0].places.values()], [(3, 'p')], 'drawn net')
        if len(pa) == 1:
            a['annotation'] = e
            eq(ka, a, 'options of %s' % c)
        nt()
    finally:
        for mm, n, f in saved:
            setattr(mm, n, f)
