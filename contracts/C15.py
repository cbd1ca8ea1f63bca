from contracts.common import *

P = 'C15'
G = 'ficus.grpc_pipelines.'
CV = G + 'context_values:'
PB = G + 'models.pipelines_and_context_pb2:'
PM = G + 'models.pm_models_pb2:'
I = z3.IntSort()


def messages(v, *roots):
    """declare the message types (and those they contain) with exactly the fields of the descriptor"""
    for m in ('pipelines_and_context_pb2', 'pm_models_pb2', 'util_pb2', 'backend_service_pb2'):
        v.eng.repo.module(G + 'models.' + m)

    def ty(f):
        t = {'str': STR, 'int': INT, 'real': REAL, 'bool': BOOL}.get(f.kind) or declare(f.msg)
        return TList(t) if f.repeated else t

    def declare(n):
        if n not in v.types.obj:
            v.types.obj[n] = [(f.name, ty(f)) for f in v.eng.repo.messages[n]]
            for m in ('pipelines_and_context_pb2', 'pm_models_pb2', 'util_pb2', 'backend_service_pb2'):
                if n in v.eng.repo.module(G + 'models.' + m).names:
                    v.klass(G + 'models.' + m + ':' + n)
        return TObj(n)
    return [declare(r) for r in roots]


def message(v, st, m, cls):
    """{field: Value} of the fields set in a message built by the code"""
    ok = isinstance(m, VPl) and isinstance(m.place, Root) and st.store[m.place.oid][0] == 'O' and st.store[m.place.oid][1] == cls
    v.prove(st, z3.BoolVal(ok), 'a %s is built' % cls)
    return dict(st.store[m.place.oid][2]) if ok else {}


def exactly(v, st, m, cls, **want):
    """the message has exactly these fields set, with these values"""
    got = message(v, st, m, cls)
    v.prove(st, z3.BoolVal(set(got) == set(want)), '%s has exactly the fields %s set' % (cls, ', '.join(want)))
    for k, x in want.items():
        if k in got:
            if callable(x):
                x(got[k])
            else:
                same_val(v, st, got[k], x, '%s.%s' % (cls, k))


@unit(P, 'scalars', *[CV + c + '.to_grpc_context_value' for c in ('StringContextValue', 'FloatContextValue', 'Uint32ContextValue', 'BoolContextValue', 'EnumContextValue', 'StringsContextValue', 'EventLogInfo')])
def u(v):
    """the wire form carries exactly the value under the field of its type"""
    for c, f, ty in (('String', 'string', STR), ('Float', 'float', REAL), ('Uint32', 'uint32', INT), ('Bool', 'bool', BOOL)):
        x, _ = v.param('value_' + c, ty)
        for s, r in v.returns(v.call(CV + c + 'ContextValue.to_grpc_context_value', [make(v, CV + c + 'ContextValue', x)])):
            exactly(v, s, r, 'GrpcContextValue', **{f: x})
    n, _ = v.param('enum_name', STR)
    x, _ = v.param('enum_value', STR)
    for s, r in v.returns(v.call(CV + 'EnumContextValue.to_grpc_context_value', [make(v, CV + 'EnumContextValue', n, x)])):
        exactly(v, s, r, 'GrpcContextValue', enum=lambda e: exactly(v, s, e, 'GrpcEnum', enumType=n, value=x))
    l, lt = v.param('texts', TList(STR))
    for s, r in v.returns(v.call(CV + 'StringsContextValue.to_grpc_context_value', [make(v, CV + 'StringsContextValue', l)])):
        exactly(v, s, r, 'GrpcContextValue', strings=lambda e: exactly(v, s, e, 'GrpcStrings', strings=lambda q: v.prove(s, v.eng.lower(s, q, TList(STR)) == lt, 'the texts in order')))
        v.prove(s, v.eng.lower(s, l, TList(STR)) == lt, 'frame: the list given is unchanged')
    a, b, c = (v.param(k, INT)[0] for k in ('events', 'traces', 'classes'))
    for s, r in v.returns(v.call(CV + 'EventLogInfo.to_grpc_context_value', [make(v, CV + 'EventLogInfo', events_count=a, event_classes_count=c, traces_count=b)])):
        exactly(v, s, r, 'GrpcContextValue', event_log_info=lambda e: exactly(v, s, e, 'GrpcEventLogInfo', events_count=a, traces_count=b, event_classes_count=c))


def image(v, name, a, b, f):
    """F(s, i): the images under f of the first i elements of s, in order"""
    A, B = S(v, TList(a)), S(v, TList(b))
    return SpecFn(name, [A, I], B, lambda s, i: z3.If(i <= 0, z3.Empty(B), z3.Concat(SPECS[name](s, i - 1), z3.Unit(f(s[i - 1])))))


def prefix(v, ty):
    """PREFIX(s, i): the first i elements of s"""
    from contracts.C01 import idlemma
    ID = image(v, 'PREFIX_' + v.types.name(ty), ty, ty, lambda x: x)
    idlemma(v, ID, S(v, TList(ty)))
    folds(v, ID)
    return ID


@unit(P, 'logs_to_wire', CV + 'HashesLogContextValue.to_grpc_context_value', CV + 'NamesLogContextValue.to_grpc_context_value')
def u(v):
    """one wire trace per trace and one entry per event, in order; the log given is unchanged"""
    for c, f, e, tn, ln, wn in (('Hashes', 'hashes_log', INT, 'GrpcHashesLogTrace', 'GrpcHashesEventLog', 'GrpcHashesEventLogContextValue'),
                                ('Names', 'names_log', STR, 'GrpcNamesTrace', 'GrpcNamesEventLog', 'GrpcNamesEventLogContextValue')):
        T, = messages(v, tn)
        l, lt = v.param('log_' + c, TList(TList(e)))
        prefix(v, e)
        W = image(v, 'WIRE_' + c, TList(e), T, S(v, T).mk)
        folds(v, W)
        for s, r in v.returns(v.call(CV + c + 'LogContextValue.to_grpc_context_value', [make(v, CV + c + 'LogContextValue', l)])):
            exactly(v, s, r, 'GrpcContextValue', **{f: lambda m: exactly(v, s, m, wn, log=lambda g: exactly(v, s, g, ln, traces=lambda q: v.prove(
                s, v.eng.lower(s, q, TList(T)) == W(lt, z3.Length(lt)), 'the traces in order, each with its events in order')))})
            v.prove(s, v.eng.lower(s, l, TList(TList(e))) == lt, 'frame: the log given is unchanged')


@unit(P, 'from_grpc_names_log', CV + 'from_grpc_names_log')
def u(v):
    """the traces in order with their names in order"""
    M, T = messages(v, 'GrpcNamesEventLogContextValue', 'GrpcNamesTrace')
    m, mt = v.param('grpc_names_log', M)
    ts = fld(v, 'GrpcNamesEventLog', 'traces', fld(v, M.a[0], 'log', mt))
    prefix(v, STR)
    LS = S(v, TList(TList(STR)))
    ev = lambda q: fld(v, 'GrpcNamesTrace', 'events', q)
    W = prefix_fold(v, 'NAMES', S(v, TList(T)), LS, z3.Empty(LS), lambda p, q: z3.Concat(p, z3.Unit(ev(q))))
    folds(v, W)
    for s, r in v.returns(v.call(CV + 'from_grpc_names_log', [m])):
        v.prove(s, v.eng.lower(s, r, TList(TList(STR))) == W(ts, z3.Length(ts)), 'the traces in order with their names in order')
        v.prove(s, v.eng.lower(s, m, M) == mt, 'frame: the message is unchanged')
    # decoding what NamesLogContextValue encodes (WIRE, see logs_to_wire) gives back the log
    lt = z3.Const('log!rt', LS)
    E = image(v, 'WIRE', TList(STR), T, S(v, T).mk)
    i = z3.Int('i!rt')
    e, x = z3.Const('e!rt', S(v, TList(T))), z3.Const('x!rt', S(v, TList(STR)))
    W1 = W(z3.Concat(e, z3.Unit(S(v, T).mk(x))), i)
    v.lemma('decoding one more trace', [i > 0, z3.Length(e) == i - 1], W1 == z3.Concat(W(e, i - 1), z3.Unit(x)), fuel=2)
    inst = z3.substitute(W1 == z3.Concat(W(e, i - 1), z3.Unit(x)), (e, E(lt, i - 1)), (x, lt[i - 1]))
    ok = lambda n: z3.And(z3.Length(E(lt, n)) == n, W(E(lt, n), n) == z3.Extract(lt, z3.IntVal(0), n))
    v.lemma('decoding the encoded log gives back the log (base)', [i == 0], ok(i), fuel=1)
    v.lemma('decoding the encoded log gives back the log (step)', [i > 0, i <= z3.Length(lt), ok(i - 1), inst], ok(i), fuel=1)


AN = L + 'analysis.event_log_analysis:'


@unit(P, 'from_grpc_colors_log', CV + 'from_grpc_colors_log', CV + 'from_grpc_colored_rectangle', CV + 'from_grpc_color')
def u(v):
    """one rectangle per wire rectangle, in order, with the same colour, start, length and name"""
    M, MT, MR, MC = messages(v, 'GrpcColorsEventLog', 'GrpcColorsTrace', 'GrpcColoredRectangle', 'GrpcColor')
    v.types.obj['Color'] = [(c, INT) for c in ('red', 'green', 'blue')]
    v.types.obj['ColoredRectangle'] = [('color', TObj('Color')), ('start_pos', INT), ('length', INT), ('name', STR)]
    v.klass(AN + 'Color'), v.klass(AN + 'ColoredRectangle')
    R = TObj('ColoredRectangle')
    m, mt = v.param('grpc_colors_log', M)

    def rect(x):
        c = fld(v, 'GrpcColoredRectangle', 'color', x)
        return S(v, R).mk(S(v, TObj('Color')).mk(*[fld(v, 'GrpcColor', k, c) for k in ('red', 'green', 'blue')]),
                          *[fld(v, 'GrpcColoredRectangle', k, x) for k in ('start_index', 'length', 'name')])
    RS = image(v, 'RECTS', MR, R, rect)
    ec = lambda q: fld(v, 'GrpcColorsTrace', 'event_colors', q)
    W = image(v, 'RECTLOG', MT, TList(R), lambda q: RS(ec(q), z3.Length(ec(q))))
    folds(v, RS, W)
    ts = fld(v, 'GrpcColorsEventLog', 'traces', mt)
    for s, r in v.returns(v.call(CV + 'from_grpc_colors_log', [m])):
        v.prove(s, v.eng.lower(s, r, TList(TList(R))) == W(ts, z3.Length(ts)), 'the rectangles of the traces in order')
        v.prove(s, v.eng.lower(s, m, M) == mt, 'frame: the message is unchanged')


@unit(P, 'from_grpc_event_log_info', CV + 'from_grpc_event_log_info')
def u(v):
    """every count under its own name"""
    M, = messages(v, 'GrpcEventLogInfo')
    m, mt = v.param('grpc_event_log_info', M)
    for s, r in v.returns(v.call(CV + 'from_grpc_event_log_info', [m])):
        for k in ('events_count', 'traces_count', 'event_classes_count'):
            v.prove(s, v.eng.lower(s, get(v, s, r, k), INT) == fld(v, 'GrpcEventLogInfo', k, mt), k)


GR = L + 'discovery.graph:'
PN = L + 'discovery.petri_net:'


@unit(P, 'from_grpc_graph', CV + 'from_grpc_graph')
def u(v):
    """the nodes and edges in order with their identifiers, ends and labels"""
    M, MN, ME = messages(v, 'GrpcGraph', 'GrpcGraphNode', 'GrpcGraphEdge')
    v.types.obj['Graph'] = [('nodes', TList(TObj('GraphNode'))), ('edges', TList(TObj('GraphEdge')))]
    v.types.obj['GraphNode'] = [('id', INT), ('data', TOpt(STR))]
    v.types.obj['GraphEdge'] = [('from_node', INT), ('to_node', INT), ('data', TOpt(STR))]
    for c in ('Graph', 'GraphNode', 'GraphEdge'):
        v.klass(GR + c)
    OS = S(v, TOpt(STR))
    m, mt = v.param('grpc_graph', M)
    F = {}
    for f, mc, oc, ks in (('nodes', MN, 'GraphNode', ('id', 'data')), ('edges', ME, 'GraphEdge', ('from_node', 'to_node', 'data'))):
        F[f] = image(v, 'G' + f, mc, TObj(oc), lambda x, mc=mc, oc=oc, ks=ks: S(v, TObj(oc)).mk(*[
            OS.some(fld(v, mc.a[0], k, x)) if k == 'data' else fld(v, mc.a[0], k, x) for k in ks]))
    folds(v, *F.values())
    for s, r in v.returns(v.call(CV + 'from_grpc_graph', [m])):
        for f in F:
            q = fld(v, 'GrpcGraph', f, mt)
            v.prove(s, fld(v, 'Graph', f, v.eng.lower(s, r, TObj('Graph'))) == F[f](q, z3.Length(q)), 'the %s in order, unchanged' % f)
        v.prove(s, v.eng.lower(s, m, M) == mt, 'frame: the message is unchanged')


@unit(P, 'from_grpc_petri_net', *[CV + f for f in ('from_grpc_petri_net', 'from_grpc_petri_net_place', 'from_grpc_transition', 'from_grpc_arc', 'try_from_grpc_marking', 'from_grpc_single_marking')])
def u(v):
    """places and transitions under their identifiers, arcs and markings in order, all numbers and labels unchanged"""
    M, MP, MT, MA, MM, MS = messages(v, 'GrpcPetriNet', 'GrpcPetriNetPlace', 'GrpcPetriNetTransition', 'GrpcPetriNetArc', 'GrpcPetriNetMarking', 'GrpcPetriNetSinglePlaceMarking')
    o = v.types.obj
    PL, TRN, ARC, MK, SM = (TObj(c) for c in ('Place', 'Transition', 'Arc', 'Marking', 'SinglePlaceMarking'))
    o['Place'] = [('id', INT), ('name', STR)]
    o['Arc'] = [('id', INT), ('place_id', INT), ('tokens_count', INT)]
    o['Transition'] = [('id', INT), ('incoming_arcs', TList(ARC)), ('outgoing_arcs', TList(ARC)), ('data', TOpt(STR))]
    o['SinglePlaceMarking'] = [('place_id', INT), ('tokens_count', INT)]
    o['Marking'] = [('markings', TList(SM))]
    o['PetriNet'] = [('places', TDict(INT, PL)), ('transitions', TDict(INT, TRN)), ('initial_marking', TOpt(MK)), ('final_marking', TOpt(MK))]
    for c in ('Place', 'Transition', 'Arc', 'Marking', 'SinglePlaceMarking', 'PetriNet'):
        v.klass(PN + c)
    m, mt = v.param('grpc_petri_net', M)
    arcs = image(v, 'ARCS', MA, ARC, lambda x: S(v, ARC).mk(*[fld(v, MA.a[0], k, x) for k in ('id', 'placeId', 'tokens_count')]))
    sms = image(v, 'MARKS', MS, SM, lambda x: S(v, SM).mk(fld(v, MS.a[0], 'placeId', x), fld(v, MS.a[0], 'tokensCount', x)))

    def alla(x, f):
        q = fld(v, MT.a[0], f, x)
        return arcs(q, z3.Length(q))
    place = lambda x: S(v, PL).mk(fld(v, MP.a[0], 'id', x), fld(v, MP.a[0], 'name', x))
    trans = lambda x: S(v, TRN).mk(fld(v, MT.a[0], 'id', x), alla(x, 'incomingArcs'), alla(x, 'outgoingArcs'), S(v, TOpt(STR)).some(fld(v, MT.a[0], 'data', x)))

    def table(name, mc, ty, f):
        D = TDict(INT, ty)
        return SpecFn(name, [S(v, TList(mc)), I], S(v, D), lambda s, i: z3.If(i <= 0, v.eng.empty_dict(D), v.eng.d_store(D, SPECS[name](s, i - 1), fld(v, mc.a[0], 'id', s[i - 1]), f(s[i - 1]))))
    PS, TS = table('PLACES', MP, PL, place), table('TRANSITIONS', MT, TRN, trans)
    folds(v, arcs, sms, PS, TS)

    def marking(f):
        q = fld(v, MM.a[0], 'markings', fld(v, M.a[0], f, mt))
        return S(v, TOpt(MK)).some(S(v, MK).mk(sms(q, z3.Length(q))))
    for s, r in v.returns(v.call(CV + 'from_grpc_petri_net', [m])):
        x = v.eng.lower(s, r, TObj('PetriNet'))
        for f, F in (('places', PS), ('transitions', TS)):
            q = fld(v, M.a[0], f, mt)
            v.prove(s, fld(v, 'PetriNet', f, x) == F(q, z3.Length(q)), 'the %s, each under its identifier' % f)
        for f in ('initial_marking', 'final_marking'):
            v.prove(s, fld(v, 'PetriNet', f, x) == marking(f), 'the places and token counts of the %s in order' % f)
        v.prove(s, v.eng.lower(s, m, M) == mt, 'frame: the message is unchanged')
    for s, r in v.returns(v.call(CV + 'try_from_grpc_marking', [VNone])):
        v.prove(s, z3.BoolVal(r is VNone), 'no marking stays none')


@unit(P, 'annotations', CV + 'from_grpc_count_annotation', CV + 'from_grpc_frequency_annotation')
def u(v):
    """every entity mapped to the text of its number"""
    for fn, mc, ac, k, ty in (('from_grpc_count_annotation', 'GrpcCountAnnotation', 'GrpcEntityCountAnnotation', 'count', INT),
                              ('from_grpc_frequency_annotation', 'GrpcFrequenciesAnnotation', 'GrpcEntityFrequencyAnnotation', 'frequency', REAL)):
        M, A = messages(v, mc, ac)
        D = TDict(INT, STR)
        m, mt = v.param('grpc_annotation_' + k, M)
        x, xt = v.param('number_' + k, ty)
        (s, t), = v.eng.call_builtin(v.st, 'str', [x], {}, None, None, None)
        tx = v.eng.lower(s, t, STR)
        text = lambda y, tx=tx, xt=xt: z3.substitute(tx, (xt, y))
        F = SpecFn('ANN_' + k, [S(v, TList(A)), I], S(v, D), lambda q, i, D=D, k=k, ac=ac, text=text: z3.If(i <= 0, v.eng.empty_dict(D), v.eng.d_store(
            D, SPECS['ANN_' + k](q, i - 1), fld(v, ac, 'entityId', q[i - 1]), text(fld(v, ac, k, q[i - 1])))))
        folds(v, F)
        q = fld(v, mc, 'annotations', mt)
        for s, r in v.returns(v.call(CV + fn, [m])):
            v.prove(s, v.eng.lower(s, r, D) == F(q, z3.Length(q)), 'every entity mapped to the text of its number')
            v.prove(s, v.eng.lower(s, m, M) == mt, 'frame: the message is unchanged')


@unit(P, 'datasets', CV + 'from_grpc_ficus_dataset', CV + 'from_grpc_labeled_dataset')
def u(v):
    """a table with the rows of values, the column names and the row names, in order; the labels as one more column"""
    from contracts.C06 import model
    M, ML, MR = messages(v, 'GrpcDataset', 'GrpcLabeledDataset', 'GrpcMatixRow')
    model(v, 'pandas.DataFrame', 'pd:DataFrame')
    V, LSt = TList(REAL), TList(STR)
    for t in (STR, REAL, INT):
        prefix(v, t)
    rows = image(v, 'ROWS', MR, V, lambda x: fld(v, 'GrpcMatixRow', 'values', x))
    folds(v, rows)
    m, mt = v.param('grpc_dataset', M)

    def table(s, r, mt):
        q = fld(v, 'GrpcMatrix', 'rows', fld(v, 'GrpcDataset', 'matrix', mt))
        v.prove(s, v.eng.lower(s, get(v, s, r, 'data'), TList(V)) == rows(q, z3.Length(q)), 'the rows of values in order')
        v.prove(s, v.eng.lower(s, get(v, s, r, 'columns'), LSt) == fld(v, 'GrpcDataset', 'columnsNames', mt), 'the column names in order')
        v.prove(s, v.eng.lower(s, get(v, s, r, 'index'), LSt) == fld(v, 'GrpcDataset', 'rowNames', mt), 'the row names in order')
    for s, r in v.returns(v.call(CV + 'from_grpc_ficus_dataset', [m])):
        table(s, r, mt)
        v.prove(s, z3.BoolVal(v.eng.dict_conc(s, get(v, s, r, 'added')) == ()), 'no other column')
        v.prove(s, v.eng.lower(s, m, M) == mt, 'frame: the message is unchanged')
    l, lt = v.param('grpc_labeled', ML)
    for s, r in v.returns(v.call(CV + 'from_grpc_labeled_dataset', [l])):
        table(s, r, fld(v, 'GrpcLabeledDataset', 'dataset', lt))
        added = v.eng.dict_conc(s, get(v, s, r, 'added'))
        v.prove(s, z3.BoolVal(added is not None and len(added) == 1), 'one column is added')
        for k, x in added or ():
            v.prove(s, k.t == const(v, s, 'const_cluster_labels').t, 'under the name of the labels')
            v.prove(s, v.eng.lower(s, x, TList(INT)) == fld(v, 'GrpcLabeledDataset', 'labels', lt), 'the labels in order')
        v.prove(s, v.eng.lower(s, l, ML) == lt, 'frame: the message is unchanged')


def const(v, st, name):
    k, m, x = v.eng.repo.resolve(G + 'constants', name)
    return v.eng.ev(x, st, v.eng.new_frame(st, None), m)[0][1]
