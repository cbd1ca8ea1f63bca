from base import *

CV = 'grpc_pipelines.context_values'
PB = 'grpc_pipelines.models.pipelines_and_context_pb2'
PM = 'grpc_pipelines.models.pm_models_pb2'
GP = 'grpc_pipelines.grpc_pipelines'

TEXTS = ['', 'a', 'A', 'Register request', '\u017elu\u0165', ' ', 'a,b;c', 'True', '0', 'x' * 300]


def pb(name):
    return api(PB, name)


def pm(name):
    return api(PM, name)


def only(v, field, what):
    """v is a context value carrying exactly this field"""
    expect(type(v).__name__ == 'GrpcContextValue', '%s: the wire form is a %s' % (what, type(v).__name__))
    eq([f.name for f, _ in v.ListFields()], [field], '%s: fields of the wire form' % what)
    eq(v.WhichOneof('contextValue'), field, '%s: which field' % what)
    back = type(v).FromString(v.SerializeToString())
    return getattr(back, field)


@check()
def scalars(rng):
    t = rng.choice(TEXTS)
    note['value'] = t
    eq(only(api(CV, 'StringContextValue')(t).to_grpc_context_value(), 'string', 'text %r' % t), t, 'text on the wire')
    b = rng.random() < 0.5
    eq(only(api(CV, 'BoolContextValue')(b).to_grpc_context_value(), 'bool', 'boolean'), b, 'boolean on the wire')
    u = rng.choice([0, 1, 2, 7, 255, 256, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, rng.randint(0, 2 ** 32 - 1)])
    note['value'] = u
    eq(only(api(CV, 'Uint32ContextValue')(u).to_grpc_context_value(), 'uint32', 'integer %d' % u), u, 'integer on the wire')
    x = rng.choice([0.0, 1.0, -1.0, 0.5, 0.25, 1e-5, 1e10, rng.uniform(-1, 1), rng.uniform(-1e6, 1e6)])
    import struct
    x32 = struct.unpack('f', struct.pack('f', x))[0]
    note['value'] = x
    eq(only(api(CV, 'FloatContextValue')(x).to_grpc_context_value(), 'float', 'real %r' % x), x32, 'real on the wire (single precision)')
    e, v = rng.choice(TEXTS[1:]), rng.choice(TEXTS)
    r = only(api(CV, 'EnumContextValue')(e, v).to_grpc_context_value(), 'enum', 'enum')
    eq((r.enumType, r.value), (e, v), 'enum on the wire')
    l = [rng.choice(TEXTS) for _ in range(rng.randint(0, 5))]
    note['value'] = l
    l0 = list(l)
    eq(list(only(api(CV, 'StringsContextValue')(l).to_grpc_context_value(), 'strings', 'texts').strings), l0, 'texts on the wire')
    eq(l, l0, 'the list given')
    nt()


@check()
def logs(rng):
    f = api(CV, 'from_grpc_names_log')
    n = [[rng.choice(TEXTS) for _ in range(rng.randint(0, 5))] for _ in range(rng.randint(0, 4))]
    note['log'] = n
    n0 = [list(t) for t in n]
    r = only(api(CV, 'NamesLogContextValue')(n).to_grpc_context_value(), 'names_log', 'names log')
    eq([list(t.events) for t in r.log.traces], n0, 'names log on the wire')
    eq(f(r), n0, 'names log decoded again')
    eq(n, n0, 'the log given')
    h = [[rng.choice([0, 1, 2 ** 31, 2 ** 32, 2 ** 63, 2 ** 64 - 1, rng.randint(0, 2 ** 64 - 1)]) for _ in range(rng.randint(0, 5))] for _ in range(rng.randint(0, 4))]
    note['log'] = h
    r = only(api(CV, 'HashesLogContextValue')([list(t) for t in h]).to_grpc_context_value(), 'hashes_log', 'hashes log')
    eq([list(t.events) for t in r.log.traces], h, 'hashes log on the wire')
    nt(any(n0) and any(h))


@check()
def log_info(rng):
    f, I = api(CV, 'from_grpc_event_log_info'), api(CV, 'EventLogInfo')
    a, b, c = [rng.randint(0, 2 ** 32 - 1) for _ in range(3)]
    note['value'] = (a, b, c)
    r = f(pb('GrpcEventLogInfo')(events_count=a, traces_count=b, event_classes_count=c))
    eq((r.events_count, r.traces_count, r.event_classes_count), (a, b, c), 'decoded log info')
    i = I(events_count=a, event_classes_count=c, traces_count=b)
    w = only(i.to_grpc_context_value(), 'event_log_info', 'log info')
    eq((w.events_count, w.traces_count, w.event_classes_count), (a, b, c), 'encoded log info')
    eq(f(w), i, 'log info decoded again')
    nt()


@check()
def colors_log(rng):
    f = api(CV, 'from_grpc_colors_log')
    exp = [[(rng.randint(0, 255), rng.randint(0, 255), rng.randint(0, 255), rng.randint(0, 2 ** 31), rng.randint(0, 50), rng.choice(TEXTS)) for _ in range(rng.randint(0, 4))] for _ in range(rng.randint(0, 4))]
    note['log'] = exp
    m = pb('GrpcColorsEventLog')()
    for t in exp:
        tr = m.traces.add()
        for r, g, b, s, l, n in t:
            x = tr.event_colors.add(start_index=s, length=l, name=n)
            x.color.red, x.color.green, x.color.blue = r, g, b
    got = f(m)
    eq([[(x.color.red, x.color.green, x.color.blue, x.start_pos, x.length, x.name) for x in t] for t in got], exp, 'decoded colours log')
    nt(any(exp))


def rand_id(rng):
    return rng.choice([0, 1, 2, 3, 5, -1, 2 ** 40, 2 ** 62, rng.randint(-2 ** 62, 2 ** 62)])


@check()
def petri_net(rng):
    f = api(CV, 'from_grpc_petri_net')
    m = pm('GrpcPetriNet')()
    pids = sorted({rand_id(rng) for _ in range(rng.randint(0, 5))}, key=lambda _: rng.random())
    places = [(i, rng.choice(TEXTS)) for i in pids]
    for i, n in places:
        m.places.add(id=i, name=n)
    tids = sorted({rand_id(rng) for _ in range(rng.randint(0, 4))}, key=lambda _: rng.random())
    trs = []
    for i in tids:
        t = m.transitions.add(id=i, data=rng.choice(TEXTS))
        arcs = [[(rand_id(rng), rand_id(rng), rand_id(rng)) for _ in range(rng.randint(0, 3))] for _ in range(2)]
        for a in arcs[0]:
            t.incomingArcs.add(id=a[0], placeId=a[1], tokens_count=a[2])
        for a in arcs[1]:
            t.outgoingArcs.add(id=a[0], placeId=a[1], tokens_count=a[2])
        trs.append((i, t.data, arcs[0], arcs[1]))
    marks = []
    for fld in ('initial_marking', 'final_marking'):
        if rng.random() < 0.7:
            l = [(rand_id(rng), rand_id(rng)) for _ in range(rng.randint(0, 3))]
            getattr(m, fld).SetInParent()
            for p, c in l:
                getattr(m, fld).markings.add(placeId=p, tokensCount=c)
            marks.append(l)
        else:
            marks.append([])
    note.update(places=places, transitions=trs, markings=marks)
    n = f(m)
    eq([(k, p.id, p.name) for k, p in n.places.items()], [(i, i, x) for i, x in places], 'places')
    ar = lambda l: [(a.id, a.place_id, a.tokens_count) for a in l]
    eq([(k, t.id, t.data, ar(t.incoming_arcs), ar(t.outgoing_arcs)) for k, t in n.transitions.items()], [(i, i, d, a, b) for i, d, a, b in trs], 'transitions')
    mk = lambda x: [] if x is None else [(s.place_id, s.tokens_count) for s in x.markings]
    eq([mk(n.initial_marking), mk(n.final_marking)], marks, 'initial and final markings')
    nt(trs and places)


@check()
def annotations(rng):
    c, f = api(CV, 'from_grpc_count_annotation'), api(CV, 'from_grpc_frequency_annotation')
    ids = sorted({rand_id(rng) for _ in range(rng.randint(0, 5))}, key=lambda _: rng.random())
    m1, m2 = pm('GrpcCountAnnotation')(), pm('GrpcFrequenciesAnnotation')()
    e1, e2 = {}, {}
    for i in ids:
        n = rand_id(rng)
        m1.annotations.add(entityId=i, count=n)
        e1[i] = str(n)
        a = m2.annotations.add(entityId=i, frequency=rng.choice([0.0, 0.5, 1.0, rng.random()]))
        e2[i] = str(a.frequency)
    note.update(count=e1, frequency=e2)
    eq(dict(c(m1)), e1, 'count annotation')
    eq(dict(f(m2)), e2, 'frequency annotation')
    nt(ids)


def mk_dataset(rng, m):
    r, c = rng.randint(0, 4), rng.randint(0, 4)
    rows = [[float(rng.randint(-50, 50)) / 4 for _ in range(c)] for _ in range(r)]
    cols = ['col%d' % i for i in range(c)]
    rng.shuffle(cols)
    idx = ['row%d' % i for i in range(r)]
    rng.shuffle(idx)
    for row in rows:
        m.matrix.rows.add(values=row)
    m.columnsNames.extend(cols)
    m.rowNames.extend(idx)
    note.update(rows=rows, columns=cols, index=idx)
    return rows, cols, idx


@check()
def datasets(rng):
    f, g = api(CV, 'from_grpc_ficus_dataset'), api(CV, 'from_grpc_labeled_dataset')
    m = pm('GrpcDataset')()
    rows, cols, idx = mk_dataset(rng, m)
    df = f(m)
    eq((list(df.columns), list(df.index)), (cols, idx), 'columns and rows of the dataset')
    eq(df.values.tolist() if rows else [], rows, 'values of the dataset')
    m = pm('GrpcLabeledDataset')()
    rows, cols, idx = mk_dataset(rng, m.dataset)
    labels = [rng.randint(-3, 3) for _ in rows]
    m.labels.extend(labels)
    note['labels'] = labels
    df = g(m)
    eq((list(df.columns), list(df.index)), (cols + ['cluster_labels'], idx), 'columns and rows of the labelled dataset')
    eq([[float(x) for x in df.iloc[i, :len(cols)]] for i in range(len(rows))], rows, 'values of the labelled dataset')
    eq([int(x) for x in df['cluster_labels']], labels, 'labels')
    nt(rows and cols)


@check()
def graphs(rng):
    f = api(CV, 'from_grpc_graph')
    m = pb('GrpcGraph')()
    ns = [(rng.choice([0, 1, 2, 2 ** 63, 2 ** 64 - 1]), rng.choice(TEXTS)) for _ in range(rng.randint(0, 4))]
    es = [(rng.randint(0, 5), rng.randint(0, 2 ** 64 - 1), rng.choice(TEXTS)) for _ in range(rng.randint(0, 4))]
    for i, d in ns:
        m.nodes.add(id=i, data=d)
    for a, b, d in es:
        m.edges.add(from_node=a, to_node=b, data=d)
    note.update(nodes=ns, edges=es)
    g = f(m)
    eq([(n.id, n.data) for n in g.nodes], ns, 'nodes')
    eq([(e.from_node, e.to_node, e.data) for e in g.edges], es, 'edges')
    nt(ns and es)


@check()
def pipelines(rng):
    P, V = api(GP, 'Pipeline2'), api(GP, 'PipelineContextValue')
    mods = [('grpc_pipelines.filtering_parts', 'FilterEventsByName2'), ('grpc_pipelines.filtering_parts', 'FilterEventsByRegex2')]
    parts, exp = [], []
    for _ in range(rng.randint(0, 4)):
        m, c = rng.choice(mods)
        x = rng.choice(TEXTS)
        parts.append(api(m, c)(x))
        exp.append((c[:-1], x))
    note['parts'] = exp
    w = only(V(P(*parts)).to_grpc_context_value(), 'pipeline', 'pipeline')
    eq([(p.defaultPart.name, p.defaultPart.configuration.configurationParameters[0].value.string) for p in w.parts], exp, 'pipeline on the wire')
    nt(len(exp) > 1)
