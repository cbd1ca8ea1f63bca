from contracts.common import *

P = 'C01'
MP = L + 'pipelines.mutations.mutations_parts:'
FP = L + 'pipelines.filtering.filter_parts:'
PUT = L + 'analysis.patterns.util:'
LC = 'lifecycle:transition'


def check_filter(v, outs, logv, lt, FLOG, get=lambda s, r: r):
    for s, r in v.returns(outs):
        res = traces(v, v.eng.lower(s, get(s, r), LOG))
        t = traces(v, lt)
        v.prove(s, res == FLOG(t, z3.Length(t)), 'result is exactly the non-empty filtered traces, same events, same order')
        frame_log(v, s, logv, lt)
        frame_heap(v, s)


@unit(P, 'filter_events', MUT + '_filter_events')
def u(v):
    """for every log and predicate: result == [filtered trace | non-empty], log and payloads unchanged"""
    log_schema(v)
    logv, lt = v.param('log', LOG)
    sel = uf('select_func', [EV], BOOL, v.types)
    FEV, FLOG = filter_specs(v, lambda e: sel.f(e))
    check_filter(v, v.call(MUT + '_filter_events', [logv, sel]), logv, lt, FLOG)


@unit(P, 'filter_log', MUT + 'filter_log')
def u(v):
    """filter_log keeps exactly the events the predicate rejects"""
    log_schema(v)
    logv, lt = v.param('log', LOG)
    sel = uf('predicate', [EV], BOOL, v.types)
    FEV, FLOG = filter_specs(v, lambda e: z3.Not(sel.f(e)))
    check_filter(v, v.call(MUT + 'filter_log', [logv, sel]), logv, lt, FLOG)


@unit(P, 'remove_event_from_log', MUT + 'remove_event_from_log')
def u(v):
    """keeps exactly the events whose name differs from the given one"""
    log_schema(v)
    logv, lt = v.param('log', LOG)
    all_named(v, lt)
    n, nt = v.param('event_name', STR)
    FEV, FLOG = filter_specs(v, lambda e: name_of(v, e) != nt)
    check_filter(v, v.call(MUT + 'remove_event_from_log', [logv, n]), logv, lt, FLOG)


@unit(P, 'remove_events_from_log', MUT + 'remove_events_from_log')
def u(v):
    """keeps exactly the events whose name is not in the given set"""
    log_schema(v)
    logv, lt = v.param('log', LOG)
    all_named(v, lt)
    n, nt = v.param('names', TSet(STR))
    FEV, FLOG = filter_specs(v, lambda e: z3.Not(z3.Select(nt, name_of(v, e))))
    check_filter(v, v.call(MUT + 'remove_events_from_log', [logv, n]), logv, lt, FLOG)
    # parts
    part = make(v, MP + 'RemoveEventsFromLogByNames', n)
    check_filter(v, v.call(MP + 'RemoveEventsFromLogByNames.execute', [part, part_result(v, log=logv)]), logv, lt, FLOG,
                 lambda s, r: values_of(v, s, r)['log'])


@unit(P, 'remove_by_name_parts', MP + 'RemoveEventFromLogByName.execute', MP + 'RemoveEventsFromLogPredicate.execute')
def u(v):
    """the pipeline parts return a context whose log is the filtered log"""
    log_schema(v)
    logv, lt = v.param('log', LOG)
    all_named(v, lt)
    n, nt = v.param('event_name', STR)
    FEV, FLOG = filter_specs(v, lambda e: name_of(v, e) != nt)
    get = lambda s, r: values_of(v, s, r)['log']
    part = make(v, MP + 'RemoveEventFromLogByName', n)
    check_filter(v, v.call(MP + 'RemoveEventFromLogByName.execute', [part, part_result(v, log=logv)]), logv, lt, FLOG, get)
    sel = uf('predicate', [EV], BOOL, v.types)
    FEV2, FLOG2 = filter_specs(v, lambda e: z3.Not(sel.f(e)), '2')
    part = make(v, MP + 'RemoveEventsFromLogPredicate', sel)
    check_filter(v, v.call(MP + 'RemoveEventsFromLogPredicate.execute', [part, part_result(v, log=logv)]), logv, lt, FLOG2, get)


def trace_filter_spec(v, keep, tag=''):
    ST = S(v, TList(TR))
    FT = SpecFn('FT' + tag, [ST, z3.IntSort()], ST, lambda l, i: z3.If(i <= 0, z3.Empty(ST), z3.If(
        keep(l[i - 1]), z3.Concat(FT(l, i - 1), z3.Unit(l[i - 1])), FT(l, i - 1))))
    v.fold_templates(FT)
    return FT


@unit(P, 'filter_traces', MUT + '_filter_traces', MUT + 'remove_empty_traces', FP + 'FilterTracesByCount.execute')
def u(v):
    """trace filters keep exactly the accepted traces, in order"""
    log_schema(v)
    logv, lt = v.param('log', LOG)
    sel = uf('select_trace', [TR], BOOL, v.types)
    FT = trace_filter_spec(v, lambda t: sel.f(t))
    check_filter(v, v.call(MUT + '_filter_traces', [logv, sel]), logv, lt, FT)
    m, mt = v.param('min_event_count', INT)
    FT2 = trace_filter_spec(v, lambda t: z3.Length(evs(v, t)) > mt, '2')
    check_filter(v, v.call(MUT + 'remove_empty_traces', [logv, m]), logv, lt, FT2)
    part = make(v, FP + 'FilterTracesByCount', m)
    check_filter(v, v.call(FP + 'FilterTracesByCount.execute', [part, part_result(v, log=logv)]), logv, lt, FT2,
                 lambda s, r: values_of(v, s, r)['log'])


def pay_store(v, d, key, anyval):
    return v.eng.d_store(PAY, d, v.eng.lit(key).t, anyval)


def check_edit(v, outs, logv, lt, HLOG, get=None):
    t = traces(v, lt)
    for s, r in v.returns(outs):
        v.prove(s, heap(s) == HLOG(v.H0, t, z3.Length(t)), 'exactly the addressed attribute of exactly the addressed events is edited')
        frame_log(v, s, logv, lt, 'trace structure')
        if get is not None:
            v.prove(s, v.eng.lower(s, get(s, r), LOG) == lt, 'the edited log itself is passed on')


def edit_frame_lemmas(v, HEV, HLOG, upd, lt):
    """ghost lemmas: events not in the log keep their payload; other keys of edited events keep their value"""
    e0 = z3.Const('e0', S(v, EV))
    k0 = z3.Const('k0', S(v, STR))
    h = z3.Const('h', v.H0.sort())
    s = z3.Const('s', S(v, TList(EV)))
    i = z3.Int('i')
    sp = S(v, PAY)
    v.lemma('an event outside the prefix keeps its payload (step)', [i > 0, HEV(h, s, i - 1)[e0] == h[e0], s[i - 1] != e0], HEV(h, s, i)[e0] == h[e0])
    v.lemma('an event outside the prefix keeps its payload (base)', [i <= 0], HEV(h, s, i)[e0] == h[e0])
    keep = lambda a, b: z3.And(z3.Select(sp.has(a), k0) == z3.Select(sp.has(b), k0),
                               z3.Implies(z3.Select(sp.has(b), k0), z3.Select(sp.val(a), k0) == z3.Select(sp.val(b), k0)))
    return e0, k0, h, s, i, keep


@unit(P, 'preprocess_event_names', MUT + 'preprocess_event_names_inplace', MP + 'PreprocessEventsNames.execute')
def u(v):
    """renaming sets exactly concept:name of each event of the log to name_mutator(old name)"""
    log_schema(v)
    logv, lt = v.param('log', LOG)
    all_named(v, lt)
    mut = uf('name_mutator', [STR], STR, v.types)
    upd = lambda h, e: pay_store(v, z3.Select(h, e), CN, v.eng.to_any(mut.f(name_of(v, e, h)), STR))
    HEV, HLOG = edit_specs(v, upd)
    check_edit(v, v.call(MUT + 'preprocess_event_names_inplace', [logv, mut]), logv, lt, HLOG)
    part = make(v, MP + 'PreprocessEventsNames', mut)
    check_edit(v, v.call(MP + 'PreprocessEventsNames.execute', [part, part_result(v, log=logv)]), logv, lt, HLOG,
               lambda s, r: values_of(v, s, r)['log'])
    e0, k0, h, s, i, keep = edit_frame_lemmas(v, HEV, HLOG, upd, lt)
    v.lemma('only concept:name is edited (step)', [i > 0, k0 != v.eng.lit(CN).t, keep(HEV(h, s, i - 1)[e0], h[e0])], keep(HEV(h, s, i)[e0], h[e0]))


@unit(P, 'preprocess_events', MUT + 'preprocess_events', MP + 'PreprocessEvents.execute')
def u(v):
    """the mutator is applied once to each event of each trace in order and nothing else changes"""
    log_schema(v)
    logv, lt = v.param('log', LOG)
    f = z3.Function('event_mutator', S(v, EV), S(v, PAY), S(v, PAY))

    def call(eng, st, a, kw):
        e = eng.lower(st, a[0], EV)
        k = ('MyEvent', 'payload')
        st.heap[k] = z3.Store(st.heap[k], e, f(e, z3.Select(st.heap[k], e)))
        eng.log(('heap',) + k)
        return [(st, VNone)]
    HEV, HLOG = edit_specs(v, lambda h, e: f(e, z3.Select(h, e)))
    mut = VPy(call, 'event_mutator')
    check_edit(v, v.call(MUT + 'preprocess_events', [logv, mut]), logv, lt, HLOG)
    part = make(v, MP + 'PreprocessEvents', mut)
    check_edit(v, v.call(MP + 'PreprocessEvents.execute', [part, part_result(v, log=logv)]), logv, lt, HLOG,
               lambda s, r: values_of(v, s, r)['log'])


@unit(P, 'apply_class_extractor', MP + 'ApplyClassExtractor.execute')
def u(v):
    """exactly the selected events get concept:name = class_extractor(event); others are untouched"""
    log_schema(v)
    logv, lt = v.param('log', LOG)
    ext = z3.Function('class_extractor', S(v, EV), S(v, PAY), S(v, STR))
    sel = z3.Function('event_selector', S(v, EV), S(v, PAY), z3.BoolSort())
    fe = VPy(lambda eng, st, a, kw: [(st, Z(ext(eng.lower(st, a[0], EV), z3.Select(heap(st), eng.lower(st, a[0], EV))), STR))])
    fs = VPy(lambda eng, st, a, kw: [(st, Z(sel(eng.lower(st, a[0], EV), z3.Select(heap(st), eng.lower(st, a[0], EV))), BOOL))])

    def upd(h, e):
        p = z3.Select(h, e)
        return z3.If(sel(e, p), pay_store(v, p, CN, v.eng.to_any(ext(e, p), STR)), p)
    HEV, HLOG = edit_specs(v, upd)
    part = make(v, MP + 'ApplyClassExtractor', fe, fs)
    check_edit(v, v.call(MP + 'ApplyClassExtractor.execute', [part, part_result(v, log=logv)]), logv, lt, HLOG,
               lambda s, r: values_of(v, s, r)['log'])


@unit(P, 'remove_lifecycle', MUT + 'remove_lifecycle_attribute', MP + 'RemoveLifecycleTransitionsAttributes.execute')
def u(v):
    """exactly the lifecycle attribute of each event is dropped"""
    log_schema(v)
    logv, lt = v.param('log', LOG)
    sp = S(v, PAY)

    def upd(h, e):
        p = z3.Select(h, e)
        k = v.eng.lit(LC).t
        ks = sp.keys(p)
        return z3.If(z3.Select(sp.has(p), k), sp.mk(v.eng.seq_remove_fn(ks.sort())(ks, k), z3.Store(sp.has(p), k, z3.BoolVal(False)), sp.val(p)), p)
    HEV, HLOG = edit_specs(v, upd)
    check_edit(v, v.call(MUT + 'remove_lifecycle_attribute', [logv]), logv, lt, HLOG)
    part = make(v, MP + 'RemoveLifecycleTransitionsAttributes')
    check_edit(v, v.call(MP + 'RemoveLifecycleTransitionsAttributes.execute', [part, part_result(v, log=logv)]), logv, lt, HLOG,
               lambda s, r: values_of(v, s, r)['log'])


@unit(P, 'add_artificial_events', MP + 'AddArtificialStartEndEvents.execute')
def u(v):
    """every trace becomes [new START] + its events + [new END]; no existing payload changes"""
    log_schema(v)
    logv, lt = v.param('log', LOG)
    v.eng.upd_light = True
    t0 = traces(v, lt)
    k0, e0 = z3.Int('k0'), z3.Const('e0', S(v, EV))
    b = v.eng.birth('MyEvent')
    v.require(0 <= k0, k0 < z3.Length(t0), b(e0) < 0)
    old = evs(v, t0[k0])
    n = z3.Length(old)

    def done(st, ts):
        new = evs(v, ts[k0])
        a, z = new[0], new[n + 1]
        h = heap(st)
        return z3.And(new == z3.Concat(z3.Unit(a), old, z3.Unit(z)), b(a) >= 0, b(z) >= 0, a != z, b(a) < st.clock, b(z) < st.clock,
                      pay_has(v, h, a, CN), name_of(v, a, h) == v.eng.lit('ARTIFICIAL_START').t,
                      pay_has(v, h, z, CN), name_of(v, z, h) == v.eng.lit('ARTIFICIAL_END').t)

    def tmpl(Lp):
        for x in Lp.mods(TList(TR)):
            for i in Lp.mods(INT):
                yield ('progress %s %s' % (x.name, i.name), lambda st, x=x, i=i: z3.And(
                    z3.Length(x(st)) == z3.Length(t0),
                    z3.Implies(k0 >= i(st), x(st)[k0] == t0[k0]),
                    z3.Implies(k0 < i(st), done(st, x(st)))))
        yield ('old events untouched', lambda st: heap(st)[e0] == v.H0[e0])
        yield ('clock', lambda st: st.clock >= 0)
    v.eng.templates.append(tmpl)
    part = make(v, MP + 'AddArtificialStartEndEvents')
    for s, r in v.returns(v.call(MP + 'AddArtificialStartEndEvents.execute', [part, part_result(v, log=logv)])):
        out = v.eng.lower(s, values_of(v, s, r)['log'], LOG)
        ts = traces(v, out)
        v.prove(s, z3.Length(ts) == z3.Length(t0), 'same number of traces')
        v.prove(s, done(s, ts), 'trace k0 is [new START] + old events + [new END]')
        v.prove(s, heap(s)[e0] == v.H0[e0], 'payload of every existing event unchanged')


def substitute_trace(v):
    log_schema(v)
    UK = v.glob(CONST, 'underlying_events_key')
    v.eng.keytypes[UK] = TR
    SE = S(v, TList(EV))
    EXP = SpecFn('EXP', [SE, z3.IntSort()], SE, lambda s, i: z3.If(i <= 0, z3.Empty(SE), z3.Concat(EXP(s, i - 1), z3.If(
        pay_has(v, v.H0, s[i - 1], UK), (lambda u: EXP(u, z3.Length(u)))(evs(v, pay_get(v, v.H0, s[i - 1], UK, TR))), z3.Unit(s[i - 1])))))
    ID = SpecFn('PREFIX', [SE, z3.IntSort()], SE, lambda s, i: z3.If(i <= 0, z3.Empty(SE), z3.Concat(ID(s, i - 1), z3.Unit(s[i - 1]))))
    v.fold_templates(EXP, ID)
    idlemma(v, ID, SE)

    def contract(eng, st, env, f):
        es = evs(v, eng.lower(st, env['events'], TR))
        return [(st, eng.root_of_term(st, mk_trace(v, EXP(es, z3.Length(es))), TR))]
    v.eng.contracts[PUT + 'substitute_original_events'] = contract
    tv, tt = v.param('events', TR)
    for s, r in v.returns(v.call(PUT + 'substitute_original_events', [tv])):
        es = evs(v, tt)
        q = evs(v, v.eng.lower(s, r, TR))
        v.prove(s, q == EXP(es, z3.Length(es)), 'result is the sequence of underlying leaf events in order')
        v.prove(s, v.eng.lower(s, tv, TR) == tt, 'frame: input trace unchanged')
        frame_heap(v, s)
    return EXP


@unit(P, 'substitute_original_events', PUT + 'substitute_original_events', MP + 'SubstituteUnderlyingEvents.execute')
def u(v):
    """leaves of the underlying-events tree, in order (recursive calls checked against the contract)"""
    EXP = substitute_trace(v)
    logv, lt = v.param('log', LOG)
    ST = S(v, TList(TR))
    SL = SpecFn('SUBSLOG', [ST, z3.IntSort()], ST, lambda l, i: z3.If(i <= 0, z3.Empty(ST), z3.Concat(
        SL(l, i - 1), z3.Unit(mk_trace(v, EXP(evs(v, l[i - 1]), z3.Length(evs(v, l[i - 1]))))))))
    v.fold_templates(SL)
    part = make(v, MP + 'SubstituteUnderlyingEvents')
    for s, r in v.returns(v.call(MP + 'SubstituteUnderlyingEvents.execute', [part, part_result(v, log=logv)])):
        t = traces(v, lt)
        v.prove(s, traces(v, v.eng.lower(s, values_of(v, s, r)['log'], LOG)) == SL(t, z3.Length(t)), 'every trace is replaced by its underlying leaf events, in order')
        frame_log(v, s, logv, lt)
        frame_heap(v, s)


def idlemma(v, ID, SE):
    """PREFIX(s, len s) == s: proved by induction on the prefix length via PREFIX(s,i) == s[0:i]"""
    s, i = z3.Const('s!id', SE), z3.Int('i!id')
    pre = lambda n: z3.Extract(s, z3.IntVal(0), n)
    v.lemma('PREFIX base', [i == 0], ID(s, i) == pre(i))
    v.lemma('PREFIX step', [i > 0, i <= z3.Length(s), ID(s, i - 1) == pre(i - 1)], ID(s, i) == pre(i))
    old = ID.defn
    ID.defn = lambda q, n: [ID.f(q, n) == old(q, n), z3.Implies(z3.And(n >= 0, n <= z3.Length(q)), ID.f(q, n) == z3.Extract(q, z3.IntVal(0), n))]
