from base import *

M = 'legacy.mutations.event_log_mutations'
MP = 'legacy.pipelines.mutations.mutations_parts'
FP = 'legacy.pipelines.filtering.filter_parts'


def gen(rng, **kw):
    log = rand_log(rng, rich=True, attrs=rng.random() < 0.5, **kw)
    # the same event object may occur twice, and the same trace object too
    if len(log) and rng.random() < 0.15:
        tr = rng.choice(log.traces)
        if len(tr):
            tr.append(tr[0])
    note['log'] = show(log)
    return log


def expect_filtered(log, res, keep, s):
    exp = []
    for t in log.traces:
        f = [e for e in t.raw_events if keep(e)]
        if f:
            exp.append(f)
    got = [list(t) for t in res]
    eq([[id(e) for e in t] for t in got], [[id(e) for e in t] for t in exp], 'filtered traces (identity of events) %s vs %s' % (names(res), [[e[CN] for e in t] for t in exp]))
    expect(res is not log, 'a new log is returned')
    same_snap(log, s)
    nt(sum(map(len, exp)) not in (0, sum(len(t) for t in log)))


@check()
def remove_by_name(rng):
    log = gen(rng)
    al = sorted({e[CN] for t in log for e in t}) + ['nosuch']
    nm = rng.choice(al)
    note['name'] = nm
    s = snap(log)
    expect_filtered(log, api(M, 'remove_event_from_log')(log, nm), lambda e: e[CN] != nm, s)
    part = api(MP, 'RemoveEventFromLogByName')(nm)
    r = part.execute(ctx(log=log))
    expect_filtered(log, r.values['log'], lambda e: e[CN] != nm, s)


@check()
def remove_by_names(rng):
    log = gen(rng)
    al = sorted({e[CN] for t in log for e in t}) + ['nosuch']
    ns = {x for x in al if rng.random() < 0.4}
    note['names'] = ns
    s = snap(log)
    expect_filtered(log, api(M, 'remove_events_from_log')(log, ns), lambda e: e[CN] not in ns, s)
    r = api(MP, 'RemoveEventsFromLogByNames')(list(ns)).execute(ctx(log=log))
    expect_filtered(log, r.values['log'], lambda e: e[CN] not in ns, s)
    it = api(MP, 'RemoveEventsFromLogByNames')(x for x in list(ns)).execute(ctx(log=log))
    expect_filtered(log, it.values['log'], lambda e: e[CN] not in ns, s)


@check()
def remove_by_predicate(rng):
    log = gen(rng)
    m = rng.randint(1, 4)
    order = {}
    for t in log:
        for e in t:
            order.setdefault(id(e), len(order))
    kind = rng.randint(0, 2)
    pred = [lambda e: order[id(e)] % m == 0, lambda e: len(e.payload) > m, lambda e: e.payload.get('cost', 0) > 0][kind]
    note['pred'] = (kind, m)
    s = snap(log)
    expect_filtered(log, api(M, 'filter_log')(log, pred), lambda e: not pred(e), s)
    r = api(MP, 'RemoveEventsFromLogPredicate')(pred).execute(ctx(log=log))
    expect_filtered(log, r.values['log'], lambda e: not pred(e), s)
    # truthy / falsy predicate results
    pred2 = lambda e: [] if order[id(e)] % 2 else [1]
    expect_filtered(log, api(M, 'filter_log')(log, pred2), lambda e: order[id(e)] % 2 == 1, s)


@check()
def internal_filters(rng):
    log = gen(rng)
    m = rng.randint(0, 4)
    s = snap(log)
    f = api(M, '_filter_traces')
    r = f(log, lambda t: len(t) % 2 == m % 2)
    eq([id(t) for t in r], [id(t) for t in log if len(t) % 2 == m % 2], 'accepted traces')
    same_snap(log, s)


@check()
def trace_length(rng):
    log = gen(rng)
    k = rng.choice([0, 0, 1, 2, 3, 5, -1])
    note['min'] = k
    s = snap(log)
    exp = [id(t) for t in log.traces if len(t.raw_events) > k]
    eq([id(t) for t in api(M, 'remove_empty_traces')(log, k)], exp, 'traces longer than the limit')
    if k == 0:
        eq([id(t) for t in api(M, 'remove_empty_traces')(log)], exp, 'default limit')
        eq([id(t) for t in api(FP, 'FilterTracesByCount')().execute(ctx(log=log)).values['log']], exp, 'default limit')
    r = api(FP, 'FilterTracesByCount')(k).execute(ctx(log=log))
    eq([id(t) for t in r.values['log']], exp, 'FilterTracesByCount')
    same_snap(log, s)
    nt(0 < len(exp) < len(log))


def edited(log, f):
    """expected payload items after applying f(payload dict)->None to each event occurrence in order"""
    d = {}
    for t in log.traces:
        for e in t.raw_events:
            p = d.setdefault(id(e), dict(e.payload))
            f(e, p)
    return d


def expect_edited(log, s, exp, order=True):
    for (tid, rid, eids, old, at), t in zip(s[1], log.traces):
        expect(id(t) == tid and id(t.raw_events) == rid and [id(e) for e in t.raw_events] == eids and dict(t.attributes) == at, 'trace structure or attributes changed')
        for e in t.raw_events:
            eq(dict(e.payload), exp[id(e)], 'payload after the edit')
    eq(len(log.traces), len(s[1]), 'number of traces')
    s2 = snap(log)
    eq(s2[2:], s[2:], 'log attributes')


@check()
def rename(rng):
    f = rng.choice([lambda n: n + '_x', lambda n: n.upper(), lambda n: n[:1], lambda n: n, lambda n: 'const'])
    for part in (False, True):
        log = gen(rng)
        s = snap(log)

        def g(e, p):
            p[CN] = f(p[CN])
        exp = edited(log, g)
        if part:
            r = api(MP, 'PreprocessEventsNames')(f).execute(ctx(log=log))
            expect(r.values['log'] is log, 'the edited log is passed on')
        else:
            api(M, 'preprocess_event_names_inplace')(log, f)
        expect_edited(log, s, exp)
        nt(len(log) > 1)


@check()
def preprocess(rng):
    for part in (False, True):
        log = gen(rng)
        s = snap(log)
        calls = []

        def g(e, p):
            p['cnt'] = p.get('cnt', 0) + 1

        def mut(e):
            calls.append(id(e))
            e['cnt'] = e.payload.get('cnt', 0) + 1
        exp = edited(log, g)
        if part:
            r = api(MP, 'PreprocessEvents')(mut).execute(ctx(log=log))
            expect(r.values['log'] is log, 'the edited log is passed on')
        else:
            api(M, 'preprocess_events')(log, mut)
        expect_edited(log, s, exp)
        eq(calls, [id(e) for t in log for e in t], 'the mutator is applied to each event in order')
        nt(len(calls) > 2)


@check()
def class_extractor(rng):
    log = gen(rng)
    s = snap(log)
    ext = lambda e: e[CN] + '/' + str(e.payload.get('org:resource', '-'))
    sel = rng.choice([None, lambda e: 'org:resource' in e.payload, lambda e: False, lambda e: e[CN] in ('A', 'C', 'a')])

    def g(e, p):
        ev = EL().MyEvent(p)
        if sel is None or sel(ev):
            p[CN] = ext(ev)
    exp = edited(log, g)
    A = api(MP, 'ApplyClassExtractor')
    r = (A(ext) if sel is None else A(ext, sel)).execute(ctx(log=log, other=5))
    expect(r.values['log'] is log and r.values.get('other') == 5, 'context passed on')
    expect_edited(log, s, exp)
    nt(sum(len(t) for t in log) > 2)


@check()
def lifecycle(rng):
    for part in (False, True):
        log = gen(rng)
        s = snap(log)
        exp = edited(log, lambda e, p: p.pop(LCT, None))
        order = {id(e): [k for k in e.payload if k != LCT] for t in log for e in t}
        if part:
            r = api(MP, 'RemoveLifecycleTransitionsAttributes')().execute(ctx(log=log))
            expect(r.values['log'] is log, 'the edited log is passed on')
        else:
            api(M, 'remove_lifecycle_attribute')(log)
        expect_edited(log, s, exp)
        for t in log:
            for e in t:
                eq(list(e.payload), order[id(e)], 'order of remaining attributes')
        nt(any(LCT in dict(p) for x in s[1] for p in x[3]))


@check()
def artificial(rng):
    log = gen(rng)
    s = snap(log)
    r = api(MP, 'AddArtificialStartEndEvents')().execute(ctx(log=log))
    res = r.values['log']
    eq(len(res), len(s[1]), 'number of traces')
    new = []
    for t, old in zip(res, s[1]):
        eq([id(e) for e in t][1:-1], old[2], 'original events stay between the artificial ones')
        eq([payload(e) for e in t][1:-1], old[3], 'payloads of original events')
        eq(len(t), len(old[2]) + 2, 'two events added')
        eq(t[0].payload, {CN: 'ARTIFICIAL_START'}, 'start event')
        eq(t[len(t) - 1].payload, {CN: 'ARTIFICIAL_END'}, 'end event')
        new += [id(t[0]), id(t[len(t) - 1])]
        eq(dict(t.attributes), old[4], 'trace attributes')
    expect(len(set(new)) == len(new), 'artificial events are distinct objects')
    nt(len(res) > 1)


@check()
def substitute(rng):
    E = EL()
    key = mod('legacy.analysis.patterns.constants').underlying_events_key
    leaves_all = {}

    def node(d):
        e = mk_event(rng.choice(ALPH))
        if d > 0 and rng.random() < 0.45:
            kids = [node(d - 1) for _ in range(rng.randint(0, 3))]
            e[key] = [k for k, _ in kids] if rng.random() < 0.5 else E.MyTrace([k for k, _ in kids])
            return e, [x for _, l in kids for x in l]
        return e, [e]
    log, exp = E.MyEventLog(), []
    for _ in range(rng.randint(0, 4)):
        ns = [node(3) for _ in range(rng.randint(0, 4))]
        log.append(E.MyTrace([n for n, _ in ns]))
        exp.append([id(x) for _, l in ns for x in l])
    s = snap(log)
    f = api('legacy.analysis.patterns.util', 'substitute_original_events')
    for t, x in zip(log, exp):
        eq([id(e) for e in f(t)], x, 'leaf events in order')
    r = api(MP, 'SubstituteUnderlyingEvents')().execute(ctx(log=log))
    eq([[id(e) for e in t] for t in r.values['log']], exp, 'leaf events in order (part)')
    same_snap(log, s)
    nt(sum(map(len, exp)) > sum(len(t) for t in log))


@check()
def variants_filter(rng):
    log = gen(rng)
    s = snap(log)
    r = api(FP, 'FilterTracesByVariants')().execute(ctx(log=log))
    got = [id(t) for t in r.values['log']]
    seen, exp = set(), []
    for t in log.traces:
        k = tuple(e[CN] for e in t)
        if k not in seen:
            seen.add(k)
            exp.append(id(t))
    eq(sorted(got), sorted(exp), 'first trace of each variant')
    same_snap(log, s)
