from base import *
import copy

PL = 'legacy.pipelines.pipelines'
PR = 'legacy.pipelines.contexts.part_results'
AC = 'legacy.pipelines.contexts.accessors'


def mk_part(trace, tag, fn):
    """a part that records its input and applies fn"""
    B = api(PL, 'InternalPipelinePart')

    class Part(B):
        def execute(self, current_input):
            trace.append((tag, current_input))
            return fn(current_input)
    return Part()


@check()
def sequential(rng):
    P = api(PL, 'Pipeline')
    tr = []
    n = rng.randint(0, 5)
    tags = list(range(n))
    parts = [mk_part(tr, t, lambda x, t=t: x + [t]) for t in tags]
    args = []
    for p in parts:
        while rng.random() < 0.3:
            args.append(None)
        args.append(p)
    if rng.random() < 0.3:
        args.append(None)
    pipe = P(*args)
    note['parts'] = [None if a is None else 'part' for a in args]
    order = list(tags)
    for _ in range(rng.randint(0, 3)):
        k = rng.choice(['append', 'insert', 'remove'])
        if k == 'append':
            t = 100 + rng.randint(0, 99)
            pipe.append(mk_part(tr, t, lambda x, t=t: x + [t]))
            order.append(t)
        elif k == 'insert':
            t, i = 200 + rng.randint(0, 99), rng.randint(0, len(order))
            pipe.insert(i, mk_part(tr, t, lambda x, t=t: x + [t]))
            order.insert(i, t)
        elif order:
            i = rng.randrange(len(order))
            pipe.remove(i)
            del order[i]
    x0 = ['in']
    for f in (pipe.execute, pipe):
        tr.clear()
        r = f(x0)
        eq([t for t, _ in tr], order, 'parts executed, in order')
        eq([x for _, x in tr], [['in'] + order[:i] for i in range(len(order))], 'each part gets the previous result')
        eq(r, ['in'] + order, 'result of the last part')
        if not order:
            expect(r is x0, 'an empty pipeline returns its input')
    tr.clear()
    # the same part may be listed several times, and parts may compare equal or be falsy
    B = api(PL, 'InternalPipelinePart')

    class Odd(B):
        def __init__(self, t):
            self.t = t

        def __eq__(self, o):
            return True

        def __hash__(self):
            return 1

        def __bool__(self):
            return False

        def __len__(self):
            return 0

        def execute(self, x):
            return (x or []) + [self.t]
    pool = [Odd(i) for i in range(2)] + [mk_part([], i, lambda x, i=i: (x or []) + [i]) for i in (2, 3)] + [mk_part([], 4, lambda x: None), mk_part([], 5, lambda x: [])]
    ch = [rng.randrange(6) for _ in range(rng.randint(1, 6))]
    note['repeated'] = ch
    want = ['in']
    for i in ch:
        want = None if i == 4 else [] if i == 5 else (want or []) + [i]
    q = P(*[pool[i] for i in ch])
    eq(q.execute(['in']), want, 'result of a pipeline with repeated parts %s' % ch)
    eq(q(['in']), want, 'result of a call of a pipeline with repeated parts %s' % ch)
    q = P()
    for i in ch:
        q.append(pool[i])
    eq(q.execute(['in']), want, 'result of a pipeline with appended repeated parts %s' % ch)
    eq(P()(), None, 'call without an argument')
    for x in ([], 0, '', EL().MyEventLog(), None, {}):
        got = []

        def keep(y):
            got.append(y)
            return y
        for q in (P(), P(mk_part(tr, 0, keep))):
            for f in (q, q.execute):
                expect(f(x) is x, 'the result of pipeline of no part, or of one returning its input, on %s' % short(x))
        expect(all(y is x for y in got), 'the first part gets the input itself')
    nt(len(order) > 1)


@check()
def rejects(rng):
    P = api(PL, 'Pipeline')
    good = mk_part([], 0, lambda x: x)
    for bad in (1, 'x', [good], P(good), object(), lambda x: x, type(good), False, 0, ''):
        args = [good] * rng.randint(0, 2) + [bad] + [None, good][:rng.randint(0, 2)]
        note['bad'] = repr(bad)
        try:
            P(*args)
        except TypeError:
            continue
        raise Violation('a pipeline accepted %r' % (bad,))
    nt()


@check()
def parallel(rng):
    P, PP = api(PL, 'Pipeline'), api(PL, 'ParallelPipeline')
    n = rng.randint(1, 4)
    seen, outs = [], []

    def fn(i):
        def f(c):
            seen.append((i, dict(c.values), c))
            c.values['mark%d' % i] = i
            c.values['x'] = 'changed by %d' % i
            if rng.random() < 0.5 and 'log' in c.values:
                c.remove('log')
            outs.append(c)
            return c
        return f
    pipes = [P(mk_part([], i, fn(i))) for i in range(n)]
    c = ctx(x=1, log='L', **{'k%d' % i: [i] for i in range(rng.randint(0, 3))})
    before = dict(c.values)
    order = list(range(n)) + [rng.randrange(n) for _ in range(rng.choice([0, 0, 1, 2]))]
    note['order'] = order
    r = PP(*[pipes[i] for i in order]).execute(c)
    eq([s[0] for s in seen], order, 'every pipeline runs once in order')
    expect(len({id(s[2]) for s in seen}) == len(order), 'every pipeline gets its own copy')
    for i, vals, cc in seen:
        eq(vals, before, 'input of pipeline %d' % i)
        expect(cc is not c, 'pipelines get a copy')
    expect(r is outs[-1], 'the last output is returned')
    eq(dict(c.values), before, 'the original context')
    nt(n > 1)


@check()
def input_copy(rng):
    P = api(PL, 'Pipeline')
    seen = []

    def f(c):
        seen.append((c, dict(c.values)))
        c.values['x'] = 'changed'
        c.values['new'] = 1
        c.remove('log')
        return rng.choice([c, ctx(), None])
    c = ctx(x=1, log='L')
    before = dict(c.values)
    r = api(PL, 'WithInputCopy')(P(mk_part([], 0, f))).execute(c)
    expect(r is c, 'the original input is returned')
    eq(dict(c.values), before, 'the original context')
    eq(len(seen), 1, 'number of runs')
    expect(seen[0][0] is not c and seen[0][1] == before, 'the inner pipeline gets a copy')
    c = ctx(x=1)
    expect(api(PL, 'WithInputCopy')(P()).execute(c) is c and dict(c.values) == {'x': 1}, 'the original input is returned, for an empty inner pipeline')
    r = api(PL, 'ParallelPipeline')(P(), P()).execute(c)
    expect(r is not c and dict(r.values) == {'x': 1} and dict(c.values) == {'x': 1}, 'a parallel pipeline with empty inner pipelines returns a copy')

    # an error of an inner part reaches the caller
    class Oops(Exception):
        pass

    def bad(c):
        c.values['x'] = 'changed'
        raise Oops()
    for comb in ('WithInputCopy', 'ParallelPipeline'):
        try:
            api(PL, comb)(P(mk_part([], 0, bad))).execute(c)
        except Oops:
            eq(dict(c.values), {'x': 1}, 'the original context after an error')
            continue
        raise Violation('%s swallowed an error' % comb)
    nt()


@check()
def conditional(rng):
    P = api(PL, 'Pipeline')
    truth = rng.choice([True, False, 1, 0, [], [1], '', 'a', None])
    note['truth'] = repr(truth)
    asked, ran = [], []
    out = ctx(y=2)

    def f(c):
        ran.append(c)
        return out
    c = ctx(x=1)
    out = rng.choice([out, out, None, ctx()])
    r = api(PL, 'IfPipeline')(lambda x: (asked.append(x), truth)[1], P(mk_part([], 0, f))).execute(c)
    expect(len(asked) == 1 and asked[0] is c, 'the condition is evaluated once on the input')
    if truth:
        expect(len(ran) == 1 and ran[0] is c and r is out, 'the inner pipeline runs on the input and its result is returned')
    else:
        expect(not ran and r is c, 'the input is returned untouched')
    eq(dict(c.values), {'x': 1}, 'context')
    nt(truth)


@check()
def temp_input(rng):
    P = api(PL, 'Pipeline')
    c, t, o, m = ctx(a=1), ctx(b=2), ctx(c=3), ctx(d=4)
    t, o, m = [rng.choice([y, y, None]) for y in (t, o, m)]
    if rng.random() < 0.2:
        t = c
    if rng.random() < 0.2:
        o = c
    calls = []

    def tr(x):
        calls.append(('t', x))
        return t

    def mg(x, y):
        calls.append(('m', x, y))
        return m

    def f(x):
        calls.append(('p', x))
        return o
    r = api(PL, 'WithTempInput')(tr, mg, P(mk_part([], 0, f))).execute(c)
    eq([x[0] for x in calls], ['t', 'p', 'm'], 'order of calls')
    expect(calls[0][1] is c and calls[1][1] is t and calls[2][1] is c and calls[2][2] is o and r is m, 'transformed input runs, results merged with the original input')
    eq(dict(c.values), {'a': 1}, 'the original context')
    nt()


KINDS = {'log': ('with_log', 'log'), 'activities': ('with_activities', 'activities'), 'repeat_sets': ('with_repeat_sets', 'repeat_sets'),
         'traces_activities': ('with_trace_activities', 'traces_activities'), 'patterns': ('with_patterns', 'patterns'), 'petri_net': ('with_petri_net', 'petri_net'),
         'event_class_tree': ('with_event_class_tree', 'event_class_tree'), 'activities_logs': ('with_activities_logs', 'activities_to_logs'),
         'serialized_graph': ('with_serialized_graph', 'serialized_graph'), 'graph': ('with_graph', 'graph'),
         'activity_name': ('with_activity_name', 'activity_name'), 'colors': ('with_cached_colors', 'cached_colors')}


@check()
def store(rng):
    R = api(PR, 'PipelinePartResult')
    c = R()
    model, custom, hist = {}, {}, []
    ac = mod(AC)

    def agree(c, model, custom):
        for k, (_, g) in KINDS.items():
            if k == 'colors' and k not in model:
                continue
            try:
                v = getattr(ac, g)(c)
            except ValueError:
                expect(k not in model, 'stored %s is reported missing' % k)
                continue
            expect(k in model, '%s was never stored but %r is returned' % (k, v))
            expect(v is model[k], '%s: returned value is not the last stored one' % k)
        for k in ('c1', 'c2', 'c3'):
            eq(bool(c.has_value(k)), k in custom, 'has_value')
            try:
                v = c.get_value_or_throw(k)
                expect(k in custom and v is custom[k], 'custom value %s' % k)
            except ValueError:
                expect(k not in custom, 'custom value %s lost' % k)
    for step in range(rng.randint(1, 14)):
        op = rng.random()
        if op < 0.6:
            k = rng.choice(sorted(KINDS))
            v = [k, step] if k != 'colors' else {'k': step}
            if rng.random() < 0.1 and k != 'colors':
                v = rng.choice([None, [], 0])
            r = getattr(c, KINDS[k][0])(v)
            expect(r is c, 'with_* returns the context')
            model[k] = v
        elif op < 0.8:
            k = rng.choice(['c1', 'c2', 'c3'])
            v = [k, step]
            expect(c.with_custom_data(k, v) is c, 'with_custom_data returns the context')
            custom[k] = v
        elif op < 0.9 and custom:
            k = rng.choice(sorted(custom))
            c.remove(k)
            del custom[k]
        else:
            # copies are independent
            d = copy.copy(c)
            agree(d, model, custom)
            d.with_log('other').with_custom_data('c1', 'zz').with_activities('q')
            agree(c, model, custom)
            e = copy.copy(c)
            c.with_patterns('changed')
            model2 = dict(model)
            model['patterns'] = 'changed'
            agree(e, model2, custom)
        agree(c, model, custom)
    if 'colors' not in model:
        x = ac.cached_colors(c)
        eq(x, {}, 'colour cache starts empty')
        expect(ac.cached_colors(c) is x, 'colour cache is kept')
    nt(len(model) > 2)


@check()
def start_parts(rng):
    S = 'legacy.pipelines.start.start_parts'
    log = rand_log(rng)
    r = api(S, 'UseExistingLog')().execute(log)
    expect(r.values == {'log': r.values.get('log')} and r.values['log'] is log, 'UseExistingLog')
    for bad in (None, 1, 'x', []):
        try:
            api(S, 'UseExistingLog')().execute(bad)
        except ValueError:
            continue
        raise Violation('UseExistingLog accepted %r' % (bad,))
    for bad in (None, 1, log):
        try:
            api(S, 'ReadLogFromXes')().execute(bad)
        except TypeError:
            continue
        raise Violation('ReadLogFromXes accepted %r' % (bad,))
    eq(dict(api(S, 'EmptyStartPart')().execute(None).values), {}, 'EmptyStartPart')


@check()
def each_activity_log(rng):
    P = api(PL, 'Pipeline')
    logs = {n: rand_log(rng) for n in rng.sample(['a', 'b', 'c', 'd'], rng.randint(0, 4))}
    seen = []

    def f(c):
        seen.append((c.values['activity_name_key'], c.values['log']))
        c.values['leak'] = 1
        return c
    c = ctx(activities_logs=logs, x=1)
    b = dict(c.values)
    r = api('legacy.pipelines.analysis.high_level', 'ExecuteWithEachActivityLog')(P(mk_part([], 0, f))).execute(c)
    expect(r is c, 'the input is returned')
    eq(dict(c.values), b, 'context')
    expect([(n, id(l)) for n, l in seen] == [(n, id(l)) for n, l in logs.items()], 'the pipeline runs once for each activity log')
    nt(len(logs) > 1)


@check(max_iter=300)
def no_leak(rng):
    """real parts inside isolating combinators do not change the outer context or the values it holds"""
    H, PP = 'legacy.pipelines.analysis.high_level', 'legacy.pipelines.analysis.patterns.patterns_parts'
    m = mod(PP)
    P = api(PL, 'Pipeline')
    log = rand_log(rng, ['A', 'B', 'C', 'D'], min_len=1)
    note['log'] = names(log)
    de = api('legacy.analysis.patterns.util', 'default_class_extractor')
    base_ = P(api(H, 'DiscoverActivitiesInstancesFromRepeats')(m.RepeatActivitiesSource.MaximalRepeats, class_extractor=de))
    c = base_(ctx(log=log))
    s = snap(log)

    def freeze(c):
        return {k: (id(v), [id(x) for x in v] if isinstance(v, list) else None, [[id(y) for y in x] for x in v] if k in ('traces_activities', 'patterns') else None)
                for k, v in c.values.items()}
    before = freeze(c)
    Mo = mod(H)
    inner = [lambda: P(Mo.AdjustWithActivitiesFromUnattachedEvents(de, 1, adjusting_mode=rng.choice(list(Mo.AdjustingMode)))),
             lambda: P(m.ClearActivities()), lambda: P(m.CreateLogFromActivities()),
             lambda: P(m.CreateLogFromActivities(), base_.parts[0]),
             lambda: P(Mo.DiscoverActivitiesForSeveralLevels([de, de])),
             lambda: P(Mo.DiscoverActivitiesInstancesFromRepeatsUntilNoMore(de))]
    k = rng.randrange(len(inner))
    note['inner'] = k
    comb = rng.choice([lambda: api(PL, 'WithInputCopy')(inner[k]()), lambda: api(PL, 'ParallelPipeline')(inner[k](), inner[rng.randrange(len(inner))]())])()
    comb.execute(c)
    eq(freeze(c), before, 'context values after an isolated pipeline')
    same_snap(log, s)
    nt(len(log) > 1)
