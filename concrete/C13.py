from base import *
import C09, C10, C11, C12
from C12 import rand_forest, check_instances, all_under
CHECKS[:] = []

EP = 'legacy.analysis.patterns.event_log_patterns'
UT = 'legacy.analysis.patterns.util'
PP = 'legacy.pipelines.analysis.patterns.patterns_parts'
UE, UA = 'UnderlyingEvents', 'UnderlyingActivities'


def node(name, level=0, cs=()):
    A = api('legacy.analysis.patterns.patterns_models', 'ActivityNode')
    return A(name=name, repeat_set=None, set_of_events=set(cs), class_extractor=None, activity_level=level)


def rand_instances(rng, log, nodes=None):
    """ordered, disjoint, non-empty instances inside each trace"""
    I = api('legacy.analysis.patterns.patterns_models', 'ActivityInTraceInfo')
    nodes = nodes or [node('act%d' % i) for i in range(3)]
    out = []
    for t in log:
        l, p = [], 0
        dense = rng.random()
        while p < len(t):
            if rng.random() < dense:
                n = rng.randint(1, max(1, min(4, len(t) - p)))
                l.append(I(rng.choice(nodes), p, n))
                p += n
            else:
                p += rng.randint(1, 3)
        out.append(l)
    return out


def gaps(n, inst):
    out, p = [], 0
    for a in inst:
        if p < a.start_pos:
            out.append((p, a.start_pos))
        p = a.start_pos + a.length
    if p < n:
        out.append((p, n))
    return out


def inst_list(ac):
    return [[(id(a.node), a.start_pos, a.length) for a in l] for l in ac]


def gen(rng):
    log = rand_log(rng, rich=rng.random() < 0.4)
    if rng.random() < 0.3:      # some events are already aggregated
        for t in log:
            for e in t:
                if rng.random() < 0.4:
                    e[UE] = [mk_event('u%d' % i) for i in range(rng.randint(0, 3))]
                    e[UA] = [node('old%d' % i) for i in range(rng.randint(0, 2))]
    return log


@check()
def tiling(rng):
    f = api(EP, '_process_trace_activities')
    log = gen(rng)
    ac = rand_instances(rng, log)
    for t, l in zip(log, ac):
        note.update(length=len(t), instances=str([(a.start_pos, a.length) for a in l]))
        seen = []
        f(t, l, lambda a, b: seen.append(('gap', a, b)), lambda a: seen.append(('act', a)))
        exp = sorted([('gap', a, b) for a, b in gaps(len(t), l)] + [('act', a) for a in l], key=lambda x: x[1] if x[0] == 'gap' else x[1].start_pos)
        eq([(x[0], x[1:] if x[0] == 'gap' else id(x[1])) for x in seen], [(x[0], x[1:] if x[0] == 'gap' else id(x[1])) for x in exp], 'visits, left to right')
        nt(len(exp) > 2)


def check_new_log(new, log, ac, hashes, strategy, orig):
    S = api('legacy.analysis.patterns.patterns_models', 'UndefinedActivityHandlingStrategy')
    eq(len(new), min(len(log), len(ac)), 'number of traces')
    for t, l, n, o in zip(log, ac, new, orig):
        exp = sorted([('gap', a, b) for a, b in gaps(len(t), l)] + [('act', a) for a in l], key=lambda x: x[1] if x[0] == 'gap' else x[1].start_pos)
        evs = list(n)
        k = 0
        for x in exp:
            if x[0] == 'gap':
                if strategy == S.DontInsert:
                    continue
                if strategy == S.InsertAsSingleEvent:
                    expect(k < len(evs), 'the gap event is missing')
                    eq(dict(evs[k].payload), {CN: 'UndefinedActivity'}, 'event of a gap')
                    k += 1
                else:
                    for i in range(x[1], x[2]):
                        expect(k < len(evs), 'an event of a gap is missing')
                        eq(payload(evs[k]), o[i][1], 'event %d of a gap' % i)
                        expect(evs[k] is t[i], 'event %d of a gap is not the original event' % i)
                        k += 1
            else:
                a = x[1]
                expect(k < len(evs), 'the event of an instance is missing')
                e = evs[k]
                k += 1
                eq(sorted(e.payload), sorted([CN, UE, UA]), 'attributes of an instance event')
                eq(e[CN], a.node.unique_name() if hashes else a.node.name, 'name of an instance event')
                und = e[UE]
                eq([payload(u) for u in und], [o[i][1] for i in range(a.start_pos, a.start_pos + a.length)], 'underlying events of the instance at %d' % a.start_pos)
                for i, u in enumerate(und):
                    expect(u is not t[a.start_pos + i], 'underlying events must be copies')
                want = []
                for i in range(a.start_pos, a.start_pos + a.length):
                    want += dict(o[i][1]).get(UA, [])
                want.append(a.node)
                eq([id(y) for y in e[UA]], [id(y) for y in want], 'underlying activities')
        eq(len(evs), k, 'number of events of a trace')


@check()
def abstraction(rng):
    f = api(EP, 'create_new_log_from_activities')
    S = api('legacy.analysis.patterns.patterns_models', 'UndefinedActivityHandlingStrategy')
    sub = api(UT, 'substitute_original_events')
    log = gen(rng)
    ac = rand_instances(rng, log)
    strategy = rng.choice([S.DontInsert, S.InsertAsSingleEvent, S.InsertAllEvents])
    hashes = rng.random() < 0.5
    note.update(log=names(log), instances=str([[(a.start_pos, a.length) for a in l] for l in ac]), strategy=str(strategy), hashes=hashes)
    s, ia = snap(log), inst_list(ac)
    ua = [[list(e[UA]) if UA in e else None for e in t] for t in log]
    orig = [[(id(e), [(k, list(v) if isinstance(v, list) else v) for k, v in payload(e)]) for e in t] for t in log]
    if rng.random() < 0.5:
        new = f(log, ac, use_hashes_as_names=hashes, strategy=strategy)
        if rng.random() < 0.1:
            check_new_log(f(log, ac), log, ac, True, S.InsertAsSingleEvent, orig)
    else:
        P = api(PP, 'CreateLogFromActivities')
        cx = ctx()
        cx.with_log(log).with_trace_activities(ac)
        new = api('legacy.pipelines.contexts.accessors', 'log')(P(strategy, hashes).execute(cx))
    check_new_log(new, log, ac, hashes, strategy, orig)
    same_snap(log, s)
    expect(ua == [[list(e[UA]) if UA in e else None for e in t] for t in log], 'the activities recorded in the original events were changed')
    eq(inst_list(ac), ia, 'instances after the call')
    if strategy == S.InsertAllEvents:
        leaves = lambda e: [y for x in e[UE] for y in leaves(x)] if UE in e else [e[CN]]
        for t, n in zip(log, new):
            eq([e[CN] for e in sub(n)], [y for e in t for y in leaves(e)], 'names restored by substituting the underlying events')
    for t in log:   # copies: changing an underlying event leaves the original alone
        pass
    for n in new:
        for e in n:
            if UE in e and e[UE] and not any(e is x for t in log for x in t):
                e[UE][0]['zzz'] = 1
    same_snap(log, s, 'the original log (after changing the underlying events of the abstracted one)')
    nt(any(ac))


@check()
def unattached_log(rng):
    f = api(EP, 'create_unattached_events_log')
    log = gen(rng)
    ac = rand_instances(rng, log)
    note.update(log=names(log), instances=str([[(a.start_pos, a.length) for a in l] for l in ac]))
    s, ia = snap(log), inst_list(ac)
    new = f(log, ac)
    eq([[id(e) for e in t] for t in new], [[id(t[i]) for a, b in gaps(len(t), l) for i in range(a, b)] for t, l in zip(log, ac)], 'unattached events (identity, in order)')
    same_snap(log, s)
    eq(inst_list(ac), ia, 'instances after the call')
    nt(any(len(t) for t in new))


@check()
def add_in_gaps(rng):
    f = api(EP, 'add_unattached_activities')
    ex = api(EP, 'extract_activities_from_log')
    h = api('legacy.util', 'calculate_string_poly_hash')
    dflt = api(UT, 'default_class_extractor')
    classes = [chr(65 + i) for i in range(rng.randint(1, 6))]
    own = rng.random() < 0.5        # event classes other than the names
    log = log_of(*[[rng.choice(classes) + (rng.choice('xy') if own else '') for _ in range(rng.choice([0, 1, 3, 6, 10, 15]))] for _ in range(rng.randint(0, 4))])
    cls = (lambda e: e[CN][0]) if own else dflt
    ac = rand_instances(rng, log)
    roots = rand_forest(rng, classes)
    m = rng.choice([1, 1, 2, 3, 0])
    narrow = rng.random() < 0.5
    filt = rng.choice([None, lambda a: a.length >= 2])
    note.update(log=names(log), instances=str([[(a.start_pos, a.length) for a in l] for l in ac]), roots=[r.name for r in roots], class_is_first_letter=own, min_events=m, narrow=narrow, filter=bool(filt))
    s, ia = snap(log), inst_list(ac)
    acc = filt or (lambda a: True)
    if rng.random() < 0.5:
        res = f(log, roots, ac, cls, acc, m, narrow)
    else:
        P = api(PP, 'DiscoverActivitiesInUnattachedSubTraces')
        cx = ctx()
        cx.with_log(log).with_trace_activities(ac).with_activities(roots)
        res = api('legacy.pipelines.contexts.accessors', 'traces_activities')(P(cls, m, acc, narrow).execute(cx))
    eq(len(res), len(log), 'one list per trace')
    for t, old, r in zip(log, ac, res):
        pos = 0
        for a in r:
            expect(a.length >= 1 and a.start_pos >= pos, 'instances are not ordered and disjoint: %s' % [(x.start_pos, x.length) for x in r])
            pos = a.start_pos + a.length
        expect(pos <= len(t), 'an instance leaves the trace')
        for o in old:
            expect(sum(a is o for a in r) == 1, 'existing instance (%d, %d) was lost or repeated' % (o.start_pos, o.length))
        new = [a for a in r if not any(a is o for o in old)]
        want = []
        for b, e in gaps(len(t), old):
            if e - b >= m:
                for a in ex(log_of([x[CN] for x in list(t)[b:e]]), roots, cls, acc, narrow)[0]:
                    want.append((id(a.node), b + a.start_pos, a.length))
        eq([(id(a.node), a.start_pos, a.length) for a in new], want, 'instances added in the gaps')
        nt(want)
    same_snap(log, s)
    eq(inst_list(ac), ia, 'instances after the call')


@check()
def adjust_part(rng):
    HL = 'legacy.pipelines.analysis.high_level'
    acc = mod('legacy.pipelines.contexts.accessors')
    M = api('legacy.pipelines.analysis.patterns.models', 'AdjustingMode')
    dflt = api(UT, 'default_class_extractor')
    log = C09.gen(rng)
    old = [node('old%d' % i, 7, {-1}) for i in range(2)]
    ac = rand_instances(rng, log, old) if rng.random() < 0.7 else None
    m = rng.choice([1, 2, 3])
    mode = rng.choice([M.FromUnattachedSubTraces, M.FromAllLog])
    level = rng.randint(0, 3)
    note.update(log=names(log), instances=str(ac and [[(a.start_pos, a.length) for a in l] for l in ac]), mode=str(mode), min_events=m)
    s = snap(log)
    cx = ctx()
    cx.with_log(log)
    if ac is not None:
        cx.with_trace_activities(ac).with_activities(list(old))
    r = api(HL, 'AdjustWithActivitiesFromUnattachedEvents')(dflt, level, min_events_in_trace=m, adjusting_mode=mode).execute(cx)
    res, acts = acc.traces_activities(r), acc.activities(r)
    ac0 = ac or [[] for _ in log]
    keep = old if ac is not None else []
    eq([id(x) for x in acts[:len(keep)]], [id(x) for x in keep], 'activities kept')
    for a in acts[len(keep):]:
        eq(a.activity_level, level, 'level of the added activities')
    for t, o, l in zip(log, ac0, res):
        pos = 0
        for a in l:
            expect(a.length >= 1 and a.start_pos >= pos, 'instances are not ordered and disjoint')
            pos = a.start_pos + a.length
        expect(pos <= len(t), 'an instance leaves the trace')
        for x in o:
            expect(sum(a is x for a in l) == 1, 'existing instance (%d, %d) was lost or repeated' % (x.start_pos, x.length))
        gs = [g for g in gaps(len(t), o) if g[1] - g[0] >= m]
        for a in l:
            if not any(a is x for x in o):
                expect(any(g[0] <= a.start_pos and a.start_pos + a.length <= g[1] for g in gs), 'an added instance (%d, %d) is not inside a large enough gap' % (a.start_pos, a.length))
    same_snap(log, s)
    nt(any(len(l) > len(o) for l, o in zip(res, ac0)))


def tree_event(rng, depth):
    e = mk_event('e%d' % rng.randint(0, 99))
    if depth > 0 and rng.random() < 0.6:
        e[UE] = [tree_event(rng, depth - 1) for _ in range(rng.randint(0, 3))]
    return e


def leaves(e):
    return [y for x in e[UE] for y in leaves(x)] if UE in e else [e]


@check()
def leaf_counts(rng):
    log = EL().MyEventLog()
    for _ in range(rng.randint(0, 3)):
        t = EL().MyTrace()
        for _ in range(rng.randint(0, 4)):
            t.append(tree_event(rng, 3))
        log.append(t)
    note.update(log=str(show(log))[:600])
    s = snap(log)
    tot = 0
    for t in log:
        for e in t:
            n = leaves(e)
            tot += len(n)
            eq(api(EP, 'count_underlying_events')(e), len(n), 'leaves of an event')
            seen = []
            api(EP, 'execute_with_underlying_events')(e, seen.append)
            eq(sorted(id(x) for x in seen), sorted(id(x) for x in n), 'leaves visited')
        r = api(UT, 'substitute_original_events')(t)
        eq([id(x) for x in r], [id(y) for e in t for y in leaves(e)], 'substituted events')
    eq(api(EP, 'calculate_underlying_events_count')(log), tot, 'leaves of the log')
    same_snap(log, s)
    nt(tot)


@check()
def substitute_part(rng):
    P = api('legacy.pipelines.mutations.mutations_parts', 'SubstituteUnderlyingEvents')
    log = EL().MyEventLog()
    for _ in range(rng.randint(0, 3)):
        t = EL().MyTrace()
        for _ in range(rng.randint(0, 4)):
            t.append(tree_event(rng, 3))
        log.append(t)
    s = snap(log)
    cx = ctx()
    cx.with_log(log)
    r = api('legacy.pipelines.contexts.accessors', 'log')(P().execute(cx))
    eq([[id(x) for x in t] for t in r], [[id(y) for e in t for y in leaves(e)] for t in log], 'events of the substituted log')
    same_snap(log, s)
    nt(len(log))


@check()
def until_no_more(rng):
    """repeated abstraction: substituting everything back restores the log"""
    HL = 'legacy.pipelines.analysis.high_level'
    acc = mod('legacy.pipelines.contexts.accessors')
    dflt = api(UT, 'default_class_extractor')
    sub = api(UT, 'substitute_original_events')
    log = C09.gen(rng)
    note.update(log=names(log))
    s = snap(log)
    cx = ctx()
    cx.with_log(log)
    r = api(HL, 'DiscoverActivitiesInstancesFromRepeatsUntilNoMore')(dflt).execute(cx)
    new = acc.log(r)
    eq([[e[CN] for e in sub(t)] for t in new], names(log), 'names after substituting the underlying events')
    eq(api(EP, 'calculate_underlying_events_count')(new), sum(map(len, log)), 'underlying events')
    same_snap(log, s)
    nt(sum(map(len, new)) < sum(map(len, log)))
