from base import *
import C13
from C13 import rand_instances, inst_list
CHECKS[:] = []

EP = 'legacy.analysis.patterns.event_log_patterns'
UT = 'legacy.analysis.patterns.util'
PP = 'legacy.pipelines.analysis.patterns.patterns_parts'


def anode(name, level, rs=None):
    A = api('legacy.analysis.patterns.patterns_models', 'ActivityNode')
    return A(name=name, repeat_set=rs, set_of_events=set(), class_extractor=None, activity_level=level)


def up(k):
    """extractor of level k: keeps the first (3 - k) letters of the name"""
    return lambda e: e[CN][:max(1, 3 - k)]


def gen(rng):
    W = api('legacy.analysis.patterns.patterns_models', 'SubArrayWithTraceIndex')
    pool = [a + b + c for a in 'AB' for b in 'xy' for c in 'PQ']
    alph = rand_alphabet(rng, pool, 6)
    log = EL().MyEventLog()
    for _ in range(rng.randint(1, 4)):
        t = EL().MyTrace()
        for _ in range(rng.randint(1, 10)):
            t.append(mk_event(rng.choice(alph), **rand_payload(rng, True)))
        log.append(t)
    nodes = []
    for i in range(rng.randint(1, 6)):
        ti = rng.randrange(len(log))
        p = rng.randrange(len(log[ti]))
        nodes.append(anode(rng.choice(['act', 'other', 'third']), rng.randint(0, 3), W(p, rng.randint(1, min(3, len(log[ti]) - p)), ti)))
    return log, nodes, rand_instances(rng, log, nodes)


def got(d):
    return {k: [[payload(e) for e in t] for t in l] for k, l in d.items()}


def renamed(ev, name):
    return [(k, name if k == CN else v) for k, v in payload(ev)]


@check()
def per_activity(rng):
    f = api(EP, 'create_logs_for_activities')
    log, nodes, ac = gen(rng)
    level = rng.randint(0, 3)
    k = rng.randint(0, 2)
    ext = up(k)
    note.update(log=names(log), instances=str([[(a.node.name, a.node.activity_level, a.start_pos, a.length) for a in l] for l in ac]), level=level, keep_letters=3 - k)
    s, ia = snap(log), inst_list(ac)
    exp = {}
    for t, l in zip(log, ac):
        for a in l:
            if a.node.activity_level == level:
                exp.setdefault(a.node.name, []).append([renamed(t[i], t[i][CN][:3 - k]) for i in range(a.start_pos, a.start_pos + a.length)])
    if rng.random() < 0.6:
        r = f(log, ac, level, ext)
    else:
        P = api(PP, 'CreateLogsForActivities')
        cx = ctx()
        cx.with_log(log).with_trace_activities(ac)
        r = api('legacy.pipelines.contexts.accessors', 'activities_to_logs')(P(level, ext).execute(cx))
    eq(got(r), exp, 'logs per activity')
    ids = {id(e) for t in log for e in t}
    expect(not any(id(e) in ids for l in r.values() for t in l for e in t), 'events of the new logs must be copies')
    same_snap(log, s)
    eq(inst_list(ac), ia, 'instances after the call')
    for l in r.values():
        for t in l:
            for e in t:
                e['zzz'] = 1
    same_snap(log, s, 'the original log (after changing the new ones)')
    nt(exp)


@check()
def promotion(rng):
    f = api(EP, 'create_logs_for_activities_with_promote')
    log, nodes, ac = gen(rng)
    level = rng.randint(0, 2)
    exts = [up(k) for k in range(level + 1)]
    adjust = rng.random() < 0.6
    note.update(log=names(log), instances=str([[(a.node.name, a.node.activity_level, a.start_pos, a.length, str(a.node.repeat_set)) for a in l] for l in ac]), level=level, adjust=adjust)
    s, ia = snap(log), inst_list(ac)
    cls = lambda n: n[:max(1, 3 - level)]
    exp = {}
    for t, l in zip(log, ac):
        for a in l:
            if a.node.activity_level > level:
                continue
            cov = [t[i] for i in range(a.start_pos, a.start_pos + a.length)]
            if a.node.activity_level < level:
                rs = a.node.repeat_set
                rc = {cls(log[rs.trace_index][i][CN]) for i in range(rs.first_pos, rs.first_pos + rs.length)}
                if rc != {cls(e[CN]) for e in cov}:
                    continue
            exp.setdefault(a.node.name, []).append([renamed(e, cls(e[CN])) if adjust else payload(e) for e in cov])
    if rng.random() < 0.6:
        r = f(log, ac, level, exts, adjust) if not adjust or rng.random() < 0.5 else f(log, ac, level, exts)
    else:
        P = api(PP, 'CreateLogsForActivitiesWithPromote')
        cx = ctx()
        cx.with_log(log).with_trace_activities(ac)
        r = api('legacy.pipelines.contexts.accessors', 'activities_to_logs')(P(level, exts, adjust).execute(cx))
    eq(got(r), exp, 'logs per activity with promotion')
    same_snap(log, s)
    eq(inst_list(ac), ia, 'instances after the call')
    if adjust:
        for l in r.values():
            for t in l:
                for e in t:
                    e['zzz'] = 1
        same_snap(log, s, 'the original log (after changing the new ones)')
    nt(exp)


@check()
def for_level(rng):
    f = api(UT, 'select_traces_activities_for_activity_level')
    g = api(UT, 'get_activities_for_level')
    log, nodes, ac = gen(rng)
    level = rng.randint(0, 3)
    note.update(instances=str([[(a.node.activity_level, a.start_pos, a.length) for a in l] for l in ac]), level=level)
    ia = inst_list(ac)
    r = f(ac, level)
    eq([[id(a) for a in l] for l in r], [[id(a) for a in l if a.node.activity_level == level] for l in ac], 'instances of level %d' % level)
    eq(inst_list(ac), ia, 'instances after the call')
    if any(n.activity_level == level for n in nodes):
        eq([id(n) for n in g(list(nodes), level)], [id(n) for n in nodes if n.activity_level == level], 'activities of level %d' % level)
    nt(any(r))


@check()
def each_activity_log(rng):
    HL = 'legacy.pipelines.analysis.high_level'
    E = api(HL, 'ExecuteWithEachActivityLog')
    B = api('legacy.pipelines.pipelines', 'InternalPipelinePart')
    P = api('legacy.pipelines.pipelines', 'Pipeline')
    acc = mod('legacy.pipelines.contexts.accessors')
    seen = []

    class Rec(B):
        def execute(self, c):
            seen.append((acc.activity_name(c), acc.log(c)))
            return c
    logs = {'a%d' % i: log_of(['x'] * i) for i in range(rng.randint(0, 4))}
    cx = ctx()
    cx.with_log(log_of(['z'])).with_activities_logs(logs)
    before = dict(cx.values)
    r = E(P(Rec())).execute(cx)
    eq([n for n, _ in seen], list(logs), 'activities visited')
    expect(all(l is logs[n] for n, l in seen), 'each activity is executed with its own log')
    expect(r is cx and dict(cx.values) == before, 'the context is untouched')
    nt(len(logs) > 1)
