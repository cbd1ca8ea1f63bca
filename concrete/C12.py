from base import *
import C09, C10, C11
from C09 import collision
CHECKS[:] = []

EP = 'legacy.analysis.patterns.event_log_patterns'
UT = 'legacy.analysis.patterns.util'
PP = 'legacy.pipelines.analysis.patterns.patterns_parts'
MP = 'legacy.pipelines.mutations.mutations_parts'


def rand_forest(rng, classes, depth=3):
    """a forest whose children have strictly smaller sets; sets are hashes of class names"""
    A = api('legacy.analysis.patterns.patterns_models', 'ActivityNode')
    h = api('legacy.util', 'calculate_string_poly_hash')

    def node(cs, d):
        n = A(name='::'.join(sorted(cs)), repeat_set=None, set_of_events={h(c) for c in cs}, class_extractor=None, activity_level=0)
        n._cs = frozenset(cs)
        if d > 0:
            for _ in range(rng.choice([0, 0, 1, 2, 3])):
                k = rng.randint(0, len(cs) - 1)
                if k:
                    n.child_nodes.append(node(rng.sample(sorted(cs), k), d - 1))
        return n
    roots = []
    for _ in range(rng.randint(0, 4)):
        roots.append(node(rng.sample(classes, rng.randint(1, min(len(classes), 4))), rng.randint(0, depth)))
    return roots


def smallest(node, seen):
    """candidates of narrowing: descendants reachable through nodes that contain everything seen"""
    best = None
    q = list(node.child_nodes)
    while q:
        x = q.pop()
        if seen <= x.set_of_events:
            if best is None or len(x.set_of_events) < best:
                best = len(x.set_of_events)
            q.extend(x.child_nodes)
    return best


def all_under(node):
    out, q = [], list(node.child_nodes)
    while q:
        x = q.pop()
        out.append(x)
        q.extend(x.child_nodes)
    return out


def check_instances(hs, roots, res, narrow, accept, offered=None):
    eq(len(res), len(hs), 'one list of instances per trace')
    for t, r in zip(hs, res):
        pos = 0
        covered = [False] * len(t)
        for a in r:
            expect(a.length >= 1, 'empty instance at %d' % a.start_pos)
            expect(a.start_pos >= pos, 'instance at %d overlaps or precedes the previous one ending at %d' % (a.start_pos, pos))
            pos = a.start_pos + a.length
            expect(pos <= len(t), 'instance [%d, %d) leaves the trace of length %d' % (a.start_pos, pos, len(t)))
            seen = set(t[a.start_pos:pos])
            expect(seen <= a.node.set_of_events, 'the instance [%d, %d) covers events outside of its activity %s' % (a.start_pos, pos, a.node.name))
            for i in range(a.start_pos, pos):
                covered[i] = True
            expect(accept(a), 'a rejected instance was reported')
            owners = [x for x in roots if x is a.node or any(y is a.node for y in all_under(x))]
            expect(owners, 'the instance belongs to no given activity')
            if not narrow:
                expect(any(x is a.node for x in roots), 'without narrowing the activity must be one of those given')
            else:
                def ok(x):
                    b = smallest(x, seen)
                    return (x is a.node and b is None) if b is None else (a.node.length == b and x is not a.node)
                expect(any(ok(x) for x in owners if seen <= x.set_of_events), 'the activity %s of instance [%d, %d) is not the smallest reachable one containing what was seen' % (a.node.name, a.start_pos, pos))
        if offered is None:
            for i, c in enumerate(covered):
                expect(c or not any(t[i] in x.set_of_events for x in roots), 'event %d is covered by no instance although an activity contains it' % i)


def gen(rng):
    classes = [chr(65 + i) for i in range(rng.randint(1, 7))]
    log = log_of(*[[rng.choice(classes) for _ in range(rng.choice([0, 1, 3, 6, 10, 15]))] for _ in range(rng.randint(0, 4))])
    return classes, log, rand_forest(rng, classes)


def forest_snap(roots):
    return [(id(x), x.name, frozenset(x.set_of_events), [id(c) for c in x.child_nodes]) for x in C11.walk(roots)]


@check()
def instances(rng):
    f = api(EP, 'extract_activities_from_log')
    h = api('legacy.util', 'calculate_string_poly_hash')
    classes, log, roots = gen(rng)
    low = rng.random() < 0.25
    hs = [[h(n) for n in t] for t in names(log)]
    ext = None
    if low:
        for t in log:
            for e in t:
                e[CN] = e[CN].lower()
        ext = lambda e: e[CN].upper()
    narrow = rng.random() < 0.6
    filt = rng.choice(['none', 'none', 'len', 'name', 'no'])
    fn = {'none': None, 'len': lambda a: a.length >= 2, 'name': lambda a: 'A' in a.node.name, 'no': lambda a: False}[filt]
    note.update(log=names(log), roots=[str(sorted(x.name for x in C11.walk([r]))) for r in roots], narrow=narrow, filter=filt)
    s, fs = snap(log), forest_snap(roots)
    arg = list(roots)
    offered = []

    def wrap(a):
        offered.append(a)
        return fn(a) if fn else True
    kind = rng.choice(['f', 'part'])
    if kind == 'f':
        if fn is None and rng.random() < 0.5:
            res = f(log, arg, ext, should_narrow_activity=narrow) if not narrow or rng.random() < 0.5 else f(log, arg, ext)
        else:
            res = f(log, arg, ext, wrap, narrow)
    else:
        D = api(PP, 'DiscoverActivitiesInTraces')
        cx = ctx()
        cx.with_log(log).with_activities(arg)
        kw = {} if ext is None else {'class_extractor': ext}
        if fn is not None:
            kw['activity_in_trace_filter'] = wrap
        if not narrow:
            kw['should_narrow_activity'] = False
        res = api('legacy.pipelines.contexts.accessors', 'traces_activities')(D(**kw).execute(cx))
    check_instances(hs, roots, res, narrow, fn or (lambda a: True), None if fn is None else offered)
    if fn is not None:
        got = [a for r in res for a in r]
        eq([id(a) for a in got], [id(a) for a in offered if fn(a)], 'accepted instances, in order')
        # what the filter saw is itself the unfiltered result
        full = extract_all(f, log, roots, ext, narrow)
        eq([(id(a.node), a.start_pos, a.length) for a in offered], [(id(a.node), a.start_pos, a.length) for r in full for a in r], 'instances offered to the filter')
    expect([id(x) for x in arg] == [id(x) for x in roots], 'the list of activities was changed')
    expect(forest_snap(roots) == fs, 'the activities were changed')
    same_snap(log, s)
    nt(any(res))


def extract_all(f, log, roots, ext, narrow):
    return f(log, list(roots), ext, lambda a: True, narrow)


@check()
def narrowing(rng):
    f = api(EP, 'narrow_activity')
    classes = [chr(65 + i) for i in range(rng.randint(2, 7))]
    roots = rand_forest(rng, classes, 4)
    if not roots:
        raise Skip()
    n = rng.choice(roots)
    # make narrowing bite: children that keep most of the set
    if rng.random() < 0.6 and n.length > 1:
        A = type(n)
        cur = n
        for _ in range(rng.randint(1, 3)):
            ev = sorted(cur.set_of_events)
            if len(ev) < 2:
                break
            ev.remove(rng.choice(ev))
            ch = A(name='c', repeat_set=None, set_of_events=set(ev), class_extractor=None, activity_level=0)
            cur.child_nodes.insert(rng.randint(0, len(cur.child_nodes)), ch)
            if rng.random() < 0.7:
                cur = ch
    seen = set(rng.sample(sorted(n.set_of_events), rng.randint(1, n.length)))
    if rng.random() < 0.5:
        seen = set(rng.sample(sorted(seen), 1))
    note.update(root=str(n), seen=str(sorted(seen)))
    fs, s0 = forest_snap(roots), set(seen)
    r = f(n, seen)
    b = smallest(n, seen)
    if b is None:
        expect(r is n, 'no descendant contains everything seen: the activity itself must be returned')
    else:
        expect(any(x is r for x in all_under(n)), 'not a descendant')
        expect(seen <= r.set_of_events, 'the narrowed activity does not contain all events seen')
        eq(r.length, b, 'size of the narrowed activity (smallest reachable)')
        nt()
    expect(forest_snap(roots) == fs and seen == s0, 'the activities or the set were changed')


@check()
def split_by_size(rng):
    f = api(UT, '_split_activity_nodes_by_size')
    classes = [chr(65 + i) for i in range(rng.randint(1, 7))]
    roots = rand_forest(rng, classes, 0) + rand_forest(rng, classes, 0)
    note.update(roots=[r.name for r in roots])
    arg = list(roots)
    r = f(arg)
    eq(sorted(id(x) for l in r for x in l), sorted(id(x) for x in roots), 'activities kept')
    sizes = [sorted({x.length for x in l}) for l in r]
    expect(all(len(x) == 1 for x in sizes), 'a group mixes sizes: %s' % sizes)
    eq([x[0] for x in sizes], sorted({x.length for x in roots}), 'sizes of the groups')
    for l in r:
        eq([x.name for x in l], sorted(x.name for x in l), 'order inside a group')
    expect([id(x) for x in arg] == [id(x) for x in roots], 'the list of activities was changed')
    nt(len(r) > 1)


@check()
def discovery_parts(rng):
    """the combined parts: instances of the activities they discover"""
    acc = mod('legacy.pipelines.contexts.accessors')
    h = api('legacy.util', 'calculate_string_poly_hash')
    K = api('legacy.pipelines.analysis.patterns.models', 'TandemArrayKind')
    T = api(PP, 'DiscoverTandemArrays')
    P = api(PP, 'DiscoverActivitiesFromPatterns')
    I = api(PP, 'DiscoverActivitiesInTraces')
    S = api(PP, 'ActivitiesDiscoveryStrategy')
    PL = api('legacy.pipelines.pipelines', 'Pipeline')
    log = C09.gen(rng)
    narrow = rng.random() < 0.5
    note.update(log=names(log), narrow=narrow)
    s = snap(log)
    cx = ctx()
    cx.with_log(log)
    r = PL(P(T(K.MaximalArray, 12), S.DiscoverFromAllTraces), I(should_narrow_activity=narrow))(cx)
    check_instances([[h(n) for n in t] for t in names(log)], acc.activities(r), acc.traces_activities(r), narrow, lambda a: True)
    same_snap(log, s)
    nt(any(acc.traces_activities(r)))


@check()
def high_level_parts(rng):
    HL = 'legacy.pipelines.analysis.high_level'
    acc = mod('legacy.pipelines.contexts.accessors')
    h = api('legacy.util', 'calculate_string_poly_hash')
    K = api('legacy.pipelines.analysis.patterns.models', 'TandemArrayKind')
    R = api(PP, 'RepeatActivitiesSource')
    log = C09.gen(rng) if rng.random() < 0.5 else C10.gen(rng)
    narrow = rng.random() < 0.5
    ext, c = C09.pick_extractor(rng, log)
    level = rng.randint(0, 2)
    filt = rng.choice([None, None, lambda a: a.length >= 3])
    kw = dict(activity_level=level, should_narrow_activity=narrow)
    if ext is not None:
        kw['class_extractor'] = ext
    if filt:
        kw['activity_in_trace_filter'] = filt
    note.update(log=names(log), narrow=narrow, filter=bool(filt), extractor=str(ext))
    s = snap(log)
    cx = ctx()
    cx.with_log(log)
    if rng.random() < 0.5:
        note['part'] = 'DiscoverActivitiesFromTandemArrays'
        part = api(HL, 'DiscoverActivitiesFromTandemArrays')(K.MaximalArray, 12, **kw)
    else:
        note['part'] = 'DiscoverActivitiesInstancesFromRepeats'
        part = api(HL, 'DiscoverActivitiesInstancesFromRepeats')(rng.choice([R.MaximalRepeats, R.SuperMaximalRepeats, R.NearSuperMaximalRepeats]), **kw)
    r = part.execute(cx)
    hs = [[h(n) for n in t] for t in C09.classes(log, c)]
    check_instances(hs, acc.activities(r), acc.traces_activities(r), narrow, filt or (lambda a: True), [] if filt else None)
    if filt:
        f = api(EP, 'extract_activities_from_log')
        full = f(log, acc.activities(r), ext, lambda a: True, narrow)
        eq([[(id(a.node), a.start_pos, a.length) for a in t] for t in acc.traces_activities(r)],
           [[(id(a.node), a.start_pos, a.length) for a in t if filt(a)] for t in full], 'exactly the instances accepted by the filter')
    same_snap(log, s)
    nt(any(acc.traces_activities(r)))


@check(max_iter=3)
def colliding_class_names(rng):
    h = api('legacy.util', 'calculate_string_poly_hash')
    f = api(EP, 'extract_activities_from_log')
    A = api('legacy.analysis.patterns.patterns_models', 'ActivityNode')
    a, b = collision(h)
    log = log_of([a, b])
    note.update(log=names(log))
    r = f(log, [A(name=a, repeat_set=None, set_of_events={h(a)}, class_extractor=None, activity_level=0)])
    eq([(x.start_pos, x.length) for x in r[0]], [(0, 1)], 'instances of an activity of one class next to another class with the same hash', key='class-hash-collision')
    nt()
