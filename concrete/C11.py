from base import *
import C09, C10
from C09 import collision, pick_extractor, CLS, tandem_names
CHECKS[:] = []

EP = 'legacy.analysis.patterns.event_log_patterns'
UT = 'legacy.analysis.patterns.util'
PP = 'legacy.pipelines.analysis.patterns.patterns_parts'


def walk(nodes):
    out = []
    st = list(nodes)
    while st:
        x = st.pop()
        out.append(x)
        expect(len(out) < 5000, 'the forest is not finite')
        st.extend(x.child_nodes)
    return out


def wide_log(rng, alph):
    return log_of(*[[rng.choice(alph) for _ in range(rng.randint(0, 10))] for _ in range(rng.randint(1, 6))])


def distinct_sets(rng, ts, n):
    """repeat sets with pairwise distinct class sets"""
    W = api('legacy.analysis.patterns.patterns_models', 'SubArrayWithTraceIndex')
    out, seen = [], set()
    for _ in range(n):
        ti = rng.randrange(len(ts))
        t = ts[ti]
        if not t:
            continue
        i = rng.randrange(len(t))
        l = rng.randint(1, len(t) - i)
        k = frozenset(t[i:i + l])
        if k not in seen:
            seen.add(k)
            out.append(W(i, l, ti))
    return out


def check_forest(roots, sets, ts, h, name_of, level, ext):
    nodes = walk(roots)
    eq(len({id(n) for n in nodes}), len(nodes), 'every node appears once in the forest (nodes reachable)')
    eq(sorted((n.repeat_set.first_pos, n.repeat_set.length, n.repeat_set.trace_index) for n in nodes),
       sorted((s.first_pos, s.length, s.trace_index) for s in sets), 'repeat sets carried by the nodes')
    cls = {}
    for n in nodes:
        s = n.repeat_set
        c = frozenset(ts[s.trace_index][s.first_pos:s.first_pos + s.length])
        cls[id(n)] = c
        eq(set(n.set_of_events), {h(x) for x in c}, 'event set of the node of %r' % (s,))
        eq(n.length, len(c), 'length of the node of %r' % (s,))
        eq(n.name, name_of(s), 'name of the node of %r' % (s,))
        eq(n.activity_level, level, 'level')
        expect(n.class_extractor is ext, 'class extractor of the node')
    for n in nodes:
        for ch in n.child_nodes:
            expect(cls[id(ch)] < cls[id(n)], 'child %s is not strictly inside its parent %s' % (sorted(cls[id(ch)]), sorted(cls[id(n)])))
    # considered before = larger (sorted by size, larger first)
    for r in roots:
        expect(not any(cls[id(r)] < cls[id(n)] for n in nodes), 'root %s is contained in another node' % sorted(cls[id(r)]))
    expect(all(sum(any(c is n for c in p.child_nodes) for p in nodes) + sum(r is n for r in roots) == 1 for n in nodes), 'a node has several parents')


@check()
def forest(rng):
    f = api(EP, 'build_repeat_set_tree')
    h = api('legacy.util', 'calculate_string_poly_hash')
    alph = [chr(65 + i) for i in range(rng.randint(1, 7))]
    log = wide_log(rng, alph)
    low = rng.random() < 0.3
    ext = (lambda e: e[CN].lower()) if low else api(UT, 'default_class_extractor')
    ts = [[(n.lower() if low else n) for n in t] for t in names(log)]
    sets = distinct_sets(rng, ts, rng.choice([0, 1, 2, 4, 8, 15, 25]))
    level = rng.randint(0, 3)
    note.update(log=names(log), sets=str(sets), level=level)
    s = snap(log)
    asked = []

    def nm(r):
        asked.append(r)
        return 'act-%d-%d-%d' % (r.trace_index, r.first_pos, r.length)
    before = list(sets)
    if low or rng.random() < 0.5:
        roots = f(log, sets, nm, level, ext)
    else:
        roots = f(log, sets, activity_names_creator=nm, activity_level=level)
    check_forest(roots, sets, ts, h, lambda r: 'act-%d-%d-%d' % (r.trace_index, r.first_pos, r.length), level, ext)
    expect(len(before) == len(sets) and all(a is b for a, b in zip(before, sets)), 'the list of repeat sets was changed')
    same_snap(log, s)
    nt(len(sets) > 2)


@check()
def discover_activities_part(rng):
    D = api(PP, 'DiscoverActivities')
    h = api('legacy.util', 'calculate_string_poly_hash')
    acc = api('legacy.pipelines.contexts.accessors', 'activities')
    alph = [chr(65 + i) for i in range(rng.randint(1, 7))]
    log = wide_log(rng, alph)
    low = rng.random() < 0.5
    ext = (lambda e: e[CN].lower()) if low else None
    ts = [[(n.lower() if low else n) for n in t] for t in names(log)]
    sets = distinct_sets(rng, ts, rng.choice([0, 1, 2, 4, 8, 15]))
    level = rng.randint(0, 3)
    note.update(log=names(log), sets=str(sets), level=level)
    s = snap(log)
    cx = ctx()
    cx.with_log(log).with_repeat_sets(sets)
    custom = rng.random() < 0.4
    args = [level, ext]

    def nm(sub, lg, ex):
        expect(lg is log, 'the name creator gets the log')
        return '%s/%d' % (ex(lg[sub.trace_index][sub.first_pos]), sub.length)
    if custom:
        args.append(nm)
    roots = acc(D(*args).execute(cx))
    sep = '::'

    def name_of(r):
        if custom:
            return '%s/%d' % (ts[r.trace_index][r.first_pos], r.length)
        return sep.join(sorted(set(ts[r.trace_index][r.first_pos:r.first_pos + r.length])))
    check_forest(roots, sets, ts, h, name_of, level, ext or api(UT, 'default_class_extractor'))
    same_snap(log, s)
    nt(len(sets) > 2)


@check()
def from_patterns(rng):
    """the whole discovery chain: patterns -> repeat sets -> forest, on the merged or the plain log"""
    D = api(PP, 'DiscoverActivitiesFromPatterns')
    T = api(PP, 'DiscoverTandemArrays')
    K = api('legacy.pipelines.analysis.patterns.models', 'TandemArrayKind')
    S = api(PP, 'ActivitiesDiscoveryStrategy')
    acc = api('legacy.pipelines.contexts.accessors', 'activities')
    log = C09.gen(rng)
    merged = rng.random() < 0.5
    level = rng.randint(0, 2)
    note.update(log=names(log), merged=merged)
    s = snap(log)
    cx = ctx()
    cx.with_log(log)
    r = D(T(K.MaximalArray, 12), S.DiscoverFromSingleMergedTrace if merged else S.DiscoverFromAllTraces, activity_level=level).execute(cx)
    nodes = walk(acc(r))
    if merged:
        t = []
        for i, x in enumerate(names(log)):
            t += x + [('sep', i)]
        exp = {frozenset(t[a[0]:a[0] + a[1]]) for a in C09.maximal(t, 12)}
    else:
        exp = {frozenset(t[a[0]:a[0] + a[1]]) for t in names(log) for a in C09.maximal(t, 12)}
    exp = sorted(sorted(x) for x in exp)
    eq(sorted(sorted(n.name.split('::')) for n in nodes), exp, 'classes of the discovered activities')
    for n in nodes:
        eq(n.activity_level, level, 'level')
    expect(api('legacy.pipelines.contexts.accessors', 'log')(r) is log, 'the log of the context is kept')
    same_snap(log, s)
    nt(len(exp) > 1)


@check()
def class_tree(rng):
    f = api(EP, 'build_class_tree')
    pool = [a + b + c for a in 'AB' for b in 'xyz' for c in 'PQ']
    alph = rand_alphabet(rng, pool, 10)
    log = log_of(*[[rng.choice(alph) for _ in range(rng.randint(0, 6))] for _ in range(rng.randint(0, 4))])
    exts = rng.choice([[], [lambda n: n[:2]], [lambda n: n[:2], lambda n: n[:1]], [lambda n: n[:1], lambda n: 'root'], [lambda n: n, lambda n: n[1:], lambda n: n]])
    note.update(log=names(log), extractors=len(exts))
    s = snap(log)
    top = f(log, exts)
    layer = [(n, frozenset([n])) for n in sorted({n for t in names(log) for n in t})]
    want = [{n: None for n, _ in layer}]
    for e in exts:
        d = {}
        for n in want[-1]:
            d.setdefault(e(n), []).append(n)
        want.append({k: sorted(v) for k, v in d.items()})
    cur = top
    seen = set()
    for depth in range(len(exts), -1, -1):
        eq(sorted(n.name for n in cur), sorted(want[depth]), 'names of layer %d' % depth)
        nxt = []
        for n in cur:
            expect(id(n) not in seen, 'a node appears twice')
            seen.add(id(n))
            if depth == 0:
                eq(len(n.child_nodes), 0, 'children of leaf %s' % n.name)
            else:
                eq(sorted(c.name for c in n.child_nodes), want[depth][n.name], 'children of %s' % n.name)
            nxt += n.child_nodes
        cur = nxt
    same_snap(log, s)
    nt(len(want[0]) > 1 and exts)


def rand_nodes(rng, n, levels=4):
    A = api('legacy.analysis.patterns.patterns_models', 'ActivityNode')
    return [A(name=rng.choice('abc'), repeat_set=None, set_of_events={rng.randint(0, 3)}, class_extractor=None, activity_level=rng.randrange(levels)) for _ in range(n)]


@check()
def by_level(rng):
    d, l, g = api(UT, 'split_activities_by_levels_dict'), api(UT, 'split_activities_by_level'), api(UT, 'get_activities_for_level')
    nodes = rand_nodes(rng, rng.randint(0, 8))
    note.update(levels=[n.activity_level for n in nodes])
    arg = list(nodes)
    exp = {k: [id(n) for n in nodes if n.activity_level == k] for k in {n.activity_level for n in nodes}}
    r = d(arg)
    eq({k: [id(n) for n in v] for k, v in r.items()}, exp, 'activities by level')
    eq([(k, [id(n) for n in v]) for k, v in l(arg)], sorted(exp.items()), 'activities sorted by level')
    for k in exp:
        eq([id(n) for n in g(arg, k)], exp[k], 'activities of level %d' % k)
    expect([id(n) for n in arg] == [id(n) for n in nodes], 'the list given was changed')
    nt(len(exp) > 1)


@check(max_iter=3)
def colliding_class_names(rng):
    h = api('legacy.util', 'calculate_string_poly_hash')
    f = api(EP, 'build_repeat_set_tree')
    W = api('legacy.analysis.patterns.patterns_models', 'SubArrayWithTraceIndex')
    a, b = collision(h)
    log = log_of([a, 'C', b])
    note.update(log=names(log))
    roots = f(log, [W(0, 3, 0)], lambda r: 'x', 0)
    eq(roots[0].length, 3, 'number of classes of an activity made of three classes, two with equal hashes', key='class-hash-collision')
    nt()
