from base import *
import copy

CV = 'legacy.log.pm4py_converters'


def val(rng):
    return rng.choice([1, 'x', 2.5, True, None, ['l', 1], {'n': [1]}, 'same', (1, 2), ([1], 'x'), [[1], {'m': {}}], {3}])


def gen(rng):
    E = EL()
    log = rand_log(rng, rich=True)
    for t in log:
        t.attributes = {k: copy.deepcopy(val(rng)) for k in rng.sample(['a', 'b', CN], rng.randint(0, 3))}
        for e in t:
            if rng.random() < 0.4:
                e['deep'] = copy.deepcopy(val(rng))
    d = lambda: {k: copy.deepcopy(val(rng)) for k in rng.sample(['p', 'q', 'r', 's'], rng.randint(0, 3))}
    log.attributes, log.extensions, log.classifiers, log.properties, log.global_values = d(), d(), d(), d(), {'event': d()} if rng.random() < .5 else {}
    note['log'] = (show(log), [t.attributes for t in log], log.attributes, log.extensions, log.classifiers, log.properties, log.global_values)
    return log


META = ('attributes', 'extensions', 'classifiers', 'properties', 'global_values')


def deepsnap(log):
    return ([([copy.deepcopy(list(e.payload.items())) for e in t.raw_events], copy.deepcopy(t.attributes)) for t in log.traces],
            [copy.deepcopy(getattr(log, m)) for m in META])


def wreck_value(v):
    if isinstance(v, (list, tuple)):
        for x in v:
            wreck_value(x)
    if isinstance(v, list):
        v.append('W')
    elif isinstance(v, set):
        v.add('W')
    elif isinstance(v, dict):
        for x in list(v.values()):
            wreck_value(x)
        v['W'] = 1


def wreck_event(e):
    for v in list(e.payload.values()):
        wreck_value(v)
    e['W'] = 1
    e.payload.pop(CN, None)


@check()
def event_copy(rng):
    log = gen(rng)
    for t in log:
        for e in t:
            s = copy.deepcopy(list(e.payload.items()))
            c = copy.copy(e)
            eq(payload(c), s, 'copied payload')
            expect(c is not e and c.payload is not e.payload, 'the copy is a new event')
            c['W'] = 1
            if CN in c.payload:
                del c[CN]
            eq(payload(e), s, 'original after changing the copy')
            d = copy.deepcopy(e)
            eq(payload(d), s, 'deep copied payload')
            wreck_event(d)
            eq(payload(e), s, 'original after changing the deep copy')
            d2 = copy.deepcopy(e)
            wreck_event(e)
            eq(payload(d2), s, 'deep copy after changing the original')
            nt()


@check()
def trace_copy(rng):
    log = gen(rng)
    for t in log:
        s = deepsnap(log)
        ids = [id(e) for e in t]
        c = copy.copy(t)
        eq([id(e) for e in c], ids, 'a copy of a trace holds the same events')
        eq(c.attributes, t.attributes, 'attributes of a copied trace')
        c.append(mk_event('new'))
        c.insert(mk_event('new2'), 0)
        if len(c) > 2:
            del c[1]
        c.attributes['W'] = 1
        eq([id(e) for e in t], ids, 'original trace after changing the copy')
        eq(deepsnap(log), s, 'original after changing the copy')
        d = copy.deepcopy(t)
        eq([payload(e) for e in d], [payload(e) for e in t], 'payloads of a deep copied trace')
        eq(d.attributes, t.attributes, 'attributes of a deep copied trace')
        for e in d:
            wreck_event(e)
        for v in d.attributes.values():
            wreck_value(v)
        d.append(mk_event('x'))
        eq(deepsnap(log), s, 'original after changing the deep copy')
        nt(len(t) > 1)


@check()
def log_copy(rng):
    log = gen(rng)
    s = deepsnap(log)
    c = copy.copy(log)
    eq([id(t) for t in c], [id(t) for t in log], 'a copy of a log holds the same traces')
    for m in META:
        eq(getattr(c, m), getattr(log, m), m + ' of the copy')
        getattr(c, m)['W'] = 1
    c.append(EL().MyTrace())
    if len(c) > 1:
        del c[0]
    if len(c):
        c[0] = EL().MyTrace()
    eq(deepsnap(log), s, 'original after changing the copy')
    d = copy.deepcopy(log)
    eq(deepsnap(d), s, 'deep copy')
    for m in META:
        wreck_value(getattr(d, m))
    for t in d:
        for v in t.attributes.values():
            wreck_value(v)
        t.attributes['W'] = 1
        for e in t:
            wreck_event(e)
        t.append(mk_event('x'))
    d.append(EL().MyTrace())
    eq(deepsnap(log), s, 'original after changing the deep copy')
    nt(len(log) > 1)


@check()
def pm4py(rng):
    log = gen(rng)
    s = deepsnap(log)
    p = api(CV, 'to_pm4py_log')(log)
    eq([[list(e._dict.items()) for e in t] for t in p], [x[0] for x in s[0]], 'payloads in the pm4py log')
    r = api(CV, 'from_pm4py_log')(p)
    eq([[payload(e) for e in t] for t in r], [x[0] for x in s[0]], 'payloads after the round trip')
    for t in r:
        for e in t:
            wreck_event(e)
    eq([[list(e._dict.items()) for e in t] for t in p], [x[0] for x in s[0]], 'pm4py log after changing the converted one')
    for t in p:
        for e in t:
            for v in list(e._dict.values()):
                wreck_value(v)
            e['W'] = 1
    eq(deepsnap(log), s, 'source after changing the pm4py log')
    from pm4py.objects.log.obj import EventLog, Event, Trace
    q = EventLog([Trace([Event({CN: 'A', 'l': [1]})], attributes={'x': [1]})], attributes={'k': 1, 'l': [2]})
    q._properties = {'p': 1}
    q._classifiers = {'c': ['a']}
    q._extensions = {'e': {'uri': 'u'}}
    q._omni = {'event': {'d': 'v'}}
    m = api(CV, 'from_pm4py_log')(q)
    eq((dict(m.attributes), dict(m[0].attributes), payload(m[0][0])), ({'k': 1, 'l': [2]}, {'x': [1]}, [(CN, 'A'), ('l', [1])]), 'metadata from pm4py')
    eq((m.properties, m.classifiers, m.extensions, m.global_values), (q.properties, q.classifiers, q.extensions, q.omni_present), 'metadata from pm4py')
    m.attributes['l'].append(1)
    m[0].attributes['x'].append(1)
    m[0][0]['l'].append(1)
    eq((q.attributes, q[0].attributes, dict(q[0][0]._dict)), ({'k': 1, 'l': [2]}, {'x': [1]}, {CN: 'A', 'l': [1]}), 'pm4py source after changing the converted log')
    kept = copy.deepcopy((q.properties, q.classifiers, q.extensions, q.omni_present))
    m.properties['p'] = 2
    m.classifiers['c'].append('b')
    m.extensions['e']['uri'] = 'v'
    m.global_values['event']['d'] = 'w'
    eq((q.properties, q.classifiers, q.extensions, q.omni_present), kept, 'pm4py metadata after changing that of the converted log')
    nt(len(log) > 1)


@check()
def equality(rng):
    E = EL()
    log = gen(rng)

    def shuffled(d):
        it = list(d.items())
        rng.shuffle(it)
        return {k: copy.deepcopy(v) for k, v in it}
    c = E.MyEventLog([E.MyTrace([E.MyEvent(shuffled(e.payload)) for e in t], shuffled(t.attributes)) for t in log],
                     shuffled(log.attributes), shuffled(log.extensions), shuffled(log.classifiers), shuffled(log.properties), shuffled(log.global_values))
    for a, b in [(log, c)] + list(zip(log, c)) + [(x, y) for t, u in zip(log, c) for x, y in zip(t, u)]:
        expect(hash(a) == hash(b), 'equal content, different hashes')
        expect(a == b and not a != b, 'equal content compares different')
    # different content: compares different unless the (stated) hashes collide
    for t in log:
        for e in t:
            f = copy.deepcopy(e)
            f['extra'] = 'zzz'
            expect(f != e, 'different payloads compare equal: %s' % f)
            nt()
        u = copy.copy(t)
        u.append(mk_event('other'))
        expect(u != t, 'different traces compare equal')
    l2 = copy.copy(log)
    l2.append(E.MyTrace([mk_event('q')]))
    expect(l2 != log, 'different logs compare equal')
    l3 = copy.copy(log)
    l3.attributes['zz'] = 'y'
    expect(l3 != log, 'logs with different attributes compare equal')


M, Pp = 10 ** 9 + 7, 31


def poly(vals, start):
    return (start + sum((1 + v) * pow(Pp, i) for i, v in enumerate(vals))) % M


@check()
def hashes(rng):
    U = 'legacy.util'
    s = ''.join(rng.choice('abzAZ09 \u017e\U0001F600_') for _ in range(rng.choice([0, 1, 2, 5, 40])))
    note['s'] = s
    eq(api(U, 'calculate_string_poly_hash')(s), poly([ord(c) for c in s], 0), 'string hash')
    c = [rng.randint(-5, 10 ** 12) for _ in range(rng.randint(0, 8))]
    note['c'] = c
    eq(api(U, 'calculate_poly_hash_for_collection')(c), poly([hash(x) for x in c], 1) if c else 0, 'collection hash')
    if c:
        a = rng.randint(0, len(c))
        b = rng.randint(a, len(c))
        note['range'] = (a, b)
        eq(api(U, 'calculate_poly_hash_for_collection')(c, a, b), poly([hash(x) for x in c[a:b]], 1), 'hash of a range')
        eq(api(U, 'calculate_poly_hash_for_collection')(c, a), poly([hash(x) for x in c[a:]], 1), 'hash of a suffix')
    d = {rng.choice(['a', 'b', 'c', 1, '1']): rng.choice(['x', 1, None]) for _ in range(rng.randint(0, 4))}
    note['d'] = d
    ps = sorted(str(k) + str(v) for k, v in d.items())
    eq(api(U, 'calculate_dict_hash')(d), poly([poly([ord(q) for q in x], 0) for x in ps], 1) if ps else 0, 'dict hash')
    hs = [rng.randint(0, 99) for _ in range(rng.randint(0, 4))]
    e = 0
    if hs:
        e = hs[0]
        for x in hs[1:]:
            e = hash((e, x))
    eq(api(U, 'combine_list_of_hashes')(hs), e, 'combined hashes')
    eq(api(U, 'combine_hash_values')(*hs), e, 'combined hashes')
    ev = EL().MyEvent(dict(d))
    eq(hash(ev), api(U, 'calculate_dict_hash')(d), 'event hash')
    dd = api(U, 'deep_copy_dict')({'a': [1], **d})
    eq(dd, {'a': [1], **d}, 'deep copied dict')
    nt(len(c) > 2)
