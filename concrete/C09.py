from base import *

EP = 'legacy.analysis.patterns.event_log_patterns'
PP = 'legacy.pipelines.analysis.patterns.patterns_parts'


def run_len(t, i, l):
    n = 1
    while t[i + n * l:i + (n + 1) * l] == t[i:i + l]:
        n += 1
    return n


def maximal(t, limit):
    """first occurrence of each block of length 2..limit-1 that repeats there: (pos, length, count)"""
    out, seen = [], set()
    for l in range(2, limit):
        for i in range(len(t) - l + 1):
            b = tuple(t[i:i + l])
            if b in seen:
                continue
            seen.add(b)
            n = run_len(t, i, l)
            if n >= 2:
                out.append((i, l, n))
    return out


def primitive(t, limit):
    return [a for a in maximal(t, limit) if not any(run_len(t, a[0], m) >= 2 for m in range(2, (a[1] + 1) // 2 + 1))]


def got(rs):
    return [sorted((a.first_pos, a.length, a.repeat_count) for a in r) for r in rs]


def tandem_names(rng, alph):
    """names with nested repetitions"""
    out = []
    for _ in range(rng.randint(0, 4)):
        unit = [rng.choice(alph) for _ in range(rng.randint(1, 5))]
        if rng.random() < 0.3:
            unit = unit * 2 + [rng.choice(alph)] * rng.randint(0, 1)
        out += unit * rng.choice([1, 1, 2, 2, 3, 4])
    if out and rng.random() < 0.3:
        out[rng.randrange(len(out))] = rng.choice(alph)
    if out and rng.random() < 0.3:
        out = out[:rng.randint(1, len(out))]
    return out[:rng.choice([12, 24, 40])]


def gen(rng):
    alph = ALPH[:rng.randint(1, 5)]
    log = log_of(*[tandem_names(rng, alph) for _ in range(rng.randint(0, 4))])
    return log


CLS = {'A': 'P', 'B': 'P', 'C': 'Q', 'D': 'R', 'E': 'Q'}


def pick_extractor(rng, log=None):
    """an extractor and the class of an event by its name (None: the class is another attribute, given to every event here)"""
    k = rng.choice(['none', 'default', 'class'] + (['attr'] if log is not None else []))
    if k == 'attr':
        for t in log:
            for e in t:
                e['cls'] = rng.choice('PQR') if rng.random() < 0.5 else e[CN]
        return (lambda e: e['cls']), None
    if k == 'none':
        return None, lambda n: n
    if k == 'default':
        return api('legacy.analysis.patterns.util', 'default_class_extractor'), lambda n: n
    return (lambda e: CLS[e[CN]]), (lambda n: CLS[n])


def classes(log, c):
    return [[e['cls'] if c is None else c(e[CN]) for e in t] for t in log]


def compare(log, s, rs, exp, what):
    eq(len(rs), len(log), what + ': one list per trace')
    for r, t, g in zip(exp, names(log), got(rs)):
        eq(g, sorted(r), '%s of %s as (start, length, count)' % (what, t))
    same_snap(log, s)


@check()
def maximal_arrays(rng):
    f = api(EP, 'find_maximal_tandem_arrays')
    log = gen(rng)
    lim = rng.choice([0, 1, 2, 3, 4, 5, 8, 10, 20, 60])
    ext, c = pick_extractor(rng, log)
    s = snap(log)
    note.update(log=names(log), limit=lim, extractor=str(ext))
    ts = classes(log, c)
    exp = [maximal(t, lim) for t in ts]
    compare(log, s, f(log, lim, ext), exp, 'maximal tandem arrays')
    if rng.random() < 0.2:
        compare(log, s, f(log), [maximal(t, 10) for t in names(log)], 'maximal tandem arrays (defaults)')
    nt(any(exp))


@check()
def primitive_arrays(rng):
    f = api(EP, 'find_primitive_tandem_arrays')
    log = gen(rng)
    lim = rng.choice([0, 1, 2, 3, 4, 5, 8, 10, 20, 60])
    ext, c = pick_extractor(rng, log)
    s = snap(log)
    note.update(log=names(log), limit=lim, extractor=str(ext))
    ts = classes(log, c)
    exp = [primitive(t, lim) for t in ts]
    compare(log, s, f(log, max_tandem_array_length=lim, event_class_extractor=ext), exp, 'primitive tandem arrays')
    if rng.random() < 0.2:
        compare(log, s, f(log), [primitive(t, 10) for t in names(log)], 'primitive tandem arrays (defaults)')
    nt(any(exp))


@check()
def one_array(rng):
    f = api(EP, '_try_extract_tandem_array')
    t = [ord(x) for x in tandem_names(rng, ALPH[:rng.randint(1, 3)])]
    if not t:
        t = [1]
    i = rng.randrange(len(t))
    l = rng.randint(1, max(1, min(6, len(t) - i)))
    note.update(trace=t, start=i, length=l)
    r = f(list(t), i, l)
    n = run_len(t, i, l)
    if n < 2:
        expect(r is None, 'the block repeats nowhere but %r was reported' % (r,))
    else:
        expect(r is not None, 'the block repeats %d times but nothing was reported' % n)
        eq((r.first_pos, r.length, r.repeat_count), (i, l, n), 'tandem array')
        nt()


@check()
def discover_part(rng):
    K = api('legacy.pipelines.analysis.patterns.models', 'TandemArrayKind')
    D = api(PP, 'DiscoverTandemArrays')
    log = gen(rng)
    lim = rng.choice([2, 3, 4, 5, 8, 20, 60])
    ext, c = pick_extractor(rng, log)
    prim = rng.random() < 0.5
    note.update(log=names(log), limit=lim, primitive=prim)
    s = snap(log)
    cx = ctx()
    cx.with_log(log)
    part = D(K.PrimitiveArray if prim else K.MaximalArray, lim, ext) if rng.random() < 0.8 else None
    if part is None:
        lim, c = 20, lambda n: n
        part = D(K.PrimitiveArray if prim else K.MaximalArray)
    r = part.execute(cx)
    ts = classes(log, c)
    pats = api('legacy.pipelines.contexts.accessors', 'patterns')(r)
    compare(log, s, pats, [(primitive if prim else maximal)(t, lim) for t in ts], 'patterns of DiscoverTandemArrays')
    expect(api('legacy.pipelines.contexts.accessors', 'log')(r) is log, 'the log of the context')
    nt(any(got(pats)))


@check(max_iter=3)
def colliding_class_names(rng):
    """two class names with the same polynomial hash: 'Bb'/'aa' style pairs are still two classes"""
    h = api('legacy.util', 'calculate_string_poly_hash')
    f = api(EP, 'find_maximal_tandem_arrays')
    pair = collision(h)
    a, b = pair
    log = log_of([a, 'C', b, 'C'])
    note.update(log=names(log))
    eq(got(f(log)), [[]], 'tandem arrays of two different classes with equal hashes', key='class-hash-collision')
    nt()


def collision(h):
    seen = {}
    import itertools
    for n in (1, 2, 3):
        for x in itertools.product('ABCDabcdefgh \x80\u0100', repeat=n):
            k = ''.join(x)
            v = h(k)
            if v in seen and seen[v] != k:
                return seen[v], k
            seen.setdefault(v, k)
    raise Skip('no colliding names found')
