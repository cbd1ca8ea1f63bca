from base import *
import C09
from C09 import collision, pick_extractor, CLS, tandem_names, classes
CHECKS[:] = []

EP = 'legacy.analysis.patterns.event_log_patterns'
PP = 'legacy.pipelines.analysis.patterns.patterns_parts'


def occ(t, s):
    return [i for i in range(len(t) - len(s) + 1) if t[i:i + len(s)] == s]


def maximal(t):
    n, r = len(t), {}
    for l in range(1, n):
        for i in range(n - l + 1):
            s = tuple(t[i:i + l])
            if s in r:
                continue
            o = occ(t, list(s))
            lc = {(t[p - 1],) if p > 0 else 'S' for p in o}
            rc = {(t[p + l],) if p + l < n else 'E' for p in o}
            r[s] = len(o) >= 2 and len(lc) >= 2 and len(rc) >= 2
    return {s for s, v in r.items() if v}


def super_maximal(t):
    m = maximal(t)
    return {s for s in m if not any(o != s and occ(list(o), list(s)) for o in m)}


def near_super(t):
    m = maximal(t)
    iv = [(p, p + len(s), s) for s in m for p in occ(t, list(s))]
    return {s for b, e, s in iv if not any(b2 <= b and e <= e2 and (b2, e2) != (b, e) for b2, e2, _ in iv)}


KINDS = {'find_maximal_repeats': maximal, 'find_super_maximal_repeats': super_maximal, 'find_near_super_maximal_repeats': near_super}


def gen(rng):
    alph = ALPH[:rng.randint(1, 5)]
    return log_of(*[(tandem_names(rng, alph) if rng.random() < 0.6 else rand_names(rng, alph, rng.randint(0, 16)))[:18] for _ in range(rng.randint(0, 4))])


def compare(ts, rs, oracle, what):
    eq(len(rs), len(ts), what + ': one list per trace')
    for t, r in zip(ts, rs):
        for x in r:
            expect(0 <= x.first_pos and x.length >= 1 and x.first_pos + x.length <= len(t), '%s of %s: (%d, %d) is not inside the trace' % (what, t, x.first_pos, x.length))
        g = sorted(tuple(t[x.first_pos:x.first_pos + x.length]) for x in r)
        eq(g, sorted(oracle(t)), '%s of %s' % (what, t))


def mk(fname):
    def f(rng):
        fn = api(EP, fname)
        log = gen(rng)
        ext, c = pick_extractor(rng, log)
        note.update(log=names(log), extractor=str(ext))
        s = snap(log)
        ts = classes(log, c)
        rs = fn(log, ext) if ext is not None or rng.random() < 0.5 else fn(log)
        compare(ts, rs, KINDS[fname], fname)
        same_snap(log, s)
        nt(any(rs))
    check(fname)(f)


for k in KINDS:
    mk(k)


@check()
def discover_repeats_part(rng):
    R = api('legacy.pipelines.analysis.patterns.patterns_parts', 'RepeatActivitiesSource')
    D = api(PP, 'DiscoverRepeats')
    log = gen(rng)
    ext, c = pick_extractor(rng, log)
    kind, fname = rng.choice([(R.MaximalRepeats, 'find_maximal_repeats'), (R.SuperMaximalRepeats, 'find_super_maximal_repeats'),
                              (R.NearSuperMaximalRepeats, 'find_near_super_maximal_repeats')])
    note.update(log=names(log), kind=fname)
    s = snap(log)
    cx = ctx()
    cx.with_log(log)
    r = D(kind, ext).execute(cx)
    compare(classes(log, c), api('legacy.pipelines.contexts.accessors', 'patterns')(r), KINDS[fname], fname)
    same_snap(log, s)
    nt()


def rand_subs(rng, ts):
    S = api('legacy.analysis.common.common_models', 'SubArrayInEventLog')
    out = []
    for t in ts:
        l = []
        for _ in range(rng.randint(0, 5)):
            if t:
                i = rng.randrange(len(t))
                l.append(S(i, rng.randint(1, len(t) - i)))
        out.append(l)
    return out


@check()
def repeat_sets(rng):
    f = api(EP, 'create_repeat_sets')
    log = gen(rng)
    ext, c = pick_extractor(rng, log)
    ts = classes(log, c)
    subs = rand_subs(rng, ts)
    note.update(log=names(log), sub_arrays=[[(x.first_pos, x.length) for x in l] for l in subs])
    s = snap(log)
    before = [[(x.first_pos, x.length) for x in l] for l in subs]
    exp, seen = [], set()
    for ti, (t, l) in enumerate(zip(ts, subs)):
        for x in l:
            k = frozenset(t[x.first_pos:x.first_pos + x.length])
            if k not in seen:
                seen.add(k)
                exp.append((x.first_pos, x.length, ti))
    if rng.random() < 0.5:
        r = f(log, subs, ext)
    else:
        D = api(PP, 'DiscoverRepeatsSets')
        cx = ctx()
        cx.with_log(log).with_patterns(subs)
        r = api('legacy.pipelines.contexts.accessors', 'repeat_sets')(D(ext).execute(cx))
    eq([(x.first_pos, x.length, x.trace_index) for x in r], exp, 'repeat sets as (start, length, trace)')
    eq([[(x.first_pos, x.length) for x in l] for l in subs], before, 'sub-arrays after the call')
    same_snap(log, s)
    nt(len(exp) > 1)


@check()
def many_sets(rng):
    """sets are told apart by content: all subsets of a larger alphabet at once"""
    f = api(EP, 'create_repeat_sets')
    S = api('legacy.analysis.common.common_models', 'SubArrayInEventLog')
    k = rng.randint(20, 60)
    alph = ['n%d' % rng.randint(0, 10 ** 6) for _ in range(rng.randint(4, 12))]
    traces = [[rng.choice(alph) for _ in range(rng.randint(1, 6))] for _ in range(k)]
    log = log_of(*traces)
    note.update(log=traces)
    subs = [[S(0, len(t))] for t in traces]
    exp, seen = [], set()
    for i, t in enumerate(traces):
        if frozenset(t) not in seen:
            seen.add(frozenset(t))
            exp.append((0, len(t), i))
    eq([(x.first_pos, x.length, x.trace_index) for x in f(log, subs)], exp, 'repeat sets')
    nt()


@check(max_iter=3)
def colliding_class_names(rng):
    h = api('legacy.util', 'calculate_string_poly_hash')
    f = api(EP, 'create_repeat_sets')
    S = api('legacy.analysis.common.common_models', 'SubArrayInEventLog')
    a, b = collision(h)
    log = log_of([a], [b])
    note.update(log=names(log))
    eq(len(f(log, [[S(0, 1)], [S(0, 1)]])), 2, 'number of repeat sets of two different classes with equal hashes', key='class-hash-collision')
    nt()
