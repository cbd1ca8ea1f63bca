from base import *
from collections import Counter

I = 'legacy.analysis.event_log_info'


def gen(rng, **kw):
    al = rand_alphabet(rng, NAMEPOOL + ['FAKE_START', 'FAKE_END'] if rng.random() < 0.1 else None)
    log = rand_log(rng, al, rich=True, **kw)
    if len(log) and rng.random() < 0.1:
        log.append(log[0])
    note['log'] = names(log)
    return log


def oracle(log, ignored, fake):
    ec, pc = Counter(), Counter()
    for t in log:
        ns = [e[CN] for e in t if not ignored or e[CN] not in ignored]
        ec.update(ns)
        if fake and ns:
            ns = ['FAKE_START'] + ns + ['FAKE_END']
        pc.update(zip(ns, ns[1:]))
    return dict(ec), dict(pc)


def check_dfg(dfg, pc):
    eq(dict(dfg.pairs), pc, 'directly-follows counts')
    fo = {}
    for (a, b), c in pc.items():
        fo.setdefault(a, {})[b] = c
    eq({k: dict(x) for k, x in dfg.followed_events.items()}, fo, 'follower map')
    eq(set(dfg.events_with_single_follower), {a for a in fo if len(fo[a]) == 1}, 'events with a single follower')


@check()
def log_information(rng):
    log = gen(rng)
    al = sorted({e[CN] for t in log for e in t}) + ['nosuch']
    ig = rng.choice([None, set(), {x for x in al if rng.random() < 0.35}])
    fake = rng.random() < 0.5
    note.update(ignored=ig, fake=fake)
    s = snap(log)
    f = api(I, 'create_log_information')
    ig0 = None if ig is None else set(ig)
    r = f(log, ig, fake)
    eq(ig, ig0, 'ignored set')
    ec, pc = oracle(log, ig, fake)
    eq(dict(r.events_count), ec, 'class counts')
    check_dfg(r.dfg, pc)
    same_snap(log, s)
    r = f(log)
    ec, pc = oracle(log, None, True)
    eq(dict(r.events_count), ec, 'class counts (defaults)')
    check_dfg(r.dfg, pc)
    ec, pc = oracle(log, None, False)
    check_dfg(api(I, 'create_dfg')(log), pc)
    same_snap(log, s)
    nt(len(pc) > 2)


@check()
def dfg_object(rng):
    al = rand_alphabet(rng)
    pairs = {}
    for _ in range(rng.randint(0, 10)):
        pairs[(rng.choice(al), rng.choice(al))] = rng.choice([0, 1, 2, 7])
    note['pairs'] = pairs
    p0 = dict(pairs)
    check_dfg(api(I, 'DirectlyFollowsGraph')(pairs), p0)
    eq(pairs, p0, 'pairs are not modified')
    nt(len(pairs) > 2)


@check()
def per_trace(rng):
    log = gen(rng)
    s = snap(log)
    r = api(I, 'calculate_events_in_each_trace')(log)
    eq([(dict(x.counts), x.overall_count) for x in r], [(dict(Counter(ns)), len(ns)) for ns in names(log)], 'per-trace counts')
    eq(api(I, 'calculate_events_count')(log), sum(map(len, names(log))), 'overall number of events')
    same_snap(log, s)
    nt(len(log) > 1)


@check()
def all_names(rng):
    log = gen(rng)
    s = snap(log)
    m = rng.randint(1, 5)
    idx = {}
    for t in log:
        for e in t:
            idx.setdefault(id(e), len(idx))
    h = rng.choice([0.9, 0.6, 0.3])
    val = {i: rng.random() < h for i in idx.values()}
    pred = lambda e: val[idx[id(e)]]
    r = api(I, 'find_all_events_names')(log, pred)
    exp = {e[CN] for t in log for e in t} - {e[CN] for t in log for e in t if not pred(e)}
    note['pred'] = [[pred(e) for e in t] for t in log]
    eq(set(r), exp, 'classes on which the predicate always holds')
    calls = []
    api(I, 'apply_to_all_events')(log, lambda e: calls.append(id(e)))
    eq(calls, [id(e) for t in log for e in t], 'function applied to each event in order')
    same_snap(log, s)
    nt(exp)


@check()
def int_map(rng):
    f = api('legacy.util', 'increase_in_int_map')
    d, exp = {}, Counter()
    for _ in range(rng.randint(0, 12)):
        k = rng.choice(['a', 'b', ('a', 'b'), 3, ''])
        f(d, k)
        exp[k] += 1
    eq(d, dict(exp), 'counter map')
    nt(len(d) > 1)
