from base import *
import math, numpy as np
from collections import Counter

N = 'legacy.analysis.event_log_analysis_entropy'
I = 'legacy.analysis.event_log_info'


def close(a, b):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def feq(a, b, what):
    expect(close(a, b), '%s: got %r, expected %r' % (what, a, b))


def deq(a, b, what):
    eq(set(a), set(b), what + ' (classes)')
    for k in b:
        feq(a[k], b[k], '%s of %r' % (what, k))


def pos_entropy(lists, name, ignored):
    """definition: entropy of the histogram of positions in the log without the ignored classes"""
    rest = [[n for n in t if n not in ignored] for t in lists]
    rest = [t for t in rest if t]
    n = len(rest)
    h = Counter(i for t in rest for i, x in enumerate(t) if x == name)
    if not h or n <= 1:
        return float('nan')
    return sum(-math.log(c / n) / math.log(n) for c in h.values()) / len(h)


def H(ps):
    return -sum(p * math.log2(p) for p in ps if p != 0)


def df_entropy(lists, ignored, laplace):
    rest = [[n for n in t if n not in ignored] for t in lists]
    rest = [t for t in rest if t]
    cnt = Counter(x for t in rest for x in t)
    pr = Counter()
    for t in rest:
        f = ['FAKE_START'] + t + ['FAKE_END']
        pr.update(zip(f, f[1:]))
    res = {}
    k = len(cnt)
    for a in cnt:
        c = cnt[a]
        if laplace:
            al = 1 / c
            g = lambda n: (al + n) / (al * (k + 1) + c)
        else:
            g = lambda n: n / c
        res[a] = H([g(pr.get((a, b), 0)) for b in list(cnt) + ['FAKE_END']]) + H([g(pr.get((b, a), 0)) for b in list(cnt) + ['FAKE_START']])
    return res


def gen(rng, nonempty=False):
    al = rand_alphabet(rng, kmax=7)
    log = rand_log(rng, al, max_traces=7, n_traces=rng.randint(1, 7) if nonempty else None)
    note['log'] = names(log)
    return log, sorted({x for t in names(log) for x in t}) + ['nosuch']


def ign(rng, al, log):
    if rng.random() < 0.3:
        return None, set()
    s = {x for x in al if rng.random() < rng.choice([0.2, 0.5, 0.9])}
    note['ignored'] = s
    return api(N, 'PositionEntropyIgnoredEvents')(s, api(I, 'calculate_events_in_each_trace')(log)), s


@check()
def positions(rng):
    log, al = gen(rng)
    s = snap(log)
    r = api(N, 'create_events_positions')(log)
    exp = []
    for t in names(log):
        d = {}
        for i, x in enumerate(t):
            d.setdefault(x, []).append(i)
        exp.append((d, len(t)))
    eq([({k: list(p) for k, p in x.positions.items()}, x.length) for x in r.traces_positions], exp, 'positions of each class')
    same_snap(log, s)
    nt(len(exp) > 1)


@check()
def position_entropy(rng):
    log, al = gen(rng, nonempty=True)
    ig, st = ign(rng, al, log)
    s = snap(log)
    fast, ref = api(N, 'calculate_position_entropy_fast'), api(N, 'calculate_position_entropy')
    cp = api(N, 'create_events_positions')(log)
    for name in al:
        note['event'] = name
        e = pos_entropy(names(log), name, st)
        with np.errstate(all='ignore'):
            feq(ref(log, name, ig), e, 'reference position entropy')
            feq(fast(log, name, ig), e, 'fast position entropy')
            feq(fast(log, name, ig, cp), e, 'fast position entropy (cached positions)')
        nt(not math.isnan(e) and e > 0)
    same_snap(log, s)
    if ig is not None:
        eq(ig.calculate_max_vector_length(), max([0] + [len([x for x in t if x not in st]) for t in names(log)]), 'length of the longest remaining trace')
        eq(ig.ignored_events, st, 'ignored set')


@check()
def position_entropies(rng):
    log, al = gen(rng)
    ig, st = ign(rng, al, log)
    s = snap(log)
    exp = {n: pos_entropy(names(log), n, st) for n in al if n not in st and n != 'nosuch'}
    cp = api(N, 'create_events_positions')(log)
    with np.errstate(all='ignore'):
        deq(api(N, 'calculate_position_entropies')(log, ig), exp, 'position entropies')
        deq(api(N, 'calculate_position_entropies_fast')(log, ig), exp, 'fast position entropies')
        deq(api(N, 'calculate_position_entropies_fast')(log, ig, cp), exp, 'fast position entropies (cached)')
        feq(api(N, 'calculate_position_entropies_sum')(log, ig), sum(exp.values()), 'sum')
        feq(api(N, 'calculate_position_entropies_fast_sum')(log, ig, cp), sum(exp.values()), 'fast sum')
        feq(api(N, 'calculate_position_entropies_fast_sum')(log, ig), sum(exp.values()), 'fast sum')
        if exp:
            full = list({n: pos_entropy(names(log), n, ()) for n in al if n != 'nosuch'}.values())
            feq(api(N, 'calculate_pos_entropy_var')(log), np.var(full), 'variance')
            feq(api(N, 'calculate_pos_entropy_std')(log), np.std(full), 'standard deviation')
    same_snap(log, s)
    nt(len(exp) > 1 and not any(math.isnan(x) for x in exp.values()))


@check()
def df_entropies(rng):
    log, al = gen(rng)
    s = snap(log)
    st = rng.choice([None, {x for x in al if rng.random() < 0.4}])
    note['ignored'] = st
    L = names(log)
    for lap in (False, True):
        exp = df_entropy(L, st or (), lap)
        deq(api(N, 'calculate_laplace_entropies' if lap else 'calculate_default_entropies')(log, st), exp, 'entropies (laplace=%s)' % lap)
        deq(api(N, 'calculate_laplace_or_default_entropies')(log, lap, st), exp, 'entropies')
        feq(api(N, 'calculate_default_entropy_sum')(log, lap, st), sum(exp.values()), 'sum')
        feq(api(N, 'calculate_default_entropy_average')(log, lap, st), sum(exp.values()) / len(exp) if exp else 0, 'average')
    full = df_entropy(L, (), False)
    df = api(N, 'create_entropies_df')(log)
    eq(sorted(df.index), sorted(full), 'data frame rows')
    for k, x in zip(df.index, df['Entropy']):
        feq(x, full[k], 'data frame value')
    vals = list(df['Entropy'])
    expect(all(a >= b for a, b in zip(vals, vals[1:])), 'data frame is sorted by descending entropy')
    same_snap(log, s)
    nt(len(exp) > 1)


@check()
def entropy_vector(rng):
    f = api(N, '_calculate_entropy')
    v = [rng.choice([0, 0.0, 0.5, 0.25, 1, 1.0, 0.1]) for _ in range(rng.randint(0, 6))]
    note['v'] = v
    feq(f(v), H(v), 'entropy of a vector')
    nt(len(v) > 1)
