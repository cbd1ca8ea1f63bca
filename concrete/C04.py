from base import *
import math, numpy as np
from C03 import pos_entropy, df_entropy
CHECKS[:] = []

F = 'legacy.filtering.event_log_filters'
FP = 'legacy.pipelines.filtering.filter_parts'
TOL = 1e-9


def strip(L, rem):
    r = [[x for x in t if x not in rem] for t in L]
    return [t for t in r if t]


def classes(L):
    return {x for t in L for x in t}


def possible(L0, R, step, maxrem, stop):
    """is there an order of removals that the metric designates, ending exactly with the removed set R?
    step(L, removed) -> (must_stop, may_stop, candidates)"""
    seen = set()

    def go(rem):
        if rem in seen:
            return False
        seen.add(rem)
        L = [list(t) for t in L0] if not rem else strip(L0, rem)
        if len(rem) >= maxrem or not L:
            return rem == R
        must, may, cand = step(L)
        if rem == R and (must or may or not cand):
            return True
        if must:
            return False
        return any(go(rem | {c}) for c in cand if c in R)
    return go(frozenset())


def direct_step(metric, threshold, unt):
    def step(L):
        m = {k: x for k, x in metric(L).items() if not unt(k)}
        m2 = {k: x for k, x in m.items() if not math.isnan(x)}
        if len(m2) < len(m) or not m:
            return True, True, []
        b = max(m.values())
        return b < threshold - TOL, b <= threshold + TOL, [k for k, x in m.items() if x >= b - TOL]
    return step


def verify(log, s, res, L0, R0, step, maxrem, unt, what):
    got = [[id(e) for e in t] for t in res]
    R = frozenset(classes(L0) - classes(names(res)))
    exp = [[id(e) for e in t if e[CN] not in R] for t in log]
    if R or res is not log:
        exp2 = [t for t in exp if t]
        expect(got == exp2 or got == exp, '%s: the result is not the input without whole classes: %s' % (what, names(res)))
    else:
        eq(got, exp, '%s: result' % what)
    bad = [x for x in R if unt(x)]
    expect(not bad, '%s: untouchable class removed: %s' % (what, bad))
    expect(len(R) <= maxrem, '%s: more classes removed than requested: %s' % (what, sorted(R)))
    expect(possible(L0, R, step, maxrem, None), '%s: removed classes %s are not those the metric designates' % (what, sorted(R)))
    same_snap(log, s)
    nt(R and R != classes(L0))


def gen(rng, kmax=6, maxt=6):
    al = rand_alphabet(rng, kmax=kmax)
    log = rand_log(rng, al, max_traces=maxt, max_len=8)
    L = names(log)
    unt_set = {x for x in al if rng.random() < rng.choice([0, 0, 0.3, 0.7, 1])}
    maxrem = rng.choice([10 ** 9, 10 ** 9, 0, 1, 2, 3])
    th = rng.choice([0, 0, 0.3, 0.6, 1, 2, 3, 5, -1])
    note.update(log=L, untouchable=unt_set, max=maxrem, threshold=th)
    return log, L, unt_set, maxrem, th, (lambda n: n in unt_set)


def pos_metric(L):
    return {n: pos_entropy(L, n, ()) for n in classes(L)}


@check(terminates=True, limit=10)
def default_direct(rng):
    log, L, us, mx, th, unt = gen(rng)
    lap = rng.random() < 0.5
    s = snap(log)
    st = direct_step(lambda l: df_entropy(l, (), lap), th, unt)
    r = api(F, 'filter_events_default_entropy_direct')(log, lap, th, mx, unt)
    verify(log, s, r, L, None, st, mx, unt, 'default entropy direct (laplace=%s)' % lap)


@check(terminates=True, limit=10)
def pos_direct(rng):
    log, L, us, mx, th, unt = gen(rng)
    s = snap(log)
    with np.errstate(all='ignore'):
        r = api(F, 'filter_events_pos_entropy_direct')(log, th, unt, mx)
    verify(log, s, r, L, None, direct_step(pos_metric, th, unt), mx, unt, 'position entropy direct')


def indirect_pos_step(th, unt):
    def step(L):
        tot = sum(pos_metric(L).values())
        c = {}
        for n in classes(L):
            if not unt(n):
                L2 = strip(L, {n})
                x = sum(pos_metric(L2).values()) if L2 else 0
                if not math.isnan(x):
                    c[n] = x
        if not math.isnan(tot) and tot < th - TOL:
            return True, True, []
        may = not math.isnan(tot) and tot <= th + TOL
        b = min(c.values()) if c else 0
        return not c, may, [k for k, x in c.items() if x <= b + TOL]
    return step


@check(terminates=True, limit=10)
def pos_indirect(rng):
    log, L, us, mx, th, unt = gen(rng, kmax=5, maxt=5)
    s = snap(log)
    with np.errstate(all='ignore'):
        r = api(F, 'filter_events_pos_entropy_indirect')(log, th, mx, unt)
    verify(log, s, r, L, None, indirect_pos_step(th, unt), mx, unt, 'position entropy indirect')


@check(terminates=True, limit=10)
def default_indirect(rng):
    log, L, us, mx, th, unt = gen(rng, kmax=5, maxt=5)
    lap = rng.random() < 0.5
    top = rng.choice([0.05, 0.4, 0.5, 0.7, 1.0])
    note.update(top=top, laplace=lap)
    s = snap(log)

    def step(L):
        ent = df_entropy(L, (), lap)
        avg = sum(ent.values()) / len(ent) if ent else 0
        if avg < th - TOL:
            return True, True, []
        k = int(len(ent) * top)
        srt = sorted(ent.values())
        cut = srt[len(srt) - k] if k else math.inf
        c = {}
        tie = False
        for n in ent:
            if ent[n] >= cut - TOL and not unt(n):
                e2 = df_entropy(L, {n}, lap)
                c[n] = sum(e2.values()) / len(e2) if e2 else 0
                if abs(ent[n] - cut) <= TOL:
                    tie = True
        if not c:
            return True, True, []
        b = min(c.values())
        cand = [k2 for k2, x in c.items() if x <= b + TOL]
        if tie and sum(1 for x in ent.values() if x >= cut - TOL) > k:
            cand = list(c)
            return False, True, cand
        return False, avg <= th + TOL, cand
    r = api(F, 'filter_events_default_entropy_indirect')(log, lap, th, top, mx, unt)
    verify(log, s, r, L, None, step, mx, unt, 'default entropy indirect')


@check(terminates=True, limit=10)
def till_end(rng):
    log, L, us, mx, th, unt = gen(rng, kmax=4, maxt=4)
    K = api(F, 'TillEndFilteringMetricKind')
    kind = rng.choice([K.BeforeOnly, K.AfterBeforeDelta])
    s = snap(log)
    note['kind'] = str(kind)
    for fn, indirect in (('filter_events_pos_entropy_direct_till_end', False), ('filter_events_pos_entropy_indirect_till_end', True)):
        with np.errstate(all='ignore'):
            r = api(F, fn)(log, kind, unt)
        rem = [n for n, _ in r]
        expect(len(set(rem)) == len(rem) and set(rem) <= classes(L) and not any(unt(x) for x in rem), '%s: removals %s' % (fn, rem))
        cur = [list(t) for t in L]
        for n, val in r:
            m = {k: x for k, x in pos_metric(cur).items()}
            mu = {k: x for k, x in m.items() if not unt(k)}
            nxt = strip(cur, {n})
            tot, tot2 = sum(m.values()), sum(pos_metric(nxt).values())
            if not indirect and not any(math.isnan(x) for x in mu.values()):
                expect(m[n] >= max(mu.values()) - TOL, '%s: %r is not the class with the largest metric' % (fn, n))
                tot, tot2 = sum(mu.values()), sum(x for k, x in pos_metric(nxt).items() if not unt(k))
                e = tot if kind == K.BeforeOnly else tot - tot2
                expect(math.isnan(e) or abs(val - e) < 1e-6, '%s: reported metric %r, expected %r' % (fn, val, e))
            elif indirect and not math.isnan(tot2):
                e = tot if kind == K.BeforeOnly else tot - tot2
                expect(math.isnan(e) or abs(val - e) < 1e-6, '%s: reported metric %r, expected %r' % (fn, val, e))
            cur = nxt
        if not indirect:
            expect(all(unt(x) for x in classes(cur)), '%s: stopped early with %s left' % (fn, classes(cur)))
    same_snap(log, s)


@check(terminates=True, limit=10)
def next_removal(rng):
    log, L, us, mx, th, unt = gen(rng)
    lap = rng.random() < 0.5
    s = snap(log)
    if not strip(L, us):
        raise Skip('nothing removable')
    m = {k: x for k, x in df_entropy(L, (), lap).items() if not unt(k)}
    n, x = api(F, 'next_event_to_remove_default_entropy_direct')(log, lap, unt)
    expect(n in m and abs(m[n] - x) < TOL and x >= max(m.values()) - TOL, 'next removal %r %r, metrics %s' % (n, x, m))
    with np.errstate(all='ignore'):
        n, x = api(F, 'next_event_remove_pos_entropy_indirect')(log, untouchable_event_func=unt)
    must, may, cand = indirect_pos_step(-1e9, unt)(L)
    if cand:
        expect(n in cand, 'next removal (position, indirect) %r, expected one of %s' % (n, cand))
    else:
        eq(n, None, 'next removal when no class qualifies')
    same_snap(log, s)
    nt(len(m) > 1)


@check(terminates=True, limit=10)
def parts(rng):
    """the pipeline parts filter the context log with the configured limits"""
    log, L, us, mx, th, unt = gen(rng)
    s = snap(log)
    lap = rng.random() < 0.5
    top = rng.choice([0.5, 1.0])
    with np.errstate(all='ignore'):
        for name, args, step in (
                ('PosEntropyDirectFilter', (th, mx, unt), direct_step(pos_metric, th, unt)),
                ('PosEntropyIndirectFilter', (th, mx, unt), indirect_pos_step(th, unt)),
                ('DfgEntropyDirectFilter', (th, lap, mx), direct_step(lambda l: df_entropy(l, (), lap), th, lambda n: False))):
            r = api(FP, name)(*args).execute(ctx(log=log))
            verify(log, s, r.values['log'], L, None, step, mx, unt if name.startswith('Pos') else (lambda n: False), name)
        r = api(FP, 'DfgEntropyIndirectFilter')(th, lap, mx, top).execute(ctx(log=log))
        e = api(F, 'filter_events_default_entropy_indirect')(log, lap, th, top, mx)
        eq(names(r.values['log']), names(e), 'DfgEntropyIndirectFilter passes its configuration on')
    same_snap(log, s)
