from base import *

SP = 'legacy.analysis.event_log_split'
FP = 'legacy.pipelines.filtering.filter_parts'
# names whose polynomial hashes collide, names that concatenate alike
POOL = ['A', 'B', 'C', 'Bb', 'aa', 'AB', 'A B', '', 'a', 'BB', 'Aa', 'A,B', '\u017e', 'CC', 'bD']


def gen(rng):
    al = rand_alphabet(rng, POOL)
    log = rand_log(rng, al, rich=True, max_traces=9, attrs=rng.random() < 0.5)
    # near-duplicates: same trace with one differing event, first / last position
    for _ in range(rng.randint(0, 3)):
        cand = [t for t in log.traces if len(t)]
        if not cand:
            break
        ns = [e[CN] for e in rng.choice(cand)]
        ns[rng.choice([0, -1, rng.randrange(len(ns))])] = rng.choice(al)
        log.append(EL().MyTrace([mk_event(n) for n in ns]))
    note['log'] = names(log)
    return log


@check()
def split(rng):
    log = gen(rng)
    s = snap(log)
    r = api(SP, 'split_log_by_traces')(log)
    flat = [id(t) for g in r for t in g]
    eq(sorted(flat), sorted(id(t) for t in log.traces), 'every trace is in exactly one group, as the same object')
    keys = []
    for g in r:
        expect(len(g) > 0, 'empty group')
        ks = {tuple(e[CN] for e in t) for t in g}
        expect(len(ks) == 1, 'different variants in one group: %s' % ks)
        keys.append(next(iter(ks)))
    expect(len(set(keys)) == len(keys), 'one variant split over several groups: %s' % keys)
    pos = {id(t): i for i, t in enumerate(log.traces)}
    for g in r:
        idx = [pos[id(t)] for t in g]
        eq(idx, sorted(idx), 'traces of a group are in log order')
    same_snap(log, s)
    nt(len(r) > 1 and len(r) < len(log))


@check()
def variants(rng):
    log = gen(rng)
    s = snap(log)
    r = api(FP, 'FilterTracesByVariants')().execute(ctx(log=log)).values['log']
    first = {}
    for t in log.traces:
        first.setdefault(tuple(e[CN] for e in t), id(t))
    eq(sorted(id(t) for t in r), sorted(first.values()), 'first trace of each variant')
    same_snap(log, s)
    nt(1 < len(first) < len(log))


@check()
def merge(rng):
    log = gen(rng)
    s = snap(log)
    r = api(SP, 'merge_all_traces_in_one_log')(log)
    eq(len(r), 1, 'one trace')
    got = list(r[0])
    allnames = {n for t in names(log) for n in t}
    p, seps, ids = 0, [], {id(e) for t in log for e in t}
    for t in log:
        for e in t:
            expect(p < len(got), 'events missing')
            eq(payload(got[p]), payload(e), 'copy of the event')
            expect(id(got[p]) not in ids and got[p].payload is not e.payload, 'events are copied')
            p += 1
        expect(p < len(got), 'separator missing')
        seps.append(got[p][CN])
        p += 1
    eq(p, len(got), 'number of events')
    expect(len(set(seps)) == len(seps) and not set(seps) & allnames, 'separator names are unique')
    same_snap(log, s)
    # independence
    for e in got:
        e['changed'] = 1
    same_snap(log, s, 'input log (after editing the merged log)')
    nt(len(log) > 1)
