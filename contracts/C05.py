from contracts.common import *
from contracts.C02 import b2i

P = 'C05'
SP = L + 'analysis.event_log_split:'
FP = L + 'pipelines.filtering.filter_parts:'
TRR = TRef('MyTrace')
GL = TList(TRR)
GG = TList(GL)
D1, D2 = TDict(INT, GL), TDict(STR, GL)


def fresh_uuid(v):
    """uuid.uuid4(): a value with a stamp no earlier value has (the freshness of uuid4 is assumed)"""
    stamp = z3.Function('uuid_stamp', S(v, STR), z3.IntSort())

    def f(eng, st, a, kw):
        eng.assumed.add('uuid.uuid4() returns a value that occurs nowhere else')
        x = eng.fresh('uuid', STR)
        st.assume(stamp(x) == st.clock)
        st.clock = simp(st.clock + 1)
        eng.log(('clock',))
        return [(st, Z(x, STR))]
    v.eng.ext['uuid.uuid4'] = f
    return stamp


def log_events(v, ts, fact):
    """requires fact(e) of every event e of the log: instantiated at each term ts[k].raw_events[j]"""
    nth = ('seq.nth', 'seq.nth_i', 'seq.nth_u')
    x = z3.Const('x', ts.sort().basis())
    acc = evs(v, x).decl()

    def lm(a):
        if a.decl().name() not in nth or a.sort() != S(v, EV):
            return None
        q = a.arg(0)
        if q.decl() != acc or q.arg(0).decl().name() not in nth or not q.arg(0).arg(0).eq(ts):
            return None
        k, j = q.arg(0).arg(1), a.arg(1)
        return [z3.Implies(z3.And(0 <= k, k < z3.Length(ts), 0 <= j, j < z3.Length(q)), fact(a))]
    LEMMAS.append(lm)


@unit(P, 'merge_all_traces_in_one_log', SP + 'merge_all_traces_in_one_log', SP + 'create_unique_event')
def u(v):
    """one trace: every event copied in order, one separator after each original trace, whose name occurs nowhere else"""
    log_schema(v)
    logv, lt = v.param('log', LOG)
    v.eng.upd_light = True
    stamp = fresh_uuid(v)
    ts = traces(v, lt)
    b = v.eng.birth('MyEvent')
    # precondition, for every event of the log: it exists before the call and has a name (which no later uuid equals)
    old_event = lambda e: z3.And(b(e) < 0, pay_has(v, v.H0, e, CN), stamp(name_of(v, e)) < 0)
    log_events(v, ts, old_event)
    POS = SpecFn('POS', [ts.sort(), z3.IntSort()], z3.IntSort(), lambda l, i: z3.If(i <= 0, z3.IntVal(0), POS(l, i - 1) + z3.Length(evs(v, l[i - 1])) + 1))
    k0, j0, q0 = z3.Ints('k0 j0 q0')
    old = evs(v, ts[k0])
    n0 = z3.Length(old)
    s0 = POS(ts, k0) + n0
    v.require(0 <= k0, k0 < z3.Length(ts), 0 <= j0, j0 < n0, q0 >= 0, q0 != s0)
    i_ = z3.Int('i_')
    v.lemma('positions are not negative and grow (base)', [k0 >= 0, i_ == k0 + 1], z3.And(POS(ts, i_) == s0 + 1, z3.Implies(k0 == 0, POS(ts, k0) == 0)), fuel=1)
    v.lemma('positions grow (step)', [k0 >= 0, i_ > k0 + 1, POS(ts, i_ - 1) >= s0 + 1], POS(ts, i_) >= s0 + 1, fuel=1)
    v.lemma('positions are not negative (step)', [i_ > 0, POS(ts, i_ - 1) >= 0], POS(ts, i_) >= 0, fuel=1)
    LEMMAS.append(lambda a: [a >= 0, z3.Implies(a.arg(1) > k0, a >= s0 + 1)] if a.decl().name() == 'POS' and a.arg(0).eq(ts) else None)
    e0 = z3.Const('e0', S(v, EV))
    v.require(b(e0) < 0, stamp(name_of(v, e0)) < 0)

    def facts(st, new, i, done_inner=None):
        """i traces complete, done_inner events of the next one"""
        h = heap(st)
        n = z3.Length(new)
        born = lambda x: z3.And(b(x) >= 0, b(x) < st.clock, pay_has(v, h, x, CN), stamp(name_of(v, x, h)) < st.clock)
        c = new[POS(ts, k0) + j0]
        here = lambda j: k0 < i if done_inner is None else z3.Or(k0 < i, z3.And(k0 == i, j < done_inner))
        sep = new[s0]
        return [
            ('length', n == POS(ts, i) + (0 if done_inner is None else done_inner)),
            ('copy is new', z3.Implies(here(j0), born(c))),
            ('copy', z3.Implies(here(j0), z3.Select(h, c) == z3.Select(v.H0, old[j0]))),
            ('separator', z3.Implies(k0 < i, z3.And(born(sep), stamp(name_of(v, sep, h)) >= 0))),
            ('other', z3.Implies(q0 < n, born(new[q0]))),
            ('distinct', z3.Implies(z3.And(k0 < i, q0 < n), name_of(v, new[q0], h) != name_of(v, sep, h)))]

    def t(Lp):
        yield ('clock', lambda st: st.clock >= 0)
        yield ('existing payloads untouched', lambda st: heap(st)[e0] == v.H0[e0])
        for new in Lp.mods(TList(EV)):
            outer = Lp.fixed(INT)
            for m in range(6):
                for j in Lp.mods(INT):
                    if not outer:
                        yield ('merged so far %d %s %s' % (m, new.name, j.name), lambda st, new=new, i=j, m=m: facts(st, new(st), i(st))[m][1])
                    for i in outer:
                        yield ('merged so far %d %s %s %s' % (m, new.name, i.name, j.name), lambda st, new=new, i=i, j=j, m=m: facts(st, new(st), i(st), j(st))[m][1])
    v.eng.templates.append(t)
    # old payloads are untouched: needed for every event of the log, so stated for all of them
    SAME = UPred('SAME', [v.H0.sort()], S(v, EV), lambda h, e: z3.Implies(b(e) < 0, z3.Select(h, e) == z3.Select(v.H0, e)))

    def t2(Lp):
        yield ('all existing payloads untouched', lambda st: SAME(heap(st)))
    v.eng.templates.append(t2)
    for s, r in v.returns(v.call(SP + 'merge_all_traces_in_one_log', [logv])):
        out = traces(v, v.eng.lower(s, r, LOG))
        v.prove(s, z3.Length(out) == 1, 'a single trace')
        new = evs(v, out[0])
        h = heap(s)
        v.prove(s, z3.Length(new) == POS(ts, z3.Length(ts)), 'as many events as in the log plus one separator per trace')
        v.prove(s, z3.And(b(new[POS(ts, k0) + j0]) >= 0, z3.Select(h, new[POS(ts, k0) + j0]) == z3.Select(v.H0, old[j0])), 'event j0 of trace k0 is copied to its place as a new event with the same payload')
        v.prove(s, b(new[s0]) >= 0, 'a new separator follows the events of trace k0')
        v.prove(s, z3.Implies(q0 < z3.Length(new), name_of(v, new[q0], h) != name_of(v, new[s0], h)), 'the name of a separator occurs nowhere else in the merged trace')
        v.prove(s, name_of(v, new[s0], h) != name_of(v, e0), 'nor in the log')
        v.prove(s, heap(s)[e0] == v.H0[e0], 'payload of every existing event unchanged')
        frame_log(v, s, logv, lt)


@unit(P, 'FilterTracesByVariants', FP + 'FilterTracesByVariants.execute')
def u(v):
    """the new log holds the first trace of each group, in group order"""
    log_schema(v)
    logv, lt = v.param('log', LOG)
    GGT = TList(TList(TR))
    gv, gt = v.param('groups', GGT)
    SG = S(v, GGT)
    v.require(UPred('NONEMPTY', [SG], z3.IntSort(), lambda g, i: z3.Implies(z3.And(0 <= i, i < z3.Length(g)), z3.Length(g[i]) > 0))(gt))
    FIRST = SpecFn('FIRST', [SG, z3.IntSort()], S(v, TList(TR)), lambda g, i: z3.If(i <= 0, z3.Empty(S(v, TList(TR))), z3.Concat(FIRST(g, i - 1), z3.Unit(g[i - 1][0]))))
    v.fold_templates(FIRST)
    part = make(v, FP + 'FilterTracesByVariants')
    calls = spy(v, SP + 'split_log_by_traces', lambda st, env: gv, {'log': logv})
    for s, r in v.returns(v.call(FP + 'FilterTracesByVariants.execute', [part, part_result(v, log=logv)])):
        out = v.eng.lower(s, values_of(v, s, r)['log'], LOG)
        v.prove(s, traces(v, out) == FIRST(gt, z3.Length(gt)), 'the first trace of each variant, in order')
        frame_log(v, s, logv, lt)
        frame_heap(v, s)
    v.prove(v.st, z3.BoolVal(len(calls) > 0), 'the log is split into variants')


@unit(P, 'FilterTracesByCount', FP + 'FilterTracesByCount.execute')
def u(v):
    """delegates to remove_empty_traces with the configured minimum"""
    log_schema(v)
    logv, lt = v.param('log', LOG)
    rv, rt = v.param('res', LOG)
    mv, mt = v.param('m', INT)
    part = make(v, FP + 'FilterTracesByCount', mv)
    spy(v, L + 'mutations.event_log_mutations:remove_empty_traces', lambda st, env: rv, {'log': logv, 'min_event_count': mv})
    for s, r in v.returns(v.call(FP + 'FilterTracesByCount.execute', [part, part_result(v, log=logv)])):
        same_val(v, s, values_of(v, s, r)['log'], rv, 'the filtered log is returned')
        frame_log(v, s, logv, lt)
        frame_heap(v, s)
