from contracts.common import *
from contracts.C02 import DSI, PAIR, DPI, b2i
from contracts.C03 import positions_schema, info_setup, DSR, _dsum, ENT, INF

P = 'C04'
FL = L + 'filtering.event_log_filters:'
FP = L + 'pipelines.filtering.filter_parts:'
OSTR = TOpt(STR)
PICKED = TTup(OSTR, REAL)


def setup(v):
    log_schema(v)
    logv, lt = v.param('log', LOG)
    SL, SS = S(v, LOG), S(v, STR)
    RM = z3.Function('REMOVE', SL, SS, SL)

    def rm(eng, st, env, f):
        return [(st, eng.lift(st, RM(eng.lower(st, env['log'], LOG), eng.lower(st, env['event_name'], STR)), LOG))]
    v.eng.contracts[MUT + 'remove_event_from_log'] = rm
    v.eng.assumed.add('remove_event_from_log == removal of exactly that class (proved under C01)')
    PICK = z3.Function('PICK', SL, S(v, OSTR))
    VAL = z3.Function('PICKVAL', SL, z3.RealSort())
    O = S(v, OSTR)
    return logv, lt, RM, PICK, VAL, O


def run_spec(v, lt, RM, PICK, O, just):
    """RUN(l, i): l after the justified removals that follow i earlier ones.  Invariant: RUN(log, count) == RUN(input, 0)"""
    SL = S(v, LOG)
    RUN = SpecFn('RUN', [SL, z3.IntSort()], SL, lambda l, i: z3.If(just(l, i), RUN(RM(l, O.val(PICK(l))), i + 1), l))

    def tm(Lp):
        for x in Lp.mods(LOG):
            for i in Lp.mods(INT):
                yield ('RUN(%s, %s) == RUN(input, 0)' % (x.name, i.name), lambda st, x=x, i=i: RUN(x(st), i(st)) == RUN(lt, 0))
    v.eng.templates.append(tm)
    return RUN


def check_run(v, outs, RUN, logv, lt):
    for s, r in v.returns(outs):
        v.prove(s, v.eng.lower(s, r, LOG) == RUN(lt, 0), 'result == input after exactly the justified removals')
        frame_log(v, s, logv, lt)
        frame_heap(v, s)


@unit(P, 'direct_filter_loop', FL + '_do_filter_by_metric_direct')
def u(v):
    """removes the designated class while the log is non-empty, the limit is not reached and its metric exceeds the threshold"""
    logv, lt, RM, PICK, VAL, O = setup(v)
    th, tt = v.param('threshold', REAL)
    mx, mt = v.param('max_events', INT)
    mf = v.eng.lit('METRIC_FUNC')

    def nxt(eng, st, env, f):
        l = eng.lower(st, env['log'], LOG)
        if env['metric_func'] is not mf:
            raise Unsupported('another metric function')
        return [(st, VTup([Z(PICK(l), OSTR), Z(VAL(l), REAL)]))]
    v.eng.contracts[FL + '_determine_next_event_to_remove_direct'] = nxt
    RUN = run_spec(v, lt, RM, PICK, O, lambda l, i: z3.And(z3.Length(traces(v, l)) > 0, i < mt, z3.Not(O.is_none(PICK(l))), VAL(l) > tt))
    check_run(v, v.call(FL + '_do_filter_by_metric_direct', [logv, th, mf, mx]), RUN, logv, lt)


def indirect_unit(v, pos):
    logv, lt, RM, PICK, VAL, O = setup(v)
    th, tt = v.param('threshold', REAL)
    mx, mt = v.param('max_events', INT)
    unt = v.eng.lit('UNTOUCHABLE')
    METRIC = z3.Function('METRIC', S(v, LOG), z3.RealSort())
    RUN = run_spec(v, lt, RM, PICK, O, lambda l, i: z3.And(z3.Length(traces(v, l)) > 0, i < mt, METRIC(l) > tt, z3.Not(O.is_none(PICK(l)))))
    C = v.eng.contracts
    if pos:
        f = FL + 'filter_events_pos_entropy_indirect'
        C[INF + 'calculate_events_in_each_trace'] = lambda e, st, env, fn: [(st, VTup([e.lit('counts'), Z(e.lower(st, env['log'], LOG), Ty('obj', 'MyEventLog')) if False else keep(e, st, env['log'])]))]
        C[INF + 'create_log_information'] = lambda e, st, env, fn: [(st, VTup([e.lit('info'), keep(e, st, env['log'])]))]
        C[ENT + 'create_events_positions'] = lambda e, st, env, fn: [(st, VTup([e.lit('positions'), keep(e, st, env['log'])]))]

        def m(e, st, env, fn):
            l = e.lower(st, env['log'], LOG)
            need(v, e, st, env['positions'], 'positions', l)
            if env['ignored_events'] is not VNone:
                raise Unsupported('ignored events')
            return [(st, Z(METRIC(l), REAL))]
        C[ENT + 'calculate_position_entropies_fast_sum'] = m

        def nx(e, st, env, fn):
            l = e.lower(st, env['log'], LOG)
            need(v, e, st, env['trace_counts'], 'counts', l)
            need(v, e, st, env['log_info'], 'info', l)
            need(v, e, st, env['positions'], 'positions', l)
            same(env['untouchable_event_func'], unt)
            return [(st, VTup([Z(PICK(l), OSTR), Z(VAL(l), REAL)]))]
        C[FL + 'next_event_remove_pos_entropy_indirect'] = nx
        outs = v.call(f, [logv, th, mx, unt])
    else:
        f = FL + 'filter_events_default_entropy_indirect'
        lap = Z(z3.Bool('laplace'), BOOL)
        top, topt = v.param('top_percent', REAL)

        def m(e, st, env, fn):
            e.oblige(st, e.lower(st, env['laplace'], BOOL) == lap.t, 'the chosen kind of entropy')
            if env['ignored_events'] is not VNone:
                raise Unsupported('ignored events')
            return [(st, Z(METRIC(e.lower(st, env['log'], LOG)), REAL))]
        C[ENT + 'calculate_default_entropy_average'] = m

        def nx(e, st, env, fn):
            l = e.lower(st, env['log'], LOG)
            e.oblige(st, e.lower(st, env['laplace'], BOOL) == lap.t, 'the chosen kind of entropy')
            e.oblige(st, e.lower(st, env['top_percent'], REAL) == topt, 'the given top share')
            same(env['untouchable_event_func'], unt)
            return [(st, VTup([Z(PICK(l), OSTR), Z(VAL(l), REAL)]))]
        C[FL + 'next_removal_default_entropy_indirect'] = nx
        outs = v.call(f, [logv, lap, th, top, mx, unt])
    check_run(v, outs, RUN, logv, lt)


def keep(e, st, log):
    return e.lift(st, e.lower(st, log, LOG), LOG)


def same(a, b):
    if a is not b:
        raise Unsupported('another function value')


def need(v, e, st, val, tag, l):
    """an artefact must have been computed from this very log"""
    if not isinstance(val, VTup) or not val.items[0].t.eq(e.lit(tag).t):
        raise Unsupported('another artefact')
    e.oblige(st, e.lower(st, val.items[1], LOG) == l, tag + ' computed from the current log')


@unit(P, 'position_indirect_filter', FL + 'filter_events_pos_entropy_indirect')
def u(v):
    """removes the designated class while the total position entropy exceeds the threshold, within the limit"""
    indirect_unit(v, True)


@unit(P, 'default_indirect_filter', FL + 'filter_events_default_entropy_indirect')
def u(v):
    """removes the designated class while the average entropy exceeds the threshold, within the limit"""
    indirect_unit(v, False)


@unit(P, 'next_direct', FL + '_determine_next_event_to_remove_direct')
def u(v):
    """a class with the largest metric and that metric; (None, 0) without classes"""
    log_schema(v)
    logv, lt = v.param('log', LOG)
    d, dt = v.param('metrics', DSR)
    s_ = S(v, DSR)
    ks = s_.keys(dt)
    j0 = z3.Int('j0')
    calls = []

    def mf(eng, st, a, kw):
        calls.append((st.clone(), a[0]))
        return [(st, d)]
    for s, r in v.returns(v.call(FL + '_determine_next_event_to_remove_direct', [logv, VPy(mf)])):
        name, val = r.items
        n = z3.Length(ks)
        nt = v.eng.lower(s, name, OSTR)
        O = S(v, OSTR)
        v.prove(s, O.is_none(nt) == (n == 0), 'a class is designated iff there is one')
        s.assume(0 <= j0, j0 < n)
        k = O.val(nt)
        v.prove(s, z3.Implies(n > 0, z3.And(z3.Select(s_.has(dt), k), v.eng.lower(s, val, REAL) == z3.Select(s_.val(dt), k))), 'its own metric is reported')
        v.prove(s, z3.Implies(n > 0, z3.Select(s_.val(dt), ks[j0]) <= z3.Select(s_.val(dt), k)), 'no class has a larger metric')
        frame_log(v, s, logv, lt)
    for st, l in calls:
        v.prove(st, v.eng.lower(st, l, LOG) == lt, 'metric of the given log')


@unit(P, 'untouchable_removed', FL + '_remove_untouchable_events_from')
def u(v):
    """exactly the touchable classes remain, with their metrics"""
    d, dt = v.param('metrics', DSR)
    p = uf('untouchable', [STR], BOOL, v.types)
    s_, SS = S(v, DSR), S(v, TList(STR))
    k0 = z3.Const('k0', S(v, STR))
    IN = mem_fold(v, 'INK', SS, k0)
    ks = s_.keys(dt)
    v.require(z3.Select(s_.has(dt), k0) == IN(ks, z3.Length(ks)))
    KI = z3.Function('index_of_key', S(v, STR), z3.IntSort())     # a dictionary lists each of its keys once
    WF = UPred('WF', [SS], z3.IntSort(), lambda s, i: z3.Implies(z3.And(0 <= i, i < z3.Length(s)), z3.And(KI(s[i]) == i, z3.Select(s_.has(dt), s[i]))))
    v.require(WF(ks))
    ALLB = UPred('ALLB', [SS, z3.IntSort()], z3.IntSort(), lambda q, i, a: z3.Implies(z3.And(0 <= a, a < z3.Length(q)), z3.And(KI(q[a]) < i, z3.Select(s_.has(dt), q[a]))))
    DIST = UPred('DIST', [SS], [z3.IntSort(), z3.IntSort()], lambda q, a, b: z3.Implies(z3.And(0 <= a, a < b, b < z3.Length(q)), q[a] != q[b]))
    REST = UPred('REST', [s_, SS, z3.IntSort()], z3.IntSort(), lambda x, q, i, a: z3.Implies(z3.And(i <= a, a >= 0, a < z3.Length(q)), z3.Select(s_.has(x), q[a])))

    def tm(Lp):
        for x in Lp.mods(TList(STR)):
            yield ('distinct ' + x.name, lambda st, x=x: DIST(x(st)))
            for i in Lp.mods(INT):
                yield ('%s among the first %s keys' % (x.name, i.name), lambda st, x=x, i=i: ALLB(x(st), i(st)))
        for x in Lp.mods(DSR):
            for q in Lp.fixed(TList(STR)):
                for i in Lp.mods(INT):
                    yield ('%s still has %s[%s:]' % (x.name, q.name, i.name), lambda st, x=x, q=q, i=i: REST(x(st), q(st), i(st)))
        for i in Lp.mods(INT):
            for x in Lp.mods(TList(STR)):
                yield ('%s holds the untouchable of the first %s' % (x.name, i.name), lambda st, x=x, i=i: IN(x(st), z3.Length(x(st))) == z3.And(IN(ks, i(st)), p.f(k0)))
            for q in Lp.fixed(TList(STR)):
                for x in Lp.mods(DSR):
                    yield ('%s lost %s[:%s]' % (x.name, q.name, i.name), lambda st, x=x, i=i, q=q: z3.And(
                        z3.Select(s_.has(x(st)), k0) == z3.And(z3.Select(s_.has(dt), k0), z3.Not(IN(q(st), i(st)))), z3.Select(s_.val(x(st)), k0) == z3.Select(s_.val(dt), k0)))
    v.eng.templates.append(tm)
    for s, r in v.returns(v.call(FL + '_remove_untouchable_events_from', [d, p])):
        h, x = dict_sel(v, DSR, v.eng.lower(s, r, DSR), k0)
        v.prove(s, h == z3.And(z3.Select(s_.has(dt), k0), z3.Not(p.f(k0))), 'k0 is kept iff it was there and is touchable')
        v.prove(s, z3.Implies(h, x == z3.Select(s_.val(dt), k0)), 'with its metric')


def argmin_templates(v, keys, has, u, f, j0):
    """(name, value) atoms: nothing chosen yet and no candidate below the start value, or the chosen one is touchable and minimal"""
    O = S(v, OSTR)

    def ok(nm, val, i):
        return z3.And(
            z3.Implies(z3.Not(O.is_none(nm)), z3.And(z3.Not(u(O.val(nm))), val == f(O.val(nm)), has(O.val(nm)))),
            z3.Implies(z3.And(0 <= j0, j0 < i, z3.Not(u(keys[j0]))), val <= f(keys[j0])),
            z3.Implies(O.is_none(nm), val == z3.RealVal(10 ** 10)), val <= z3.RealVal(10 ** 10))

    def tm(Lp):
        for n in Lp.mods(OSTR):
            for x in Lp.mods(REAL):
                for i in Lp.mods(INT):
                    yield ('best so far %s %s %s' % (n.name, x.name, i.name), lambda st, n=n, x=x, i=i: ok(n(st), x(st), i(st)))
    v.eng.templates.append(tm)
    return ok


@unit(P, 'next_position_indirect', FL + 'next_event_remove_pos_entropy_indirect')
def u(v):
    """a touchable class whose removal leaves the smallest total position entropy, and that entropy"""
    logv, lt, pv, pt, cv, ct, info = info_setup(v)
    positions_schema(v)
    TCL, PP = TList(TObj('TraceCounts')), TObj('PositionEntropyEventsPositions')
    tc, tct = v.param('trace_counts', TCL)
    pos, post = v.param('positions', PP)
    un = uf('untouchable', [STR], BOOL, v.types)
    E = z3.Function('ENTROPY_WITHOUT', S(v, TSet(STR)), z3.RealSort())
    f = lambda k: E(z3.Store(z3.K(S(v, STR), z3.BoolVal(False)), k, z3.BoolVal(True)))

    def m(e, st, env, fn):
        ig = env['ignored_events']
        ok = z3.And(e.lower(st, env['log'], LOG) == lt, e.lower(st, env['positions'], PP) == post,
                    e.lower(st, get(v, st, ig, 'traces_counts'), TCL) == tct)
        return [(st, Z(z3.If(ok, E(e.lower(st, get(v, st, ig, 'ignored_events'), TSet(STR))), z3.Real('other')), REAL))]
    v.eng.contracts[ENT + 'calculate_position_entropies_fast_sum'] = m
    keys = S(v, DSI).keys(ct)
    j0 = z3.Int('j0')
    n = z3.Length(keys)
    ok = argmin_templates(v, keys, lambda k: z3.Select(S(v, DSI).has(ct), k), un.f, f, j0)
    v.require(0 <= j0, j0 < n)
    for s, r in v.returns(v.call(FL + 'next_event_remove_pos_entropy_indirect', [logv, tc, info, pos, un])):
        v.prove(s, ok(v.eng.lower(s, r.items[0], OSTR), v.eng.lower(s, r.items[1], REAL), n), 'touchable, minimal, with its value; none only if no touchable class is below 1e10')
        frame_log(v, s, logv, lt)


@unit(P, 'next_default_indirect', FL + 'next_removal_default_entropy_indirect')
def u(v):
    """a touchable class among the top share by own entropy whose removal leaves the smallest average entropy"""
    log_schema(v)
    logv, lt = v.param('log', LOG)
    d, dt = v.param('entropies', DSR)
    lap = Z(z3.Bool('laplace'), BOOL)
    top, topt = v.param('top_percent', REAL)
    v.require(topt >= 0, topt <= 1)
    un = uf('untouchable', [STR], BOOL, v.types)
    IT = TTup(STR, REAL)
    so, sot = v.param('sorted_items', TList(IT))
    E = z3.Function('ENTROPY_WITHOUT', S(v, TSet(STR)), z3.RealSort())
    sI, s_ = S(v, IT), S(v, DSR)
    f = lambda k: E(z3.Store(z3.K(S(v, STR), z3.BoolVal(False)), k, z3.BoolVal(True)))
    spy(v, ENT + 'calculate_laplace_or_default_entropies', lambda st, env: d, {'log': logv, 'laplace': lap})

    def srt(eng, st, a, kw):
        # sorted(entropies.items(), key=own entropy): an ascending permutation; only its length matters below
        w = a[0]
        if not (isinstance(w, VView) and w.kind == 'items'):
            raise Unsupported('sorted of something else')
        k = kw.get('key')
        r = eng.call(st, k, [VTup([Z(z3.Const('kk', S(v, STR)), STR), Z(z3.Real('vv'), REAL)])], {}, None, None, None)
        if eng.mode == 'final':
            v.prove(r[0][0], eng.lower(r[0][0], r[0][1], REAL) == z3.Real('vv'), 'ordered by own entropy')
            v.prove(st, z3.BoolVal('reverse' not in kw), 'ascending')
        st.assume(z3.Length(sot) == z3.Length(s_.keys(dt)))
        return [(st, so)]
    v.eng.ext['builtins.sorted'] = srt
    v.eng.assumed.add('sorted() returns a permutation ordered by the key')

    def m(e, st, env, fn):
        ok = z3.And(e.lower(st, env['log'], LOG) == lt, e.lower(st, env['laplace'], BOOL) == lap.t)
        return [(st, Z(z3.If(ok, E(e.lower(st, env['ignored_events'], TSet(STR))), z3.Real('other')), REAL))]
    v.eng.contracts[ENT + 'calculate_default_entropy_average'] = m
    j0 = z3.Int('j0')
    O = S(v, OSTR)
    n = z3.Length(sot)
    share = z3.ToInt(z3.ToReal(n) * topt)
    tops = z3.Extract(sot, n - share, share)
    v.require(n - share <= j0, j0 < n, share <= n, n >= 0)

    def ok(nm, val, i):
        return z3.And(
            z3.Implies(z3.Not(O.is_none(nm)), z3.And(z3.Not(un.f(O.val(nm))), val == f(O.val(nm)))),
            z3.Implies(z3.And(j0 < n - share + i, z3.Not(un.f(sI.f0(sot[j0])))), val <= f(sI.f0(sot[j0]))),
            z3.Implies(O.is_none(nm), val == z3.RealVal(10 ** 10)), val <= z3.RealVal(10 ** 10))

    def tm(Lp):
        for a in Lp.mods(OSTR):
            for x in Lp.mods(REAL):
                for i in Lp.mods(INT):
                    yield ('best so far %s %s %s' % (a.name, x.name, i.name), lambda st, a=a, x=x, i=i: ok(a(st), x(st), i(st)))
    v.eng.templates.append(tm)
    for s, r in v.returns(v.call(FL + 'next_removal_default_entropy_indirect', [logv, lap, top, un])):
        v.prove(s, ok(v.eng.lower(s, r.items[0], OSTR), v.eng.lower(s, r.items[1], REAL), share), 'touchable, minimal over the top share, with its value')
        frame_log(v, s, logv, lt)


REMS = TList(TTup(OSTR, REAL))


def rem_spec(v, lt, RM, PICK, O, VALUE, stop):
    """REM(l): the removals that follow from l.  Invariant: removals ++ REM(log) == REM(input)"""
    SL, SR = S(v, LOG), S(v, REMS)
    sI = S(v, TTup(OSTR, REAL))

    def d(l):
        k = O.val(PICK(l))
        return z3.If(stop(l), z3.Empty(SR), z3.Concat(z3.Unit(sI.mk(PICK(l), VALUE(l, RM(l, k)))), REM(RM(l, k))))
    REM = SpecFn('REM', [SL], SR, d)

    def tm(Lp):
        for x in Lp.mods(LOG):
            for r in Lp.mods(REMS):
                yield ('%s ++ REM(%s) == REM(input)' % (r.name, x.name), lambda st, x=x, r=r: z3.Concat(r(st), REM(x(st))) == REM(lt))
    v.eng.templates.append(tm)
    return REM


def till_end_unit(v, pos, kind):
    logv, lt, RM, PICK, VAL, O = setup(v)
    unt = v.eng.lit('UNTOUCHABLE')
    k = v.eng.getattr(v.st, v.klass(FL + 'TillEndFilteringMetricKind'), kind)[0][1]
    METRIC = z3.Function('METRIC', S(v, LOG), z3.RealSort())
    C = v.eng.contracts
    stop = lambda l: z3.Or(z3.Length(traces(v, l)) == 0, O.is_none(PICK(l)))
    if pos:
        if kind == 'BeforeOnly':
            val = lambda l, l2: METRIC(l)
        else:
            val = lambda l, l2: METRIC(l) - VAL(l)
        for q, tag in ((INF + 'calculate_events_in_each_trace', 'counts'), (INF + 'create_log_information', 'info'), (ENT + 'create_events_positions', 'positions')):
            C[q] = lambda e, st, env, fn, tag=tag: [(st, VTup([e.lit(tag), keep(e, st, env['log'])]))]

        def m(e, st, env, fn):
            l = e.lower(st, env['log'], LOG)
            need(v, e, st, env['positions'], 'positions', l)
            if env['ignored_events'] is not VNone:
                raise Unsupported('ignored events')
            return [(st, Z(METRIC(l), REAL))]
        C[ENT + 'calculate_position_entropies_fast_sum'] = m

        def nx(e, st, env, fn):
            l = e.lower(st, env['log'], LOG)
            need(v, e, st, env['trace_counts'], 'counts', l)
            need(v, e, st, env['log_info'], 'info', l)
            need(v, e, st, env['positions'], 'positions', l)
            same(env['untouchable_event_func'], unt)
            return [(st, VTup([Z(PICK(l), OSTR), Z(VAL(l), REAL)]))]
        C[FL + 'next_event_remove_pos_entropy_indirect'] = nx
        REM = rem_spec(v, lt, RM, PICK, O, val, stop)
        f = FL + 'filter_events_pos_entropy_indirect_till_end'
        outs = v.call(f, [logv, k, unt])
    else:
        val = (lambda l, l2: METRIC(l)) if kind == 'BeforeOnly' else (lambda l, l2: METRIC(l) - METRIC(l2))
        DM = z3.Function('METRICS', S(v, LOG), S(v, DSR))
        F = _dsum(v, DSR)
        s_ = S(v, DSR)
        LEMMAS.append(lambda a: [METRIC(a.arg(0)) == F(DM(a.arg(0)), z3.Length(s_.keys(DM(a.arg(0)))))] if a.decl().name() in ('METRIC', 'METRICS') else None)
        mf = VPy(lambda eng, st, a, kw: [(st, eng.lift(st, DM(eng.lower(st, a[0], LOG)), DSR))])

        def tm(Lp):
            for x in Lp.mods(REAL) + Lp.mods(INT):
                for i in Lp.mods(INT):
                    if i is not x:
                        for l in Lp.all(LOG):
                            yield ('%s == DSUM(%s, %s)' % (x.name, l.name, i.name), lambda st, x=x, i=i, l=l: (z3.ToReal(x(st)) if x.ty == INT else x(st)) == F(DM(l(st)), i(st)))
        v.eng.templates.append(tm)

        def nx(e, st, env, fn):
            l = e.lower(st, env['log'], LOG)
            same(env['metric_func'], mf)
            return [(st, VTup([Z(PICK(l), OSTR), Z(VAL(l), REAL)]))]
        C[FL + '_determine_next_event_to_remove_direct'] = nx
        REM = rem_spec(v, lt, RM, PICK, O, val, stop)
        outs = v.call(FL + '_do_filter_by_metric_direct_till_end', [logv, k, mf])
    for s, r in v.returns(outs):
        v.prove(s, v.eng.lower(s, r, REMS) == REM(lt), 'removal list == the removals in order with their metric')
        frame_log(v, s, logv, lt)
        frame_heap(v, s)


for _pos in (True, False):
    for _kind in ('BeforeOnly', 'AfterBeforeDelta'):
        def _u(v, pos=_pos, kind=_kind):
            till_end_unit(v, pos, kind)
        _u.__doc__ = 'removes designated classes until none is left, recording each with its metric (%s)' % _kind
        unit(P, 'till_end_%s_%s' % ('indirect' if _pos else 'direct', _kind),
             FL + ('filter_events_pos_entropy_indirect_till_end' if _pos else '_do_filter_by_metric_direct_till_end'))(_u)


def wrapper_unit(v, fname, pos, till_end=False):
    """the wrapper hands the log, threshold, limit and a metric of the touchable classes on"""
    log_schema(v)
    logv, lt = v.param('log', LOG)
    l2, l2t = v.param('some_log', LOG)
    th, mx = v.param('threshold', REAL)[0], v.param('max_events', INT)[0]
    lap = Z(z3.Bool('laplace'), BOOL)
    unt = v.eng.lit('UNTOUCHABLE')
    kind = v.eng.lit('KIND')
    res, rt = v.param('result', REMS if till_end else LOG)
    d, d2 = v.param('metrics', DSR)[0], v.param('touchable_metrics', DSR)[0]
    if pos:
        spy(v, ENT + 'calculate_position_entropies_fast', lambda st, env: d, {'log': l2})
    else:
        spy(v, ENT + 'calculate_laplace_or_default_entropies', lambda st, env: d, {'log': l2, 'laplace': lap})
    spy(v, FL + '_remove_untouchable_events_from', lambda st, env: d2, {'events_to_metric': d, 'untouchable_event_func': unt})

    def result(st, env):
        for s2, r in v.eng.call(st.clone(), env['metric_func'], [l2], {}, None, None, None):
            same_val(v, s2, r, d2, 'metric of the touchable classes')
        return res
    ex = {'log': logv}
    ex.update({'metric_kind': kind} if till_end else {'threshold': th, 'max_events_to_delete': mx})
    calls = spy(v, FL + ('_do_filter_by_metric_direct_till_end' if till_end else '_do_filter_by_metric_direct'), result, ex)
    if till_end:
        outs = v.call(FL + fname, [], {'log': logv, 'metric_kind': kind, 'untouchable_event_func': unt})
    else:
        kw = {'log': logv, 'threshold': th, 'max_events_to_remove': mx, 'untouchable_event_func': unt}
        if not pos:
            kw['laplace'] = lap
        outs = v.call(FL + fname, [], kw)
    for s, r in v.returns(outs):
        same_val(v, s, r, res, 'the filtered log is returned')
    v.prove(v.st, z3.BoolVal(len(calls) > 0), 'the filter runs')


for _n, _p, _t in (('filter_events_default_entropy_direct', False, False), ('filter_events_pos_entropy_direct', True, False), ('filter_events_pos_entropy_direct_till_end', True, True)):
    def _u(v, n=_n, p=_p, t=_t):
        wrapper_unit(v, n, p, t)
    _u.__doc__ = 'log, threshold, limit and untouchable rule are handed on to the removal loop'
    unit(P, _n, FL + _n)(_u)


def part_unit(v, cls, fname, args, expected):
    log_schema(v)
    logv, lt = v.param('log', LOG)
    out, ot = v.param('filtered', LOG)
    th, mx = v.param('threshold', REAL)[0], v.param('max_events', INT)[0]
    lap = Z(z3.Bool('laplace'), BOOL)
    top = v.param('top_percent', REAL)[0]
    unt = v.eng.lit('UNTOUCHABLE')
    vals = {'threshold': th, 'max_events_to_remove': mx, 'laplace': lap, 'top_percent': top, 'untouchable_event_func': unt}
    calls = spy(v, FL + fname, lambda st, env: out, dict({k: vals[k] for k in expected}, log=logv))
    part = make(v, FP + cls, **{k: vals[k] for k in args})
    for s, r in v.returns(v.call(FP + cls + '.execute', [part, part_result(v, log=logv)])):
        same_val(v, s, values_of(v, s, r)['log'], out, 'the filtered log becomes the log')
        frame_log(v, s, logv, lt)
    v.prove(v.st, z3.BoolVal(len(calls) > 0), 'the filter runs')


for _c, _f, _a in (('PosEntropyDirectFilter', 'filter_events_pos_entropy_direct', ['threshold', 'max_events_to_remove', 'untouchable_event_func']),
                   ('PosEntropyIndirectFilter', 'filter_events_pos_entropy_indirect', ['threshold', 'max_events_to_remove', 'untouchable_event_func']),
                   ('DfgEntropyDirectFilter', 'filter_events_default_entropy_direct', ['threshold', 'laplace', 'max_events_to_remove']),
                   ('DfgEntropyIndirectFilter', 'filter_events_default_entropy_indirect', ['threshold', 'laplace', 'max_events_to_remove', 'top_percent'])):
    def _u(v, c=_c, f=_f, a=_a):
        part_unit(v, c, f, a, a)
    _u.__doc__ = 'the part filters the current log with its configured limits and stores the result'
    unit(P, _c, FP + _c + '.execute')(_u)
