from contracts.common import *
from contracts.C09 import EP, PM, PU
from contracts.C13 import act_schema, node_of, st_of, end_of, ends, index_is_end, ordered, NODE, ACT, LACT
from contracts.C07 import new_events

P = 'C14'


def node_field(v, f, ty):
    return z3.Function('ActivityNode.' + f, S(v, NODE), S(v, ty))


def level_of(v, n):
    return v.eng.lower(v.st, v.eng.getattr(v.st, v.eng.lift(v.st, n, NODE), 'activity_level')[0][1], INT)


def nname(v, n):
    return v.eng.lower(v.st, v.eng.getattr(v.st, v.eng.lift(v.st, n, NODE), 'name')[0][1], STR)


@unit(P, 'select_level', PU + 'select_traces_activities_for_activity_level')
def u(v):
    """per trace exactly the instances of the level, in order"""
    act_schema(v)
    av, at = v.param('traces_activities', TList(LACT))
    lv, lt = v.param('activity_level', INT)
    SA, SAA, I = S(v, LACT), S(v, TList(LACT)), z3.IntSort()
    SEL = SpecFn('SELECT', [SA, I], SA, lambda s, i: z3.If(i <= 0, z3.Empty(SA), z3.If(level_of(v, node_of(v, s[i - 1])) == lt, z3.Concat(SEL(s, i - 1), z3.Unit(s[i - 1])), SEL(s, i - 1))))
    SLOG = SpecFn('SELECTLOG', [SAA, I], SAA, lambda s, i: z3.If(i <= 0, z3.Empty(SAA), z3.Concat(SLOG(s, i - 1), z3.Unit(SEL(s[i - 1], z3.Length(s[i - 1]))))))
    v.fold_templates(SEL, SLOG)
    for s, r in v.returns(v.call(PU + 'select_traces_activities_for_activity_level', [av, lv])):
        v.prove(s, v.eng.lower(s, r, TList(LACT)) == SLOG(at, z3.Length(at)), 'the instances of the level, in order')
        v.prove(s, v.eng.lower(s, av, TList(LACT)) == at, 'frame: instances unchanged')


def split_unit(P):
    @unit(P, 'split_by_level', PU + 'split_activities_by_levels_dict', PU + 'get_activities_for_level')
    def u(v):
        """every activity under its own level, once, in order"""
        act_schema(v)
        av, at = v.param('activities', TList(NODE))
        D = TDict(INT, TList(NODE))
        DS, SN, I = S(v, D), S(v, TList(NODE)), z3.IntSort()
        # group d0: what the dictionary holds under a level
        d0 = z3.Int('level0')
        SEL = SpecFn('OFLEVEL', [SN, I], SN, lambda s, i: z3.If(i <= 0, z3.Empty(SN), z3.If(level_of(v, s[i - 1]) == d0, z3.Concat(SEL(s, i - 1), z3.Unit(s[i - 1])), SEL(s, i - 1))))
        under = lambda d, x: z3.If(z3.Select(DS.has(d), d0), z3.Select(DS.val(d), d0) == x, x == z3.Empty(SN))

        def t(Lp):
            for d in Lp.mods(D):
                for i in Lp.counters():
                    for a in Lp.all(TList(NODE)):
                        yield ('%s holds under the level those of the first %s of %s' % (d.name, i.name, a.name), lambda st, d=d, i=i, a=a: z3.And(
                            under(d(st), SEL(a(st), i(st))), z3.Select(DS.has(d(st)), d0) == (z3.Length(SEL(a(st), i(st))) > 0)))
        v.eng.templates.append(t)
        for s, r in v.returns(v.call(PU + 'split_activities_by_levels_dict', [av])):
            d = v.eng.lower(s, r, D)
            v.prove(s, under(d, SEL(at, z3.Length(at))), 'under a level exactly its activities, in order')
            v.prove(s, z3.Select(DS.has(d), d0) == (z3.Length(SEL(at, z3.Length(at))) > 0), 'exactly the levels that occur')
            v.prove(s, v.eng.lower(s, av, TList(NODE)) == at, 'frame: activities unchanged')
        lv, lt = v.param('activity_level', INT)
        st = v.st.clone()
        st.assume(lt == d0, z3.Length(SEL(at, z3.Length(at))) > 0)
        for s, r in v.returns(v.call(PU + 'get_activities_for_level', [av, lv], st=st)):
            v.prove(s, v.eng.lower(s, r, TList(NODE)) == SEL(at, z3.Length(at)), 'the activities of a level that occurs')


split_unit(P)


@unit(P, 'create_trace_for_activity', EP + '_create_trace_for_activity')
def u(v):
    """a copy of exactly the covered events, in order, each renamed by the class extractor and otherwise with the same payload"""
    log_schema(v)
    act_schema(v)
    tr, tt = v.param('original_trace', TR)
    iv, it = v.param('info', ACT)
    es = evs(v, tt)
    n = z3.Length(es)
    b = v.eng.birth('MyEvent')
    SE = S(v, TList(EV))
    v.require(v.st.clock >= 0, 0 <= st_of(v, it), end_of(v, it) >= st_of(v, it), end_of(v, it) <= n)
    # the extractor sees the copy: a function of the payload
    CLS = z3.Function('CLASSOF', S(v, PAY), S(v, STR))
    ex = VPy(lambda eng, st, a, kw: [(st, Z(CLS(z3.Select(heap(st), eng.lower(st, a[0], EV))), STR))], 'class_extractor')
    k0 = z3.Int('k0')
    ln = fld(v, 'ActivityInTraceInfo', 'length', it)
    v.require(0 <= k0, k0 < ln)
    old = es[st_of(v, it) + k0]
    p0 = z3.Select(v.H0, old)
    ds = S(v, PAY)
    cn = v.eng.lit(CN).t
    named = v.eng.inj(STR)(CLS(p0)) if hasattr(v.eng, 'inj') else None
    key = z3.Const('key0', S(v, STR))

    def same(st, new):
        x = new[k0]
        q = z3.Select(heap(st), x)
        return z3.And(b(x) >= 0, b(x) < st.clock, pay_has(v, heap(st), x, CN), name_of(v, x, heap(st)) == CLS(p0),
                      z3.Implies(key != cn, z3.And(z3.Select(ds.has(q), key) == z3.Select(ds.has(p0), key), z3.Select(ds.val(q), key) == z3.Select(ds.val(p0), key))))
    v.require(UPred('EXIST', [SE], z3.IntSort(), lambda s, i: z3.Implies(z3.And(0 <= i, i < z3.Length(s)), b(s[i]) < 0))(es))
    KEPT = UPred('KEPT', [v.H0.sort()], S(v, EV), lambda h, e: z3.Implies(b(e) < 0, z3.Select(h, e) == z3.Select(v.H0, e)))

    def t(Lp):
        yield ('clock', lambda st: st.clock >= 0)
        yield ('existing payloads untouched', lambda st: KEPT(heap(st)))
        for new in Lp.mods(TList(EV)):
            for i in Lp.counters():
                yield ('%s holds %s events' % (new.name, i.name), lambda st, new=new, i=i: z3.Length(new(st)) == i(st))
                yield ('%s holds the copies below %s' % (new.name, i.name), lambda st, new=new, i=i: z3.Implies(k0 < i(st), same(st, new(st))))
    v.eng.templates.append(t)
    for s, r in v.returns(v.call(EP + '_create_trace_for_activity', [tr, iv, ex])):
        new = evs(v, v.eng.lower(s, r, TR))
        v.prove(s, z3.Length(new) == ln, 'as many events as covered')
        v.prove(s, same(s, new), 'the k-th is a new event, named by the extractor, with every other attribute of the k-th covered event')
        v.prove(s, z3.Select(heap(s), old) == p0, 'the covered event is unchanged')
        v.prove(s, v.eng.lower(s, tr, TR) == tt, 'frame: trace unchanged')


def add_to(v, D, d, name, t):
    """the dictionary d after adding trace t under the name"""
    DS = S(v, D)
    e = empty_sany(v)
    one = S(v, LOG).mk(z3.Unit(t), e, e, e, e, e)
    cur = z3.Select(DS.val(d), name)
    more = S(v, LOG).mk(z3.Concat(traces(v, cur), z3.Unit(t)), *[fld(v, 'MyEventLog', f, cur) for f, _ in v.types.obj['MyEventLog'][1:]])
    has = z3.Select(DS.has(d), name)
    return DS.mk(z3.If(has, DS.keys(d), z3.Concat(DS.keys(d), z3.Unit(name))), z3.If(has, DS.has(d), z3.Store(DS.has(d), name, z3.BoolVal(True))),
                 z3.Store(DS.val(d), name, z3.If(has, more, one)))


@unit(P, 'create_logs_for_activities_walk', EP + '_create_logs_for_activities', EP + '_process_trace_activities')
def u(v):
    """one trace per instance for which a trace is created, in log order, under the name of the instance's activity; no other names"""
    log_schema(v)
    act_schema(v)
    logv, lt = v.param('log', LOG)
    av, at = v.param('activities', TList(LACT))
    I, ST, SA, SAA = z3.IntSort(), S(v, TList(TR)), S(v, LACT), S(v, TList(LACT))
    OT, STR_ = S(v, TOpt(TR)), S(v, TR)
    MADE = z3.Function('MADE', STR_, S(v, ACT), OT)
    D = TDict(STR, LOG)
    DS = S(v, D)

    def creator(eng, st, a, kw):
        if eng.mode == 'final':
            v.prove(st, eng.lower(st, a[0], LOG) == lt, 'the trace creator gets the log')
        m = MADE(eng.lower(st, a[1], TR), eng.lower(st, a[2], ACT))
        return [(s, VNone if none else eng.root_of_term(s, OT.val(m), TR)) for s, none in eng.branch(st, OT.is_none(m))]

    def step(d, q, s, i):
        p = IN(d, q, s, i - 1)
        m = MADE(q, s[i - 1])
        return z3.If(i <= 0, d, z3.If(OT.is_none(m), p, add_to(v, D, p, nname(v, node_of(v, s[i - 1])), OT.val(m))))
    IN = SpecFn('LOGS', [DS, STR_, SA, I], DS, step)
    OUT = SpecFn('LOGSLOG', [ST, SAA, I], DS, lambda t, x, i: z3.If(i <= 0, v.eng.empty_dict(D), IN(OUT(t, x, i - 1), t[i - 1], x[i - 1], z3.Length(x[i - 1]))))

    def t(Lp):
        for d in Lp.mods(D):
            for i in Lp.counters():
                for a in Lp.all(TList(LACT)):
                    for b in Lp.all(TList(TR)):
                        yield ('%s logs of the first %s of %s, %s' % (d.name, i.name, a.name, b.name), lambda st, d=d, i=i, a=a, b=b: d(st) == OUT(b(st), a(st), i(st)))
                for a in Lp.iterated(LACT) or Lp.all(LACT):
                    for q in Lp.all(TR):
                        yield ('%s with the first %s of %s in %s' % (d.name, i.name, a.name, q.name), lambda st, d=d, i=i, a=a, q=q: d(st) == IN(d(Lp.entry), q(st), a(st), i(st)))
    v.eng.templates.append(t)
    n = z3.If(z3.Length(at) < z3.Length(traces(v, lt)), z3.Length(at), z3.Length(traces(v, lt)))
    for s, r in v.returns(v.call(EP + '_create_logs_for_activities', [logv, av, VPy(creator, 'trace_creator')])):
        v.prove(s, v.eng.lower(s, r, D) == OUT(traces(v, lt), at, n), 'one trace per created instance, in log order, under its activity name')
        frame_log(v, s, logv, lt)
        frame_heap(v, s)
        v.prove(s, v.eng.lower(s, av, TList(LACT)) == at, 'frame: instances unchanged')


def creator_spy(v, logv, av, use):
    """contract of _create_logs_for_activities that examines the trace creator it is given"""
    res = v.const('result', TDict(STR, LOG))

    def h(eng, st, env, f):
        if eng.mode == 'final':
            same_val(v, st, env['log'], logv, 'the logs are built from the given log')
            same_val(v, st, env['activities'], av, 'and the given instances')
            use(eng, st.clone(), env['trace_creator'])
        return [(st, eng.root_of_term(st, res, TDict(STR, LOG)))]
    v.eng.contracts[EP + '_create_logs_for_activities'] = h
    return res


@unit(P, 'create_logs_for_activities', EP + 'create_logs_for_activities')
def u(v):
    """a trace is created for exactly the instances of the level, with the given extractor"""
    log_schema(v)
    act_schema(v)
    logv, lt = v.param('log', LOG)
    av, at = v.param('activities', TList(LACT))
    lv, lvt = v.param('activity_level', INT)
    tr, tt = v.param('trace', TR)
    iv, it = v.param('info', ACT)
    MADE = v.const('made', TR)
    seen = []
    ex = VPy(None, 'class_extractor')
    made = v.eng.root_of_term(v.st, MADE, TR)
    spy(v, EP + '_create_trace_for_activity', lambda st, env: seen.append(env['class_extractor'] is ex) or made, {'original_trace': tr, 'info': iv})

    def use(eng, st, creator):
        for s, r in eng.call(st, creator, [logv, tr, iv], {}, None, v.eng.repo.module('ficus.legacy.util'), None):
            if r is VNone:
                v.prove(s, level_of(v, node_of(v, it)) != lvt, 'no trace only for an instance of another level')
            else:
                v.prove(s, level_of(v, node_of(v, it)) == lvt, 'a trace only for an instance of the level')
                same_val(v, s, r, made, 'the trace made of its covered events')
    res = creator_spy(v, logv, av, use)
    for s, r in v.returns(v.call(EP + 'create_logs_for_activities', [logv, av, lv, ex])):
        v.prove(s, v.eng.lower(s, r, TDict(STR, LOG)) == res, 'the logs built are returned')
        v.prove(s, z3.BoolVal(len(seen) > 0 and all(seen)), 'the given extractor renames the events')
        frame_log(v, s, logv, lt)
        frame_heap(v, s)


PP = L + 'pipelines.analysis.patterns.patterns_parts:'


@unit(P, 'parts', PP + 'CreateLogsForActivities.execute', PP + 'CreateLogsForActivities.__init__',
      PP + 'CreateLogsForActivitiesWithPromote.execute', PP + 'CreateLogsForActivitiesWithPromote.__init__')
def u(v):
    """the parts store the logs built from the context's log and instances with their own level and extractors; everything else stays"""
    logv, acts, ex, exs, res = (opaque(v, n) for n in ('log', 'instances', 'extractor', 'extractors', 'logs'))
    lv, _ = v.param('level', INT)
    b, _ = v.param('adjust', BOOL)
    ctx = {'log': logv, 'traces_activities': acts}
    part_unit(v, make(v, PP + 'CreateLogsForActivities', lv, ex), PP + 'CreateLogsForActivities.execute', ctx, EP + 'create_logs_for_activities',
              {'log': logv, 'activities': acts, 'activity_level': lv, 'class_extractor': ex}, res, 'activities_logs')
    part_unit(v, make(v, PP + 'CreateLogsForActivitiesWithPromote', lv, exs, b), PP + 'CreateLogsForActivitiesWithPromote.execute', ctx,
              EP + 'create_logs_for_activities_with_promote',
              {'log': logv, 'activities': acts, 'desired_activity_level': lv, 'class_extractors': exs, 'adjust_events_to_max_level': b}, res, 'activities_logs')
