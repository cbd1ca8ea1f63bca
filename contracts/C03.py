from contracts.common import *
from contracts.C02 import count_spec, count_templates, dict_amount, b2i, DSI, PAIR, DPI

P = 'C03'
ENT = L + 'analysis.event_log_analysis_entropy:'
INF = L + 'analysis.event_log_info:'
LI, LR = TList(INT), TList(REAL)
DSL = TDict(STR, LI)
DSR = TDict(STR, REAL)


def positions_schema(v):
    v.types.obj['TraceEventsPositionInfo'] = [('positions', DSL), ('length', INT)]
    v.types.obj['PositionEntropyEventsPositions'] = [('traces_positions', TList(TObj('TraceEventsPositionInfo')))]
    v.types.obj['TraceCounts'] = [('counts', DSI), ('overall_count', INT)]
    v.types.obj['PositionEntropyIgnoredEvents'] = [('ignored_events', TSet(STR)), ('traces_counts', TList(TObj('TraceCounts')))]
    for c in ('TraceEventsPositionInfo', 'PositionEntropyEventsPositions', 'PositionEntropyIgnoredEvents'):
        v.klass(ENT + c)
    v.klass(INF + 'TraceCounts')


@unit(P, 'create_events_positions', ENT + 'create_events_positions')
def u(v):
    """positions of each class in each trace == ascending indices of its occurrences; length == trace length"""
    log_schema(v)
    positions_schema(v)
    logv, lt = v.param('log', LOG)
    all_named(v, lt)
    k0, j0 = z3.Const('k0', S(v, STR)), z3.Int('j0')
    SE, SI = S(v, TList(EV)), S(v, LI)
    POS = SpecFn('POS', [SE, z3.IntSort()], SI, lambda s, i: z3.If(i <= 0, z3.Empty(SI), z3.If(
        name_of(v, s[i - 1]) == k0, z3.Concat(POS(s, i - 1), z3.Unit(i - 1)), POS(s, i - 1))))
    t = traces(v, lt)
    v.require(0 <= j0, j0 < z3.Length(t))

    def ok(d, s, i):
        h, x = dict_sel(v, DSL, d, k0)
        return z3.And(h == (z3.Length(POS(s, i)) > 0), z3.Implies(h, x == POS(s, i)))

    def good(q, i):
        x = q[j0]
        es = evs(v, t[j0])
        return z3.And(z3.Length(q) == i, z3.Implies(j0 < i, z3.And(
            fld(v, 'TraceEventsPositionInfo', 'length', x) == z3.Length(es), ok(fld(v, 'TraceEventsPositionInfo', 'positions', x), es, z3.Length(es)))))

    def tm(Lp):
        for i in Lp.mods(INT):
            for x in Lp.mods(TList(TObj('TraceEventsPositionInfo'))):
                yield ('positions list %s %s' % (x.name, i.name), lambda st, x=x, i=i: good(x(st), i(st)))
            for x in Lp.mods(DSL):
                for s in Lp.all(TList(EV)):
                    yield ('positions %s of %s[:%s]' % (x.name, s.name, i.name), lambda st, x=x, s=s, i=i: ok(x(st), s(st), i(st)))
    v.eng.templates.append(tm)
    for s, r in v.returns(v.call(ENT + 'create_events_positions', [logv])):
        q = v.eng.lower(s, get(v, s, r, 'traces_positions'), TList(TObj('TraceEventsPositionInfo')))
        v.prove(s, good(q, z3.Length(t)), 'entry j0 holds exactly the ascending positions of class k0 in trace j0 and its length')
        frame_log(v, s, logv, lt)
        frame_heap(v, s)


LOG2 = z3.Function('log2', z3.RealSort(), z3.RealSort())


def plogp(x):
    return x * LOG2(x)


@unit(P, 'entropy_of_vector', ENT + '_calculate_entropy')
def u(v):
    """-sum of p*log2(p) over the non-zero entries"""
    vec, vt = v.param('vector', LR)
    H = SpecFn('H', [S(v, LR), z3.IntSort()], z3.RealSort(), lambda s, i: z3.If(i <= 0, z3.RealVal(0), z3.If(
        s[i - 1] != 0, H(s, i - 1) - plogp(s[i - 1]), H(s, i - 1))))
    v.fold_templates(H)
    for s, r in v.returns(v.call(ENT + '_calculate_entropy', [vec])):
        v.prove(s, v.eng.lower(s, r, REAL) == H(vt, z3.Length(vt)), 'entropy == -sum p log2 p over the non-zero entries')
        v.prove(s, v.eng.lower(s, vec, LR) == vt, 'frame: vector unchanged')


def log_info(v, pairs, counts):
    """contract of create_log_information (proved in C02): some exact pairs and counts"""
    dfg = v.eng.new_root(v.st, ('O', 'DirectlyFollowsGraph', {'pairs': pairs}))
    return v.eng.new_root(v.st, ('O', 'LogInformation', {'dfg': dfg, 'events_count': counts}))


def info_setup(v):
    log_schema(v)
    for c in ('DirectlyFollowsGraph', 'LogInformation', 'TraceCounts'):
        v.klass(INF + c)
    logv, lt = v.param('log', LOG)
    pv, pt = v.param('pairs', DPI)
    cv, ct = v.param('counts', DSI)
    return logv, lt, pv, pt, cv, ct, log_info(v, pv, cv)


@unit(P, 'entropies_of_all_classes', ENT + '_calculate_entropies')
def u(v):
    """entropy of a class == entropy of its follower vector + entropy of its predecessor vector over all classes + end/start"""
    logv, lt, pv, pt, cv, ct, info = info_setup(v)
    ig, it = v.param('ignored', TSet(STR))
    seen = []

    def cli(eng, st, env, f):
        seen.append((st.clone(), env))
        return [(st, info)]
    v.eng.contracts[INF + 'create_log_information'] = cli
    HH = z3.Function('ENTROPY', S(v, LR), z3.RealSort())
    v.eng.contracts[ENT + '_calculate_entropy'] = lambda eng, st, env, f: [(st, Z(HH(eng.lower(st, env['vector'], LR)), REAL))]
    fr = z3.Function('dfr', S(v, STR), S(v, STR), z3.RealSort())
    pr = z3.Function('dpr', S(v, STR), S(v, STR), z3.RealSort())

    def func(g):
        def call(eng, st, a, kw):
            o = a[2]
            if not (isinstance(o, VPl) and isinstance(o.place, Root) and o.place.oid == info.place.oid):
                raise Unsupported('another log information')
            return [(st, Z(g(eng.lower(st, a[0], STR), eng.lower(st, a[1], STR)), REAL))]
        return VPy(call)
    sD, sR, SS, SR = S(v, DSI), S(v, DSR), S(v, TList(STR)), S(v, LR)
    ks = sD.keys(ct)
    FE, FS = v.eng.lit(v.glob(L + 'util', 'fake_end_name')).t, v.eng.lit(v.glob(L + 'util', 'fake_start_name')).t

    def vec(nm, g):
        F = SpecFn(nm, [S(v, STR), SS, z3.IntSort()], SR, lambda k, s, i: z3.If(i <= 0, z3.Empty(SR), z3.Concat(F(k, s, i - 1), z3.Unit(g(k, s[i - 1])))))
        return F
    VF, VP = vec('VF', fr), vec('VP', pr)
    n = z3.Length(ks)

    def value(k):
        a, b = z3.Concat(ks, z3.Unit(FE)), z3.Concat(ks, z3.Unit(FS))
        return HH(VF(k, a, n + 1)) + HH(VP(k, b, n + 1))

    k0 = z3.Const('k0', S(v, STR))
    IN = SpecFn('INK', [SS, z3.IntSort()], z3.BoolSort(), lambda s, i: z3.If(i <= 0, z3.BoolVal(False), z3.Or(IN(s, i - 1), s[i - 1] == k0)))

    def ok(d, i):
        h, x = dict_sel(v, DSR, d, k0)
        return z3.And(h == IN(ks, i), z3.Implies(h, x == value(k0)))

    def tm(Lp):
        for i in Lp.mods(INT):
            for d in Lp.mods(DSR):
                yield ('entropies %s %s' % (d.name, i.name), lambda st, d=d, i=i: ok(d(st), i(st)))
    v.eng.templates.append(tm)
    folds(v, VF, VP)
    outs = v.call(ENT + '_calculate_entropies', [logv, func(fr), func(pr), ig])
    for s, r in v.returns(outs):
        v.prove(s, ok(v.eng.lower(s, r, DSR), n), 'entropy of class k0 == H(followers) + H(predecessors); listed iff it occurs')
        frame_log(v, s, logv, lt)
        frame_heap(v, s)
    for st, env in seen:
        v.prove(st, v.eng.lower(st, env['log'], LOG) == lt, 'statistics of the given log')
        v.prove(st, v.eng.lower(st, env['ignored_events'], TSet(STR)) == it, 'with the given ignored classes')


def closures_unit(v, qual, value):
    """the wrapper passes log and ignored set on, and its two frequency functions have the stated values"""
    logv, lt, pv, pt, cv, ct, info = info_setup(v)
    ig, it = v.param('ignored', TSet(STR))
    a, b = z3.Const('a', S(v, STR)), z3.Const('b', S(v, STR))
    res, rt = v.param('result', DSR)
    seen = []

    def c(eng, st, env, f):
        seen.append((st.clone(), env))
        return [(st, res)]
    v.eng.contracts[ENT + '_calculate_entropies'] = c
    for s, r in v.returns(v.call(qual, [logv, ig])):
        v.prove(s, v.eng.lower(s, r, DSR) == rt, 'the computed entropies are returned')
        frame_log(v, s, logv, lt)
    sD, sP, sp = S(v, DSI), S(v, DPI), S(v, PAIR)
    for st, env in seen:
        v.prove(st, v.eng.lower(st, env['log'], LOG) == lt, 'of the given log')
        v.prove(st, v.eng.lower(st, env['ignored_events'], TSet(STR)) == it, 'with the given ignored classes')
        for fn, pk in (('dfr_func', sp.mk(a, b)), ('dpr_func', sp.mk(b, a))):
            s2 = st.clone()
            s2.assume(z3.Select(sD.has(ct), a), z3.Select(sD.val(ct), a) >= 1)     # a occurs (contract of create_log_information)
            s2.assume(z3.Length(sD.keys(ct)) >= 1)
            v.eng.raised = []
            for s3, r in v.eng.call(s2, env[fn], [Z(a, STR), Z(b, STR), info], {}, None, None, None):
                pc = z3.If(z3.Select(sP.has(pt), pk), z3.Select(sP.val(pt), pk), z3.IntVal(0))
                v.prove(s3, v.eng.lower(s3, r, REAL) == value(z3.ToReal(pc), z3.ToReal(z3.Select(sD.val(ct), a)), z3.ToReal(z3.Length(sD.keys(ct)))), fn + ' has the stated value')
            if v.eng.raised:
                v.prove(v.eng.raised[0][0], z3.BoolVal(False), 'no exception in ' + fn)
            v.eng.raised = []


@unit(P, 'default_frequencies', ENT + 'calculate_default_entropies')
def u(v):
    """frequency == pair count / class count"""
    closures_unit(v, ENT + 'calculate_default_entropies', lambda pc, c, n: pc / c)


@unit(P, 'laplace_frequencies', ENT + 'calculate_laplace_entropies')
def u(v):
    """smoothed frequency == (alpha + pair count) / (alpha * (classes + 1) + class count), alpha = 1 / class count"""
    closures_unit(v, ENT + 'calculate_laplace_entropies', lambda pc, c, n: (1 / c + pc) / ((1 / c) * (n + 1) + c))


def _dsum(v, ty):
    s = S(v, ty)
    F = SpecFn('DSUM', [s, z3.IntSort()], z3.RealSort(), lambda d, i: z3.If(
        i <= 0, z3.RealVal(0), F(d, i - 1) + z3.Select(s.val(d), s.keys(d)[i - 1])))
    return F


def sum_unit(v, qual, expect):
    log_schema(v)
    logv, lt = v.param('log', LOG)
    res, rt = v.param('entropies', DSR)
    s = S(v, DSR)
    seen = []

    def f(eng, st, a, kw):
        seen.append((st.clone(), a))
        return [(st, res)]
    F = _dsum(v, DSR)

    def tm(Lp):
        for x in Lp.mods(REAL) + Lp.mods(INT):
            for i in Lp.mods(INT):
                if i is not x:
                    yield ('%s == DSUM(entropies, %s)' % (x.name, i.name), lambda st, x=x, i=i: (z3.ToReal(x(st)) if x.ty == INT else x(st)) == F(rt, i(st)))
    v.eng.templates.append(tm)
    n = z3.Length(s.keys(rt))
    for st, r in v.returns(v.call(qual, [logv, VPy(f)])):
        v.prove(st, expect(v.eng.lower(st, r, REAL), F(rt, n), n), 'aggregates exactly the values of the classes')
        frame_log(v, st, logv, lt)
    for st, a in seen:
        v.prove(st, v.eng.lower(st, a[0], LOG) == lt, 'entropies of the given log')


@unit(P, 'entropy_sum', ENT + '_do_calculate_entropy_sum')
def u(v):
    """sum over all classes"""
    sum_unit(v, ENT + '_do_calculate_entropy_sum', lambda r, t, n: r == t)


@unit(P, 'entropy_average', ENT + '_do_calculate_entropy_avg')
def u(v):
    """average over all classes, 0 without classes"""
    sum_unit(v, ENT + '_do_calculate_entropy_avg', lambda r, t, n: z3.If(n == 0, r == 0, r * z3.ToReal(n) == t))


@unit(P, 'max_vector_length', ENT + 'PositionEntropyIgnoredEvents.calculate_max_vector_length')
def u(v):
    """the longest remaining trace: no trace keeps more events, and some trace attains it (0 without traces)"""
    positions_schema(v)
    selfv, t0 = v.param('self', TObj('PositionEntropyIgnoredEvents'))
    TC = TObj('TraceCounts')
    tcs = fld(v, 'PositionEntropyIgnoredEvents', 'traces_counts', t0)
    ign = fld(v, 'PositionEntropyIgnoredEvents', 'ignored_events', t0)
    sD = S(v, DSI)
    en = v.eng.enum_fn(S(v, STR))(ign)
    RM = SpecFn('REMOVED', [sD, z3.IntSort()], z3.IntSort(), lambda d, i: z3.If(i <= 0, z3.IntVal(0), RM(d, i - 1) + dict_amount(v, DSI, en[i - 1])(d)))

    def mx(l, i):
        x = l[i - 1]
        r = fld(v, 'TraceCounts', 'overall_count', x) - RM(fld(v, 'TraceCounts', 'counts', x), z3.Length(en))
        return z3.If(i <= 0, z3.IntVal(0), z3.If(r > MX(l, i - 1), r, MX(l, i - 1)))
    MX = SpecFn('MAXLEN', [S(v, TList(TC)), z3.IntSort()], z3.IntSort(), mx)
    folds(v, RM, MX)
    outs = v.call(ENT + 'PositionEntropyIgnoredEvents.calculate_max_vector_length', [selfv])
    for s, r in v.returns(outs):
        v.prove(s, v.eng.lower(s, r, INT) == MX(tcs, z3.Length(tcs)), 'maximum over the traces of overall count minus counts of the ignored classes')
        v.prove(s, v.eng.lower(s, selfv, TObj('PositionEntropyIgnoredEvents')) == t0, 'frame: unchanged')


def all_classes_unit(v, qual, callee, fast):
    logv, lt, pv, pt, cv, ct, info = info_setup(v)
    positions_schema(v)
    PI, PP = TObj('PositionEntropyIgnoredEvents'), TObj('PositionEntropyEventsPositions')
    ig, it = v.param('ignored', PI)
    pos, post = v.param('positions', PP)
    seen, seen2 = [], []

    def cli(eng, st, env, f):
        seen.append((st.clone(), env))
        return [(st, info)]
    v.eng.contracts[INF + 'create_log_information'] = cli
    E = z3.Function('POSENT', S(v, STR), z3.RealSort())

    def one(eng, st, env, f):
        ok = z3.And(eng.lower(st, env['log'], LOG) == lt, eng.lower(st, env['events_to_ignore'], PI) == it)
        if fast:
            ok = z3.And(ok, eng.lower(st, env['cached_positions'], PP) == post)
        k = eng.lower(st, env['event_name'], STR)
        return [(st, Z(z3.If(ok, E(k), z3.Real('other')), REAL))]
    v.eng.contracts[callee] = one
    k0 = z3.Const('k0', S(v, STR))
    sD, SS = S(v, DSI), S(v, TList(STR))
    ks = sD.keys(ct)
    IN = SpecFn('INK', [SS, z3.IntSort()], z3.BoolSort(), lambda s, i: z3.If(i <= 0, z3.BoolVal(False), z3.Or(IN(s, i - 1), s[i - 1] == k0)))

    def ok(d, i):
        h, x = dict_sel(v, DSR, d, k0)
        return z3.And(h == IN(ks, i), z3.Implies(h, x == E(k0)))

    def tm(Lp):
        for i in Lp.mods(INT):
            for d in Lp.mods(DSR):
                yield ('entropies %s %s' % (d.name, i.name), lambda st, d=d, i=i: ok(d(st), i(st)))
    v.eng.templates.append(tm)
    for s, r in v.returns(v.call(qual, [logv, ig] + ([pos] if fast else []))):
        v.prove(s, ok(v.eng.lower(s, r, DSR), z3.Length(ks)), 'one entry per remaining class holding its position entropy')
        frame_log(v, s, logv, lt)
    for st, env in seen:
        v.prove(st, v.eng.lower(st, env['log'], LOG) == lt, 'classes of the given log')
        v.prove(st, v.eng.lower(st, env['ignored_events'], TSet(STR)) == fld(v, 'PositionEntropyIgnoredEvents', 'ignored_events', it), 'without the ignored ones')


@unit(P, 'position_entropies_fast', ENT + 'calculate_position_entropies_fast')
def u(v):
    """fast position entropy of every remaining class, with the given positions"""
    all_classes_unit(v, ENT + 'calculate_position_entropies_fast', ENT + 'calculate_position_entropy_fast', True)


@unit(P, 'position_entropies', ENT + 'calculate_position_entropies')
def u(v):
    """reference position entropy of every remaining class"""
    all_classes_unit(v, ENT + 'calculate_position_entropies', ENT + 'calculate_position_entropy', False)


for _f, _agg in (('calculate_default_entropy_sum', '_do_calculate_entropy_sum'), ('calculate_default_entropy_average', '_do_calculate_entropy_avg')):
    for _lap in (True, False):
        def _u(v, f=_f, agg=_agg, lap=_lap):
            log_schema(v)
            logv, lt = v.param('log', LOG)
            ig, it = v.param('ignored', TSet(STR))
            d1, t1 = v.param('ent', DSR)
            tot = v.eng.const('total', REAL)
            seen = []

            def a(eng, st, env, fn):
                for s2, r in eng.call(st, env['entropy_func'], [env['log']], {}, None, None, None):
                    v.prove(s2, eng.lower(s2, env['log'], LOG) == lt, 'of the given log')
                    v.prove(s2, eng.lower(s2, r, DSR) == t1, 'of the entropies of the chosen kind')
                return [(st, Z(tot, REAL))]

            def leaf(kind):
                def h(eng, st, env, fn):
                    v.prove(st, z3.BoolVal(kind == lap), 'the chosen kind of entropy')
                    v.prove(st, eng.lower(st, env['log'], LOG) == lt, 'entropies of the given log')
                    v.prove(st, eng.lower(st, env['ignored_events'], TSet(STR)) == it, 'with the given ignored classes')
                    return [(st, d1)]
                return h
            v.eng.contracts[ENT + agg] = a
            v.eng.contracts[ENT + 'calculate_laplace_entropies'] = leaf(True)
            v.eng.contracts[ENT + 'calculate_default_entropies'] = leaf(False)
            for s, r in v.returns(v.call(ENT + f, [logv, v.eng.B(lap), ig])):
                v.prove(s, v.eng.lower(s, r, REAL) == tot, 'the aggregate is returned')
        _u.__doc__ = 'aggregate of the %s entropies of the given log' % ('smoothed' if _lap else 'default')
        unit(P, '%s_%s' % (_f, 'laplace' if _lap else 'default'), ENT + _f, ENT + 'calculate_laplace_or_default_entropies')(_u)
