from contracts.common import *

P = 'C02'
INF = L + 'analysis.event_log_info:'
AP = L + 'pipelines.analysis.analysis_parts:'


def count_templates(v, amount, ty, *folds):
    """for dict/int atoms x: amount(x) == amount(x at loop entry) + F(s, i)  (and the counting facts of the key)"""
    def t(Lp):
        for x in Lp.atoms:
            if not x.modified or x.ty != ty:
                continue
            try:
                e = x(Lp.entry)
            except Exception:
                continue
            for F in folds:
                ss = F.f.domain(0)
                for s in Lp.atoms:
                    if Lp.eng.sort(s.ty) != ss:
                        continue
                    for i in Lp.mods(INT):
                        yield ('%s counts %s(%s,%s)' % (x.name, F.name, s.name, i.name),
                               lambda st, x=x, s=s, i=i, F=F, e=e: amount(x(st)) == amount(e) + F(s(st), i(st)))
    v.eng.templates.append(t)


def dict_amount(v, ty, key):
    s = v.types.sort(ty)
    return lambda d: z3.If(z3.Select(s.has(d), key), z3.Select(s.val(d), key), z3.IntVal(0))


def positive_templates(v, ty, key):
    s = v.types.sort(ty)

    def t(Lp):
        for x in Lp.atoms:
            if x.modified and x.ty == ty:
                yield ('%s: a present count is positive' % x.name,
                       lambda st, x=x: z3.Implies(z3.Select(s.has(x(st)), key), z3.Select(s.val(x(st)), key) >= 1))
    v.eng.templates.append(t)


def count_spec(v, name, step):
    """F(s,i): sum of step(s, j) for j < i over events; returns (trace fold)"""
    SE = S(v, TList(EV))
    F = SpecFn(name, [SE, z3.IntSort()], z3.IntSort(), lambda s, i: z3.If(i <= 0, z3.IntVal(0), F(s, i - 1) + step(s, i)))
    return F


def log_spec(v, name, per_trace):
    ST = S(v, TList(TR))
    F = SpecFn(name, [ST, z3.IntSort()], z3.IntSort(), lambda l, i: z3.If(i <= 0, z3.IntVal(0), F(l, i - 1) + per_trace(evs(v, l[i - 1]))))
    return F


DSI = TDict(STR, INT)
PAIR = TTup(STR, STR)
DPI = TDict(PAIR, INT)


def b2i(c):
    return z3.If(c, z3.IntVal(1), z3.IntVal(0))


def log_info_unit(v, ignored, fake):
    log_schema(v)
    logv, lt = v.param('log', LOG)
    all_named(v, lt)
    k0, a0, b0 = (z3.Const(n, S(v, STR)) for n in ('k0', 'a0', 'b0'))
    FS, FE = v.eng.lit('FAKE_START').t, v.eng.lit('FAKE_END').t
    if ignored:
        ig, it = v.param('ignored_events', TSet(STR))
        keep = lambda e: z3.Not(z3.Select(it, name_of(v, e)))
    else:
        ig, keep = VNone, lambda e: z3.BoolVal(True)
    SE = S(v, TList(EV))
    OE = S(v, TOpt(EV))
    LK = SpecFn('LASTKEPT', [SE, z3.IntSort()], OE, lambda s, i: z3.If(i <= 0, OE.none, z3.If(keep(s[i - 1]), OE.some(s[i - 1]), LK(s, i - 1))))
    CE = count_spec(v, 'CE', lambda s, i: b2i(z3.And(keep(s[i - 1]), name_of(v, s[i - 1]) == k0)))

    def pstep(s, i):
        p = LK(s, i - 1)
        e = s[i - 1]
        adj = z3.And(OE.is_some(p), name_of(v, OE.val(p)) == a0, name_of(v, e) == b0)
        if fake:
            adj = z3.Or(adj, z3.And(OE.is_none(p), a0 == FS, name_of(v, e) == b0))
        return b2i(z3.And(keep(e), adj))
    CP = count_spec(v, 'CP', pstep)

    def ptrace(es):
        n = z3.Length(es)
        r = CP(es, n)
        if fake:
            p = LK(es, n)
            r = r + b2i(z3.And(OE.is_some(p), name_of(v, OE.val(p)) == a0, b0 == FE))
        return r
    CEL = log_spec(v, 'CEL', lambda es: CE(es, z3.Length(es)))
    CPL = log_spec(v, 'CPL', ptrace)
    pk = S(v, PAIR).mk(a0, b0)
    ae, ap = dict_amount(v, DSI, k0), dict_amount(v, DPI, pk)
    count_templates(v, ae, DSI, CE, CEL)
    count_templates(v, ap, DPI, CP, CPL)
    positive_templates(v, DSI, k0)
    positive_templates(v, DPI, pk)
    OS = S(v, TOpt(STR))
    LKN = SpecFn('LASTKEPTNAME', [SE, z3.IntSort()], OS, lambda s, i: z3.If(OE.is_none(LK(s, i)), OS.none, OS.some(name_of(v, OE.val(LK(s, i))))))
    v.fold_templates(LK, LKN)
    t = traces(v, lt)
    n = z3.Length(t)
    sD, sP = S(v, DSI), S(v, DPI)
    outs = v.call(INF + 'create_log_information', [logv, ig, v.eng.B(fake)])
    for s, r in v.returns(outs):
        ec = v.eng.lower(s, v.eng.getattr(s, r, 'events_count')[0][1], DSI)
        dfg = v.eng.getattr(s, r, 'dfg')[0][1]
        pr = v.eng.lower(s, v.eng.getattr(s, dfg, 'pairs')[0][1], DPI)
        v.prove(s, ae(ec) == CEL(t, n), 'count of a class == its number of not ignored occurrences')
        v.prove(s, z3.Select(sD.has(ec), k0) == (CEL(t, n) > 0), 'a class is listed iff it occurs')
        v.prove(s, ap(pr) == CPL(t, n), 'directly-follows count == number of adjacent occurrences after deletion of ignored classes')
        v.prove(s, z3.Select(sP.has(pr), pk) == (CPL(t, n) > 0), 'a pair is listed iff it occurs')
        frame_log(v, s, logv, lt)
        frame_heap(v, s)


for _ig in (False, True):
    for _fk in (False, True):
        def _u(v, ig=_ig, fk=_fk):
            log_info_unit(v, ig, fk)
        _u.__doc__ = 'class counts and directly-follows counts are exact (ignored=%s, artificial start/end=%s)' % (_ig, _fk)
        unit(P, 'log_information_%s_%s' % ('ign' if _ig else 'all', 'fake' if _fk else 'plain'), INF + 'create_log_information')(_u)


@unit(P, 'dfg', INF + 'DirectlyFollowsGraph.__init__')
def u(v):
    """follower map and single-follower set are those of the pairs"""
    pv, pt = v.param('pairs', DPI)
    a0, b0 = (z3.Const(n, S(v, STR)) for n in ('a0', 'b0'))
    sp, sP = S(v, PAIR), S(v, DPI)
    FD = TDict(STR, DSI)
    sF, sD = S(v, FD), S(v, DSI)
    SK = sP.keys(pt).sort()
    NF = SpecFn('NF', [SK, z3.IntSort()], z3.IntSort(), lambda k, i: z3.If(i <= 0, z3.IntVal(0), NF(k, i - 1) + b2i(sp.f0(k[i - 1]) == a0)))
    PR = SpecFn('PR', [SK, z3.IntSort()], z3.BoolSort(), lambda k, i: z3.If(i <= 0, z3.BoolVal(False), z3.Or(PR(k, i - 1), k[i - 1] == sp.mk(a0, b0))))
    ks = sP.keys(pt)

    def ok(f, i):
        inner = z3.Select(sF.val(f), a0)
        return z3.And(NF(ks, i) >= 0, z3.Implies(PR(ks, i), NF(ks, i) > 0),
                      z3.Select(sF.has(f), a0) == (NF(ks, i) > 0),
                      z3.Implies(NF(ks, i) > 0, z3.And(z3.Select(sD.has(inner), b0) == PR(ks, i),
                                 z3.Implies(PR(ks, i), z3.Select(sD.val(inner), b0) == z3.Select(sP.val(pt), sp.mk(a0, b0))))))

    def t(Lp):
        for x in Lp.mods(FD):
            for i in Lp.mods(INT):
                yield ('followers %s %s' % (x.name, i.name), lambda st, x=x, i=i: ok(x(st), i(st)))
        for x in Lp.mods(TSet(STR)):
            for i in Lp.mods(INT):
                yield ('single %s %s' % (x.name, i.name), lambda st, x=x, i=i: z3.Select(x(st), a0) == (NF(ks, i(st)) == 1))
    v.eng.templates.append(t)
    n = z3.Length(ks)
    c = v.klass(INF + 'DirectlyFollowsGraph')
    for s, r in v.eng.instantiate(v.st.clone(), c, [pv], {}):
        v.paths += 1
        v.reach.append(s)
        f = v.eng.lower(s, v.eng.getattr(s, r, 'followed_events')[0][1], FD)
        g = v.eng.lower(s, v.eng.getattr(s, r, 'events_with_single_follower')[0][1], TSet(STR))
        v.prove(s, ok(f, n), 'follower map holds exactly the pairs with their counts')
        v.prove(s, z3.Select(g, a0) == (NF(ks, n) == 1), 'single-follower set == classes with exactly one follower')
        v.prove(s, v.eng.lower(s, v.eng.getattr(s, r, 'pairs')[0][1], DPI) == pt, 'pairs kept')


@unit(P, 'create_dfg', INF + 'create_dfg')
def u(v):
    """create_dfg == the dfg of create_log_information without artificial events"""
    log_schema(v)
    logv, lt = v.param('log', LOG)
    seen = []

    def contract(eng, st, env, f):
        seen.append((st, env))
        o = eng.new_root(st, ('O', 'LogInformation', {'dfg': dv, 'events_count': VNone}))
        return [(st, o)]
    dv = v.eng.lit('DFG')
    v.eng.contracts[INF + 'create_log_information'] = contract
    for s, r in v.returns(v.call(INF + 'create_dfg', [logv])):
        v.prove(s, r.t == dv.t if isinstance(r, Z) else z3.BoolVal(False), 'the dfg of the log information is returned')
    for st, env in seen:
        v.prove(st, v.eng.lower(st, env['log'], LOG) == lt, 'of the whole log')
        fk = env['add_fake_start_end_events']
        v.prove(st, z3.Not(v.eng.lower(st, fk, BOOL)), 'without artificial events')
        v.prove(st, z3.BoolVal(env['ignored_events'] is VNone), 'with no class ignored')


@unit(P, 'events_in_each_trace', INF + 'calculate_events_in_each_trace')
def u(v):
    """one entry per trace in order; counts of each class and the overall count are exact"""
    log_schema(v)
    logv, lt = v.param('log', LOG)
    all_named(v, lt)
    v.types.obj['TraceCounts'] = [('counts', DSI), ('overall_count', INT)]
    TC = TObj('TraceCounts')
    k0, j0 = z3.Const('k0', S(v, STR)), z3.Int('j0')
    CE = count_spec(v, 'CE', lambda s, i: b2i(name_of(v, s[i - 1]) == k0))
    ae = dict_amount(v, DSI, k0)
    count_templates(v, ae, DSI, CE)
    positive_templates(v, DSI, k0)
    t = traces(v, lt)
    v.require(0 <= j0, j0 < z3.Length(t))
    sD = S(v, DSI)

    def good(q, i):
        x = q[j0]
        es = evs(v, t[j0])
        d = fld(v, 'TraceCounts', 'counts', x)
        return z3.And(z3.Length(q) == i, z3.Implies(j0 < i, z3.And(
            fld(v, 'TraceCounts', 'overall_count', x) == z3.Length(es), ae(d) == CE(es, z3.Length(es)),
            z3.Implies(z3.Select(sD.has(d), k0), z3.Select(sD.val(d), k0) >= 1))))

    def tm(Lp):
        for x in Lp.mods(TList(TC)):
            for i in Lp.mods(INT):
                yield ('counts %s %s' % (x.name, i.name), lambda st, x=x, i=i: good(x(st), i(st)))
    v.eng.templates.append(tm)
    for s, r in v.returns(v.call(INF + 'calculate_events_in_each_trace', [logv])):
        v.prove(s, good(v.eng.lower(s, r, TList(TC)), z3.Length(t)), 'entry j0 holds the exact counts of trace j0; one entry per trace')
        frame_log(v, s, logv, lt)
        frame_heap(v, s)


@unit(P, 'events_count', INF + 'calculate_events_count')
def u(v):
    """number of events == sum of the trace lengths"""
    log_schema(v)
    logv, lt = v.param('log', LOG)
    CL = log_spec(v, 'CL', lambda es: z3.Length(es))
    CE = count_spec(v, 'CN', lambda s, i: z3.IntVal(1))
    v.fold_templates(CL)
    count_templates(v, lambda x: x, INT, CL, CE)
    SI = z3.SeqSort(z3.IntSort())
    t = traces(v, lt)
    for s, r in v.returns(v.call(INF + 'calculate_events_count', [logv])):
        v.prove(s, v.eng.lower(s, r, INT) == CL(t, z3.Length(t)), 'number of events == sum of trace lengths')
        frame_log(v, s, logv, lt)


@unit(P, 'apply_to_all_events', INF + 'apply_to_all_events')
def u(v):
    """the function is applied once to each event of each trace in order and nothing else changes"""
    log_schema(v)
    logv, lt = v.param('log', LOG)
    f = z3.Function('func_with_event', S(v, EV), S(v, PAY), S(v, PAY))

    def call(eng, st, a, kw):
        e = eng.lower(st, a[0], EV)
        k = ('MyEvent', 'payload')
        st.heap[k] = z3.Store(st.heap[k], e, f(e, z3.Select(st.heap[k], e)))
        eng.log(('heap',) + k)
        return [(st, VNone)]
    HEV, HLOG = edit_specs(v, lambda h, e: f(e, z3.Select(h, e)))
    t = traces(v, lt)
    for s, r in v.returns(v.call(INF + 'apply_to_all_events', [logv, VPy(call, 'func')])):
        v.prove(s, heap(s) == HLOG(v.H0, t, z3.Length(t)), 'applied once to every event, in order')
        frame_log(v, s, logv, lt)


@unit(P, 'find_all_events_names', INF + 'find_all_events_names')
def u(v):
    """exactly the occurring classes on which the predicate always holds"""
    log_schema(v)
    logv, lt = v.param('log', LOG)
    all_named(v, lt)
    k0 = z3.Const('k0', S(v, STR))
    p = uf('predicate', [EV], BOOL, v.types)
    SE, ST = S(v, TList(EV)), S(v, TList(TR))
    OC = SpecFn('OCC', [SE, z3.IntSort()], z3.BoolSort(), lambda s, i: z3.If(i <= 0, z3.BoolVal(False), z3.Or(OC(s, i - 1), name_of(v, s[i - 1]) == k0)))
    BAD = SpecFn('BAD', [SE, z3.IntSort()], z3.BoolSort(), lambda s, i: z3.If(i <= 0, z3.BoolVal(False), z3.Or(
        BAD(s, i - 1), z3.And(name_of(v, s[i - 1]) == k0, z3.Not(p.f(s[i - 1]))))))
    OCL = SpecFn('OCCL', [ST, z3.IntSort()], z3.BoolSort(), lambda l, i: z3.If(i <= 0, z3.BoolVal(False), z3.Or(OCL(l, i - 1), OC(evs(v, l[i - 1]), z3.Length(evs(v, l[i - 1]))))))
    BADL = SpecFn('BADL', [ST, z3.IntSort()], z3.BoolSort(), lambda l, i: z3.If(i <= 0, z3.BoolVal(False), z3.Or(BADL(l, i - 1), BAD(evs(v, l[i - 1]), z3.Length(evs(v, l[i - 1]))))))

    def t(Lp):
        for x in Lp.mods(TSet(STR)):
            e = x(Lp.entry)
            for y in Lp.mods(TSet(STR)):
                if x is y:
                    continue
                ey = y(Lp.entry)
                for O, B in ((OC, BAD), (OCL, BADL)):
                    for s in Lp.atoms:
                        if Lp.eng.sort(s.ty) != O.f.domain(0):
                            continue
                        for i in Lp.mods(INT):
                            yield ('%s/%s %s %s' % (x.name, y.name, s.name, i.name), lambda st, x=x, y=y, s=s, i=i, e=e, ey=ey, O=O, B=B: z3.And(
                                z3.Select(y(st), k0) == z3.Or(z3.Select(ey, k0), B(s(st), i(st))),
                                z3.Select(x(st), k0) == z3.And(z3.Or(z3.Select(e, k0), O(s(st), i(st))), z3.Not(z3.Select(y(st), k0)))))
    v.eng.templates.append(t)
    ts = traces(v, lt)
    n = z3.Length(ts)
    for s, r in v.returns(v.call(INF + 'find_all_events_names', [logv, p])):
        g = v.eng.lower(s, r, TSet(STR))
        v.prove(s, z3.Select(g, k0) == z3.And(OCL(ts, n), z3.Not(BADL(ts, n))), 'k0 is reported iff it occurs and the predicate holds on all its events')
        frame_log(v, s, logv, lt)
        frame_heap(v, s)
