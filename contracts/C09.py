from contracts.common import *

P = 'C09'
EP = L + 'analysis.patterns.event_log_patterns:'
PM = L + 'analysis.patterns.patterns_models:'
PU = L + 'analysis.patterns.util:'
SUB = [('first_pos', INT), ('length', INT)]
TA = TObj('TandemArrayInfo')
QI = TList(INT)


def tandem_schema(v):
    v.types.obj['TandemArrayInfo'] = SUB + [('repeat_count', INT)]
    v.klass(PM + 'TandemArrayInfo')


def same_block(v):
    """SAME(q, a, b, L): q[a..a+L) and q[b..b+L) have the same content"""
    return UPred('SAME', [S(v, QI), z3.IntSort(), z3.IntSort(), z3.IntSort()], z3.IntSort(),
                 lambda q, a, b, l, x: z3.Implies(z3.And(a <= x, x < a + l), q[x] == q[b + (x - a)]))


@unit(P, 'try_extract_tandem_array', EP + '_try_extract_tandem_array')
def u(v):
    """a reported array is the block at the start repeated back to back the reported number (>= 2) of times, inside the trace, and not once
    more right after; nothing is reported iff the block does not repeat right after itself"""
    tandem_schema(v)
    SAME = same_block(v)
    q, qt = v.param('trace', QI)
    i, it = v.param('start_index', INT)
    l, lt = v.param('length', INT)
    n = z3.Length(qt)
    r0 = z3.Int('r0')
    M = SpecFn('TIMES', [z3.IntSort(), z3.IntSort()], z3.IntSort(), lambda l, r: z3.If(r <= 0, z3.IntVal(0), M(l, r - 1) + l))     # l * r
    rr, ll = z3.Int('r'), z3.Int('l')
    v.lemma('TIMES(l, r) is l * r (base)', [rr == 0], M(ll, rr) == ll * rr, fuel=1)
    v.lemma('TIMES(l, r) is l * r (step)', [rr > 0, M(ll, rr - 1) == ll * (rr - 1)], M(ll, rr) == ll * rr, fuel=1)
    zero = lambda st, x: z3.is_int_value(z3.simplify(x(st))) and z3.simplify(x(st)).as_long() == 0
    v.require(0 <= it, lt >= 1, it + lt <= n, r0 >= 1)

    def t(Lp):
        ints = Lp.mods(INT)
        for c in ints:
            if zero(Lp.entry, c):
                continue
            yield ('%s counts' % c.name, lambda st, c=c: c(st) >= 1)
            for p in ints:
                if p.name != c.name:
                    yield ('%s is after %s repeats' % (p.name, c.name), lambda st, c=c, p=p: z3.And(p(st) == it + M(lt, c(st)), p(st) <= n))
            yield ('repeat r0 below %s is the block' % c.name, lambda st, c=c: z3.Implies(r0 < c(st), SAME(qt, it + M(lt, r0), it, lt)))
        for j in ints:
            if not zero(Lp.entry, j):
                continue
            for p in Lp.all(INT):
                if p.name != j.name and not p(Lp.head).eq(lt):
                    yield ('compared %s from %s' % (j.name, p.name), lambda st, j=j, p=p: SAME(qt, p(st), it, j(st)))
        for b in Lp.mods(BOOL):
            yield (b.name + ' holds', lambda st, b=b: b(st))
    v.eng.templates.append(t)
    for s, r in v.returns(v.call(EP + '_try_extract_tandem_array', [q, i, l])):
        if r is VNone:
            v.prove(s, z3.Not(z3.And(it + M(lt, z3.IntVal(2)) <= n, SAME(qt, it + lt, it, lt))), 'nothing is reported only if the block does not repeat')
            continue
        a = v.eng.lower(s, r, TA)
        c = fld(v, 'TandemArrayInfo', 'repeat_count', a)
        v.prove(s, z3.And(fld(v, 'TandemArrayInfo', 'first_pos', a) == it, fld(v, 'TandemArrayInfo', 'length', a) == lt), 'position and length are those asked')
        v.prove(s, z3.And(c >= 2, it + M(lt, c) <= n), 'at least two repeats, inside the trace')
        v.prove(s, z3.Implies(r0 < c, SAME(qt, it + M(lt, r0), it, lt)), 'every repeat is the block')
        v.prove(s, z3.Not(z3.And(it + M(lt, c + 1) <= n, SAME(qt, it + M(lt, c), it, lt))), 'the block does not repeat once more')
        v.prove(s, v.eng.lower(s, q, QI) == qt, 'frame: the trace is unchanged')


def try_contract(v):
    """TRY(q, start)[length]: what _try_extract_tandem_array reports (its contract is proved by its own unit)"""
    OT = TOpt(TA)
    so = S(v, OT)
    TRYA = z3.Function('TRY', S(v, QI), z3.IntSort(), z3.ArraySort(z3.IntSort(), so))

    def h(eng, st, env, f):
        t = z3.Select(TRYA(eng.lower(st, env['trace'], QI), eng.lower(st, env['start_index'], INT)), eng.lower(st, env['length'], INT))
        return [(s, VNone if none else eng.root_of_term(s, so.val(t), TA)) for s, none in eng.branch(st, so.is_none(t))]
    v.eng.contracts[EP + '_try_extract_tandem_array'] = h
    return TRYA, so


@unit(P, 'find_maximal_tandem_arrays', EP + '_find_maximal_tandem_arrays', EP + 'find_maximal_tandem_arrays')
def u(v):
    """per trace, for each length 2..limit-1 and each start in order: the array at that start is reported iff the block repeats there and its
    content does not occur at an earlier start"""
    tandem_schema(v)
    TRYA, so = try_contract(v)
    I, SQ, SA = z3.IntSort(), S(v, QI), S(v, TList(TA))
    SSQ, SSA = S(v, TList(QI)), S(v, TList(TList(TA)))
    ts, tst = v.param('traces', TList(QI))
    m, mt = v.param('max_tandem_array_length', INT)
    sl = lambda q, i, l: z3.Extract(q, i, l)
    top = lambda q, l: z3.If(z3.Length(q) - l > 0, z3.Length(q) - l, z3.IntVal(0))
    OCC = SpecFn('OCC', [SQ, I, I, SQ], z3.BoolSort(), lambda q, l, i, x: z3.If(i <= 0, z3.BoolVal(False), z3.Or(OCC(q, l, i - 1, x), x == sl(q, i - 1, l))))
    VS = z3.ArraySort(SQ, z3.BoolSort())
    VIS = SpecFn('VIS', [SQ, I, I], VS, lambda q, l, i: z3.If(i <= 0, z3.If(l <= 2, z3.K(SQ, z3.BoolVal(False)), VIS(q, l - 1, top(q, l - 1))), z3.Store(VIS(q, l, i - 1), sl(q, i - 1, l), z3.BoolVal(True))))
    # lemma 1: VIS(q, l, 0) holds only shorter blocks; lemma 2: VIS(q,l,i)[x] == OCC(q,l,i,x) for blocks x of length l
    q, l, i, x = z3.Const('q', SQ), z3.Int('l'), z3.Int('i'), z3.Const('x', SQ)
    short = lambda q, l, i, x: z3.Implies(z3.Select(VIS(q, l, i), x), z3.Length(x) <= z3.If(i <= 0, l - 1, l))
    v.lemma('visited blocks are no longer than the current length (base)', [l <= 2, i <= 0], short(q, l, i, x), fuel=1)
    v.lemma('visited blocks are no longer than the current length (next length)', [l > 2, i <= 0, short(q, l - 1, top(q, l - 1), x)], short(q, l, i, x), fuel=1)
    v.lemma('visited blocks are no longer than the current length (next start)', [l >= 2, i > 0, short(q, l, i - 1, x), i <= z3.Length(q)], short(q, l, i, x), fuel=1)
    agree = lambda q, l, i, x: z3.Select(VIS(q, l, i), x) == OCC(q, l, i, x)
    v.lemma('a block of the current length is visited iff it occurred before (base)', [z3.Length(x) == l, i <= 0, short(q, l, i, x)], agree(q, l, i, x), fuel=1)
    v.lemma('a block of the current length is visited iff it occurred before (step)', [z3.Length(x) == l, i > 0, agree(q, l, i - 1, x)], agree(q, l, i, x), fuel=1)

    def lm(app):
        if app.decl().name() != 'VIS':
            return None
        q, l, i = (app.arg(k) for k in range(3))
        x = sl(q, i, l)
        return [z3.Implies(z3.And(z3.Length(x) == l, l >= 2), z3.Select(app, x) == OCC(q, l, i, x))]
    LEMMAS.append(lm)

    def res(q, l, i):
        p = RES(q, l, i - 1)
        t = z3.Select(TRYA(q, i - 1), l)
        return z3.If(i <= 0, z3.If(l <= 2, z3.Empty(SA), RES(q, l - 1, top(q, l - 1))),
                     z3.If(z3.Or(OCC(q, l, i - 1, sl(q, i - 1, l)), so.is_none(t)), p, z3.Concat(p, z3.Unit(so.val(t)))))
    RES = SpecFn('FOUND', [SQ, I, I], SA, res)
    last = z3.If(mt > 2, mt, z3.IntVal(2))
    ALL = SpecFn('FOUNDLOG', [SSQ, I], SSA, lambda t, i: z3.If(i <= 0, z3.Empty(SSA), z3.Concat(ALL(t, i - 1), z3.Unit(RES(t[i - 1], last, z3.IntVal(0))))))
    v.fold_templates(ALL)

    def t(Lp):
        outer = [a for a in Lp.fixed(INT) if a.name != 'max_tandem_array_length@0']
        for q in Lp.all(QI):
            for (T, F, w) in ((TSet(QI), VIS, 'visited'), (TList(TA), RES, 'found')):
                for x in Lp.mods(T):
                    for i in Lp.mods(INT):
                        yield ('%s %s all lengths below %s' % (x.name, w, i.name), lambda st, x=x, q=q, i=i, F=F: x(st) == F(q(st), i(st) + 2, z3.IntVal(0)))
                        for l in outer:
                            yield ('%s %s length %s below %s' % (x.name, w, l.name, i.name), lambda st, x=x, q=q, i=i, F=F, l=l: z3.And(l(st) >= 2, x(st) == F(q(st), l(st), i(st))))
    v.eng.templates.append(t)
    for s, r in v.returns(v.call(EP + '_find_maximal_tandem_arrays', [ts, m])):
        v.prove(s, v.eng.lower(s, r, TList(TList(TA))) == ALL(tst, z3.Length(tst)), 'the arrays reported per trace')
        v.prove(s, v.eng.lower(s, ts, TList(QI)) == tst, 'frame: traces unchanged')


@unit(P, 'find_primitive_tandem_arrays', EP + 'find_primitive_tandem_arrays')
def u(v):
    """of the maximal arrays of each trace exactly those are kept, in order, whose start starts no array of a length 2..ceil(length/2)"""
    tandem_schema(v)
    log_schema(v)
    TRYA, so = try_contract(v)
    I, SQ, SA = z3.IntSort(), S(v, QI), S(v, TList(TA))
    SSQ, SSA = S(v, TList(QI)), S(v, TList(TList(TA)))
    logv, lt = v.param('log', LOG)
    m, mt = v.param('max_tandem_array_length', INT)
    ex = VPy(lambda eng, st, a, kw: [(st, Z(z3.Function('CLASS', S(v, EV), S(v, STR))(eng.lower(st, a[0], EV)), STR))], 'event_class_extractor')
    H = z3.Function('HASHED', S(v, LOG), SSQ)(lt)
    spy(v, PU + '_create_hashes_traces_with_selector', lambda st, env: v.eng.root_of_term(st, H, TList(QI)), {'log': logv})
    X = z3.Function('MAXIMAL', SSQ, I, SSA)(H, mt)
    v.require(z3.Length(X) == z3.Length(H))
    traces_seen = []

    def fm(eng, st, env, f):
        v.prove(st, z3.And(eng.lower(st, env['traces'], TList(QI)) == H, eng.lower(st, env['max_tandem_array_length'], INT) == mt), 'the maximal arrays are those of the hashed traces under the limit')
        return [(st, eng.root_of_term(st, X, TList(TList(TA))))]
    v.eng.contracts[EP + '_find_maximal_tandem_arrays'] = fm
    pos, ln = (lambda a: fld(v, 'TandemArrayInfo', 'first_pos', a)), (lambda a: fld(v, 'TandemArrayInfo', 'length', a))
    FREE = UPred('FREE', [SQ, I, I], 'IntKey', lambda q, p, k, x: z3.Implies(z3.And(2 <= x, x <= k), so.is_none(z3.Select(TRYA(q, p), x))))
    half = lambda a: (ln(a) + 1) / 2
    PRIM = SpecFn('PRIMITIVE', [SA, SQ, I], SA, lambda s, q, i: z3.If(i <= 0, z3.Empty(SA), z3.If(
        FREE(q, pos(s[i - 1]), half(s[i - 1])), z3.Concat(PRIM(s, q, i - 1), z3.Unit(s[i - 1])), PRIM(s, q, i - 1))))
    PL = SpecFn('PRIMITIVELOG', [SSA, SSQ, I], SSA, lambda s, t, i: z3.If(i <= 0, z3.Empty(SSA), z3.Concat(PL(s, t, i - 1), z3.Unit(PRIM(s[i - 1], t[i - 1], z3.Length(s[i - 1]))))))
    folds(v, PRIM, PL)

    def t(Lp):
        for b in Lp.mods(BOOL):
            for i in Lp.mods(INT):
                for a in Lp.all(TA):
                    for q in Lp.all(QI):
                        yield ('no sub-array of %s in %s below %s' % (a.name, q.name, i.name), lambda st, a=a, q=q, i=i: FREE(q(st), pos(a(st)), i(st) + 1))
            yield (b.name + ' holds', lambda st, b=b: b(st))
    v.eng.templates.append(t)
    for s, r in v.returns(v.call(EP + 'find_primitive_tandem_arrays', [logv, m, ex])):
        v.prove(s, v.eng.lower(s, r, TList(TList(TA))) == PL(X, H, z3.Length(X)), 'exactly the primitive arrays are kept, in order')
        frame_log(v, s, logv, lt)
        frame_heap(v, s)


def hash_units(P):
    @unit(P, 'create_hashes_traces', PU + '_create_hashes_traces_with_selector', PU + '_do_create_hashes_traces')
    def u(v):
        """one list per trace, in order, of the hash of the class (or name) of every event, in order; the log is not modified"""
        log_schema(v)
        logv, lt = v.param('log', LOG)
        all_named(v, lt)
        PH = z3.Function('polyhash', S(v, STR), z3.IntSort())
        v.eng.contracts[L + 'util:calculate_string_poly_hash'] = lambda eng, st, env, f: [(st, Z(PH(eng.lower(st, list(env.values())[0], STR)), INT))]
        CL = z3.Function('CLASS', S(v, EV), S(v, STR))
        ex = VPy(lambda eng, st, a, kw: [(st, Z(CL(eng.lower(st, a[0], EV)), STR))], 'event_class_extractor')
        SE, ST, SQ, SSQ = S(v, TList(EV)), S(v, TList(TR)), S(v, QI), S(v, TList(QI))
        for tag, arg, cls in (('class', ex, lambda e: CL(e)), ('name', VNone, lambda e: name_of(v, e))):
            HT = SpecFn('HASHES_' + tag, [SE, z3.IntSort()], SQ, lambda s, i, cls=cls, tag=tag: z3.If(i <= 0, z3.Empty(SQ), z3.Concat(SPECS['HASHES_' + tag](s, i - 1), z3.Unit(PH(cls(s[i - 1]))))))
            HL = SpecFn('HASHESLOG_' + tag, [ST, z3.IntSort()], SSQ, lambda s, i, tag=tag: z3.If(i <= 0, z3.Empty(SSQ), z3.Concat(
                SPECS['HASHESLOG_' + tag](s, i - 1), z3.Unit(SPECS['HASHES_' + tag](evs(v, s[i - 1]), z3.Length(evs(v, s[i - 1])))))))
            v.fold_templates(HT, HL)
            for s, r in v.returns(v.call(PU + '_create_hashes_traces_with_selector', [logv, arg])):
                v.prove(s, v.eng.lower(s, r, TList(QI)) == HL(traces(v, lt), z3.Length(traces(v, lt))), 'hashes of the %s of every event, per trace, in order' % tag)
                frame_log(v, s, logv, lt)
                frame_heap(v, s)


hash_units(P)


@unit(P, 'find_maximal_wrapper', EP + 'find_maximal_tandem_arrays')
def u(v):
    """the maximal arrays of a log are those of its hashed traces under the given limit"""
    tandem_schema(v)
    log_schema(v)
    SSQ, SSA = S(v, TList(QI)), S(v, TList(TList(TA)))
    logv, lt = v.param('log', LOG)
    m, mt = v.param('max_tandem_array_length', INT)
    CL = z3.Function('CLASS', S(v, EV), S(v, STR))
    ex = VPy(lambda eng, st, a, kw: [(st, Z(CL(eng.lower(st, a[0], EV)), STR))], 'event_class_extractor')
    H = z3.Function('HASHED', S(v, LOG), SSQ)(lt)
    got = []
    spy(v, PU + '_create_hashes_traces_with_selector', lambda st, env: got.append(env['event_class_extractor']) or v.eng.root_of_term(st, H, TList(QI)), {'log': logv})
    MX = z3.Function('MAXIMAL', SSQ, z3.IntSort(), SSA)
    v.eng.contracts[EP + '_find_maximal_tandem_arrays'] = lambda eng, st, env, f: [(st, eng.root_of_term(st, MX(eng.lower(st, env['traces'], TList(QI)), eng.lower(st, env['max_tandem_array_length'], INT)), TList(TList(TA))))]
    for s, r in v.returns(v.call(EP + 'find_maximal_tandem_arrays', [logv, m, ex])):
        v.prove(s, v.eng.lower(s, r, TList(TList(TA))) == MX(H, mt), 'the arrays of the hashed traces')
        v.prove(s, z3.BoolVal(len(got) == 1 and got[0] is ex), 'hashed with the given class extractor')
        frame_log(v, s, logv, lt)
        frame_heap(v, s)


PP = L + 'pipelines.analysis.patterns.patterns_parts:'
PMOD = L + 'pipelines.analysis.patterns.models:'


@unit(P, 'DiscoverTandemArrays', PP + 'DiscoverTandemArrays.execute', PP + 'DiscoverTandemArrays.__init__')
def u(v):
    """each kind of tandem array is discovered by its own algorithm on the log of the context, with the given limit and extractor"""
    for kind, fn in (('PrimitiveArray', 'find_primitive_tandem_arrays'), ('MaximalArray', 'find_maximal_tandem_arrays')):
        logv, ex, res = (opaque(v, n) for n in ('log', 'extractor', 'arrays'))
        m, mt = v.param('max_loop_length', INT)
        part = make(v, PP + 'DiscoverTandemArrays', enum_member(v, PMOD + 'TandemArrayKind', kind), m, ex)
        part_unit(v, part, PP + 'DiscoverTandemArrays.execute', {'log': logv}, EP + fn,
                  {'log': logv, 'max_tandem_array_length': m, 'event_class_extractor': ex}, res, 'patterns')
