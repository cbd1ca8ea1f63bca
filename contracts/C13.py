from contracts.common import *
from contracts.C09 import SUB, QI, EP, PM, PU
import contracts.C01 as C01

P = 'C13'
NODE, ACT = TRef('ActivityNode'), TObj('ActivityInTraceInfo')
LACT = TList(ACT)


def act_schema(v):
    v.types.ref['ActivityNode'] = {'name': ('imm', STR), 'activity_level': ('imm', INT), 'length': ('imm', INT)}
    v.types.obj['ActivityInTraceInfo'] = [('node', NODE), ('start_pos', INT), ('length', INT)]
    v.klass(PM + 'ActivityInTraceInfo')
    v.klass(PM + 'ActivityNode')


def node_of(v, a):
    return fld(v, 'ActivityInTraceInfo', 'node', a)


def st_of(v, a):
    return fld(v, 'ActivityInTraceInfo', 'start_pos', a)


def end_of(v, a):
    return fld(v, 'ActivityInTraceInfo', 'start_pos', a) + fld(v, 'ActivityInTraceInfo', 'length', a)


def ends(v):
    """END(acts, i): where the first i activities end"""
    if 'END' in SPECS:
        return SPECS['END']
    SA = S(v, LACT)
    return SpecFn('END', [SA, z3.IntSort()], z3.IntSort(), lambda s, i: z3.If(i <= 0, z3.IntVal(0), end_of(v, s[i - 1])))


def ordered(v):
    """ORDERED(acts, n): non-empty intervals inside [0, n), each after the one before it"""
    END = ends(v)
    SA = S(v, LACT)
    return UPred('ORDERED', [SA, z3.IntSort()], z3.IntSort(), lambda s, n, k: z3.Implies(z3.And(0 <= k, k < z3.Length(s)), z3.And(
        0 <= st_of(v, s[k]), end_of(v, s[k]) > st_of(v, s[k]), end_of(v, s[k]) <= n, END(s, k) <= st_of(v, s[k]))))


def index_is_end(v):
    """template: the integer 'index' of the walk is END(acts, i)"""
    END = ends(v)

    def t(Lp):
        for x in Lp.mods(INT):
            for i in Lp.counters():
                for a in Lp.all(LACT):
                    if x.name != i.name:
                        yield ('%s is where the first %s of %s end' % (x.name, i.name, a.name), lambda st, x=x, i=i, a=a: x(st) == END(a(st), i(st)))
    v.eng.templates.append(t)
    return END


@unit(P, 'process_trace_activities', EP + '_process_trace_activities')
def u(v):
    """activities and gaps are visited left to right, each once, and cover every position of the trace exactly once"""
    log_schema(v)
    act_schema(v)
    tr, tt = v.param('trace', TR)
    av, at = v.param('activities', LACT)
    I = z3.IntSort()
    n = z3.Length(evs(v, tt))
    END = index_is_end(v)
    v.require(ordered(v)(at, n))
    SEG = TTup(BOOL, INT, INT, TOpt(ACT))
    SS, seg = S(v, TList(SEG)), S(v, SEG)
    OA = S(v, TOpt(ACT))
    H, C = ('ghost', 'visited'), ('ghost', 'cover')
    p0 = z3.Int('p0')
    v.require(0 <= p0, p0 < n)
    v.st.heap[H] = z3.Empty(SS)
    v.st.heap[C] = z3.IntVal(0)
    gap = lambda a, b: seg.mk(z3.BoolVal(False), a, b, OA.none)
    act = lambda a: seg.mk(z3.BoolVal(True), st_of(v, a), end_of(v, a), OA.some(a))

    def visit(eng, st, x, a, b):
        st.heap[H] = z3.Concat(st.heap[H], z3.Unit(x))
        st.heap[C] = st.heap[C] + z3.If(z3.And(a <= p0, p0 < b), z3.IntVal(1), z3.IntVal(0))
        eng.log(('heap',) + H)
        eng.log(('heap',) + C)
        return [(st, VNone)]

    def on_gap(eng, st, a, kw):
        x, y = eng.lower(st, a[0], INT), eng.lower(st, a[1], INT)
        return visit(eng, st, gap(x, y), x, y)

    def on_act(eng, st, a, kw):
        t = eng.lower(st, a[0], ACT)
        return visit(eng, st, act(t), st_of(v, t), end_of(v, t))
    SA = S(v, LACT)

    def vis(s, i):
        g = z3.If(END(s, i - 1) < st_of(v, s[i - 1]), z3.Concat(VIS(s, i - 1), z3.Unit(gap(END(s, i - 1), st_of(v, s[i - 1])))), VIS(s, i - 1))
        return z3.If(i <= 0, z3.Empty(SS), z3.Concat(g, z3.Unit(act(s[i - 1]))))
    VIS = SpecFn('VISITED', [SA, I], SS, vis)

    def t(Lp):
        for i in Lp.counters():
            for a in Lp.all(LACT):
                yield ('visited the first %s of %s' % (i.name, a.name), lambda st, i=i, a=a: st.heap[H] == VIS(a(st), i(st)))
        for x in Lp.mods(INT):
            yield ('position p0 is covered once below %s' % x.name, lambda st, x=x: st.heap[C] == z3.If(p0 < x(st), z3.IntVal(1), z3.IntVal(0)))
    v.eng.templates.append(t)
    m = z3.Length(at)
    full = z3.If(END(at, m) < n, z3.Concat(VIS(at, m), z3.Unit(gap(END(at, m), n))), VIS(at, m))
    for s, r in v.returns(v.call(EP + '_process_trace_activities', [tr, av, VPy(on_gap, 'undefined'), VPy(on_act, 'activity')])):
        v.prove(s, s.heap[H] == full, 'the gaps and activities are visited left to right, each exactly once')
        v.prove(s, s.heap[C] == 1, 'every position of the trace is visited exactly once')
        v.prove(s, v.eng.lower(s, av, LACT) == at, 'frame: activities unchanged')
        v.prove(s, v.eng.lower(s, tr, TR) == tt, 'frame: trace unchanged')


@unit(P, 'create_unattached_events_log', EP + 'create_unattached_events_log')
def u(v):
    """one trace per trace holding exactly the events outside every activity, in order (the same event objects)"""
    log_schema(v)
    act_schema(v)
    logv, lt = v.param('log', LOG)
    av, at = v.param('activities', TList(LACT))
    I, SE, ST, SA, SAA = z3.IntSort(), S(v, TList(EV)), S(v, TList(TR)), S(v, LACT), S(v, TList(LACT))
    END = index_is_end(v)
    ORD = ordered(v)
    v.require(UPred('ORDEREDLOG', [SAA, ST], I, lambda x, t, k: z3.Implies(z3.And(0 <= k, k < z3.Length(x), k < z3.Length(t)), ORD(x[k], z3.Length(evs(v, t[k])))))(at, traces(v, lt)))
    cut = lambda q, a, b: z3.Extract(q, a, b - a)

    def un(q, s, i):
        p = UN(q, s, i - 1)
        a, b = END(s, i - 1), st_of(v, s[i - 1])
        return z3.If(i <= 0, z3.Empty(SE), z3.If(a < b, z3.Concat(p, cut(q, a, b)), p))
    UN = SpecFn('UNCOVERED', [SE, SA, I], SE, un)
    tail = lambda q, s: (lambda e: z3.If(e < z3.Length(q), z3.Concat(UN(q, s, z3.Length(s)), cut(q, e, z3.Length(q))), UN(q, s, z3.Length(s))))(END(s, z3.Length(s)))
    UL = SpecFn('UNCOVEREDLOG', [ST, SAA, I], ST, lambda t, x, i: z3.If(i <= 0, z3.Empty(ST), z3.Concat(UL(t, x, i - 1), z3.Unit(mk_trace(v, tail(evs(v, t[i - 1]), x[i - 1]))))))
    folds(v, UL)

    def t(Lp):
        walk = len(Lp.mods(INT)) > len(Lp.counters())         # the loop over the activities keeps where the last one ended
        for x in Lp.mods(TList(EV)):
            for i in Lp.counters():
                for a in Lp.all(LACT) if walk else []:
                    for q in Lp.all(TR):
                        if not evs(v, q(Lp.head)).eq(x(Lp.head)):
                            yield ('%s uncovered by the first %s of %s in %s' % (x.name, i.name, a.name, q.name), lambda st, x=x, i=i, a=a, q=q: x(st) == UN(evs(v, q(st)), a(st), i(st)))
                for q in Lp.iterated(TList(EV)):
                    if True:
                        yield ('%s extended by the first %s of %s' % (x.name, i.name, q.name), lambda st, x=x, i=i, q=q: x(st) == z3.Concat(x(Lp.entry), z3.Extract(q(st), 0, i(st))))
    v.eng.templates.append(t)
    k = z3.If(z3.Length(at) < z3.Length(traces(v, lt)), z3.Length(at), z3.Length(traces(v, lt)))
    for s, r in v.returns(v.call(EP + 'create_unattached_events_log', [logv, av])):
        v.prove(s, traces(v, v.eng.lower(s, r, LOG)) == UL(traces(v, lt), at, k), 'per trace exactly the uncovered events, in order')
        frame_log(v, s, logv, lt)
        frame_heap(v, s)


def leaf_axioms(v, val, name, leafval):
    """NAME(e): a function of the underlying-events tree of e (acyclic): leafval(e) for a leaf, the sum over the underlying events otherwise"""
    UK = v.glob(CONST, 'underlying_events_key')
    v.eng.keytypes[UK] = TList(EV)
    SE, I = S(v, TList(EV)), z3.IntSort()
    NL = z3.Function(name, S(v, EV), I)
    SUM = SpecFn('SUM' + name, [SE, I], I, lambda s, i: z3.If(i <= 0, z3.IntVal(0), SUM(s, i - 1) + NL(s[i - 1])))
    kids = lambda e: pay_get(v, v.H0, e, UK, TList(EV))
    DEF = UPred('TREE' + name, [v.H0.sort()], S(v, EV), lambda h, e: NL(e) == z3.If(pay_has(v, v.H0, e, UK), SUM(kids(e), z3.Length(kids(e))), leafval(e)))
    v.require(DEF(v.H0))
    v.eng.assumed.add('the underlying-events relation is acyclic (the number of leaves below an event is defined)')
    # SUM over a concatenation / a suffix, proved by induction
    a, b, x, j = z3.Const('a', SE), z3.Const('b', SE), z3.Const('x', S(v, EV)), z3.Int('j')
    n = z3.Length
    v.lemma('sum over a prefix (base)', [j <= 0], SUM(z3.Concat(a, b), j) == SUM(a, j), fuel=1)
    v.lemma('sum over a prefix (step)', [j >= 1, j <= n(a), SUM(z3.Concat(a, b), j - 1) == SUM(a, j - 1)], SUM(z3.Concat(a, b), j) == SUM(a, j), fuel=1)
    tail = z3.Extract(a, 1, n(a) - 1)
    v.lemma('sum without the first (base)', [j == 0, n(a) > 0], SUM(a, j + 1) == NL(a[0]) + SUM(tail, j), fuel=2)
    v.lemma('sum without the first (step)', [j >= 1, j < n(a), SUM(a, j) == NL(a[0]) + SUM(tail, j - 1), tail[j - 1] == a[j]], SUM(a, j + 1) == NL(a[0]) + SUM(tail, j), fuel=1)
    v.lemma('elements without the first', [j >= 1, j < n(a)], tail[j - 1] == a[j])

    def lm(app):
        if app.decl().name() != 'SUM' + name:
            return None
        s, i = app.arg(0), app.arg(1)
        out = []
        if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            h = s.arg(0) if s.num_args() == 2 else z3.Concat(*s.children()[:-1])
            out.append(z3.Implies(i <= n(h), app == SUM(h, i)))
            out.append(z3.Implies(i == n(h) + 1, app == SUM(h, n(h)) + NL(s[i - 1])))
        if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_EXTRACT and z3.is_int_value(s.arg(1)) and s.arg(1).as_long() == 1:
            q = s.arg(0)
            out.append(z3.Implies(z3.And(n(q) > 0, i == n(q) - 1, s == z3.Extract(q, 1, n(q) - 1)), SUM(q, n(q)) == NL(q[0]) + app))
        return out or None
    LEMMAS.append(lm)
    return UK, NL, SUM, kids


@unit(P, 'count_underlying_events', EP + 'count_underlying_events', EP + 'calculate_underlying_events_count')
def u(v):
    """the number of leaves of the underlying-events tree; for a log, the sum over all its events"""
    log_schema(v)
    UK, NL, SUM, kids = leaf_axioms(v, None, 'LEAVES', lambda e: z3.IntVal(1))
    e, et = v.param('event', EV)

    def t(Lp):
        for c in Lp.mods(INT):
            for q in Lp.mods(TList(EV)):
                yield ('%s and the leaves in %s make all leaves' % (c.name, q.name), lambda st, c=c, q=q: c(st) + SUM(q(st), z3.Length(q(st))) == NL(et))
        for q in Lp.mods(TList(EV)):
            for i in Lp.counters():
                for s in Lp.iterated(TList(EV)):
                    yield ('%s holds the first %s of %s more' % (q.name, i.name, s.name), lambda st, q=q, i=i, s=s: SUM(q(st), z3.Length(q(st))) == SUM(q(Lp.entry), z3.Length(q(Lp.entry))) + SUM(s(st), i(st)))
    v.eng.templates.append(t)
    for s, r in v.returns(v.call(EP + 'count_underlying_events', [e])):
        v.prove(s, v.eng.lower(s, r, INT) == NL(et), 'the number of leaves')
        frame_heap(v, s)
    v.eng.contracts[EP + 'count_underlying_events'] = lambda eng, st, env, f: [(st, Z(NL(eng.lower(st, env['event'], EV)), INT))]
    ST, I = S(v, TList(TR)), z3.IntSort()
    SL = SpecFn('SUMLOG', [ST, I], I, lambda t, i: z3.If(i <= 0, z3.IntVal(0), SL(t, i - 1) + SUM(evs(v, t[i - 1]), z3.Length(evs(v, t[i - 1])))))
    logv, lt = v.param('log', LOG)
    v.fold_templates(SL)

    def t2(Lp):
        for c in Lp.mods(INT):
            for i in Lp.counters():
                for s in Lp.all(TList(EV)):
                    if c.name != i.name:
                        yield ('%s counts the first %s of %s' % (c.name, i.name, s.name), lambda st, c=c, i=i, s=s: c(st) == c(Lp.entry) + SUM(s(st), i(st)))
    v.eng.templates.append(t2)
    for s, r in v.returns(v.call(EP + 'calculate_underlying_events_count', [logv])):
        v.prove(s, v.eng.lower(s, r, INT) == SL(traces(v, lt), z3.Length(traces(v, lt))), 'the sum over all events of the log')
        frame_log(v, s, logv, lt)
        frame_heap(v, s)


@unit(P, 'execute_with_underlying_events', EP + 'execute_with_underlying_events')
def u(v):
    """the action is run on a leaf exactly as often as it occurs in the tree, and on nothing else"""
    log_schema(v)
    e0 = z3.Const('e0', S(v, EV))
    UK, NL, SUM, kids = leaf_axioms(v, None, 'OCCURS', lambda e: z3.If(e == e0, z3.IntVal(1), z3.IntVal(0)))
    e, et = v.param('top_level_event', EV)
    C = ('ghost', 'runs')
    v.st.heap[C] = z3.IntVal(0)

    def action(eng, st, a, kw):
        x = eng.lower(st, a[0], EV)
        if eng.mode == 'final':
            v.prove(st, z3.Not(pay_has(v, v.H0, x, UK)), 'the action gets leaves only')
        st.heap[C] = st.heap[C] + z3.If(x == e0, z3.IntVal(1), z3.IntVal(0))
        eng.log(('heap',) + C)
        return [(st, VNone)]

    def t(Lp):
        for q in Lp.mods(TList(EV)):
            yield ('runs so far and occurrences in %s make all occurrences' % q.name, lambda st, q=q: st.heap[C] + SUM(q(st), z3.Length(q(st))) == NL(et))
            for i in Lp.counters():
                for s in Lp.iterated(TList(EV)):
                    yield ('%s holds the first %s of %s more' % (q.name, i.name, s.name), lambda st, q=q, i=i, s=s: SUM(q(st), z3.Length(q(st))) == SUM(q(Lp.entry), z3.Length(q(Lp.entry))) + SUM(s(st), i(st)))
    v.eng.templates.append(t)
    for s, r in v.returns(v.call(EP + 'execute_with_underlying_events', [e, VPy(action, 'action')])):
        v.prove(s, s.heap[C] == NL(et), 'the action is run exactly once per occurrence of a leaf')
        frame_heap(v, s)


@unit(P, 'substitute_original_events', PU + 'substitute_original_events')
def u(v):
    """leaves of the underlying-events tree, in order (recursive calls checked against the contract)"""
    C01.substitute_trace(v)


def sorted_by(v, ety, expect, name='SORTED'):
    """assumed contract of sorted(): SORTED(list), the stable rearrangement in ascending order of the key; the key used is an obligation"""
    SL = S(v, TList(ety))
    F = z3.Function(name, SL, SL)
    v.eng.assumed.add('sorted() returns the stable ascending rearrangement of its argument by the given key')

    def h(eng, st, a, kw):
        out = []
        for s, l in eng.materialize(st, a[0], None, eng.repo.module('ficus.legacy.util'), None):
            t = eng.typeof(s, l)
            if t != TList(ety) and not eng.has_bot(t):
                raise Unsupported('sorted() of %s' % t)
            if eng.mode == 'final':
                x = eng.const(fresh_name('key'), ety)
                s0 = s.clone()
                for s1, k in eng.call(s0, kw['key'], [eng.lift(s0, x, ety)], {}, None, eng.repo.module('ficus.legacy.util'), None):
                    v.prove(s1, eng.lower(s1, k, INT) == expect(x), 'sorted by the right key')
                rev = kw.get('reverse')
                v.prove(s, z3.BoolVal(True) if rev is None else z3.Not(eng.truth(s, rev)), 'in ascending order')
            out.append((s, eng.new_root(s, ('L', F(eng.read(s, l.place, TList(ety))), ety))))
        return out
    v.eng.ext['builtins.sorted'] = h
    return F


@unit(P, 'add_unattached_activities', EP + 'add_unattached_activities', EP + '_process_trace_activities')
def u(v):
    """per trace: the existing instances together with, for each gap of at least the requested size, the instances found in that gap alone
    (shifted to the gap), ordered by start position"""
    log_schema(v)
    act_schema(v)
    logv, lt = v.param('log', LOG)
    nodes, nt = v.param('unattached_activities', TList(NODE))
    av, at = v.param('existing_activities', TList(LACT))
    mv, mt = v.param('min_number_of_events', INT)
    nv, nwt = v.param('should_narrow_activity', BOOL)
    ex, fl = VPy(None, 'class_extractor'), VPy(None, 'activities_in_trace_filter')
    I, SE, ST, SA, SAA, SQ = z3.IntSort(), S(v, TList(EV)), S(v, TList(TR)), S(v, LACT), S(v, TList(LACT)), S(v, QI)
    END = index_is_end(v)
    ORD = ordered(v)
    v.require(UPred('ORDEREDLOG', [SAA, ST], I, lambda x, t, k: z3.Implies(z3.And(0 <= k, k < z3.Length(x), k < z3.Length(t)), ORD(x[k], z3.Length(evs(v, t[k])))))(at, traces(v, lt)))
    HASH, EXTRACT = z3.Function('HASHES', SE, SQ), z3.Function('EXTRACT', SQ, SA)

    def hashes(eng, st, env, f):
        v.prove(st, z3.BoolVal(env['class_extractor'] is ex), 'the given class extractor is used') if eng.mode == 'final' else None
        q = HASH(eng.lower(st, env['events'], TList(EV)))
        st.assume(z3.Length(q) == z3.Length(eng.lower(st, env['events'], TList(EV))))
        return [(st, eng.root_of_term(st, q, QI))]
    v.eng.contracts[PU + '_do_create_hashes'] = hashes

    def extract(eng, st, env, f):
        if eng.mode == 'final':
            v.prove(st, z3.BoolVal(env['activity_filter'] is fl), 'the given filter is used')
            same_val(v, st, env['activities'] if 'activities' in env else list(env.values())[1], nodes, 'the given activities are searched')
            same_val(v, st, env['should_narrow_activity'], nv, 'narrowing as requested')
        l = eng.lower(st, list(env.values())[0], TList(QI))
        if eng.mode == 'final':
            v.prove(st, z3.Length(l) == 1, 'one gap at a time')
        return [(st, eng.root_of_term(st, z3.Unit(EXTRACT(nth(l, z3.IntVal(0)))), TList(LACT)))]
    v.eng.contracts[EP + '_do_extract_activities_from_log'] = extract
    SORTED = sorted_by(v, ACT, lambda x: st_of(v, x))
    mk = lambda a, o: S(v, ACT).mk(node_of(v, a), o + st_of(v, a), fld(v, 'ActivityInTraceInfo', 'length', a))
    SH = SpecFn('SHIFT', [I, SA, I], SA, lambda o, s, i: z3.If(i <= 0, z3.Empty(SA), z3.Concat(SH(o, s, i - 1), z3.Unit(mk(s[i - 1], o)))))

    def found(q, a, b):
        h = HASH(z3.Extract(q, a, b - a))
        return SH(a, EXTRACT(h), z3.Length(EXTRACT(h)))
    gap = lambda q, a, b, p: z3.If(z3.And(a < b, b - a >= mt), z3.Concat(p, found(q, a, b)), p)
    NA = SpecFn('INGAPS', [SE, SA, I], SA, lambda q, s, i: z3.If(i <= 0, z3.Empty(SA), gap(q, END(s, i - 1), st_of(v, s[i - 1]), NA(q, s, i - 1))))
    tail = lambda q, s: gap(q, END(s, z3.Length(s)), z3.Length(q), NA(q, s, z3.Length(s)))
    RL = SpecFn('RESULTLOG', [ST, SAA, I], SAA, lambda t, x, i: z3.If(i <= 0, z3.Empty(SAA), z3.Concat(RL(t, x, i - 1), z3.Unit(SORTED(z3.Concat(tail(evs(v, t[i - 1]), x[i - 1]), x[i - 1]))))))
    folds(v, RL)

    def t(Lp):
        walk = len(Lp.mods(INT)) > len(Lp.counters())
        for x in Lp.mods(LACT):
            for i in Lp.counters():
                for a in Lp.all(LACT):
                    if a.name == x.name:
                        continue
                    for q in Lp.all(TR) if walk else []:
                        yield ('%s in the gaps before the first %s of %s in %s' % (x.name, i.name, a.name, q.name), lambda st, x=x, i=i, a=a, q=q: x(st) == NA(evs(v, q(st)), a(st), i(st)))
                for s in [] if walk else Lp.iterated(LACT):
                    for o in Lp.fixed(INT):
                        yield ('%s is the first %s of %s shifted by %s' % (x.name, i.name, s.name, o.name), lambda st, x=x, i=i, s=s, o=o: x(st) == SH(o(st), s(st), i(st)))
    v.eng.templates.append(t)
    k = z3.If(z3.Length(at) < z3.Length(traces(v, lt)), z3.Length(at), z3.Length(traces(v, lt)))
    for s, r in v.returns(v.call(EP + 'add_unattached_activities', [logv, nodes, av, ex], {'activities_in_trace_filter': fl, 'min_number_of_events': mv, 'should_narrow_activity': nv})):
        v.prove(s, v.eng.lower(s, r, TList(LACT)) == RL(traces(v, lt), at, k), 'existing instances plus those found in the gaps, ordered')
        v.prove(s, v.eng.lower(s, av, TList(LACT)) == at, 'frame: the given instances are unchanged')
        frame_log(v, s, logv, lt)
        frame_heap(v, s)


PP = L + 'pipelines.analysis.patterns.patterns_parts:'


@unit(P, 'CreateLogFromActivities', PP + 'CreateLogFromActivities.execute')
def u(v):
    """the part replaces the log of the context by the one made of its instances with the given strategy and naming"""
    logv, acts, strat, res = (opaque(v, n) for n in ('log', 'instances', 'strategy', 'new_log'))
    b, _ = v.param('use_hashes_as_names', BOOL)
    part = make(v, PP + 'CreateLogFromActivities', strat, b)
    part_unit(v, part, PP + 'CreateLogFromActivities.execute', {'log': logv, 'traces_activities': acts}, EP + 'create_new_log_from_activities',
              {'log': logv, 'activities': acts, 'use_hashes_as_names': b, 'strategy': strat}, res, 'log')


@unit(P, 'DiscoverActivitiesInUnattachedSubTraces', PP + 'DiscoverActivitiesInUnattachedSubTraces.execute')
def u(v):
    """the part extends the instances of the context with those found in its gaps, with the given extractor, minimum, filter and narrowing"""
    act_schema(v)
    logv, nodes, acts, ex, flt = (opaque(v, n) for n in ('log', 'nodes', 'instances', 'extractor', 'filter'))
    m, _ = v.param('min_numbers_of_events', INT)
    nav, _ = v.param('should_narrow_activity', BOOL)
    res = v.eng.root_of_term(v.st, v.const('extended', TList(LACT)), TList(LACT))
    part = make(v, PP + 'DiscoverActivitiesInUnattachedSubTraces', ex, m, flt, nav)
    part_unit(v, part, PP + 'DiscoverActivitiesInUnattachedSubTraces.execute', {'log': logv, 'activities': nodes, 'traces_activities': acts},
              EP + 'add_unattached_activities', {'log': logv, 'unattached_activities': nodes, 'existing_activities': acts, 'class_extractor': ex,
                                                 'activities_in_trace_filter': flt, 'min_number_of_events': m, 'should_narrow_activity': nav}, res, 'traces_activities')
