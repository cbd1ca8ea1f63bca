from contracts.common import *
from contracts.C06 import model
from contracts.C09 import SUB, QI, EP, PM, PU, hash_units

P = 'C10'
CM = L + 'analysis.common.common_models:'
SA, MR, RS = TObj('SubArrayInEventLog'), TObj('MaximalRepeatInfo'), TObj('SubArrayWithTraceIndex')
PATH = TObj('Path')
FOUND = TTup(INT, PATH)
hash_units(P)


def schema(v):
    v.types.obj['SubArrayInEventLog'] = SUB
    v.types.obj['MaximalRepeatInfo'] = SUB
    v.types.obj['SubArrayWithTraceIndex'] = SUB + [('trace_index', INT)]
    v.types.obj['Path'] = [('start', INT), ('end', INT)]
    v.klass(CM + 'SubArrayInEventLog')
    for c in ('MaximalRepeatInfo', 'SubArrayWithTraceIndex'):
        v.klass(PM + c)


def suffix_tree(v):
    """assumed contract of suffix_tree.Tree: maximal_repeats() of a one-sequence tree lists the maximal repeats of that sequence, one
    position each; find_all(x) lists the occurrences of x in the sequences of the tree"""
    schema(v)
    model(v, 'suffix_tree.tree.Tree', 'suffix:Tree')
    LF, SQ = S(v, TList(FOUND)), S(v, QI)
    M = z3.Function('MAXREPEATS', SQ, LF)
    D = TDict(INT, QI)
    FA = z3.Function('OCCURRENCES', S(v, D), SQ, LF)
    F1 = z3.Function('OCCURRENCES1', SQ, SQ, LF)
    v.eng.assumed |= {'suffix_tree.Tree.maximal_repeats(): the maximal repeats of the sequence, one position each',
                      'suffix_tree.Tree.find_all(x): the occurrences of x in the sequences of the tree'}

    def data(eng, st, env):
        d = eng.getattr(st, env['self'], 'data')[0][1]
        items = eng.dict_conc(st, d)
        if items is not None and len(items) == 1:
            return 'one', eng.lower(st, items[0][1], QI)
        return 'many', eng.lower(st, d, D)

    def mr(eng, st, env, f):
        k, q = data(eng, st, env)
        if k != 'one':
            raise Unsupported('maximal repeats of several sequences')
        return [(st, eng.root_of_term(st, M(q), TList(FOUND)))]

    def fa(eng, st, env, f):
        k, q = data(eng, st, env)
        x = eng.lower(st, env['s'], QI)
        return [(st, eng.root_of_term(st, (F1 if k == 'one' else FA)(q, x), TList(FOUND)))]
    v.eng.contracts['vmodels.suffix:Tree.maximal_repeats'] = mr
    v.eng.contracts['vmodels.suffix:Tree.find_all'] = fa
    return M, FA, F1, D


def rng_(v, cls, a):
    return fld(v, cls, 'first_pos', a), fld(v, cls, 'length', a)


def content(v, cls, q, a):
    p, l = rng_(v, cls, a)
    return z3.Extract(q, p, l)


@unit(P, 'do_find_maximal_repeats', EP + '_do_find_maximal_repeats')
def u(v):
    """per trace, one entry per maximal repeat of that trace alone, at its position and with its length"""
    M, FA, F1, D = suffix_tree(v)
    ts, tst = v.param('hash_traces', TList(QI))
    LF, LM, SSQ, SSM = S(v, TList(FOUND)), S(v, TList(MR)), S(v, TList(QI)), S(v, TList(TList(MR)))
    fs = S(v, FOUND)
    path = lambda r: fs.accessor(0, 1)(r)
    st_, en = (lambda r: fld(v, 'Path', 'start', path(r))), (lambda r: fld(v, 'Path', 'end', path(r)))
    mk = S(v, MR).mk
    MI = SpecFn('INFOS', [LF, z3.IntSort()], LM, lambda s, i: z3.If(i <= 0, z3.Empty(LM), z3.Concat(MI(s, i - 1), z3.Unit(mk(st_(s[i - 1]), en(s[i - 1]) - st_(s[i - 1]))))))
    ML = SpecFn('INFOSLOG', [SSQ, z3.IntSort()], SSM, lambda s, i: z3.If(i <= 0, z3.Empty(SSM), z3.Concat(ML(s, i - 1), z3.Unit(MI(M(s[i - 1]), z3.Length(M(s[i - 1])))))))
    v.fold_templates(MI, ML)
    for s, r in v.returns(v.call(EP + '_do_find_maximal_repeats', [ts])):
        v.prove(s, v.eng.lower(s, r, TList(TList(MR))) == ML(tst, z3.Length(tst)), 'the maximal repeats of each trace')
        v.prove(s, v.eng.lower(s, ts, TList(QI)) == tst, 'frame: traces unchanged')


@unit(P, 'do_find_super_maximal_repeats', EP + '_do_find_super_maximal_repeats')
def u(v):
    """exactly the maximal repeats whose content occurs once among the contents of all maximal repeats of the trace, in order"""
    M, FA, F1, D = suffix_tree(v)
    ts, tst = v.param('traces', TList(QI))
    I, SQ, LM, SSQ, SSM, DS = z3.IntSort(), S(v, QI), S(v, TList(MR)), S(v, TList(QI)), S(v, TList(TList(MR))), S(v, D)
    X = z3.Function('MAXIMAL', SSQ, SSM)(tst)
    v.require(z3.Length(X) == z3.Length(tst))
    spy(v, EP + '_do_find_maximal_repeats', lambda st, env: v.eng.root_of_term(st, X, TList(TList(MR))), {'hash_traces': ts})
    # the contents of the repeats, keyed by their index
    def contents(q, s, i):
        d = CT(q, s, i - 1)
        return z3.If(i <= 0, v.eng.empty_dict(D), DS.mk(z3.Concat(DS.keys(d), z3.Unit(i - 1)), z3.Store(DS.has(d), i - 1, z3.BoolVal(True)),
                                                        z3.Store(DS.val(d), i - 1, content(v, 'MaximalRepeatInfo', q, s[i - 1]))))
    CT = SpecFn('CONTENTS', [SQ, LM, I], DS, contents)
    # valid positions: slices need no clipping
    VALID = UPred('VALID', [SQ, LM], I, lambda q, s, k: z3.Implies(z3.And(0 <= k, k < z3.Length(s)), (lambda p, l: z3.And(0 <= p, 0 <= l, p + l <= z3.Length(q)))(*rng_(v, 'MaximalRepeatInfo', s[k]))))
    VALIDLOG = UPred('VALIDLOG', [SSQ, SSM], I, lambda t, x, k: z3.Implies(z3.And(0 <= k, k < z3.Length(x)), VALID(t[k], x[k])))
    v.require(VALIDLOG(tst, X))
    once = lambda d, q, r: z3.Length(FA(d, content(v, 'MaximalRepeatInfo', q, r))) == 1
    SM = SpecFn('SUPER', [DS, SQ, LM, I], LM, lambda d, q, s, i: z3.If(i <= 0, z3.Empty(LM), z3.If(once(d, q, s[i - 1]), z3.Concat(SM(d, q, s, i - 1), z3.Unit(s[i - 1])), SM(d, q, s, i - 1))))
    SL = SpecFn('SUPERLOG', [SSQ, SSM, I], SSM, lambda t, x, i: z3.If(i <= 0, z3.Empty(SSM), z3.Concat(SL(t, x, i - 1), z3.Unit(
        SM(CT(t[i - 1], x[i - 1], z3.Length(x[i - 1])), t[i - 1], x[i - 1], z3.Length(x[i - 1]))))))
    folds(v, CT, SM, SL)
    # the k-th key of the contents is k, its value the k-th content (index lemma, by induction)
    q, s, i, k = z3.Const('q', SQ), z3.Const('s', LM), z3.Int('i'), z3.Int('k')

    def at(q, s, i, k):
        d = CT(q, s, i)
        return z3.And(z3.Implies(i >= 0, z3.Length(DS.keys(d)) == i), z3.Implies(z3.And(0 <= k, k < i), z3.And(
            DS.keys(d)[k] == k, z3.Select(DS.has(d), k), z3.Select(DS.val(d), k) == content(v, 'MaximalRepeatInfo', q, s[k]))),
            z3.Implies(k >= i, z3.Not(z3.Select(DS.has(d), k))))
    v.lemma('contents are keyed by index (base)', [i <= 0, k >= 0], z3.Implies(i == 0, at(q, s, i, k)), fuel=1)
    v.lemma('contents are keyed by index (step)', [i >= 1, k >= 0, at(q, s, i - 1, k)], at(q, s, i, k), fuel=1)
    ATK = UPred('KEYEDBYINDEX', [SQ, LM, I], I, lambda q, s, i, k: z3.Implies(z3.And(i >= 0, k >= 0), at(q, s, i, k)))

    def lm(app):
        if app.decl().name() != 'CONTENTS':
            return None
        q, s, i = (app.arg(j) for j in range(3))
        return [ATK(q, s, i), z3.Implies(i >= 0, z3.And(at(q, s, i, i)))]
    LEMMAS.append(lm)

    for s_, r in v.returns(v.call(EP + '_do_find_super_maximal_repeats', [ts])):
        v.prove(s_, v.eng.lower(s_, r, TList(TList(MR))) == SL(tst, X, z3.Length(tst)), 'exactly the repeats contained in no other')
        v.prove(s_, v.eng.lower(s_, ts, TList(QI)) == tst, 'frame: traces unchanged')


@unit(P, 'do_create_repeat_sets', EP + '_do_create_repeat_sets')
def u(v):
    """one entry per distinct set of classes: the first sub-array (in trace order, then list order) covering it, with its trace index"""
    schema(v)
    ts, tst = v.param('hashes_traces', TList(QI))
    xs, xt = v.param('sub_arrays', TList(TList(SA)))
    I, SQ, LS = z3.IntSort(), S(v, QI), S(v, TList(SA))
    D = TDict(TSet(INT), RS)
    DS = S(v, D)
    setof = v.eng.set_of_seq(SQ)
    v.require(z3.Length(xt) == z3.Length(tst))

    def key(q, a):
        c = content(v, 'SubArrayInEventLog', q, a)
        return setof(c, z3.Length(c))
    VALID = UPred('VALID', [SQ, LS], I, lambda q, s, k: z3.Implies(z3.And(0 <= k, k < z3.Length(s)), (lambda p, l: z3.And(0 <= p, 0 <= l, p + l <= z3.Length(q)))(*rng_(v, 'SubArrayInEventLog', s[k]))))
    VALIDLOG = UPred('VALIDLOG', [tst.sort(), xt.sort()], I, lambda t, x, k: z3.Implies(z3.And(0 <= k, k < z3.Length(x)), VALID(t[k], x[k])))
    v.require(VALIDLOG(tst, xt))

    def add(d, q, a, t):
        kk = key(q, a)
        p, l = rng_(v, 'SubArrayInEventLog', a)
        return z3.If(z3.Select(DS.has(d), kk), d, DS.mk(z3.Concat(DS.keys(d), z3.Unit(kk)), z3.Store(DS.has(d), kk, z3.BoolVal(True)), z3.Store(DS.val(d), kk, S(v, RS).mk(p, l, t))))
    IN = SpecFn('SETS', [DS, SQ, I, LS, I], DS, lambda d, q, t, s, i: z3.If(i <= 0, d, add(IN(d, q, t, s, i - 1), q, s[i - 1], t)))
    OUT = SpecFn('SETSLOG', [tst.sort(), xt.sort(), I], DS, lambda t, x, i: z3.If(i <= 0, v.eng.empty_dict(D), IN(OUT(t, x, i - 1), t[i - 1], i - 1, x[i - 1], z3.Length(x[i - 1]))))

    def t(Lp):
        for d in Lp.mods(D):
            for i in Lp.mods(INT):
                for a in Lp.all(TList(TList(SA))):
                    for b in Lp.all(TList(QI)):
                        yield ('%s is SETSLOG(%s,%s,%s)' % (d.name, b.name, a.name, i.name), lambda st, d=d, i=i, a=a, b=b: d(st) == OUT(b(st), a(st), i(st)))
                for a in Lp.all(TList(SA)):
                    for q in Lp.all(QI):
                        for ti in Lp.fixed(INT):
                            yield ('%s is SETS(%s,%s,%s,%s)' % (d.name, q.name, ti.name, a.name, i.name), lambda st, d=d, i=i, a=a, q=q, ti=ti: d(st) == IN(d(Lp.entry), q(st), ti(st), a(st), i(st)))
        for i in Lp.mods(INT):
            for j in Lp.mods(INT):
                if i.name < j.name:
                    yield ('%s == %s' % (i.name, j.name), lambda st, i=i, j=j: i(st) == j(st))
    v.eng.templates.append(t)
    VALS = SpecFn('VALUESOF', [DS, I], S(v, TList(RS)), lambda d, i: z3.If(i <= 0, z3.Empty(S(v, TList(RS))), z3.Concat(VALS(d, i - 1), z3.Unit(z3.Select(DS.val(d), DS.keys(d)[i - 1])))))
    folds(v, VALS)
    d1 = OUT(tst, xt, z3.Length(tst))
    # what the fold means: an entry present stays as it is; after sub-array i its set has an entry
    d, q, tt, sq, i, k = z3.Const('d', DS), z3.Const('q', SQ), z3.Int('t'), z3.Const('s', LS), z3.Int('i'), z3.Const('k', S(v, TSet(INT)))
    kept = lambda i: z3.Implies(z3.Select(DS.has(d), k), z3.And(z3.Select(DS.has(IN(d, q, tt, sq, i)), k), z3.Select(DS.val(IN(d, q, tt, sq, i)), k) == z3.Select(DS.val(d), k)))
    v.lemma('a set found first keeps its sub-array (base)', [i <= 0], kept(i), fuel=1)
    v.lemma('a set found first keeps its sub-array (step)', [i > 0, kept(i - 1)], kept(i), fuel=1)
    v.lemma('every sub-array has its set recorded', [i > 0], z3.Select(DS.has(IN(d, q, tt, sq, i)), key(q, sq[i - 1])), fuel=1)
    for s, r in v.returns(v.call(EP + '_do_create_repeat_sets', [ts, xs])):
        v.prove(s, v.eng.lower(s, r, TList(RS)) == VALS(d1, z3.Length(DS.keys(d1))), 'one entry per distinct set, the first sub-array covering it with its trace, in order of first appearance')
        v.prove(s, v.eng.lower(s, ts, TList(QI)) == tst, 'frame: traces unchanged')
        v.prove(s, v.eng.lower(s, xs, TList(TList(SA))) == xt, 'frame: sub-arrays unchanged')


PP = L + 'pipelines.analysis.patterns.patterns_parts:'
HASHES = PU + '_create_hashes_traces_with_selector'


@unit(P, 'wrappers', EP + 'find_maximal_repeats', EP + 'find_super_maximal_repeats', EP + 'find_near_super_maximal_repeats', EP + 'create_repeat_sets')
def u(v):
    """the repeats (repeat sets) of a log are those of its traces hashed with the given extractor"""
    logv, ex, hashes, res, subs = (opaque(v, n) for n in ('log', 'extractor', 'hashes', 'found', 'sub_arrays'))
    for fn in ('find_maximal_repeats', 'find_super_maximal_repeats', 'find_near_super_maximal_repeats'):
        par = v.func(EP + '_do_' + fn).node.args.args[0].arg
        wrapper(v, EP + fn, [logv, ex], {}, [(HASHES, {'log': logv, 'event_class_extractor': ex}, hashes), (EP + '_do_' + fn, {par: hashes}, res)])
    wrapper(v, EP + 'create_repeat_sets', [logv, subs, ex], {}, [
        (HASHES, {'log': logv, 'event_class_extractor': ex}, hashes), (EP + '_do_create_repeat_sets', {'hashes_traces': hashes, 'sub_arrays': subs}, res)])


@unit(P, 'DiscoverRepeats', PP + 'DiscoverRepeats.execute', PP + 'DiscoverRepeats.__init__')
def u(v):
    """each kind of repeat is discovered by its own algorithm on the log of the context with the given extractor"""
    for kind, fn in (('MaximalRepeats', 'find_maximal_repeats'), ('SuperMaximalRepeats', 'find_super_maximal_repeats'), ('NearSuperMaximalRepeats', 'find_near_super_maximal_repeats')):
        logv, ex, res = (opaque(v, n) for n in ('log', 'extractor', 'repeats'))
        part = make(v, PP + 'DiscoverRepeats', enum_member(v, L + 'pipelines.contexts.part_results:RepeatActivitiesSource', kind), ex)
        part_unit(v, part, PP + 'DiscoverRepeats.execute', {'log': logv}, EP + fn, {'log': logv, 'event_class_extractor': ex}, res, 'patterns')


@unit(P, 'DiscoverRepeatsSets', PP + 'DiscoverRepeatsSets.execute', PP + 'DiscoverRepeatsSets.__init__')
def u(v):
    """repeat sets are those of the patterns of the context on its log; the patterns stay"""
    logv, pats, ex, res = (opaque(v, n) for n in ('log', 'patterns', 'extractor', 'sets'))
    part = make(v, PP + 'DiscoverRepeatsSets', ex)
    part_unit(v, part, PP + 'DiscoverRepeatsSets.execute', {'log': logv, 'patterns': pats}, EP + 'create_repeat_sets',
              {'log': logv, 'sub_arrays': pats, 'event_class_extractor': ex}, res, 'repeat_sets')
