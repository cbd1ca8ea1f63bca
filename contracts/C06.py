from contracts.common import *

P = 'C06'
LF = L + 'log.functions:'
VT = {'str': 'str', 'int': 'int', 'float': 'float', 'bool': 'bool', 'datetime': 'datetime.datetime'}


def model(v, dotted, cls):
    """bind an external name to a stand-in class written in /verif/vmodels (an assumed contract)"""
    c = v.klass('vmodels.' + cls)

    def f(eng, st, a=None, kw=None):
        return c
    f.is_value = True
    v.eng.ext[dotted] = f
    v.eng.assumed.add('%s behaves as vmodels/%s' % (dotted, cls))
    return c


def value_codec(v):
    """assumed contracts of the external conversions: int(str(i)) == i, float(str(x)) == x, dateutil.parser.parse(str(t)) == t;
    str(True) / str(False) are 'True' / 'False'; strip and lower on those two"""
    e = v.eng
    A, T = S(v, ANY), S(v, STR)
    so = z3.Function('str_of_any', A, T)
    ty = z3.Function('typeof_any', A, S(v, TRef('pytype')))
    io, fo = z3.Function('int_of_str', T, z3.IntSort()), z3.Function('float_of_str', T, z3.RealSort())
    ib, ii, ir, is_ = (lambda t, k=k: e.to_any(t, k) for k in (BOOL, INT, REAL, STR))
    st_, lo = z3.Function('strstrip', T, T), z3.Function('strlower', T, T)
    DT = TRef('datetime')
    v.types.ref['datetime'] = {}
    pd = z3.Function('parse_datetime', T, S(v, DT))
    e.ext['dateutil.parser.parse'] = lambda eng, st, a, kw: [(st, Z(pd(eng.lower(st, a[0], STR)), DT))]
    for k, d in VT.items():
        e.pytype(d)
    tr, fa, tl, fl = (e.lit(x).t for x in ('True', 'False', 'true', 'false'))
    e.lit('1')
    bv = z3.Function('bool_of_any', A, z3.BoolSort())
    e.axioms += [st_(tr) == tr, st_(fa) == fa, lo(tr) == tl, lo(fa) == fl]
    e.assumed |= {'int(str(i)) == i', 'float(str(x)) == x (repr of a float reads back exactly)', 'dateutil.parser.parse(str(t)) == t', "str(True) is 'True', str(False) is 'False'"}

    def lm(a):
        if a.decl().name() != 'str_of_any':
            return None
        x = a.arg(0)
        return [z3.Implies(ty(x) == e.pytype('int'), ii(io(a)) == x), z3.Implies(ty(x) == e.pytype('float'), ir(fo(a)) == x),
                z3.Implies(ty(x) == e.pytype('datetime.datetime'), e.to_any(pd(a), DT) == x), z3.Implies(ty(x) == e.pytype('str'), is_(a) == x),
                z3.Implies(ty(x) == e.pytype('bool'), z3.And(ib(bv(x)) == x, a == z3.If(bv(x), tr, fa)))]
    LEMMAS.append(lm)
    return ty


def carried(v, x):
    ty = z3.Function('typeof_any', S(v, ANY), S(v, TRef('pytype')))
    return z3.Or([ty(x) == v.eng.pytype(d) for d in VT.values()])


@unit(P, 'value_tag', LF + '_create_value_tag', LF + '_parse_value_tag', LF + '_is_value_tag', LF + '_should_serialize_payload_key_value')
def u(v):
    """exactly text, integer, real, boolean and timestamp values are written; a written value reads back as the same value"""
    model(v, 'xml.etree.ElementTree.Element', 'et:Element')
    value_codec(v)
    k, kt = v.param('key', STR)
    x, xt = v.param('value', ANY)
    for s, r in v.returns(v.call(LF + '_should_serialize_payload_key_value', [k, x])):
        v.prove(s, v.eng.lower(s, r, BOOL) == carried(v, xt), 'a value is written iff XES carries its type')
    v.require(carried(v, xt))
    for s, r in v.returns(v.call(LF + '_create_value_tag', [k, x])):
        a = get(v, s, r, 'attrib')
        for s2, kk in v.eng.getitem(s, a, v.eng.lit('key')):
            v.prove(s2, v.eng.lower(s2, kk, STR) == kt, 'the tag carries the key')
        for s2, b in v.returns(v.call(LF + '_is_value_tag', [r], st=s)):
            v.prove(s2, v.eng.lower(s2, b, BOOL), 'a written tag is recognised as a value')
        for s2, y in v.returns(v.call(LF + '_parse_value_tag', [r], st=s)):
            v.prove(s2, v.eng.lower(s2, y, ANY) == xt, 'and reads back as the value written')


@unit(P, 'check_if_default_value', LF + '_check_if_default_value')
def u(v):
    """an attribute is left out iff the scope has a default for its key of the same type and value"""
    log_schema(v)
    GV = TDict(STR, PAY)
    v.types.obj['MyEventLog'][-1] = ('global_values', GV)
    logv, lt = v.param('log', LOG)
    sc, sct = v.param('scope', STR)
    k, kt = v.param('key', STR)
    x, xt = v.param('value', ANY)
    ty = z3.Function('typeof_any', S(v, ANY), S(v, TRef('pytype')))
    g = fld(v, 'MyEventLog', 'global_values', lt)
    gs, ps = S(v, GV), S(v, PAY)
    d = z3.Select(gs.val(g), sct)
    want = z3.And(z3.Select(gs.has(g), sct), z3.Select(ps.has(d), kt), ty(z3.Select(ps.val(d), kt)) == ty(xt), z3.Select(ps.val(d), kt) == xt)
    for s, r in v.returns(v.call(LF + '_check_if_default_value', [logv, sc, k, x])):
        v.prove(s, v.eng.lower(s, r, BOOL) == want, 'default iff same key, type and value in the scope')
        frame_log(v, s, logv, lt)


def text_specs(v):
    T, I = S(v, STR), z3.IntSort()
    return T, I, (lambda a, b: z3.Function('strcat', T, T, T)(a, b)), z3.Function('strsplit', T, T, S(v, TList(STR)))


@unit(P, 'parse_trace_from_string', LF + 'parse_trace_from_string', LF + 'parse_log_from_strings', LF + 'parse_log_from_string')
def u(v):
    """one new event per piece, in order, carrying exactly the piece as its name; one trace per string"""
    log_schema(v)
    b = v.eng.birth('MyEvent')
    x, xt = v.param('string', STR)
    sep, sept = v.param('separator', STR)
    T, I, cat, split = text_specs(v)
    q = split(xt, sept)
    k0 = z3.Int('k0')
    v.require(0 <= k0, k0 < z3.Length(q))
    ps = S(v, PAY)

    def ok(st, es):
        p = z3.Select(heap(st), es[k0])
        return z3.And(b(es[k0]) >= 0, b(es[k0]) < st.clock, ps.keys(p) == z3.Unit(v.eng.lit(CN).t), z3.Select(ps.has(p), v.eng.lit(CN).t), name_of(v, es[k0], heap(st)) == q[k0])

    def t(Lp):
        yield ('clock', lambda st: st.clock >= 0)
        for es in Lp.mods(TList(EV)):
            for i in Lp.mods(INT):
                yield ('parsed length %s %s' % (es.name, i.name), lambda st, es=es, i=i: z3.Length(es(st)) == i(st))
                yield ('parsed %s %s' % (es.name, i.name), lambda st, es=es, i=i: z3.Implies(k0 < i(st), ok(st, es(st))))
    v.eng.templates.append(t)
    for s, r in v.returns(v.call(LF + 'parse_trace_from_string', [x, sep])):
        es = evs(v, v.eng.lower(s, r, TR))
        v.prove(s, z3.Length(es) == z3.Length(q), 'one event per piece')
        v.prove(s, ok(s, es), 'piece k0 is the only attribute of event k0')
    # one string -> one trace with these pieces, by the contract of parse_trace_from_string
    pt = z3.Function('PARSED', T, T, S(v, TR))
    calls = []

    def h(eng, st, env, f):
        calls.append(1)
        return [(st, eng.root_of_term(st, pt(eng.lower(st, env['string'], STR), eng.lower(st, env['separator'], STR)), TR))]
    v.eng.contracts[LF + 'parse_trace_from_string'] = h
    for s, r in v.returns(v.call(LF + 'parse_log_from_string', [x, sep])):
        v.prove(s, traces(v, v.eng.lower(s, r, LOG)) == z3.Unit(pt(xt, sept)), 'one trace for one string')
    ls, lst = v.param('strings', TList(STR))
    SS = lst.sort()
    PL = SpecFn('PARSEALL', [SS, I], S(v, TList(TR)), lambda s, i: z3.If(i <= 0, z3.Empty(S(v, TList(TR))), z3.Concat(PL(s, i - 1), z3.Unit(pt(s[i - 1], sept)))))
    v.fold_templates(PL)
    for s, r in v.returns(v.call(LF + 'parse_log_from_strings', [ls, sep])):
        v.prove(s, traces(v, v.eng.lower(s, r, LOG)) == PL(lst, z3.Length(lst)), 'one trace per string, in order')


@unit(P, 'serialize_log', LF + 'serialize_log', LF + 'serialize_logs')
def u(v):
    """names joined by the events separator within a trace, traces joined by the traces separator, in order"""
    log_schema(v)
    logv, lt = v.param('log', LOG)
    all_named(v, lt)
    ts_, tst = v.param('traces_separator', STR)
    es_, est = v.param('events_separator', STR)
    T, I, cat, split = text_specs(v)
    SE, ST = S(v, TList(EV)), S(v, TList(TR))
    E = SpecFn('TEXT', [T, SE, I], T, lambda p, s, i: z3.If(i <= 0, p, cat(z3.If(i > 1, cat(E(p, s, i - 1), est), E(p, s, i - 1)), name_of(v, s[i - 1]))))
    n = z3.Length(traces(v, lt))
    TT = SpecFn('TEXTLOG', [ST, I], T, lambda l, i: z3.If(i <= 0, v.eng.lit('').t, (lambda x: z3.If(i - 1 < z3.Length(l) - 1, cat(x, tst), x))(
        E(TT(l, i - 1), evs(v, l[i - 1]), z3.Length(evs(v, l[i - 1]))))))
    folds(v, TT)

    def t(Lp):
        for x in Lp.mods(STR):
            for q in Lp.all(TList(EV)):
                for i in Lp.mods(INT):
                    yield ('%s continues with the names of %s' % (x.name, q.name), lambda st, x=x, q=q, i=i: x(st) == E(x(Lp.entry), q(st), i(st)))
    v.eng.templates.append(t)
    # the empty text is neutral
    e0 = v.eng.lit('').t
    for s, r in v.returns(v.call(LF + 'serialize_log', [logv, ts_, es_])):
        v.prove(s, v.eng.lower(s, r, STR) == TT(traces(v, lt), n), 'the text is the names joined by the separators, in order')
        frame_log(v, s, logv, lt)
        frame_heap(v, s)
    # several logs: their texts joined by the logs separator
    ST_ = z3.Function('SERIALIZED', S(v, LOG), T)
    spyargs = {'traces_separator': ts_, 'events_separator': es_}
    spy(v, LF + 'serialize_log', lambda st, env: Z(ST_(v.eng.lower(st, env['log'], LOG)), STR), spyargs)
    lv, lvt = v.param('logs', TList(LOG))
    ls_, lst = v.param('logs_separator', STR)
    ML = SpecFn('TEXTLOGS', [lvt.sort(), I], T, lambda l, i: z3.If(i <= 0, e0, cat(z3.If(i > 1, cat(ML(l, i - 1), lst), ML(l, i - 1)), ST_(l[i - 1]))))
    folds(v, ML)
    for s, r in v.returns(v.call(LF + 'serialize_logs', [lv, ls_, ts_, es_])):
        v.prove(s, v.eng.lower(s, r, STR) == ML(lvt, z3.Length(lvt)), 'the texts of the logs joined by the logs separator, in order')
    # str.split undoes it (assumed contract of split on separator-free pieces)
    v.eng.assumed.add('str.split(sep): x -> [x] for sep-free x; x + sep + y -> split(x) + [y] for sep-free y')
    SN = S(v, TList(STR))
    NAMES = SpecFn('NAMES', [SE, I], SN, lambda s, i: z3.If(i <= 0, z3.Empty(SN), z3.Concat(NAMES(s, i - 1), z3.Unit(name_of(v, s[i - 1])))))
    q, i = z3.Const('q', SE), z3.Int('i')
    x1 = name_of(v, q[0])
    v.lemma('splitting the text of one name', [i == 1, cat(e0, x1) == x1, split(x1, est) == z3.Unit(x1)], split(E(e0, q, i), est) == NAMES(q, i), fuel=3)
    p = E(e0, q, i - 1)
    y = name_of(v, q[i - 1])
    v.lemma('splitting the text of one name more', [i > 1, split(p, est) == NAMES(q, i - 1), split(cat(cat(p, est), y), est) == z3.Concat(split(p, est), z3.Unit(y))],
            split(E(e0, q, i), est) == NAMES(q, i), fuel=1)
