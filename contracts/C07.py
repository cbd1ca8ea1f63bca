from contracts.common import *

P = 'C07'
U = L + 'util:'
EL = L + 'log.event_log:'
PM = L + 'log.pm4py_converters:'


def ps(v):
    return S(v, PAY)


def dict_ghost(v, dt):
    """templates + postconditions for 'a dictionary filled in the order of dt holds exactly the entries of dt' (ghost key and position)"""
    s = ps(v)
    k0 = z3.Const('k0!dict', S(v, STR))
    p0 = z3.Int('p0!dict')
    KI = z3.Function('KI', S(v, STR), z3.IntSort())          # position of a key (keys are distinct)
    ks = s.keys(dt)
    n = z3.Length(ks)
    idx = lambda q, i: z3.Implies(z3.And(0 <= i, i < z3.Length(q)), z3.And(KI(q[i]) == i, z3.Select(s.has(dt), q[i])))
    v.require(UPred('DISTINCT', [ks.sort()], z3.IntSort(), lambda q, i: idx(q, i))(ks))
    v.require(z3.Implies(z3.Select(s.has(dt), k0), z3.And(0 <= KI(k0), KI(k0) < n, ks[KI(k0)] == k0)))
    v.require(0 <= p0, p0 < n)
    HASF = UPRED_FRESH(v, s, KI)

    def t(Lp):
        for x in Lp.mods(PAY):
            for i in Lp.mods(INT):
                yield ('%s holds the first entries' % x.name, lambda st, x=x, i=i: z3.And(
                    z3.Length(s.keys(x(st))) == i(st), z3.Implies(p0 < i(st), s.keys(x(st))[p0] == ks[p0]),
                    z3.Select(s.has(x(st)), k0) == z3.And(z3.Select(s.has(dt), k0), KI(k0) < i(st)),
                    z3.Implies(z3.And(z3.Select(s.has(dt), k0), KI(k0) < i(st)), z3.Select(s.val(x(st)), k0) == z3.Select(s.val(dt), k0))))
                yield ('%s holds no later key' % x.name, lambda st, x=x, i=i: HASF(s.has(x(st)), i(st)))
    v.eng.templates.append(t)

    def same(q):
        return [(z3.And(z3.Length(s.keys(q)) == n, s.keys(q)[p0] == ks[p0]), 'same keys in the same order'),
                (z3.Select(s.has(q), k0) == z3.Select(s.has(dt), k0), 'a key is present iff it is in the source'),
                (z3.Implies(z3.Select(s.has(dt), k0), z3.Select(s.val(q), k0) == z3.Select(s.val(dt), k0)), 'with the same value')]
    return same


@unit(P, 'deep_copy_dict', U + 'deep_copy_dict')
def u(v):
    """a new dictionary with the same keys in the same order and the same values"""
    d, dt = v.param('map', PAY)
    same = dict_ghost(v, dt)
    for st, r in v.returns(v.call(U + 'deep_copy_dict', [d])):
        q = v.eng.lower(st, r, PAY)
        for g, name in same(q):
            v.prove(st, g, name)
        v.prove(st, v.eng.lower(st, d, PAY) == dt, 'frame: the source is unchanged')
        v.prove(st, z3.BoolVal(isinstance(r, VPl) and isinstance(r.place, Root) and r.place.oid != d.place.oid), 'the copy is another object')


def UPRED_FRESH(v, s, KI):
    if 'HASF' in UPREDS:
        return UPREDS['HASF']
    return UPred('HASF', [z3.ArraySort(S(v, STR), z3.BoolSort()), z3.IntSort()], S(v, STR), lambda h, i, k: z3.Implies(z3.Select(h, k), KI(k) < i))


def poly(v, name, ss, term):
    M, B = 10 ** 9 + 7, 31
    PW = SpecFn('POW', [z3.IntSort()], z3.IntSort(), lambda i: z3.If(i <= 0, z3.IntVal(1), (PW(i - 1) * B) % M)) if 'POW' not in SPECS else SPECS['POW']
    H = SpecFn(name, [z3.IntSort(), ss, z3.IntSort()], z3.IntSort(), lambda h0, s, i: z3.If(i <= 0, h0, (H(h0, s, i - 1) + (1 + term(s[i - 1])) * PW(i - 1)) % M))
    return PW, H


def poly_templates(v, PW, H, q, one):
    def t(Lp):
        for x in Lp.mods(INT):
            for i in Lp.mods(INT):
                if x.name != i.name:
                    yield ('%s is the power at %s' % (x.name, i.name), lambda st, x=x, i=i: x(st) == PW(i(st)))
                    yield ('%s is the polynomial at %s' % (x.name, i.name), lambda st, x=x, i=i: x(st) == H(one, q, i(st)))
    v.eng.templates.append(t)


@unit(P, 'poly_hash_collection', U + 'calculate_poly_hash_for_collection')
def u(v):
    """0 for an empty collection, else the polynomial of the element hashes (base 31, modulo 10**9+7)"""
    q, qt = v.param('collection', TList(INT))
    hs = z3.Function('hash_int', z3.IntSort(), z3.IntSort())
    PW, H = poly(v, 'POLY', qt.sort(), hs)
    poly_templates(v, PW, H, qt, 1)
    n = z3.Length(qt)
    for s, r in v.returns(v.call(U + 'calculate_poly_hash_for_collection', [q])):
        v.prove(s, v.eng.lower(s, r, INT) == z3.If(n == 0, z3.IntVal(0), H(1, qt, n)), 'the stated polynomial')
        v.prove(s, v.eng.lower(s, q, TList(INT)) == qt, 'frame: the collection is unchanged')


@unit(P, 'poly_hash_string', U + 'calculate_string_poly_hash')
def u(v):
    """the polynomial of the character codes (a text seen as the sequence of its characters)"""
    q, qt = v.param('s', TList(STR))
    od = z3.Function('ord', S(v, STR), z3.IntSort())
    PW, H = poly(v, 'POLYS', qt.sort(), od)
    poly_templates(v, PW, H, qt, 0)
    n = z3.Length(qt)
    for s, r in v.returns(v.call(U + 'calculate_string_poly_hash', [q])):
        v.prove(s, v.eng.lower(s, r, INT) == H(0, qt, n), 'the stated polynomial')


@unit(P, 'calculate_dict_hash', U + 'calculate_dict_hash')
def u(v):
    """a function of the set of (key, value) texts only: the polynomial of the hashes of the sorted texts"""
    d, dt = v.param('current_map', PAY)
    s = ps(v)
    T, I = S(v, STR), z3.IntSort()
    LS, LI = S(v, TList(STR)), S(v, TList(INT))
    SORTED = z3.Function('SORTED', LS, LS)
    SH, CH = z3.Function('STRHASH', T, I), z3.Function('COLLHASH', LI, I)
    cat = lambda a, b: z3.Function('strcat', T, T, T)(a, b)
    v.eng.assumed.add('sorted() of texts depends only on the multiset of texts')
    v.eng.ext['builtins.sorted'] = lambda eng, st, a, kw: [(s2, eng.new_root(s2, ('L', SORTED(eng.read(s2, l.place, TList(STR))), STR))) for s2, l in eng.materialize(st, a[0], None, v.eng.repo.module('ficus.legacy.util'), None)]
    spy(v, U + 'calculate_string_poly_hash', lambda st, env: Z(SH(v.eng.lower(st, env['s'], STR)), INT), {})
    spy(v, U + 'calculate_poly_hash_for_collection', lambda st, env: Z(CH(v.eng.lower(st, env['collection'], TList(INT))), INT), {'start_index': v.eng.I(0), 'end_index': VNone})
    ks = s.keys(dt)
    so = z3.Function('str_of_any', S(v, ANY), T)
    TX = SpecFn('TEXTS', [ks.sort(), I], LS, lambda q, i: z3.If(i <= 0, z3.Empty(LS), z3.Concat(TX(q, i - 1), z3.Unit(cat(q[i - 1], so(z3.Select(s.val(dt), q[i - 1])))))))
    HS = SpecFn('HASHES', [LS, I], LI, lambda q, i: z3.If(i <= 0, z3.Empty(LI), z3.Concat(HS(q, i - 1), z3.Unit(SH(q[i - 1])))))
    folds(v, TX, HS)

    def t(Lp):
        for x in Lp.mods(TList(STR)):
            for i in Lp.mods(INT):
                yield ('texts %s %s' % (x.name, i.name), lambda st, x=x, i=i: x(st) == TX(ks, i(st)))
        for x in Lp.mods(TList(INT)):
            for i in Lp.mods(INT):
                yield ('hashes %s %s' % (x.name, i.name), lambda st, x=x, i=i: x(st) == HS(SORTED(TX(ks, z3.Length(ks))), i(st)))
    v.eng.templates.append(t)
    srt = SORTED(TX(ks, z3.Length(ks)))
    for st, r in v.returns(v.call(U + 'calculate_dict_hash', [d])):
        v.prove(st, v.eng.lower(st, r, INT) == CH(HS(srt, z3.Length(srt))), 'hash of the sorted key-value texts')
        v.prove(st, v.eng.lower(st, d, PAY) == dt, 'frame: the dictionary is unchanged')


@unit(P, 'hash_and_equality', EL + 'MyEvent.__hash__', EL + 'MyEvent.__eq__', EL + 'MyEventsSequence.__hash__', EL + 'MyEventsSequence.__eq__', EL + 'MyEventLog.__hash__', EL + 'MyEventLog.__eq__',
      U + 'combine_list_of_hashes', U + 'combine_two_hashes')
def u(v):
    """hashes are functions of the content (payload; events; traces and metadata); equality is equality of hashes"""
    log_schema(v)
    T, I = S(v, STR), z3.IntSort()
    DH = z3.Function('DICTHASH', S(v, PAY), I)
    spy(v, U + 'calculate_dict_hash', lambda st, env: Z(DH(v.eng.lower(st, env['current_map'], PAY)), INT), {})
    e, et = v.param('e', EV)
    f, ft = v.param('f', EV)
    eh = lambda x: DH(z3.Select(v.H0, x))
    for s, r in v.returns(v.call(EL + 'MyEvent.__hash__', [e])):
        v.prove(s, v.eng.lower(s, r, INT) == eh(et), 'event: hash of its payload')
    for s, r in v.returns(v.call(EL + 'MyEvent.__eq__', [e, f])):
        v.prove(s, v.eng.lower(s, r, BOOL) == (eh(et) == eh(ft)), 'events are equal iff their payload hashes are')
    tr, tt = v.param('t', TR)
    tr2, tt2 = v.param('t2', TR)
    CH = z3.Function('EVENTSHASH', S(v, TList(EV)), I)
    spy(v, U + 'calculate_poly_hash_for_collection', lambda st, env: Z(CH(v.eng.lower(st, env['collection'], TList(EV))), INT), {'start_index': v.eng.I(0), 'end_index': VNone})
    for s, r in v.returns(v.call(EL + 'MyEventsSequence.__hash__', [tr])):
        v.prove(s, v.eng.lower(s, r, INT) == CH(evs(v, tt)), 'trace: polynomial hash of its events')
    for s, r in v.returns(v.call(EL + 'MyEventsSequence.__eq__', [tr, tr2])):
        v.prove(s, v.eng.lower(s, r, BOOL) == (CH(evs(v, tt)) == CH(evs(v, tt2))), 'traces are equal iff the hashes of their events are')
    l, lt = v.param('l', LOG)
    h2 = z3.Function('hash_' + v.eng.types.name(TTup(INT, INT)), S(v, TTup(INT, INT)), I)
    PT = S(v, TTup(INT, INT))
    ST = S(v, TList(TR))
    TH = SpecFn('TRACEHASHES', [ST, I], z3.SeqSort(I), lambda q, i: z3.If(i <= 0, z3.Empty(z3.SeqSort(I)), z3.Concat(TH(q, i - 1), z3.Unit(CH(evs(v, q[i - 1]))))))
    CB = SpecFn('COMBINED', [z3.SeqSort(I), I], I, lambda q, i: z3.If(i <= 0, q[0], h2(PT.mk(CB(q, i - 1), q[i]))))
    v.fold_templates(TH)

    def t(Lp):
        for x in Lp.mods(INT):
            for i in Lp.mods(INT):
                for q in Lp.all(TList(INT)):
                    if x.name != i.name:
                        yield ('%s combined at %s of %s' % (x.name, i.name, q.name), lambda st, x=x, i=i, q=q: x(st) == CB(q(st), i(st)))
    v.eng.templates.append(t)
    ls, lst = v.param('hashes', TList(INT))
    for s, r in v.returns(v.call(U + 'combine_list_of_hashes', [ls])):
        n = z3.Length(lst)
        v.prove(s, v.eng.lower(s, r, INT) == z3.If(n == 0, z3.IntVal(0), CB(lst, n - 1)), 'the hashes combined left to right')
    LH = z3.Function('LISTHASH', z3.SeqSort(I), I)
    spy(v, U + 'combine_list_of_hashes', lambda st, env: Z(LH(v.eng.lower(st, env['hashes'], TList(INT))), INT), {})
    x = LH(TH(traces(v, lt), z3.Length(traces(v, lt))))
    for f_ in ('attributes', 'extensions', 'classifiers', 'properties'):
        x = h2(PT.mk(x, DH(fld(v, 'MyEventLog', f_, lt))))
    for s, r in v.returns(v.call(EL + 'MyEventLog.__hash__', [l])):
        v.prove(s, v.eng.lower(s, r, INT) == x, 'log: trace hashes, attributes, extensions, classifiers, properties combined')


def new_events(v, h0, src, k0):
    """template: event k0 of the list being built is a new event with the payload of event k0 of src"""
    b = v.eng.birth('MyEvent')

    def ok(st, es):
        return z3.And(b(es[k0]) >= 0, b(es[k0]) < st.clock, z3.Select(heap(st), es[k0]) == z3.Select(h0, src[k0]))

    def t(Lp):
        yield ('clock', lambda st: st.clock >= 0)
        for es in Lp.mods(TList(EV)):
            for i in Lp.mods(INT):
                yield ('copied %s %s' % (es.name, i.name), lambda st, es=es, i=i: z3.Length(es(st)) == i(st))
                yield ('copy %s %s' % (es.name, i.name), lambda st, es=es, i=i: z3.Implies(k0 < i(st), ok(st, es(st))))
    v.eng.templates.append(t)
    return ok


def old_payloads(v):
    b = v.eng.birth('MyEvent')
    SAME = UPred('SAME', [v.H0.sort()], S(v, EV), lambda h, e: z3.Implies(b(e) < 0, z3.Select(h, e) == z3.Select(v.H0, e)))
    v.eng.templates.append(lambda Lp: [('existing payloads untouched', lambda st: SAME(heap(st)))])
    return SAME


def events_exist(v, q):
    b = v.eng.birth('MyEvent')
    v.require(UPred('EXIST', [q.sort()], z3.IntSort(), lambda s, i: z3.Implies(z3.And(0 <= i, i < z3.Length(s)), b(s[i]) < 0))(q))


def spy_deep_dict(v):
    """contract of deep_copy_dict (proved in its own unit): an equal dictionary, another object"""
    def h(eng, st, env, f):
        t = eng.typeof(st, env['map'])
        return [(st, eng.root_of_term(st, eng.lower(st, env['map'], t), t))]
    v.eng.contracts[U + 'deep_copy_dict'] = h


@unit(P, 'event_copies', EL + 'MyEvent.__copy__', EL + 'MyEvent.__deepcopy__')
def u(v):
    """a new event with an equal payload of its own"""
    log_schema(v)
    e, et = v.param('e', EV)
    b = v.eng.birth('MyEvent')
    v.require(b(et) < 0, v.st.clock >= 0)
    spy_deep_dict(v)
    for m in ('__copy__', '__deepcopy__'):
        for s, r in v.returns(v.call(EL + 'MyEvent.' + m, [e])):
            x = v.eng.lower(s, r, EV)
            v.prove(s, z3.And(x != et, b(x) >= 0), m + ': another event')
            v.prove(s, z3.Select(heap(s), x) == z3.Select(v.H0, et), m + ': with an equal payload')
            v.prove(s, z3.Select(heap(s), et) == z3.Select(v.H0, et), m + ': the original is unchanged')


@unit(P, 'trace_copies', EL + 'MyTrace.__copy__', EL + 'MyTrace.__deepcopy__')
def u(v):
    """copy: the same events in a list of its own; deep copy: new events with equal payloads; attributes equal and of its own"""
    log_schema(v)
    tr, tt = v.param('trace', TR)
    k0 = z3.Int('k0')
    src = evs(v, tt)
    v.require(0 <= k0, k0 < z3.Length(src))
    events_exist(v, src)
    SAME = old_payloads(v)
    ok = new_events(v, v.H0, src, k0)
    spy_deep_dict(v)
    for s, r in v.returns(v.call(EL + 'MyTrace.__copy__', [tr])):
        v.prove(s, v.eng.lower(s, r, TR) == tt, 'copy: the same events in the same order and equal attributes')
        v.prove(s, z3.BoolVal(get(v, s, r, 'raw_events').place != get(v, s, tr, 'raw_events').place), 'copy: its list of events is another one')
        independent(v, s, r, tr, ('raw_events', 'attributes'))
        frame_heap(v, s)
    for s, r in v.returns(v.call(EL + 'MyTrace.__deepcopy__', [tr])):
        x = v.eng.lower(s, r, TR)
        v.prove(s, z3.Length(evs(v, x)) == z3.Length(src), 'deep copy: as many events')
        v.prove(s, ok(s, evs(v, x)), 'deep copy: event k0 is a new event with an equal payload')
        v.prove(s, fld(v, 'MyTrace', 'attributes', x) == fld(v, 'MyTrace', 'attributes', tt), 'deep copy: equal attributes')
        v.prove(s, v.eng.lower(s, tr, TR) == tt, 'deep copy: the original is unchanged')
        v.prove(s, SAME(heap(s)), 'deep copy: no existing payload changed')
        independent(v, s, r, tr, ('raw_events', 'attributes'))


def independent(v, s, a, b, fields):
    """the containers in these fields are different objects: changing one copy's structure cannot reach the other"""
    for f in fields:
        x, y = get(v, s, a, f), get(v, s, b, f)
        px, py = x.place, y.place
        same = isinstance(px, Root) and isinstance(py, Root) and px.oid == py.oid or isinstance(px, Lens) and isinstance(py, Lens) and str(px) == str(py)
        v.prove(s, z3.BoolVal(isinstance(px, Root) and not same), 'its %s is an object of its own' % f)


@unit(P, 'log_copies', EL + 'MyEventLog.__copy__', EL + 'MyEventLog.__deepcopy__')
def u(v):
    """the same traces (deep: deep copies of them) in order, equal metadata, all containers of its own"""
    log_schema(v)
    l, lt = v.param('log', LOG)
    ts = traces(v, lt)
    F = ('attributes', 'extensions', 'classifiers', 'properties', 'global_values')
    ST = S(v, TList(TR))
    ID = SpecFn('PREFIX', [ST, z3.IntSort()], ST, lambda s, i: z3.If(i <= 0, z3.Empty(ST), z3.Concat(ID(s, i - 1), z3.Unit(s[i - 1]))))
    v.fold_templates(ID)
    from contracts.C01 import idlemma
    idlemma(v, ID, ST)
    for s, r in v.returns(v.call(EL + 'MyEventLog.__copy__', [l])):
        v.prove(s, traces(v, v.eng.lower(s, r, LOG)) == ts, 'copy: the same traces in the same order')
        for f in F:
            v.prove(s, fld(v, 'MyEventLog', f, v.eng.lower(s, r, LOG)) == fld(v, 'MyEventLog', f, lt), 'copy: equal ' + f)
        independent(v, s, r, l, ('traces',) + F)
        frame_log(v, s, l, lt)
        frame_heap(v, s)
    spy_deep_dict(v)
    DC = z3.Function('DEEPCOPY', S(v, TR), S(v, TR))       # contract of MyTrace.__deepcopy__ (its own unit)
    v.eng.contracts[EL + 'MyTrace.__deepcopy__'] = lambda eng, st, env, f: [(st, eng.root_of_term(st, DC(eng.lower(st, env['self'], TR)), TR))]
    DL = SpecFn('DEEPCOPIES', [ST, z3.IntSort()], ST, lambda s, i: z3.If(i <= 0, z3.Empty(ST), z3.Concat(DL(s, i - 1), z3.Unit(DC(s[i - 1])))))
    v.fold_templates(DL)
    for s, r in v.returns(v.call(EL + 'MyEventLog.__deepcopy__', [l])):
        v.prove(s, traces(v, v.eng.lower(s, r, LOG)) == DL(ts, z3.Length(ts)), 'deep copy: deep copies of the traces in the same order')
        for f in F:
            v.prove(s, fld(v, 'MyEventLog', f, v.eng.lower(s, r, LOG)) == fld(v, 'MyEventLog', f, lt), 'deep copy: equal ' + f)
        independent(v, s, r, l, ('traces',) + F)
        frame_log(v, s, l, lt)


def pm_schema(v):
    from contracts.C06 import model
    for c in ('Event', 'Trace', 'EventLog'):
        model(v, 'pm4py.objects.log.obj.' + c, 'pm:' + c)
    v.types.obj['Event'] = [('_dict', PAY)]
    v.types.obj['Trace'] = [('_list', TList(TObj('Event'))), ('attributes', SANY)]
    v.types.obj['EventLog'] = [('_list', TList(TObj('Trace')))] + [(f, SANY) for f in ('attributes', 'properties', 'classifiers', 'extensions', 'omni_present')]


@unit(P, 'from_pm4py', PM + 'from_pm4py_log', PM + 'pm4py_event_to_my_event')
def u(v):
    """event j0 of trace k0 becomes a new event with an equal payload of its own; as many traces and events; metadata kept"""
    log_schema(v)
    pm_schema(v)
    OWN = z3.Function('DEEPCOPY_OF', S(v, SANY), S(v, SANY))
    v.eng.deep_fn = {SANY: OWN}
    v.eng.assumed.add('copy.deepcopy of a dictionary of opaque values is equal to it and shares nothing with it')
    pe, pet = v.param('event', TObj('Event'))
    D = S(v, TObj('Event')).accessor(0, 0)
    for s, r in v.returns(v.call(PM + 'pm4py_event_to_my_event', [pe])):
        x = v.eng.lower(s, r, EV)
        v.prove(s, z3.Select(heap(s), x) == OWN(D(pet)), 'an event with an equal payload')
        pl = get(v, s, r, 'payload')
        v.prove(s, z3.BoolVal(isinstance(pl, VPl)), 'of its own')
    l, lt = v.param('log', TObj('EventLog'))
    PT, PL = S(v, TObj('Trace')), S(v, TObj('EventLog'))
    ts = PL.accessor(0, 0)(lt)
    pev = lambda t: PT.accessor(0, 0)(t)
    k0, j0 = z3.Ints('k0 j0')
    v.require(0 <= k0, k0 < z3.Length(ts), 0 <= j0, j0 < z3.Length(pev(ts[k0])))
    b = v.eng.birth('MyEvent')

    def ok(st, es, src):
        return z3.And(z3.Length(es) == z3.Length(pev(src)), b(es[j0]) >= 0, b(es[j0]) < st.clock, z3.Select(heap(st), es[j0]) == OWN(D(pev(src)[j0])))

    def t(Lp):
        yield ('clock', lambda st: st.clock >= 0)
        for x in Lp.mods(TList(TR)):
            for i in Lp.mods(INT):
                yield ('traces %s %s' % (x.name, i.name), lambda st, x=x, i=i: z3.Length(x(st)) == i(st))
                yield ('trace %s %s' % (x.name, i.name), lambda st, x=x, i=i: z3.Implies(k0 < i(st), z3.And(
                    ok(st, evs(v, x(st)[k0]), ts[k0]), fld(v, 'MyTrace', 'attributes', x(st)[k0]) == OWN(PT.accessor(0, 1)(ts[k0])))))
        for es in Lp.mods(TList(EV)):
            for i in Lp.mods(INT):
                for p in Lp.fixed(TObj('Trace')):
                    yield ('events %s %s' % (es.name, i.name), lambda st, es=es, i=i: z3.Length(es(st)) == i(st))
                    yield ('event %s %s %s' % (es.name, i.name, p.name), lambda st, es=es, i=i, p=p: z3.Implies(j0 < i(st), z3.And(
                        b(es(st)[j0]) >= 0, b(es(st)[j0]) < st.clock, z3.Select(heap(st), es(st)[j0]) == OWN(D(pev(p(st))[j0])))))
        for x in Lp.fixed(TList(TR)):
            for i in Lp.fixed(INT):
                yield ('earlier trace %s %s' % (x.name, i.name), lambda st, x=x, i=i: z3.Implies(k0 < i(st), ok(st, evs(v, x(st)[k0]), ts[k0])))
    v.eng.templates.append(t)
    for s, r in v.returns(v.call(PM + 'from_pm4py_log', [l])):
        x = v.eng.lower(s, r, LOG)
        v.prove(s, z3.Length(traces(v, x)) == z3.Length(ts), 'as many traces')
        v.prove(s, ok(s, evs(v, traces(v, x)[k0]), ts[k0]), 'as many events; event j0 of trace k0 is new and has an equal payload')
        v.prove(s, fld(v, 'MyTrace', 'attributes', traces(v, x)[k0]) == OWN(PT.accessor(0, 1)(ts[k0])), 'trace attributes: a deep copy')
        for i, f in enumerate(('attributes', 'properties', 'classifiers', 'extensions', 'global_values')):
            v.prove(s, fld(v, 'MyEventLog', f, x) == OWN(PL.accessor(0, i + 1)(lt)), 'log %s: a deep copy' % f)
        v.prove(s, v.eng.lower(s, l, TObj('EventLog')) == lt, 'frame: the source is unchanged')


@unit(P, 'to_pm4py', PM + 'to_pm4py_log', PM + 'my_event_to_pm4py_event')
def u(v):
    """one event per event in order, with an equal payload"""
    log_schema(v)
    pm_schema(v)
    e, et = v.param('my_event', EV)
    s0 = ps(v)
    pay = z3.Select(v.H0, et)
    same = dict_ghost(v, pay)
    PR = S(v, TTup(STR, ANY))
    LP_ = z3.SeqSort(PR)
    IT = SpecFn('ITEMS', [pay.sort(), z3.IntSort()], LP_, lambda d, i: z3.If(i <= 0, z3.Empty(LP_), z3.Concat(IT(d, i - 1), z3.Unit(PR.mk(s0.keys(d)[i - 1], z3.Select(s0.val(d), s0.keys(d)[i - 1]))))))
    q_, i_, j_ = z3.Const('q_', pay.sort()), z3.Int('i_'), z3.Int('j_')
    it_at = lambda d, i, j: z3.And(z3.Length(IT(d, i)) == i, z3.Implies(j < i, IT(d, i)[j] == PR.mk(s0.keys(d)[j], z3.Select(s0.val(d), s0.keys(d)[j]))))
    v.lemma('entry j of the item list (base)', [j_ >= 0, i_ == 0], it_at(q_, i_, j_), fuel=1)
    v.lemma('entry j of the item list (step)', [j_ >= 0, i_ > 0, it_at(q_, i_ - 1, j_)], it_at(q_, i_, j_), fuel=1)
    ITAT = UPred('ITAT', [pay.sort(), z3.IntSort()], z3.IntSort(), lambda d, i, j: z3.Implies(z3.And(i >= 0, j >= 0), it_at(d, i, j)))
    LEMMAS.append(lambda a: [ITAT(a.arg(0), a.arg(1))] if a.decl().name() == 'ITEMS' else None)
    LEMMAS.append(lambda a: [z3.Implies(a.arg(1) >= 0, z3.Length(a) == a.arg(1))] if a.decl().name() == 'ITEMS' else None)

    def t(Lp):
        for x in Lp.mods(TList(TTup(STR, ANY))):
            for i in Lp.mods(INT):
                yield ('items %s %s' % (x.name, i.name), lambda st, x=x, i=i: x(st) == IT(pay, i(st)))
    v.eng.templates.append(t)
    D = S(v, TObj('Event')).accessor(0, 0)
    for s, r in v.returns(v.call(PM + 'my_event_to_pm4py_event', [e])):
        for g, name in same(D(v.eng.lower(s, r, TObj('Event')))):
            v.prove(s, g, name)
        frame_heap(v, s)
    del v.eng.templates[-2:]
    # contract: an event with an equal payload
    CE = z3.Function('PMEVENT', S(v, PAY), S(v, TObj('Event')))
    v.eng.contracts[PM + 'my_event_to_pm4py_event'] = lambda eng, st, env, f: [(st, eng.root_of_term(st, CE(z3.Select(heap(st), eng.lower(st, env['my_event'], EV))), TObj('Event')))]
    l, lt = v.param('my_log', LOG)
    LE, LT = S(v, TList(TObj('Event'))), S(v, TList(TObj('Trace')))
    SE, ST = S(v, TList(EV)), S(v, TList(TR))
    PE = SpecFn('PMEVENTS', [SE, z3.IntSort()], LE, lambda q, i: z3.If(i <= 0, z3.Empty(LE), z3.Concat(PE(q, i - 1), z3.Unit(CE(z3.Select(v.H0, q[i - 1]))))))
    PTR = S(v, TObj('Trace'))
    PL = SpecFn('PMTRACES', [ST, z3.IntSort()], LT, lambda q, i: z3.If(i <= 0, z3.Empty(LT), z3.Concat(PL(q, i - 1), z3.Unit(PTR.mk(PE(evs(v, q[i - 1]), z3.Length(evs(v, q[i - 1]))), empty_sany(v))))))
    folds(v, PE, PL)
    for s, r in v.returns(v.call(PM + 'to_pm4py_log', [l])):
        ts = traces(v, lt)
        v.prove(s, S(v, TObj('EventLog')).accessor(0, 0)(v.eng.lower(s, r, TObj('EventLog'))) == PL(ts, z3.Length(ts)), 'one trace per trace and one event per event, in order')
        frame_log(v, s, l, lt)
        frame_heap(v, s)
