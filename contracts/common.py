"""Shared class schemas and ghost helpers for the contracts."""
import z3
from pyded.smt import *
from pyded.engine import *
from pyded.verify import unit, V, REG

L = 'ficus.legacy.'
MUT = L + 'mutations.event_log_mutations:'
EV, TR, LOG = TRef('MyEvent'), TObj('MyTrace'), TObj('MyEventLog')
CONST = L + 'analysis.patterns.constants'
PAY = TDict(STR, ANY)
SANY = TDict(STR, ANY)
CN = 'concept:name'


def log_schema(v, payload='heap'):
    """MyEvent: identity + heap cell `payload`; MyTrace / MyEventLog: values holding references"""
    v.types.ref['MyEvent'] = {'payload': (payload, PAY)}
    v.types.obj['MyTrace'] = [('raw_events', TList(EV)), ('attributes', SANY)]
    v.types.obj['MyEventLog'] = [('traces', TList(TR)), ('attributes', SANY), ('extensions', SANY), ('classifiers', SANY),
                                 ('properties', SANY), ('global_values', SANY)]
    v.eng.keytypes[CN] = STR
    h = v.const('payload0', Ty_arr(v)) if False else z3.Const('payload0', z3.ArraySort(v.types.sort(EV), v.types.sort(PAY)))
    if payload == 'heap':
        v.st.heap[('MyEvent', 'payload')] = h
    for m in ('ficus.legacy.log.event_log', 'ficus.legacy.util'):
        v.eng.repo.module(m)
    for c in ('MyEvent', 'MyTrace', 'MyEventLog'):
        v.klass(L + 'log.event_log:' + c)
    v.H0 = h
    return h


def heap(st):
    return st.heap[('MyEvent', 'payload')]


def pay_has(v, h, e, key):
    return z3.Select(v.types.sort(PAY).has(z3.Select(h, e)), v.eng.lit(key).t)


def pay_get(v, h, e, key, ty=None):
    t = z3.Select(v.types.sort(PAY).val(z3.Select(h, e)), v.eng.lit(key).t)
    ty = ty or v.eng.keytypes.get(key)
    return v.eng.proj(ty)(t) if ty is not None else t


def name_of(v, e, h=None):
    return pay_get(v, v.H0 if h is None else h, e, CN, STR)


def S(v, ty):
    return v.types.sort(ty)


def fld(v, cls, f, term):
    s = v.types.sort(TObj(cls))
    i = [x for x, _ in v.types.obj[cls]].index(f)
    return simp(s.accessor(0, i)(term))


def evs(v, trace):
    return fld(v, 'MyTrace', 'raw_events', trace)


def traces(v, log):
    return fld(v, 'MyEventLog', 'traces', log)


def empty_sany(v):
    return v.eng.empty_dict(SANY)


def mk_trace(v, seq):
    return S(v, TR).mk(seq, empty_sany(v))


def frame_log(v, st, logval, t0, what='input log'):
    """the input log (its traces, their events lists, attributes) and every payload are unchanged"""
    v.prove(st, v.eng.lower(st, logval, LOG) == t0, 'frame: %s unchanged' % what)


def frame_heap(v, st):
    v.prove(st, heap(st) == v.H0, 'frame: no event payload changed')


def all_named(v, logt, h=None):
    """precondition: every event has a concept:name (universal over references, instantiated on demand)"""
    hh = v.H0 if h is None else h
    P = UPred('AllNamed', [hh.sort()], S(v, EV), lambda x, e: pay_has(v, x, e, CN))
    v.require(P(hh))

    def t(Lp):
        k = ('MyEvent', 'payload')
        if not Lp.head.heap[k].eq(Lp.entry.heap[k]):
            yield ('every event has a name', lambda st: P(st.heap[k]))
    v.eng.templates.append(t)


def filter_specs(v, keep, tag=''):
    """FEV(seq,i): the kept events among the first i, in order.  FLOG(traces,i): non-empty filtered traces."""
    SE, ST = S(v, TList(EV)), S(v, TList(TR))
    FEV = SpecFn('FEV' + tag, [SE, z3.IntSort()], SE, lambda s, i: z3.If(i <= 0, z3.Empty(SE), z3.If(
        keep(s[i - 1]), z3.Concat(FEV(s, i - 1), z3.Unit(s[i - 1])), FEV(s, i - 1))))

    def flog(l, i):
        es = evs(v, l[i - 1])
        f = FEV(es, z3.Length(es))
        return z3.If(i <= 0, z3.Empty(ST), z3.If(z3.Length(f) > 0, z3.Concat(FLOG(l, i - 1), z3.Unit(mk_trace(v, f))), FLOG(l, i - 1)))
    FLOG = SpecFn('FLOG' + tag, [ST, z3.IntSort()], ST, flog)
    v.fold_templates(FEV, FLOG)
    return FEV, FLOG


def edit_specs(v, upd, tag=''):
    """HEV(h,seq,i): heap after applying `upd(h, e)` (new payload) to the first i events in order; HLOG: over traces"""
    SE, ST = S(v, TList(EV)), S(v, TList(TR))
    SH = v.H0.sort()
    HEV = SpecFn('HEV' + tag, [SH, SE, z3.IntSort()], SH, lambda h, s, i: z3.If(
        i <= 0, h, z3.Store(HEV(h, s, i - 1), s[i - 1], upd(HEV(h, s, i - 1), s[i - 1]))))

    def hl(h, l, i):
        es = evs(v, l[i - 1])
        return z3.If(i <= 0, h, HEV(HLOG(h, l, i - 1), es, z3.Length(es)))
    HLOG = SpecFn('HLOG' + tag, [SH, ST, z3.IntSort()], SH, hl)
    v.heap_fold_templates('MyEvent', 'payload', HEV, HLOG)
    return HEV, HLOG


def part_result(v, **vals):
    """a PipelinePartResult holding the given values under the given keys"""
    c = v.klass(L + 'pipelines.contexts.part_results:PipelinePartResult')
    d = v.eng.new_root(v.st, ('DC', tuple((v.eng.lit(k), x) for k, x in vals.items())))
    return v.eng.new_root(v.st, ('O', 'PipelinePartResult', {'values': d}))


def make(v, qual, *args, **kw):
    """construct an object of a repo class through its real __init__"""
    r = v.eng.instantiate(v.st, v.klass(qual), list(args), dict(kw))
    if len(r) != 1:
        raise Unsupported('constructor forks')
    v.st = r[0][0]
    return r[0][1]


def values_of(v, st, res):
    """{key literal: Value} of a PipelinePartResult value"""
    d = v.eng.getattr(st, res, 'values')[0][1]
    items = v.eng.dict_conc(st, d)
    if items is None:
        raise Unsupported('context values are not concrete')
    return {v.eng.litname(k.t): x for k, x in items}


def folds(v, *fns, rel=None):
    """candidate invariants 'x == F(a.., s, i)' for every combination of atoms of the right sorts (i: modified integer)"""
    import itertools

    def t(Lp):
        for F in fns:
            n = F.f.arity()
            dom = [F.f.domain(j) for j in range(n)]
            pools = []
            for j, d in enumerate(dom):
                p = [a for a in Lp.atoms if Lp.eng.sort(a.ty) == d and (j < n - 1 or a.modified)]
                pools.append(p)
            xs = [x for x in Lp.atoms if x.modified and Lp.eng.sort(x.ty) == F.f.range()]
            for x in xs:
                for c in itertools.product(*pools):
                    if x in c:
                        continue
                    yield ('%s == %s(%s)' % (x.name, F.name, ', '.join(a.name for a in c)),
                           lambda st, x=x, c=c, F=F: x(st) == F(*[a(st) for a in c]))
    v.eng.templates.append(t)


def get(v, st, val, *path):
    for p in path:
        val = v.eng.getattr(st, val, p)[0][1]
    return val


def prove_all(v, st, *goals):
    for name, g in goals:
        v.prove(st, g, name)


def dict_sel(v, ty, d, k):
    s = v.types.sort(ty)
    return z3.Select(s.has(d), k), z3.Select(s.val(d), k)


def prefix_fold(v, name, seqsort, ret, base, step, extra=()):
    """F(extra.., s, i) folding s[0..i), with its (proved) frame lemma: F(s ++ t, j) == F(s, j) for j <= len(s)"""
    F = SpecFn(name, list(extra) + [seqsort, z3.IntSort()], ret, lambda *a: z3.If(
        a[-1] <= 0, base, step(F(*a[:-1], a[-1] - 1), a[-2][a[-1] - 1], *a[:-2])))
    a, b, j = z3.Const(name + '!a', seqsort), z3.Const(name + '!b', seqsort), z3.Int(name + '!j')
    ex = [z3.Const('%s!e%d' % (name, k), x) for k, x in enumerate(extra)]
    v.lemma('%s of a prefix does not look past it (induction step)' % name,
            [j >= 1, j <= z3.Length(a), F(*ex, z3.Concat(a, b), j - 1) == F(*ex, a, j - 1)], F(*ex, z3.Concat(a, b), j) == F(*ex, a, j), fuel=1)
    v.lemma('%s of a prefix does not look past it (base)' % name, [j <= 0], F(*ex, z3.Concat(a, b), j) == F(*ex, a, j), fuel=1)

    def lm(app):
        if app.decl().name() != name:
            return None
        n = app.num_args()
        s, i = app.arg(n - 2), app.arg(n - 1)
        if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            h = s.arg(0)
            return [z3.Implies(i <= z3.Length(h), app == F(*[app.arg(k) for k in range(n - 2)], h, i))]
        return None
    LEMMAS.append(lm)
    return F


def mem_fold(v, name, seqsort, key):
    """F(s, i): key occurs among s[0..i)"""
    return prefix_fold(v, name, seqsort, z3.BoolSort(), z3.BoolVal(False), lambda p, x: z3.Or(p, x == key))


def same_val(v, st, a, b, name):
    """obligation: two values are the same"""
    if a is b:
        return v.prove(st, z3.BoolVal(True), name)
    if isinstance(a, Z) and isinstance(b, Z):
        try:
            return v.prove(st, v.eng.lower(st, a, b.ty) == b.t, name)
        except Unsupported:
            return v.prove(st, z3.BoolVal(False), name)
    if isinstance(a, VPl) and isinstance(b, VPl):
        if isinstance(a.place, Root) and isinstance(b.place, Root) and a.place.oid == b.place.oid:
            return v.prove(st, z3.BoolVal(True), name)
        t = v.eng.typeof(st, b)
        try:
            return v.prove(st, v.eng.lower(st, a, t) == v.eng.lower(st, b, t), name)
        except Unsupported:
            return v.prove(st, z3.BoolVal(False), name)
    if isinstance(a, VTup) and isinstance(b, VTup) and len(a.items) == len(b.items):
        return all([same_val(v, st, x, y, name) for x, y in zip(a.items, b.items)])
    if isinstance(a, VFunc) and isinstance(b, VFunc):
        return v.prove(st, z3.BoolVal(a.node is b.node), name)
    return v.prove(st, z3.BoolVal(False), name)


def spy(v, qual, result, expected, calls=None):
    """contract of a callee: its arguments must be the expected ones (obligations), it returns `result(st, env)`"""
    calls = [] if calls is None else calls

    def h(eng, st, env, f):
        calls.append(env)
        if eng.mode == 'final':
            for k, x in expected.items():
                same_val(v, st, env.get(k), x, '%s gets the right %s' % (qual.split(':')[1], k))
        r = result(st, env)
        return r if isinstance(r, list) else [(st, r)]
    v.eng.contracts[qual] = h
    return calls


def opaque(v, name, cls='Opaque'):
    """an arbitrary value about which nothing is known but its identity"""
    v.types.ref.setdefault(cls, {})
    return Z(z3.Const(name, v.eng.sort(TRef(cls))), TRef(cls))


def check_context(v, s, r, want):
    """the returned context holds exactly the given values"""
    got = values_of(v, s, r)
    v.prove(s, z3.BoolVal(set(got) == set(want)), 'the context holds exactly the keys %s' % sorted(want))
    for k, x in want.items():
        if k in got:
            same_val(v, s, got[k], x, 'context value %s' % k)


def part_unit(v, part, execute, ctx, callee, expected, result, key, hook=None):
    """the part calls `callee` once with exactly the expected arguments and stores its result under `key`; every other value stays"""
    calls = spy(v, callee, lambda st, env: hook(st, env) or result if hook else result, expected)
    for s, r in v.returns(v.call(execute, [part, part_result(v, **ctx)])):
        check_context(v, s, r, {**ctx, key: result})
    v.prove(v.st, z3.BoolVal(len(calls) >= 1), '%s is used' % callee.split(':')[1])


def wrapper(v, qual, args, kw, calls, want=None):
    """qual(*args, **kw) calls each callee of `calls` = [(qual, {param: value}, result)] with the expected arguments and returns the last result"""
    seen = [spy(v, q, lambda st, env, r=r: r, exp) for q, exp, r in calls]
    want = calls[-1][2] if want is None else want
    for s, r in v.returns(v.call(qual, args, kw)):
        same_val(v, s, r, want, 'the result of %s is returned' % calls[-1][0].split(':')[1])
    for c, (q, _, _) in zip(seen, calls):
        v.prove(v.st, z3.BoolVal(len(c) > 0), '%s is used' % q.split(':')[1])


def enum_member(v, cls_qual, name):
    (s, x), = v.eng.getattr(v.st, v.klass(cls_qual), name)
    return x
