from contracts.common import *

P = 'C08'
PL = L + 'pipelines.pipelines:'
PR = L + 'pipelines.contexts.part_results:'
AC = L + 'pipelines.contexts.accessors:'
SP = L + 'pipelines.start.start_parts:'
KEYS = L + 'pipelines.contexts.keys'
PART, PIPE, CTX = TRef('PipelinePart'), TRef('Pipeline'), TRef('PipelinePartResult')
HK, VK = ('ghost', 'history'), ('PipelinePartResult', 'values')


class World:
    """parts / inner pipelines as unknown programs: running one on an input appends (which, input, context content) to a
    ghost history, returns an unknown result of that history, and may rewrite the context it was given, no other old one"""
    def __init__(self, v, who=PART, x=ANY):
        self.v, self.who, self.x = v, who, x
        self.step = TTup(who, x)
        self.hist = TList(self.step)
        self.H, self.X = S(v, self.hist), S(v, x)
        self.R = z3.Function('RESULT', self.H, self.X)
        self.C = z3.Function('CONTENT', self.H, S(v, PAY))
        v.types.ref['PipelinePart'] = v.types.ref.get('PipelinePart', {})
        v.klass(PL + 'PipelinePart')
        v.st.heap[HK] = z3.Empty(self.H)
        v.eng.assumed.add('a part or inner pipeline changes, of the contexts existing before, only the one it is given')
        v.eng.contracts[L + 'util:RandomUniqueColorsProvider.reset'] = lambda eng, st, env, f: [(st, VNone)]

    def mk(self, p, x):
        return S(self.v, self.step).constructor(0)(p, x)

    def run(self, eng, st, p, x):
        h = z3.Concat(st.heap[HK], z3.Unit(self.mk(eng.lower(st, p, self.who), eng.lower(st, x, self.x))))
        st.heap[HK] = h
        eng.log(('heap',) + HK)
        if self.x == CTX:
            st.heap[VK] = z3.Store(st.heap[VK], eng.lower(st, x, CTX), self.C(h))
            eng.log(('heap',) + VK)
        return [(st, eng.lift(st, self.R(h), self.x))]

    def bind(self, qual, selfname='self', inp='current_input'):
        self.v.eng.contracts[qual] = lambda eng, st, env, f: self.run(eng, st, env[selfname], env[inp])


def run_fold(v, w):
    """RUN(x, parts, i): the history after the first i parts, each fed with the result of the previous one"""
    RUN = SpecFn('RUN', [w.X, S(v, TList(w.who)), z3.IntSort()], w.H, lambda x, s, i: z3.If(i <= 0, z3.Empty(w.H), z3.Concat(
        RUN(x, s, i - 1), z3.Unit(w.mk(s[i - 1], z3.If(i <= 1, x, w.R(RUN(x, s, i - 1))))))))

    def t(Lp):
        for q in Lp.all(TList(w.who)):
            for i in Lp.mods(INT):
                for x in Lp.all(w.x):
                    x0 = x(Lp.entry)
                    yield ('history == RUN(%s at entry, %s, %s)' % (x.name, q.name, i.name), lambda st, q=q, i=i, x0=x0: st.heap[HK] == RUN(x0, q(st), i(st)))
                    if x.modified:
                        yield ('%s is the last result of %s %s' % (x.name, q.name, i.name), lambda st, q=q, i=i, x=x, x0=x0: x(st) == z3.If(i(st) <= 0, x0, w.R(RUN(x0, q(st), i(st)))))
    v.eng.templates.append(t)
    return RUN


@unit(P, 'create_pipelines_list', PL + '_create_pipelines_list', PL + 'Pipeline.__init__')
def u(v):
    """the parts of a pipeline are the non-None arguments in order; anything that is not a part is rejected, nothing else is"""
    T = TRef('Thing')
    v.types.ref['Thing'] = {}
    OT, SO = S(v, TOpt(T)), S(v, TList(TOpt(T)))
    ispart = z3.Function('is_part', S(v, T), z3.BoolSort())
    v.eng.isinst[('Thing', 'PipelinePart')] = ispart
    KEEP = SpecFn('KEEP', [SO, z3.IntSort()], SO, lambda s, i: z3.If(i <= 0, z3.Empty(SO), z3.If(
        OT.is_none(s[i - 1]), KEEP(s, i - 1), z3.Concat(KEEP(s, i - 1), z3.Unit(s[i - 1])))))
    v.fold_templates(KEEP)
    ps, pt = v.param('pipeline_parts', TList(TOpt(T)))
    v.types.obj['Pipeline'] = [('parts', TList(TOpt(T)))]
    k0 = z3.Int('k0')
    v.require(0 <= k0, k0 < z3.Length(pt))
    ok = z3.Or(OT.is_none(pt[k0]), ispart(OT.val(pt[k0])))

    def t(Lp):
        for i in Lp.mods(INT):
            yield ('parts checked below %s' % i.name, lambda st, i=i: z3.Implies(k0 < i(st), ok))
    v.eng.templates.append(t)
    ALL = UPred('ALLPARTS', [SO], z3.IntSort(), lambda s, k: z3.Or(k < 0, k >= z3.Length(s), OT.is_none(s[k]), ispart(OT.val(s[k]))))
    for entry in ('list', 'init'):
        if entry == 'list':
            go = lambda st=None: v.call(PL + '_create_pipelines_list', [ps], st=st)
        else:
            from pyded.engine import VStar

            def go(st=None):
                st = (st or v.st).clone()
                p = v.eng.new_root(st, ('O', 'Pipeline', {}))
                return [(s, k, v.eng.getattr(s, p, 'parts')[0][1] if k == 'return' else r) for s, k, r in v.call(PL + 'Pipeline.__init__', [p, VStar(ps)], st=st)]
        outs = go()
        for s, r in v.returns(outs, allow_raise=True):
            v.prove(s, v.eng.lower(s, r, TList(TOpt(T))) == KEEP(pt, z3.Length(pt)), '%s: the non-None parts in order' % entry)
            v.prove(s, ok, '%s: every accepted argument is None or a part' % entry)
        for s, k, r in outs:
            if k == 'raise':
                v.prove(s, z3.BoolVal(r[0] == 'TypeError'), '%s: rejection is a TypeError' % entry)
        s0 = v.st.clone()
        s0.assume(ALL(pt))
        for s, r in v.returns(go(s0)):
            v.prove(s, z3.BoolVal(True), 'parts are accepted')


@unit(P, 'pipeline_execute', PL + 'Pipeline.execute', PL + 'Pipeline.__call__')
def u(v):
    """each part is executed exactly once in order, each on the previous result; the last result (or the input) is returned"""
    w = World(v)
    w.bind(PL + 'PipelinePart.execute')
    v.types.obj['Pipeline'] = [('parts', TList(PART))]
    v.klass(PL + 'Pipeline')
    RUN = run_fold(v, w)
    p, pt = v.param('self', TObj('Pipeline'))
    x, xt = v.param('input', ANY)
    parts = fld(v, 'Pipeline', 'parts', pt)
    n = z3.Length(parts)
    for name, args in (('execute', [p, x]), ('__call__', [p, x])):
        for s, r in v.returns(v.call(PL + 'Pipeline.' + name, args)):
            v.prove(s, s.heap[HK] == RUN(xt, parts, n), '%s: the parts run once each, in order, on the previous result' % name)
            v.prove(s, v.eng.lower(s, r, ANY) == z3.If(n <= 0, xt, w.R(RUN(xt, parts, n))), '%s: the last result is returned' % name)
            v.prove(s, v.eng.lower(s, p, TObj('Pipeline')) == pt, '%s: the parts of the pipeline are unchanged' % name)


@unit(P, 'pipeline_edit', PL + 'Pipeline.append', PL + 'Pipeline.insert', PL + 'Pipeline.remove')
def u(v):
    """append / insert / remove change the list of parts at the requested place only"""
    w = World(v)
    T = TObj('Pipeline')
    v.types.obj['Pipeline'] = [('parts', TList(PART))]
    v.klass(PL + 'Pipeline')
    p, pt = v.param('self', T)
    q, qt = v.param('part', PART)
    i, it = v.param('index', INT)
    parts = fld(v, 'Pipeline', 'parts', pt)
    n = z3.Length(parts)
    get_ = lambda s: fld(v, 'Pipeline', 'parts', v.eng.lower(s, p, T))
    for s, r in v.returns(v.call(PL + 'Pipeline.append', [p, q])):
        v.prove(s, get_(s) == z3.Concat(parts, z3.Unit(qt)), 'append adds the part at the end')
    st = v.st.clone()
    st.assume(0 <= it, it <= n)
    for s, r in v.returns(v.call(PL + 'Pipeline.insert', [p, i, q], st=st)):
        v.prove(s, get_(s) == z3.Concat(z3.Extract(parts, 0, it), z3.Unit(qt), z3.Extract(parts, it, n - it)), 'insert puts the part at the index')
    st = v.st.clone()
    st.assume(0 <= it, it < n)
    for s, r in v.returns(v.call(PL + 'Pipeline.remove', [p, i], st=st)):
        v.prove(s, get_(s) == z3.Concat(z3.Extract(parts, 0, it), z3.Extract(parts, it + 1, n - it - 1)), 'remove drops the part at the index')


def ctx_world(v):
    v.types.ref['PipelinePartResult'] = {'values': ('heap', PAY)}
    v.types.ref['Pipeline'] = {}
    v.st.heap[VK] = z3.Const('values0', z3.ArraySort(S(v, CTX), S(v, PAY)))
    w = World(v, PIPE, CTX)
    v.klass(PL + 'Pipeline')
    v.klass(PR + 'PipelinePartResult')
    w.bind(PL + 'Pipeline.execute', inp='input')
    w.V0 = v.st.heap[VK]
    w.b = v.eng.birth('PipelinePartResult')
    return w


def old(v, w, c):
    v.require(w.b(c) < v.st.clock)


@unit(P, 'parallel_pipeline', PL + 'ParallelPipeline.execute')
def u(v):
    """every inner pipeline runs once in order, each on its own fresh copy of the context; the context itself never changes; the last output is returned"""
    w = ctx_world(v)
    v.types.obj['ParallelPipeline'] = [('pipelines', TList(PIPE))]
    v.klass(PL + 'ParallelPipeline')
    p, pt = v.param('self', TObj('ParallelPipeline'))
    c, ct = v.param('current_input', CTX)
    old(v, w, ct)
    q = fld(v, 'ParallelPipeline', 'pipelines', pt)
    n = z3.Length(q)
    k0 = z3.Int('k0')
    v.require(0 <= k0, k0 < n)
    # ghost: content of every context at the time it was given to an inner pipeline
    G = S(v, TList(PAY))
    seen = ('ghost', 'seen')
    v.st.heap[seen] = z3.Empty(G)
    SE = S(v, w.step)
    run0 = w.run

    def run(eng, st, p_, x_):
        st.heap[seen] = z3.Concat(st.heap[seen], z3.Unit(z3.Select(st.heap[VK], eng.lower(st, x_, CTX))))
        eng.log(('heap',) + seen)
        return run0(eng, st, p_, x_)
    w.run = run
    who, inp = (lambda h, k: SE.accessor(0, 0)(h[k])), (lambda h, k: SE.accessor(0, 1)(h[k]))
    c0 = v.st.clock

    def good(st):
        h = st.heap[HK]
        return z3.And(who(h, k0) == q[k0], w.b(inp(h, k0)) >= c0, st.heap[seen][k0] == z3.Select(w.V0, ct))

    def t(Lp):
        yield ('clock', lambda st: st.clock >= c0)
        yield ('the context is untouched', lambda st: z3.Select(st.heap[VK], ct) == z3.Select(w.V0, ct))
        for i in Lp.mods(INT):
            yield ('one run per pipeline %s' % i.name, lambda st, i=i: z3.And(z3.Length(st.heap[HK]) == i(st), z3.Length(st.heap[seen]) == i(st)))
            yield ('run k0 %s' % i.name, lambda st, i=i: z3.Implies(k0 < i(st), good(st)))
            for o in Lp.mods(TOpt(CTX)):
                yield ('last output %s %s' % (o.name, i.name), lambda st, i=i, o=o: z3.If(i(st) <= 0, S(v, TOpt(CTX)).is_none(o(st)), o(st) == S(v, TOpt(CTX)).some(w.R(st.heap[HK]))))
    v.eng.templates.append(t)
    for s, r in v.returns(v.call(PL + 'ParallelPipeline.execute', [p, c])):
        v.prove(s, z3.Length(s.heap[HK]) == n, 'one run per pipeline')
        v.prove(s, who(s.heap[HK], k0) == q[k0], 'run k0 is of pipeline k0')
        v.prove(s, w.b(inp(s.heap[HK], k0)) >= c0, 'its input is a context created for it')
        v.prove(s, s.heap[seen][k0] == z3.Select(w.V0, ct), 'with exactly the values of the given context')
        v.prove(s, z3.Select(s.heap[VK], ct) == z3.Select(w.V0, ct), 'the given context is unchanged')
        v.prove(s, v.eng.lower(s, r, CTX) == w.R(s.heap[HK]), 'the last output is returned')


@unit(P, 'input_copy_if_temp', PL + 'WithInputCopy.execute', PL + 'IfPipeline.execute', PL + 'WithTempInput.execute')
def u(v):
    """WithInputCopy runs on a copy and returns the untouched input; IfPipeline runs on the input iff the condition holds; WithTempInput runs on
    the transformed input and merges the result with the original input"""
    w = ctx_world(v)
    v.types.obj['WithInputCopy'] = [('pipeline', PIPE)]
    for k in ('WithInputCopy', 'IfPipeline', 'WithTempInput'):
        v.klass(PL + k)
    c, ct = v.param('current_input', CTX)
    pp, ppt = v.param('pipeline', PIPE)
    old(v, w, ct)
    c0, V = v.st.clock, w.V0
    SE = S(v, w.step)
    x = lambda h, k: SE.accessor(0, 1)(h[k])
    seen = {}
    run0 = w.run

    def run(eng, st, p_, x_):
        seen['content'] = z3.Select(st.heap[VK], eng.lower(st, x_, CTX))
        return run0(eng, st, p_, x_)
    w.run = run
    wic = make(v, PL + 'WithInputCopy', pp)
    for s, r in v.returns(v.call(PL + 'WithInputCopy.execute', [wic, c])):
        h = s.heap[HK]
        v.prove(s, z3.And(z3.Length(h) == 1, SE.accessor(0, 0)(h[0]) == ppt), 'copy: the inner pipeline runs exactly once')
        v.prove(s, w.b(x(h, 0)) >= c0, 'copy: on a new context')
        v.prove(s, seen['content'] == z3.Select(V, ct), 'copy: with the same values')
        v.prove(s, v.eng.lower(s, r, CTX) == ct, 'copy: the given context is returned')
        v.prove(s, z3.Select(s.heap[VK], ct) == z3.Select(V, ct), 'copy: and is unchanged')
    # if
    asked = []
    b = z3.Bool('condition_value')

    def cond(eng, st, a, kw):
        asked.append(eng.lower(st, a[0], CTX))
        return [(st, Z(b, BOOL))]
    iff = make(v, PL + 'IfPipeline', VPy(cond, 'condition'), pp)
    for s, r in v.returns(v.call(PL + 'IfPipeline.execute', [iff, c])):
        h = s.heap[HK]
        v.prove(s, z3.And(*[a == ct for a in asked]) if asked else z3.BoolVal(False), 'if: the condition is asked about the given context')
        v.prove(s, z3.Implies(b, z3.And(h == z3.Unit(w.mk(ppt, ct)), v.eng.lower(s, r, CTX) == w.R(h))), 'if: condition true: the pipeline runs on the context, its result is returned')
        v.prove(s, z3.Implies(z3.Not(b), z3.And(h == z3.Empty(w.H), v.eng.lower(s, r, CTX) == ct, s.heap[VK] == V)), 'if: condition false: the context is returned untouched')
    # temp input
    T, M = z3.Function('TRANSFORMED', S(v, CTX), S(v, CTX)), z3.Function('MERGED', S(v, CTX), S(v, CTX), S(v, CTX))
    order = []

    def tr(eng, st, a, kw):
        order.append('t')
        return [(st, Z(T(eng.lower(st, a[0], CTX)), CTX))]

    def mg(eng, st, a, kw):
        order.append('m')
        v.prove(st, z3.Length(st.heap[HK]) == 1, 'temp: the results are merged after the run')
        return [(st, Z(M(eng.lower(st, a[0], CTX), eng.lower(st, a[1], CTX)), CTX))]
    tmp = make(v, PL + 'WithTempInput', VPy(tr, 'transformer'), VPy(mg, 'merger'), pp)
    for s, r in v.returns(v.call(PL + 'WithTempInput.execute', [tmp, c])):
        h = s.heap[HK]
        v.prove(s, h == z3.Unit(w.mk(ppt, T(ct))), 'temp: the pipeline runs once on the transformed input')
        v.prove(s, v.eng.lower(s, r, CTX) == M(ct, w.R(h)), 'temp: the result is merged with the given context')
        v.prove(s, z3.BoolVal(order == ['t', 'm']), 'temp: transformer and merger are called once each')


KINDS = [('with_log', '__log__', 'log'), ('with_activities', '__activities__', 'activities'), ('with_repeat_sets', '__repeat_sets__', 'repeat_sets'),
         ('with_trace_activities', '__traces_activities__', 'traces_activities'), ('with_patterns', '__patterns__', 'patterns'),
         ('with_petri_net', '__petri_net__', 'petri_net'), ('with_event_class_tree', '__event_class_tree__', 'event_class_tree'),
         ('with_activities_logs', '__activities_to_logs__', 'activities_to_logs'), ('with_serialized_graph', '__serialized_graph__', 'serialized_graph'),
         ('with_graph', '__graph__', 'graph'), ('with_activity_name', '__activity_name__', 'activity_name'), ('with_cached_colors', '__cached_colors__', 'cached_colors')]


@unit(P, 'store_kinds', *([PR + 'PipelinePartResult.' + m for k in KINDS for m in k[:2]] + [AC + k[2] for k in KINDS]))
def u(v):
    """every kind of value: stored -> returned; any other key untouched; a getter of a missing value raises ValueError"""
    ctx_world(v)
    c, ct = v.param('self', CTX)
    x, xt = v.param('value', ANY)
    s_ = S(v, PAY)
    V0 = z3.Select(v.st.heap[VK], ct)
    o, k1 = z3.Const('other', S(v, CTX)), z3.Const('key1', S(v, STR))
    pos = z3.Const('key2', S(v, STR))
    for w_, g, acc in KINDS:
        for s, r in v.returns(v.call(PR + 'PipelinePartResult.' + w_, [c, x])):
            V1 = z3.Select(s.heap[VK], ct)
            v.prove(s, v.eng.lower(s, r, CTX) == ct, '%s returns the context' % w_)
            v.prove(s, z3.Implies(o != ct, z3.Select(s.heap[VK], o) == z3.Select(v.st.heap[VK], o)), '%s: no other context changes' % w_)
            got = []
            for s2, y in v.returns(v.call(AC + acc, [c], st=s)):
                v.prove(s2, v.eng.lower(s2, y, ANY) == xt, '%s: the accessor returns the value just stored' % w_)
                v.prove(s2, s2.heap[VK] == s.heap[VK], '%s: reading changes nothing' % acc)
                got.append(1)
            # which key was written: read back through every other accessor
            for w2, g2, acc2 in KINDS:
                if acc2 == acc or acc2 == 'cached_colors':
                    continue
                for s2, kind, y in v.call(AC + acc2, [c], st=s):
                    if kind == 'return':
                        for s3, k3, y3 in v.call(AC + acc2, [c]):
                            if k3 == 'return':
                                v.prove(merge(s2, s3), v.eng.lower(s2, y, ANY) == v.eng.lower(s3, y3, ANY), '%s does not touch %s' % (w_, acc2))
                            else:
                                v.prove(merge(s2, s3), z3.BoolVal(False), '%s does not create %s' % (w_, acc2))
        if acc == 'cached_colors':
            continue
        outs = v.call(AC + acc, [c])
        for s, kind, y in outs:
            if kind == 'raise':
                v.prove(s, z3.BoolVal(y[0] == 'ValueError'), '%s of a missing value is a ValueError' % acc)
        v.prove(v.st, z3.BoolVal(any(k == 'raise' for _, k, _ in outs)), '%s of a missing value raises' % acc)


def merge(a, b):
    s = a.clone()
    s.assume(*[f for f in b.pc])
    return s


@unit(P, 'store_generic', PR + 'PipelinePartResult.__init__', PR + 'PipelinePartResult.with_custom_data', PR + 'PipelinePartResult.has_value',
      PR + 'PipelinePartResult.get_value_or_throw', PR + 'PipelinePartResult.remove', PR + 'PipelinePartResult.__copy__', PR + 'PipelinePartResult.__cached_colors__')
def u(v):
    """the store: last stored value per key, other keys untouched, ValueError when missing; a copy has the same values and is independent; the colour cache starts empty and is kept"""
    w = ctx_world(v)
    c, ct = v.param('self', CTX)
    x, xt = v.param('value', ANY)
    k, kt = v.param('key', STR)
    k1 = z3.Const('key1', S(v, STR))
    s_ = S(v, PAY)
    old(v, w, ct)
    q = PR + 'PipelinePartResult.'
    cell = lambda st: z3.Select(st.heap[VK], ct)
    H = lambda st, kk: z3.Select(s_.has(cell(st)), kk)
    VV = lambda st, kk: z3.Select(s_.val(cell(st)), kk)
    other = z3.Const('other', S(v, CTX))
    rest = lambda s: z3.And(z3.Implies(k1 != kt, z3.And(H(s, k1) == H(v.st, k1), VV(s, k1) == VV(v.st, k1))), z3.Implies(other != ct, z3.Select(s.heap[VK], other) == z3.Select(w.V0, other)))
    for s, r in v.returns(v.call(q + 'with_custom_data', [c, k, x])):
        v.prove(s, z3.And(H(s, kt), VV(s, kt) == xt, v.eng.lower(s, r, CTX) == ct), 'with_custom_data stores under the key')
        v.prove(s, rest(s), 'with_custom_data leaves other keys and contexts')
    for s, r in v.returns(v.call(q + 'has_value', [c, k])):
        v.prove(s, v.eng.lower(s, r, BOOL) == H(v.st, kt), 'has_value')
        v.prove(s, s.heap[VK] == w.V0, 'has_value: frame')
    for s, kind, r in v.call(q + 'get_value_or_throw', [c, k]):
        if kind == 'return':
            v.prove(s, z3.And(H(v.st, kt), v.eng.lower(s, r, ANY) == VV(v.st, kt)), 'a stored value is returned')
        else:
            v.prove(s, z3.And(z3.Not(H(v.st, kt)), z3.BoolVal(r[0] == 'ValueError')), 'ValueError iff never stored')
        v.prove(s, s.heap[VK] == w.V0, 'get: frame')
    st = v.st.clone()
    st.assume(H(v.st, kt))
    for s, r in v.returns(v.call(q + 'remove', [c, k], st=st)):
        v.prove(s, z3.Not(H(s, kt)), 'remove removes')
        v.prove(s, rest(s), 'remove leaves other keys and contexts')
    for s, r in v.returns(v.call(q + '__copy__', [c])):
        rt = v.eng.lower(s, r, CTX)
        v.prove(s, w.b(rt) >= v.st.clock, 'a copy is a new context')
        v.prove(s, z3.Select(s.heap[VK], rt) == cell(v.st), 'with the same values')
        v.prove(s, z3.Implies(w.b(other) < v.st.clock, z3.Select(s.heap[VK], other) == z3.Select(w.V0, other)), 'copy: no existing context changes')
        for s2, r2 in v.returns(v.call(q + 'with_custom_data', [r, k, x], st=s)):
            v.prove(s2, cell(s2) == cell(v.st), 'writing the copy does not write the original')
        for s2, r2 in v.returns(v.call(q + 'with_custom_data', [c, k, x], st=s)):
            v.prove(s2, z3.Select(s2.heap[VK], rt) == cell(v.st), 'writing the original does not write the copy')
    new = make(v, PR + 'PipelinePartResult')
    for s, r in v.returns(v.call(q + 'has_value', [new, k])):
        v.prove(s, z3.Not(v.eng.lower(s, r, BOOL)), 'a new context is empty')
    # colour cache
    ck = v.eng.lit(v.glob(KEYS, 'cached_colors_key')).t
    for s, r in v.returns(v.call(q + '__cached_colors__', [c])):
        rt = v.eng.lower(s, r, ANY)
        v.prove(s, z3.Implies(H(v.st, ck), z3.And(rt == VV(v.st, ck), z3.Select(s.heap[VK], ct) == z3.Select(w.V0, ct))), 'a stored cache is returned')
        v.prove(s, z3.And(H(s, ck), VV(s, ck) == rt), 'the cache returned is the one kept')
        v.prove(s, z3.Implies(k1 != ck, z3.And(H(s, k1) == H(v.st, k1), VV(s, k1) == VV(v.st, k1))), 'no other value changes')


@unit(P, 'start_parts', SP + 'ReadLogFromXes.execute', SP + 'UseExistingLog.execute', SP + 'EmptyStartPart.execute')
def u(v):
    """start parts: a context with exactly the read / given log, nothing for the empty one; wrong inputs rejected"""
    w = ctx_world(v)
    log_schema(v)
    RD = z3.Function('READ', S(v, STR), S(v, LOG))
    spy(v, L + 'log.functions:read_log_from_xes', lambda st, env: v.eng.root_of_term(st, RD(v.eng.lower(st, list(env.values())[0], STR)), LOG), {})
    lk = v.eng.lit(v.glob(KEYS, 'log_key')).t
    ps = S(v, PAY)
    path, pt = v.param('path', STR)
    logv, lt = v.param('log', LOG)
    for nm, arg, want, bad, exc in (('ReadLogFromXes', path, RD(pt), [VNone, logv, v.eng.I(3)], 'TypeError'), ('UseExistingLog', logv, lt, [VNone, path, v.eng.I(3)], 'ValueError')):
        part = make(v, SP + nm)
        outs = v.returns(v.call(SP + nm + '.execute', [part, arg]))
        for s, r in outs:
            p = z3.Select(s.heap[VK], v.eng.lower(s, r, CTX))
            v.prove(s, z3.And(ps.keys(p) == z3.Unit(lk), z3.Select(ps.has(p), lk)), nm + ': the context holds a log and nothing else')
            v.prove(s, z3.Select(ps.val(p), lk) == v.eng.to_any(want, LOG), nm + ': the right log')
            v.prove(s, w.b(v.eng.lower(s, r, CTX)) >= v.st.clock, nm + ': a new context')
        for b in bad:
            outs = v.call(SP + nm + '.execute', [part, b])
            v.prove(v.st, z3.BoolVal(len(outs) > 0 and all(k == 'raise' and r[0] == exc for _, k, r in outs)), nm + ': rejects what is not its input')
    for s, r in v.returns(v.call(SP + 'EmptyStartPart.execute', [make(v, SP + 'EmptyStartPart'), VNone])):
        p = z3.Select(s.heap[VK], v.eng.lower(s, r, CTX))
        v.prove(s, p == v.eng.empty_dict(PAY), 'the empty start part gives an empty context')


HL = L + 'pipelines.analysis.high_level:'


@unit(P, 'execute_with_each_activity_log', HL + 'ExecuteWithEachActivityLog.execute')
def u(v):
    """the inner pipeline runs once per activity log, in order, on a new context holding that log and name only; the given context is returned unchanged"""
    w = ctx_world(v)
    log_schema(v)
    D = TDict(STR, LOG)
    v.eng.keytypes[v.glob(KEYS, 'activities_to_logs_key')] = D
    k_l, k_n, k_a = (v.eng.lit(v.glob(KEYS, k)).t for k in ('log_key', 'activity_name_key', 'activities_to_logs_key'))
    v.types.obj['ExecuteWithEachActivityLog'] = [('pipeline', PIPE)]
    c, ct = v.param('current_input', CTX)
    pp, ppt = v.param('pipeline', PIPE)
    old(v, w, ct)
    ps = S(v, PAY)
    cell0 = z3.Select(w.V0, ct)
    v.require(z3.Select(ps.has(cell0), k_a))
    d = v.eng.proj(D)(z3.Select(ps.val(cell0), k_a))
    ds = S(v, D)
    ks = ds.keys(d)
    n = z3.Length(ks)
    k0 = z3.Int('k0')
    v.require(0 <= k0, k0 < n)
    c0 = v.st.clock
    G = S(v, TList(PAY))
    seen = ('ghost', 'seen')
    v.st.heap[seen] = z3.Empty(G)
    SE = S(v, w.step)
    run0 = w.run

    def run(eng, st, p_, x_):
        st.heap[seen] = z3.Concat(st.heap[seen], z3.Unit(z3.Select(st.heap[VK], eng.lower(st, x_, CTX))))
        eng.log(('heap',) + seen)
        return run0(eng, st, p_, x_)
    w.run = run
    who, inp = (lambda h, k: SE.accessor(0, 0)(h[k])), (lambda h, k: SE.accessor(0, 1)(h[k]))

    def content(p):
        return z3.And(z3.Length(ps.keys(p)) == 2, z3.Select(ps.has(p), k_l), z3.Select(ps.has(p), k_n),
                      z3.Select(ps.val(p), k_l) == v.eng.to_any(z3.Select(ds.val(d), ks[k0]), LOG), z3.Select(ps.val(p), k_n) == v.eng.to_any(ks[k0], STR))

    def t(Lp):
        yield ('clock', lambda st: st.clock >= c0)
        yield ('the context is untouched', lambda st: z3.Select(st.heap[VK], ct) == cell0)
        for i in Lp.mods(INT):
            yield ('one run per log %s' % i.name, lambda st, i=i: z3.And(z3.Length(st.heap[HK]) == i(st), z3.Length(st.heap[seen]) == i(st)))
            yield ('run k0 %s' % i.name, lambda st, i=i: z3.Implies(k0 < i(st), z3.And(who(st.heap[HK], k0) == ppt, w.b(inp(st.heap[HK], k0)) >= c0)))
            yield ('content k0 %s' % i.name, lambda st, i=i: z3.Implies(k0 < i(st), content(st.heap[seen][k0])))
    v.eng.templates.append(t)
    part = make(v, HL + 'ExecuteWithEachActivityLog', pp)
    for s, r in v.returns(v.call(HL + 'ExecuteWithEachActivityLog.execute', [part, c])):
        h = s.heap[HK]
        v.prove(s, z3.Length(h) == n, 'one run per activity log')
        v.prove(s, z3.And(who(h, k0) == ppt, w.b(inp(h, k0)) >= c0), 'run k0 is the inner pipeline on a new context')
        v.prove(s, content(s.heap[seen][k0]), 'holding exactly activity log k0 and its name')
        v.prove(s, v.eng.lower(s, r, CTX) == ct, 'the given context is returned')
        v.prove(s, z3.Select(s.heap[VK], ct) == cell0, 'and is unchanged')
