from contracts.common import *
from contracts.C09 import SUB, QI, EP, PM, PU, hash_units
from contracts.C13 import NODE, ACT, LACT, node_of, st_of, end_of, ordered, ends
import contracts.C13 as C13

P = 'C12'
LN, SI = TList(NODE), TSet(INT)

hash_units(P)


def schema(v):
    v.types.ref['ActivityNode'] = {'name': ('imm', STR), 'length': ('imm', INT), 'set_of_events': ('imm', SI), 'child_nodes': ('imm', LN)}
    v.types.obj['ActivityInTraceInfo'] = [('node', NODE), ('start_pos', INT), ('length', INT)]
    v.klass(PM + 'ActivityInTraceInfo')
    v.klass(PM + 'ActivityNode')


def attr(v, x, name, ty):
    return v.eng.lower(v.st, v.eng.getattr(v.st, v.eng.lift(v.st, x, NODE), name)[0][1], ty)


def member(v, ety, name='MEMBER'):
    """MEMBER(s, n, y): y is among the first n elements of s; with its lemmas (proved here by induction, used as rewrite rules)"""
    SL, E, I = S(v, TList(ety)), S(v, ety), z3.IntSort()
    M = SpecFn(name, [SL, I, E], z3.BoolSort(), lambda s, n, y: z3.If(n <= 0, z3.BoolVal(False), z3.Or(nth(s, simp(n - 1)) == y, M(s, simp(n - 1), y))))
    s, y, x, n, k = z3.Const('s', SL), z3.Const('y', E), z3.Const('x', E), z3.Int('n'), z3.Int('k')
    inside = lambda n: z3.Implies(z3.And(0 <= k, k < n), M(s, n, s[k]))
    v.lemma('an element of a list is a member of it (n = 0)', [], inside(z3.IntVal(0)), 3)
    v.lemma('an element of a list is a member of it (step)', [n >= 0, inside(n)], inside(n + 1), 3)
    sx = z3.Concat(s, z3.Unit(x))
    ext = lambda n: z3.Implies(n <= z3.Length(s), M(sx, n, y) == M(s, n, y))
    v.lemma('members of an extended list (n = 0)', [], ext(z3.IntVal(0)), 3)
    v.lemma('members of an extended list (step)', [n >= 0, ext(n)], ext(n + 1), 3)
    t = z3.Extract(s, 1, z3.Length(s) - 1)
    tail = lambda n: z3.Implies(z3.And(0 <= n, n < z3.Length(s)), M(s, n + 1, y) == z3.Or(s[0] == y, M(t, n, y)))
    v.lemma('members of a list without its first (n = 0)', [], tail(z3.IntVal(0)), 3)
    v.lemma('members of a list without its first (step)', [n >= 0, tail(n)], tail(n + 1), 3)

    # IN(s, y): y is a member of the whole list
    IN = z3.Function(name + '.ALL', SL, E, z3.BoolSort())
    whole = lambda s, y: M(s, z3.Length(s), y)
    v.lemma('members of an extended list', [ext(z3.Length(s))], whole(sx, y) == z3.Or(whole(s, y), x == y), 3)
    v.lemma('members of a list without its first', [tail(z3.Length(s) - 1)], z3.Implies(z3.Length(s) > 0, whole(s, y) == z3.Or(s[0] == y, whole(t, y))), 3)

    def rule(app):
        if not z3.is_app(app) or app.decl().name() not in (name, name + '.ALL'):
            return None
        out = []
        if app.decl().name() == name:
            s, n, y = app.children()
            out.append(z3.Implies(n == z3.Length(s), app == IN(s, y)))
            return out or None
        s, y = app.children()
        if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_SEQ_NTH and y.arg(0).eq(s):
            out.append(z3.Implies(z3.And(0 <= y.arg(1), y.arg(1) < z3.Length(s)), app))
        if s.decl().kind() == z3.Z3_OP_SEQ_CONCAT and s.num_args() == 2 and s.arg(1).decl().kind() == z3.Z3_OP_SEQ_UNIT:
            out.append(app == z3.Or(IN(s.arg(0), y), s.arg(1).arg(0) == y))
        if s.decl().kind() == z3.Z3_OP_SEQ_EXTRACT and z3.is_int_value(s.arg(1)) and s.arg(1).as_long() == 1:
            w = s.arg(0)
            out.append(z3.Implies(z3.Length(w) > 0, IN(w, y) == z3.Or(w[0] == y, app)))
        out.append(z3.Implies(z3.Length(s) == 0, z3.Not(app)))
        if s.decl().kind() == z3.Z3_OP_SEQ_UNIT:
            out.append(app == (s.arg(0) == y))
        if s.decl().kind() == z3.Z3_OP_ITE:
            out.append(app == z3.If(s.arg(0), IN(s.arg(1), y), IN(s.arg(2), y)))
        return out or None
    M.all = IN
    LEMMAS.append(rule)
    return M


def sorted_args(t, F):
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().eq(F):
            out.append(x.arg(0))
        todo += x.children()
    return out


@unit(P, 'narrow_activity', EP + 'narrow_activity', budget=300)
def u(v):
    """the activity itself or a descendant whose set contains all the events; no descendant reachable through such nodes is smaller"""
    schema(v)
    v.eng.fuel = 3
    nv, nt = v.param('node', NODE)
    sv, ss = v.param('activities_set', SI)
    C, SC, SS, I = S(v, NODE), S(v, LN), S(v, SI), z3.IntSort()
    setof, length, children = lambda x: attr(v, x, 'set_of_events', SI), lambda x: attr(v, x, 'length', INT), lambda x: attr(v, x, 'child_nodes', LN)
    SUBSET = v.eng.subset_fn(I)
    sup = lambda x: SUBSET(ss, setof(x))
    M = member(v, NODE)
    DESC = z3.Function('DESCENDANT', C, z3.BoolSort())
    IN = M.all

    def below(app):
        if z3.is_app(app) and app.decl().eq(IN):
            c, y = app.children()
            if z3.is_app(c) and c.num_args() == 1 and c.arg(0).sort() == C and c.eq(children(c.arg(0))):
                return [z3.Implies(z3.And(DESC(c.arg(0)), app), DESC(y))]
        return None
    LEMMAS.append(below)
    v.eng.assumed.add('ghost: DESCENDANT is any predicate that holds of the activity and of every child of a node it holds of')
    v.require(DESC(nt))
    CLOSED = UPred('CLOSED', [SC, SC], [C, C], lambda res, q, x, y: z3.Implies(
        z3.And(z3.Or(x == nt, IN(res, x)), IN(children(x), y), sup(y)), z3.Or(IN(res, y), IN(q, y))))
    SUBS = UPred('SUBS', [SC], C, lambda r, y: z3.Implies(IN(r, y), z3.And(sup(y), DESC(y))))
    BELOW = UPred('BELOW', [SC], C, lambda r, y: z3.Implies(IN(r, y), DESC(y)))
    SAME = UPred('SAME', [SC, SC, SC, I], C, lambda q, q0, c, i, y: IN(q, y) == z3.Or(IN(q0, y), M(c, i, y)))

    def t(Lp):
        mods = Lp.mods(LN)
        for q in mods:
            yield ('%s below' % q.name, lambda st, q=q: BELOW(q(st)))
            yield ('%s subs' % q.name, lambda st, q=q: SUBS(q(st)))
            for r in mods:
                if r.name != q.name:
                    yield ('%s,%s closed' % (r.name, q.name), lambda st, q=q, r=r: CLOSED(r(st), q(st)))
            for i in Lp.counters():
                for c in Lp.iterated(LN):
                    yield ('members.%s copied from %s' % (q.name, c.name), lambda st, q=q, c=c, i=i: SAME(q(st), q(Lp.entry), c(st), i(st)))
    v.eng.templates.append(t)
    F = C13.sorted_by(v, NODE, length)
    J = z3.Function('least', SC, I)
    LEAST = UPred('LEAST', [SC, C], C, lambda l, y, z: z3.Implies(IN(l, z), length(y) <= length(z)))

    def rule(app):
        if not (z3.is_app(app) and app.decl().name() == F.name()):
            return None
        l = app.arg(0)
        return [z3.Length(app) == z3.Length(l), z3.Implies(z3.Length(l) > 0, z3.And(0 <= J(l), J(l) < z3.Length(l), app[0] == l[J(l)], IN(l, l[J(l)]), LEAST(l, app[0])))]
    LEMMAS.append(rule)
    x0, y0 = z3.Const('x0', C), z3.Const('y0', C)
    for s, r in v.returns(v.call(EP + 'narrow_activity', [nv, sv])):
        rt = v.eng.lower(s, r, NODE)
        v.prove(s, z3.Or(rt == nt, sup(rt)), 'the activity itself or one whose set contains all the events')
        v.prove(s, DESC(rt), 'the activity itself or a descendant')
        # the nodes collected: closed under children that contain the events, none of them smaller than the result
        cand = [z3.Empty(SC)] + sorted_args(rt, F)
        if len(cand) == 1 and not rt.eq(nt):
            raise Unsupported('the result is not taken from the sorted candidates')
        R = cand[-1]
        v.prove(s, z3.Implies(z3.And(z3.Or(x0 == nt, IN(R, x0)), IN(children(x0), y0), sup(y0)), IN(R, y0)),
                'every descendant reached through nodes containing the events is considered (step of the induction along the path)')
        v.prove(s, z3.Implies(IN(R, y0), length(rt) <= length(y0)), 'none of the nodes considered is smaller than the result')
        v.prove(s, v.eng.lower(s, sv, SI) == ss, 'frame: the events are unchanged')


def groups_member(v, IN):
    """IN2(gs, n, y): y is a member of one of the first n groups"""
    LLN, C, I = TList(LN), S(v, NODE), z3.IntSort()
    SG = S(v, LLN)
    M2 = SpecFn('MEMBER2', [SG, I, C], z3.BoolSort(), lambda g, n, y: z3.If(n <= 0, z3.BoolVal(False), z3.Or(IN(nth(g, simp(n - 1)), y), M2(g, simp(n - 1), y))))
    upd = v.eng.upd_fn(SG)
    g, n, k, y, x = z3.Const('g', SG), z3.Int('n'), z3.Int('k'), z3.Const('y', C), z3.Const('x', S(v, LN))
    before = lambda n: z3.Implies(z3.And(0 <= k, k < z3.Length(g), n <= k), M2(upd(g, k, x), n, y) == M2(g, n, y))
    same = lambda n: z3.Implies(z3.And(0 <= k, k < z3.Length(g), n <= z3.Length(g), IN(g[k], y) == IN(x, y)), M2(upd(g, k, x), n, y) == M2(g, n, y))
    for what, f in (('groups before a changed one', before), ('a group replaced by one with the same members', same)):
        v.lemma(what + ' (n = 0)', [], f(z3.IntVal(0)), 3)
        v.lemma(what + ' (step)', [n >= 0, f(n)], f(n + 1), 3)
    last = lambda k: z3.Implies(z3.And(0 <= k, k < z3.Length(g)), M2(upd(g, k, x), k + 1, y) == z3.Or(IN(x, y), M2(g, k, y)))
    v.lemma('groups up to a changed one', [before(k)], last(k), 3)
    gx = z3.Concat(g, z3.Unit(x))
    ext = lambda n: z3.Implies(n <= z3.Length(g), M2(gx, n, y) == M2(g, n, y))
    v.lemma('groups and a new one (n = 0)', [], ext(z3.IntVal(0)), 3)
    v.lemma('groups and a new one (step)', [n >= 0, ext(n)], ext(n + 1), 3)

    def rule(app):
        if not (z3.is_app(app) and app.decl().eq(M2.f)):
            return None
        g, n, y = app.children()
        if g.decl().eq(upd.f):
            g0, k, x = g.children()
            inside = z3.And(0 <= k, k < z3.Length(g0))
            return [z3.Implies(z3.And(inside, n <= k), app == M2(g0, n, y)), z3.Implies(z3.And(inside, n == k + 1), app == z3.Or(IN(x, y), M2(g0, k, y))),
                    z3.Implies(z3.And(inside, n <= z3.Length(g0), IN(g0[k], y) == IN(x, y)), app == M2(g0, n, y))]
        if g.decl().kind() == z3.Z3_OP_SEQ_CONCAT and g.num_args() == 2 and g.arg(1).decl().kind() == z3.Z3_OP_SEQ_UNIT:
            return [z3.Implies(n <= z3.Length(g.arg(0)), app == M2(g.arg(0), n, y))]
        return None
    LEMMAS.append(rule)
    return M2


def any_sorted(v, IN, ety):
    """assumed contract of sorted(), for membership only: the same elements"""
    SL = S(v, TList(ety))
    F = z3.Function('REARRANGED', SL, SL)
    v.eng.assumed.add('sorted() returns a rearrangement of its argument')

    def h(eng, st, a, kw):
        out = []
        for s, l in eng.materialize(st, a[0], None, eng.repo.module('ficus.legacy.util'), None):
            out.append((s, eng.new_root(s, ('L', F(eng.read(s, l.place, TList(ety))), ety))))
        return out
    v.eng.ext['builtins.sorted'] = h

    def rule(app):
        if z3.is_app(app) and app.decl().eq(F):
            return [z3.Length(app) == z3.Length(app.arg(0))]
        if z3.is_app(app) and app.decl().eq(IN) and z3.is_app(app.arg(0)) and app.arg(0).decl().eq(F):
            return [app == IN(app.arg(0).arg(0), app.arg(1))]
        return None
    LEMMAS.append(rule)


@unit(P, 'split_by_size', PU + '_split_activity_nodes_by_size', budget=300)
def u(v):
    """the groups hold exactly the given nodes; groups are not empty"""
    schema(v)
    v.eng.fuel = 5
    nv, nt = v.param('activities_nodes', LN)
    M = member(v, NODE)
    IN = M.all
    M2 = groups_member(v, IN)
    any_sorted(v, IN, NODE)
    LLN, I, C, SG, SC = TList(LN), z3.IntSort(), S(v, NODE), S(v, TList(LN)), S(v, LN)
    y0 = z3.Const('y0', C)
    FULL = UPred('FULL', [SG], I, lambda g, k: z3.Implies(z3.And(0 <= k, k < z3.Length(g)), z3.Length(g[k]) > 0))

    def t(Lp):
        for g in Lp.mods(LLN):
            yield ('%s.some' % g.name, lambda st, g=g: z3.Length(g(st)) > 0)
            yield ('%s.as many' % g.name, lambda st, g=g: z3.Length(g(st)) == z3.Length(g(Lp.entry)))
            yield ('%s.full' % g.name, lambda st, g=g: FULL(g(st)))
            yield ('%s.members' % g.name, lambda st, g=g: M2(g(st), z3.Length(g(st)), y0) == M2(g(Lp.entry), z3.Length(g(Lp.entry)), y0))
            for s in Lp.all(LN):
                for i in Lp.all(INT):
                    yield ('%s.hold %s up to %s' % (g.name, s.name, i.name), lambda st, g=g, s=s, i=i: M2(g(st), z3.Length(g(st)), y0) == M(s(st), i(st), y0))
                    yield ('%s.hold %s up to and with %s' % (g.name, s.name, i.name), lambda st, g=g, s=s, i=i: M2(g(st), z3.Length(g(st)), y0) == M(s(st), simp(i(st) + 1), y0))
    v.eng.templates.append(t)
    for s, r in v.returns(v.call(PU + '_split_activity_nodes_by_size', [nv])):
        rt = v.eng.lower(s, r, LLN)
        v.prove(s, M2(rt, z3.Length(rt), y0) == IN(nt, y0), 'a node is in one of the groups if and only if it was given')
        v.prove(s, FULL(rt), 'no group is empty')
        v.prove(s, v.eng.lower(s, nv, LN) == nt, 'frame: nodes unchanged')


@unit(P, 'scan', EP + '_do_extract_activities_from_log', budget=600)
def u(v):
    """per trace: non-empty intervals inside the trace, ordered, disjoint; every event inside one is in the set of its activity, which is a given node
    or a descendant of one; each is accepted by the filter; with a filter that accepts everything an uncovered event is in no given node"""
    schema(v)
    LI, LLN, LLA = TList(INT), TList(LN), TList(LACT)
    I, C, SA, SL = z3.IntSort(), S(v, NODE), S(v, LACT), S(v, LI)
    hv, ht = v.param('hashes_traces', TList(LI))
    nv, nt = v.param('activities_nodes', LN)
    nav = v.const('should_narrow', BOOL)
    setof = lambda x: attr(v, x, 'set_of_events', SI)
    M = member(v, NODE)
    IN = M.all
    M2 = groups_member(v, IN)
    END = ends(v)
    DESC = z3.Function('DESCENDANT', C, z3.BoolSort())
    y0, t0, k0, j0, triv = z3.Const('y0', C), z3.Int('t0'), z3.Int('k0'), z3.Int('j0'), z3.Bool('accepts_everything')
    v.require(0 <= t0, 0 <= k0, 0 <= j0, IN(nt, y0))
    COV = SpecFn('COVERED', [SA, I, I], z3.BoolSort(), lambda a, n, j: z3.If(n <= 0, z3.BoolVal(False), z3.Or(
        COV(a, simp(n - 1), j), z3.And(st_of(v, nth(a, simp(n - 1))) <= j, j < end_of(v, nth(a, simp(n - 1)))))))
    a_, x_, n_, j_ = z3.Const('a', SA), z3.Const('x', S(v, ACT)), z3.Int('n'), z3.Int('j')
    ext = lambda n: z3.Implies(n <= z3.Length(a_), COV(z3.Concat(a_, z3.Unit(x_)), n, j_) == COV(a_, n, j_))
    v.lemma('covered by an extended list (n = 0)', [], ext(z3.IntVal(0)), 3)
    v.lemma('covered by an extended list (step)', [n_ >= 0, ext(n_)], ext(n_ + 1), 3)

    def rule(app):
        if z3.is_app(app) and app.decl().eq(COV.f):
            s, n, j = app.children()
            if s.decl().kind() == z3.Z3_OP_SEQ_CONCAT and s.num_args() == 2 and s.arg(1).decl().kind() == z3.Z3_OP_SEQ_UNIT:
                return [z3.Implies(n <= z3.Length(s.arg(0)), app == COV(s.arg(0), n, j))]
        return None
    LEMMAS.append(rule)
    ACC = z3.Function('ACCEPTED', S(v, ACT), z3.BoolSort())
    accept = lambda t: z3.Or(triv, ACC(t))
    flt = VPy(lambda eng, st, a, kw: [(st, Z(accept(eng.lower(st, a[0], ACT)), BOOL))], 'filter')

    def split(eng, st, env, f):
        g = eng.const(fresh_name('groups'), LLN)
        if eng.mode == 'final':
            v.prove(st, eng.lower(st, env['activities_nodes'], LN) == nt, 'the given nodes are searched')
        st.assume(M2(g, z3.Length(g), y0) == IN(nt, y0))
        return [(st, eng.root_of_term(st, g, LLN))]
    v.eng.contracts[PU + '_split_activity_nodes_by_size'] = split


    def narrow(eng, st, env, f):
        n, cs = eng.lower(st, env['node'], NODE), eng.lower(st, env['activities_set'], SI)
        r = eng.const(fresh_name('narrowed'), NODE)
        st.assume(z3.Or(r == n, v.eng.subset_fn(I)(cs, setof(r))))
        return [(st, eng.lift(st, r, NODE))]
    v.eng.contracts[EP + 'narrow_activity'] = narrow
    ON = S(v, TOpt(NODE))

    def inst(a, t, bound, part=None):
        """the instance with index k0 of a list of instances, below position bound"""
        x = a[k0]
        parts = [z3.And(0 <= st_of(v, x), st_of(v, x) < end_of(v, x), end_of(v, x) <= bound), END(a, k0) <= st_of(v, x), accept(x),
                 z3.Implies(z3.And(st_of(v, x) <= j0, j0 < end_of(v, x)), z3.Select(setof(node_of(v, x)), t[j0]))]
        return z3.Implies(k0 < z3.Length(a), z3.And(parts) if part is None else parts[part])
    unc = lambda a, t, upto: z3.Implies(z3.And(triv, j0 < upto, j0 < z3.Length(t)), z3.Or(COV(a, z3.Length(a), j0), z3.Not(z3.Select(setof(y0), t[j0]))))

    def t(Lp):
        ints, nodes, sets, lists = Lp.mods(INT), Lp.mods(TOpt(NODE)), Lp.mods(SI), Lp.mods(LACT)
        for b in Lp.mods(BOOL):
            yield ('%s is false' % b.name, lambda st, b=b: z3.Not(b(st)))
        for x in ints + nodes + sets:
            yield ('same.%s as before' % x.name, lambda st, x=x: x(st) == x(Lp.entry))
        for i in Lp.counters():
            for e in Lp.fixed(INT):
                if not e.name.startswith('$'):
                    for s in Lp.fixed(LN):
                        yield ('none.%s of %s' % (e.name, s.name), lambda st, e=e, s=s, i=i: z3.Implies(M(s(st), i(st), y0), z3.Not(z3.Select(setof(y0), e(st)))))
                    for s in Lp.fixed(LLN):
                        yield ('none.%s of %s' % (e.name, s.name), lambda st, e=e, s=s, i=i: z3.Implies(M2(s(st), i(st), y0), z3.Not(z3.Select(setof(y0), e(st)))))
            for r in Lp.mods(LLA):
                for h in Lp.fixed(TList(LI)):
                    yield ('%s has %s' % (r.name, i.name), lambda st, r=r, i=i: z3.Length(r(st)) == i(st))
                    for p in range(4):
                        yield ('%s.t0.%d' % (r.name, p), lambda st, r=r, i=i, h=h, p=p: z3.Implies(t0 < i(st), inst(r(st)[t0], h(st)[t0], z3.Length(h(st)[t0]), p)))
                    yield ('%s.uncovered' % r.name, lambda st, r=r, i=i, h=h: z3.Implies(t0 < i(st), unc(r(st)[t0], h(st)[t0], z3.Length(h(st)[t0]))))
        for x in ints:
            for tr in Lp.all(LI):
                yield ('%s.in %s' % (x.name, tr.name), lambda st, x=x, tr=tr: z3.And(x(st) >= -1, x(st) < z3.Length(tr(st))))
            for y in ints:
                for c in nodes:
                    if x.name == y.name:
                        continue
                    free = lambda st, c=c: c(st) == ON.none
                    yield ('%s.start %s %s' % (c.name, x.name, y.name), lambda st, x=x, y=y, c=c, free=free: z3.And(
                        free(st) == (x(st) == -1), z3.Implies(z3.Not(free(st)), z3.And(0 <= x(st), x(st) <= y(st)))))
                    for a in lists:
                        end = lambda st, x=x, y=y, free=free: z3.If(free(st), y(st) + 1, x(st))
                        yield ('%s.ends %s %s' % (a.name, x.name, y.name), lambda st, a=a, end=end: z3.And(END(a(st), z3.Length(a(st))) <= end(st), END(a(st), z3.Length(a(st))) >= 0))
                        for tr in Lp.all(LI):
                            yield ('%s.inst %s %s %s' % (a.name, x.name, y.name, tr.name), lambda st, a=a, tr=tr, end=end: inst(a(st), tr(st), end(st)))
                            yield ('%s.uncovered %s %s %s' % (a.name, x.name, y.name, tr.name), lambda st, a=a, tr=tr, end=end: unc(a(st), tr(st), end(st)))
                    for s in sets:
                        for tr in Lp.all(LI):
                            yield ('%s.%s seen %s %s %s' % (c.name, s.name, x.name, y.name, tr.name), lambda st, x=x, y=y, c=c, s=s, tr=tr, free=free: z3.Implies(
                                z3.And(z3.Not(free(st)), x(st) <= j0, j0 <= y(st)), z3.And(z3.Select(setof(ON.val(c(st))), tr(st)[j0]), z3.Select(s(st), tr(st)[j0]))))
    v.eng.templates.append(t)
    for s, r in v.returns(v.call(EP + '_do_extract_activities_from_log', [hv, nv, v.eng.lift(v.st, nav, BOOL), flt])):
        rt = v.eng.lower(s, r, LLA)
        v.prove(s, z3.Length(rt) == z3.Length(ht), 'one list of instances per trace')
        for p, what in enumerate(('non-empty and inside the trace', 'ordered and disjoint', 'accepted by the filter', 'made of events of their activity')):
            v.prove(s, z3.Implies(t0 < z3.Length(ht), inst(rt[t0], ht[t0], z3.Length(ht[t0]), p)), 'instances are ' + what)
        v.prove(s, z3.Implies(t0 < z3.Length(ht), unc(rt[t0], ht[t0], z3.Length(ht[t0]))), 'an uncovered event belongs to no given activity')
        v.prove(s, v.eng.lower(s, hv, TList(LI)) == ht, 'frame: traces unchanged')
        v.prove(s, v.eng.lower(s, nv, LN) == nt, 'frame: activities unchanged')


PP = L + 'pipelines.analysis.patterns.patterns_parts:'


@unit(P, 'default_filter', EP + 'default_activity_in_trace_filter')
def u(v):
    """the default filter accepts everything"""
    for s, r in v.returns(v.call(EP + 'default_activity_in_trace_filter', [opaque(v, 'info')])):
        v.prove(s, v.eng.truth(s, r), 'accepts')


@unit(P, 'extract_wrapper', EP + 'extract_activities_from_log')
def u(v):
    """the instances of a log are those of its traces hashed with the given extractor, with the given nodes, filter and narrowing (default: accept all, narrow)"""
    logv, nodes, ex, flt, hashes, res = (opaque(v, n) for n in ('log', 'nodes', 'extractor', 'filter', 'hashes', 'instances'))
    nav, nat = v.param('should_narrow_activity', BOOL)
    for args, kw, want in (
            ([logv, nodes], {}, (VNone, z3.BoolVal(True), None)),
            ([logv, nodes, ex, flt, nav], {}, (ex, nat, flt))):
        spy(v, PU + '_create_hashes_traces_with_selector', lambda st, env: hashes, {'log': logv, 'event_class_extractor': want[0]})
        got = []
        spy(v, EP + '_do_extract_activities_from_log', lambda st, env: got.append(env) or res, {'hashes_traces': hashes, 'activities_nodes': nodes})
        for s, r in v.returns(v.call(EP + 'extract_activities_from_log', args, kw)):
            same_val(v, s, r, res, 'the instances found are returned')
            for env in got:
                v.prove(s, v.eng.lower(s, env['should_narrow_activity'], BOOL) == want[1], 'narrowing as requested')
                if want[2] is not None:
                    same_val(v, s, env['activity_filter'], flt, 'the given filter')
                else:
                    for s1, x in v.eng.call(s.clone(), env['activity_filter'], [opaque(v, 'info')], {}, None, v.eng.repo.module('ficus.legacy.util'), None):
                        v.prove(s1, v.eng.truth(s1, x), 'by default every instance is accepted')
        v.prove(v.st, z3.BoolVal(len(got) > 0), 'the scan is used')


@unit(P, 'DiscoverActivitiesInTraces', PP + 'DiscoverActivitiesInTraces.execute')
def u(v):
    """the part searches the log of the context with the activities of the context and stores the instances"""
    schema(v)
    logv, nodes, ex, flt = (opaque(v, n) for n in ('log', 'nodes', 'extractor', 'filter'))
    nav, nat = v.param('should_narrow_activity', BOOL)
    res = v.eng.root_of_term(v.st, v.const('instances', TList(LACT)), TList(LACT))
    part = make(v, PP + 'DiscoverActivitiesInTraces', ex, flt, nav)
    part_unit(v, part, PP + 'DiscoverActivitiesInTraces.execute', {'log': logv, 'activities': nodes}, EP + 'extract_activities_from_log',
              {'log': logv, 'activities_nodes': nodes, 'event_class_extractor': ex, 'activity_filter': flt, 'should_narrow_activity': nav}, res, 'traces_activities')
