from contracts.common import *
from contracts.C09 import SUB, QI, EP, PM, PU, hash_units
from contracts.C14 import split_unit
from contracts.C13 import act_schema, NODE
from contracts.C10 import schema, RS

P = 'C11'
CNODE, EXTR = TRef('EventClassNode'), TRef('Extractor')
LN = TList(CNODE)
LA = TList(NODE)
CM = L + 'analysis.common.common_models:'

split_unit(P)


def local(v, st, ty):
    """the value of the local variable of the given type of a call that has returned (ghost: named by its type, not by its name)"""
    for fr in sorted(st.frames, reverse=True):
        for name, x in st.frames[fr][0].items():
            try:
                if isinstance(x, VPl) and v.eng.typeof(st, x) == ty:
                    return v.eng.lower(st, x, ty)
            except (Unsupported, KeyError):
                pass
    raise Unsupported('no local of type %r' % (ty,))


@unit(P, 'build_class_tree', EP + 'build_class_tree', CM + 'GraphNode.__init__', PM + 'EventClassNode.__init__', budget=300)
def u(v):
    """leaves: one per reported event name; every further layer has one node per image of the extractor, in order of first occurrence, whose
    children are exactly the nodes of the layer below mapped to its name, in order; the last layer is returned"""
    log_schema(v)
    v.types.ref['EventClassNode'] = {'name': ('imm', STR), 'child_nodes': ('heap', LN)}
    v.types.ref['Extractor'] = {}
    v.klass(PM + 'EventClassNode')
    I, SN, SC, SL = z3.IntSort(), S(v, STR), S(v, LN), S(v, TList(LN))
    C, X = S(v, CNODE), S(v, EXTR)
    hc = ('EventClassNode', 'child_nodes')
    v.st.heap[hc] = z3.Const('child0', z3.ArraySort(C, SC))
    name = lambda n: v.eng.lower(v.st, v.eng.getattr(v.st, v.eng.lift(v.st, n, CNODE), 'name')[0][1], STR)
    b = v.eng.birth('EventClassNode')
    v.require(v.st.clock >= 0)
    logv, lt = v.param('log', LOG)
    xv, xt = v.param('class_extractors', TList(EXTR))
    APP = z3.Function('CLASS', X, SN, SN)
    v.eng.ext['call:Extractor'] = lambda eng, st, f, a, kw: [(st, Z(APP(f.t, eng.lower(st, a[0], STR)), STR))]
    EC = TDict(STR, INT)
    ec = v.const('events_count', EC)
    v.types.obj['LogInfoResult'] = [('events_count', EC)]
    spy(v, L + 'analysis.event_log_info:create_log_information',
        lambda st, env: v.eng.new_root(st, ('O', 'LogInfoResult', {'events_count': v.eng.root_of_term(st, ec, EC)})), {'log': logv})
    CH = z3.ArraySort(C, SC)
    # of the first i nodes of layer s, those whose name is mapped to g by extractor x
    SEL = SpecFn('MAPPED', [X, SC, SN, I], SC, lambda x, s, g, i: z3.If(i <= 0, z3.Empty(SC), z3.If(
        APP(x, name(s[i - 1])) == g, z3.Concat(SEL(x, s, g, i - 1), z3.Unit(s[i - 1])), SEL(x, s, g, i - 1))))
    # the images in order of first occurrence
    def dk(x, s, i):
        g = APP(x, name(s[i - 1]))
        return z3.If(i <= 0, z3.Empty(S(v, TList(STR))), z3.If(z3.Length(SEL(x, s, g, i - 1)) > 0, DK(x, s, i - 1), z3.Concat(DK(x, s, i - 1), z3.Unit(g))))
    DK = SpecFn('IMAGES', [X, SC, I], S(v, TList(STR)), dk)
    D = TDict(STR, CNODE)
    DS = S(v, D)
    g0, q0, m0, j0 = z3.Const('g0', SN), z3.Int('q0'), z3.Int('m0'), z3.Int('j0')
    v.require(0 <= q0, 0 <= m0, 0 <= j0)
    KEPT = UPred('KEPT', [CH, CH, I], C, lambda c0, c1, t, e: z3.Implies(b(e) < t, z3.Select(c1, e) == z3.Select(c0, e)))
    NAMED = UPred('NAMED', [DS, I, I], SN, lambda d, t0, t1, g: z3.Implies(z3.Select(DS.has(d), g), z3.And(
        name(z3.Select(DS.val(d), g)) == g, b(z3.Select(DS.val(d), g)) >= t0, b(z3.Select(DS.val(d), g)) < t1)))
    HAS = UPred('HAS', [DS, X, SC, I], SN, lambda d, x, s, i, g: z3.Select(DS.has(d), g) == (z3.Length(SEL(x, s, g, i)) > 0))
    BORN = UPred('BORN', [SC, I], I, lambda s, t, k: z3.Implies(z3.And(0 <= k, k < z3.Length(s)), z3.And(b(s[k]) >= 0, b(s[k]) < t)))
    ch = lambda st: st.heap[hc]
    # the leaf with index q0
    leaf = lambda st, s, names: z3.And(name(s[q0]) == names[q0], z3.Length(z3.Select(ch(st), s[q0])) == 0, b(s[q0]) >= 0, b(s[q0]) < st.clock)

    def group(st, x, s, d, i):
        """the dictionary entry of the group g0 after the first i nodes"""
        c, y = SEL(x, s, g0, i), z3.Select(DS.val(d), g0)
        return z3.And(z3.Select(DS.has(d), g0) == (z3.Length(c) > 0), z3.Implies(z3.Length(c) > 0, z3.Select(ch(st), y) == c))

    def layer(st, x, lo, hi):
        y, k = hi[m0], DK(x, lo, z3.Length(lo))
        return z3.And(z3.Length(hi) == z3.Length(k), z3.Implies(m0 < z3.Length(hi), z3.And(
            b(y) >= 0, b(y) < st.clock, name(y) == k[m0], z3.Implies(name(y) == g0, z3.Select(ch(st), y) == SEL(x, lo, g0, z3.Length(lo))))))

    ENUM = v.eng.enum_fn(SN)

    def t(Lp):
        yield ('clock', lambda st: st.clock >= Lp.entry.clock)
        yield ('older nodes untouched', lambda st: KEPT(ch(Lp.entry), ch(st), Lp.entry.clock))
        for i in Lp.counters():
            for s in Lp.mods(LN):
                for ns in Lp.iterated(TSet(STR)):
                    yield ('%s has %s' % (s.name, i.name), lambda st, s=s, i=i: z3.Length(s(st)) == i(st))
                    yield ('born %s' % s.name, lambda st, s=s: BORN(s(st), st.clock))
                    yield ('%s leaf of %s' % (s.name, ns.name), lambda st, s=s, i=i, ns=ns: z3.Implies(q0 < i(st), leaf(st, s(st), ENUM(ns(st)))))
                for d in Lp.iterated(D):
                    yield ('%s has %s' % (s.name, i.name), lambda st, s=s, i=i: z3.Length(s(st)) == i(st))
                    yield ('born %s' % s.name, lambda st, s=s: BORN(s(st), st.clock))
                    yield ('m0.%s of %s' % (s.name, d.name), lambda st, s=s, i=i, d=d: z3.Implies(m0 < i(st), z3.And(
                        s(st)[m0] == z3.Select(DS.val(d(st)), DS.keys(d(st))[m0]), z3.Select(DS.has(d(st)), DS.keys(d(st))[m0]))))
            for d in Lp.mods(D):
                yield ('%s named' % d.name, lambda st, d=d: NAMED(d(st), Lp.entry.clock, st.clock))
                for x in Lp.all(EXTR):
                    for s in Lp.all(LN):
                        yield ('%s images of %s by %s' % (d.name, s.name, x.name), lambda st, d=d, s=s, x=x, i=i: z3.And(HAS(d(st), x(st), s(st), i(st)), DS.keys(d(st)) == DK(x(st), s(st), i(st))))
                        yield ('%s group of %s by %s' % (d.name, s.name, x.name), lambda st, d=d, s=s, x=x, i=i: group(st, x(st), s(st), d(st), i(st)))
            for l in Lp.mods(TList(LN)):
                yield ('%s has %s + 1' % (l.name, i.name), lambda st, l=l, i=i: z3.Length(l(st)) == i(st) + 1)
                yield ('%s starts with the leaves' % l.name, lambda st, l=l: l(st)[0] == l(Lp.entry)[0])
                yield ('%s last born' % l.name, lambda st, l=l: BORN(l(st)[z3.Length(l(st)) - 1], st.clock))
                yield ('%s j0 born' % l.name, lambda st, l=l, i=i: z3.Implies(j0 <= i(st), BORN(l(st)[j0], st.clock)))
                for xs in Lp.all(TList(EXTR)):
                    yield ('%s layer by %s' % (l.name, xs.name), lambda st, l=l, i=i, xs=xs: z3.Implies(j0 < i(st), layer(st, xs(st)[j0], l(st)[j0], l(st)[j0 + 1])))
    v.eng.templates.append(t)
    for s, r in v.returns(v.call(EP + 'build_class_tree', [logv, xv])):
        ls = local(v, s, TList(LN))
        n = z3.Length(xt)
        names = local(v, s, TSet(STR))
        v.prove(s, z3.Select(names, g0) == z3.Select(S(v, EC).has(ec), g0), 'the names of the leaves are the names of the log')
        v.prove(s, z3.Length(ls[0]) == z3.Length(ENUM(names)), 'one leaf per name')
        v.prove(s, z3.Implies(q0 < z3.Length(ls[0]), z3.And(name(ls[0][q0]) == ENUM(names)[q0], z3.Length(z3.Select(ch(s), ls[0][q0])) == 0)),
                'each leaf carries its name and has no children')
        v.prove(s, z3.Length(ls) == n + 1, 'one layer per extractor above the leaves')
        v.prove(s, v.eng.lower(s, r, LN) == ls[n], 'the last layer is returned')
        v.prove(s, z3.Implies(j0 < n, layer(s, xt[j0], ls[j0], ls[j0 + 1])), 'a layer has one node per image, with exactly the nodes mapped to it as children')
        frame_log(v, s, logv, lt)
        v.prove(s, v.eng.lower(s, xv, TList(EXTR)) == xt, 'frame: extractors unchanged')


PP = L + 'pipelines.analysis.patterns.patterns_parts:'


@unit(P, 'build_repeat_set_tree', EP + 'build_repeat_set_tree')
def u(v):
    """the forest of a log is the one of its traces hashed with the given extractor, with the given sets, name creator and level"""
    logv, sets, ex, nm, hashes, res = (opaque(v, n) for n in ('log', 'sets', 'extractor', 'namer', 'hashes', 'forest'))
    lv, _ = v.param('activity_level', INT)
    wrapper(v, EP + 'build_repeat_set_tree', [logv, sets, nm, lv, ex], {}, [
        (PU + '_create_hashes_traces_with_selector', {'log': logv, 'event_class_extractor': ex}, hashes),
        (EP + '_do_build_repeat_set_tree', {'hashes_traces': hashes, 'repeat_sets': sets, 'activity_names_creator': nm, 'class_extractor': ex, 'activity_level': lv}, res)])


@unit(P, 'DiscoverActivities', PP + 'DiscoverActivities.execute', PP + 'DiscoverActivities.__init__')
def u(v):
    """the part builds the forest of the context's log and repeat sets at its level; names are made by its name creator from the set, the log and the extractor"""
    logv, sets, ex, res, sub, nm = (opaque(v, n) for n in ('log', 'sets', 'extractor', 'forest', 'sub_array', 'made'))
    lv, _ = v.param('activity_level', INT)
    named = []
    creator = VPy(lambda eng, st, a, kw: [(st, named.append(a) or nm)], 'activity_name_creator')
    part = make(v, PP + 'DiscoverActivities', lv, ex, creator)

    def use_namer(st, env):
        for s, x in v.eng.call(st, env['activity_names_creator'], [sub], {}, None, v.eng.repo.module('ficus.legacy.util'), None):
            same_val(v, s, x, nm, 'the name is the one made by the creator')
        for x, y, what in zip(named[-1], (sub, logv, ex), ('repeat set', 'log', 'extractor')):
            same_val(v, st, x, y, 'the name creator gets the ' + what)
    part_unit(v, part, PP + 'DiscoverActivities.execute', {'log': logv, 'repeat_sets': sets}, EP + 'build_repeat_set_tree',
              {'log': logv, 'repeat_sets': sets, 'activity_level': lv, 'event_class_extractor': ex}, res, 'activities', use_namer)
    v.prove(v.st, z3.BoolVal(len(named) > 0), 'the name creator is used')
