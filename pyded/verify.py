"""Contract driver: one Unit = one real function (or a small group) under contract.

A unit builds symbolic inputs satisfying the precondition, runs the *real* body extracted from
/repo's current source through the engine, and discharges the postconditions on every return path.
"""
import time, traceback, os
import z3
from .smt import *
from .engine import *
from .interp import Interp, VExc


class Unit:
    def __init__(self, prop, name, targets, fn, budget=120, kind='proof', tier='quick', doc=''):
        self.prop, self.name, self.targets, self.fn, self.budget, self.kind, self.tier = prop, name, targets, fn, budget, kind, tier
        self.doc = doc or (fn.__doc__ or '')


class Registry(dict):
    def unit(self, prop, name, *targets, budget=150, tier='quick'):
        def deco(fn):
            self.setdefault(prop, []).append(Unit(prop, name, list(targets), fn, budget, tier=tier))
            return fn
        return deco


REG = Registry()
unit = REG.unit


class V:
    """handed to a unit: engine + helpers"""
    def __init__(self, root='/repo'):
        SPECS.clear()
        UPFUEL[0] = 99
        KEEP_NESTED[0] = False
        NORM_CLEAR()
        UPREDS.clear()
        MATCHED.clear()
        LEMMAS.clear()
        self.eng = Interp(root)
        self.st = State()
        self.reach = []          # (pc facts) of return paths seen, for the vacuity check
        self.paths = 0
        self.raises = 0

    # ---- declarations
    @property
    def types(self):
        return self.eng.types

    def const(self, name, ty):
        return self.eng.const(name, ty)

    def param(self, name, ty, frozen=False):
        """a symbolic argument; -> (Value, initial term)"""
        t = self.eng.const(name, ty)
        v = self.eng.lift(self.st, t, ty)
        if frozen and isinstance(v, VPl):
            self.st.moved = self.st.moved | {v.place.oid}
        return v, t

    def require(self, *fs):
        self.st.assume(*fs)

    def func(self, qual):
        mod, name = qual.split(':')
        e = self.eng
        if '.' in name:
            cls, meth = name.split('.')
            r = e.repo.resolve(mod, cls)
            if r is None or r[0] != 'class':
                raise Unsupported('class %s is gone' % qual)
            e._classes = getattr(e, '_classes', {})
            e._classes[cls] = (r[1], r[2])
            f = e.find_method(cls, meth)
            if f is None:
                raise Unsupported('method %s is gone' % qual)
            return VFunc(f[2], f[0], None, meth, f[1])
        r = e.repo.resolve(mod, name)
        if r is None or r[0] not in ('func', 'assign'):
            raise Unsupported('function %s is gone' % qual)
        if r[0] == 'assign':
            return e.global_value(self.st, r[1], name)
        return VFunc(r[2], r[1], None, name)

    def klass(self, qual):
        mod, name = qual.split(':')
        r = self.eng.repo.resolve(mod, name)
        if r is None or r[0] != 'class':
            raise Unsupported('class %s is gone' % qual)
        self.eng._classes = getattr(self.eng, '_classes', {})
        self.eng._classes[name] = (r[1], r[2])
        return VClass(r[1], r[2])

    def glob(self, mod, name):
        """string value of a module constant of the current source"""
        r = self.eng.repo.resolve(mod, name)
        import ast
        if r and r[0] == 'assign' and isinstance(r[2], ast.Constant):
            return r[2].value
        raise Unsupported('constant %s is gone' % name)

    # ---- execution
    def call(self, qual, args, kw=None, st=None):
        """run the real body; -> [(st, 'return', value) | (st, 'raise', (excname, line))]"""
        e = self.eng
        st = (st or self.st).clone()
        f = self.func(qual) if isinstance(qual, str) else qual
        e.raised = []
        e.memo = set()
        self_ = args[0] if f.cls is not None and args and 'staticmethod' not in e.decorators(f.node) else None
        res = e.call_func(st, f, list(args), dict(kw or {}), self_=self_, force_inline=True)
        out = [(s, 'return', v) for s, v in res] + [(s, 'raise', (o[1], o[2])) for s, o in e.raised]
        e.raised = []
        live = []
        for s, k, v in out:
            if feasible(e.facts(s)):
                live.append((s, k, v))
                if k == 'return':
                    self.paths += 1
                    self.reach.append(s)
                else:
                    self.raises += 1
        return live

    def returns(self, outs, allow_raise=False):
        """all outcomes must be normal returns (an exceptional path is a failed obligation)"""
        r = []
        for s, k, v in outs:
            if k == 'return':
                r.append((s, v))
            elif not allow_raise:
                self.prove(s, z3.BoolVal(False), 'no exception (%s raised at line %s)' % v)
        return r

    def prove(self, st, goal, name, timeout=None, fuel=None):
        e = self.eng
        g = simp(goal) if z3.is_expr(goal) else z3.BoolVal(goal)
        if z3.is_true(g):
            e.obls.append(Obligation(name, 'proved', 'simplify', 0, self.label))
            return True
        r, be, m = prove(e.facts(st), g if not z3.is_expr(goal) else goal, timeout or e.timeout, fuel or e.fuel)
        e.obls.append(Obligation(name, r, be, 0, self.label, '' if r == 'proved' else e.explain(st, g, m)))
        return r == 'proved'

    label = '?'

    def lemma(self, name, hyps, goal, fuel=None, timeout=None):
        """a side lemma (induction step etc.) proved from hyps alone"""
        r, be, m = prove(self.eng.axioms + list(hyps), goal, timeout or self.eng.timeout, fuel or self.eng.fuel)
        self.eng.obls.append(Obligation('lemma ' + name, r, be, 0, self.label, '' if r == 'proved' else 'goal: %s\nmodel: %s' % (str(goal)[:800], str(m)[:2000])))
        return r == 'proved'

    # ---- fold templates: x == F(seq, i)
    def fold_templates(self, *fns):
        """offer 'x == F(fixed..., s, i)' for spec functions whose last two arguments are (sequence, prefix length)"""
        def t(L):
            for F in fns:
                f = F.f
                n = f.arity()
                ss = f.domain(n - 2)
                extra = [f.domain(j) for j in range(n - 2)]
                if extra:
                    continue
                seqs = [a for a in L.atoms if L.eng.sort(a.ty) == ss]
                ints = [a for a in L.atoms if a.ty == INT]
                for x in L.atoms:
                    if not x.modified or L.eng.sort(x.ty) != f.range():
                        continue
                    for s in seqs:
                        if s is x:
                            continue
                        for i in ints:
                            if not i.modified:
                                continue
                            yield ('%s == %s(%s, %s)' % (x.name, F.name, s.name, i.name), lambda st, x=x, s=s, i=i, F=F: x(st) == F(s(st), i(st)))
        self.eng.templates.append(t)

    def heap_fold_templates(self, cls, field, *fns):
        """heap == F(heap at loop entry, s, i)"""
        def t(L):
            key = (cls, field)
            if key not in L.head.heap or L.head.heap[key].eq(L.entry.heap[key]):
                return
            h0 = L.entry.heap[key]
            for F in fns:
                ss = F.f.domain(1)
                for s in L.atoms:
                    if L.eng.sort(s.ty) != ss:
                        continue
                    for i in L.atoms:
                        if i.ty == INT and i.modified:
                            yield ('heap %s.%s == %s(entry heap, %s, %s)' % (cls, field, F.name, s.name, i.name),
                                   lambda st, s=s, i=i, F=F: st.heap[key] == F(h0, s(st), i(st)))
        self.eng.templates.append(t)

    def unchanged_templates(self):
        def t(L):
            for key in L.head.heap:
                a, b = L.head.heap[key], L.entry.heap.get(key)
                if b is not None and not a.eq(b):
                    yield ('heap %s.%s unchanged' % key, lambda st, key=key, b=b: st.heap[key] == b)
            for a in L.atoms:
                if a.modified:
                    try:
                        e = a(L.entry)
                    except Exception:
                        continue
                    yield ('%s unchanged' % a.name, lambda st, a=a, e=e: a(st) == e)
        self.eng.templates.append(t)

    def bound_templates(self):
        """0 <= i, i <= len(s), i <= j for integer/sequence atoms"""
        def t(L):
            ints = [a for a in L.atoms if a.ty == INT]
            seqs = [a for a in L.atoms if a.ty.k == 'list']
            for i in ints:
                if not i.modified:
                    continue
                yield ('%s >= 0' % i.name, lambda st, i=i: i(st) >= 0)
                for s in seqs:
                    yield ('%s <= len(%s)' % (i.name, s.name), lambda st, i=i, s=s: i(st) <= z3.Length(s(st)))
                for j in ints:
                    if j is not i:
                        yield ('%s <= %s' % (i.name, j.name), lambda st, i=i, j=j: i(st) <= j(st))
                        yield ('%s >= %s' % (i.name, j.name), lambda st, i=i, j=j: i(st) >= j(st))
        self.eng.templates.append(t)


def run_unit(u, root=None, budget=None, trace=False):
    """-> JSON-able result of one unit"""
    t0 = time.time()
    STATS.time, STATS.queries = 0.0, 0
    v = V(root or os.environ.get('VERIF_REPO', '/repo'))
    v.label = u.targets[0] if u.targets else u.name
    v.eng.trace = trace
    v.eng.deadline = t0 + (budget or u.budget)
    res = {'unit': u.name, 'property': u.prop, 'functions': u.targets, 'doc': (u.doc or '').strip(), 'error': None}
    try:
        u.fn(v)
        # vacuity guards: some return path was explored, its facts are satisfiable for the solver
        if v.paths == 0 and not getattr(v, 'no_paths_ok', False):
            res['error'] = 'vacuous: no feasible return path was explored'
        else:
            ok = False
            for s in v.reach[:6]:
                r, _, _ = prove(v.eng.facts(s), z3.BoolVal(False), 5, v.eng.fuel, False)
                if r != 'proved':
                    ok = True
                    break
            if v.reach and not ok:
                res['error'] = 'vacuous: False is provable on every return path'
    except Unsupported as x:
        res['error'] = 'outside the verified subset: %s (near %s line %s)' % (x, v.eng.cur_func(), v.eng.cur_line)
        if trace:
            traceback.print_exc()
    except RecursionError:
        res['error'] = 'outside the verified subset: recursion limit'
    except Exception as x:
        res['error'] = 'engine: %s: %s' % (type(x).__name__, str(x)[:300])
        if trace:
            traceback.print_exc()
    ob = [{'name': o.name, 'status': o.status, 'backend': o.backend, 'line': o.line, 'func': o.func, 'detail': o.detail} for o in v.eng.obls]
    res['obligations'] = ob
    res['inlined'] = sorted(v.eng.inlined)
    res['assumed'] = sorted(v.eng.assumed)
    res['invariants'] = sorted(set(v.eng.kept_invs))
    res['return_paths'], res['raise_paths'] = v.paths, v.raises
    res['solver_s'], res['queries'] = round(STATS.time, 2), STATS.queries
    res['wall_s'] = round(time.time() - t0, 2)
    bad = [o for o in ob if o['status'] != 'proved']
    if res['error']:
        # a refutation found before the error still stands only if the path was complete; keep it as undecided
        res['status'] = 'undecided'
    elif not ob:
        res['status'] = 'undecided'
        res['error'] = 'vacuous: no obligation generated'
    elif any(o['status'] == 'refuted' for o in bad) and v.eng.lost_unknown:
        res['status'] = 'undecided'
        res['error'] = 'obligations fail, but loop-invariant candidates were lost to solver time-outs (%s)' % '; '.join(sorted(v.eng.lost_unknown))[:400]
    elif any(o['status'] == 'refuted' for o in bad):
        res['status'] = 'refuted'
    elif bad:
        res['status'] = 'undecided'
        res['error'] = '%d obligation(s) not decided within the time limit' % len(bad)
    else:
        res['status'] = 'proved'
    return res
