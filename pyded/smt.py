"""Types, z3 sorts, recursive specification functions and the prover portfolio."""
import subprocess, tempfile, time, os
import z3

# ----------------------------------------------------------------------------- types


class Ty:
    def __init__(self, k, *a, **kw):
        self.k, self.a, self.kw = k, a, kw

    def key(self):
        return (self.k,) + tuple(x.key() if isinstance(x, Ty) else x for x in self.a)

    def __eq__(self, o):
        return isinstance(o, Ty) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return self.k + ('(' + ','.join(map(repr, self.a)) + ')' if self.a else '')


INT, BOOL, REAL, STR, ANY, NONE = (Ty(k) for k in ('int', 'bool', 'real', 'str', 'any', 'none'))
def TList(e): return Ty('list', e)
def TSet(e): return Ty('set', e)
def TDict(k, v): return Ty('dict', k, v)
def TTup(*t): return Ty('tup', *t)
def TOpt(t): return t if t.k == 'opt' else Ty('opt', t)
def TRef(c): return Ty('ref', c)       # identity class, fields are functions of the reference / heap cells
def TObj(c): return Ty('obj', c)       # value class, fields embedded
def TEnum(c): return Ty('enum', c)

_nthcache = {}


def _nths(t, out, seen):
    i = t.get_id()
    if i in seen:
        return
    seen.add(i)
    if z3.is_app(t):
        if t.decl().kind() == z3.Z3_OP_SEQ_NTH:
            out.append(t)
            return
        for c in t.children():
            _nths(c, out, seen)


def simp(t):
    """z3.simplify, except that sequence accesses stay as they are (z3 would expand them into case distinctions)"""
    out = []
    _nths(t, out, set())
    if not out:
        return z3.simplify(t)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_NTH:
        return t
    cs = [(x, z3.FreshConst(x.sort(), 'nth')) for x in out]
    return z3.substitute(z3.simplify(z3.substitute(t, *cs)), *[(c, x) for x, c in cs])


def nth(s, i):
    """s[i], reduced for one-element sequences"""
    if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_UNIT and z3.is_int_value(i) and i.as_long() == 0:
        return s.arg(0)
    return s[i]


_NORM = {}


KEEP_NESTED = [False]     # leave elements of appended-to lists of lists as they are (a lemma gives their value)


def NORM_CLEAR():
    _NORM.clear()


def nested_nth(a):
    """the value of an element of an appended-to list"""
    if a.decl().kind() == z3.Z3_OP_SEQ_NTH and z3.is_app(a.arg(0)) and a.arg(0).decl().kind() == z3.Z3_OP_SEQ_NTH:
        q, k, j = a.arg(0).arg(0), a.arg(0).arg(1), a.arg(1)
        if z3.is_app(q) and q.decl().name().startswith('upd_') and q.num_args() == 3:
            l, i, x = q.children()
            return [z3.Implies(z3.And(0 <= i, i < z3.Length(l), k == i), a == nthnorm(x[j])), z3.Implies(z3.And(0 <= i, i < z3.Length(l), 0 <= k, k < z3.Length(l), k != i), a == l[k][j])]
        if q.decl().kind() == z3.Z3_OP_SEQ_CONCAT and q.arg(q.num_args() - 1).decl().kind() == z3.Z3_OP_SEQ_UNIT:
            cs = q.children()
            f = cs[0] if len(cs) == 2 else z3.Concat(*cs[:-1])
            return [z3.Implies(k == z3.Length(f), a == nthnorm(cs[-1].arg(0)[j])), z3.Implies(z3.And(0 <= k, k < z3.Length(f)), a == f[k][j])]
    if a.decl().kind() != z3.Z3_OP_SEQ_NTH or a.arg(0).decl().kind() != z3.Z3_OP_SEQ_CONCAT:
        return None
    cs, k = a.arg(0).children(), a.arg(1)
    if cs[-1].decl().kind() != z3.Z3_OP_SEQ_UNIT:
        return None
    front = cs[0] if len(cs) == 2 else z3.Concat(*cs[:-1])
    return [z3.Implies(k == z3.Length(front), a == cs[-1].arg(0)), z3.Implies(z3.And(0 <= k, k < z3.Length(front)), a == front[k])]


def nthnorm(e):
    """accesses to a list just extended by an element, as case distinctions: (s + [x])[k] is x at k = len(s), s[k] inside s"""
    hit = _NORM.get(e.get_id())
    if hit is not None and hit[0].eq(e):
        return hit[1]
    r = e
    if z3.is_app(e) and e.num_args():
        cs = [nthnorm(c) for c in e.children()]
        if any(not c.eq(d) for c, d in zip(cs, e.children())):
            r = e.decl()(*cs)
        if e.decl().kind() == z3.Z3_OP_SEQ_NTH and not (KEEP_NESTED[0] and e.sort().kind() == z3.Z3_SEQ_SORT):
            s, k = cs
            if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_UNIT:
                r = s.arg(0) if z3.is_int_value(k) and k.as_long() == 0 else r
            if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
                last = s.arg(s.num_args() - 1)
                if last.decl().kind() == z3.Z3_OP_SEQ_UNIT:
                    front = s.children()[:-1]
                    front = front[0] if len(front) == 1 else z3.Concat(*front)
                    out = z3.Function('nth_outside_%s' % s.sort(), s.sort(), z3.IntSort(), last.arg(0).sort())
                    r = last.arg(0) if k.eq(z3.Length(front)) else z3.If(k == z3.Length(front), last.arg(0), z3.If(z3.And(0 <= k, k < z3.Length(front)), nthnorm(front[k]), out(s, k)))
    if len(_NORM) > 100000:
        _NORM.clear()
    _NORM[e.get_id()] = (e, r)
    return r


def lift_ites(goal, limit=2):
    """a goal over a list-valued case distinction as the conjunction of the goals of the cases"""
    if limit == 0:
        return goal
    seen, todo = set(), [goal]
    while todo:
        x = todo.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_ITE and x.sort().kind() == z3.Z3_SEQ_SORT:
            c = x.arg(0)
            ites = [e for e in _ites(goal, c)]
            yes = z3.substitute(goal, *[(e, e.arg(1)) for e in ites])
            no = z3.substitute(goal, *[(e, e.arg(2)) for e in ites])
            return z3.And(z3.Implies(c, lift_ites(yes, limit - 1)), z3.Implies(z3.Not(c), lift_ites(no, limit - 1)))
        todo.extend(x.children())
    return goal


def _ites(e, c):
    seen, todo, out = set(), [e], []
    while todo:
        x = todo.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_ITE and x.arg(0).eq(c) and not z3.is_bool(x):
            out.append(x)
            continue
        todo.extend(x.children())
    return out


_usorts = {}
def usort(n):
    if n not in _usorts:
        _usorts[n] = z3.DeclareSort(n)
    return _usorts[n]


class Types:
    """Class schemas of the contract in force + z3 sorts."""
    def __init__(self):
        self.obj = {}      # class -> [(field, Ty)]   value classes
        self.ref = {}      # class -> {field: (mode, Ty)}  mode: 'imm' | 'heap'
        self._sorts = {}
        self._dt = {}

    def name(self, t):
        return t.k + ''.join('_' + (self.name(x) if isinstance(x, Ty) else str(x)) for x in t.a) + ('_' if t.a else '')

    def sort(self, t):
        if t in self._sorts:
            return self._sorts[t]
        k = t.k
        if k == 'int' or k == 'enum':
            s = z3.IntSort()
        elif k == 'bool':
            s = z3.BoolSort()
        elif k == 'real':
            s = z3.RealSort()
        elif k == 'str':
            s = usort('Str')
        elif k == 'any':
            s = usort('Any')
        elif k == 'ref':
            s = usort('Ref' + t.a[0])
        elif k == 'list':
            s = z3.SeqSort(self.sort(t.a[0]))
        elif k == 'set':
            s = z3.ArraySort(self.sort(t.a[0]), z3.BoolSort())
        elif k == 'none':
            s = usort('NoneT')
        else:
            d = z3.Datatype(self.name(t))
            if k == 'dict':
                ks, vs = self.sort(t.a[0]), self.sort(t.a[1])
                d.declare('mk', ('keys', z3.SeqSort(ks)), ('has', z3.ArraySort(ks, z3.BoolSort())),
                          ('val', z3.ArraySort(ks, vs)))
            elif k == 'tup':
                d.declare('mk', *[('f%d' % i, self.sort(x)) for i, x in enumerate(t.a)])
            elif k == 'opt':
                d.declare('none')
                d.declare('some', ('val', self.sort(t.a[0])))
            elif k == 'obj':
                d.declare('mk', *[(f, self.sort(x)) for f, x in self.obj[t.a[0]]])
            s = d.create()
        self._sorts[t] = s
        return s


_fresh = [0]
def fresh_name(b):
    _fresh[0] += 1
    return '%s!%d' % (b, _fresh[0])


# ------------------------------------------------------------------- specification functions

SPECS = {}


class SpecFn:
    """A recursively defined specification function.  Its definition is unfolded on the ground
    applications that occur in a query (fuel-bounded), never by the solver on its own."""
    def __init__(self, name, argsorts, ret, defn=None, fuel=None):
        self.name = name
        self.f = z3.Function(name, *argsorts, ret)
        self.defn = defn
        self.fuel = fuel
        SPECS[name] = self

    def __call__(self, *args):
        a = []
        for x in args:
            if isinstance(x, (int, bool, float)):
                x = z3.IntVal(x) if not isinstance(x, (bool, float)) else (z3.BoolVal(x) if isinstance(x, bool) else z3.RealVal(x))
            if x.sort() == z3.IntSort():
                x = simp(x)
            a.append(x)
        return self.f(*a)


UPREDS = {}
MATCHED = []
LEMMAS = []      # trigger lemmas: fn(app) -> list of ground instances of an already proved lemma, or None


class UPred:
    """A universally quantified predicate  name(args) := forall x:sort. body(args, x), handled without
    solver quantifiers: a negative occurrence gets a Skolem witness, positive ones are instantiated with
    every ground term of the bound sort in the query (for Int: every term used as a sequence index), or, when `match` is
    given, with the tuples match(term) of the terms of the query."""
    def __init__(self, name, argsorts, bound, body, match=None):
        self.name, self.body, self.match = name, body, match
        self.bounds = bound if isinstance(bound, (list, tuple)) else [bound]
        self.cls = ['IntKey' if isinstance(b, str) else 'Int' if b == z3.IntSort() else b.name() for b in self.bounds]
        self.bounds = [z3.IntSort() if isinstance(b, str) else b for b in self.bounds]
        self.f = z3.Function(name, *argsorts, z3.BoolSort())
        self.wit = [z3.Function('%s!wit%d' % (name, k), *argsorts, b) for k, b in enumerate(self.bounds)]
        UPREDS[name] = self
        if match is not None:
            MATCHED.append(self)

    def __call__(self, *a):
        return self.f(*a)


def nth_of(sort, depth=1):
    """matches element terms of the given sort, s[j] or s[k][j]: the indices"""
    def m(e):
        if e.sort() != sort:
            return None
        out = ()
        for _ in range(depth):
            if e.num_args() != 2 or e.decl().name() not in ('seq.nth', 'seq.nth_i', 'seq.nth_u'):
                return None
            out, e = (e.arg(1),) + out, e.arg(0)
        return out
    return m


def collect_apps(exprs, seen, out, upreds=None, terms=None, apps=None):
    st = list(exprs)
    while st:
        e = st.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen[i] = e
        if z3.is_app(e):
            if e.num_args():
                n = e.decl().name()
                if n in SPECS:
                    out.append(e)
                elif n in UPREDS and upreds is not None:
                    upreds.append(e)
                if apps is not None and LEMMAS:
                    apps.append(e)
            if terms is not None and UPREDS:
                for P in MATCHED:
                    m = P.match(e)
                    if m is not None:
                        terms.setdefault(P, {})[tuple(x.get_id() for x in m)] = m
                srt = e.sort()
                k = srt.kind()
                if k == z3.Z3_UNINTERPRETED_SORT:
                    terms.setdefault(srt.name(), {})[i] = e
                if e.num_args() == 2 and e.decl().name() in ("seq.nth", "seq.nth_i", "seq.nth_u"):
                    terms.setdefault('Int', {})[e.arg(1).get_id()] = e.arg(1)
                elif e.num_args() == 2 and e.decl().kind() == z3.Z3_OP_SELECT and e.arg(1).sort() == z3.IntSort():
                    terms.setdefault('IntKey', {})[e.arg(1).get_id()] = e.arg(1)
            st.extend(e.children())
        elif z3.is_quantifier(e):
            pass   # bound variables inside: applications under binders are not unfolded


UPFUEL = [99]       # rounds of unfolding in which universally quantified facts are instantiated


def unfoldings(exprs, fuel=2):
    seen, res = {}, []
    frontier = list(exprs)
    ups, terms, done, pol = [], {}, set(), {}
    for x in frontier:
        polarity(x, 1, pol)
    for rnd in range(fuel):
        apps, raw = [], []
        collect_apps(frontier, seen, apps, ups, terms, raw)
        new = []
        for a in apps:
            sp = SPECS[a.decl().name()]
            if sp.defn is None:
                continue
            args = [a.arg(i) for i in range(a.num_args())]
            d = sp.defn(*args)
            if d is None:
                continue
            if isinstance(d, (list, tuple)):
                new.extend(d)              # explicit ground axioms
            else:
                new.append(a == nthnorm(d))
        for a in raw:
            for lm in LEMMAS:
                d = lm(a)
                if d:
                    new.extend(d)
        for x in new:
            polarity(x, 1, pol)
        if rnd < UPFUEL[0]:
            new += instantiate_upreds(ups, terms, done, pol)
        res.extend(new)
        frontier = new
        if not new:
            break
    # last instantiation round for terms that appeared late
    if ups and UPFUEL[0] >= fuel:
        collect_apps(frontier, seen, [], ups, terms, None)
        res += instantiate_upreds(ups, terms, done, pol)
    return res


def polarity(e, p, pol):
    """records for every universally quantified predicate whether it occurs as a fact (1), as something to show (2) or both"""
    st = [(e, p)]
    while st:
        e, p = st.pop()
        if not z3.is_app(e):
            continue
        i = e.get_id()
        old = pol.get(i, 0)
        if old | p == old:
            continue
        pol[i] = old | p
        k = e.decl().kind()
        if not e.num_args():
            continue
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            st.extend((c, p) for c in e.children())
        elif k == z3.Z3_OP_NOT:
            st.append((e.arg(0), {1: 2, 2: 1, 3: 3}[p]))
        elif k == z3.Z3_OP_IMPLIES:
            st.append((e.arg(0), {1: 2, 2: 1, 3: 3}[p]))
            st.append((e.arg(1), p))
        elif k == z3.Z3_OP_ITE and e.sort() == z3.BoolSort():
            st.append((e.arg(0), 3))
            st.extend((c, p) for c in e.children()[1:])
        else:
            st.extend((c, 3) for c in e.children())


def instantiate_upreds(ups, terms, done, pol):
    """u -> body(t) for every term t where u occurs as a fact; not u -> not body(witness) where it occurs as something to show"""
    out = []
    for u in list(ups):
        if not pol.get(u.get_id(), 3) & 2:
            continue
        P = UPREDS[u.decl().name()]
        args = [u.arg(i) for i in range(u.num_args())]
        key = ('neg', u.get_id())
        if key not in done:
            done.add(key)
            ws = [w(*args) for w in P.wit]
            body = nthnorm(P.body(*args, *ws))
            polarity(body, 2, pol)
            out.append(z3.Implies(z3.Not(u), z3.Not(body)))
            if P.match is not None:
                terms.setdefault(P, {})[tuple(w.get_id() for w in ws)] = tuple(ws)
            for w, b in zip(ws, P.cls):
                terms.setdefault(b, {})[w.get_id()] = w
    for u in list(ups):
        if not pol.get(u.get_id(), 3) & 1:
            continue
        P = UPREDS[u.decl().name()]
        args = [u.arg(i) for i in range(u.num_args())]
        combos = [()] if P.match is None else list(terms.get(P, {}).values())
        for b in P.cls if P.match is None else ():
            ts = list(terms.get(b, {}).values())
            combos = [c + (t,) for c in combos for t in ts]
            if len(combos) > 4000:
                combos = combos[:4000]
        for c in combos:
            key = (u.get_id(),) + tuple(t.get_id() for t in c)
            if key in done:
                continue
            done.add(key)
            body = nthnorm(P.body(*args, *c))
            polarity(body, 1, pol)
            out.append(z3.Implies(u, body))
    return out


# ------------------------------------------------------------------------------- prover


class Stats:
    def __init__(self):
        self.time = 0.0
        self.queries = 0
        self.by = {}


STATS = Stats()


def _cvc5(smt, timeout):
    smt = smt.replace('seq.nth_i', 'seq.nth').replace('seq.nth_u', 'seq.nth')     # z3's split of nth, guarded by the range test
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + smt + '\n(check-sat)\n' if '(check-sat)' not in smt else '(set-logic ALL)\n' + smt)
        p = f.name
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), '--strings-exp', p],
                           capture_output=True, text=True, timeout=timeout + 5)
        o = r.stdout.strip().split('\n')[0] if r.stdout.strip() else 'unknown'
        return o if o in ('sat', 'unsat') else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(p)


_CONSTS = {}


def consts_of(e):
    """the uninterpreted constants of a formula"""
    hit = _CONSTS.get(e.get_id())
    if hit is not None and hit[0].eq(e):
        return hit[1]
    out, seen, todo = set(), set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            todo.extend(x.children())
    if len(_CONSTS) > 200000:
        _CONSTS.clear()
    _CONSTS[e.get_id()] = (e, out)
    return out


def slices(assumptions, goal):
    """smaller sets of hypotheses to try first: those that speak about the constants of the goal only, then those that mention one"""
    g = consts_of(goal)
    cs = [(a, consts_of(a)) for a in assumptions]
    only = [a for a, c in cs if c <= g]
    grown = set(g)
    for a, c in cs:
        if len(c - g) == 1 and c & g and z3.is_eq(a):
            grown |= c
    near = [a for a, c in cs if c <= grown]
    some = [a for a, c in cs if c & g or not c]
    out = []
    for x in (only, near, some):
        if len(x) < len(cs) and all(len(x) != len(y) for y in out):
            out.append(x)
    return out


def prove(assumptions, goal, timeout=10, fuel=2, portfolio=True):
    """-> (status, backend, model_or_None); status in proved / refuted / unknown.
    Stages of increasing unfolding; an early stage can only prove (fewer hypotheses), the last one can refute."""
    t0 = time.time()
    STATS.queries += 1
    goal = nthnorm(lift_ites(nthnorm(goal)))
    base = list(assumptions) + [z3.Not(goal)]
    res = None

    def z3run(fs, tmo):
        s = z3.Solver()
        s.set('timeout', int(tmo * 1000))
        s.set('random_seed', 0)
        s.add(fs)
        r = s.check()
        return r, (s.model() if r == z3.sat else None)
    if fuel > 1:
        if z3run(base + unfoldings(base, 1), min(1.0, timeout))[0] == z3.unsat:
            res = ('proved', 'z3', None)
    if res is None and portfolio is not None:
        for part in slices(list(assumptions), goal):
            fs = part + [z3.Not(goal)]
            if z3run(fs + unfoldings(fs, fuel), min(1.0, timeout))[0] == z3.unsat:
                res = ('proved', 'z3', None)
                break
    if res is None:
        fs = base + unfoldings(base, fuel)
        smt = None
        for be, tmo in (('z3', min(2.0, timeout)), ('cvc5', min(3.0, timeout)), ('z3', timeout if timeout > 2 else 0), ('cvc5', min(timeout, 20) if portfolio else 0)):
            if tmo <= 0:
                continue
            if be == 'z3':
                r, m = z3run(fs, tmo)
                r = str(r)
            else:
                if smt is None:
                    s = z3.Solver()
                    s.add(fs)
                    smt = s.to_smt2()
                r, m = _cvc5(smt, tmo), None
            if r == 'unsat':
                res = ('proved', be, None)
                break
            if r == 'sat':
                res = ('refuted', be, m)
                break
        if res is None:
            res = ('unknown', 'z3+cvc5', None)
    dt = time.time() - t0
    STATS.time += dt
    if SLOW and dt > SLOW:
        if os.environ.get('PYDED_DUMP'):
            fs = base + unfoldings(base, fuel)
            s = z3.Solver()
            s.add(fs)
            open(os.path.join(os.environ['PYDED_DUMP'], 'q%d.smt2' % STATS.queries), 'w').write(s.to_smt2())
            print('   dumped q%d: %d formulas' % (STATS.queries, len(fs)))
        print('   slow %.1fs %s goal %s' % (dt, res[0], str(goal)[:300].replace('\n', ' ')))
    return res


SLOW = float(os.environ.get('PYDED_SLOW', '0'))


def feasible(pc, timeout=1.0):
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    s.add(pc)
    t0 = time.time()
    r = s.check()
    STATS.time += time.time() - t0
    return r != z3.unsat


def has_ite(x):
    """does the term contain an if-then-else (not allowed in quantifier patterns)"""
    seen, todo = set(), [x]
    while todo:
        y = todo.pop()
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        if z3.is_app(y):
            if y.decl().kind() == z3.Z3_OP_ITE or z3.is_bool(y):
                return True
            todo += y.children()
    return False
