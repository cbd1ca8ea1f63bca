"""pyded: a small deductive verifier for the Python subset /repo uses.

Symbolic execution of the real function bodies (extracted from /repo's current source on every
run) with contracts for callees, loop invariants (template instances filtered to an inductive set,
each instance a discharged obligation), and z3/cvc5 as back ends.  No loop is unrolled unless it runs over a
list literal; no input is bounded.
"""
import ast, itertools
import z3
from .smt import *
from .loader import Repo


class Unsupported(Exception):
    """Construct or aliasing pattern outside the verified subset."""


BOT = Ty('bot')

# ------------------------------------------------------------------------------- values


class Value:
    pass


class Z(Value):
    __slots__ = ('t', 'ty')

    def __init__(self, t, ty):
        self.t, self.ty = t, ty

    def __repr__(self):
        return 'Z(%s:%s)' % (self.t, self.ty)


class _VNone(Value):
    def __repr__(self):
        return 'None'


VNone = _VNone()


class VUndef(Value):
    pass


class VTup(Value):
    def __init__(self, items):
        self.items = list(items)


class VPl(Value):
    """reference to a mutable list/dict/set/object living at a place"""
    def __init__(self, place):
        self.place = place


class VFunc(Value):
    def __init__(self, node, mod, fid, name, cls=None):
        self.node, self.mod, self.fid, self.name, self.cls = node, mod, fid, name, cls


class VMethod(Value):
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class VClass(Value):
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name


class VExt(Value):
    def __init__(self, dotted):
        self.dotted = dotted


class VBuiltin(Value):
    def __init__(self, name):
        self.name = name


class VBMethod(Value):
    """builtin method of a container/string"""
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class VPy(Value):
    """contract-level callable: fn(engine, st, args, kwargs) -> [(st, Value)]"""
    def __init__(self, fn, name='?'):
        self.fn, self.name = fn, name


class VStar(Value):
    """the rest of the positional arguments, as one (symbolic) sequence"""
    def __init__(self, v):
        self.v = v


class VView(Value):
    """lazy iterable: n(st) -> Int term, get(st, i) -> [(st, Value)]"""
    def __init__(self, n, get, kind='view', src=None):
        self.n, self.get, self.kind, self.src = n, get, kind, src


class VSuper(Value):
    def __init__(self, self_, cls_mod, cls_node):
        self.self_, self.cls_mod, self.cls_node = self_, cls_mod, cls_node


def uf(name, argtys, ret, types):
    """an arbitrary pure callable parameter"""
    f = z3.Function(name, *[types.sort(t) for t in argtys], types.sort(ret))

    def call(eng, st, args, kw):
        if len(args) != len(argtys):
            raise Unsupported('arity of ' + name)
        return [(st, eng.lift(st, f(*[eng.lower(st, a, t) for a, t in zip(args, argtys)]), ret))]
    v = VPy(call, name)
    v.f = f
    return v


# ------------------------------------------------------------------------------- places


class Root:
    __slots__ = ('oid',)

    def __init__(self, oid):
        self.oid = oid


class Lens:
    def __init__(self, parent, proj, ty, snap=None, ver=None):
        self.parent, self.proj, self.ty, self.snap, self.ver = parent, proj, ty, snap, ver


# contents of roots (immutable tuples)
#  ('L', term, ety)  ('LC', (values))  ('D', term, kty, vty)  ('DC', ((k,v),...))
#  ('S', term, kty)  ('SC', (values))  ('O', clsname, {field: Value})


class State:
    def __init__(self):
        self.frames = {}
        self.store = {}
        self.heap = {}
        self.pc = []
        self.moved = frozenset()
        self.ver = {}
        self.calls = ()        # stack of fids
        self.excname = None
        self.clock = z3.IntVal(0)
        self.path = ()

    def clone(self):
        s = State()
        s.frames = {k: (dict(d), p) for k, (d, p) in self.frames.items()}
        s.store = dict(self.store)
        s.heap = dict(self.heap)
        s.pc = list(self.pc)
        s.moved = self.moved
        s.ver = dict(self.ver)
        s.calls = self.calls
        s.clock = self.clock
        s.path = self.path
        return s

    def assume(self, *fs):
        for f in fs:
            if z3.is_true(f):
                continue
            self.pc.append(f)
        return self


class Atom:
    def __init__(self, name, ty, get, modified):
        self.name, self.ty, self.get, self.modified = name, ty, get, modified

    def __call__(self, st):
        return self.get(st)


class LoopInfo:
    def __init__(self, eng, st0, head, atoms, node, fname):
        self.eng, self.entry, self.head, self.atoms, self.node, self.fname = eng, st0, head, atoms, node, fname

    def mods(self, ty):
        return [a for a in self.atoms if a.modified and a.ty == ty]

    def all(self, ty):
        return [a for a in self.atoms if a.ty == ty]

    def counters(self):
        """the hidden index of a for loop; every modified integer for a loop without one"""
        m = self.mods(INT)
        return [a for a in m if a.name.startswith('$i')] or m

    def iterated(self, ty):
        """the sequence the for loop runs over"""
        return [a for a in self.fixed(ty) if a.name.startswith('$s')]

    def fixed(self, ty):
        return [a for a in self.atoms if not a.modified and a.ty == ty]


class Obligation:
    def __init__(self, name, status, backend, line, func, detail=''):
        self.name, self.status, self.backend, self.line, self.func, self.detail = name, status, backend, line, func, detail


BUILTINS = {'len', 'range', 'list', 'dict', 'set', 'sorted', 'min', 'max', 'sum', 'any', 'all', 'map', 'filter',
            'zip', 'enumerate', 'int', 'float', 'str', 'bool', 'tuple', 'print', 'isinstance', 'hash', 'type', 'iter',
            'reversed', 'abs', 'super', 'ord', 'repr', 'frozenset', 'next', 'id', 'callable', 'object',
            'ValueError', 'TypeError', 'KeyError', 'IndexError', 'NotImplementedError', 'OverflowError', 'Exception',
            'AssertionError', 'RuntimeError', 'StopIteration', 'AttributeError', 'FileNotFoundError'}
EXC = {b for b in BUILTINS if b.endswith('Error') or b in ('Exception', 'StopIteration')}


class Engine:
    def __init__(self, root='/repo'):
        self.repo = Repo(root)
        self.types = Types()
        self.mode = 'final'
        self.obls = []
        self.contracts = {}       # 'module:qual' -> handler(eng, st, args(dict), VFunc) -> [(st,val)]
        self.makers = {}          # class name -> handler(eng, st, args, kw) -> [(st,val)] or None: contract of a constructor
        self.ext = {}             # dotted external -> handler(eng, st, args, kw)
        self.templates = []       # fn(LoopInfo) -> iterable of (desc, fn(st)->Bool)
        self.keytypes = {}        # literal payload key -> Ty
        self.axioms = []          # ground facts valid everywhere
        self.literals = {}
        self.oid = itertools.count(1)
        self.fidc = itertools.count(1)
        self.writelogs = []
        self.raised = []
        self.houdini_cache = {}
        self.inlined = set()
        self.msglists = set()      # roots of repeated message fields
        self.assumed = set()
        self.timeout = 10
        self.fuel = 2
        self.branches = 0
        self.max_branches = 60000
        self.enums = {}
        self.cur_line = 0
        self.loops = 0
        self.kept_invs = []
        self.deadline = None
        self.lost_unknown = set()
        self.isinst = {}           # (reference class, class name) -> fn(term) -> Bool, for references of unknown dynamic class
        self.upd_light = False     # element-wise axioms only for list item assignment
        self.deep_fn = None        # type -> function naming deep copies of it
        self.patient = False       # search long for every loop invariant candidate

    # ------------------------------------------------------------------ small helpers
    def sort(self, t):
        return self.types.sort(t)

    def const(self, name, ty):
        return z3.Const(name, self.sort(ty))

    def fresh(self, base, ty):
        return z3.Const(fresh_name(base), self.sort(ty))

    def I(self, n):
        return Z(z3.IntVal(n), INT)

    def B(self, b):
        return Z(z3.BoolVal(bool(b)) if isinstance(b, bool) else b, BOOL)

    def lit(self, s):
        if s not in self.literals:
            c = z3.Const('str:' + s, self.sort(STR))
            for o in self.literals.values():
                self.axioms.append(c != o)
            self.literals[s] = c
        return Z(self.literals[s], STR)

    def litname(self, t):
        for k, v in self.literals.items():
            if v.eq(t):
                return k
        return None

    def new_root(self, st, content):
        o = next(self.oid)
        st.store[o] = content
        st.ver[o] = 0
        return VPl(Root(o))

    def birth(self, cls):
        return z3.Function('birth_' + cls, self.sort(TRef(cls)), z3.IntSort())

    def new_ref(self, st, cls):
        """allocate an identity object: its birth stamp is the current (ever increasing) allocation clock"""
        r = self.fresh('new_' + cls, TRef(cls))
        st.assume(self.birth(cls)(r) == st.clock)
        st.clock = simp(st.clock + 1)
        self.log(('clock',))
        return r

    def log(self, key):
        for w in self.writelogs:
            w.add(key)

    # ------------------------------------------------------------------ types of values
    def typeof(self, st, v):
        if isinstance(v, Z):
            return v.ty
        if v is VNone:
            return NONE
        if isinstance(v, VTup):
            return TTup(*[self.typeof(st, x) for x in v.items])
        if isinstance(v, VPl):
            p = v.place
            if isinstance(p, Lens):
                return p.ty
            c = st.store[p.oid]
            k = c[0]
            if k == 'L':
                return TList(c[2])
            if k == 'LC':
                e = BOT
                for x in c[1]:
                    e = self.join(e, self.typeof(st, x))
                return TList(e)
            if k == 'D':
                return TDict(c[2], c[3])
            if k == 'DC':
                a = b = BOT
                for x, y in c[1]:
                    a, b = self.join(a, self.typeof(st, x)), self.join(b, self.typeof(st, y))
                return TDict(a, b)
            if k == 'S':
                return TSet(c[2])
            if k == 'SC':
                e = BOT
                for x in c[1]:
                    e = self.join(e, self.typeof(st, x))
                return TSet(e)
            if k == 'O':
                return TObj(c[1])
        if isinstance(v, VView):
            raise Unsupported('type of a lazy iterable')
        return Ty('py')

    def join(self, a, b):
        if a == b:
            return a
        if a.k == 'bot':
            return b
        if b.k == 'bot':
            return a
        if a.k == 'none':
            return TOpt(b)
        if b.k == 'none':
            return TOpt(a)
        if a.k == 'opt' or b.k == 'opt':
            x = self.join(a.a[0] if a.k == 'opt' else a, b.a[0] if b.k == 'opt' else b)
            return TOpt(x)
        if {a.k, b.k} == {'int', 'real'}:
            return REAL
        if {a.k, b.k} == {'int', 'bool'}:
            return INT
        if a.k == b.k and len(a.a) == len(b.a) and a.k in ('list', 'set', 'dict', 'tup'):
            return Ty(a.k, *[self.join(x, y) for x, y in zip(a.a, b.a)])
        if a.k == 'any' or b.k == 'any':
            return ANY
        raise Unsupported('incompatible types %r and %r' % (a, b))

    def has_bot(self, t):
        return t.k == 'bot' or any(isinstance(x, Ty) and self.has_bot(x) for x in t.a)

    # ------------------------------------------------------------------ lift / lower
    def inj(self, ty):
        f = z3.Function('inj_' + self.types.name(ty), self.sort(ty), self.sort(ANY))
        return f

    def proj(self, ty):
        return z3.Function('proj_' + self.types.name(ty), self.sort(ANY), self.sort(ty))

    def is_container(self, ty):
        return ty.k in ('list', 'dict', 'set', 'obj')

    def lift(self, st, term, ty, place=None):
        """z3 term of type ty -> Value (a mutable one becomes a fresh root, or a lens if place is given)"""
        k = ty.k
        if k == 'none':
            return VNone
        if k == 'tup':
            s = self.sort(ty)
            return VTup([self.lift(st, s.accessor(0, i)(term), x) for i, x in enumerate(ty.a)])
        if self.is_container(ty):
            if place is not None:
                return VPl(place)
            return self.root_of_term(st, term, ty)
        return Z(term, ty)

    def root_of_term(self, st, term, ty):
        k = ty.k
        if k == 'list':
            return self.new_root(st, ('L', term, ty.a[0]))
        if k == 'dict':
            return self.new_root(st, ('D', term, ty.a[0], ty.a[1]))
        if k == 'set':
            return self.new_root(st, ('S', term, ty.a[0]))
        if k == 'obj':
            s = self.sort(ty)
            fs = {}
            for i, (f, ft) in enumerate(self.types.obj[ty.a[0]]):
                fs[f] = self.lift(st, simp(s.accessor(0, i)(term)), ft)
            return self.new_root(st, ('O', ty.a[0], fs))
        raise Unsupported('root of ' + repr(ty))

    def lower(self, st, v, ty, move=False):
        k = ty.k
        if isinstance(v, Z):
            if v.ty == ty:
                return v.t
            if v.ty.k == 'int' and k == 'real':
                return z3.ToReal(v.t)
            if v.ty.k == 'bool' and k == 'int':
                return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
            if v.ty.k == 'enum' and k == 'int' or v.ty.k == 'int' and k == 'enum':
                return v.t
            if k == 'opt':
                if v.ty.k == 'opt':
                    raise Unsupported('lower %r to %r' % (v.ty, ty))
                return self.sort(ty).some(self.lower(st, v, ty.a[0]))
            if v.ty.k == 'opt' and v.ty.a[0] == ty:
                self.oblige(st, z3.Not(self.sort(v.ty).is_none(v.t)), 'value is not None')
                return self.sort(v.ty).val(v.t)
            if k == 'any':
                return self.to_any(v.t, v.ty)
            if v.ty.k == 'any':
                return self.proj(ty)(v.t)
            raise Unsupported('lower %r to %r' % (v.ty, ty))
        if v is VNone:
            if k == 'opt':
                return self.sort(ty).none
            if k == 'none':
                return z3.Const('NoneC', self.sort(NONE))
            if k == 'any':
                return z3.Const('any_None', self.sort(ANY))
            raise Unsupported('None where %r expected' % ty)
        if k == 'opt':
            return self.sort(ty).some(self.lower(st, v, ty.a[0], move))
        if k == 'any':
            t = self.typeof(st, v)
            if t.k == 'py':
                raise Unsupported('callable stored as data')
            if self.has_bot(t):
                return z3.Const('any_empty_' + t.k, self.sort(ANY))
            return self.to_any(self.lower(st, v, t, move), t)
        if isinstance(v, VTup):
            if k == 'tup' and len(ty.a) == len(v.items):
                return self.sort(ty).mk(*[self.lower(st, x, t, move) for x, t in zip(v.items, ty.a)])
            raise Unsupported('tuple as %r' % ty)
        if isinstance(v, VPl):
            if move and isinstance(v.place, Root):
                st.moved = st.moved | {v.place.oid}
                self.log(('moved', v.place.oid))
            return self.read(st, v.place, ty, move)
        if isinstance(v, VView):
            raise Unsupported('lazy iterable stored')
        raise Unsupported('lower %s to %r' % (type(v).__name__, ty))

    def to_any(self, t, ty):
        name = 'inj_' + self.types.name(ty)
        if name not in SPECS:
            pj = self.proj(ty)
            SpecFn(name, [self.sort(ty)], self.sort(ANY), lambda x: [pj(SPECS[name].f(x)) == x])
        return SPECS[name].f(t)

    def axioms_add(self, ax):
        if not any(ax.eq(x) for x in self.axioms[-50:]):
            self.axioms.append(ax)

    # ------------------------------------------------------------------ reading and writing places
    def seq_of(self, st, vals, ety, move=False):
        s = self.sort(TList(ety))
        if not vals:
            return z3.Empty(s)
        us = [z3.Unit(self.lower(st, v, ety, move)) for v in vals]
        return us[0] if len(us) == 1 else z3.Concat(*us)

    def empty_dict(self, ty):
        s = self.sort(ty)
        ks, vs = self.sort(ty.a[0]), self.sort(ty.a[1])
        dflt = z3.Const('dflt_' + self.types.name(ty), z3.ArraySort(ks, vs))     # what absent keys map to is irrelevant
        return s.mk(z3.Empty(z3.SeqSort(ks)), z3.K(ks, z3.BoolVal(False)), dflt)

    def read(self, st, place, ty=None, move=False):
        """current z3 term of a place"""
        if isinstance(place, Root):
            c = st.store[place.oid]
            k = c[0]
            if k == 'L':
                if ty is not None and ty.k == 'list' and ty.a[0] != c[2]:
                    raise Unsupported('list of %r used as %r' % (c[2], ty))
                return c[1]
            if k == 'LC':
                ety = ty.a[0] if ty is not None and ty.k == 'list' else self.typeof(st, VPl(place)).a[0]
                return self.seq_of(st, c[1], ety, move)
            if k == 'D':
                return c[1]
            if k == 'DC':
                t = ty if ty is not None and ty.k == 'dict' else self.typeof(st, VPl(place))
                d = self.empty_dict(t)
                for a, b in c[1]:
                    d = self.d_store(t, d, self.lower(st, a, t.a[0]), self.lower(st, b, t.a[1], move))
                return d
            if k == 'S':
                return c[1]
            if k == 'SC':
                e = (ty if ty is not None and ty.k == 'set' else self.typeof(st, VPl(place))).a[0]
                a = z3.K(self.sort(e), z3.BoolVal(False))
                for x in c[1]:
                    a = z3.Store(a, self.lower(st, x, e), z3.BoolVal(True))
                return a
            if k == 'O':
                s = self.sort(TObj(c[1]))
                if ty is not None and ty.k == 'obj' and ty.a[0] != c[1]:
                    raise Unsupported('object %s used as %r' % (c[1], ty))
                out = []
                for f, ft in self.types.obj[c[1]]:
                    if f not in c[2]:
                        raise Unsupported('field %s unset' % f)
                    out.append(self.lower(st, c[2][f], ft, move))
                return s.mk(*out)
        # lens
        if place.ver is not None and not self.lens_live(st, place):
            return place.snap
        k = place.proj[0]
        if k == 'heap':
            return z3.Select(st.heap[(place.proj[1], place.proj[2])], place.proj[3])
        par = self.read(st, place.parent)
        if k == 'idx':
            return nth(par, place.proj[1])
        if k == 'key':
            pt = self.ptype(st, place.parent)
            return z3.Select(self.sort(pt).val(par), place.proj[1])
        if k == 'field':
            s = par.sort()
            cls = self.ptype(st, place.parent).a[0]
            i = [f for f, _ in self.types.obj[cls]].index(place.proj[1])
            return s.accessor(0, i)(par)
        if k == 'proj':    # typed projection of an ANY cell
            return self.proj(place.ty)(par)
        if k == 'optval':
            return self.sort(TOpt(place.ty)).val(par)
        raise Unsupported('lens')

    def ptype(self, st, place):
        return self.typeof(st, VPl(place))

    def lens_root(self, place):
        while isinstance(place, Lens):
            if place.proj[0] == 'heap':
                return None
            place = place.parent
        return place.oid

    def lens_live(self, st, place):
        r = self.lens_root(place)
        return r is None or st.ver.get(r) == place.ver

    def mk_lens(self, st, parent, proj, ty):
        l = Lens(parent, proj, ty)
        r = self.lens_root(l)
        l.ver = st.ver.get(r) if r is not None else None
        l.snap = self.read(st, l)
        return l

    def write(self, st, place, term, structural=False):
        """replace the whole content of a place by a term of its type"""
        if isinstance(place, Root):
            if place.oid in st.moved:
                raise Unsupported('mutation of an object after it was stored in a container')
            c = st.store[place.oid]
            self.log(('obj', place.oid))
            if c[0] in ('L',):
                st.store[place.oid] = ('L', term, c[2])
            elif c[0] == 'D':
                st.store[place.oid] = ('D', term, c[2], c[3])
            elif c[0] == 'S':
                st.store[place.oid] = ('S', term, c[2])
            else:
                raise Unsupported('write into ' + c[0])
            if structural:
                st.ver[place.oid] = next(self.oid)
            return
        if place.ver is not None and not self.lens_live(st, place):
            raise Unsupported('mutation through a stale reference')
        k = place.proj[0]
        if k == 'heap':
            key = (place.proj[1], place.proj[2])
            st.heap[key] = z3.Store(st.heap[key], place.proj[3], term)
            self.log(('heap',) + key)
            return
        if k == 'idx':
            par = self.read(st, place.parent)
            i = place.proj[1]
            new = self.seq_update(par, i, term)
            self.write(st, place.parent, new)
        elif k == 'key':
            pt = self.ptype(st, place.parent)
            s = self.sort(pt)
            par = self.read(st, place.parent)
            self.write(st, place.parent, s.mk(s.keys(par), s.has(par), z3.Store(s.val(par), place.proj[1], term)))
        elif k == 'field':
            pt = self.ptype(st, place.parent)
            s = self.sort(pt)
            par = self.read(st, place.parent)
            fs = self.types.obj[pt.a[0]]
            self.write(st, place.parent, s.mk(*[term if f == place.proj[1] else s.accessor(0, i)(par) for i, (f, _) in enumerate(fs)]))
        elif k == 'proj':
            self.write(st, place.parent, self.to_any(term, place.ty))
        elif k == 'optval':
            self.write(st, place.parent, self.sort(TOpt(place.ty)).some(term))
        else:
            raise Unsupported('lens write')

    def seq_update(self, s, i, x):
        f = self.upd_fn(s.sort())
        return f(s, i, x)

    def upd_fn(self, ss):
        name = 'upd_' + str(ss)
        if name in SPECS:
            return SPECS[name]

        def d(s, i, x):
            me = SPECS[name].f(s, i, x)
            return [z3.Implies(z3.And(i >= 0, i < z3.Length(s)) if not self.upd_light else z3.BoolVal(False),
                               me == z3.Concat(z3.Extract(s, z3.IntVal(0), i), z3.Unit(x),
                                               z3.Extract(s, i + 1, z3.Length(s) - i - 1))),
                    z3.Length(me) == z3.Length(s)]
        f = SpecFn(name, [ss, z3.IntSort(), ss.basis()], ss, d)

        def nth(a):
            if a.decl().kind() == z3.Z3_OP_SEQ_NTH and z3.is_app(a.arg(0)) and a.arg(0).decl().name() == name:
                u, k = a.arg(0), a.arg(1)
                s, i, x = u.arg(0), u.arg(1), u.arg(2)
                return [z3.Implies(z3.And(i >= 0, i < z3.Length(s), k >= 0, k < z3.Length(s)), a == z3.If(k == i, x, s[k]))]
        LEMMAS.append(nth)
        return f

    # ------------------------------------------------------------------ obligations
    def facts(self, st):
        return self.axioms + st.pc

    def oblige(self, st, goal, name):
        g = simp(goal)
        if z3.is_true(g):
            if self.mode == 'final':
                self.obls.append(Obligation(name, 'proved', 'simplify', self.cur_line, self.cur_func()))
            return
        if self.mode == 'final':
            r, be, m = prove(self.facts(st), goal, self.timeout, self.fuel)
            self.obls.append(Obligation(name, r, be, self.cur_line, self.cur_func(), '' if r == 'proved' else self.explain(st, goal, m)))
        st.assume(goal)

    def explain(self, st, goal, m):
        out = ['goal: %s' % str(goal)[:600]]
        if m is not None:
            out.append('solver model: ' + str(m)[:2500])
        return '\n'.join(out)

    fstack = ('?',)
    sites = ()
    memo = frozenset()      # loop-invariant candidates already given up at this loop, on this path

    def cur_func(self):
        return self.fstack[-1]

    def branch(self, st, cond):
        """-> [(state, bool)] feasible sides"""
        c = simp(cond)
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        self.branches += 1
        if self.branches > self.max_branches:
            raise Unsupported('too many paths')
        import time as _t
        if self.deadline is not None and _t.time() > self.deadline:
            raise Unsupported('verification time budget exhausted')
        out = []
        a = st.clone().assume(cond)
        b = st.assume(z3.Not(cond))
        a.path, b.path = a.path + ((self.cur_line, True),), b.path + ((self.cur_line, False),)
        if feasible(self.facts(a)):
            out.append((a, True))
        if feasible(self.facts(b)):
            out.append((b, False))
        return out

    # ------------------------------------------------------------------ truthiness
    def truth(self, st, v):
        if isinstance(v, Z):
            if v.ty.k == 'bool':
                return v.t
            if v.ty.k in ('int', 'enum'):
                return v.t != 0
            if v.ty.k == 'real':
                return v.t != 0
            if v.ty.k == 'opt':
                s = self.sort(v.ty)
                inner = v.ty.a[0]
                if inner.k in ('obj', 'ref'):
                    return z3.Not(s.is_none(v.t))
                return z3.And(z3.Not(s.is_none(v.t)), self.truth(st, self.lift(st, s.val(v.t), inner)))
            if v.ty.k == 'ref':
                return z3.BoolVal(True)
            if v.ty.k == 'str':
                return v.t != self.lit('').t
            if v.ty.k == 'any':   # nothing is known of the truth of an unknown value, but None is false
                return z3.And(v.t != self.lower(st, VNone, v.ty), z3.Function('TRUTH', self.sort(v.ty), z3.BoolSort())(v.t))
        if v is VNone:
            return z3.BoolVal(False)
        if isinstance(v, VTup):
            return z3.BoolVal(bool(v.items))
        if isinstance(v, VPl):
            t = self.typeof(st, v)
            if t.k == 'obj':
                m = self.find_method(t.a[0], '__len__')
                if m is None:
                    return z3.BoolVal(True)
            return self.length(st, v) > 0
        if isinstance(v, (VFunc, VMethod, VPy, VClass)):
            return z3.BoolVal(True)
        raise Unsupported('truth of ' + type(v).__name__)

    # ------------------------------------------------------------------ classes
    def find_class(self, name):
        for m in list(self.repo.mods.values()):
            d = m.names.get(name)
            if d and d[0] == 'class':
                return m, d[1]
        return None

    def bases(self, mod, node):
        out = []
        for b in node.bases:
            if isinstance(b, ast.Name):
                r = self.repo.resolve(mod.name, b.id)
                if r and r[0] == 'class':
                    out.append((r[1], r[2]))
        return out

    def mro(self, mod, node):
        out = [(mod, node)]
        for b in self.bases(mod, node):
            out += [x for x in self.mro(*b) if x not in out]
        return out

    def class_named(self, cname):
        c = getattr(self, '_classes', {}).get(cname)
        if c:
            return c
        return self.find_class(cname)

    def find_method(self, cname, meth, after=None):
        c = self.class_named(cname)
        if c is None:
            return None
        seq = self.mro(*c)
        if after is not None:
            seq = seq[[n for _, n in seq].index(after) + 1:]
        for m, n in seq:
            for x in n.body:
                if isinstance(x, ast.FunctionDef) and x.name == meth:
                    return m, n, x
        return None

    def is_dataclass(self, node):
        for d in node.decorator_list:
            if isinstance(d, ast.Name) and d.id == 'dataclass' or isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'dataclass':
                return True
        return False

    def is_enum(self, mod, node):
        return any(isinstance(b, ast.Name) and b.id == 'Enum' for b in node.bases)

    def enum_member(self, cls, name):
        members = [t.id for s in cls.node.body if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)]
        if name not in members:
            return None
        self.enums[cls.name] = members
        return Z(z3.IntVal(members.index(name)), TEnum(cls.name))

    def decorators(self, fn):
        return [d.id for d in fn.decorator_list if isinstance(d, ast.Name)]

    # ------------------------------------------------------------------ frames
    def new_frame(self, st, parent, names=None):
        f = next(self.fidc)
        st.frames[f] = (dict(names or {}), parent)
        return f

    def lookup(self, st, fid, name, mod):
        f = fid
        while f is not None:
            d, p = st.frames[f]
            if name in d:
                v = d[name]
                if isinstance(v, VUndef):
                    raise Unsupported('variable %s may be unassigned' % name)
                return v
            f = p
        g = ('mod', mod.name)
        if g in st.frames and name in st.frames[g][0]:
            return st.frames[g][0][name]
        return self.global_value(st, mod, name)

    def global_value(self, st, mod, name):
        r = self.repo.resolve(mod.name, name)
        if r is None:
            if name in BUILTINS:
                return VBuiltin(name)
            raise Unsupported('name %s not found' % name)
        if r[0] == 'func':
            return VFunc(r[2], r[1], None, r[2].name)
        if r[0] == 'class':
            self._classes = getattr(self, '_classes', {})
            self._classes[r[2].name] = (r[1], r[2])
            return VClass(r[1], r[2])
        if r[0] == 'ext':
            if getattr(self.ext.get(r[1]), 'is_value', False):
                return self.ext[r[1]](self, st)
            return VExt(r[1])
        if r[0] == 'assign':
            key = ('glob', r[1].name, name)
            if key in self.ext:
                return self.ext[key](self, st)
            e = r[2]
            if isinstance(e, ast.Lambda):
                return VFunc(e, r[1], None, '<lambda>')
            f = self.new_frame(st, None)
            old = st.calls
            res = self.ev(e, st, f, r[1])
            if len(res) != 1:
                raise Unsupported('module constant ' + name)
            return res[0][1]
        raise Unsupported('global ' + name)

    def setvar(self, st, fid, name, v):
        d, p = st.frames[fid]
        nl = d.get('$nonlocal', ())
        if name in nl:
            f = p
            while f is not None and name not in st.frames[f][0]:
                f = st.frames[f][1]
            if f is None:
                raise Unsupported('nonlocal ' + name)
            fid = f
        gl = d.get('$global', ())
        if name in gl:
            g = ('mod', d['$mod'])
            if g not in st.frames:
                st.frames[g] = ({}, None)
            st.frames[g][0][name] = v
            self.log(('var', g, name))
            return
        st.frames[fid][0][name] = v
        self.log(('var', fid, name))
