"""Container operations, builtins, expressions, statements and loops of the engine."""
import ast
import z3
from .smt import *
from .engine import *
from .engine import Engine as _E


class Ops(_E):
    # ------------------------------------------------------------------ dict terms
    def d_store(self, t, d, k, v):
        s = self.sort(t)
        name = 'dstore_' + self.types.name(t)
        if name not in SPECS:
            def defn(d, k, v):
                me = SPECS[name].f(d, k, v)
                return [s.has(me) == z3.Store(s.has(d), k, z3.BoolVal(True)), s.val(me) == z3.Store(s.val(d), k, v),
                        s.keys(me) == z3.If(z3.Select(s.has(d), k), s.keys(d), z3.Concat(s.keys(d), z3.Unit(k)))]
            SpecFn(name, [s, s.keys(d).sort().basis(), v.sort()], s, defn)
        return SPECS[name].f(d, k, v)

    def d_store_now(self, t, d, k, v):
        s = self.sort(t)
        keys = z3.If(z3.Select(s.has(d), k), s.keys(d), z3.Concat(s.keys(d), z3.Unit(k)))
        return s.mk(keys, z3.Store(s.has(d), k, z3.BoolVal(True)), z3.Store(s.val(d), k, v))

    def seq_remove_fn(self, ss):
        """list without the first occurrence of x (x present)"""
        name = 'rem_' + str(ss)
        if name in SPECS:
            return SPECS[name]

        def d(s, x):
            me = SPECS[name].f(s, x)
            return [z3.Length(me) == z3.If(z3.Contains(s, z3.Unit(x)), z3.Length(s) - 1, z3.Length(s))]
        return SpecFn(name, [ss, ss.basis()], ss, d)

    def card_fn(self, ks):
        name = 'card_' + str(ks)
        if name in SPECS:
            return SPECS[name]

        def d(a):
            me = SPECS[name].f(a)
            out = [me >= 0, (me == 0) == (a == z3.K(ks, z3.BoolVal(False)))]
            if z3.is_store(a):
                base, k, v = a.arg(0), a.arg(1), a.arg(2)
                b = SPECS[name].f(base)
                if z3.is_true(v):
                    out.append(me == z3.If(z3.Select(base, k), b, b + 1))
                elif z3.is_false(v):
                    out.append(me == z3.If(z3.Select(base, k), b - 1, b))
            return out
        return SpecFn(name, [z3.ArraySort(ks, z3.BoolSort())], z3.IntSort(), d)

    def enum_fn(self, ks):
        """some enumeration of a finite set, each element once"""
        name = 'enum_' + str(ks)
        if name in SPECS:
            return SPECS[name]
        card = self.card_fn(ks)

        def d(a):
            me = SPECS[name].f(a)
            return [z3.Length(me) == card(a)]
        return SpecFn(name, [z3.ArraySort(ks, z3.BoolSort())], z3.SeqSort(ks), d)

    def enum_pos(self, ks):
        return z3.Function('enumpos_' + str(ks), z3.ArraySort(ks, z3.BoolSort()), ks, z3.IntSort())

    # ------------------------------------------------------------------ generic container access
    def length(self, st, v):
        if isinstance(v, VTup):
            return z3.IntVal(len(v.items))
        if isinstance(v, VView):
            return v.n(st)
        if isinstance(v, Z) and v.ty.k == 'str':
            f = z3.Function('strlen', self.sort(STR), z3.IntSort())
            st.assume(f(v.t) >= 0)
            return f(v.t)
        v = self.unopt(st, v)
        if isinstance(v, VPl):
            if isinstance(v.place, Root):
                c = st.store[v.place.oid]
                if c[0] in ('LC', 'DC'):
                    if c[0] == 'LC' or all(isinstance(k, Z) and (z3.is_int_value(k.t) or self.litname(k.t)) for k, _ in c[1]):
                        return z3.IntVal(len(c[1]))
                if c[0] == 'SC' and len(c[1]) <= 1:
                    return z3.IntVal(len(c[1]))
            t = self.typeof(st, v)
            if t.k == 'list':
                return z3.Length(self.read(st, v.place))
            if t.k == 'dict':
                return z3.Length(self.sort(t).keys(self.read(st, v.place)))
            if t.k == 'set':
                return self.card_fn(self.sort(t.a[0]))(self.read(st, v.place))
            if t.k == 'obj':
                r = self.call_method(st, v, '__len__', [])
                if len(r) == 1 and isinstance(r[0][1], Z):
                    if r[0][0] is not st:
                        st.pc = r[0][0].pc
                        st.store, st.frames = r[0][0].store, r[0][0].frames
                    return r[0][1].t
        if isinstance(v, Z) and v.ty.k == 'ref':
            m = self.find_method(v.ty.a[0], '__len__')
            if m:
                r = self.call_method(st, v, '__len__', [])
                if len(r) == 1:
                    return r[0][1].t
        raise Unsupported('len of %r' % (v,))

    def unopt(self, st, v):
        if isinstance(v, Z) and v.ty.k == 'opt':
            s = self.sort(v.ty)
            self.oblige(st, z3.Not(s.is_none(v.t)), 'value is not None')
            return self.lift(st, s.val(v.t), v.ty.a[0])
        return v

    def is_loop_index(self, i):
        """iteration counters ('$i...') are >= 0: established and preserved by the loop rule itself"""
        if z3.is_const(i) and i.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            return i.decl().name().startswith('$i')
        if z3.is_add(i):
            return all(self.is_loop_index(x) or (z3.is_int_value(x) and x.as_long() >= 0) for x in i.children())
        return False

    def norm_index(self, st, i, n):
        i = simp(i)
        if z3.is_int_value(i):
            return i if i.as_long() >= 0 else simp(n + i)
        if self.is_loop_index(i):
            return i
        return z3.If(i >= 0, i, n + i)

    def list_get(self, st, v, i):
        """element of a list value at index term i (already normalised and in bounds)"""
        p = v.place
        if isinstance(p, Root) and st.store[p.oid][0] == 'LC':
            items = st.store[p.oid][1]
            i = simp(i)
            if z3.is_int_value(i):
                return items[i.as_long()]
        t = self.typeof(st, v)
        ety = t.a[0]
        if self.is_container(ety):
            return VPl(self.mk_lens(st, p, ('idx', i), ety))
        term = nth(self.read(st, p), i)
        return self.lift_opt(st, term, ety)

    def lift_opt(self, st, term, ety):
        return self.lift(st, term, ety)

    def getitem(self, st, v, key):
        """-> [(st, Value)]"""
        v = self.unopt(st, v)
        if isinstance(v, VTup):
            if isinstance(key, Z) and z3.is_int_value(simp(key.t)):
                n = simp(key.t).as_long()
                if -len(v.items) <= n < len(v.items):
                    return [(st, v.items[n])]
            raise Unsupported('tuple index')
        if isinstance(v, VView):
            raise Unsupported('subscript of lazy iterable')
        if isinstance(v, VPl):
            t = self.typeof(st, v)
            if t.k == 'list':
                if isinstance(key, tuple):
                    return [(st, self.list_slice(st, v, key))]
                key = self.unopt(st, key)
                n = self.length(st, v)
                i = self.norm_index(st, self.lower(st, key, INT), n)
                self.oblige(st, z3.And(i >= 0, i < n), 'list index in range')
                return [(st, self.list_get(st, v, simp(i)))]
            if t.k == 'dict':
                items = self.dict_conc(st, v)
                if items and self.const_key(st, key) is None and isinstance(key, Z) and (key.ty == TRef('pytype') or isinstance(items[0][1], (VFunc, VBuiltin, VClass, VExt))):
                    cs = [self.eq(st, k, key) for k, _ in items]
                    self.oblige(st, z3.Or(cs), 'dictionary key present')
                    out = []
                    for c, (_, x) in zip(cs, items):
                        s2 = st.clone()
                        s2.assume(c)
                        if feasible(self.facts(s2)):
                            out.append((s2, x))
                    return out
                return [(st, self.dict_get(st, v, key, True))]
            if t.k == 'obj':
                if isinstance(key, tuple):
                    key = self.mk_slice(st, key)
                return self.call_method(st, v, '__getitem__', [key])
        if isinstance(v, Z) and v.ty.k == 'ref':
            return self.call_method(st, v, '__getitem__', [key])
        if isinstance(v, Z) and v.ty.k == 'any':
            raise Unsupported('subscript of opaque value')
        if isinstance(v, Z) and v.ty.k == 'str':
            if isinstance(key, tuple):
                raise Unsupported('string slice')
            f = z3.Function('strchar', self.sort(STR), z3.IntSort(), self.sort(STR))
            i = self.lower(st, key, INT)
            n = self.length(st, v)
            self.oblige(st, z3.And(i >= 0, i < n), 'string index in range')
            return [(st, Z(f(v.t, i), STR))]
        if isinstance(v, (VExt, VBuiltin, VClass)):
            return [(st, VExt('typing'))]
        raise Unsupported('subscript of %s' % type(v).__name__)

    def mk_slice(self, st, key):
        v = VTup(list(key))
        v.is_slice = True
        return v

    def list_slice(self, st, v, key):
        lo, hi, step = key
        if step is not None and step is not VNone:
            raise Unsupported('slice step')
        p = v.place
        n = self.length(st, v)

        def norm(x, dflt):
            if x is None or x is VNone:
                return dflt
            i = simp(self.lower(st, self.unopt(st, x), INT))
            j = z3.If(i < 0, z3.If(n + i < 0, z3.IntVal(0), n + i), z3.If(i > n, n, i))
            return simp(j)
        a, b = norm(lo, z3.IntVal(0)), norm(hi, n)
        if self.mode != 'types' and any(x.decl().kind() == z3.Z3_OP_ITE for x in (a, b)):
            # bounds provably inside the sequence: no clipping
            a1, b1 = (z3.IntVal(0) if lo is None or lo is VNone else self.lower(st, self.unopt(st, lo), INT)), (n if hi is None or hi is VNone else self.lower(st, self.unopt(st, hi), INT))
            t = self.typeof(st, v)
            if prove(self.facts(st), z3.And(0 <= a1, a1 <= b1, b1 <= n), 2, self.fuel, False)[0] == 'proved':
                return self.new_root(st, ('L', z3.Extract(self.read(st, p), a1, simp(b1 - a1)), t.a[0]))
        if isinstance(p, Root) and st.store[p.oid][0] == 'LC' and z3.is_int_value(a) and z3.is_int_value(b):
            return self.new_root(st, ('LC', tuple(st.store[p.oid][1][a.as_long():b.as_long()])))
        t = self.typeof(st, v)
        m = simp(z3.If(b > a, b - a, z3.IntVal(0)))
        return self.new_root(st, ('L', z3.Extract(self.read(st, p), a, m), t.a[0]))

    def dict_info(self, st, v, kv=None, vv=None):
        """make a dict symbolic with joined key/value types -> type"""
        p = v.place
        t = self.typeof(st, v)
        if kv is not None:
            want = TDict(self.join(t.a[0], self.typeof(st, kv)), self.join(t.a[1], self.typeof(st, vv)) if vv is not None else t.a[1])
        else:
            want = t
        if isinstance(p, Root) and st.store[p.oid][0] == 'DC':
            if self.has_bot(want):
                return want
            term = self.read(st, p, want, move=True)
            st.store[p.oid] = ('D', term, want.a[0], want.a[1])
            return want
        return t

    def const_key(self, st, k):
        """python-comparable constant behind a key value, or None"""
        if isinstance(k, Z):
            s = simp(k.t)
            if k.ty.k in ('int', 'enum') and z3.is_int_value(s):
                return (k.ty.k, s.as_long())
            if k.ty.k == 'str' and self.litname(s) is not None:
                return ('str', self.litname(s))
        if isinstance(k, VExt):
            return ('ext', k.dotted)
        if isinstance(k, VBuiltin):
            return ('ext', k.name)
        if isinstance(k, VClass):
            return ('cls', k.name)
        return None

    def dict_conc(self, st, v):
        p = v.place
        if isinstance(p, Root) and st.store[p.oid][0] == 'DC':
            items = st.store[p.oid][1]
            if all(self.const_key(st, k) is not None for k, _ in items):
                return items
        return None

    def dict_has(self, st, v, key):
        items = self.dict_conc(st, v)
        if items is not None:
            ck = self.const_key(st, key)
            if ck is not None:
                return z3.BoolVal(any(self.const_key(st, k) == ck for k, _ in items))
            if not items:
                return z3.BoolVal(False)
            return z3.Or([self.eq(st, k, key) for k, _ in items])
        t = self.dict_info(st, v)
        s = self.sort(t)
        return z3.Select(s.has(self.read(st, v.place)), self.lower(st, key, t.a[0]))

    def dict_get(self, st, v, key, check):
        items = self.dict_conc(st, v)
        if items is not None:
            ck = self.const_key(st, key)
            for k, x in items:
                if ck is not None and self.const_key(st, k) == ck:
                    return x
            if ck is not None or not items:
                if check:
                    self.oblige(st, z3.BoolVal(False), 'dictionary key present')
                raise Unsupported('missing key in literal dict')
        t = self.dict_info(st, v)
        s = self.sort(t)
        d = self.read(st, v.place)
        k = self.lower(st, key, t.a[0])
        if check:
            self.oblige(st, z3.Select(s.has(d), k), 'dictionary key present')
        vt = t.a[1]
        if self.is_container(vt):
            return VPl(self.mk_lens(st, v.place, ('key', k), vt))
        term = z3.Select(s.val(d), k)
        if vt.k == 'any':
            ln = self.litname(k)
            if ln in self.keytypes:
                kt = self.keytypes[ln]
                if self.is_container(kt):
                    cell = Lens(v.place, ('key', k), ANY)
                    return VPl(self.mk_lens(st, cell, ('proj',), kt))
                return Z(self.proj(kt)(term), kt)
        return self.lift_opt(st, term, vt)

    def key_sort_value(self, st, t, key, val, move=True):
        vt = t.a[1]
        return self.lower(st, val, vt, move)

    def dict_set(self, st, v, key, val):
        p = v.place
        if isinstance(p, Root) and p.oid in st.moved:
            raise Unsupported('mutation of an object after it was stored in a container')
        items = self.dict_conc(st, v)
        if items is not None:
            ck = self.const_key(st, key)
            if ck is not None:
                new = []
                done = False
                for k, x in items:
                    if self.const_key(st, k) == ck:
                        new.append((k, val))
                        done = True
                    else:
                        new.append((k, x))
                if not done:
                    new.append((key, val))
                self.log(('obj', p.oid))
                st.store[p.oid] = ('DC', tuple(new))
                return
        t = self.dict_info(st, v, key, val)
        d = self.read(st, p)
        k = self.lower(st, key, t.a[0])
        if t.a[1].k == 'any' and self.litname(k) in self.keytypes:
            kt = self.keytypes[self.litname(k)]
            x = self.to_any(self.lower(st, val, kt, True), kt)
        else:
            x = self.lower(st, val, t.a[1], True)
        self.write(st, p, self.d_store(t, d, k, x))

    def dict_del(self, st, v, key):
        p = v.place
        items = self.dict_conc(st, v)
        if items is not None:
            ck = self.const_key(st, key)
            if ck is not None:
                self.oblige(st, z3.BoolVal(any(self.const_key(st, k) == ck for k, _ in items)), 'dictionary key present')
                self.log(('obj', p.oid))
                st.store[p.oid] = ('DC', tuple((k, x) for k, x in items if self.const_key(st, k) != ck))
                return
        t = self.dict_info(st, v)
        s = self.sort(t)
        d = self.read(st, p)
        k = self.lower(st, key, t.a[0])
        self.oblige(st, z3.Select(s.has(d), k), 'dictionary key present')
        ks = s.keys(d)
        self.write(st, p, s.mk(self.seq_remove_fn(ks.sort())(ks, k), z3.Store(s.has(d), k, z3.BoolVal(False)), s.val(d)), True)

    def setitem(self, st, v, key, val):
        v = self.unopt(st, v)
        if isinstance(v, VPl):
            t = self.typeof(st, v)
            if t.k == 'dict':
                self.dict_set(st, v, key, val)
                return [st]
            if t.k == 'list':
                p = v.place
                n = self.length(st, v)
                i = simp(self.norm_index(st, self.lower(st, key, INT), n))
                self.oblige(st, z3.And(i >= 0, i < n), 'list index in range')
                if isinstance(p, Root) and st.store[p.oid][0] == 'LC':
                    if z3.is_int_value(i):
                        l = list(st.store[p.oid][1])
                        l[i.as_long()] = val
                        self.log(('obj', p.oid))
                        st.store[p.oid] = ('LC', tuple(l))
                        return [st]
                    self.to_sym(st, v, self.typeof(st, val))
                t = self.typeof(st, v)
                x = self.lower(st, val, t.a[0], True)
                self.write(st, p, self.seq_update(self.read(st, p), i, x), True)
                return [st]
            if t.k == 'obj':
                return [s for s, _ in self.call_method(st, v, '__setitem__', [key, val])]
        if isinstance(v, Z) and v.ty.k == 'ref':
            return [s for s, _ in self.call_method(st, v, '__setitem__', [key, val])]
        raise Unsupported('item assignment')

    def delitem(self, st, v, key):
        v = self.unopt(st, v)
        if isinstance(v, VPl):
            t = self.typeof(st, v)
            if t.k == 'dict':
                self.dict_del(st, v, key)
                return [st]
            if t.k == 'list':
                n = self.length(st, v)
                i = simp(self.norm_index(st, self.lower(st, key, INT), n))
                self.oblige(st, z3.And(i >= 0, i < n), 'list index in range')
                self.list_del(st, v, i)
                return [st]
            if t.k == 'obj':
                return [s for s, _ in self.call_method(st, v, '__delitem__', [key])]
        if isinstance(v, Z) and v.ty.k == 'ref':
            return [s for s, _ in self.call_method(st, v, '__delitem__', [key])]
        raise Unsupported('del item')

    def list_del(self, st, v, i):
        p = v.place
        if isinstance(p, Root) and st.store[p.oid][0] == 'LC' and z3.is_int_value(i):
            l = list(st.store[p.oid][1])
            del l[i.as_long()]
            self.log(('obj', p.oid))
            st.store[p.oid] = ('LC', tuple(l))
            return
        s = self.read(st, p)
        if z3.is_int_value(i) and i.as_long() == 0:
            new = z3.Extract(s, z3.IntVal(1), z3.Length(s) - 1)
        else:
            new = z3.Concat(z3.Extract(s, z3.IntVal(0), i), z3.Extract(s, i + 1, z3.Length(s) - i - 1))
        self.write(st, p, new, True)

    def to_sym(self, st, v, elemty=BOT):
        """turn a concrete-list/set/dict root into its symbolic form"""
        p = v.place
        if not isinstance(p, Root):
            return
        c = st.store[p.oid]
        if c[0] == 'LC':
            e = self.join(self.typeof(st, v).a[0], elemty)
            if self.has_bot(e):
                return
            st.store[p.oid] = ('L', self.seq_of(st, c[1], e, True), e)
        elif c[0] == 'SC':
            e = self.join(self.typeof(st, v).a[0], elemty)
            if self.has_bot(e):
                return
            st.store[p.oid] = ('S', self.read(st, p, TSet(e)), e)
        elif c[0] == 'DC':
            self.dict_info(st, v)

    def list_append(self, st, v, x):
        p = v.place
        if self.owned_by_message(st, p):
            x = self.message_copy(st, x)
        if isinstance(p, Root) and st.store[p.oid][0] == 'LC':
            if p.oid in st.moved:
                raise Unsupported('mutation of an object after it was stored in a container')
            self.log(('obj', p.oid))
            st.store[p.oid] = ('LC', st.store[p.oid][1] + (x,))
            return
        t = self.typeof(st, v)
        s = self.read(st, p)
        e = self.lower(st, x, t.a[0], True)
        self.write(st, p, z3.Concat(s, z3.Unit(e)))

    def list_extend_term(self, st, v, term, ety):
        p = v.place
        if isinstance(p, Root) and st.store[p.oid][0] == 'LC':
            self.to_sym(st, v, ety)
        self.write(st, p, z3.Concat(self.read(st, p), term))

    # ------------------------------------------------------------------ equality / comparison / membership
    def eq(self, st, a, b):
        if a is VNone or b is VNone:
            return self.is_none(st, b if a is VNone else a)
        if isinstance(a, VTup) and isinstance(b, VTup):
            if len(a.items) != len(b.items):
                return z3.BoolVal(False)
            return z3.And([self.eq(st, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, Z) and isinstance(b, Z):
            if a.ty.k == 'opt' and b.ty.k != 'opt':
                s = self.sort(a.ty)
                return z3.And(z3.Not(s.is_none(a.t)), self.eq(st, self.lift(st, s.val(a.t), a.ty.a[0]), b))
            if b.ty.k == 'opt' and a.ty.k != 'opt':
                return self.eq(st, b, a)
            if a.ty == b.ty:
                return a.t == b.t
            if {a.ty.k, b.ty.k} <= {'int', 'real', 'bool', 'enum'}:
                t = REAL if 'real' in (a.ty.k, b.ty.k) else INT
                return self.lower(st, a, t) == self.lower(st, b, t)
            if 'any' in (a.ty.k, b.ty.k):
                return self.lower(st, a, ANY) == self.lower(st, b, ANY)
            return z3.BoolVal(False)
        if isinstance(a, VPl) and isinstance(b, VPl):
            ta, tb = self.typeof(st, a), self.typeof(st, b)
            if ta.k == tb.k and ta.k in ('list', 'set'):
                t = self.join(ta, tb)
                if self.has_bot(t):
                    return z3.BoolVal(True)
                return self.read(st, a.place, t) == self.read(st, b.place, t)
        ca, cb = self.const_key(st, a), self.const_key(st, b)
        for x, c in ((a, cb), (b, ca)):
            if isinstance(x, Z) and x.ty == TRef('pytype') and c is not None and c[0] in ('ext', 'cls'):
                return x.t == self.pytype(c[1])
        if ca is not None and cb is not None:
            return z3.BoolVal(ca == cb)
        raise Unsupported('== on %s/%s' % (type(a).__name__, type(b).__name__))

    def pytype(self, name):
        s = self.sort(TRef('pytype'))
        if not hasattr(self, '_pytypes'):
            self._pytypes = {}
            self._pytag = z3.Function('pytype_tag', s, z3.IntSort())
        if name not in self._pytypes:
            t = z3.Const('pytype:' + name, s)
            self.axioms_add(self._pytag(t) == len(self._pytypes))
            self._pytypes[name] = t
        return self._pytypes[name]

    def is_none(self, st, v):
        if v is VNone:
            return z3.BoolVal(True)
        if isinstance(v, Z) and v.ty.k == 'opt':
            return self.sort(v.ty).is_none(v.t)
        if isinstance(v, Z) and v.ty.k == 'any':
            return v.t == z3.Const('any_None', self.sort(ANY))
        return z3.BoolVal(False)

    def contains(self, st, x, c):
        """x in c -> [(st, Bool term)]"""
        c = self.unopt(st, c)
        if isinstance(c, VTup):
            return [(st, z3.Or([self.eq(st, x, y) for y in c.items] + [z3.BoolVal(False)]))]
        if isinstance(c, VView):
            if c.kind in ('keys',):
                return [(st, self.dict_has(st, c.src, x))]
            if c.src is not None and c.kind == 'iter':
                return self.contains(st, x, c.src)
            raise Unsupported('in over lazy iterable')
        if isinstance(c, VPl):
            t = self.typeof(st, c)
            if t.k == 'dict':
                return [(st, self.dict_has(st, c, x))]
            if t.k == 'set':
                if isinstance(c.place, Root) and st.store[c.place.oid][0] == 'SC':
                    return [(st, z3.Or([self.eq(st, x, y) for y in st.store[c.place.oid][1]] + [z3.BoolVal(False)]))]
                return [(st, z3.Select(self.read(st, c.place), self.lower(st, x, t.a[0])))]
            if t.k == 'list':
                if isinstance(c.place, Root) and st.store[c.place.oid][0] == 'LC':
                    return [(st, z3.Or([self.eq(st, x, y) for y in st.store[c.place.oid][1]] + [z3.BoolVal(False)]))]
                return [(st, z3.Contains(self.read(st, c.place), z3.Unit(self.lower(st, x, t.a[0]))))]
            if t.k == 'obj':
                return self.contains_obj(st, x, c, t.a[0])
        if isinstance(c, Z) and c.ty.k == 'ref':
            return self.contains_obj(st, x, c, c.ty.a[0])
        if isinstance(c, Z) and c.ty.k == 'str':
            lc, lx = self.litname(c.t), self.litname(x.t) if isinstance(x, Z) and x.ty.k == 'str' else None
            if lc is not None and lx is not None:
                return [(st, z3.BoolVal(lx in lc))]
            f = z3.Function('strin', self.sort(STR), self.sort(STR), z3.BoolSort())
            return [(st, f(self.lower(st, x, STR), c.t))]
        raise Unsupported('in')

    def contains_obj(self, st, x, c, cls):
        if self.find_method(cls, '__contains__'):
            out = []
            for s, v in self.call_method(st, c, '__contains__', [x]):
                out.append((s, self.truth(s, v)))
            return out
        if self.find_method(cls, '__iter__'):
            out = []
            for s, v in self.call_method(st, c, '__iter__', []):
                out += self.contains(s, x, v)
            return out
        raise Unsupported('in on ' + cls)

    # ------------------------------------------------------------------ iteration views
    def view(self, st, v):
        v = self.unopt(st, v)
        if isinstance(v, VView):
            return v
        if isinstance(v, VTup):
            return VView(lambda s: z3.IntVal(len(v.items)),
                         lambda s, i: [(s, v.items[simp(i).as_long()])], 'tuple', v)
        if isinstance(v, VPl):
            t = self.typeof(st, v)
            if t.k == 'list':
                return VView(lambda s: self.length(s, v), lambda s, i: [(s, self.list_get(s, v, i))], 'list', v)
            if t.k == 'dict':
                return self.dict_view(st, v, 'keys')
            if t.k == 'set':
                if isinstance(v.place, Root) and st.store[v.place.oid][0] == 'SC' and len(st.store[v.place.oid][1]) <= 1:
                    items = st.store[v.place.oid][1]
                    return VView(lambda s: z3.IntVal(len(items)), lambda s, i: [(s, items[simp(i).as_long()])], 'tuple', VTup(items))
                self.to_sym(st, v)
                t = self.typeof(st, v)
                ks = self.sort(t.a[0])
                en = self.enum_fn(ks)(self.read(st, v.place))
                arr = self.read(st, v.place)

                def get(s, i):
                    e = en[i]
                    s.assume(z3.Select(arr, e))
                    return [(s, self.lift(s, e, t.a[0]))]
                w = VView(lambda s: z3.Length(en), get, 'set', v)
                w.seq = en
                return w
            if t.k == 'obj':
                cls = t.a[0]
                if self.find_method(cls, '__iter__'):
                    r = self.call_method(st, v, '__iter__', [])
                    if len(r) != 1:
                        raise Unsupported('__iter__ forks')
                    return self.view(r[0][0], r[0][1])
                self.assumed.add('collections.abc.Sequence iteration of %s visits indices 0..len-1 via __getitem__' % cls)
                return VView(lambda s: self.length(s, v), lambda s, i: self.call_method(s, v, '__getitem__', [Z(i, INT)]), 'seqobj', v)
        if isinstance(v, Z) and v.ty.k == 'ref':
            r = self.call_method(st, v, '__iter__', [])
            if len(r) != 1:
                raise Unsupported('__iter__ forks')
            return self.view(r[0][0], r[0][1])
        if isinstance(v, Z) and v.ty.k == 'str':
            return VView(lambda s: self.length(s, v), lambda s, i: self.getitem(s, v, Z(i, INT)), 'str', v)
        raise Unsupported('iteration over %r' % (v,))

    def dict_view(self, st, v, kind):
        items = self.dict_conc(st, v)
        if items is not None:
            vals = [k if kind == 'keys' else x if kind == 'values' else VTup([k, x]) for k, x in items]
            w = VView(lambda s: z3.IntVal(len(vals)), lambda s, i: [(s, vals[simp(i).as_long()])], 'tuple', VTup(vals))
            return w
        t = self.dict_info(st, v)
        if self.has_bot(t):
            return VView(lambda s: z3.IntVal(0), lambda s, i: [], 'tuple', VTup([]))
        srt = self.sort(t)

        def n(s):
            return z3.Length(srt.keys(self.read(s, v.place)))

        def get(s, i):
            d = self.read(s, v.place)
            k = srt.keys(d)[i]
            s.assume(z3.Select(srt.has(d), k))
            kv = self.lift(s, k, t.a[0])
            if kind == 'keys':
                return [(s, kv)]
            x = self.dict_get(s, v, kv, False)
            return [(s, x if kind == 'values' else VTup([kv, x]))]
        return VView(n, get, kind, v)

    def conc_items(self, st, v):
        """python list of values when the iterable has a statically known list of elements"""
        if isinstance(v, VTup):
            return list(v.items)
        if isinstance(v, VView) and v.kind == 'tuple':
            return list(v.src.items)
        if isinstance(v, VView) and v.kind == 'list':
            return self.conc_items(st, v.src)
        if isinstance(v, VPl) and isinstance(v.place, Root) and st.store[v.place.oid][0] == 'LC':
            return list(st.store[v.place.oid][1])
        return None

    def materialize(self, st, v, fid, mod, node=None):
        """iterable -> [(st, list value)]"""
        v0 = v
        v = self.unopt(st, v)
        if isinstance(v, VPl):
            t = self.typeof(st, v)
            if t.k == 'list':
                c = self.conc_items(st, v)
                if c is not None:
                    return [(st, self.new_root(st, ('LC', tuple(c))))]
                return [(st, self.new_root(st, ('L', self.read(st, v.place), t.a[0])))]
            if t.k in ('set', 'dict', 'obj'):
                v = self.view(st, v)
        if isinstance(v, VTup):
            return [(st, self.new_root(st, ('LC', tuple(v.items))))]
        if isinstance(v, Z):
            v = self.view(st, v)
        if isinstance(v, VView):
            c = self.conc_items(st, v)
            if c is not None:
                return [(st, self.new_root(st, ('LC', tuple(c))))]
            if v.kind == 'list':
                return self.materialize(st, v.src, fid, mod, node)
            if v.kind == 'set':
                t = self.typeof(st, v.src)
                arr, en = self.read(st, v.src.place), v.seq
                st.assume(self.forall(1, lambda i: z3.Implies(z3.And(i >= 0, i < z3.Length(en)), z3.Select(arr, en[i]))))
                return [(st, self.new_root(st, ('L', v.seq, t.a[0])))]
            if v.kind == 'keys':
                t = self.typeof(st, v.src)
                d, srt = self.read(st, v.src.place), self.sort(t)
                ks = srt.keys(d)
                st.assume(self.forall(1, lambda i: z3.Implies(z3.And(i >= 0, i < z3.Length(ks)), z3.Select(srt.has(d), ks[i]))))
                return [(st, self.new_root(st, ('L', ks, t.a[0])))]
            return self.collect(st, v, lambda s, x: [(s, x)], None, fid, mod, node)
        raise Unsupported('list() of %r' % (v0,))

    def collect(self, st, view, elt, cond, fid, mod, node):
        """[elt(x) for x in view if cond(x)] as a verified loop"""
        cf = self.new_frame(st, fid)
        res = self.new_root(st, ('LC', ()))
        st.frames[cf][0]['$res'] = res
        calls = st.calls
        st.calls = st.calls + (cf,)

        def body(s, x):
            outs = []
            for s1, keep in (cond(s, x) if cond else [(s, True)]):
                if not keep:
                    outs.append((s1, ('next',)))
                    continue
                for s2, y in elt(s1, x):
                    self.list_append(s2, s2.frames[cf][0]['$res'], y)
                    outs.append((s2, ('next',)))
            return outs
        outs = self.for_loop(st, view, body, cf, mod, node)
        r = []
        for s, o in outs:
            if o[0] != 'next':
                raise Unsupported('control flow in comprehension')
            s.calls = calls
            r.append((s, s.frames[cf][0]['$res']))
        return r
