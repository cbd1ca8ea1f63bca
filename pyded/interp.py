"""Statements, expressions, calls and loops."""
import ast
import z3
from .smt import *
from .engine import *
from .ops import Ops


class Interp(Ops):
    # ================================================================== expressions
    def ev(self, e, st, fid, mod):
        """-> [(st, Value)]; exceptional paths go to self.raised"""
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(e).__name__)
        if hasattr(e, 'lineno'):
            self.cur_line = e.lineno
        return m(e, st, fid, mod)

    def evs(self, es, st, fid, mod):
        """evaluate a list of expressions left to right -> [(st, [values])]"""
        acc = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in acc:
                for s2, v in self.ev(e, s, fid, mod):
                    nxt.append((s2, vs + [v]))
            acc = nxt
        return acc

    def ev_Constant(self, e, st, fid, mod):
        v = e.value
        if v is None:
            return [(st, VNone)]
        if isinstance(v, bool):
            return [(st, self.B(v))]
        if isinstance(v, int):
            return [(st, self.I(v))]
        if isinstance(v, float):
            return [(st, Z(z3.RealVal(repr(v)), REAL))]
        if isinstance(v, str):
            return [(st, self.lit(v))]
        raise Unsupported('constant %r' % (v,))

    def ev_Name(self, e, st, fid, mod):
        return [(st, self.lookup(st, fid, e.id, mod))]

    def ev_Tuple(self, e, st, fid, mod):
        return [(s, VTup(vs)) for s, vs in self.evs(e.elts, st, fid, mod)]

    def ev_List(self, e, st, fid, mod):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            raise Unsupported('starred list')
        return [(s, self.new_root(s, ('LC', tuple(vs)))) for s, vs in self.evs(e.elts, st, fid, mod)]

    def ev_Set(self, e, st, fid, mod):
        return [(s, self.new_root(s, ('SC', tuple(vs)))) for s, vs in self.evs(e.elts, st, fid, mod)]

    def ev_Dict(self, e, st, fid, mod):
        out = []
        for s, ks in self.evs([k for k in e.keys], st, fid, mod):
            for s2, vs in self.evs(e.values, s, fid, mod):
                d = self.new_root(s2, ('DC', ()))
                for k, v in zip(ks, vs):
                    self.dict_set(s2, d, k, v)
                out.append((s2, d))
        return out

    def ev_JoinedStr(self, e, st, fid, mod):
        parts, exprs = [], []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(str(v.value))
            else:
                parts.append('{}')
                exprs.append(v.value)
        out = []
        for s, vs in self.evs(exprs, st, fid, mod):
            out.append((s, self.fstr(s, ''.join(parts), vs)))
        return out

    def fstr(self, s, templ, vs):
        args = []
        for v in vs:
            if isinstance(v, Z):
                args.append(v.t)
            elif v is VNone:
                args.append(z3.Const('NoneC', self.sort(NONE)))
            else:
                return Z(self.fresh('fstr', STR), STR)
        if not args:
            return self.lit(templ)
        f = z3.Function('fstr:%s:%s' % (templ, '/'.join(str(a.sort()) for a in args)), *[a.sort() for a in args], self.sort(STR))
        return Z(f(*args), STR)

    def ev_Attribute(self, e, st, fid, mod):
        out = []
        for s, v in self.ev(e.value, st, fid, mod):
            out += self.getattr(s, v, e.attr)
        return out

    def getattr(self, st, v, name):
        v = self.unopt(st, v)
        if isinstance(v, VExt):
            d = v.dotted + '.' + name
            if d in self.ext and getattr(self.ext[d], 'is_value', False):
                return [(st, self.ext[d](self, st))]
            return [(st, VExt(d))]
        if isinstance(v, VClass):
            if self.is_enum(v.mod, v.node):
                m = self.enum_member(v, name)
                if m is not None:
                    return [(st, m)]
            f = self.find_method(v.name, name)
            if f:
                return [(st, VFunc(f[2], f[0], None, name, f[1]))]
            for s in v.node.body:
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
                    return self.ev(s.value, st, self.new_frame(st, None), v.mod)
            if name == '__name__':
                return [(st, self.lit(v.name))]
            raise Unsupported('class attribute ' + name)
        if isinstance(v, VSuper):
            cls = self.self_class(st, v.self_)
            f = self.find_method(cls, name, after=v.cls_node)
            if f:
                return [(st, VMethod(VFunc(f[2], f[0], None, name, f[1]), v.self_))]
            return [(st, VPy(lambda eng, s, a, k: [(s, VNone)], 'object.' + name))]
        if isinstance(v, VPl):
            p = v.place
            t = self.typeof(st, v)
            if t.k == 'obj':
                if isinstance(p, Root):
                    fs = st.store[p.oid][2]
                    if name in fs:
                        return [(st, fs[name])]
                    if t.a[0] in self.repo.messages:
                        return self.message_attr(st, v, t.a[0], name)
                else:
                    fd = dict(self.types.obj[t.a[0]])
                    if name in fd:
                        ft = fd[name]
                        if self.is_container(ft):
                            return [(st, VPl(self.mk_lens(st, p, ('field', name), ft)))]
                        return [(st, self.lift_opt(st, self.read(st, Lens(p, ('field', name), ft)), ft))]
                f = self.find_method(t.a[0], name)
                if f:
                    return [(st, self.bind_method(f, v, name))]
                raise Unsupported('attribute %s of %s' % (name, t.a[0]))
            return [(st, VBMethod(v, name))]
        if isinstance(v, Z):
            if v.ty == TRef('pytype') and name == '__name__':
                return [(st, Z(z3.Function('name_of_type', self.sort(v.ty), self.sort(STR))(v.t), STR))]
            if v.ty.k == 'ref':
                cls = v.ty.a[0]
                fd = self.types.ref.get(cls, {})
                if name in fd:
                    mode, ft = fd[name]
                    if mode == 'imm':
                        t = self.imm(cls, name, ft)(v.t)
                        x = self.lift(st, t, ft)
                        if isinstance(x, VPl) and isinstance(x.place, Root):
                            st.moved = st.moved | {x.place.oid}
                        return [(st, x)]
                    if (cls, name) not in st.heap:
                        raise Unsupported('heap field not initialised')
                    if self.is_container(ft):
                        return [(st, VPl(self.mk_lens(st, None, ('heap', cls, name, v.t), ft)))]
                    return [(st, self.lift(st, z3.Select(st.heap[(cls, name)], v.t), ft))]
                f = self.find_method(cls, name)
                if f:
                    return [(st, self.bind_method(f, v, name))]
                raise Unsupported('attribute %s of ref %s' % (name, cls))
            if v.ty.k == 'enum' and name == 'name':
                f = z3.Function('enumname_' + v.ty.a[0], z3.IntSort(), self.sort(STR))
                for i, m in enumerate(self.enums.get(v.ty.a[0], [])):
                    self.axioms_add(f(z3.IntVal(i)) == self.lit(m).t)
                return [(st, Z(f(v.t), STR))]
            return [(st, VBMethod(v, name))]
        if isinstance(v, (VView, VTup)):
            return [(st, VBMethod(v, name))]
        if isinstance(v, VBuiltin):
            return [(st, VBuiltin(v.name + '.' + name))]
        if v is VNone:
            self.oblige(st, z3.BoolVal(False), 'attribute of None')
            return []
        h = getattr(v, 'getattr', None)
        if h:
            return h(self, st, name)
        raise Unsupported('attribute %s of %s' % (name, type(v).__name__))

    def imm(self, cls, name, ft):
        return z3.Function('%s.%s' % (cls, name), self.sort(TRef(cls)), self.sort(ft))

    def bind_method(self, f, v, name):
        decs = self.decorators(f[2])
        fn = VFunc(f[2], f[0], None, name, f[1])
        if 'staticmethod' in decs:
            return fn
        if decs:
            raise Unsupported('decorator ' + decs[0])
        return VMethod(fn, v)

    def self_class(self, st, v):
        t = self.typeof(st, v)
        if t.k in ('obj', 'ref'):
            return t.a[0]
        raise Unsupported('self class')

    def ev_Subscript(self, e, st, fid, mod):
        out = []
        for s, v in self.ev(e.value, st, fid, mod):
            if isinstance(e.slice, ast.Slice):
                parts = [e.slice.lower, e.slice.upper, e.slice.step]
                idx = [i for i, p in enumerate(parts) if p is not None]
                for s2, vs in self.evs([parts[i] for i in idx], s, fid, mod):
                    key = [None, None, None]
                    for i, x in zip(idx, vs):
                        key[i] = x
                    self.cur_line = e.lineno
                    out += self.getitem(s2, v, tuple(key))
            else:
                for s2, k in self.ev(e.slice, s, fid, mod):
                    self.cur_line = e.lineno
                    if isinstance(k, VTup) and getattr(k, 'is_slice', False):
                        k = tuple(k.items)
                    out += self.getitem(s2, v, k)
        return out

    def ev_Slice(self, e, st, fid, mod):
        parts = [e.lower, e.upper, e.step]
        idx = [i for i, p in enumerate(parts) if p is not None]
        out = []
        for s2, vs in self.evs([parts[i] for i in idx], st, fid, mod):
            key = [None, None, None]
            for i, x in zip(idx, vs):
                key[i] = x
            out.append((s2, self.mk_slice(s2, key)))
        return out

    def ev_BoolOp(self, e, st, fid, mod):
        is_and = isinstance(e.op, ast.And)
        acc = [(st, None, False)]
        done = []
        for i, x in enumerate(e.values):
            nxt = []
            for s, _, _ in acc:
                for s2, v in self.ev(x, s, fid, mod):
                    if i == len(e.values) - 1:
                        done.append((s2, v))
                        continue
                    c = self.truth(s2, v)
                    for s3, b in self.branch(s2, c):
                        if b == is_and:
                            nxt.append((s3, None, False))
                        else:
                            done.append((s3, self.B(not is_and) if isinstance(v, Z) and v.ty.k == 'bool' else v))
            acc = nxt
        return done

    def ev_UnaryOp(self, e, st, fid, mod):
        out = []
        for s, v in self.ev(e.operand, st, fid, mod):
            if isinstance(e.op, ast.Not):
                out.append((s, self.B(z3.Not(self.truth(s, v)))))
            elif isinstance(e.op, ast.USub):
                v = self.unopt(s, v)
                out.append((s, Z(simp(-v.t), v.ty)))
            elif isinstance(e.op, ast.UAdd):
                out.append((s, v))
            else:
                raise Unsupported('unary op')
        return out

    def ev_Compare(self, e, st, fid, mod):
        out = []
        for s, vs in self.evs([e.left] + e.comparators, st, fid, mod):
            acc = [(s, [])]
            for op, a, b in zip(e.ops, vs, vs[1:]):
                nxt = []
                for s2, cs in acc:
                    for s3, c in self.compare(s2, op, a, b):
                        nxt.append((s3, cs + [c]))
                acc = nxt
            for s2, cs in acc:
                out.append((s2, self.B(cs[0] if len(cs) == 1 else z3.And(cs))))
        return out

    def compare(self, st, op, a, b):
        if isinstance(op, ast.Is) or isinstance(op, ast.IsNot):
            if a is VNone or b is VNone:
                c = self.is_none(st, b if a is VNone else a)
            elif isinstance(a, Z) and isinstance(b, Z) and a.ty == b.ty and a.ty.k in ('ref', 'enum', 'bool'):
                c = a.t == b.t
            elif isinstance(a, VPl) and isinstance(b, VPl) and isinstance(a.place, Root) and isinstance(b.place, Root):
                c = z3.BoolVal(a.place.oid == b.place.oid)
            else:
                ca, cb = self.const_key(st, a), self.const_key(st, b)
                if ca is None or cb is None:
                    raise Unsupported('is')
                c = z3.BoolVal(ca == cb)
            return [(st, c if isinstance(op, ast.Is) else z3.Not(c))]
        if isinstance(op, (ast.In, ast.NotIn)):
            return [(s, c if isinstance(op, ast.In) else z3.Not(c)) for s, c in self.contains(st, a, b)]
        if isinstance(op, (ast.Eq, ast.NotEq)):
            res = self.equals(st, a, b)
            return [(s, c if isinstance(op, ast.Eq) else z3.Not(c)) for s, c in res]
        a, b = self.unopt(st, a), self.unopt(st, b)
        if isinstance(a, Z) and isinstance(b, Z) and a.ty.k in ('int', 'real', 'bool') and b.ty.k in ('int', 'real', 'bool'):
            t = REAL if 'real' in (a.ty.k, b.ty.k) else INT
            x, y = self.lower(st, a, t), self.lower(st, b, t)
            c = {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(op)]()
            return [(st, c)]
        if isinstance(a, VPl) and isinstance(b, VPl) and self.typeof(st, a).k == 'set':
            sub = {ast.LtE: (a, b), ast.GtE: (b, a)}.get(type(op))
            if sub:
                return [(st, self.subset(st, *sub))]
        if isinstance(a, Z) and isinstance(b, Z) and a.ty.k == 'str' and b.ty.k == 'str':
            f = z3.Function('strlt', self.sort(STR), self.sort(STR), z3.BoolSort())
            c = {ast.Lt: lambda: f(a.t, b.t), ast.Gt: lambda: f(b.t, a.t), ast.LtE: lambda: z3.Not(f(b.t, a.t)), ast.GtE: lambda: z3.Not(f(a.t, b.t))}[type(op)]()
            return [(st, c)]
        raise Unsupported('comparison')

    def equals(self, st, a, b):
        for x, y in ((a, b), (b, a)):
            t = None
            if isinstance(x, VPl) and self.typeof(st, x).k == 'obj':
                t = self.typeof(st, x).a[0]
            elif isinstance(x, Z) and x.ty.k == 'ref':
                t = x.ty.a[0]
            if t is not None and y is not VNone:
                if self.find_method(t, '__eq__') and x is a:
                    return [(s, self.truth(s, v)) for s, v in self.call_method(st, a, '__eq__', [b])]
                c = self.class_named(t)
                if c and any(self.is_dataclass(n) for _, n in self.mro(*c)):
                    tt = self.typeof(st, x)
                    if self.typeof(st, y) == tt and tt.k == 'obj':
                        return [(st, self.lower(st, a, tt) == self.lower(st, b, tt))]
        return [(st, self.eq(st, a, b))]

    def subset(self, st, a, b):
        """a <= b as a quantified formula with the arrays as patterns"""
        for v in (a, b):
            self.to_sym(st, v)
        ta, tb = self.typeof(st, a), self.typeof(st, b)
        t = self.join(ta, tb)
        if self.has_bot(t):
            return z3.BoolVal(ta.a[0].k == 'bot')
        x, y = self.read(st, a.place, t), self.read(st, b.place, t)
        return self.subset_fn(self.sort(t.a[0]))(x, y)

    def subset_fn(self, ks):
        patternable = lambda x: not z3.is_store(x) and not z3.is_const_array(x) and not has_ite(x)
        name = 'subset_' + str(ks)
        if name in SPECS:
            return SPECS[name]
        arr = z3.ArraySort(ks, z3.BoolSort())
        wit = z3.Function('subsetwit_' + str(ks), arr, arr, ks)

        def d(a, b):
            me = SPECS[name].f(a, b)
            k = z3.Const('k!sub', ks)
            w = wit(a, b)
            return [z3.Implies(z3.Not(me), z3.And(z3.Select(a, w), z3.Not(z3.Select(b, w)))),
                    z3.Implies(me, z3.ForAll([k], z3.Implies(z3.Select(a, k), z3.Select(b, k)),
                                             patterns=[z3.Select(a, k), z3.Select(b, k)] if patternable(a) and patternable(b) else []))]
        return SpecFn(name, [arr, arr], z3.BoolSort(), d)

    def ev_IfExp(self, e, st, fid, mod):
        out = []
        for s, v in self.ev(e.test, st, fid, mod):
            for s2, b in self.branch(s, self.truth(s, v)):
                out += self.ev(e.body if b else e.orelse, s2, fid, mod)
        return out

    def ev_BinOp(self, e, st, fid, mod):
        out = []
        for s, (a, b) in self.evs([e.left, e.right], st, fid, mod):
            self.cur_line = e.lineno
            out += self.binop(s, e.op, a, b)
        return out

    def binop(self, st, op, a, b):
        a, b = self.unopt(st, a), self.unopt(st, b)
        if isinstance(a, Z) and isinstance(b, Z):
            ka, kb = a.ty.k, b.ty.k
            num = ('int', 'real', 'bool')
            if ka in num and kb in num:
                if isinstance(op, ast.Div):
                    x, y = self.lower(st, a, REAL), self.lower(st, b, REAL)
                    self.oblige(st, y != 0, 'division by zero')
                    return [(st, Z(x / y, REAL))]
                t = REAL if 'real' in (ka, kb) else INT
                x, y = self.lower(st, a, t), self.lower(st, b, t)
                if isinstance(op, ast.Add):
                    return [(st, Z(simp(x + y), t))]
                if isinstance(op, ast.Sub):
                    return [(st, Z(simp(x - y), t))]
                if isinstance(op, ast.Mult):
                    return [(st, Z(simp(x * y), t))]
                if isinstance(op, (ast.Mod, ast.FloorDiv)) and t == INT:
                    self.oblige(st, y != 0, 'division by zero')
                    y1 = simp(y)
                    if z3.is_int_value(y1) and y1.as_long() > 0:
                        return [(st, Z(x % y if isinstance(op, ast.Mod) else x / y, INT))]
                    raise Unsupported('modulo by a non-constant')
                if isinstance(op, ast.Pow):
                    x1, y1 = simp(x), simp(y)
                    if z3.is_int_value(x1) and z3.is_int_value(y1):
                        return [(st, self.I(x1.as_long() ** y1.as_long()))]
                raise Unsupported('arithmetic operator')
            if ka == 'str' and kb == 'str' and isinstance(op, ast.Add):
                return [(st, Z(self.strcat(a.t, b.t), STR))]
            if ka == 'str' and isinstance(op, ast.Mod):
                return [(st, Z(self.fresh('pct', STR), STR))]
        if isinstance(op, ast.Mod) and isinstance(a, Z) and a.ty.k == 'str':
            return [(st, Z(self.fresh('pct', STR), STR))]
        if isinstance(a, VPl) and isinstance(b, VPl) and isinstance(op, ast.Add):
            ca, cb = self.conc_items(st, a), self.conc_items(st, b)
            if ca is not None and cb is not None:
                return [(st, self.new_root(st, ('LC', tuple(ca + cb))))]
            t = self.join(self.typeof(st, a), self.typeof(st, b))
            return [(st, self.new_root(st, ('L', z3.Concat(self.read(st, a.place, t), self.read(st, b.place, t)), t.a[0])))]
        if isinstance(a, VPl) and isinstance(op, ast.Mult) and isinstance(b, Z):
            c = self.conc_items(st, a)
            if c is not None and len(c) == 1:
                n = self.lower(st, b, INT)
                e = self.typeof(st, c[0])
                s = self.fresh('rep', TList(e))
                m = z3.If(n > 0, n, z3.IntVal(0))
                j = z3.Int('j!rep')
                x = self.lower(st, c[0], e, True)
                st.assume(z3.Length(s) == m, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), s[j] == x), patterns=[s[j]]))
                return [(st, self.new_root(st, ('L', s, e)))]
        if isinstance(a, VPl) and isinstance(b, VPl) and self.typeof(st, a).k == 'set':
            return [(st, self.set_op(st, op, a, b))]
        raise Unsupported('operator on %s, %s' % (type(a).__name__, type(b).__name__))

    def strcat(self, a, b):
        if self.litname(a) == '':
            return b
        if self.litname(b) == '':
            return a
        return z3.Function('strcat', self.sort(STR), self.sort(STR), self.sort(STR))(a, b)

    def set_op(self, st, op, a, b):
        self.to_sym(st, a), self.to_sym(st, b)
        t = self.join(self.typeof(st, a), self.typeof(st, b))
        x, y = self.read(st, a.place, t), self.read(st, b.place, t)
        if isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub)):
            ks = self.sort(t.a[0])
            dd = z3.Or(z3.Bool('x'), z3.Bool('y')).decl() if isinstance(op, ast.BitOr) else z3.And(z3.Bool('x'), z3.Bool('y')).decl()
            if isinstance(op, ast.Sub):
                y = z3.Map(z3.Not(z3.Bool('x')).decl(), y)
            return self.new_root(st, ('S', z3.Map(dd, x, y), t.a[0]))
        raise Unsupported('set operator')

    def ev_Lambda(self, e, st, fid, mod):
        return [(st, VFunc(e, mod, fid, '<lambda>'))]

    def ev_ListComp(self, e, st, fid, mod):
        return self.comp(e, e.elt, e.generators, st, fid, mod)

    def ev_GeneratorExp(self, e, st, fid, mod):
        return self.comp(e, e.elt, e.generators, st, fid, mod)

    def ev_SetComp(self, e, st, fid, mod):
        out = []
        for s, l in self.comp(e, e.elt, e.generators, st, fid, mod):
            out += self.to_set(s, l, fid, mod, e)
        return out

    def ev_DictComp(self, e, st, fid, mod):
        raise Unsupported('dict comprehension')

    def comp(self, node, elt, gens, st, fid, mod):
        """comprehension as nested loops appending to a hidden list"""
        cf = self.new_frame(st, fid)
        res = self.new_root(st, ('LC', ()))
        st.frames[cf][0]['$res'] = res
        calls = st.calls
        st.calls = st.calls + (cf,)

        def run(s, gi):
            if gi == len(gens):
                o = []
                for s2, y in self.ev(elt, s, cf, mod):
                    self.list_append(s2, s2.frames[cf][0]['$res'], y)
                    o.append((s2, ('next',)))
                return o
            g = gens[gi]
            o = []
            for s2, it in self.ev(g.iter, s, cf, mod):
                def body(s3, x, g=g, gi=gi):
                    outs = []
                    for s4 in self.assign_target(s3, g.target, x, cf, mod):
                        acc = [(s4, True)]
                        for c in g.ifs:
                            nx = []
                            for s5, keep in acc:
                                if not keep:
                                    nx.append((s5, False))
                                    continue
                                for s6, v in self.ev(c, s5, cf, mod):
                                    nx += self.branch(s6, self.truth(s6, v))
                            acc = nx
                        for s5, keep in acc:
                            if keep:
                                outs += run(s5, gi + 1)
                            else:
                                outs.append((s5, ('next',)))
                    return outs
                o += self.for_loop(s2, self.view(s2, it), body, cf, mod, g.iter)
            return o
        out = []
        for s, o in run(st, 0):
            if o[0] != 'next':
                raise Unsupported('control flow in comprehension')
            s.calls = calls
            out.append((s, s.frames[cf][0]['$res']))
        return out

    def ev_Starred(self, e, st, fid, mod):
        raise Unsupported('starred')

    def ev_Call(self, e, st, fid, mod):
        out = []
        for s, f in self.ev(e.func, st, fid, mod):
            if isinstance(f, VBuiltin) and f.name == 'super':
                out += self.mk_super(s, fid)
                continue
            for s2, args in self.evs([a for a in e.args], s, fid, mod) if not any(isinstance(a, ast.Starred) for a in e.args) else self.star_args(e, s, fid, mod):
                for s3, kws in self.evs([k.value for k in e.keywords], s2, fid, mod):
                    if any(k.arg is None for k in e.keywords):
                        raise Unsupported('**kwargs')
                    self.cur_line = e.lineno
                    out += self.call(s3, f, args, dict(zip([k.arg for k in e.keywords], kws)), fid, mod, e)
        return out

    def star_args(self, e, st, fid, mod):
        acc = [(st, [])]
        for a in e.args:
            nxt = []
            for s, vs in acc:
                if not isinstance(a, ast.Starred):
                    nxt += [(s2, vs + [v]) for s2, v in self.ev(a, s, fid, mod)]
                    continue
                for s2, v in self.ev(a.value, s, fid, mod):
                    items = self.conc_items(s2, v)
                    nxt.append((s2, vs + (list(items) if items is not None else [VStar(v)])))
            acc = nxt
        return acc

    def mk_super(self, st, fid):
        f = fid
        while f is not None:
            d, p = st.frames[f]
            if '$self' in d:
                return [(st, VSuper(d['$self'], d['$clsmod'], d['$cls']))]
            f = p
        raise Unsupported('super')

    # ================================================================== calls
    def call(self, st, f, args, kw, fid, mod, node=None):
        if isinstance(f, VPy):
            return f.fn(self, st, args, kw)
        if isinstance(f, VFunc):
            return self.call_func(st, f, args, kw)
        if isinstance(f, VMethod):
            return self.call_func(st, f.func, [f.self_] + args, kw, self_=f.self_)
        if isinstance(f, VClass):
            return self.instantiate(st, f, args, kw)
        if isinstance(f, VBuiltin):
            return self.call_builtin(st, f.name, args, kw, fid, mod, node)
        if isinstance(f, VBMethod):
            return self.call_bmethod(st, f.obj, f.name, args, kw, fid, mod, node)
        if isinstance(f, VExt):
            return self.call_ext(st, f.dotted, args, kw, fid, mod, node)
        if isinstance(f, Z) and f.ty.k == 'ref' and 'call:' + f.ty.a[0] in self.ext:
            return self.ext['call:' + f.ty.a[0]](self, st, f, args, kw)
        if isinstance(f, VPl) and self.typeof(st, f).k == 'obj' or isinstance(f, Z) and f.ty.k == 'ref':
            return self.call_method(st, f, '__call__', args, kw)
        raise Unsupported('call of %s' % type(f).__name__)

    def call_method(self, st, v, name, args, kw=None):
        cls = self.self_class(st, v)
        f = self.find_method(cls, name)
        if f is None:
            raise Unsupported('method %s.%s' % (cls, name))
        return self.call_func(st, VFunc(f[2], f[0], None, name, f[1]), [v] + args, kw or {}, self_=v)

    def qual(self, f):
        return '%s:%s%s' % (f.mod.name, (f.cls.name + '.') if f.cls is not None else '', f.name)

    def bind_args(self, st, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if a.kwarg:
            if any(k not in names for k in kw):
                raise Unsupported('**kwargs parameter')
            env[a.kwarg.arg] = self.new_root(st, ('DC', ()))
        pos = list(args)
        for n in names:
            if pos:
                if isinstance(pos[0], VStar):
                    raise Unsupported('*args bound to a named parameter')
                env[n] = pos.pop(0)
        if pos:
            if a.vararg and any(isinstance(x, VStar) for x in pos):
                if len(pos) != 1:
                    raise Unsupported('*args mixed with other arguments')
                env[a.vararg.arg] = pos[0].v
            elif a.vararg:
                env[a.vararg.arg] = VTup(pos)
            else:
                raise Unsupported('too many arguments to ' + f.name)
        elif a.vararg:
            env[a.vararg.arg] = VTup([])
        for k, v in kw.items():
            if k not in names + [x.arg for x in a.kwonlyargs] or k in env:
                raise Unsupported('keyword argument %s of %s' % (k, f.name))
            env[k] = v
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for n, d in defaults.items():
            if n not in env:
                df = f.fid if f.fid is not None else self.new_frame(st, None)
                r = self.ev(d, st, df, f.mod)
                if len(r) != 1:
                    raise Unsupported('default value')
                env[n] = r[0][1]
                self.freeze(st, env[n])      # one object shared by all calls: may be read only
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                raise Unsupported('missing argument %s of %s' % (n, f.name))
        return env

    def freeze(self, st, v):
        """the object and everything it holds may be read only from here on"""
        if isinstance(v, VTup):
            for x in v.items:
                self.freeze(st, x)
        if isinstance(v, VPl) and isinstance(v.place, Root) and v.place.oid not in st.moved:
            st.moved = st.moved | {v.place.oid}
            c = st.store[v.place.oid]
            for x in (c[2].values() if c[0] == 'O' else c[1] if c[0] == 'LC' else [y for _, y in c[1]] if c[0] == 'DC' else ()):
                self.freeze(st, x)

    def call_func(self, st, f, args, kw, self_=None, force_inline=False):
        env = self.bind_args(st, f, args, kw)
        q = self.qual(f)
        if q in self.contracts and not force_inline:
            line = self.cur_line
            r = self.contracts[q](self, st, env, f)
            self.cur_line = line
            if r is not None:
                return r
        depth = sum(1 for x in self.fstack if x == q)
        if depth >= 1 and f.name != '<lambda>' or depth >= 4:
            if depth >= getattr(self, 'max_rec', 1):
                raise Unsupported('recursion of %s without a contract' % q)
        self.inlined.add(q)
        fr = self.new_frame(st, f.fid, env)
        if f.cls is not None and self_ is not None:
            st.frames[fr][0].update({'$self': self_, '$clsmod': f.mod, '$cls': f.cls})
        old_calls, old_stack, line = st.calls, self.fstack, self.cur_line
        st.calls = st.calls + (fr,)
        self.fstack = self.fstack + (q,)
        old_sites = self.sites
        self.sites = old_sites + (line,)
        out = []
        try:
            if isinstance(f.node, ast.Lambda):
                for s, v in self.ev(f.node.body, st, fr, f.mod):
                    s.calls = old_calls
                    out.append((s, v))
            else:
                for s, o in self.block(f.node.body, st, fr, f.mod):
                    s.calls = old_calls
                    if o[0] == 'return':
                        out.append((s, o[1]))
                    elif o[0] == 'next':
                        out.append((s, VNone))
                    elif o[0] == 'raise':
                        self.raised.append((s, o))
                    else:
                        raise Unsupported('outcome ' + o[0])
        finally:
            self.fstack = old_stack
            self.sites = old_sites
        self.cur_line = line
        return out

    def instantiate(self, st, c, args, kw):
        if self.is_enum(c.mod, c.node):
            raise Unsupported('enum call')
        if c.name in self.makers:
            r = self.makers[c.name](self, st, args, kw)
            if r is not None:
                return r
        if c.name in self.repo.messages and c.name not in self.types.ref:
            return self.new_message(st, c.name, args, kw)
        if c.name in self.types.ref:
            v = Z(self.new_ref(st, c.name), TRef(c.name))
        else:
            if c.name not in self.types.obj and c.name in EXC:
                raise Unsupported('exception class')
            v = self.new_root(st, ('O', c.name, {}))
        self._classes = getattr(self, '_classes', {})
        self._classes[c.name] = (c.mod, c.node)
        init = self.find_method(c.name, '__init__')
        if init is not None:
            return [(s, v) for s, _ in self.call_func(st, VFunc(init[2], init[0], None, '__init__', init[1]), [v] + args, kw, self_=v)]
        if any(self.is_dataclass(n) for _, n in self.mro(c.mod, c.node)):
            fields = []
            for m, n in reversed(self.mro(c.mod, c.node)):
                for x in n.body:
                    if isinstance(x, ast.AnnAssign):
                        fields.append((x.target.id, x.value, m))
            pos = list(args)
            for fn, dflt, m in fields:
                if pos:
                    val = pos.pop(0)
                elif fn in kw:
                    val = kw.pop(fn)
                elif dflt is not None:
                    val = self.ev(dflt, st, self.new_frame(st, None), m)[0][1]
                else:
                    raise Unsupported('missing dataclass field ' + fn)
                self.setattr(st, v, fn, val)
            if pos or kw:
                raise Unsupported('dataclass arguments')
            return [(st, v)]
        if args or kw:
            raise Unsupported('constructor arguments of ' + c.name)
        return [(st, v)]

    # ------------------------------------------------------------------ protobuf messages (assumed contract of the protobuf runtime)
    # A message owns its fields: constructing it and appending to a repeated field copies.  Only the fields that were set are stored;
    # reading an unset one gives the default value.
    def message_field(self, cls, name):
        for f in self.repo.messages[cls]:
            if f.name == name:
                return f

    def message_list(self, st, items):
        r = self.new_root(st, ('LC', tuple(self.message_copy(st, x) for x in items)))
        self.msglists.add(r.place.oid)
        return r

    def message_copy(self, st, v):
        if isinstance(v, VPl) and isinstance(v.place, Root):
            c = st.store[v.place.oid]
            if c[0] == 'O' and c[1] in self.repo.messages:
                return self.new_root(st, ('O', c[1], {k: self.message_copy(st, x) for k, x in c[2].items()}))
            if c[0] == 'LC':
                return self.message_list(st, c[1])
            if c[0] == 'L':
                r = self.new_root(st, c)
                self.msglists.add(r.place.oid)
                return r
        if isinstance(v, VPl):
            return self.message_copy(st, self.root_of_term(st, self.read(st, v.place), v.place.ty))
        return v

    def new_message(self, st, cls, args, kw):
        self.assumed.add('protobuf messages: fields as in the descriptor, value semantics (copied on construction and append), defaults for unset fields; values within the range of the wire type')
        if args:
            raise Unsupported('positional arguments of a message')
        outs = [(st, {})]
        for k in kw:
            if self.message_field(cls, k) is None:
                raise Unsupported('unknown field %s of %s' % (k, cls))
        seen = set()
        for f in self.repo.messages[cls]:
            x = kw.get(f.name)
            if x is VNone:
                x = None
            nxt = []
            for s, d in outs:
                if f.repeated:
                    if x is None:
                        nxt.append((s, {**d, f.name: self.message_list(s, ())}))
                    else:
                        for s2, l in self.call_builtin(s, 'list', [x], {}, None, None, None):
                            nxt.append((s2, {**d, f.name: self.message_copy(s2, l)}))
                    continue
                if x is not None:
                    if isinstance(x, Z) and x.ty.k == 'opt':
                        raise Unsupported('optional value as a message field')
                    if f.kind == 'msg' and isinstance(x, Z) and x.ty.k != 'ref':
                        raise Unsupported('scalar as a message field')
                    if f.oneof is not None:
                        if f.oneof in seen:
                            raise Unsupported('two fields of a oneof')
                        seen.add(f.oneof)
                    nxt.append((s, {**d, f.name: self.message_copy(s, x)}))
                elif f.kind != 'msg' and f.oneof is None:
                    nxt.append((s, {**d, f.name: self.message_default(s, f)}))
                else:
                    nxt.append((s, d))
            outs = nxt
        return [(s, self.new_root(s, ('O', cls, d))) for s, d in outs]

    def message_default(self, st, f):
        if f.kind == 'msg':
            (s, m), = self.new_message(st, f.msg, [], {})
            st.moved = st.moved | {m.place.oid} | {x.place.oid for x in st.store[m.place.oid][2].values() if isinstance(x, VPl)}
            return m
        return {'str': lambda: self.lit(''), 'int': lambda: Z(z3.IntVal(0), INT), 'real': lambda: Z(z3.RealVal(0), REAL), 'bool': lambda: Z(z3.BoolVal(False), BOOL)}[f.kind]()

    def message_attr(self, st, v, cls, name):
        f = self.message_field(cls, name)
        if f is not None:
            return [(st, self.message_default(st, f))]
        if name == 'HasField' and isinstance(v.place, Root):
            def has(eng, s, a, kw):
                n = eng.litname(a[0].t)
                g = eng.message_field(cls, n)
                if g is None or g.repeated or g.kind != 'msg' and g.oneof is None:
                    raise Unsupported('HasField(%s)' % n)
                return [(s, Z(z3.BoolVal(n in s.store[v.place.oid][2]), BOOL))]
            return [(st, VPy(has, 'HasField'))]
        raise Unsupported('attribute %s of message %s' % (name, cls))

    def owned_by_message(self, st, p):
        if isinstance(p, Root):
            return p.oid in self.msglists
        while isinstance(p, Lens):
            if p.proj[0] == 'field' and p.parent is not None and self.ptype(st, p.parent).a[0] in self.repo.messages:
                return True
            p = p.parent
        return False

    def setattr(self, st, v, name, val):
        v = self.unopt(st, v)
        if isinstance(v, VPl) and self.typeof(st, v).k == 'obj' and self.typeof(st, v).a[0] in self.repo.messages:
            raise Unsupported('assignment to a message field')
        if isinstance(v, VPl):
            p = v.place
            t = self.typeof(st, v)
            if t.k == 'obj':
                if isinstance(p, Root):
                    if p.oid in st.moved:
                        raise Unsupported('mutation of an object after it was stored in a container')
                    c = st.store[p.oid]
                    d = dict(c[2])
                    d[name] = val
                    st.store[p.oid] = ('O', c[1], d)
                    self.log(('objf', p.oid, name))
                    return
                ft = dict(self.types.obj[t.a[0]])[name]
                self.write(st, Lens(p, ('field', name), ft, p.snap, p.ver), self.lower(st, val, ft, True))
                return
        if isinstance(v, Z) and v.ty.k == 'ref':
            cls = v.ty.a[0]
            mode, ft = self.types.ref[cls].get(name, (None, None))
            if mode == 'heap':
                self.write(st, Lens(None, ('heap', cls, name, v.t), ft), self.lower(st, val, ft, True))
                return
            if mode == 'imm':
                st.assume(self.imm(cls, name, ft)(v.t) == self.lower(st, val, ft, True))
                return
            if mode is None and name in getattr(self, 'ignored_fields', {}).get(cls, ()):
                return
        raise Unsupported('attribute assignment %s' % name)

    # ------------------------------------------------------------------ builtins
    def call_builtin(self, st, name, a, kw, fid, mod, node):
        h = getattr(self, 'bi_' + name.replace('.', '_'), None)
        if h is None:
            if name in EXC:
                return [(st, VExc(name))]
            raise Unsupported('builtin ' + name)
        return h(st, a, kw, fid, mod, node)

    def bi_len(self, st, a, kw, *r):
        return [(st, Z(self.length(st, a[0]), INT))]

    def bi_print(self, st, a, kw, *r):
        return [(st, VNone)]

    def bi_iter(self, st, a, kw, *r):
        v = a[0]
        w = self.view(st, v)
        if isinstance(v, VPl) and w.kind in ('list', 'keys', 'set', 'tuple'):
            return [(st, v)]
        return [(st, w)]

    def bi_range(self, st, a, kw, *r):
        a = [self.lower(st, self.unopt(st, x), INT) for x in a]
        lo, hi, step = (z3.IntVal(0), a[0], 1) if len(a) == 1 else (a[0], a[1], 1)
        if len(a) == 3:
            s = simp(a[2])
            if not z3.is_int_value(s) or s.as_long() not in (1, -1):
                raise Unsupported('range step')
            step = s.as_long()
        d = hi - lo if step == 1 else lo - hi
        n = simp(z3.If(d > 0, d, z3.IntVal(0)))
        w = VView(lambda s: n, lambda s, i: [(s, Z(simp(lo + i if step == 1 else lo - i), INT))], 'range')
        if z3.is_int_value(n) and z3.is_int_value(simp(lo)) and n.as_long() <= 4:
            l0 = simp(lo).as_long()
            return [(st, VView(w.n, w.get, 'tuple', VTup([self.I(l0 + step * k) for k in range(n.as_long())])))]
        return [(st, w)]

    def bi_enumerate(self, st, a, kw, *r):
        c = self.conc_items(st, a[0])
        if c is not None:
            return [(st, VTup([VTup([self.I(i), x]) for i, x in enumerate(c)]))]
        w = self.view(st, a[0])
        return [(st, VView(w.n, lambda s, i: [(s2, VTup([Z(i, INT), x])) for s2, x in w.get(s, i)], 'enum', a[0]))]

    def bi_zip(self, st, a, kw, *r):
        cs = [self.conc_items(st, x) for x in a]
        if all(c is not None for c in cs):
            return [(st, VTup([VTup(t) for t in zip(*cs)]))]
        ws = [self.view(st, x) for x in a]

        def n(s):
            m = ws[0].n(s)
            for w in ws[1:]:
                k = w.n(s)
                m = z3.If(k < m, k, m)
            return simp(m)

        def get(s, i):
            acc = [(s, [])]
            for w in ws:
                acc = [(s3, l + [x]) for s2, l in acc for s3, x in w.get(s2, i)]
            return [(s2, VTup(l)) for s2, l in acc]
        return [(st, VView(n, get, 'zip'))]

    def bi_reversed(self, st, a, kw, *r):
        c = self.conc_items(st, a[0])
        if c is not None:
            return [(st, VTup(c[::-1]))]
        w = self.view(st, a[0])
        return [(st, VView(w.n, lambda s, i: w.get(s, simp(w.n(s) - 1 - i)), 'rev'))]

    def bi_map(self, st, a, kw, fid, mod, node):
        f = a[0]
        c = self.conc_items(st, a[1])
        w = self.view(st, a[1])

        def get(s, i):
            out = []
            for s2, x in w.get(s, i):
                out += self.call(s2, f, [x], {}, fid, mod, node)
            return out
        if c is not None:
            acc = [(st, [])]
            for x in c:
                acc = [(s2, l + [y]) for s, l in acc for s2, y in self.call(s, f, [x], {}, fid, mod, node)]
            return [(s, VTup(l)) for s, l in acc]
        return [(st, VView(w.n, get, 'map', a[1]))]

    def bi_filter(self, st, a, kw, fid, mod, node):
        f = a[0]
        w = self.view(st, a[1])

        def cond(s, x):
            out = []
            for s2, v in self.call(s, f, [x], {}, fid, mod, node):
                out += self.branch(s2, self.truth(s2, v))
            return out
        return self.collect(st, w, lambda s, x: [(s, x)], cond, fid, mod, node)

    def bi_list(self, st, a, kw, fid, mod, node):
        if not a:
            return [(st, self.new_root(st, ('LC', ())))]
        return self.materialize(st, a[0], fid, mod, node)

    def bi_tuple(self, st, a, kw, fid, mod, node):
        if not a:
            return [(st, VTup([]))]
        c = self.conc_items(st, a[0])
        if c is not None:
            return [(st, VTup(c))]
        return self.materialize(st, a[0], fid, mod, node)

    def bi_dict(self, st, a, kw, fid, mod, node):
        if not a and not kw:
            return [(st, self.new_root(st, ('DC', ())))]
        if a and isinstance(a[0], VPl) and self.typeof(st, a[0]).k == 'dict':
            return [(st, self.copy_container(st, a[0]))]
        raise Unsupported('dict() of iterable')

    def copy_container(self, st, v):
        p = v.place
        if isinstance(p, Root):
            return self.new_root(st, st.store[p.oid])
        return self.root_of_term(st, self.read(st, p), p.ty)

    def bi_set(self, st, a, kw, fid, mod, node):
        if not a:
            return [(st, self.new_root(st, ('SC', ())))]
        return self.to_set(st, a[0], fid, mod, node)

    bi_frozenset = bi_set

    def set_of_seq(self, ss):
        """set of the elements of a sequence, by prefix length"""
        name = 'setof_' + str(ss)
        if name in SPECS:
            return SPECS[name]
        ks = ss.basis()

        def d(s, i):
            return z3.If(i <= 0, z3.K(ks, z3.BoolVal(False)), z3.Store(SPECS[name](s, i - 1), s[i - 1], z3.BoolVal(True)))
        return SpecFn(name, [ss, z3.IntSort()], z3.ArraySort(ks, z3.BoolSort()), d)

    def to_set(self, st, v, fid, mod, node):
        if isinstance(v, VPl):
            t = self.typeof(st, v)
            if t.k == 'set':
                return [(st, self.copy_container(st, v))]
            if t.k == 'dict':
                if self.dict_conc(st, v) is None:
                    t = self.dict_info(st, v)
                    return [(st, self.new_root(st, ('S', self.sort(t).has(self.read(st, v.place)), t.a[0])))]
        if isinstance(v, VView) and v.kind == 'keys':
            return self.to_set(st, v.src, fid, mod, node)
        c = self.conc_items(st, v)
        if c is not None:
            return [(st, self.new_root(st, ('SC', tuple(c))))]
        out = []
        for s, l in self.materialize(st, v, fid, mod, node):
            t = self.typeof(s, l)
            if self.has_bot(t):
                out.append((s, self.new_root(s, ('SC', ()))))
                continue
            q = self.read(s, l.place)
            out.append((s, self.new_root(s, ('S', self.set_of_seq(q.sort())(q, z3.Length(q)), t.a[0]))))
        return out

    def bi_int(self, st, a, kw, *r):
        v = self.unopt(st, a[0])
        if isinstance(v, Z) and v.ty.k in ('int', 'bool'):
            return [(st, Z(self.lower(st, v, INT), INT))]
        if isinstance(v, Z) and v.ty.k == 'real':
            return [(st, Z(simp(z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t))), INT))]
        if isinstance(v, Z) and v.ty.k == 'str':
            return [(st, Z(z3.Function('int_of_str', self.sort(STR), z3.IntSort())(v.t), INT))]
        raise Unsupported('int()')

    def bi_float(self, st, a, kw, *r):
        v = self.unopt(st, a[0])
        if isinstance(v, Z) and v.ty.k in ('int', 'bool', 'real'):
            return [(st, Z(self.lower(st, v, REAL), REAL))]
        if isinstance(v, Z) and v.ty.k == 'str':
            return [(st, Z(z3.Function('float_of_str', self.sort(STR), z3.RealSort())(v.t), REAL))]
        raise Unsupported('float()')

    def bi_bool(self, st, a, kw, *r):
        return [(st, self.B(self.truth(st, a[0])))]

    def bi_str(self, st, a, kw, *r):
        v = a[0] if a else self.lit('')
        if isinstance(v, Z) and v.ty.k == 'str':
            return [(st, v)]
        if isinstance(v, Z) and v.ty.k == 'bool':
            return [(s, self.lit(str(b))) for s, b in self.branch(st, v.t)]
        if isinstance(v, Z):
            f = z3.Function('str_of_' + self.types.name(v.ty), self.sort(v.ty), self.sort(STR))
            return [(st, Z(f(v.t), STR))]
        return [(st, Z(self.fresh('str', STR), STR))]

    def bi_ord(self, st, a, kw, *r):
        v = a[0]
        if isinstance(v, Z) and v.ty.k == 'str':
            f = z3.Function('ord', self.sort(STR), z3.IntSort())
            st.assume(f(v.t) >= 0)
            return [(st, Z(f(v.t), INT))]
        if isinstance(v, Z) and v.ty.k == 'int':
            return [(st, v)]
        raise Unsupported('ord')

    def bi_abs(self, st, a, kw, *r):
        v = a[0]
        return [(st, Z(z3.If(v.t >= 0, v.t, -v.t), v.ty))]

    def bi_hash(self, st, a, kw, *r):
        v = a[0]
        if isinstance(v, VTup):
            t = self.typeof(st, v)
            f = z3.Function('hash_' + self.types.name(t), self.sort(t), z3.IntSort())
            return [(st, Z(f(self.lower(st, v, t)), INT))]
        if isinstance(v, Z) and v.ty.k == 'ref' or isinstance(v, VPl) and self.typeof(st, v).k == 'obj':
            return self.call_method(st, v, '__hash__', [])
        if isinstance(v, Z):
            f = z3.Function('hash_' + self.types.name(v.ty), self.sort(v.ty), z3.IntSort())
            return [(st, Z(f(v.t), INT))]
        raise Unsupported('hash')

    def bi_type(self, st, a, kw, *r):
        v = a[0]
        if isinstance(v, Z):
            m = {'int': 'int', 'str': 'str', 'bool': 'bool', 'real': 'float'}.get(v.ty.k)
            if m:
                return [(st, VBuiltin(m))]
            if v.ty.k == 'ref' and not v.ty.a[0] == 'pytype':
                return [(st, Z(z3.Function('typeof_' + v.ty.a[0], self.sort(v.ty), self.sort(TRef('pytype')))(v.t), TRef('pytype')))]
            if v.ty.k == 'any':
                return [(st, Z(z3.Function('typeof_any', self.sort(ANY), self.sort(TRef('pytype')))(v.t), TRef('pytype')))]
        if v is VNone:
            return [(st, VBuiltin('NoneType'))]
        if isinstance(v, VPl) and self.typeof(st, v).k in ('list', 'dict', 'set'):
            return [(st, VBuiltin(self.typeof(st, v).k))]
        if isinstance(v, VTup):
            return [(st, VBuiltin('tuple'))]
        if isinstance(v, VPl) and self.typeof(st, v).k == 'obj':
            c = self.class_named(self.typeof(st, v).a[0])
            if c:
                return [(st, VClass(*c))]
        raise Unsupported('type()')

    def bi_isinstance(self, st, a, kw, *r):
        v, c = a
        h = getattr(v, 'isinstance', None)
        if h:
            return [(st, self.B(h(self, st, c)))]
        if isinstance(v, Z) and v.ty.k == 'opt':
            out = []
            srt = self.sort(v.ty)
            for s, none in self.branch(st, srt.is_none(v.t)):
                out += [(s, self.B(False))] if none else self.bi_isinstance(s, [self.lift(s, srt.val(v.t), v.ty.a[0]), c], kw, *r)
            return out
        if isinstance(c, VTup):
            acc, done = [(st, None)], []
            for x in c.items:
                nxt = []
                for s, b in acc:
                    for s2, y in self.bi_isinstance(s, [v, x], kw, *r):
                        nxt.append((s2, y.t if b is None else z3.Or(b, y.t)))
                acc = nxt
            return [(s, Z(b if b is not None else z3.BoolVal(False), BOOL)) for s, b in acc]
        if isinstance(v, Z) and v.ty.k == 'ref' and (v.ty.a[0], getattr(c, 'name', None)) in self.isinst:
            return [(st, Z(self.isinst[(v.ty.a[0], c.name)](v.t), BOOL))]
        if isinstance(c, VClass):
            if isinstance(v, Z) and v.ty.k == 'ref' or isinstance(v, VPl) and self.typeof(st, v).k == 'obj':
                cl = self.class_named(self.self_class(st, v))
                return [(st, self.B(any(n.name == c.name for _, n in self.mro(*cl))))]
            if v is VNone or isinstance(v, (VTup, VPl)) or isinstance(v, Z) and v.ty.k in ('int', 'str', 'bool', 'real'):
                return [(st, self.B(False))]
        if isinstance(c, VBuiltin) and isinstance(v, Z):
            m = {'int': ('int',), 'str': ('str',), 'bool': ('bool',), 'float': ('real',)}.get(c.name)
            if m and v.ty.k in ('int', 'str', 'bool', 'real'):
                return [(st, self.B(v.ty.k in m or (c.name == 'int' and v.ty.k == 'bool')))]
            if c.name in ('list', 'dict', 'set', 'tuple') or m and v.ty.k in ('ref', 'enum'):
                if v.ty.k in ('int', 'str', 'bool', 'real', 'ref', 'enum'):
                    return [(st, self.B(False))]
        if isinstance(c, VBuiltin) and c.name in ('int', 'str', 'bool', 'float', 'list', 'dict', 'set', 'tuple') and (v is VNone or isinstance(v, (VTup, VPl))):
            k = 'none' if v is VNone else 'tup' if isinstance(v, VTup) else self.typeof(st, v).k
            return [(st, self.B(k == {'tuple': 'tup'}.get(c.name, c.name)))]
        raise Unsupported('isinstance')

    def sum_fn(self, ss):
        name = 'sum_' + str(ss)
        if name in SPECS:
            return SPECS[name]
        zero = z3.IntVal(0) if ss.basis() == z3.IntSort() else z3.RealVal(0)

        def d(s, i):
            return z3.If(i <= 0, zero, SPECS[name](s, i - 1) + s[i - 1])
        return SpecFn(name, [ss, z3.IntSort()], ss.basis(), d)

    def bi_sum(self, st, a, kw, fid, mod, node):
        c = self.conc_items(st, a[0])
        if c is not None:
            acc = [(st, self.I(0))]
            for x in c:
                acc = [r for s, t in acc for r in self.binop(s, ast.Add(), t, x)]
            return acc
        # accumulate in a verified loop: total += element
        w = self.view(st, a[0])
        cf = self.new_frame(st, fid)
        st.frames[cf][0]['$sum'] = self.I(0)
        calls = st.calls
        st.calls = st.calls + (cf,)

        def body(s, x):
            x = self.unopt(s, x)
            o = []
            for s2, y in self.binop(s, ast.Add(), s.frames[cf][0]['$sum'], x):
                self.setvar(s2, cf, '$sum', y)
                o.append((s2, ('next',)))
            return o
        out = []
        for s, o in self.for_loop(st, w, body, cf, mod, node):
            s.calls = calls
            out.append((s, s.frames[cf][0]['$sum']))
        return out

    def bi_any(self, st, a, kw, fid, mod, node):
        return self.anyall(st, a, True, fid, mod, node)

    def bi_all(self, st, a, kw, fid, mod, node):
        return self.anyall(st, a, False, fid, mod, node)

    def anyall(self, st, a, isany, fid, mod, node):
        w = self.view(st, a[0])
        c = self.conc_items(st, a[0])
        if c is not None:
            ts = [self.truth(st, x) for x in c]
            return [(st, self.B(simp(z3.Or(ts + [z3.BoolVal(False)]) if isany else z3.And(ts + [z3.BoolVal(True)]))))]
        cf = self.new_frame(st, fid)
        st.frames[cf][0]['$any'] = self.B(not isany)
        calls = st.calls
        st.calls = st.calls + (cf,)

        def body(s, x):
            o = []
            for s2, b in self.branch(s, self.truth(s, x)):
                if b == isany:
                    self.setvar(s2, cf, '$any', self.B(isany))
                    o.append((s2, ('break',)))
                else:
                    o.append((s2, ('next',)))
            return o
        out = []
        for s, o in self.for_loop(st, w, body, cf, mod, node):
            s.calls = calls
            out.append((s, s.frames[cf][0]['$any']))
        return out

    def bi_min(self, st, a, kw, fid, mod, node):
        return self.minmax(st, a, kw, False, fid, mod, node)

    def bi_max(self, st, a, kw, fid, mod, node):
        return self.minmax(st, a, kw, True, fid, mod, node)

    def minmax(self, st, a, kw, ismax, fid, mod, node):
        if len(a) >= 2 and not kw:
            r = self.unopt(st, a[0])
            for x in a[1:]:
                x = self.unopt(st, x)
                t = self.join(r.ty, x.ty)
                p, q = self.lower(st, r, t), self.lower(st, x, t)
                r = Z(simp(z3.If(q > p if ismax else q < p, q, p)), t)
            return [(st, r)]
        h = self.ext.get('builtins.max' if ismax else 'builtins.min')
        if h:
            return h(self, st, a, kw)
        # max/min over an iterable: element of it, extreme under the key (assumed contract of the builtin)
        out = []
        for s, l in self.materialize(st, a[0], fid, mod, node):
            n = self.length(s, l)
            self.oblige(s, n > 0, 'max/min of a non-empty iterable')
            i = self.fresh('mm', INT)
            s.assume(i >= 0, i < n)
            v = self.list_get(s, l, i)
            key = kw.get('key')
            c = self.conc_items(s, l)
            if c is None:
                q = self.read(s, l.place)
                j = z3.Int('j!mm')
                ety = self.typeof(s, l).a[0]
                kj, ki = self.key_term(s, key, q[j], ety, fid, mod, node), self.key_term(s, key, q[i], ety, fid, mod, node)
                if kj is not None and ki is not None:
                    s.assume(self.forall(1, lambda x: z3.Implies(z3.And(x >= 0, x < n), (lambda k: k <= ki if ismax else k >= ki)(z3.substitute(kj, (j, x))))))
                    # the first of the extreme elements is returned
                    s.assume(self.forall(1, lambda x: z3.Implies(z3.And(x >= 0, x < i), (lambda k: k < ki if ismax else k > ki)(z3.substitute(kj, (j, x))))))
                    if ety.k in ('str', 'int', 'ref', 'any') and isinstance(v, Z):
                        v = Z(q[i], ety)
            self.assumed.add('max/min of an iterable returns one of its elements, extreme under the key')
            out.append((s, v))
        return out

    def bi_sorted(self, st, a, kw, fid, mod, node):
        h = self.ext.get('builtins.sorted')
        if h:
            return h(self, st, a, kw)
        out = []
        for s, l in self.materialize(st, a[0], fid, mod, node):
            c = self.conc_items(s, l)
            if c is not None and len(c) <= 1:
                out.append((s, l))
                continue
            self.to_sym(s, l)
            t = self.typeof(s, l)
            q = self.read(s, l.place)
            key = kw.get('key')
            rev = kw.get('reverse')
            revb = rev is not None and z3.is_true(simp(self.truth(s, rev)))
            out.append((s, self.new_root(s, ('L', self.sorted_term(s, q, t.a[0], key, revb, fid, mod, node), t.a[0]))))
        return out

    def sorted_term(self, st, q, ety, key, rev, fid, mod, node):
        """assumed contract of sorted(): a permutation (given by an index bijection), ordered by key, stable"""
        self.assumed.add('sorted()/list.sort(): a stable permutation ordered by the key')
        r = self.fresh('sorted', TList(ety))
        perm = z3.Function(fresh_name('perm'), z3.IntSort(), z3.IntSort())
        inv = z3.Function(fresh_name('pinv'), z3.IntSort(), z3.IntSort())
        n = z3.Length(q)
        st.assume(z3.Length(r) == n)
        st.assume(self.forall(1, lambda j: z3.Implies(z3.And(j >= 0, j < n), z3.And(perm(j) >= 0, perm(j) < n, r[j] == q[perm(j)], inv(perm(j)) == j))))
        st.assume(self.forall(1, lambda j: z3.Implies(z3.And(j >= 0, j < n), z3.And(inv(j) >= 0, inv(j) < n, perm(inv(j)) == j, r[inv(j)] == q[j]))))
        # ordering between neighbours and any pair
        x, y = z3.Int('x!so'), z3.Int('y!so')

        def keyterm(e):
            return self.key_term(st, key, e, ety, fid, mod, node)
        kx, ky = keyterm(r[x]), keyterm(r[y])
        if kx is not None:
            def order(p, w):
                a, b = z3.substitute(kx, (x, p)), z3.substitute(ky, (y, w))
                return z3.Implies(z3.And(p >= 0, p < w, w < n), a >= b if rev else a <= b)
            st.assume(self.forall(2, order))
        return r

    def forall(self, n, body):
        """universally quantified fact over n indices, instantiated with the sequence indices of a query"""
        u = UPred(fresh_name('forall'), [z3.IntSort()], [z3.IntSort()] * n, lambda d, *x: body(*x))
        return u(z3.IntVal(0))

    def key_term(self, st, key, e, ety, fid, mod, node):
        """numeric sort key of element e, or None when it is not a single numeric term"""
        if key is None or key is VNone:
            return e if ety.k in ('int', 'real') else None
        s2 = st.clone()
        if isinstance(key, VBMethod) and key.name == 'get' and isinstance(key.obj, VPl) and self.typeof(s2, key.obj).k == 'dict' and self.dict_conc(s2, key.obj) is None:
            t = self.dict_info(s2, key.obj)
            if t.a[0] == ety and t.a[1].k in ('int', 'real'):
                # dict.get of a present key (the elements are keys of this very dictionary)
                d = self.read(s2, key.obj.place)
                if not (z3.is_app(e) and e.num_args() == 2 and e.arg(0).eq(simp(self.sort(t).keys(d))) or e.arg(0).eq(self.sort(t).keys(d))):
                    return None
                return z3.Select(self.sort(t).val(d), e)
        saved = self.raised
        self.raised = []
        try:
            res = self.call(s2, key, [self.lift(s2, e, ety)], {}, fid, mod, node)
            if self.raised:
                return None
        finally:
            self.raised = saved
        if len(res) != 1 or not isinstance(res[0][1], Z) or res[0][1].ty.k not in ('int', 'real'):
            return None
        return res[0][1].t

    # ------------------------------------------------------------------ builtin methods
    def call_bmethod(self, st, v, name, a, kw, fid, mod, node):
        if isinstance(v, VPl):
            t = self.typeof(st, v)
            h = getattr(self, 'm_%s_%s' % (t.k, name), None)
            if h is None:
                raise Unsupported('method %s.%s' % (t.k, name))
            return h(st, v, a, kw, fid, mod, node)
        if isinstance(v, Z) and v.ty.k == 'str':
            return self.str_method(st, v, name, a, kw, fid, mod, node)
        raise Unsupported('method %s of %s' % (name, type(v).__name__))

    def str_method(self, st, v, name, a, kw, fid, mod, node):
        s0 = self.litname(v.t)
        if s0 is not None and name in ('strip', 'lower', 'upper', 'startswith', 'endswith', 'index', 'find', 'lstrip', 'rstrip', 'isdigit', 'replace'):
            args = [self.const_key(st, x) for x in a]
            if all(x is not None and x[0] in ('str', 'int') for x in args):
                try:
                    r = getattr(s0, name)(*[x[1] for x in args])
                except ValueError:
                    raise Unsupported('str.%s raises' % name)
                return [(st, self.lit(r) if isinstance(r, str) else self.B(r) if isinstance(r, bool) else self.I(r))]
        if name == 'join':
            out = []
            for s, l in self.materialize(st, a[0], fid, mod, node):
                c = self.conc_items(s, l)
                t = TList(STR)
                f = z3.Function('strjoin', self.sort(STR), self.sort(t), self.sort(STR))
                out.append((s, Z(f(v.t, self.read(s, l.place, t)), STR)))
            return out
        if name == 'split':
            f = z3.Function('strsplit', self.sort(STR), self.sort(STR), self.sort(TList(STR)))
            q = f(v.t, self.lower(st, a[0], STR))
            return [(st, self.new_root(st, ('L', q, STR)))]
        if name in ('strip', 'lower', 'upper') and not a:
            return [(st, Z(z3.Function('str' + name, self.sort(STR), self.sort(STR))(v.t), STR))]
        raise Unsupported('str.' + name)

    def m_list_append(self, st, v, a, kw, *r):
        self.list_append(st, v, a[0])
        return [(st, VNone)]

    def m_list_extend(self, st, v, a, kw, fid, mod, node):
        out = []
        for s, l in self.materialize(st, a[0], fid, mod, node):
            c = self.conc_items(s, l)
            if c is not None:
                for x in c:
                    self.list_append(s, v, x)
            else:
                t = self.typeof(s, l)
                self.list_extend_term(s, v, self.read(s, l.place), t.a[0])
            out.append((s, VNone))
        return out

    def m_list_insert(self, st, v, a, kw, *r):
        p = v.place
        n = self.length(st, v)
        i = simp(self.lower(st, a[0], INT))
        i = simp(z3.If(i < 0, z3.If(n + i < 0, z3.IntVal(0), n + i), z3.If(i > n, n, i)))
        if isinstance(p, Root) and st.store[p.oid][0] == 'LC':
            if z3.is_int_value(i):
                l = list(st.store[p.oid][1])
                l.insert(i.as_long(), a[1])
                self.log(('obj', p.oid))
                st.store[p.oid] = ('LC', tuple(l))
                return [(st, VNone)]
            self.to_sym(st, v, self.typeof(st, a[1]))
        t = self.typeof(st, v)
        s = self.read(st, p)
        x = z3.Unit(self.lower(st, a[1], t.a[0], True))
        if z3.is_int_value(i) and i.as_long() == 0:
            new = z3.Concat(x, s)
        else:
            new = z3.Concat(z3.Extract(s, z3.IntVal(0), i), x, z3.Extract(s, i, z3.Length(s) - i))
        self.write(st, p, new, True)
        return [(st, VNone)]

    def m_list_pop(self, st, v, a, kw, *r):
        n = self.length(st, v)
        i = simp(self.norm_index(st, self.lower(st, a[0], INT), n)) if a else simp(n - 1)
        self.oblige(st, z3.And(i >= 0, i < n), 'pop from a non-empty list')
        x = self.list_get(st, v, i)
        if isinstance(x, VPl) and isinstance(x.place, Lens):
            x = self.root_of_term(st, self.read(st, x.place), x.place.ty)
        self.list_del(st, v, i)
        return [(st, x)]

    def m_list_clear(self, st, v, a, kw, *r):
        p = v.place
        if isinstance(p, Root):
            if p.oid in st.moved:
                raise Unsupported('mutation of an object after it was stored in a container')
            self.log(('obj', p.oid))
            c = st.store[p.oid]
            st.store[p.oid] = ('LC', ()) if c[0] == 'LC' else ('L', z3.Empty(self.sort(TList(c[2]))), c[2])
            st.ver[p.oid] = next(self.oid)
        else:
            self.write(st, p, z3.Empty(self.sort(p.ty)), True)
        return [(st, VNone)]

    def m_list_copy(self, st, v, a, kw, fid, mod, node):
        return [(st, self.copy_container(st, v))]

    def m_list_sort(self, st, v, a, kw, fid, mod, node):
        out = []
        for s, l in self.bi_sorted(st, [v], kw, fid, mod, node):
            c = self.conc_items(s, l)
            if c is not None:
                out.append((s, VNone))
                continue
            self.to_sym(s, v)
            self.write(s, v.place, self.read(s, l.place), True)
            out.append((s, VNone))
        return out

    def m_dict_get(self, st, v, a, kw, *r):
        dflt = a[1] if len(a) > 1 else VNone
        c = self.dict_has(st, v, a[0])
        out = []
        for s, b in self.branch(st, c):
            out.append((s, self.dict_get(s, v, a[0], False) if b else dflt))
        return out

    def m_dict_keys(self, st, v, a, kw, *r):
        return [(st, self.dict_view(st, v, 'keys'))]

    def m_dict_values(self, st, v, a, kw, *r):
        return [(st, self.dict_view(st, v, 'values'))]

    def m_dict_items(self, st, v, a, kw, *r):
        return [(st, self.dict_view(st, v, 'items'))]

    def m_dict_copy(self, st, v, a, kw, *r):
        return [(st, self.copy_container(st, v))]

    def m_dict_setdefault(self, st, v, a, kw, *r):
        out = []
        for s, b in self.branch(st, self.dict_has(st, v, a[0])):
            if not b:
                self.dict_set(s, v, a[0], a[1] if len(a) > 1 else VNone)
            out.append((s, self.dict_get(s, v, a[0], False)))
        return out

    def m_dict_clear(self, st, v, a, kw, *r):
        p = v.place
        t = self.typeof(st, v)
        if isinstance(p, Root):
            self.log(('obj', p.oid))
            st.store[p.oid] = ('DC', ()) if self.has_bot(t) else ('D', self.empty_dict(t), t.a[0], t.a[1])
        else:
            self.write(st, p, self.empty_dict(t), True)
        return [(st, VNone)]

    def m_dict_pop(self, st, v, a, kw, *r):
        if len(a) > 1:
            out = []
            for s, b in self.branch(st, self.dict_has(st, v, a[0])):
                if b:
                    x = self.dict_get(s, v, a[0], False)
                    self.dict_del(s, v, a[0])
                    out.append((s, x))
                else:
                    out.append((s, a[1]))
            return out
        x = self.dict_get(st, v, a[0], True)
        self.dict_del(st, v, a[0])
        return [(st, x)]

    def set_write(self, st, v, x, val):
        p = v.place
        if isinstance(p, Root) and st.store[p.oid][0] == 'SC':
            if not st.store[p.oid][1] and not val:
                return
            self.to_sym(st, v, self.typeof(st, x))
        t = self.typeof(st, v)
        self.write(st, p, z3.Store(self.read(st, p), self.lower(st, x, t.a[0]), z3.BoolVal(val)), True)

    def m_set_add(self, st, v, a, kw, *r):
        self.set_write(st, v, a[0], True)
        return [(st, VNone)]

    def m_set_discard(self, st, v, a, kw, *r):
        self.set_write(st, v, a[0], False)
        return [(st, VNone)]

    def m_set_remove(self, st, v, a, kw, *r):
        (s, c), = self.contains(st, a[0], v)
        self.oblige(st, c, 'set element present')
        self.set_write(st, v, a[0], False)
        return [(st, VNone)]

    def m_set_clear(self, st, v, a, kw, *r):
        p = v.place
        if isinstance(p, Root):
            self.log(('obj', p.oid))
            c = st.store[p.oid]
            st.store[p.oid] = ('SC', ()) if c[0] == 'SC' else ('S', z3.K(self.sort(c[2]), z3.BoolVal(False)), c[2])
        else:
            self.write(st, p, z3.K(self.sort(p.ty.a[0]), z3.BoolVal(False)), True)
        return [(st, VNone)]

    def m_set_copy(self, st, v, a, kw, *r):
        return [(st, self.copy_container(st, v))]

    def m_set_issubset(self, st, v, a, kw, *r):
        return [(st, self.B(self.subset(st, v, a[0])))]

    def m_set_issuperset(self, st, v, a, kw, *r):
        return [(st, self.B(self.subset(st, a[0], v)))]

    def m_set_union(self, st, v, a, kw, *r):
        return [(st, self.set_op(st, ast.BitOr(), v, a[0]))]

    # ------------------------------------------------------------------ externals
    def call_ext(self, st, dotted, a, kw, fid, mod, node):
        if dotted in self.ext:
            if getattr(self.ext[dotted], 'is_value', False):
                return self.call(st, self.ext[dotted](self, st), a, kw, fid, mod, node)
            return self.ext[dotted](self, st, a, kw)
        if dotted in ('copy.copy', 'copy.deepcopy'):
            return self.do_copy(st, a[0], dotted.endswith('deepcopy'), fid, mod, node)
        if dotted == 'math.log2':
            f = z3.Function('log2', z3.RealSort(), z3.RealSort())
            return [(st, Z(f(self.lower(st, a[0], REAL)), REAL))]
        if dotted == 'uuid.uuid4':
            self.assumed.add('uuid.uuid4() is fresh')
            return [(st, Z(self.fresh('uuid', ANY), ANY))]
        raise Unsupported('external call ' + dotted)

    def do_copy(self, st, v, deep, fid, mod, node):
        if v is VNone or isinstance(v, Z) and v.ty.k != 'ref' and v.ty.k != 'opt':
            if deep and isinstance(v, Z) and v.ty.k == 'any':
                self.assumed.add('copy.deepcopy of an opaque attribute value is equal to it')
            return [(st, v)]
        if isinstance(v, Z) and v.ty.k == 'ref' or isinstance(v, VPl) and self.typeof(st, v).k == 'obj':
            m = self.find_method(self.self_class(st, v), '__deepcopy__' if deep else '__copy__')
            if m:
                return self.call_method(st, v, '__deepcopy__' if deep else '__copy__', [])
            raise Unsupported('copy of object without __copy__')
        if isinstance(v, VPl):
            t = self.typeof(st, v)
            if not deep:
                return [(st, self.copy_container(st, v))]
            if t.k == 'list':
                c = self.conc_items(st, v)
                if c is not None:
                    acc = [(st, [])]
                    for x in c:
                        acc = [(s2, l + [y]) for s, l in acc for s2, y in self.do_copy(s, x, True, fid, mod, node)]
                    return [(s, self.new_root(s, ('LC', tuple(l)))) for s, l in acc]
                return self.collect(st, self.view(st, v), lambda s, x: self.do_copy(s, x, True, fid, mod, node), None, fid, mod, node)
            if self.deep_fn is not None and t in self.deep_fn:
                return [(st, self.root_of_term(st, self.deep_fn[t](self.lower(st, v, t)), t))]
            if t.k == 'dict' and not self.is_container(t.a[1]) and t.a[1].k != 'ref':
                self.assumed.add('copy.deepcopy of an opaque attribute value is equal to it')
                return [(st, self.copy_container(st, v))]
        raise Unsupported('copy')

    # ================================================================== statements
    def block(self, stmts, st, fid, mod):
        """-> [(st, outcome)]"""
        cur = [st]
        outs = []
        for s in stmts:
            nxt = []
            for x in cur:
                for s2, o in self.stmt(s, x, fid, mod):
                    if o[0] == 'next':
                        nxt.append(s2)
                    else:
                        outs.append((s2, o))
            cur = nxt
            if not cur:
                break
        return outs + [(s, ('next',)) for s in cur]

    def stmt(self, n, st, fid, mod):
        self.cur_line = n.lineno
        m = getattr(self, 'st_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('statement ' + type(n).__name__)
        saved = self.raised
        self.raised = []
        try:
            outs = m(n, st, fid, mod)
            outs = outs + self.raised
        finally:
            self.raised = saved
        return outs

    def st_Expr(self, n, st, fid, mod):
        if isinstance(n.value, ast.Constant):
            return [(st, ('next',))]
        return [(s, ('next',)) for s, _ in self.ev(n.value, st, fid, mod)]

    def st_Pass(self, n, st, fid, mod):
        return [(st, ('next',))]

    def st_Import(self, n, st, fid, mod):
        for a in n.names:
            self.setvar(st, fid, (a.asname or a.name).split('.')[0], VExt(a.name))
        return [(st, ('next',))]

    def st_Assign(self, n, st, fid, mod):
        out = []
        for s, v in self.ev(n.value, st, fid, mod):
            cur = [s]
            for t in n.targets:
                cur = [s3 for s2 in cur for s3 in self.assign_target(s2, t, v, fid, mod)]
            out += [(s2, ('next',)) for s2 in cur]
        return out

    def st_AnnAssign(self, n, st, fid, mod):
        if n.value is None:
            return [(st, ('next',))]
        out = []
        for s, v in self.ev(n.value, st, fid, mod):
            out += [(s2, ('next',)) for s2 in self.assign_target(s, n.target, v, fid, mod)]
        return out

    def assign_target(self, st, t, v, fid, mod):
        """-> [st]"""
        if isinstance(t, ast.Name):
            self.setvar(st, fid, t.id, v)
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            v = self.unopt(st, v)
            items = self.conc_items(st, v)
            if items is None or len(items) != len(t.elts):
                raise Unsupported('unpacking')
            cur = [st]
            for x, y in zip(t.elts, items):
                cur = [s3 for s2 in cur for s3 in self.assign_target(s2, x, y, fid, mod)]
            return cur
        if isinstance(t, ast.Attribute):
            out = []
            for s, o in self.ev(t.value, st, fid, mod):
                self.setattr(s, o, t.attr, v)
                out.append(s)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, o in self.ev(t.value, st, fid, mod):
                if isinstance(t.slice, ast.Slice):
                    raise Unsupported('slice assignment')
                for s2, k in self.ev(t.slice, s, fid, mod):
                    self.cur_line = t.lineno
                    out += self.setitem(s2, o, k, v)
            return out
        raise Unsupported('assignment target')

    def st_AugAssign(self, n, st, fid, mod):
        load = ast.copy_location(self.as_load(n.target), n.target)
        out = []
        for s, a in self.ev(load, st, fid, mod):
            for s2, b in self.ev(n.value, s, fid, mod):
                if isinstance(a, VPl) and isinstance(n.op, ast.Add) and self.typeof(s2, a).k == 'list':
                    out += [(s3, ('next',)) for s3, _ in self.m_list_extend(s2, a, [b], {}, fid, mod, n)]
                    continue
                for s3, r in self.binop(s2, n.op, a, b):
                    out += [(s4, ('next',)) for s4 in self.assign_target(s3, n.target, r, fid, mod)]
        return out

    def as_load(self, t):
        import copy
        t = copy.deepcopy(t)
        t.ctx = ast.Load()
        return t

    def st_If(self, n, st, fid, mod):
        out = []
        for s, v in self.ev(n.test, st, fid, mod):
            for s2, b in self.branch(s, self.truth(s, v)):
                out += self.block(n.body if b else n.orelse, s2, fid, mod)
        return out

    def st_Return(self, n, st, fid, mod):
        if n.value is None:
            return [(st, ('return', VNone))]
        return [(s, ('return', v)) for s, v in self.ev(n.value, st, fid, mod)]

    def st_Break(self, n, st, fid, mod):
        return [(st, ('break',))]

    def st_Continue(self, n, st, fid, mod):
        return [(st, ('continue',))]

    def st_Raise(self, n, st, fid, mod):
        name = '?'
        e = n.exc
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            name = e.id
        return [(st, ('raise', name, n.lineno))]

    def st_Assert(self, n, st, fid, mod):
        out = []
        for s, v in self.ev(n.test, st, fid, mod):
            for s2, b in self.branch(s, self.truth(s, v)):
                out.append((s2, ('next',) if b else ('raise', 'AssertionError', n.lineno)))
        return out

    def st_Delete(self, n, st, fid, mod):
        cur = [st]
        for t in n.targets:
            nxt = []
            for s in cur:
                if isinstance(t, ast.Subscript):
                    for s2, o in self.ev(t.value, s, fid, mod):
                        for s3, k in self.ev(t.slice, s2, fid, mod):
                            nxt += self.delitem(s3, o, k)
                else:
                    raise Unsupported('del')
            cur = nxt
        return [(s, ('next',)) for s in cur]

    def st_FunctionDef(self, n, st, fid, mod):
        if n.decorator_list:
            raise Unsupported('decorated nested function')
        self.setvar(st, fid, n.name, VFunc(n, mod, fid, n.name))
        return [(st, ('next',))]

    def st_Global(self, n, st, fid, mod):
        d = st.frames[fid][0]
        d['$global'] = tuple(d.get('$global', ())) + tuple(n.names)
        d['$mod'] = mod.name
        return [(st, ('next',))]

    def st_Nonlocal(self, n, st, fid, mod):
        d = st.frames[fid][0]
        d['$nonlocal'] = tuple(d.get('$nonlocal', ())) + tuple(n.names)
        return [(st, ('next',))]

    def st_With(self, n, st, fid, mod):
        cur = [st]
        for it in n.items:
            nxt = []
            for s in cur:
                for s2, v in self.ev(it.context_expr, s, fid, mod):
                    if it.optional_vars is not None:
                        nxt += self.assign_target(s2, it.optional_vars, v, fid, mod)
                    else:
                        nxt.append(s2)
            cur = nxt
        return [r for s in cur for r in self.block(n.body, s, fid, mod)]

    # ================================================================== loops
    def st_For(self, n, st, fid, mod):
        out = []
        for s, it in self.ev(n.iter, st, fid, mod):
            def body(s2, x):
                o = []
                for s3 in self.assign_target(s2, n.target, x, fid, mod):
                    o += self.block(n.body, s3, fid, mod)
                return o
            items = self.conc_items(s, it)
            if items is None:
                it = self.view(s, it)
            for s2, o in self.for_loop(s, it, body, fid, mod, n):
                if o[0] == 'next' and n.orelse and not getattr(s2, '_broke', False):
                    out += self.block(n.orelse, s2, fid, mod)
                else:
                    if o[0] == 'next':
                        s2._broke = False
                    out.append((s2, o))
        return out

    def for_loop(self, st, view, body, fid, mod, node):
        items = self.conc_items(st, view)
        if items is not None and len(items) <= 8:
            cur, outs = [st], []
            for x in items:
                nxt = []
                for s in cur:
                    for s2, o in body(s, x):
                        if o[0] in ('next', 'continue'):
                            nxt.append(s2)
                        elif o[0] == 'break':
                            s2._broke = True
                            outs.append((s2, ('next',)))
                        else:
                            outs.append((s2, o))
                cur = nxt
            for s in cur:
                s._broke = False
            return outs + [(s, ('next',)) for s in cur]
        if items is not None:
            view = self.view(st, view)
        iname = '$i%d' % node.lineno if node is not None and hasattr(node, 'lineno') else '$i'
        while iname in st.frames[fid][0] and not isinstance(st.frames[fid][0][iname], VUndef):
            iname += "'"
        st.frames[fid][0][iname] = self.I(0)
        if isinstance(view.src, (VPl, Z)):
            st.frames[fid][0]['$s' + iname[2:]] = view.src

        def idx(s):
            return s.frames[fid][0][iname].t

        def step(s):
            k, n = idx(s), view.n(s)
            exits, backs = [], []
            for s1, more in self.branch(s, k < n):
                if not more:
                    s1.assume(k >= n)
                    s1._broke = False
                    exits.append((s1, ('next',)))
                    continue
                for s2, x in view.get(s1, k):
                    for s3, o in body(s2, x):
                        if o[0] in ('next', 'continue'):
                            self.setvar(s3, fid, iname, Z(simp(k + 1), INT))
                            backs.append(s3)
                        elif o[0] == 'break':
                            s3._broke = True
                            exits.append((s3, ('next',)))
                        else:
                            exits.append((s3, o))
            return exits, backs
        generic = [('%s in range' % iname, lambda s: z3.And(idx(s) >= 0, z3.Or(idx(s) <= view.n(s), idx(s) == 0)))]
        outs = self.loop(st, fid, step, node, generic, mod)
        for s, o in outs:
            s.frames[fid][0].pop(iname, None)
            s.frames[fid][0].pop('$s' + iname[2:], None)
        return outs

    def st_While(self, n, st, fid, mod):
        def step(s):
            exits, backs = [], []
            for s1, v in self.ev(n.test, s, fid, mod):
                for s2, b in self.branch(s1, self.truth(s1, v)):
                    if not b:
                        s2._broke = False
                        exits.append((s2, ('next',)))
                        continue
                    for s3, o in self.block(n.body, s2, fid, mod):
                        if o[0] in ('next', 'continue'):
                            backs.append(s3)
                        elif o[0] == 'break':
                            s3._broke = True
                            exits.append((s3, ('next',)))
                        else:
                            exits.append((s3, o))
            return exits, backs
        if n.orelse:
            raise Unsupported('while-else')
        return self.loop(st, fid, step, n, [], mod)

    # ------------------------------------------------------------------ the loop rule
    def fresh_value(self, st, ty, name, ro=False):
        if ty.k == 'none':
            return VNone
        if ty.k in ('py', 'bot'):
            return VUndef()
        if ty.k == 'tup':
            return VTup([self.fresh_value(st, x, name) for x in ty.a])
        if self.has_bot(ty):
            if ty.k == 'list':
                return self.new_root(st, ('LC', ()))
            if ty.k == 'dict':
                return self.new_root(st, ('DC', ()))
            if ty.k == 'set':
                return self.new_root(st, ('SC', ()))
            raise Unsupported('unknown element type of ' + name)
        c = self.fresh(name, ty)
        v = self.lift(st, c, ty)
        if ro and isinstance(v, VPl):
            st.moved = st.moved | {v.place.oid}
        return v

    def val_of(self, st, key):
        if key[0] == 'var':
            fr = st.frames.get(key[1])
            return fr[0].get(key[2]) if fr else None
        if key[0] == 'objf':
            c = st.store.get(key[1])
            return c[2].get(key[2]) if c else None
        if key[0] == 'obj':
            return VPl(Root(key[1])) if key[1] in st.store else None
        return None

    def make_head(self, st0, W, types, ro):
        H = st0.clone()
        for key in sorted(W, key=str):
            if key[0] == 'clock':
                H.clock = z3.Int(fresh_name('clock'))
                H.assume(H.clock >= st0.clock)
            elif key[0] == 'heap':
                a = H.heap[(key[1], key[2])]
                H.heap[(key[1], key[2])] = z3.Const(fresh_name('heap_%s_%s' % key[1:]), a.sort())
            elif key[0] == 'var':
                v0 = self.val_of(st0, key)
                if v0 is None or isinstance(v0, VUndef):
                    if v0 is None and key[1] in H.frames:
                        H.frames[key[1]][0][key[2]] = VUndef()
                    continue
                H.frames[key[1]][0][key[2]] = self.fresh_value(H, types[key], key[2], key in ro)
            elif key[0] == 'objf':
                c = H.store[key[1]]
                d = dict(c[2])
                if key[2] in d:
                    d[key[2]] = self.fresh_value(H, types[key], key[2])
                H.store[key[1]] = ('O', c[1], d)
            elif key[0] == 'obj':
                t = types[key]
                if t.k == 'obj':
                    continue
                if self.has_bot(t):
                    continue
                term = self.fresh('o%d' % key[1], t)
                H.store[key[1]] = {'list': lambda: ('L', term, t.a[0]), 'dict': lambda: ('D', term, t.a[0], t.a[1]),
                                   'set': lambda: ('S', term, t.a[0])}[t.k]()
                H.ver[key[1]] = next(self.oid)
            elif key[0] == 'moved':
                H.moved = H.moved | {key[1]}
        return H

    def pre_key(self, st0, key):
        if key[0] == 'var':
            return key[1] in st0.frames
        if key[0] in ('obj', 'objf', 'moved'):
            return key[1] in st0.store
        return True

    def loop(self, st0, fid, step, node, generic, mod):
        self.loops += 1
        mode0 = self.mode
        # ---------- 1. what the loop modifies, and with which types (fixpoint, no solver goals)
        W, types, ro = set(), {}, set()

        def learn(s_entry, backs):
            changed = False
            for b in backs:
                for key in W:
                    if key[0] in ('heap', 'moved', 'clock'):
                        continue
                    v0, v1 = self.val_of(st0, key), self.val_of(b, key)
                    if v0 is None or isinstance(v0, VUndef):
                        continue
                    if isinstance(v1, VUndef) or v1 is None:
                        t = Ty('py')
                    elif isinstance(v1, VView) or isinstance(v0, VView):
                        t = Ty('py')
                    else:
                        t0 = types.get(key) or self.typeof(st0, v0)
                        t1 = self.typeof(b, v1)
                        try:
                            t = Ty('py') if 'py' in (t0.k, t1.k) else self.join(t0, t1)
                        except Unsupported:
                            if key[0] != 'var':
                                raise
                            t = Ty('py')       # a name reused for another type: unusable before it is assigned again
                    if types.get(key) != t:
                        types[key] = t
                        changed = True
                    if key[0] == 'var' and isinstance(v1, VPl):
                        if isinstance(v1.place, Lens) or v1.place.oid in b.moved:
                            if key not in ro:
                                ro.add(key)
                                changed = True
                        elif v1.place.oid in st0.store and not (isinstance(v0, VPl) and isinstance(v0.place, Root) and v0.place.oid == v1.place.oid):
                            raise Unsupported('variable %s aliases an older object across iterations' % key[2])
            return changed

        self.mode = 'types' if mode0 != 'final' else 'types'
        try:
            cur = st0
            for rnd in range(12):
                log = set()
                self.writelogs.append(log)
                saved = self.raised
                self.raised = []
                try:
                    exits, backs = step(cur.clone())
                finally:
                    self.writelogs.pop()
                    self.raised = saved
                new = {k for k in log if self.pre_key(st0, k)}
                grew = not new <= W
                W |= new
                for k in W:
                    if k[0] in ('var', 'obj', 'objf') and k not in types:
                        v0 = self.val_of(st0, k)
                        if v0 is not None and not isinstance(v0, VUndef):
                            types[k] = Ty('py') if isinstance(v0, VView) else self.typeof(st0, v0)
                ch = learn(st0, backs)
                if rnd > 0 and not grew and not ch:
                    break
                cur = self.make_head(st0, W, types, ro)
            else:
                if getattr(self, 'trace', False):
                    print('   W', W, types, ro, log)
                raise Unsupported('loop types do not stabilise')
        finally:
            self.mode = mode0
        if mode0 == 'types':
            H = self.make_head(st0, W, types, ro)
            saved = self.raised
            exits, backs = step(H)
            return exits
        # ---------- 2. candidate invariants
        H = self.make_head(st0, W, types, ro)
        cands = list(generic)
        L = LoopInfo(self, st0, H, self.atoms(st0, H), node, self.cur_func())
        L.generic_stable(cands) if hasattr(L, 'generic_stable') else None
        for t in self.templates:
            cands += list(t(L))
        seen, uniq = set(), []
        where = (self.sites, st0.path, id(node))
        for d, f in cands:
            if d not in seen and (where, d) not in self.memo:
                seen.add(d)
                uniq.append((d, f))
        cands = []
        for d, f in uniq:
            try:
                g = f(st0)
            except (KeyError, AttributeError, Unsupported, z3.Z3Exception) as ex:
                if getattr(self, 'trace', 0) == 2:
                    print('   not applicable', d, repr(ex)[:200])
                continue
            if g is None:
                continue
            r, _, _ = prove(self.facts(st0), g, 3, self.fuel, False)
            if r == 'proved':
                cands.append((d, f))
            else:
                self.memo.add((where, d))
                if getattr(self, 'trace', 0) == 2:
                    print('   not initially', d, r)
        # ---------- 3. keep the largest inductive subset
        self.mode = 'probe'
        try:
            for rnd in range(30):
                H = self.make_head(st0, W, types, ro)
                for d, f in cands:
                    H.assume(f(H))
                log = set()
                self.writelogs.append(log)
                saved = self.raised
                self.raised = []
                try:
                    exits, backs = step(H)
                finally:
                    self.writelogs.pop()
                    self.raised = saved
                bad = set()
                for b in backs:
                    if not feasible(self.facts(b)):
                        continue
                    goals = []
                    for d, f in cands:
                        if d in bad:
                            continue
                        try:
                            goals.append((d, f(b)))
                        except (KeyError, AttributeError, Unsupported, z3.Z3Exception):
                            bad.add(d)
                    if not goals:
                        continue
                    r, _, _ = prove(self.facts(b), z3.And([g for _, g in goals]), 2, self.fuel, False)
                    if r == 'proved':
                        continue
                    late, good = [], set()
                    for d, g in goals:
                        r, be, _ = prove(self.facts(b), g, 2, self.fuel, False)
                        if r == 'proved':
                            good.add(d.split()[0])
                        elif r == 'unknown':
                            late.append((d, g))
                        else:
                            bad.add(d)
                    for d, g in late:
                        # another candidate about the same variable holds: not worth a long search
                        r = 'unknown'
                        if d.split()[0] not in good or self.patient:
                            r, be, _ = prove(self.facts(b), g, 8, self.fuel, True)
                        if r != 'proved':
                            bad.add(d)
                            if r == 'unknown' and mode0 == 'final':
                                self.lost_unknown.add(d)
                if not bad:
                    break
                if getattr(self, 'trace', False):
                    print('   drop', node.lineno if node is not None else '?', bad)
                cands = [(d, f) for d, f in cands if d not in bad]
                self.memo |= {(where, d) for d in bad}
        finally:
            self.mode = mode0
        if getattr(self, 'trace', False) and mode0 == 'final':
            print('   kept', getattr(node, 'lineno', '?'), [d for d, _ in cands])
        # ---------- 4. final pass with the kept invariants
        H = self.make_head(st0, W, types, ro)
        for d, f in cands:
            H.assume(f(H))
        nback = len(backs)
        if mode0 == 'final':
            for d, f in cands:
                self.obls.append(Obligation('loop invariant established and preserved: ' + d, 'proved', 'z3', getattr(node, 'lineno', 0), self.cur_func()))
                self.kept_invs.append(d)
        log = set()
        self.writelogs.append(log)
        try:
            exits, backs = step(H)
        finally:
            self.writelogs.pop()
        extra = {k for k in log if self.pre_key(st0, k)} - W
        if extra:
            raise Unsupported('loop frame missed writes %s' % (extra,))
        for b in backs:
            self.check_alias(b, W, st0)
        return exits

    def check_alias(self, b, W, st0):
        seen = {}
        for key in W:
            if key[0] != 'var':
                continue
            v0, v = self.val_of(st0, key), self.val_of(b, key)
            if v0 is None or isinstance(v0, VUndef):
                continue
            if isinstance(v, VPl) and isinstance(v.place, Root):
                if v.place.oid in seen and seen[v.place.oid] != key:
                    raise Unsupported('two loop variables alias the same object')
                seen[v.place.oid] = key

    # ------------------------------------------------------------------ atoms offered to invariant templates
    def atoms(self, st0, H):
        out, names = [], set()

        def add(name, getv, depth=0):
            try:
                v = getv(H)
            except Exception:
                return
            if v is None or isinstance(v, VUndef):
                return
            if isinstance(v, Z):
                put(name, v.ty, lambda s, t=v.ty: self.lower(s, getv(s), t))
                if v.ty.k == 'opt':
                    pass
            elif isinstance(v, VTup):
                for i in range(len(v.items)):
                    add('%s[%d]' % (name, i), lambda s, i=i: getv(s).items[i], depth + 1)
            elif isinstance(v, VPl):
                t = self.typeof(H, v)
                if t.k == 'obj':
                    c = None
                    if isinstance(v.place, Root):
                        fs = list(H.store[v.place.oid][2])
                    else:
                        fs = [f for f, _ in self.types.obj[t.a[0]]]
                    if t.a[0] in self.types.obj:
                        put(name, t, lambda s, t=t: self.lower(s, getv(s), t))
                    if depth < 4:
                        for f in fs:
                            add(name + '.' + f, lambda s, f=f: self.getattr(s, getv(s), f)[0][1], depth + 1)
                elif t.k == 'dict' and self.dict_conc(H, v) is not None:
                    if depth < 3:
                        for kk, _ in self.dict_conc(H, v):
                            ln = self.litname(kk.t) if isinstance(kk, Z) and kk.ty.k == 'str' else None
                            if ln is not None:
                                add('%s[%s]' % (name, ln), lambda s, ln=ln: [x for k2, x in self.dict_conc(s, getv(s)) if self.litname(k2.t) == ln][0], depth + 1)
                elif not self.has_bot(t):
                    put(name, t, lambda s, t=t: self.lower(s, getv(s), t))

        def put(name, ty, get):
            if name in names:
                return
            try:
                th = get(H)
            except (KeyError, AttributeError, Unsupported, z3.Z3Exception):
                return
            try:
                t0 = get(st0)
                mod = not th.eq(t0)
            except (KeyError, AttributeError, Unsupported, z3.Z3Exception):
                mod = True
            names.add(name)
            for a in out:
                if a.ty == ty and a.modified == mod:
                    try:
                        if a(H).eq(th) and (not mod or a(st0).eq(get(st0))):
                            return
                    except (KeyError, AttributeError, Unsupported, z3.Z3Exception):
                        pass
            out.append(Atom(name, ty, get, mod))

        fids = []
        for f in reversed(H.calls):
            while f is not None and f not in fids:
                fids.append(f)
                f = H.frames[f][1]
        for n, f in enumerate(fids):
            for name in list(H.frames[f][0]):
                if name in ('$self', '$cls', '$clsmod', '$nonlocal', '$global', '$mod'):
                    continue
                add('%s@%d' % (name, n), lambda s, f=f, name=name: s.frames[f][0].get(name))
        return out


class VExc(Value):
    def __init__(self, name):
        self.name = name
