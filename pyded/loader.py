"""Mechanical extraction of the real source: parses /repo on every run and resolves names
the way Python's import system would (functions, classes, module constants, re-exports)."""
import ast, os
from . import proto

PKG = 'src/python/ficus'


class Desugar(ast.NodeTransformer):
    """match statements over values become the if-chains they abbreviate (the subject is evaluated once)"""
    n = 0

    def visit_Match(self, m):
        self.generic_visit(m)
        Desugar.n += 1
        name = '$match%d' % Desugar.n
        at = lambda x: ast.fix_missing_locations(ast.copy_location(x, m))
        subj = lambda: ast.Name(name, ast.Load())

        def test(p):
            if isinstance(p, ast.MatchValue):
                return ast.Compare(subj(), [ast.Eq()], [p.value])
            if isinstance(p, ast.MatchSingleton):
                return ast.Compare(subj(), [ast.Is()], [ast.Constant(p.value)])
            if isinstance(p, ast.MatchOr):
                return ast.BoolOp(ast.Or(), [test(q) for q in p.patterns])
            if isinstance(p, ast.MatchAs) and p.pattern is None and p.name is None:
                return ast.Constant(True)
            raise ValueError
        try:
            chain = []
            for c in reversed(m.cases):
                t = test(c.pattern)
                if c.guard is not None:
                    t = ast.BoolOp(ast.And(), [t, c.guard])
                chain = [ast.copy_location(ast.If(t, c.body, chain), c.pattern)]
        except ValueError:
            return m
        return [at(ast.Assign([ast.Name(name, ast.Store())], m.subject))] + [at(x) for x in chain]


class Module:
    def __init__(self, repo, name, path):
        self.repo, self.name, self.path = repo, name, path
        with open(path) as f:
            self.src = f.read()
        self.tree = ast.parse(self.src)
        if any(isinstance(n, ast.Match) for n in ast.walk(self.tree)):
            self.tree = Desugar().visit(self.tree)
        self.names = {}          # name -> ('func',node) ('class',node) ('assign',expr) ('import',mod) ('from',mod,name)
        self.stars = []
        self._collect(self.tree.body)
        if path.endswith('_pb2.py'):             # generated protobuf module: its classes are made at import time from the descriptor
            for n, fs in proto.messages(self.tree).items():
                repo.messages[n] = fs
                self.names[n] = ('class', ast.parse('class %s: pass' % n).body[0])

    def _collect(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.names[n.name] = ('func', n)
            elif isinstance(n, ast.ClassDef):
                self.names[n.name] = ('class', n)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.names[t.id] = ('assign', n.value)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.names[n.target.id] = ('assign', n.value)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.names[(a.asname or a.name).split('.')[0]] = ('import', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                mod = self._abs(n.level, n.module)
                for a in n.names:
                    if a.name == '*':
                        self.stars.append(mod)
                    else:
                        self.names[a.asname or a.name] = ('from', mod, a.name)
            elif isinstance(n, (ast.If, ast.Try)):
                self._collect(n.body)

    def _abs(self, level, module):
        if level == 0:
            return module
        parts = self.name.split('.')
        if not self.path.endswith('__init__.py'):
            parts = parts[:-1]
        parts = parts[:len(parts) - (level - 1)]
        return '.'.join(parts + ([module] if module else []))


class Repo:
    def __init__(self, root='/repo'):
        self.root = root
        self.base = os.path.join(root, PKG)
        self.mods = {}
        self.messages = {}

    def path_of(self, name):
        # module names are 'ficus.legacy.util' ...
        if name is None:
            return None
        if name.startswith('python.ficus'):
            name = name[len('python.'):]
        if name.startswith('vmodels.'):          # stand-ins for external classes (assumed contracts, written as code)
            return os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vmodels', *name.split('.')[1:]) + '.py'
        if not (name == 'ficus' or name.startswith('ficus.')):
            return None
        rel = name.split('.')[1:]
        p = os.path.join(self.base, *rel)
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py')
        return p + '.py' if os.path.exists(p + '.py') else None

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        p = self.path_of(name)
        if p is None or not os.path.exists(p):
            return None
        m = Module(self, name, p)
        self.mods[name] = m
        return m

    def resolve(self, modname, name, seen=None):
        """-> ('func',mod,node) ('class',mod,node) ('assign',mod,expr) ('ext',dotted) or None"""
        seen = seen or set()
        if (modname, name) in seen:
            return None
        seen.add((modname, name))
        m = self.module(modname)
        if m is None:
            return ('ext', modname + '.' + name)
        if name in m.names:
            d = m.names[name]
            if d[0] in ('func', 'class', 'assign'):
                return (d[0], m, d[1])
            if d[0] == 'import':
                return ('ext', d[1])
            if d[0] == 'from':
                sub = self.module(d[1] + '.' + d[2])
                if sub is not None and (self.module(d[1]) is None or d[2] not in self.module(d[1]).names):
                    return ('ext', d[1] + '.' + d[2])
                return self.resolve(d[1], d[2], seen)
        for s in m.stars:
            if self.module(s) is None:
                continue
            r = self.resolve(s, name, seen)
            if r is not None:
                return r
        return None
