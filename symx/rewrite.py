"""Import hook: loads hiku.* (from /repo) and harness.* with every call,
membership test, identity test, string formatting and container display routed
through symx.values, so that they accept symbolic operands.  The sources are
read and rewritten on every run."""
import ast
import importlib.abc
import importlib.machinery
import os
import sys

HITS = set()
TRACK = [True]

_NO_CALL = {'super', 'locals', 'globals', 'vars', 'eval', 'exec', 'dir',
            '__import__', 'zip', 'iter', 'next', 'list', 'tuple', 'range',
            'enumerate', 'len', 'all', 'any', 'id', 'print', 'property',
            'staticmethod', 'classmethod', 'reversed', 'object'}


def _name(n):
    return ast.Name(n, ast.Load())


def _call(fn, args):
    return ast.Call(_name(fn), args, [])


class Rewriter(ast.NodeTransformer):

    def __init__(self, modname, track):
        self.mod = modname
        self.stack = []
        self.in_hash = 0
        self.temps = 0
        self.track = track

    # -- definitions

    def _fn(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.visit_args(node.args)
        self.stack.append(node.name)
        is_hash = node.name == '__hash__'
        self.in_hash += is_hash
        body = []
        for st in node.body:
            r = self.visit(st)
            body.extend(r if isinstance(r, list) else [r])
        self.in_hash -= is_hash
        if self.track:
            qual = '%s:%s' % (self.mod, '.'.join(self.stack))
            hit = ast.Expr(ast.Call(
                _name('_sx_hit'), [ast.Constant(qual)], []))
            i = 0
            if body and isinstance(body[0], ast.Expr) and isinstance(
                    body[0].value, ast.Constant):
                i = 1
            body.insert(i, hit)
        self.stack.pop()
        node.body = body
        return node

    visit_FunctionDef = _fn
    visit_AsyncFunctionDef = _fn

    def visit_args(self, a):
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None
                         for d in a.kw_defaults]

    def visit_Lambda(self, node):
        self.visit_args(node.args)
        node.body = self.visit(node.body)
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [b if isinstance(b, ast.Starred) else
                      _call('_sx_base', [self.visit(b)]) for b in node.bases]
        for k in node.keywords:
            k.value = self.visit(k.value)
        self.stack.append(node.name)
        body = []
        for st in node.body:
            r = self.visit(st)
            body.extend(r if isinstance(r, list) else [r])
        node.body = body
        self.stack.pop()
        return node

    # -- expressions

    def visit_Call(self, node):
        f = node.func
        args = [self.visit(a) for a in node.args]
        kws = []
        for k in node.keywords:
            k.value = self.visit(k.value)
            kws.append(k)
        if isinstance(f, ast.Name):
            if f.id in _NO_CALL or (self.in_hash and f.id == 'hash'):
                nf = f
            else:
                nf = _call('_sx_fn', [f])
        elif isinstance(f, ast.Attribute):
            nm = f.attr
            if nm.startswith('__') and not nm.endswith('__'):
                # private names are mangled by the compiler: keep the form
                nf = _call('_sx_fn', [ast.Attribute(
                    self.visit(f.value), nm, ast.Load())])
            else:
                nf = _call('_sx_meth', [self.visit(f.value),
                                        ast.Constant(nm)])
        else:
            nf = _call('_sx_fn', [self.visit(f)])
        return ast.Call(nf, args, kws)

    def visit_Compare(self, node):
        self.generic_visit(node)
        ops = (ast.In, ast.NotIn, ast.Is, ast.IsNot)
        if not any(isinstance(o, ops) for o in node.ops):
            return node
        if len(node.ops) != 1:
            operands = [node.left] + node.comparators
            if not all(isinstance(x, (ast.Name, ast.Constant, ast.Call))
                       for x in operands[1:-1]):
                return node
            return ast.BoolOp(ast.And(), [
                self._compare(ast.Compare(a, [op], [b])) for a, op, b in
                zip(operands, node.ops, operands[1:])])
        return self._compare(node)

    def _compare(self, node):
        if not isinstance(node.ops[0], (ast.In, ast.NotIn, ast.Is,
                                        ast.IsNot)):
            return node
        a, op, b = node.left, node.ops[0], node.comparators[0]
        if isinstance(op, (ast.Is, ast.IsNot)) and (
                isinstance(b, ast.Constant) and b.value is None):
            return node
        if isinstance(op, ast.In):
            return _call('_sx_in', [a, b])
        if isinstance(op, ast.NotIn):
            return _call('_sx_not', [_call('_sx_in', [a, b])])
        if isinstance(op, ast.Is):
            return _call('_sx_is', [a, b])
        return _call('_sx_not', [_call('_sx_is', [a, b])])

    # -- match statements: written as if statements, so that patterns see
    # -- symbolic values as what they stand for

    _SELF = ('bool', 'bytearray', 'bytes', 'dict', 'float', 'frozenset',
             'int', 'list', 'set', 'str', 'tuple')

    def _tmp(self):
        self.temps += 1
        return '_sx_m%d' % self.temps

    def visit_Match(self, node):
        subj = self._tmp()
        first = last = None
        for case in node.cases:
            test = self._pattern(case.pattern, subj)
            if case.guard is not None:
                test = ast.BoolOp(ast.And(), [test, case.guard])
            st = ast.If(test, case.body, [])
            if first is None:
                first = last = st
            else:
                last.orelse = [st]
                last = st
        return [ast.Assign([ast.Name(subj, ast.Store())],
                           self.visit(node.subject)), self.visit(first)]

    def _bind(self, name, value):
        return ast.Compare(ast.Tuple([ast.NamedExpr(
            ast.Name(name, ast.Store()), value)], ast.Load()),
            [ast.NotEq()], [ast.Constant(())])

    def _pattern(self, p, subj):
        def var():
            return ast.Name(subj, ast.Load())

        if isinstance(p, ast.MatchValue):
            return ast.Compare(var(), [ast.Eq()], [p.value])
        if isinstance(p, ast.MatchSingleton):
            return ast.Compare(var(), [ast.Is()], [ast.Constant(p.value)])
        if isinstance(p, ast.MatchOr):
            return ast.BoolOp(ast.Or(), [self._pattern(x, subj)
                                         for x in p.patterns])
        if isinstance(p, ast.MatchAs):
            tests = []
            if p.pattern is not None:
                tests.append(self._pattern(p.pattern, subj))
            if p.name is not None:
                tests.append(self._bind(p.name, var()))
            return self._and(tests)
        if isinstance(p, ast.MatchSequence):
            star = [i for i, x in enumerate(p.patterns)
                    if isinstance(x, ast.MatchStar)]
            parts = self._tmp()
            tests = [self._is_parts(parts, ast.Call(_name('_sx_mseq'), [
                var(), ast.Constant(len(p.patterns)),
                ast.Constant(star[0] if star else None)], []))]
            return self._and(tests + self._parts(parts, p.patterns))
        if isinstance(p, ast.MatchMapping):
            parts = self._tmp()
            tests = [self._is_parts(parts, ast.Call(_name('_sx_mmap'), [
                var(), ast.Tuple(p.keys, ast.Load()),
                ast.Constant(p.rest is not None)], []))]
            tests += self._parts(parts, p.patterns)
            if p.rest is not None:
                tests.append(self._bind(p.rest, ast.Subscript(
                    ast.Name(parts, ast.Load()),
                    ast.Constant(len(p.patterns)), ast.Load())))
            return self._and(tests)
        assert isinstance(p, ast.MatchClass), p
        parts = self._tmp()
        tests = [ast.Call(_name('isinstance'), [var(), p.cls], []),
                 self._is_parts(parts, ast.Call(_name('_sx_mclass'), [
                     var(), p.cls, ast.Constant(len(p.patterns)),
                     ast.Constant(tuple(p.kwd_attrs))], []))]
        return self._and(tests + self._parts(
            parts, p.patterns + p.kwd_patterns))

    def _is_parts(self, name, value):
        return ast.Compare(ast.NamedExpr(ast.Name(name, ast.Store()), value),
                           [ast.IsNot()], [ast.Constant(None)])

    def _parts(self, parts, patterns):
        tests = []
        for i, p in enumerate(patterns):
            item = ast.Subscript(ast.Name(parts, ast.Load()),
                                 ast.Constant(i), ast.Load())
            if isinstance(p, ast.MatchStar):
                if p.name is not None:
                    tests.append(self._bind(p.name, item))
                continue
            if isinstance(p, ast.MatchAs) and p.pattern is None:
                if p.name is not None:
                    tests.append(self._bind(p.name, item))
                continue
            sub = self._tmp()
            tests.append(self._bind(sub, item))
            tests.append(self._pattern(p, sub))
        return tests

    def _and(self, tests):
        if not tests:
            return ast.Constant(True)
        if len(tests) == 1:
            return tests[0]
        return ast.BoolOp(ast.And(), tests)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return _call('_sx_binmod', [node.left, node.right])
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                conv = {-1: None, 115: 's', 114: 'r', 97: 'a'}[v.conversion]
                spec = (self.visit_JoinedStr(v.format_spec)
                        if v.format_spec is not None else ast.Constant(''))
                parts.append(ast.Tuple([
                    self.visit(v.value), ast.Constant(conv), spec],
                    ast.Load()))
        return _call('_sx_fstr', parts)

    def visit_Dict(self, node):
        pairs = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                pairs.append(ast.Tuple([self.visit(v)], ast.Load()))
            else:
                pairs.append(ast.Tuple([self.visit(k), self.visit(v)],
                                       ast.Load()))
        return _call('_sx_mkdict', pairs)

    def visit_Set(self, node):
        self.generic_visit(node)
        return _call('_sx_mkset', node.elts)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return _call('_sx_dictcomp', [ast.GeneratorExp(
            ast.Tuple([node.key, node.value], ast.Load()), node.generators)])

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return _call('_sx_set', [ast.GeneratorExp(node.elt,
                                                  node.generators)])

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if node.attr == '__class__' and isinstance(node.ctx, ast.Load):
            return _call('_sx_class', [node.value])
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(
                node.slice, ast.Slice):
            if isinstance(node.slice, ast.Constant):
                return node
            return _call('_sx_getitem', [node.value, node.slice])
        return node


def namespace():
    from . import values as v
    from . import regex                                # noqa: F401
    return {
        '_sx_fn': v.sx_fn, '_sx_meth': v.sx_meth, '_sx_in': v.sx_in,
        '_sx_is': v.sx_is, '_sx_not': v.sx_not, '_sx_base': v.sx_base,
        '_sx_binmod': v.sx_binmod, '_sx_fstr': v.sx_fstr,
        '_sx_mkdict': v.sx_mkdict, '_sx_mkset': v.sx_mkset,
        '_sx_dictcomp': v.sx_dictcomp, '_sx_set': v.SSet,
        '_sx_class': v.sx_class, '_sx_mseq': v.sx_match_seq, '_sx_mmap': v.sx_match_map,
        '_sx_mclass': v.sx_match_class,
        '_sx_getitem': v.sx_getitem, '_sx_hit': HITS.add,
    }


def rewrite_source(src, filename, modname, track=True):
    tree = ast.parse(src, filename)
    # annotations are never evaluated symbolically: leave them alone
    tree = Rewriter(modname, track).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


class Loader(importlib.abc.Loader):

    def __init__(self, path, track):
        self.path = path
        self.track = track

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        module.__file__ = self.path
        module.__dict__.update(namespace())
        exec(rewrite_source(src, self.path, module.__name__, self.track),
             module.__dict__)

    def get_data(self, path):
        with open(path, 'rb') as f:
            return f.read()

    def get_filename(self, name):
        return self.path


class Finder(importlib.abc.MetaPathFinder):
    """roots: {package: (directory, track)}"""

    def __init__(self, roots):
        self.roots = roots

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split('.')[0]
        best = None
        for pkg in self.roots:
            if fullname == pkg or fullname.startswith(pkg + '.'):
                if best is None or len(pkg) > len(best):
                    best = pkg
        if best is None:
            return None
        base, track = self.roots[best]
        if fullname.endswith('_pb2'):
            return None
        rel = fullname[len(best):].strip('.').replace('.', os.sep)
        p = os.path.join(base, rel) if rel else base
        init = os.path.join(p, '__init__.py')
        if os.path.isfile(init):
            spec = importlib.machinery.ModuleSpec(
                fullname, Loader(init, track), origin=init, is_package=True)
            spec.submodule_search_locations = [p]
            spec.has_location = True
            return spec
        if os.path.isfile(p + '.py'):
            spec = importlib.machinery.ModuleSpec(
                fullname, Loader(p + '.py', track), origin=p + '.py')
            spec.has_location = True
            return spec
        return None


def install(roots):
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder(roots))
