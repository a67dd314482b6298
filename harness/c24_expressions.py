"""C24: expressions compute what they say."""
from symx.session import scenario
from hiku.expr.checker import check, fn_types
from hiku.expr.compiler import ExpressionCompiler
from hiku.expr.core import to_expr, THIS, S, if_, if_some, each, define
from hiku.graph import Graph, Root, Node as GNode, Field as GField
from hiku.types import TypeRef, Any, Integer, Optional as TOptional
from hiku.types import String as TString, Sequence
from harness.exprs import (Gen, Data, Functions, to_hiku, evaluate,
                           low_graph, SCHEMA)
from harness.sizes import WIDE

ASSUMPTIONS = ['functions are uninterpreted functions of what they read',
               'names of functions are those given by define']
BOUNDS = ('chains of up to 2 constructs (thorough: 3), one in the other at '
          'any place, over records with fields and links of all kinds; '
          'sequences of up to 2 items; variables with the names of other '
          'variables, of options, of root fields, of "this" and of variables '
          'in the generated code; up to 129 items and 33 levels')

GRAPH = low_graph()


def compile_expr(expr, options, node='N', graph=GRAPH):
    e, funcs = to_expr(expr)
    env = fn_types(funcs)
    env.update(graph.__types__['__root__'].__field_types__)
    env.update((o, Any) for o in options)
    env[THIS] = TypeRef[node]
    checked = check(e, graph.__types__, env)
    code = ExpressionCompiler.compile_lambda_expr(checked, list(options))
    proc = eval(compile(code, '<expr>', 'eval'))
    env = {f.__def_name__: f.__def_body__ for f in funcs}

    def run(this, root, values):
        return proc(env, this, root, *values)
    return run


def compare(s, ast, options, fns):
    run = compile_expr(to_hiku(ast, fns.fns), options)
    data = Data(s, s.params.get('len', 2))
    values = [s.int('option ' + o, 0, 3) for o in options]
    fns.log[:] = []
    got = run(data.this(), data.root(), values)
    calls = list(fns.log)
    fns.log[:] = []
    scope = dict(zip(options, values))
    scope['this'] = data.this()
    want = evaluate(ast, scope, data.root(), fns.fns)
    s.check(s.eq(fns.flat(got), fns.flat(want)), 'the value of the '
            'expression', (ast, got, want))
    s.check(sorted(calls) == sorted(fns.log), 'only the selected branches '
            'are evaluated', (ast, calls, fns.log))
    s.observe('got', fns.flat(got))


def scope_of(options):
    scope = {n: k for n, k in SCHEMA['root'].items() if n in 'xzo'}
    scope.update((o, 'int') for o in options)
    scope['this'] = 'rec N'
    return scope


@scenario(params={'quick': {'depth': 2, 'len': 1},
                  'thorough': {'depth': 3, 'len': 1}}, timeout=300)
def nested(s):
    """Constructs inside of each other."""
    fns = Functions(s)
    gen = Gen(s, ('v', 'x'))
    ast = gen.gen(s.params['depth'], scope_of(['p']))
    compare(s, ast, ['p'], fns)


NAMES = ('v', 'v_2', 'this', 'ctx', 'env', 'next', 'x', 'p', 'p_2', 'if')


@scenario(params={'quick': {'names': 4}, 'thorough': {'names': 10}},
          timeout=300)
def scopes(s):
    """Variables with clashing names, in expressions which use all of the
    variables in their scope, at all places."""
    fns = Functions(s)
    n = 2 if s.params['names'] == 4 else 3
    names = []
    for i in range(n):
        names.append(s.pick('name%d' % i, NAMES))
    kinds = [s.pick('kind%d' % i, ('each', 'some', 'else'))
             for i in range(n)]
    options = s.pick('options', ([], ['p'], ['ctx', 'p'], ['v', 'v_2'],
                                 ['next', 'x'], ['env', 'p_2', 'this_2']))
    scope = scope_of(options)

    def uses(scope):
        """All of the variables of the scope."""
        out = [('var', n) if k == 'int' else ('get', ('var', n), 'a')
               for n, k in sorted(scope.items())
               if k == 'int' or k.startswith('rec ')]
        return ('list', out)

    def build(i, scope):
        if i == n:
            return uses(scope)
        recs = [(r, k.split()[1]) for r, k in sorted(scope.items())
                if k in ('rec N', 'rec M')]
        if not recs:
            return uses(scope)
        # the record bound last, if there is one
        r, node = recs[-1]
        for m in names[:i]:
            if scope.get(m) in ('rec N', 'rec M'):
                r, node = m, scope[m].split()[1]
        if kinds[i] == 'each':
            f, inner = (('l', 'rec M') if node == 'N' else ('k', None))
        else:
            f, inner = (('q', 'rec M') if node == 'N' else ('k', 'rec N'))
        bind = ('get', ('var', r), f)
        if inner is None:
            # a sequence of another record
            bind, inner = ('get', ('get', ('var', r), 'n'), 'l'), 'rec M'
        sub = dict(scope, **{names[i]: inner})
        if kinds[i] == 'each':
            e = ('each', names[i], bind, build(i + 1, sub))
        elif kinds[i] == 'some':
            e = ('some', names[i], bind, build(i + 1, sub), uses(scope))
        else:
            e = ('some', names[i], bind, uses(sub), build(i + 1, scope))
        return ('list', [e, uses(scope)])
    s.params.setdefault('len', 1)
    compare(s, build(0, scope), options, fns)


@scenario()
def literals(s):
    """Literals and containers of them."""
    fns = Functions(s)
    vals = (None, True, False, 0, 1, -1, 1.5, 'a', '', 'it\'s "\\')
    a, b = s.pick('a', vals), s.pick('b', vals)
    shape = s.choice('shape', 5)
    ast = [('lit', a), ('list', [('lit', a), ('list', [('lit', b)])]),
           ('dict', [('k', ('lit', a)), ('this', ('lit', b))]),
           ('if', ('lit', a), ('lit', b), ('list', [])),
           ('dict', [])][shape]
    run = compile_expr(to_hiku(ast, fns.fns), [])
    data = Data(s)
    got = run(data.this(), data.root(), [])
    want = evaluate(ast, {}, data.root(), fns.fns)
    s.check(repr(got) == repr(want), 'the value', (ast, got, want))


@scenario()
def sharing(s):
    """Parts of expressions and functions can be used several times and
    keep what they are."""
    fns = Functions(s)
    f = fns.fns['f']
    part = f(if_(S.this.a, S.this.b, S.x))
    k = s.choice('use', 3)
    first = compile_expr(part, [])
    exprs = [[part, part], each(S.x, S.this.s, part),
             if_some([S.this, S.this.q], [part], {'e': part})]
    p = ('call', 'f', [('if', ('get', ('var', 'this'), 'a'),
                        ('get', ('var', 'this'), 'b'), ('var', 'x'))])
    asts = [('list', [p, p]), ('each', 'x', ('get', ('var', 'this'), 's'), p),
            ('some', 'this', ('get', ('var', 'this'), 'q'),
             ('list', [p]), ('dict', [('e', p)]))]
    second = compile_expr(exprs[k], [])
    third = compile_expr(part, [])
    data = Data(s, 1)
    for run, ast in ((first, p), (second, asts[k]), (third, p)):
        got = run(data.this(), data.root(), [])
        want = evaluate(ast, {'this': data.this()}, data.root(), fns.fns)
        s.check(s.eq(fns.flat(got), fns.flat(want)), 'the value',
                (got, want))


@scenario()
def large(s):
    """Long and deep expressions."""
    s.params.setdefault('len', 1)
    fns = Functions(s)
    kind = s.pick('kind', ('list', 'dict', 'if', 'some', 'each', 'call',
                           'get'))
    this = ('var', 'this')
    a, x = ('get', this, 'a'), ('var', 'x')
    if kind in ('list', 'dict'):
        n = s.pick('size', WIDE)
        parts = [(a, x, ('lit', i))[i % 3] for i in range(n)]
        ast = (('list', parts) if kind == 'list' else
               ('dict', [('k%d' % i, p) for i, p in enumerate(parts)]))
        compare(s, ast, ['p'], fns)
        return
    n = s.pick('depth', (1, 5, 17, 33) if kind in ('if', 'call', 'get')
               else (1, 5, 13))
    ast = x
    for i in range(n):
        if kind == 'if':
            # one of the conditions is met
            ast = ('if', ('lit', i == n // 2), ('lit', i), ast)
        elif kind == 'some':
            name = 'v%d' % (n - i)
            ast = ('some', name, ('get', this, 'q'),
                   ('list', [('get', ('var', name), 'a'), ast]), x)
        elif kind == 'each':
            name = 'v%d' % (n - i)
            ast = ('each', name, ('get', this, 'l'),
                   ('list', [('get', ('var', name), 'a'), ast]))
        elif kind == 'call':
            ast = ('call', 'f', [ast])
        else:
            break
    if kind == 'get':
        ast = this
        for i in range(n):
            ast = ('get', ast, 'rn'[i % 2])
        ast = ('get', ast, 'a')
    compare(s, ast, ['p'], fns)


@scenario()
def same_names(s):
    """Functions which are made by the same code, have the same name and
    differ in what they do."""
    how = s.choice('how', 4)
    ufs = [lambda x, i=i: s.uf('u%d' % i, x, lo=0, hi=3) for i in range(3)]

    def closure(u):
        @define(Any)
        def fn(x):
            return u(x)
        return fn

    def default(u):
        def fn(x, u=u):
            return u(x)
        return define(Any)(fn)

    def lambdas(u):
        return define(Any)(lambda x: u(x))

    class Obj:
        def __init__(self, u):
            self.u = u

        def fn(self, x):
            return self.u(x)

    def method(u):
        return define(Any)(Obj(u).fn)

    make = (closure, default, lambdas, method)[how]
    fns = [make(u) for u in ufs]
    order = [s.choice('first', 3), s.choice('second', 3),
             s.choice('third', 3)]
    f, g, h = [fns[i] for i in order]
    uf, ug, uh = [ufs[i] for i in order]
    data = Data(s, 1)
    this = data.this()
    run = compile_expr([f(S.this.a), g(f(S.this.b)),
                        if_(g(S.this.a), h(1), h(2))], [])
    got = run(this, data.root(), [])
    a, b = [evaluate(('get', ('var', 'this'), n), {'this': this},
                     data.root(), {}) for n in 'ab']
    want = [uf(a), ug(uf(b)), uh(1) if ug(a) else uh(2)]
    s.check(s.eq(got, want), 'the value', (got, want))


class Plain:
    """Values of a record."""

    def __init__(self, **values):
        self.values = values

    def __getitem__(self, name):
        return self.values[name]


@scenario()
def empty_values(s):
    """Values which are there although they are empty, zero or false, and
    those which are not: in variables, options and fields."""
    fns = Functions(s)
    f, g = fns.fns['f'], fns.fns['g']
    v = s.pick('value', (None, 'any', '', (), False, {}))
    if v == 'any':
        v = s.int('v', 0, 1)
    elif v == ():
        v = []
    q = s.int('q', 0, 3)
    k = s.choice('where', 4)
    graph = Graph([GNode('N', [GField('m', TOptional[Integer], None),
                               GField('ms', Sequence[Any], None)]),
                   Root([GField('o', TOptional[TString], None)])])
    this, root = Plain(m=v, ms=[v]), Plain(o=v)
    bind = (S.p, S.this.m, S.o, S.w)[k]
    how = s.choice('how', 3)
    if how == 0:
        expr = if_some([S.v, bind], [1, S.v], [2, S.q])
        want = [2, q] if v is None else [1, v]
    elif how == 1:
        expr = if_some([S.u, bind], if_some([S.v, S.u], S.v, 5), 6)
        want = 6 if v is None else v
    else:
        expr = if_(if_some([S.v, bind], True, False),
                   if_some([S.v, bind], g(S.v, S.q), 3), f(S.q))
        want = (s.uf('f', q) if v is None else
                s.uf('g', fns.flat(v), q))
    values = [v, q]
    if k == 3:
        # the variable of a loop
        expr, want = each(S.w, S.this.ms, expr), [want]
    run = compile_expr(expr, ['p', 'q'], graph=graph)
    got = run(this, root, values)
    s.check(same(s, got, want), 'the value', (v, got, want))


def same(s, a, b):
    """Equal, and of the same type where they are empty."""
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and s.all([same(s, x, y)
                                           for x, y in zip(a, b)])
    if not a and not b:
        return type(a) is type(b)
    return s.eq(a, b)
