"""C25: expressions request exactly the data they read."""
from symx.session import scenario
from hiku.expr.checker import check, fn_types
from hiku.expr.compiler import ExpressionCompiler
from hiku.expr.core import to_expr, THIS, define, S, if_, each
from hiku.expr.refs import RequirementsExtractor
from hiku.graph import (Graph, Root, Node as GNode, Field as GField,
                        Link as GLink)
from hiku.query import Node, Field, Link
from hiku.types import TypeRef, Any, Record, Integer, Sequence, Optional
from harness.exprs import (Gen, Data, Functions, to_hiku, evaluate, may_read,
                           low_graph, SCHEMA)
from harness.sizes import WIDE

ASSUMPTIONS = ['functions read of their arguments what is declared for them, '
               'all of it',
               'both branches of a conditional can be evaluated, sequences '
               'can be empty or not, whatever the expression']
BOUNDS = ('chains of up to 2 constructs (thorough: 3), one in the other at '
          'any place, over records with fields and links of all kinds; '
          'declared arguments of depth 3; up to 129 fields and links of '
          'concrete names')

GRAPH = low_graph()


def checked_expr(expr, options=(), graph=GRAPH, node='N'):
    e, funcs = to_expr(expr)
    env = fn_types(funcs)
    env.update(graph.__types__['__root__'].__field_types__)
    env.update((o, Any) for o in options)
    env[THIS] = TypeRef[node]
    return check(e, graph.__types__, env), funcs


def requirements(expr, options=(), graph=GRAPH):
    e, _ = checked_expr(expr, options, graph)
    return RequirementsExtractor.extract(graph.__types__, e)


def paths(node, prefix=()):
    """All of the paths of a query."""
    out = set()
    for f in node.fields:
        p = prefix + (f.name,)
        out.add(p)
        if isinstance(f, Link):
            out |= paths(f.node, p)
    return out


def prefixes(ps):
    out = set()
    for p in ps:
        for i in range(1, len(p) + 1):
            out.add(p[:i])
    return out


def plain(path):
    """Path of a record of the data."""
    out = []
    for part in path.split('.'):
        if part != 'ctx':
            out.append(part.split('[')[0])
    return tuple(out)


def shape(s, q, types, kind):
    """Records are requested by links and other values by fields."""
    seen = []
    for f in q.fields:
        s.check(f.name not in seen, 'every name is requested once', f.name)
        seen.append(f.name)
        k = kind.get(f.name)
        s.check(k is not None, 'only what exists is requested', f.name)
        if ' ' in k:
            s.check(isinstance(f, Link), 'records are requested by links',
                    f.name)
            shape(s, f.node, types, SCHEMA[k.split()[1]])
        else:
            s.check(isinstance(f, Field), 'values are requested by fields',
                    f.name)


@scenario(params={'quick': {'depth': 2, 'len': 1},
                  'thorough': {'depth': 3, 'len': 1}}, timeout=300)
def exact(s):
    """Requirements are what evaluations can read, and what an evaluation
    does read is a part of it."""
    fns = Functions(s)
    gen = Gen(s, ('v', 'this'), rich=False)
    scope = {n: k for n, k in SCHEMA['root'].items() if n in 'xyzo'}
    scope['this'] = 'rec N'
    ast = gen.gen(s.params['depth'], scope)
    reqs = requirements(to_hiku(ast, fns.fns))
    got = paths(reqs)
    want = prefixes(may_read(ast))
    s.check(not want - got, 'everything which can be read is requested',
            (ast, sorted(want - got)))
    s.check(not got - want - {('this',)},
            'nothing else is requested', (ast, sorted(got - want)))
    shape(s, reqs, GRAPH.__types__, dict(SCHEMA['root'], this='rec N'))
    data = Data(s, s.params['len'])
    evaluate(ast, {'this': data.this()}, data.root(), fns.fns)
    for path, name in data.reads:
        p = plain(path) + (name,)
        s.check(p in got, 'what was read is requested', (ast, p))


@scenario(params={'quick': {'depth': 2, 'len': 1},
                  'thorough': {'depth': 2, 'len': 2}}, timeout=300)
def compiled(s):
    """The compiled expression reads what is requested, nothing else."""
    fns = Functions(s)
    gen = Gen(s, ('v',), ('if', 'some', 'each', 'call'))
    scope = {n: k for n, k in SCHEMA['root'].items() if n in 'xz'}
    scope['this'] = 'rec N'
    ast = gen.gen(s.params['depth'], scope)
    e, funcs = checked_expr(to_hiku(ast, fns.fns))
    got = paths(RequirementsExtractor.extract(GRAPH.__types__, e))
    proc = eval(compile(ExpressionCompiler.compile_lambda_expr(e), '<expr>',
                        'eval'))
    data = Data(s, s.params['len'])
    proc({f.__def_name__: f.__def_body__ for f in funcs}, data.this(),
         data.root())
    for path, name in data.reads:
        p = plain(path) + (name,)
        s.check(p in got, 'what was read is requested', (ast, p))


# -- declared arguments

@scenario(params={'quick': {'n': 3}, 'thorough': {'n': 4}})
def nested_arguments(s):
    """Arguments declared as records of sequences of records ..., to any
    level: all of it is requested."""
    n = 1 + s.choice('depth', s.params['n'])
    typ = Record[{'a': Integer, 'b': Any}]
    want = {('a',), ('b',)}
    names = []
    for i in range(n):
        wrap = s.pick('wrap%d' % i, ('rec', 'seq', 'opt'))
        name = s.pick('name%d' % i, ('l', 'q'))
        inner = {'rec': lambda t: t, 'seq': lambda t: Sequence[t],
                 'opt': lambda t: Optional[t]}[wrap](typ)
        fields = {name: inner}
        reads = {(name,)} | {(name,) + p for p in want}
        if s.choice('more%d' % i, 2):
            fields['c'] = Integer
            reads.add(('c',))
        typ, want = Record[fields], reads
    top = s.pick('top', ('rec', 'seq'))

    @define(typ if top == 'rec' else Sequence[typ], Any)
    def fn(arg, other):
        raise NotImplementedError
    types = {'__root__': Record[{'x': Sequence[typ] if top == 'seq'
                                 else typ}]}
    e, funcs = to_expr(fn(S.x, 1))
    env = fn_types(funcs)
    env.update(types['__root__'].__field_types__)
    e = check(e, types, env)
    got = paths(RequirementsExtractor.extract(types, e))
    want = {('x',)} | {('x',) + p for p in want}
    s.check(got == want, 'requirements', (typ, sorted(got ^ want)))


DECLARED = {'N': ('a', 's', 'e', 't', 'u', 'r', 'q', 'l'),
            'M': ('a', 'b', 'n', 'k'), 'T': ('a', 'b')}


def declared(s, node, depth, label=''):
    """A type of an argument, and what it makes a function read."""
    n = s.choice('n' + label, 2 if depth else 3)
    names = []
    types, reads = [], set()
    for i in range(n):
        name = s.pick('%s.%d' % (label, i), DECLARED[node])
        if name in names:
            continue
        names.append(name)
        kind = SCHEMA[node][name]
        reads.add((name,))
        if kind in ('int', 'ints'):
            types.append((name, Integer if kind == 'int' else
                          (Sequence[Any] if s.choice(label + 'any', 2)
                           else Any)))
            continue
        k, t = kind.split()
        if not depth:
            types.append((name, Record[{}] if k == 'rec' else Any))
            continue
        rec, sub = declared(s, t, depth - 1, '%s.%d' % (label, i))
        types.append((name, {'rec': lambda r: r, 'opt': lambda r: Optional[r],
                             'seq': lambda r: Sequence[r]}[k](rec)))
        reads |= {(name,) + p for p in sub}
    return Record[types], reads


@scenario(params={'quick': {'depth': 1}, 'thorough': {'depth': 2}})
def arguments(s):
    """What functions read of their arguments is requested."""
    typ, reads = declared(s, 'N', s.params['depth'])
    how = s.pick('how', ('this', 'nested', 'each', 'some', 'whole'))

    @define({'whole': lambda: Sequence[typ]}.get(how, lambda: typ)(), Any)
    def fn(arg, other):
        raise NotImplementedError
    other = S.this.b
    if how == 'this':
        expr, at = fn(S.this, other), ('this',)
        extra = {('this', 'b')}
    elif how == 'nested':
        expr, at = fn(S.this.r.n, other), ('this', 'r', 'n')
        extra = {('this', 'b')}
    elif how == 'each':
        expr = each(S.v, S.z, fn(S.v.n, S.v.a))
        at, extra = ('z', 'n'), {('z', 'a')}
    elif how == 'some':
        from hiku.expr.core import if_some
        expr = if_some([S.v, S.o], fn(S.v.n, S.v.b), None)
        at, extra = ('o', 'n'), {('o', 'b')}
    else:
        # a sequence of records
        extra = {('this', 'b'), ('z',)}
        m = Sequence[Record[{'n': typ}]]

        @define(m, Any)
        def fn2(arg, other):
            raise NotImplementedError
        expr, at = fn2(S.z, other), ('z', 'n')
    want = prefixes({at + p for p in reads} | extra | {at})
    got = paths(requirements(expr))
    s.check(got == want, 'requirements', (typ, sorted(got ^ want)))


@scenario(params={'quick': {'n': 1}, 'thorough': {'n': 2}})
def spelled(s):
    """Arguments declared by queries."""
    spec = s.pick('spec', (
        ('[[:a]]', {('a',)}), ('[[:a :b]]', {('a',), ('b',)}),
        ('[[{:r [:b]}]]', {('r',), ('r', 'b')}),
        ('[[:s {:r [{:n [:a]}]}]]', {('s',), ('r',), ('r', 'n'),
                                     ('r', 'n', 'a')}),
        ('[[]]', set())))

    @define(spec[0])
    def fn(arg):
        raise NotImplementedError
    at = s.pick('at', (('this',), ('this', 'r', 'n')))
    expr = S.this
    for n in at[1:]:
        expr = getattr(expr, n)
    want = prefixes({at + p for p in spec[1]} | {at})
    got = paths(requirements(fn(expr)))
    s.check(got == want, 'requirements', sorted(got ^ want))

    @define(spec[0][:-1] + ' nil]')
    def fn2(arg, other):
        raise NotImplementedError
    got = paths(requirements(fn2(expr, S.z)))
    s.check(got == want | {('z',)}, 'requirements', sorted(got ^ want))


@scenario()
def large(s):
    """However many things an expression reads, of whatever parts."""
    n = s.pick('size', WIDE)
    how = s.pick('how', ('list', 'dict', 'each', 'if', 'argument', 'links'))
    twice = s.choice('twice', 2)
    names = ['f%d' % i for i in range(n)]
    many = Record[dict([(x, Integer) for x in names])]
    graph = Graph([
        GNode('N', [GField(x, Integer, None) for x in names] +
              [GLink('l%d' % i, Sequence[TypeRef['M']] if how == 'each'
                     else TypeRef['M'], None, requires=None)
               for i in range(n)]),
        GNode('M', [GField(x, Integer, None) for x in ('a', 'b')]),
        Root([GField('r%d' % i, Integer, None) for i in range(n)])])
    this = [getattr(S.this, x) for x in names]
    roots = [getattr(S, 'r%d' % i) for i in range(n)]
    links = [getattr(S.this, 'l%d' % i) for i in range(n)]
    want = {('this',)} if n else set()
    for i in range(n):
        want.add(('this', names[i]))
        if how != 'argument':
            want.add(('r%d' % i,))
    if how == 'list':
        expr = this + roots
    elif how == 'dict':
        expr = {'d%d' % i: (this[i], roots[i])[j]
                for i in range(n) for j in (0, 1)}
        expr = [expr, {'k': this, 'j': roots}]
    elif how == 'if':
        expr = 0
        for i in range(min(n, 17)):
            expr = if_(this[i], roots[i], expr)
        expr = [expr, this, roots]
    elif how == 'argument':
        @define(many)
        def fn(arg):
            raise NotImplementedError
        expr = fn(S.this)
        want.add(('this',))
    else:
        expr = [this, roots, [each(S.v, x, S.v.a) if how == 'each' else x.b
                              for x in links]]
        for i in range(n):
            want |= {('this', 'l%d' % i),
                     ('this', 'l%d' % i, 'a' if how == 'each' else 'b')}
    if twice:
        # what is read again is asked once
        expr = [expr, this[:1] + this[-1:], expr]
    reqs = requirements(expr, (), graph)
    got = paths(reqs)
    s.check(got == want, 'requirements', sorted(got ^ want)[:5])

    def once(node):
        for f in node.fields:
            if isinstance(f, Link):
                once(f.node)
        ns = [f.name for f in node.fields]
        s.check(len(ns) == len(set(ns)), 'every name is requested once', ns)
    once(reqs)
