"""C32: the context reaches exactly the functions which ask for it."""
from collections.abc import Mapping
from symx.session import scenario
from harness import sched
from hiku.engine import Engine, Context, pass_context
from hiku.executors.sync import SyncExecutor
from hiku.executors.asyncio import AsyncIOExecutor
from hiku.executors.threads import ThreadsExecutor
from hiku.expr.core import S
from hiku.graph import (apply, Graph, Root, Node as GNode, Field as GField,
                        Link as GLink, Option, Nothing)
from hiku.introspection.graphql import (GraphQLIntrospection,
                                        AsyncGraphQLIntrospection)
from hiku.endpoint.graphql import GraphQLEndpoint
from hiku.query import Node, Field, Link
from hiku.readers.graphql import Operation, OperationType
from hiku.result import denormalize
from hiku.sources.graph import SubGraph
from hiku.telemetry.prometheus import GraphMetrics, AsyncGraphMetrics
from hiku.types import TypeRef, Sequence, Optional, Integer
from harness.world import attempt

ASSUMPTIONS = ['functions defined for expressions are not resolver functions '
               'and get no context (C24)']
BOUNDS = ('15 functions of all kinds, each of them marked or not; symbolic '
          'values of the context; queries of up to 3 items, 3 levels; two '
          'executions interleaved in any order in which calls complete, or '
          'nested')

# name -> number of arguments without the context
ARITY = {'rf': 1, 'rg': 1, 'rl': 0, 'ro': 1, 'rm': 0, 'nf': 2, 'ng': 2,
         'nl': 1, 'no': 2, 'nn': 0, 'np': 1, 'nm': 1, 'lf': 2, 'll': 1,
         'lg': 2}


class Metric:
    def labels(self, *args):
        return self

    def observe(self, value):
        pass


class Case:
    def __init__(self, s, names, wrap=None, marked=None):
        self.s = s
        self.calls = []
        self.hooks = {}
        self.marked = marked or {n: bool(s.choice('mark ' + n, 2))
                                 for n in names}
        self.wrap = wrap or (lambda fn, name: fn)

    def fn(self, name, body):
        def call(*args):
            self.calls.append((name, args))
            if name in self.hooks:
                self.hooks[name](args)
            return body(*args[1:] if self.marked.get(name) else args)
        if self.marked.get(name):
            call = pass_context(call)
        return self.wrap(call, name)

    def graph(self):
        fn = self.fn

        def fields(name):
            return fn(name, lambda fs, ids: [[i * 10 for f in fs]
                                             for i in ids])

        def root(name):
            return fn(name, lambda fs: [1 for f in fs])
        opt = [Option('x', Integer, default=1)]
        low = Graph([
            GNode('N', [GField('lf', Integer, fields('lf')),
                        GLink('ll', TypeRef['L'],
                              fn('ll', lambda ids: list(ids)),
                              requires='lf')]),
            GNode('L', [GField('lg', Integer, fields('lg'))]),
            Root([]),
        ])
        sg = SubGraph(low, 'N')
        return Graph([
            GNode('N', [
                GField('nf', Integer, fields('nf')),
                GField('ng', Integer, fields('ng'), options=opt),
                GField('lf', Integer, sg),
                GField('lx', Integer, sg.c(S.this.ll.lg)),
                GLink('nl', Sequence[TypeRef['N']],
                      fn('nl', lambda ids: [[1] for i in ids]),
                      requires='nf'),
                GLink('no', TypeRef['N'],
                      fn('no', lambda ids, o: [2 for i in ids]),
                      requires='nf', options=opt),
                GLink('nn', TypeRef['N'], fn('nn', lambda: 3),
                      requires=None),
                GLink('np', Sequence[TypeRef['N']],
                      fn('np', lambda o: [4]), requires=None, options=opt),
                GLink('nm', Optional[TypeRef['N']],
                      fn('nm', lambda ids: [Nothing for i in ids]),
                      requires='nf'),
            ]),
            Root([
                GField('rf', Integer, root('rf')),
                GField('rg', Integer, root('rg')),
                GLink('rl', Sequence[TypeRef['N']], fn('rl', lambda: [1, 2]),
                      requires=None),
                GLink('ro', TypeRef['N'], fn('ro', lambda o: 1),
                      requires=None, options=opt),
                GLink('rm', Optional[TypeRef['N']], fn('rm', lambda: 1),
                      requires=None),
            ]),
        ])

    def check(self, key, value, calls=None):
        """Every call got what its function asked for."""
        s = self.s
        for name, args in self.calls if calls is None else calls:
            if self.marked.get(name):
                s.check(len(args) == ARITY[name] + 1 and
                        isinstance(args[0], Context), 'the context is the '
                        'first argument', (name, args))
                ctx = args[0]
                s.check(s.all([len(ctx) == 1, list(ctx) == [key],
                               s.eq(ctx[key], value)]),
                        'the context of this execution', (name, value))
                rest = args[1:]
            else:
                s.check(len(args) == ARITY[name], 'number of arguments',
                        (name, args))
                rest = args
            s.check(not any(isinstance(a, Context) for a in rest),
                    'nothing but the first argument is the context', name)


INNER = ('nf', 'ng', 'lf', 'lx', 'nl', 'no', 'nn', 'np', 'nm')
LINKS = ('rl', 'ro', 'rm', 'nl', 'no', 'nn', 'np', 'nm')


def tree(path):
    """Query for a path of names; used functions."""
    name, rest = path[0], path[1:]
    if name in LINKS:
        return Link(name, Node([tree(rest)] if rest else [Field('nf')]))
    return Field(name)


USES = {'lf': ('lf',), 'lx': ('lf', 'll', 'lg'), 'nl': ('nf', 'nl'),
        'no': ('nf', 'no'), 'nm': ('nf', 'nm')}


def used(path):
    out = []
    for n in path:
        out.extend(USES.get(n, (n,)))
    if path[-1] in LINKS:
        out.append('nf')
    return sorted(set(out))


def pick_path(s, depth):
    path = [s.pick('p0', ('rf', 'rl', 'ro', 'rm'))]
    while path[-1] in LINKS and len(path) < depth:
        path.append(s.pick('p%d' % len(path), INNER))
    return path


def run(engine, graph, q, ctx):
    res = engine.execute(graph, q, ctx)
    return res


WRAPPERS = ('none', 'metrics', 'introspection', 'both')


def wrapped(graph, how):
    if how in ('metrics', 'both'):
        graph = apply(graph, [GraphMetrics('g', metric=Metric())])
    if how in ('introspection', 'both'):
        graph = apply(graph, [GraphQLIntrospection(graph)])
    return graph


@scenario(params={'quick': {'depth': 2}, 'thorough': {'depth': 3}},
          timeout=120)
def kinds(s):
    """Functions of all kinds, below all kinds of wrappers."""
    path = pick_path(s, s.params['depth'])
    case = Case(s, used(path))
    graph = wrapped(case.graph(), s.pick('wrapper', WRAPPERS))
    v = s.int('value', 0, 99)
    key = s.string('key', 1, 2, 'abc')
    Engine(SyncExecutor()).execute(graph, Node([tree(path)]), {key: v})
    s.check(set(n for n, _ in case.calls) == set(used(path)),
            'all of the functions are called', case.calls)
    case.check(key, v)


@scenario(params={'quick': {'n': 2}, 'thorough': {'n': 3}})
def together(s):
    """Marked functions together with others in one query; ordered too."""
    names = ['rf', 'rg', 'rl', 'rm']
    k = [s.pick('item%d' % i, names) for i in range(s.params['n'])]
    case = Case(s, sorted(set(k)) + ['nf', 'ng', 'nl'])
    graph = wrapped(case.graph(), s.pick('wrapper', ('none', 'metrics')))
    v = s.int('value', 0, 99)
    items = []
    for i, n in enumerate(k):
        sub = Node([Field('ng'), Link('nl', Node([Field('ng')])),
                    Field('nf')], ordered=bool(i % 2))
        items.append(Link(n, sub, None, 'x%d' % i) if n in LINKS
                     else Field(n, None, 'x%d' % i))
    ordered = bool(s.choice('ordered', 2))
    Engine(SyncExecutor()).execute(graph, Node(items, ordered=ordered),
                                   {'key': v})
    case.check('key', v)


class Falsy(Mapping):
    """A mapping which is false."""

    def __init__(self, d):
        self.d = d

    def __getitem__(self, key):
        return self.d[key]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __bool__(self):
        return False


@scenario(covers=('known', 'unknown'))
def reading(s):
    """Values of the context are those given; reading an unknown one is an
    error which names it."""
    seen = []

    @pass_context
    def f(ctx, fields):
        seen.append(ctx)
        return [ctx[k] for _ in fields]
    graph = Graph([Root([GField('a', Integer, f)])])
    n = s.choice('n', 3)
    given = {}
    for i in range(n):
        given[s.string('k%d' % i, 0, 1, 'ab')] = (
            s.pick('v%d.special' % i, (None, False, '', ()))
            if s.choice('v%d.kind' % i, 2) else s.int('v%d' % i, 0, 9))
    k = s.string('k', 0, 1, 'ab')
    how = s.choice('no context', 4)
    args = [given]
    if how == 1 and not n:
        args = []
    elif how == 2 and not n:
        args = [None]
    elif how == 3:
        args = [Falsy(given)]
    got, err = attempt(lambda: denormalize(graph, Engine(
        SyncExecutor()).execute(graph, Node([Field('a')]), *args)))
    if k in given:
        s.cover('known')
        s.check(err is None, 'no error', err)
        s.check(s.eq(got, {'a': given[k]}), 'the value given', got)
        s.check(k in seen[0] and s.eq(seen[0].get(k), given[k]), 'get')
    else:
        s.cover('unknown')
        s.check(isinstance(err, KeyError), 'an error', err)
        s.check(repr(k) in str(err.args[0]), 'the error names it', err)
        s.check(k not in seen[0] and seen[0].get(k, 'd') == 'd', 'default')
    s.check(len(seen[0]) == len(given) and
            s.eq(list(seen[0]), list(given)), 'the keys')


@scenario(params={'quick': {'batch': 1, 'more': False},
                  'thorough': {'batch': 2, 'more': True}}, timeout=120)
def interleaved(s):
    """Two executions on one engine and graph with different contexts."""
    lp = sched.Loop(s, batch=s.params['batch'])
    shapes = (('rf',), ('rl', 'lx'), ('ro', 'nl'))
    if s.params['more']:
        shapes += (('rm', 'no'),)
    path = s.pick('path', shapes)
    other = s.pick('other', shapes)
    names = sorted(set(used(path)) | set(used(other)))
    every = s.pick('marks', (1, 2)) if not s.params['more'] else 0
    case = Case(s, names, lp.gated, every and {
        n: i % every == 0 for i, n in enumerate(names)})
    graph = case.graph()
    if s.choice('metrics', 2):
        graph = apply(graph, [AsyncGraphMetrics('g', metric=Metric())])
    v = [s.int('v%d' % i, 0, 9) for i in range(2)]
    engine = Engine(AsyncIOExecutor(lp.loop))
    done = []

    async def one(i, p):
        task = engine.execute(graph, Node([tree(p)]), {'key%d' % i: v[i]})
        done.append(await task)

    async def both():
        a = lp.loop.create_task(one(0, path))
        b = lp.loop.create_task(one(1, other))
        await a
        await b
    status, res = lp.run(both())
    s.check(status == 'ok' and len(done) == 2, 'both are complete',
            (status, res))
    # the executions which a call may belong to
    contexts = {}
    for name, args in case.calls:
        if case.marked[name]:
            ok = isinstance(args[0], Context) and len(args[0]) == 1
            s.check(ok, 'the context is the first argument', (name, args))
            k = list(args[0])[0]
            i = int(k[-1])
            s.check(k == 'key%d' % i and s.eq(args[0][k], v[i]),
                    'a value of the same context', k)
            contexts.setdefault(name, []).append(i)
        else:
            s.check(len(args) == ARITY[name], 'no context', (name, args))
    for name, used_in in contexts.items():
        want = [i for i, p in ((0, path), (1, other)) if name in used(p)]
        s.check(sorted(set(used_in)) == want, 'contexts do not mix',
                (name, used_in, want))


@scenario()
def consecutive(s):
    """Executions on one engine, each with a context of its own or none."""
    kind = s.pick('executor', ('sync', 'threads'))
    seen = []

    @pass_context
    def root(ctx, fs):
        seen.append(dict(ctx))
        return [1 for f in fs]

    @pass_context
    def field(ctx, fs, ids):
        seen.append(dict(ctx))
        return [[i for f in fs] for i in ids]

    @pass_context
    def link(ctx):
        seen.append(dict(ctx))
        return [1]
    graph = Graph([GNode('N', [GField('f', None, field)]),
                   Root([GField('r', None, root),
                         GLink('l', Sequence[TypeRef['N']], link,
                               requires=None)])])
    q = Node([Field('r'), Link('l', Node([Field('f')]))],
             ordered=bool(s.choice('ordered', 2)))
    pool = sched.StubPool(s, batch=1)
    engine = Engine(SyncExecutor() if kind == 'sync'
                    else ThreadsExecutor(pool))
    keys = [s.char('key%d' % i, 'ab') for i in range(3)]
    for i in range(3):
        del seen[:]
        args = ((), (None,), ({},), ({keys[i]: s.int('v%d' % i, 0, 9)},))[
            s.choice('given%d' % i, 4)]
        want = (args[0] or {}) if args else {}
        if kind == 'sync':
            engine.execute(graph, q, *args)
        else:
            with sched.active(pool):
                engine.execute(graph, q, *args)
        s.check(len(seen) == 3, 'every function is called once', seen)
        for c in seen:
            s.check(s.eq(c, want), 'the context of this execution',
                    (c, want))


@scenario()
def nested(s):
    """A resolver function executes a query with another context."""
    path = s.pick('path', (('rl', 'nl'), ('rl', 'lx'), ('ro', 'no')))
    at = s.pick('at', [n for n in used(path)])
    case = Case(s, used(path))
    graph = case.graph()
    kind = s.pick('executor', ('sync', 'threads'))
    v = [s.int('v%d' % i, 0, 9) for i in range(2)]

    def engine(prefix):
        if kind == 'sync':
            return Engine(SyncExecutor()), None
        pool = sched.StubPool(s, batch=1, prefix=prefix)
        return Engine(ThreadsExecutor(pool)), pool
    state = {'level': 0, 'inner': []}

    def execute(prefix, ctx):
        eng, pool = engine(prefix)
        if pool is None:
            return eng.execute(graph, Node([tree(path)]), ctx)
        with sched.active(pool):
            return eng.execute(graph, Node([tree(path)]), ctx)

    def hook(args):
        if state['level']:
            return
        state['level'] = 1
        n = len(case.calls)
        execute('i', {'key': v[1]})
        state['inner'] = case.calls[n:]
        case.calls[n:] = []
        state['level'] = 2
    case.hooks[at] = hook
    execute('o', {'key': v[0]})
    s.check(state['level'] == 2 and state['inner'], 'both are executed')
    case.check('key', v[0])
    case.check('key', v[1], state['inner'])


@scenario()
def endpoint(s):
    """The context given to an endpoint."""
    path = s.pick('path', (('rf',), ('rl', 'nl'), ('ro', 'lx')))
    case = Case(s, used(path))
    v = s.int('v', 0, 9)
    ep = GraphQLEndpoint(Engine(SyncExecutor()), case.graph())
    q = Node([tree(path), Field('__typename')])
    ep.execute(ep.query_graph, Operation(OperationType.QUERY, q), {'key': v})
    s.check(len(case.calls) >= len(used(path)), 'functions are called')
    case.check('key', v)
