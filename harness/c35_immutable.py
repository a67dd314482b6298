"""C35: executing and transforming modify neither queries nor graphs."""
from symx.session import scenario
from hiku.engine import Engine
from hiku.executors.sync import SyncExecutor
from hiku.graph import (apply, Graph, Root, Node as GNode, Field as GField,
                        Link as GLink, Option)
from hiku.types import TypeRef, Sequence
from hiku.query import Node, Field, Link, merge
from hiku.result import denormalize
from hiku.denormalize.graphql import DenormalizeGraphQL
from hiku.introspection.graphql import GraphQLIntrospection
from hiku.export.simple import export as export_simple
from hiku.export.graphql import export as export_graphql
from hiku.validate.query import validate
from harness.world import World, make_graph, reference, attempt
from harness.vals import value

ASSUMPTIONS = ['resolver functions do not modify what they receive']
BOUNDS = ('two queries with up to 3 items, nested 2 levels, which share parts '
          'and option values (lists and dictionaries of depth 2); histories '
          'of 2 operations (thorough: 3) out of 9')


def copy_value(v):
    if isinstance(v, dict):
        return {k: copy_value(x) for k, x in v.items()}
    if isinstance(v, list):
        return [copy_value(x) for x in v]
    return v


def snap(q):
    """An independent copy of everything a query says."""
    if isinstance(q, Node):
        return ['node', bool(q.ordered), [snap(f) for f in q.fields]]
    opts = None if q.options is None else ['options', copy_value(q.options)]
    out = [type(q).__name__, q.name, q.alias, opts]
    if isinstance(q, Link):
        out.append(snap(q.node))
    return out


def snap_graph(g):
    def items(n):
        return [[type(f).__name__, f.name, repr(f.type), id(f.type),
                 id(f.func), f.requires if isinstance(f, GLink) else None,
                 [[o.name, id(o.type), copy_value(o.default)]
                  for o in f.options]] for f in n.fields]
    return [[[n.name, n.description, items(n), list(n.fields_map)]
             for n in g.nodes],
            ['root', items(g.root), list(g.root.fields_map)],
            list(g.nodes_map), [[k, id(t)] for k, t in g.data_types.items()],
            [[k, id(t), repr(t)] for k, t in g.__types__.items()]]


class Session:
    def __init__(self, s, w, graph, queries):
        self.s = s
        self.w = w
        self.graph = graph
        self.queries = queries
        self.engine = Engine(SyncExecutor())

    def run(self, op, q):
        s = self.s
        if op == 'execute':
            res = self.engine.execute(self.graph, q)
            self.check_result(res, q)
        elif op == 'denormalize':
            res = Engine(SyncExecutor()).execute(self.graph, q)
            denormalize(self.graph, res)
            DenormalizeGraphQL(self.graph, res, 'Query').process(q)
            self.check_result(res, q)
        elif op == 'validate':
            validate(self.graph, q)
        elif op == 'merge':
            merge(self.queries)
        elif op == 'merge and execute':
            m = merge([q])
            self.check_result(self.engine.execute(self.graph, m), q)
        elif op == 'simple':
            export_simple(q)
        elif op == 'graphql':
            export_graphql(q)
        elif op == 'introspection':
            g = apply(self.graph, [GraphQLIntrospection(self.graph)])
            res = self.engine.execute(g, q)
            self.check_result(res, q)
        elif op == 'compare':
            s.check(q == q.copy() and not q != q.copy(), 'equal to a copy')
            for f in q.fields:
                f.index_key, f.result_key, f.options_hash
            q.fields_map, q.result_map

    def check_result(self, res, q):
        den = denormalize(self.graph, res)
        want = reference(self.w, 'R', -1, q)
        self.s.check(self.s.eq(den, want), 'the result is the one of a fresh '
                     'engine', (den, want))


OPS = ('execute', 'denormalize', 'validate', 'merge', 'merge and execute',
       'simple', 'graphql', 'introspection', 'compare')


def history(s, queries, default=7):
    w = World(s, ids=(0, 1), max_len=1)
    graph = make_graph(w, default=default)
    for q in queries:
        s.assume(s.all([s.eq(s.eq(a.result_key, b.result_key), False)
                        for i, a in enumerate(q.fields)
                        for b in q.fields[:i]]))
        # not part of the history: leaves the originals without caches
        for f in q.fields:
            f.__dict__.pop('result_key', None)
    before = [snap(q) for q in queries]
    gbefore = snap_graph(graph)
    ses = Session(s, w, graph, queries)
    for i in range(s.params['ops']):
        op = s.pick('op%d' % i, OPS)
        q = s.pick('query%d' % i, queries)
        ses.run(op, q)
        for q, b in zip(queries, before):
            s.check(s.strict_eq(snap(q), b), 'the query is as it was: ' + op,
                    (snap(q), b))
        s.check(s.strict_eq(snap_graph(graph), gbefore),
                'the graph is as it was: ' + op)
    last = s.pick('last', queries)
    ses.run('execute', last)
    s.observe('last', snap(last))


P = {'quick': {'ops': 2}, 'thorough': {'ops': 3}}


@scenario(params=P)
def shared_parts(s):
    """Queries which share nodes and option dictionaries."""
    opts = {'x': s.int('x', 0, 3)}
    sub = Node([Field('a'), Field('d', opts, 'z')])
    queries = [
        Node([Link(s.char('l', 'lp'), sub, None), Field('c', opts)]),
        Node([Link('l', sub), Link('m', sub, None, 'k')]),
    ]
    history(s, queries)


@scenario(params=P)
def defaults(s):
    """Omitted options and default values which could be modified."""
    opts = {} if s.choice('empty', 2) else None
    queries = [
        Node([Field('c', opts), Link('p', Node([Field('d', opts)]), opts)]),
        Node([Link('e', Node([Field(s.char('f', 'xy'))])),
              Field('c', {'x': s.int('x', 0, 3)})],
             ordered=s.choice('ordered', 2) == 1),
    ]
    history(s, queries, default=s.pick('default', (7, [1, [2]], {'k': 'v'})))


@scenario(params={'quick': {'ops': 1}, 'thorough': {'ops': 2}}, timeout=120)
def option_values(s):
    """Nested option values."""
    v = value(s, 'v', 2, kinds='isld', ints=(0, 2), maxlen=1)
    queries = [
        Node([Field('c', {'x': v}), Link('p', Node([Field('d', {'x': v})]),
                                         {'x': v})]),
        Node([Field('c', {'x': v}, 'z')]),
    ]
    history(s, queries)


@scenario(params=P)
def partial_options(s):
    """Some of the declared options are given, the others have defaults."""
    def opts():
        return [Option('x', None, default=s.pick('dx', (7, [1]))),
                Option('y', None, default=8)]

    shared = opts()

    def seen(o):
        return [o.get('x'), o.get('y'), len(o)]
    graph = Graph([
        GNode('N', [GField('d', None, lambda fields, ids:
                           [[seen(f.options) for f in fields] for i in ids],
                           options=shared)]),
        Root([GField('c', None, lambda fields: [seen(f.options)
                                                for f in fields],
                     options=shared),
              GLink('l', Sequence[TypeRef['N']], lambda o: [len(o)],
                    requires=None, options=shared)]),
    ])

    def given(p):
        k = s.choice(p + '.given', 4)
        out = {}
        if k & 1:
            out['x'] = s.int(p + '.x', 0, 3)
        if k & 2:
            out['y'] = s.int(p + '.y', 0, 3)
        return out
    o1, o2 = given('o1'), given('o2')
    q = Node([Field('c', o1), Field('c', o2, 'k'),
              Link('l', Node([Field('d', o1), Field('d', o2, 'z')]), o1)])
    before, gbefore = snap(q), snap_graph(graph)

    def want(o):
        return [o.get('x', shared[0].default), o.get('y', 8), 2]
    result = {'c': want(o1), 'k': want(o2),
              'l': [{'d': want(o1), 'z': want(o2)}]}
    engine = Engine(SyncExecutor())
    for i in range(s.params['ops']):
        res = engine.execute(graph, q)
        den = denormalize(graph, res)
        s.check(s.eq(den, result), 'the values of the options', (den, result))
        validate(graph, q)
        s.check(s.strict_eq(snap(q), before), 'the query is as it was',
                (snap(q), before))
        s.check(s.strict_eq(snap_graph(graph), gbefore),
                'the graph is as it was')


@scenario(params=P)
def repeated_requests(s):
    """Selections which are merged when the query is used."""
    sub = Node([Field('a'), Field('a')])
    q = Node([Link('l', sub), Link('l', Node([Field(s.char('f', 'ab'))]))])
    before = snap(q)
    w = World(s, ids=(0, 1), max_len=1)
    graph = make_graph(w)
    for i in range(s.params['ops']):
        m = merge([q])
        want = reference(w, 'R', -1, m)
        mb = snap(m)
        err = validate(graph, m)
        s.check(not err, 'merged query is valid', err)
        res = Engine(SyncExecutor()).execute(graph, m)
        den = denormalize(graph, res)
        s.check(s.eq(den, want), 'result', (den, want))
        export_simple(m)
        m2 = merge([m, q])
        s.check(s.strict_eq(snap(m2), mb), 'merging again', (m2, mb))
        s.check(s.strict_eq(snap(q), before), 'the query is as it was')
        s.check(s.strict_eq(snap(m), mb), 'the merged query is as it was')
