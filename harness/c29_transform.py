"""C29: graph transformations preserve everything they do not change."""
import asyncio
from symx.session import scenario
from hiku.engine import Engine, pass_context
from hiku.executors.sync import SyncExecutor
from hiku.executors.asyncio import AsyncIOExecutor
from hiku.expr.core import S
from hiku.graph import (apply, Graph, GraphTransformer, GraphVisitor,
                        Root, Node as GNode, Field as GField, Link as GLink, Option, Nothing)
from hiku.introspection.graphql import (GraphQLIntrospection, MakeAsync,
                                        AsyncGraphQLIntrospection)
from hiku.query import Node, Field, Link
from hiku.result import denormalize
from hiku.sources.graph import SubGraph
from hiku.telemetry.prometheus import GraphMetrics, AsyncGraphMetrics
from hiku.types import (TypeRef, Sequence, Optional, Integer, String, Record,
                        Any, Boolean, Float, Mapping)
from harness.world import attempt, World, make_graph, reference
from harness.sizes import place

ASSUMPTIONS = ['functions are compared by what they give']
BOUNDS = ('graphs of up to 2 nodes and 2 parts of the root, with up to 2 '
          'items each, arbitrary names; chains of up to 2 transformations '
          '(thorough: 3) out of 6; graphs of up to 65 nodes, items, options or '
          'data types, up to 33 transformations')


class Metric:
    def labels(self, *args):
        return self

    def observe(self, value):
        pass


class Wrap(GraphTransformer):
    """Wraps functions of fields, each function once."""

    def __init__(self):
        self.done = {}

    def visit_field(self, obj):
        field = super().visit_field(obj)
        fn = field.func
        if hasattr(fn, '__subquery__'):
            return field
        if id(fn) not in self.done:
            self.done[id(fn)] = (fn, self.wrap(fn))
        field.func = self.done[id(fn)][1]
        return field

    def wrap(self, fn):

        def wrapper(*args):
            return fn(*args)
        if getattr(fn, '__pass_context__', False):
            wrapper = pass_context(wrapper)
        return wrapper


class Identity(GraphTransformer):
    pass


class Rename(GraphTransformer):
    """Changes descriptions of nodes, nothing else."""

    def visit_node(self, obj):
        node = super().visit_node(obj)
        node.description = 'described'
        return node


def option(o):
    return [o.name, id(o.type), o.default, o.description]


def item(f):
    out = [type(f).__name__, f.name, id(f.type) if f.type else None,
           f.description, [option(o) for o in f.options]]
    if isinstance(f, GLink):
        out.extend([f.requires, f.node, f.type_enum])
    return out


def items(node, drop=()):
    return [item(f) for f in node.fields if f.name not in drop]


def describe(graph):
    """Everything a graph says, but functions."""
    return [[[n.name, n.description, items(n)] for n in graph.nodes],
            items(graph.root),
            [[k, id(t)] for k, t in graph.data_types.items()]]


def functions(graph):
    return [[id(f.func) for f in n.fields]
            for n in list(graph.nodes) + [graph.root]]


class Seen(GraphVisitor):
    """Objects of a graph, in the order they are visited."""

    def __init__(self):
        self.objs = []

    def visit(self, obj):
        self.objs.append(obj)
        return super().visit(obj)


def everything(obj):
    out = [obj]
    if isinstance(obj, (GField, GLink)):
        below = obj.options
    elif isinstance(obj, Graph):
        below = obj.items
    elif isinstance(obj, (GNode, Root)):
        below = obj.fields
    else:
        below = []
    for x in below:
        out.extend(everything(x))
    return out


def check_lookups(s, graph):
    """Lookups by name agree with iteration."""
    def same(pairs, objs, what):
        pairs = list(pairs)
        s.check(len(pairs) == len(objs) and all(
            v is o for (_, v), o in zip(pairs, objs)),
            what + ': the same objects')
        s.check(s.all([s.eq(k, o.name) for (k, _), o in zip(pairs, objs)]),
                what + ': by name')
    same(graph.nodes_map.items(), list(graph.nodes), 'nodes')
    seen, whole = Seen(), everything(graph)
    seen.visit(graph)
    s.check([id(x) for x in seen.objs] == [id(x) for x in whole],
            'visitors visit everything', (seen.objs, whole))
    s.check(all(a is b for a, b in zip(graph.nodes, graph.iter_nodes())),
            'nodes are the same')
    s.check(len(list(graph.iter_root())) == len(graph.root.fields),
            'items of the root')
    for n in list(graph.nodes) + [graph.root]:
        same(n.fields_map.items(), list(n.fields), 'fields')
        for f in n.fields:
            same(f.options_map.items(), list(f.options), 'options')
            if isinstance(f, GLink):
                s.check(f.node in graph.nodes_map, 'target of the link')


def fn1(fields, ids=None):
    if ids is None:
        return [1 for _ in fields]
    return [[i for _ in fields] for i in ids]


def any_item(s, label, target):
    k = s.choice(label, 3)
    name = s.string(label + '.name', 1, 1, 'abc')
    doc = s.pick(label + '.doc', (None, 'text', ''))
    opts = None
    if k != 1 and s.choice(label + '.opts', 2):
        opts = [Option(s.string(label + '.opt', 1, 1, 'xy'), Integer,
                       default=s.pick(label + '.dflt', (Nothing, None, 3)),
                       description=doc)]
    if k == 0:
        return GField(name, Integer, fn1, options=opts, description=doc)
    if k == 1:
        return GField(name, s.pick(label + '.type', (None, TypeRef['T'])),
                      fn1, description=doc)
    t = s.pick(label + '.link', (TypeRef, Optional, Sequence))
    t = TypeRef[target] if t is TypeRef else t[TypeRef[target]]
    return GLink(name, t, fn1, requires=None, options=opts, description=doc)


TRANSFORMERS = ('identity', 'wrap', 'metrics', 'introspection', 'rename',
                'async')


def transformer(kind, graph):
    if kind == 'identity':
        return Identity()
    if kind == 'wrap':
        return Wrap()
    if kind == 'metrics':
        return GraphMetrics('g', metric=Metric())
    if kind == 'rename':
        return Rename()
    if kind == 'async':
        return MakeAsync()
    return GraphQLIntrospection(graph)


def preserved(s, before, graph, kinds):
    """What the description says is kept; introspection adds names which
    start with an underscore."""
    nodes, root, types = before
    if 'rename' in kinds:
        nodes = [[n, 'described', fs] for n, _, fs in nodes]
    if 'introspection' in kinds:
        got = [[n.name, n.description, items(n, ('__typename',))]
               for n in graph.nodes if not n.name.startswith('__')]
        got_root = [item(f) for f in graph.root.fields
                    if not f.name.startswith('__')]
        for n in list(graph.nodes) + [graph.root]:
            if n.name is None or not n.name.startswith('__'):
                s.check(s.any([s.eq(f.name, '__typename')
                               for f in n.fields]), '__typename', n)
    else:
        got = [[n.name, n.description, items(n)] for n in graph.nodes]
        got_root = items(graph.root)
    s.check(s.eq(got, nodes), 'nodes are kept', (got, nodes))
    s.check(s.eq(got_root, root), 'the root is kept', (got_root, root))
    s.check([[k, id(t)] for k, t in graph.data_types.items()] == types,
            'data types are kept')


@scenario(params={'quick': {'n': 2, 'items': 1},
                  'thorough': {'n': 2, 'items': 2}}, timeout=300)
def structure(s):
    """Any graph, chains of transformations."""
    a = s.string('node', 1, 1, 'NM')
    where = s.pick('where', ('node', 'root', 'roots'))
    found = [any_item(s, 'item%d' % i, a) for i in range(s.params['items'])]
    plain = GField('z', Integer, fn1)
    for i, x in enumerate(found):
        for y in found[:i]:
            s.assume(s.not_(s.eq(x.name, y.name)))
    dt = {'T': Record[{'x': Integer}]}
    doc = s.pick('doc', (None, 'about'))
    if where == 'node':
        parts = [GNode(a, found + [plain], description=doc),
                 Root([GField('r', None, fn1)])]
    elif where == 'root':
        parts = [Root(found + [GField('r', None, fn1)]),
                 GNode(a, [plain], description=doc)]
    else:
        parts = [Root([GField('r', None, fn1)]),
                 GNode(a, [plain], description=doc), Root(found)]
    said = [[[n.name, n.description, items(n)] for n in parts
             if isinstance(n, GNode) and not isinstance(n, Root)],
            [item(f) for n in parts if isinstance(n, Root)
             for f in n.fields],
            [[k, id(t)] for k, t in dt.items()]]
    graph = Graph(parts, dt)
    before = describe(graph)
    s.check(s.eq(before, said), 'the graph is what its parts say',
            (before, said))
    fns = functions(graph)
    check_lookups(s, graph)
    kinds = []
    for i in range(s.params['n']):
        k = s.pick('transformation%d' % i, TRANSFORMERS)
        if k in kinds and k == 'introspection':
            return
        kinds.append(k)
    out = apply(graph, [transformer(k, graph) for k in kinds])
    preserved(s, before, out, kinds)
    check_lookups(s, out)
    s.check(s.eq(describe(graph), before) and functions(graph) == fns,
            'the original graph is unchanged')
    check_lookups(s, graph)
    if set(kinds) <= {'identity', 'rename'}:
        s.check(functions(out) == fns, 'functions are kept')


class Say(GraphTransformer):
    """Adds a word to what is said about everything."""

    def __init__(self, word):
        self.word = word

    def say(self, obj, new):
        new.description = (obj.description or '') + self.word
        return new

    def visit_node(self, obj):
        return self.say(obj, super().visit_node(obj))

    def visit_field(self, obj):
        return self.say(obj, super().visit_field(obj))

    def visit_link(self, obj):
        return self.say(obj, super().visit_link(obj))

    def visit_option(self, obj):
        return self.say(obj, super().visit_option(obj))


@scenario(params={'quick': {'n': 3}, 'thorough': {'n': 4}})
def in_order(s):
    """Transformers are applied one after another, in the order given."""
    n = s.choice('n', s.params['n'] + 1)
    words = [s.char('word%d' % i, 'ab') for i in range(n)]
    doc = s.pick('doc', (None, '', 'x'))
    opts = [Option('o', Integer, default=1, description=doc)]
    graph = Graph([
        GNode('N', [GField('a', Integer, fn1, options=opts,
                           description=doc)], description=doc),
        Root([GLink('n', TypeRef['N'], fn1, requires=None,
                    description=doc, options=opts)])])
    before = describe(graph)
    out = apply(graph, s.pick('given', (list, tuple))(
        [Say(w) for w in words]))
    want = (doc or '') + ''.join(words) if n else doc
    node, link = out.nodes_map['N'], out.root.fields_map['n']
    field = node.fields_map['a']
    for x in (node, link, field, link.options_map['o'],
              field.options_map['o']):
        s.check(s.eq(x.description, want), 'what is said', x.description)
    s.check(s.eq(describe(graph), before), 'the original graph is unchanged')
    if not n:
        s.check(s.eq(describe(out), before), 'nothing to do')


def shapes(s):
    """A query over the graph of the world."""
    k = s.choice('shape', 5)
    x = s.int('x', 0, 9)
    return Node([
        [Field('a'), Field('c', {'x': x}), Field('b', None, 'z')],
        [Link('l', Node([Field('d', {'x': x}), Field('a'), Link(
            'o', Node([Field('b')]))]))],
        [Link('p', Node([Field('b')]), {'x': x}), Field('c')],
        [Link('m', Node([Link('q', Node([Field('g')]), {'x': x},
                              'w'), Field('g')]))],
        [Link('o', Node([Field('a'), Link('k', Node([Field('b')]))])),
         Link('l', Node([Link('n', Node([Field('a')]))]))],
    ][k], ordered=bool(s.choice('ordered', 2)))


@scenario(params={'quick': {'n': 2}, 'thorough': {'n': 3}}, timeout=300)
def queries(s):
    """Queries give the same result on the transformed graph."""
    w = World(s, max_len=1, ids=(0, 1))
    graph = make_graph(w)
    q = shapes(s)
    kinds = [s.pick('transformation%d' % i,
                    [t for t in TRANSFORMERS if t != 'async'])
             for i in range(s.params['n'])]
    if kinds.count('introspection') > 1:
        return
    out = apply(graph, [transformer(k, graph) for k in kinds])
    want = denormalize(graph, Engine(SyncExecutor()).execute(graph, q))
    calls = len(w.log)
    got = denormalize(out, Engine(SyncExecutor()).execute(out, q))
    s.check(s.eq(got, want), 'the same result', (kinds, got, want))
    s.check(len(w.log) == 2 * calls, 'the same calls', w.log)
    again = denormalize(graph, Engine(SyncExecutor()).execute(graph, q))
    s.check(s.eq(again, want), 'the original graph works', again)


@scenario()
def type_names(s):
    """A graph with introspection says the names of types, and the rest of
    the query gives the same."""
    w = World(s, max_len=1, ids=(0, 1))
    graph = make_graph(w)
    out = apply(graph, [transformer('introspection', graph)])
    top = s.char('top', 'lmop')
    kind = 'N' if top in 'lm' else 'M'

    def node(label, others, type_name):
        """The selection with names of types and without them."""
        how = s.choice(label + '.asked', 3)
        alias = s.pick(label + '.alias', (None, 't')) if how else None
        key = alias or '__typename'
        asked = [Field('__typename', None, alias)]
        items = {0: others, 1: asked + others, 2: others + asked}[how]
        return items, (key, type_name) if how else None

    below = [Field('b')] if s.choice('field', 2) else []
    mid, mid_said = node('mid', below, kind)
    root, root_said = node('root', [Link(top, Node(mid))], 'Query')
    got = denormalize(out, Engine(SyncExecutor()).execute(out, Node(root)))
    want = denormalize(graph, Engine(SyncExecutor()).execute(
        graph, Node([Link(top, Node(below))])))

    def say(value, said):
        if said is not None:
            value[said[0]] = said[1]

    say(want, root_said)
    objs = want[top]
    for obj in objs if isinstance(objs, list) else [objs]:
        if obj is not None:
            say(obj, mid_said)
    s.check(s.eq(got, want), 'the names of types', (got, want))


@scenario(timeout=300)
def made_async(s):
    """The graph with asynchronous functions."""
    w = World(s, max_len=1, ids=(0, 1))
    graph = make_graph(w)
    q = shapes(s)
    kinds = s.pick('chain', (('async',), ('async', 'introspection'),
                             ('async', 'metrics'), ('metrics', 'async'),
                             ('identity', 'async', 'rename')))
    g = graph
    for k in kinds:
        if k == 'introspection':
            g = apply(g, [AsyncGraphQLIntrospection(graph)])
        elif k == 'metrics' and kinds[0] == 'async':
            g = apply(g, [AsyncGraphMetrics('g', metric=Metric())])
        else:
            g = apply(g, [transformer(k, graph)])
    want = denormalize(graph, Engine(SyncExecutor()).execute(graph, q))
    loop = asyncio.new_event_loop()
    try:
        asyncio.set_event_loop(loop)
        res = loop.run_until_complete(
            Engine(AsyncIOExecutor(loop)).execute(g, q))
    finally:
        asyncio.set_event_loop(None)
        loop.close()
    got = denormalize(g, res)
    s.check(s.eq(got, want), 'the same result', (kinds, got, want))


@scenario()
def sources(s):
    """Graphs with functions of other sources: computed fields."""
    def low(fields, ids):
        return [[s.uf(f.name, i) for f in fields] for i in ids]

    @pass_context
    def own(ctx, fields, ids):
        return [[ctx['k'] for _ in fields] for i in ids]
    x = s.int('x', 0, 9)
    lower = Graph([GNode('N', [GField('a', Integer, low),
                               GField('b', Integer, low)]), Root([])])
    kinds = [s.pick('low%d' % i, ('identity', 'wrap', 'metrics'))
             for i in range(1)]
    lower = apply(lower, [transformer(k, lower) for k in kinds])
    sg = SubGraph(lower, 'N')
    ids = [s.int('id%d' % i, 0, 1) for i in range(2)]
    graph = Graph([
        GNode('N', [GField('u', None, sg.c([S.this.a, S.p]),
                           options=[Option('p', Integer, default=x)]),
                    GField('b', None, sg), GField('own', None, own)]),
        Root([GLink('ns', Sequence[TypeRef['N']], lambda: list(ids),
                    requires=None)])])
    chain = [s.pick('transformation%d' % i, (
        'identity', 'wrap', 'metrics', 'rename', 'introspection'))
        for i in range(2)]
    if chain.count('introspection') > 1:
        return
    before = describe(graph)
    out = apply(graph, [transformer(k, graph) for k in chain])
    preserved(s, before, out, chain)
    q = Node([Link('ns', Node([Field('u'), Field('b'), Field('own'),
                               Field('u', {'p': 5}, 'v')]))])
    v = s.int('v', 0, 9)
    got = denormalize(out, Engine(SyncExecutor()).execute(out, q, {'k': v}))
    want = {'ns': [{'u': [s.uf('a', i), x], 'b': s.uf('b', i), 'own': v,
                    'v': [s.uf('a', i), 5]} for i in ids]}
    s.check(s.eq(got, want), 'the result', (got, want))


@scenario(timeout=300)
def large(s):
    """Graphs with many nodes, items or options; many transformers."""
    kind = s.pick('many', ('nodes', 'fields', 'links', 'options', 'roots',
                           'types', 'transformers'))
    n = s.pick('n', (1, 3, 17, 65) if kind != 'transformers' else (1, 9, 33))
    k = place(s, 'place', n)
    c = s.char('name', 'xyz')
    doc = s.pick('doc', (None, 'text'))

    def many(what):
        return range(n) if kind == what else range(1)

    def named(what, i):
        return c if kind == what and i == k else '%s%d' % (what[0], i)
    nodes = [named('nodes', i) for i in many('nodes')]
    parts = []
    for i, nm in enumerate(nodes):
        fields = [GField(named('fields', j), Integer, fn1, options=[
            Option(named('options', m), Integer, default=m)
            for m in many('options')]) for j in many('fields')]
        links = [GLink(named('links', j), Sequence[TypeRef[
            nodes[(i + 1) % len(nodes)]]], fn1, requires=None,
            description=doc) for j in many('links')]
        parts.append(GNode(nm, fields + links, description=doc))
    parts[1:1] = [Root([GField(named('roots', i), Integer, fn1)])
                  for i in many('roots')]
    dt = {named('types', i): Record[{'x': Integer}] for i in many('types')}
    said = [[[p.name, p.description, items(p)] for p in parts
             if not isinstance(p, Root)],
            [item(f) for p in parts if isinstance(p, Root)
             for f in p.fields], [[k, id(t)] for k, t in dt.items()]]
    graph = Graph(parts, dt)
    before = describe(graph)
    s.check(s.eq(before, said), 'the graph is what its parts say',
            (before, said))
    fns = functions(graph)
    if kind == 'transformers':
        words = [chr(97 + i % 26) for i in range(n)]
        words[k] = c
        out = apply(graph, [Say(w) for w in words])
        for p in out.nodes:
            s.check(s.eq(p.description, (doc or '') + ''.join(words)),
                    'every transformer', p.description)
    else:
        kinds = [s.pick('transformation', TRANSFORMERS)]
        out = apply(graph, [transformer(t, graph) for t in kinds])
        preserved(s, before, out, kinds)
    check_lookups(s, out)
    s.check(s.eq(describe(graph), before) and functions(graph) == fns,
            'the original graph is unchanged')
    check_lookups(s, graph)


@scenario()
def data_types(s):
    """Data types of any kind are kept, also those nobody mentions."""
    rec = Record[{'x': Integer}]
    dt = {}
    for i, name in enumerate(('T', 'U')):
        t = s.pick('type%d' % i, (
            rec, Any, Integer, String, Boolean, Float, Optional[Integer],
            Optional[TypeRef['T']], Sequence[String], Sequence[TypeRef['T']],
            Mapping[String, Integer], TypeRef['V'], Record[{}], None))
        if t is not None:
            dt[name] = t
    dt['V'] = rec
    told = [[k, id(t)] for k, t in dt.items()]
    graph = Graph([GNode('N', [GField('a', TypeRef['V'], fn1)]),
                   Root([GField('r', None, fn1)])], dt)
    s.check([[k, id(t)] for k, t in graph.data_types.items()] == told,
            'the graph has its data types')
    kind = s.pick('transformation', [k for k in TRANSFORMERS
                                     if k != 'introspection'])
    kinds = [kind] * (1 + s.choice('twice', 2))
    out = apply(graph, [transformer(k, graph) for k in kinds])
    s.check([[k, id(t)] for k, t in out.data_types.items()] == told,
            'data types are kept', list(out.data_types))
    for k in dt:
        s.check(out.__types__.get(k) is dt[k], 'types are kept', k)
    s.check([[k, id(t)] for k, t in graph.data_types.items()] == told,
            'the original graph is unchanged')
