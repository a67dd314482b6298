"""C41: requests are independent of each other."""
from symx.session import scenario
from harness import gqldoc as g
from harness import sched
from hiku.endpoint.graphql import (GraphQLEndpoint, BatchGraphQLEndpoint,
                                   AsyncGraphQLEndpoint)
from hiku.engine import Engine
from hiku.executors.sync import SyncExecutor
from hiku.executors.asyncio import AsyncIOExecutor
from hiku.executors.threads import ThreadsExecutor
from hiku.graph import (apply, Graph, Root, Node as GNode, Field as GField,
                        Link as GLink, Option, Nothing)
from hiku.query import Node, Field, Link
from hiku.readers.graphql import read, read_operation
from hiku.result import denormalize
from hiku.sources.graph import SubGraph
from hiku.telemetry.prometheus import GraphMetrics
from hiku.types import TypeRef, Sequence, Integer
from hiku.validate.query import validate
from harness.world import (World, make_graph, reference, read_proxy, attempt,
                           LINK_OPT)
from harness.c03_schedules import gate_graph
from harness.c20_endpoint import Item, data, valid, is_errors, ROOT
from harness.c26_two_levels import Low, POOL, upper_graph, wanted, answers
from harness.exprs import Functions
from harness.c32_context import Metric

ASSUMPTIONS = ['resolver functions are functions of their arguments and of '
               'the data of that moment']
BOUNDS = ('histories of up to 3 requests out of pools of 5 to 7 with symbolic '
          'names and options, with other data for each of them; two or three '
          'requests at once, whose calls complete in any order')


class Changing(World):
    """A world whose data are others in each of its versions."""
    version = 0

    def value(self, node, name, options, ident):
        return self.s.uf('val%d' % self.version, node, name, options or {},
                         ident, lo=0, hi=99)

    def record(self, node, name, options, ident):
        return {k: self.s.uf('r%s%d' % (k, self.version), node, name,
                             options or {}, ident) for k in 'xy'}

    def target(self, node, name, options, ident):
        return World.target(self, '%s%d' % (node, self.version), name,
                            options, ident)


def a_query(s, p, simple=False):
    """A query out of a pool."""
    k = s.choice(p, 5)
    if k == 0:
        return Node([Field(s.char(p + '.a', 'ab')), Field('c', {
            'x': s.int(p + '.x', 0, 2)})])
    if k == 1:
        return Node([Field('c'), Link('l', Node([
            Field(s.char(p + '.f', 'bg'))]))])
    if k == 2:
        name = s.char(p + '.l', 'op')
        return Node([Link(name, Node([Field('b')]), {
            'x': s.int(p + '.x', 0, 2)} if name == 'p' else None)])
    if k == 3:
        return Node([Link('m', Node([Field('a', None, 'z'), Link(
            'o', Node([Field('g')]))]))])
    return Node([Link('e', Node([Field('x')])),
                 Link('l', Node([Field('b'), Link('r', Node([
                     Field('b')]))]))])


def check_result(s, w, graph, q, res, what):
    den, err = attempt(lambda: denormalize(graph, res))
    s.check(err is None, 'the result is complete', err)
    want = reference(w, 'R', -1, q)
    s.check(s.eq(den, want), what, (den, want))
    return want


@scenario(params={'quick': {'n': 2, 'len': 1},
                  'thorough': {'n': 3, 'len': 1}}, timeout=200)
def executions(s):
    """Executions one after another on one engine and graph; the data change
    in between; results which have been made stay as they are."""
    w = Changing(s, ids=(0, 1), max_len=s.params['len'])
    graph = make_graph(w)
    kind = s.pick('executor', ('sync', 'threads'))
    pool = sched.StubPool(s, batch=1)
    engine = Engine(SyncExecutor() if kind == 'sync'
                    else ThreadsExecutor(pool))
    if kind == 'threads':
        pool.wait = in_order
    first = a_query(s, 'q0')
    res0 = None
    for i in range(s.params['n']):
        q = first if i == 0 else first if s.choice(
            'again%d' % i, 2) else a_query(s, 'q%d' % i)
        w.version = i
        with sched.active(pool):
            res = engine.execute(graph, q)
        if i == 0:
            res0 = res
        check_result(s, w, graph, q, res,
                     'the result of this request at that moment')
    w.version = 0
    check_result(s, w, graph, first, res0, 'results stay as they are')


@scenario()
def other_graphs(s):
    """One engine executes one query on graphs with other functions and other
    defaults."""
    worlds = [World(s, ids=(0, 1), max_len=1), Changing(s, ids=(0, 1),
                                                        max_len=1)]
    graphs = [make_graph(w, s.int('default%d' % i, 0, 3))
              for i, w in enumerate(worlds)]
    engine = Engine(SyncExecutor())
    q = a_query(s, 'q')
    if s.choice('ordered', 2):
        q = q.copy(ordered=True)
    order = s.pick('order', ((0, 1, 0), (1, 0, 1)))
    for i in order:
        check_result(s, worlds[i], graphs[i], q, engine.execute(
            graphs[i], q), 'the result for this graph')


def in_order(fs, return_when, timeout=None):
    fs = sorted(fs, key=lambda f: f.seq)
    fs[0].complete()
    return sched._ordered(fs[:1]), sched._ordered(fs[1:])


@scenario(params={'quick': {'batch': 1, 'n': 2},
                  'thorough': {'batch': 2, 'n': 2}}, timeout=200)
def at_once(s):
    """Executions at the same time."""
    lp = sched.Loop(s, batch=s.params['batch'])
    cache = {}

    def wrap(fn, label):
        if id(fn) not in cache:
            cache[id(fn)] = (fn, lp.gated(fn, label))
        return cache[id(fn)][1]
    w = World(s, ids=(0, 1), max_len=1)
    graph = gate_graph(make_graph(w), wrap)
    engine = Engine(AsyncIOExecutor(lp.loop))
    pairs = (
        (Node([Field('a'), Field('b')]),
         Node([Field('b'), Field('c', {'x': s.int('x', 0, 2)})])),
        (Node([Link('l', Node([Field('g')]))]),
         Node([Link('l', Node([Field('b')]))])),
        (Node([Link('o', Node([Field('b')])), Field('a')]),
         Node([Link('l', Node([Link('o', Node([Field('g')]))]))])),
        (Node([Link('p', Node([Field('b')]), {'x': 1}), Field('c')]),
         Node([Link('p', Node([Field('b')]), {'x': s.int('y', 0, 2)}),
               Field('c', {'x': s.int('z', 0, 2)})], ordered=True)),
    )
    qs = s.pick('queries', pairs)
    out = {}

    async def one(i):
        out[i] = await engine.execute(graph, qs[i])

    async def go():
        tasks = [lp.loop.create_task(one(i)) for i in range(len(qs))]
        for t in tasks:
            await t
    status, res = lp.run(go())
    s.check(status == 'ok' and len(out) == len(qs), 'all are complete',
            (status, res))
    for i, q in enumerate(qs):
        check_result(s, w, graph, q, out[i],
                     'the result is the same as if it were alone')


def a_request(s, p, shared):
    """(request, kind, items); kind is None when it is wrong."""
    k = s.choice(p, 7)
    if k == 0:
        # the same names of fragments mean other things elsewhere
        name = s.char(p + '.f', 'abz')
        items = [Item(name), Item('__typename', 't')]
        doc = g.document(
            g.operation([g.spread('F'), g.field('__typename', alias='t')]),
            g.fragment('F', [g.field(name)]))
        return {'query': g.source(s, doc)}, 'query', items
    if k == 1:
        # the same names of variables have other values
        v = s.int(p + '.v', 0, 9) if s.choice(p + '.given', 2) else None
        if 'doc' not in shared:
            shared['doc'] = g.document(g.operation(
                [g.field('c', None, {'x': g.var('v')})], 'A', 'query',
                [g.variable('v', 'Int', True)]))
        doc = shared['doc']
        request = {'query': g.source(s, doc), 'operationName': 'A',
                   'variables': None if v is None else {'v': v}}
        return request, None if v is None else 'query', [
            Item('c', None, {'x': v})]
    if k == 2:
        # the same name of an operation
        kind = s.pick(p + '.kind', ('query', 'mutation'))
        items = [Item('b', 'y'), Item('l', None, None, [
            Item(s.char(p + '.g', 'ab')), Item('__typename')])]
        if 'two' not in shared:
            shared['two'] = (g.document(
                g.operation([i.node() for i in items], 'A', kind),
                g.operation([g.field('c')], 'B', 'query')), kind, items)
        doc, kind, items = shared['two']
        if s.choice(p + '.B', 2):
            return ({'query': g.source(s, doc), 'operationName': 'B'},
                    'query', [Item('c')])
        return ({'query': g.source(s, doc), 'operationName': 'A'}, kind,
                items)
    if k == 3:
        return {'query': '{ a', 'operationName': 'A'}, None, []
    if k == 4:
        items = [Item('l')] if s.choice(p + '.w', 2) else [
            Item('a', None, {'y': 1})]
        doc = g.document(g.operation([i.node() for i in items]))
        return {'query': g.source(s, doc)}, None, []
    if k == 5:
        items = [Item('c', 'a'), Item('a', 'c')]
        doc = g.document(g.operation([i.node() for i in items]))
        return {'query': g.source(s, doc)}, 'query', items
    items = [Item('e', None, None, [Item('x'), Item('__typename')])]
    doc = g.document(g.operation([i.node() for i in items]))
    return {'query': g.source(s, doc)}, 'query', items


class ChangingMutation(Changing):
    """Other values at the root."""

    def value(self, node, name, options, ident):
        return Changing.value(self, 'X' if node == 'R' else node, name,
                              options, ident)

    def record(self, node, name, options, ident):
        return Changing.record(self, 'X' if node == 'R' else node, name,
                               options, ident)

    def target(self, node, name, options, ident):
        return Changing.target(self, 'X' if node == 'R' else node, name,
                               options, ident)


def check_answer(s, worlds, answer, kind, items):
    if kind is None or not valid(s, 'R', items):
        s.check(is_errors(s, answer), 'answered with errors', answer)
        return
    s.check(isinstance(answer, dict) and list(answer) == ['data'],
            'answered with data', answer)
    want = data(worlds[kind], 'R', -1, items, ROOT[kind])
    s.check(s.eq(answer['data'], want),
            'the data which this request asks for', (answer, want))


@scenario(params={'quick': {'n': 2}, 'thorough': {'n': 3}}, timeout=200)
def endpoint(s):
    """Requests one after another to one endpoint, alone or in batches."""
    worlds = {'query': Changing(s, ids=(0, 1), max_len=1),
              'mutation': ChangingMutation(s, ids=(0, 1), max_len=1)}
    batch = s.choice('batch', 2)
    cls = BatchGraphQLEndpoint if batch else GraphQLEndpoint
    endpoint = cls(Engine(SyncExecutor()), make_graph(worlds['query']),
                   make_graph(worlds['mutation']))
    shared = {}
    rs = [a_request(s, 'r%d' % i, shared) for i in range(s.params['n'])]
    if batch:
        got, err = attempt(lambda: endpoint.dispatch([r[0] for r in rs]))
        s.check(err is None, 'no unhandled error', err)
        for a, (req, kind, items) in zip(got, rs):
            check_answer(s, worlds, a, kind, items)
        return
    for i, (req, kind, items) in enumerate(rs):
        for w in worlds.values():
            w.version = i
        answer, err = attempt(lambda: endpoint.dispatch(req))
        s.check(err is None, 'no unhandled error', err)
        check_answer(s, worlds, answer, kind, items)


@scenario(params={'quick': {'batch': 1}, 'thorough': {'batch': 2}},
          timeout=200)
def endpoint_at_once(s):
    """Requests to one asynchronous endpoint at the same time."""
    lp = sched.Loop(s, batch=s.params['batch'])
    cache = {}

    def wrap(fn, label):
        if id(fn) not in cache:
            cache[id(fn)] = (fn, lp.gated(fn, label))
        return cache[id(fn)][1]
    worlds = {'query': Changing(s, ids=(0, 1), max_len=1),
              'mutation': ChangingMutation(s, ids=(0, 1), max_len=1)}
    endpoint = AsyncGraphQLEndpoint(
        Engine(AsyncIOExecutor(lp.loop)),
        gate_graph(make_graph(worlds['query']), wrap),
        gate_graph(make_graph(worlds['mutation']), wrap))
    rs = []
    for i in range(2):
        kind = s.pick('kind%d' % i, ('query', 'mutation'))
        items = [Item('c', None, {'x': s.int('x%d' % i, 0, 9)}),
                 Item('__typename')]
        if s.choice('link%d' % i, 2):
            items.append(Item('o', None, None, [Item('b')]))
        doc = g.document(g.operation([x.node() for x in items], 'A', kind))
        rs.append(({'query': g.source(s, doc), 'operationName': 'A'}, kind,
                   items))
    out = {}

    async def one(i):
        out[i] = await endpoint.dispatch(rs[i][0])

    async def go():
        tasks = [lp.loop.create_task(one(i)) for i in range(2)]
        for t in tasks:
            await t
    status, res = lp.run(go())
    s.check(status == 'ok' and len(out) == 2, 'both are answered',
            (status, res))
    for i, (req, kind, items) in enumerate(rs):
        check_answer(s, worlds, out[i], kind, items)


class ChangingLow(Low):
    """Lower-level data which are others in each version."""
    version = 0

    def value(self, node, name, i):
        s = self.s
        real = s
        class Tagged:
            @staticmethod
            def uf(label, *key, **kw):
                return real.uf('%s@%d' % (label, self.version), *key, **kw)
            concrete = staticmethod(real.concrete)
        self.s = Tagged
        try:
            return Low.value(self, node, name, i)
        finally:
            self.s = real


@scenario(params={'quick': {'n': 2}, 'thorough': {'n': 3}}, timeout=200)
def computed(s):
    """Computed fields with options, for other objects and other data."""
    fns = Functions(s)
    low = ChangingLow(s, 1, ids=(0, 1))
    name = s.pick('field', ('rb', 'l', 'u', 'fx'))
    asts = {'f0': (POOL[name], ()), 'f1': (('call', 'g', [
        ('var', 'p'), ('get', ('var', 'this'), 'a')]), ('p',))}
    ids = []
    graph = upper_graph(low, asts, fns, ids)

    def now():
        return list(ids)
    graph = Graph([n for n in graph.nodes] + [Root([
        GLink('ns', Sequence[TypeRef['N']], now, requires=None)])],
        data_types=graph.data_types)
    engine = Engine(SyncExecutor())
    for i in range(s.params['n']):
        low.version = i
        ids[:] = [s.int('id%d.%d' % (i, k), 0, 1)
                  for k in range(1 + s.choice('ids%d' % i, 2))]
        items = [Field('f1', {'p': s.int('p%d' % i, 0, 9)} if s.choice(
            'given%d' % i, 2) else None)]
        if s.choice('other%d' % i, 2):
            items.append(Field('f0'))
        res = engine.execute(graph, Node([Link('ns', Node(items))]))
        got = answers(graph, res, fns)
        want = wanted(low, asts, fns, ids, items)
        s.check(s.eq(got, want), 'the values for this request', (got, want))


@scenario(params={'quick': {'n': 3}, 'thorough': {'n': 4}})
def validation(s):
    """The same graph validates queries one after another: the errors are
    those of each query."""
    w = World(s)
    graph = make_graph(w)

    def good(i):
        return Node([Field('a'), Field('c', {'x': s.int('v%d' % i, 0, 9)}),
                     Link('l', Node([Field('b')]))])

    def unknown(i):
        return Node([Field('z'), Link('l', Node([Field('y')]))])

    def value(i):
        return Node([Field('c', {'x': 'w'})])

    def option(i):
        return Node([Field('a', {'y': 1}), Link('p', Node([Field('b')]), {
            'x': None})])
    kinds = (good, unknown, value, option)
    alone = {}
    for k in kinds:
        alone[k.__name__] = validate(make_graph(World(s)), k(9))
    for i in range(s.params['n']):
        k = s.pick('k%d' % i, kinds)
        errors = validate(graph, k(i))
        s.check(errors == alone[k.__name__],
                'the errors of this query', (i, k.__name__, errors))
        s.check((errors == []) == (k is good), 'errors when wrong', errors)


@scenario()
def reading(s):
    """The reader reads one document after another: variables, fragments and
    directives belong to their own request."""
    def doc(i):
        return g.document(
            g.operation([
                g.field('a', None, {'x': g.var('v')}),
                g.field('b', None, None, None, [g.directive(
                    'include', g.var('w'))]),
                g.spread('F')], 'A', 'query',
                [g.variable('v', 'Int'), g.variable('w', 'Boolean', True)]),
            g.fragment('F', [g.field(s.char('f%d' % i, 'cd'))]))
    same = s.choice('same document', 2)
    d0 = doc(0)
    for i in range(2):
        d = d0 if same else (d0, None)[i] or doc(1)
        f = d.definitions[1].selection_set.selections[0].name.value
        variables = {'w': s.bool('w%d' % i)}
        if s.choice('given%d' % i, 2):
            variables['v'] = s.int('v%d' % i, 0, 9)
        op = read_operation(g.source(s, d), variables, 'A')
        got = op.query
        want = {'a': {'x': variables.get('v')},
                f: None}
        if variables['w']:
            want['b'] = None
        names = [x.name for x in got.fields]
        s.check(len(names) == len(want) and
                all([any([n == m for m in want]) for n in names]),
                'the fields of this request', (got, want))
        for x in got.fields:
            if x.name == 'a':
                s.check(s.eq(x.options or None, want['a']),
                        'the values of this request', (x.options, want))
        s.check(op.name == 'A', 'name', op.name)


@scenario()
def schema_after_requests(s):
    """Introspection does not depend on what has been requested before."""
    w = World(s, ids=(0, 1), max_len=1)
    endpoint = GraphQLEndpoint(Engine(SyncExecutor()), make_graph(w))

    def ask(name):
        doc = g.document(g.operation([g.field('__type', [
            g.field('name'), g.field('fields', [
                g.field('name'), g.field('args', [g.field('name')])])],
            {'name': name})]))
        answer, err = attempt(lambda: endpoint.dispatch(
            {'query': g.source(s, doc)}))
        s.check(err is None, 'no unhandled error', err)
        return answer
    names = ('Query', 'N', 'M', 'T', 'Z')
    first = {n: ask(n) for n in names}
    req, kind, items = a_request(s, 'r', {})
    endpoint.dispatch(req)
    again = ask(s.pick('again', names))
    t = again['data']['__type']
    n = t['name'] if t else 'Z'
    s.check(again == first[n], 'the same answer', (again, first[n]))


@scenario()
def metrics(s):
    """A graph with metrics and the one it has been made of."""
    w = Changing(s, ids=(0, 1), max_len=1)
    plain = make_graph(w)
    seen = []

    class Observing(Metric):
        def observe(self, value):
            seen.append(value)
    counted = apply(plain, [GraphMetrics('g', metric=Observing())])
    engine = Engine(SyncExecutor())
    q = a_query(s, 'q')
    for i in range(2):
        w.version = i
        k = s.choice('which%d' % i, 2)
        n = len(seen)
        graph = (plain, counted)[k]
        check_result(s, w, graph, q, engine.execute(graph, q),
                     'the result of this request')
        s.check((len(seen) > n) == bool(k), 'observed where asked for', seen)
