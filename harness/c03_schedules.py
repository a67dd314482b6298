"""C03: any completion order gives the same result and the same calls."""
from symx.session import scenario
from harness import sched
from hiku.engine import Engine
from hiku.executors.sync import SyncExecutor
from hiku.executors.threads import ThreadsExecutor
from hiku.executors.asyncio import AsyncIOExecutor
from hiku.graph import Graph, Root, Node as GNode, Field as GField
from hiku.graph import Link as GLink
from hiku.query import Node, Field, Link
from hiku.result import denormalize
from harness.world import World, make_graph, reference, attempt
from harness.c02_batching import expected_calls, same_calls
from harness.c26_two_levels import Low, POOL, wanted
from harness.exprs import Functions, to_hiku
from hiku.sources.graph import SubGraph
from hiku.types import TypeRef, Sequence
from harness.sizes import place

ASSUMPTIONS = [
    'resolver calls of the thread pool run at the moment they complete',
    'the wait functions of concurrent.futures and asyncio are replaced by '
    'versions which return what the scenario completes, in the order it says',
]
BOUNDS = ('up to 6 calls, up to 3 completions reported at once; up to 130 '
          'calls or 65 levels, completed in one of 12 fixed manners')


def gate_graph(graph, wrap):
    """The same graph with every resolver function wrapped."""
    def copy(node, items):
        out = []
        for f in items:
            if isinstance(f, GLink):
                out.append(GLink(f.name, f.type, wrap(f.func, node + f.name),
                                 requires=f.requires,
                                 options=f.options or None))
            else:
                out.append(GField(f.name, f.type, wrap(f.func, None),
                                  options=f.options or None))
        return out
    nodes = []
    for n in graph.nodes:
        nodes.append(GNode(n.name, copy(n.name, n.fields)))
    nodes.append(Root(copy('R', graph.root.fields)))
    return Graph(nodes, data_types=graph.data_types)


def threads(s, q, **kw):
    w = World(s, ids=(0, 1), max_len=s.params.get('len', 1), **kw)
    graph = make_graph(w)
    pool = sched.StubPool(s, batch=s.params['batch'])
    with sched.active(pool):
        res, err = attempt(
            lambda: Engine(ThreadsExecutor(pool)).execute(graph, q))
    s.check(err is None, 'execution succeeds', err)
    finish(s, w, graph, q, res)
    s.check(len(pool.completed) == len(pool.futures),
            'every call was awaited')


def events(s, q, **kw):
    w = World(s, ids=(0, 1), max_len=s.params.get('len', 1), **kw)
    lp = sched.Loop(s, batch=s.params['batch'])
    cache = {}

    def wrap(fn, label):
        key = id(fn)
        if key not in cache:
            cache[key] = lp.gated(fn, label)
        return cache[key]
    base = make_graph(w)
    graph = gate_graph(base, wrap)
    engine = Engine(AsyncIOExecutor(lp.loop))

    async def go():
        return await engine.execute(graph, q)
    st, res = lp.run(go())
    s.check(st == 'ok', 'execution succeeds', (st, res))
    finish(s, w, graph, q, res)
    s.check(not lp.pending(), 'every call was awaited')


def finish(s, w, graph, q, res):
    calls = list(w.log)
    den = denormalize(graph, res)
    want = reference(w, 'R', -1, q)
    s.check(s.eq(den, want), 'the result does not depend on the schedule',
            (den, want))
    exp = expected_calls(w, 'R', None, q, [])
    s.check(same_calls(s, calls, exp),
            'the calls do not depend on the schedule', (calls, exp))
    s.observe('result', den)


def queries(s, big=False):
    k = s.choice('query', 7 if big else 6)
    if k == 0:
        # independent field groups and a link with two groups
        return Node([Field('a'), Field('b'),
                     Link('l', Node([Field('a'), Field('g')]))])
    if k == 1:
        # a link which waits for a requirement, next to other groups
        return Node([Link('l', Node([Field('g'),
                                     Link('o', Node([Field('b')]))]))])
    if k == 2:
        # two links to the same node
        return Node([Link('l', Node([Field('b')])),
                     Link('m', Node([Field('b'), Field('g')]))])
    if k == 3:
        # links which lead nowhere may leave a level without calls
        return Node([Link('m', Node([Link('m', Node([
            Link('l', Node([Field('g')]))]))])), Field('b')])
    if k == 4:
        # link without requirements, next to groups
        return Node([Link('l', Node([Link('n', Node([Field('g')])),
                                     Field('a'), Field('g')]))])
    if k == 5:
        # complex field and an ordered query below
        return Node([Link('e', Node([Field('x')])), Field('a'), Field('b'),
                     Link('m', Node([Link('e', Node([Field('y')]))]))])
    return Node([Field('a'), Field('b'), Link('e', Node([Field('x')])),
                 Link('l', Node([Field('g'), Link('o', Node([Field('b')])),
                                 Link('l', Node([Field('b')]))])),
                 Link('o', Node([Field('g')]))])


P = {'quick': {'batch': 3}, 'thorough': {'batch': 3, 'len': 2}}


@scenario(params=P, timeout=120)
def threads_schedule(s):
    threads(s, queries(s))


@scenario(params=P, timeout=120)
def event_loop_schedule(s):
    events(s, queries(s))


@scenario()
def synchronous(s):
    w = World(s, ids=(0, 1), max_len=2)
    graph = make_graph(w)
    q = queries(s)
    res = Engine(SyncExecutor()).execute(graph, q)
    finish(s, w, graph, q, res)


@scenario(params=P, timeout=120)
def ordered_schedule(s):
    """The same for ordered queries."""
    q = Node([Field('a'), Link('l', Node([Field('b'), Field('g')])),
              Field('b'), Link('o', Node([Field('g')]))], ordered=True)
    if s.choice('loop', 2):
        events(s, q)
    else:
        threads(s, q)


@scenario(tier='thorough', params={'batch': 2, 'len': 1}, timeout=120)
def big_threads(s):
    threads(s, queries(s, True))


@scenario(params={'quick': {'batch': 1}, 'thorough': {'batch': 2}},
          timeout=200)
def computed_fields(s):
    """Fields computed from lower graphs at several places of one query, and
    their lower graphs' computed fields."""
    fns = Functions(s)
    shape = s.pick('shape', ('two graphs', 'two links', 'levels'))
    names = {'two graphs': ('rb', 'l'), 'two links': ('rb', 'a'),
             'levels': ('rb', 'a')}[shape]
    kind = s.pick('executor', ('asyncio', 'threads'))
    if kind == 'asyncio':
        lp = sched.Loop(s, batch=s.params['batch'])
        wrap = lp.gated
    else:
        pool = sched.StubPool(s, batch=s.params['batch'])
        wrap = None
    low = Low(s, 1, wrap, ids=(0, 1), fixed=True)
    asts = {'f%d' % i: (POOL[n], ()) for i, n in enumerate(names)}
    ids = [0, 1]
    keep = wrap or (lambda fn, name: fn)

    def computed(sub, i):
        return sub.c(to_hiku(POOL[names[i]], fns.fns))

    def plain(fields, ids):
        return [[i for f in fields] for i in ids]
    graph = low.graph()
    if shape == 'levels':
        subs = SubGraph(graph, 'N'), SubGraph(graph, 'N')
        middle = Graph([GNode('N', [GField('f%d' % i, None, computed(x, i))
                                    for i, x in enumerate(subs)]),
                        Root([])])
        sg1 = sg2 = SubGraph(middle, 'N')
        n_fields = [GField('f0', None, sg1), GField('f1', None, sg1)]
    else:
        sg1, sg2 = SubGraph(graph, 'N'), SubGraph(graph, 'N')
        n_fields = [GField('f0', None, computed(sg1, 0)),
                    GField('f1', None, computed(sg2, 1))]
    top = Graph([
        GNode('N', n_fields + [GField('own', None, keep(plain, 'own'))]),
        Root([GLink(n, Sequence[TypeRef['N']], keep(lambda: list(ids), n),
                    requires=None) for n in ('ns', 'ms')])])
    if shape == 'two links':
        q = Node([Link('ns', Node([Field('f0')])),
                  Link('ms', Node([Field('f1')]))])
    else:
        q = Node([Link('ns', Node([Field('f0'), Field('f1')]))])
    if kind == 'asyncio':
        status, res = lp.run(Engine(AsyncIOExecutor(lp.loop)).execute(top, q))
        s.check(status == 'ok', 'executed', (status, res))
        s.check(not lp.pending(), 'every call was awaited')
    else:
        with sched.active(pool):
            res, err = attempt(
                lambda: Engine(ThreadsExecutor(pool)).execute(top, q))
        s.check(err is None, 'executed', err)
        s.check(len(pool.completed) == len(pool.futures),
                'every call was awaited')
    got, err = attempt(lambda: denormalize(top, res))
    s.check(err is None, 'the result is complete', err)
    for link in q.fields:
        rows = [{k: fns.flat(v) for k, v in row.items()}
                for row in got[link.name]]
        want = wanted(low, asts, fns, ids, link.node.fields)
        s.check(s.eq(rows, want), 'the values of every object', (rows, want))


class Policy:
    """Completes calls in one fixed manner."""

    def __init__(self, which, more):
        self.which = which
        self.more = more

    def choice(self, label, n):
        if '.more' in label:
            return self.more
        return {'first': 0, 'last': n - 1, 'middle': n // 2}[self.which]


@scenario(timeout=300)
def large(s):
    """Many calls, or many levels of them."""
    n = s.pick('n', (1, 3, 17, 33, 65))
    deep = s.choice('deep', 2)
    k = place(s, 'place', n)
    x = s.int('x', 0, 9)
    calls = []
    policy = Policy(s.pick('which', ('first', 'last', 'middle')),
                    s.choice('more', 2))
    kind = s.pick('executor', ('asyncio', 'threads'))
    batch = s.pick('batch', (8, 100))
    if kind == 'asyncio':
        lp = sched.Loop(policy, batch=batch)
        wrap = lp.gated
    else:
        pool = sched.StubPool(policy, batch=batch)

        def wrap(fn, name):
            return fn

    def value(name, i):
        return x if name == 'f%d' % k else [name, i]

    def field(name):
        def fn(fields, ids=None):
            calls.append(([f.name for f in fields], ids and list(ids)))
            if ids is None:
                return [value(f.name, 0) for f in fields]
            return [[value(f.name, i) for f in fields] for i in ids]
        return GField(name, None, wrap(fn, name))

    def link(name, one):
        def fn(ids=None):
            calls.append(([name], ids and list(ids)))
            return 1 if ids is None else [i + 1 for i in ids]
        return GLink(name, TypeRef['N'], wrap(fn, name),
                     requires=None if one else 'id')

    def ident(fields, ids):
        calls.append((['id'], list(ids)))
        return [[i] for i in ids]
    fields = [field('f%d' % i) for i in range(n)]
    graph = Graph([GNode('N', fields + [link('l', False), GField(
        'id', None, wrap(ident, 'id'))]), Root(fields + [link('l', True)])])
    if deep:
        q = Node([Field('f%d' % (n - 1))])
        want = {'f%d' % (n - 1): value('f%d' % (n - 1), n)}
        exp = [(['f%d' % (n - 1)], [n])]
        for i in range(n - 2, -1, -1):
            at = i + 1
            q = Node([Field('f%d' % i), Link('l', q)])
            want = {'f%d' % i: value('f%d' % i, at), 'l': want}
            exp.extend([(['f%d' % i], [at]), (['id'], [at]), (['l'], [at])])
        q, want = Node([Link('l', q)]), {'l': want}
        exp.append((['l'], None))
    else:
        names = ['f%d' % i for i in range(n)]
        q = Node([Field(f) for f in names] + [Link('l', Node(
            [Field(f) for f in reversed(names)]))])
        want = {f: value(f, 0) for f in names}
        want['l'] = {f: value(f, 1) for f in names}
        exp = ([([f], None) for f in names] + [([f], [1]) for f in names] +
               [(['l'], None)])
    if kind == 'asyncio':
        status, res = lp.run(Engine(AsyncIOExecutor(lp.loop)).execute(
            graph, q), limit=4 * n + 40)
        s.check(status == 'ok', 'executed', (status, res))
        s.check(not lp.pending(), 'every call was awaited')
    else:
        with sched.active(pool):
            res, err = attempt(
                lambda: Engine(ThreadsExecutor(pool)).execute(graph, q))
        s.check(err is None, 'executed', err)
        s.check(len(pool.completed) == len(pool.futures),
                'every call was awaited')
    got, err = attempt(lambda: denormalize(graph, res))
    s.check(err is None, 'the result is complete', err)
    s.check(s.eq(got, want), 'all of the values', (got, want))
    s.check(sorted(map(repr, calls)) == sorted(map(repr, exp)), 'the calls',
            (calls, exp))
