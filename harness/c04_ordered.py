"""C04: top-level items of ordered queries run one after another."""
import asyncio

from symx.session import scenario
from harness import gqldoc as g
from harness import sched
from hiku.engine import Engine
from hiku.endpoint.graphql import (GraphQLEndpoint, BatchGraphQLEndpoint,
                                   AsyncGraphQLEndpoint)
from hiku.executors.sync import SyncExecutor
from hiku.executors.threads import ThreadsExecutor
from hiku.executors.asyncio import AsyncIOExecutor
from hiku.graph import Graph, Root, Node as GNode, Field as GField
from hiku.graph import Link as GLink, Nothing, Option
from hiku.types import Record, Integer, Optional, TypeRef, Sequence
from hiku.query import Node, Field, Link, merge
from hiku.result import denormalize
from harness.sizes import WIDE
from harness.world import attempt

ASSUMPTIONS = ['resolver calls of the thread pool run at the moment they '
               'complete']
BOUNDS = ('up to 4 top-level items with symbolic names over 3 fields of 2 '
          'functions, a complex field and 2 links (one with a requirement), '
          'symbolic options; sub-selections with further calls; up to 129 items with '
          'concrete names')

SUB = ('N_f', 'N_g')


class Events:
    def __init__(self, s):
        self.s = s
        self.ev = []
        self.pool = None


def make_graph(ev, stored, wrap=lambda f, n: f):
    """Every root level call records its start (when submitted) and its end.
    Its answer is the number of calls made before it."""
    def fields(nm):
        def fn(fields):
            ev.append((nm, [(f.name, (f.options or {}).get('x'))
                            for f in fields]))
            k = len(ev)
            return [{'v': k} if f.name == 'e' else k for f in fields]
        return wrap(fn, nm)

    def link_fn(nm):
        def fn(*args):
            ev.append((nm, [(nm, args[-1]['x'] if nm == 'p' else None)]))
            if nm == 'q':
                # what it requires has been stored
                stored.append(args[0])
            return [1] if nm == 'p' else 1
        return wrap(fn, nm)

    def node_fn(nm):
        def fn(fields, ids):
            return [[5 for f in fields] for i in ids]
        return wrap(fn, nm)
    f1 = fields('f1')
    f2 = fields('f2')
    nf, ng = node_fn('N_f'), node_fn('N_g')
    opt = [Option('x', Integer, default=0)]
    return Graph([
        GNode('N', [GField('v', Integer, nf), GField('w', Integer, ng)]),
        Root([
            GField('a', Integer, f1, options=opt),
            GField('b', Integer, f1),
            GField('c', Integer, f2),
            GField('e', TypeRef['T'], f2),
            GLink('p', Sequence[TypeRef['N']], link_fn('p'), requires=None,
                  options=opt),
            GLink('q', TypeRef['N'], link_fn('q'), requires='c'),
        ]),
    ], data_types={'T': Record[{'v': Integer}]})


def item(s, i, simple=False):
    k = s.choice('k%d' % i, 3)
    alias = 'z%d' % i
    if k == 0:
        name = s.char('n%d' % i, 'abc')
        opts = None
        if name == 'a':
            opts = {'x': i if simple else s.int('x%d' % i, 0, 3)}
        return Field(name, opts, alias)
    if k == 1:
        return Link('e', Node([Field('v')]), None, alias)
    name = s.char('n%d' % i, 'pq')
    opts = None
    if name == 'p':
        opts = {'x': i if simple else s.int('x%d' % i, 0, 3)}
    sub = [Field('v')] if simple else [Field('v'), Field('w')]
    return Link(name, Node(sub), opts, alias)


def flat(s, ev):
    """Names and options of the root level calls in the order of the calls,
    without the loads of requirements."""
    out = []
    for nm, fs in ev:
        out.extend(fs)
    return out


def expected(q):
    out = []
    for f in q.fields:
        if f.name == 'q':
            out.append(('c', None))
        x = f.options.get('x') if f.options else None
        out.append((f.name, x))
    return out


def check_order(s, ev, q):
    got = flat(s, ev)
    want = expected(q)
    s.check(s.eq(got, want), 'calls are made in document order', (got, want))


def check_result(s, graph, res, q):
    """Later items have been computed later."""
    den = denormalize(graph, res)
    prev = None
    vals = []
    for f in q.fields:
        v = den[f.result_key]
        if f.name == 'e':
            v = v['v']
        if f.name in ('p', 'q'):
            want = {g.name: 5 for g in f.node.fields}
            s.check(s.eq(v, [want] if f.name == 'p' else want),
                    'links have their values')
            continue
        if any([same_request(s, f, g) for g in q.fields if g is not f]):
            continue    # equal requests share a value
        if prev is not None:
            s.check(v >= prev, 'answers come in document order')
        prev = v
        vals.append(v)
    s.observe('order', vals)


def same_request(s, f, g):
    if g.name == 'q':
        return f.name == 'c'
    return s.all([s.eq(f.name, g.name), s.eq(f.options, g.options)])


def items(s, lo, hi, simple=False):
    n = lo + s.choice('n', hi - lo + 1)
    return [item(s, i, simple) for i in range(n)]


@scenario(params={'quick': {'n': 3}, 'thorough': {'n': 4}})
def synchronous(s):
    ev, stored = [], []
    graph = make_graph(ev, stored)
    q = Node(items(s, 1, s.params['n']), ordered=True)
    res = Engine(SyncExecutor()).execute(graph, q)
    check_order(s, ev, q)
    check_result(s, graph, res, q)


@scenario(params={'quick': {'n': 3}, 'thorough': {'n': 3}})
def merged(s):
    """The query comes out of merging selections, as readers do it."""
    fs = items(s, 2, s.params['n'])
    k = s.choice('cut', len(fs))
    parts = [Node(fs[:k], ordered=True), Node(fs[k:], ordered=True)]
    if s.choice('dup', 2):
        parts.append(Node(fs[:1], ordered=True))
    q = merge(parts)
    ev, stored = [], []
    graph = make_graph(ev, stored)
    res = Engine(SyncExecutor()).execute(graph, q)
    check_order(s, ev, Node(fs, ordered=True))
    check_result(s, graph, res, q)


@scenario(params={'quick': {'n': 2, 'batch': 2},
                  'thorough': {'n': 2, 'batch': 3}})
def thread_pool(s, simple=False):
    """Each root level call is submitted only when those before it have
    completed, whatever completes when."""
    ev, stored = [], []
    top = []
    submitted = []
    pool = sched.StubPool(s, batch=s.params['batch'])
    orig = pool.submit
    tops = {}

    def wrap(fn, nm):
        tops[id(fn)] = nm
        return fn

    def submit(fn, *args, **kwargs):
        nm = tops.get(id(fn))
        if nm is not None and nm not in SUB:
            for f in top:
                submitted.append((nm, f.done()))
        fut = orig(fn, *args, **kwargs)
        if nm is not None and nm not in SUB:
            top.append(fut)
        return fut
    pool.submit = submit
    graph = make_graph(ev, stored, wrap)
    q = Node(items(s, s.params['n'], s.params['n'], simple), ordered=True)
    with sched.active(pool):
        res, err = attempt(
            lambda: Engine(ThreadsExecutor(pool)).execute(graph, q))
    s.check(err is None, 'execution succeeds', err)
    for nm, ok in submitted:
        s.check(ok, 'previous calls have completed before the next starts',
                submitted)
    check_order(s, ev, q)
    check_result(s, graph, res, q)


@scenario(params={'quick': {'n': 3, 'batch': 1}, 'thorough': {'n': 3, 'batch': 2}},
          timeout=120)
def thread_pool_longer(s):
    thread_pool(s, True)


@scenario(params={'quick': {'n': 2, 'batch': 2},
                  'thorough': {'n': 2, 'batch': 3}})
def event_loop(s, simple=False):
    ev, stored = [], []
    lp = sched.Loop(s, batch=s.params['batch'])
    graph = make_graph(ev, stored, lambda fn, nm: lp.gated(fn, nm))
    q = Node(items(s, s.params['n'], s.params['n'], simple), ordered=True)
    engine = Engine(AsyncIOExecutor(lp.loop))

    async def go():
        return await engine.execute(graph, q)
    st, res = lp.run(go())
    s.check(st == 'ok', 'execution succeeds', (st, res))
    running = 0
    for what, nm in lp.events:
        if nm in SUB:
            continue
        if what == 'start':
            s.check(running == 0,
                    'previous calls have completed before the next starts',
                    lp.events)
            running += 1
        else:
            running -= 1
    check_order(s, ev, q)
    check_result(s, graph, res, q)


@scenario(params={'quick': {'n': 3, 'batch': 1}, 'thorough': {'n': 3, 'batch': 2}},
          timeout=120)
def event_loop_longer(s):
    event_loop(s, True)


@scenario()
def many_items(s):
    """However many items there are, in whatever pattern."""
    n = s.pick('size', WIDE)
    pattern = s.pick('pattern', ('abc', 'aab', 'p', 'qac', 'ape', 'epqb'))
    fs = []
    for i in range(n):
        name = pattern[i % len(pattern)]
        alias = 'z%d' % i
        if name == 'e':
            fs.append(Link('e', Node([Field('v')]), None, alias))
        elif name in 'pq':
            fs.append(Link(name, Node([Field('v')]),
                           {'x': i} if name == 'p' else None, alias))
        else:
            fs.append(Field(name, {'x': i} if name == 'a' else None, alias))
    if s.choice('merged', 2):
        q = merge([Node(fs[:1], ordered=True), Node(fs[1:], ordered=True)])
    else:
        q = Node(fs, ordered=True)
    ev, stored = [], []
    graph = make_graph(ev, stored)
    if s.choice('asynchronous', 2):
        def wrap(fn, nm):
            async def later(*args):
                return fn(*args)
            return later
        graph = make_graph(ev, stored, wrap)

        async def go():
            return await Engine(AsyncIOExecutor()).execute(graph, q)
        res = asyncio.run(go())
    else:
        res = Engine(SyncExecutor()).execute(graph, q)
    check_order(s, ev, Node(fs))
    check_result(s, graph, res, Node(fs))


def as_node(f):
    if isinstance(f, Link):
        return g.field(f.name, [as_node(x) for x in f.node.fields],
                       f.options, f.alias)
    return g.field(f.name, None, f.options, f.alias)


@scenario(params={'quick': {'n': 2}, 'thorough': {'n': 3}}, timeout=120)
def documents(s):
    """Mutations as they come to an endpoint: with the name of the type
    asked, parts in fragments, parts skipped, operations of other types."""
    fs = items(s, s.params['n'], s.params['n'], simple=True)
    nodes = [as_node(f) for f in fs]
    frs, before = [], []
    how = s.choice('how', 5)
    if how == 0:
        nodes.insert(s.choice('at', len(nodes) + 1), g.field('__typename'))
    elif how == 1:
        frs = [g.fragment('F', nodes[1:])]
        nodes = [nodes[0], g.spread('F'), g.field('__typename')]
    elif how == 2:
        nodes = [nodes[0], g.inline(nodes[1:]), nodes[0]]
    elif how == 3:
        nodes.insert(s.choice('at', len(nodes) + 1), g.field(
            'b', None, None, 'y', [g.directive('skip', True)]))
    else:
        before = [g.operation([as_node(f) for f in fs], 'B', 'query')]
    doc = g.document(*before + [g.operation(nodes, 'A', 'mutation')] + frs)
    request = {'query': g.source(s, doc), 'operationName': 'A'}
    other = Graph([GNode('N', [GField('v', Integer, None)]),
                   Root([GField('a', Integer, None)])])
    ev, stored = [], []
    q = Node(fs, ordered=True)
    if s.choice('asynchronous', 2):
        lp = sched.Loop(s, batch=1)
        graph = make_graph(ev, stored, lambda fn, nm: lp.gated(fn, nm))
        endpoint = AsyncGraphQLEndpoint(Engine(AsyncIOExecutor(lp.loop)),
                                        other, graph)

        async def go():
            return await endpoint.dispatch(request)
        st, res = lp.run(go())
        s.check(st == 'ok', 'execution succeeds', (st, res))
        running = 0
        for what, nm in lp.events:
            if nm in SUB:
                continue
            s.check(what != 'start' or running == 0,
                    'previous calls have completed before the next starts',
                    lp.events)
            running += 1 if what == 'start' else -1
    else:
        graph = make_graph(ev, stored)
        engine = Engine(SyncExecutor())
        if s.choice('batch', 2):
            res, err = attempt(lambda: BatchGraphQLEndpoint(
                engine, other, graph).dispatch([request]))
            res = res[0] if err is None else None
        else:
            res, err = attempt(lambda: GraphQLEndpoint(
                engine, other, graph).dispatch(request))
        s.check(err is None, 'execution succeeds', err)
    s.check('data' in res, 'the mutation is executed', res)
    check_order(s, ev, q)


@scenario()
def later_values(s):
    """A later item shows what objects have become, also those which have
    been loaded before."""
    state = {'v': s.int('v0', 0, 9), 'w': s.int('w0', 0, 9)}
    n = 2 + s.choice('n', 2)
    values = [(s.int('v%d' % (i + 1), 0, 9), s.int('w%d' % (i + 1), 0, 9))
              for i in range(n)]
    # at last something may become null
    null = s.choice('null', 3)
    v, w = values[-1]
    values[-1] = (None if null == 1 else v, None if null == 2 else w)
    done = []

    def targets(ids):
        return [Nothing if len(done) == n and null else 8 for _ in ids]

    def many(ids):
        return [[8] if len(done) == n else [7, 8] for _ in ids]

    def fields(nm):
        def fn(fs, ids):
            return [[state[f.name] if f.name in state else
                     {'x': state['v']} for f in fs] for _ in ids]
        return fn

    def change(fs):
        state['v'], state['w'] = values[len(done)]
        done.append(1)
        return [1 for _ in fs]

    def link(*args):
        state['v'], state['w'] = values[len(done)]
        done.append(1)
        return 7

    def links():
        state['v'], state['w'] = values[len(done)]
        done.append(1)
        return [7, 8]

    def same(ids):
        return list(ids)
    f1, f2 = fields(1), fields(2)
    graph = Graph([
        GNode('N', [GField('v', Integer, f1), GField('w', Integer, f2),
                    GField('t', TypeRef['T'], f1),
                    GField('i', None, lambda fs, ids: [[i] for i in ids]),
                    GLink('self', TypeRef['N'], same, requires='i'),
                    GLink('opt', Optional[TypeRef['N']], targets,
                          requires='i'),
                    GLink('many', Sequence[TypeRef['N']], many,
                          requires='i')]),
        Root([GLink('l', TypeRef['N'], link, requires=None,
                    options=[Option('x', Integer, default=0)]),
              GLink('m', Sequence[TypeRef['N']], links, requires=None),
              GLink('r', TypeRef['N'], lambda: 7, requires=None),
              GField('c', Integer, change)])],
        data_types={'T': Record[{'x': Integer}]})
    subs = {'v': [Field('v')], 'wv': [Field('w'), Field('v')],
            't': [Link('t', Node([Field('x')]))],
            's': [Link('self', Node([Field('v')]))],
            'o': [Link('opt', Node([Field('v')]))],
            'm': [Link('many', Node([Field('w')]))]}
    items, now = [], None
    sub = []
    for i in range(n):
        name = s.char('n%d' % i, 'lm')
        # what the last item shows has been shown before
        sub.append(s.pick('sub%d' % i, tuple(subs)))
        items.append(Link(name, Node(subs[sub[-1]]),
                          {'x': i} if name == 'l' else None, 'z%d' % i))
    if s.choice('field', 2):
        # changed by a field and shown by the next item
        items[-1:] = [Field('c'), Link('r', Node(subs[sub[-1]]), None, 'last')]
    res, err = attempt(lambda: Engine(SyncExecutor()).execute(
        graph, Node(items, ordered=True)))
    s.check(err is None, 'execution succeeds', err)
    v, w = values[n - 1]
    got = denormalize(graph, res)[items[-1].result_key]
    want = {'v': {'v': v}, 'wv': {'w': w, 'v': v}, 't': {'t': {'x': v}},
            's': {'self': {'v': v}},
            'o': {'opt': None if null else {'v': v}},
            'm': {'many': [{'w': w}]}}[sub[-1]]
    if isinstance(got, list):
        s.check(len(got) == 2, 'all of the objects', got)
        s.check(s.eq(got, [want, want]), 'the last item shows the last values',
                (got, want))
    else:
        s.check(s.eq(got, want), 'the last item shows the last values',
                (got, want))
    s.observe('got', got)
