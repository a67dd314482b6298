"""C43: errors of resolver functions reach the caller as they are."""
import asyncio
import concurrent.futures

from graphql import GraphQLError

from symx.session import scenario
from harness import gqldoc as g
from harness import sched
from hiku.endpoint.graphql import (GraphQLEndpoint, BatchGraphQLEndpoint,
                                   AsyncGraphQLEndpoint,
                                   AsyncBatchGraphQLEndpoint)
from hiku.engine import Engine
from hiku.executors.sync import SyncExecutor
from hiku.executors.asyncio import AsyncIOExecutor
from hiku.executors.threads import ThreadsExecutor
from hiku.expr.core import define, S
from hiku.graph import apply, Graph, Root, Node as GNode, Field as GField
from hiku.graph import Link as GLink
from hiku.introspection.graphql import UnsupportedGraphQLType
from hiku.query import Node, Field, Link
from hiku.sources.graph import SubGraph
from hiku.telemetry.prometheus import GraphMetrics, AsyncGraphMetrics
from hiku.types import TypeRef, Sequence, Integer, Any
from hiku.validate.graph import GraphValidationError
from harness.world import World, make_graph, attempt
from harness.c03_schedules import gate_graph
from harness.c32_context import Metric
from harness.c41_independence import a_query, check_result

ASSUMPTIONS = ['resolver functions raise ordinary exceptions (StopIteration '
               'and GeneratorExit are not)',
               'hiku.endpoint.graphql.GraphQLError is not considered: it is '
               'how an endpoint is told to answer with errors']
BOUNDS = ('any one of the calls of a query out of a pool of 5 with symbolic '
          'names and options raises an error out of 9 types (32 in one scenario); calls complete '
          'in any order; afterwards the same engine executes another query')


class Own(Exception):
    """An error which cannot be made again from its arguments."""

    def __init__(self, a, b):
        Exception.__init__(self, a)
        self.b = b


ERRORS = (
    lambda: Own('a', 1), lambda: KeyError('k'), lambda: AttributeError('x'),
    lambda: TypeError('t'), lambda: ValueError('v'), lambda: IndexError('i'),
    lambda: LookupError('l'), lambda: AssertionError('z'),
    lambda: RuntimeError('r'))


class Falsy(Exception):
    """An error without contents, which is false."""

    def __bool__(self):
        return False

    def __len__(self):
        return 0


class Same(Exception):
    """Errors which are equal to everything and cannot be hashed."""
    __hash__ = None

    def __eq__(self, other):
        return True


class Deep(BaseException):
    """Not one of the ordinary exceptions."""


class Frozen(Exception):
    """Nothing can be added to it."""
    __slots__ = ()

    def __setattr__(self, name, value):
        if name not in ('__traceback__', '__cause__', '__context__'):
            raise AttributeError(name)
        super().__setattr__(name, value)


RARE = (
    lambda: concurrent.futures.CancelledError('c'),
    lambda: asyncio.CancelledError('c'),
    lambda: concurrent.futures.TimeoutError('t'),
    lambda: asyncio.InvalidStateError('i'),
    lambda: concurrent.futures.BrokenExecutor('b'),
    lambda: StopAsyncIteration('s'), lambda: OSError(2, 'o'),
    lambda: MemoryError('m'), lambda: RecursionError('r'),
    lambda: NotImplementedError('n'), lambda: EOFError('e'),
    lambda: UnicodeDecodeError('ascii', b'x', 0, 1, 'u'),
    lambda: ExceptionGroup('g', [KeyError('k')]), lambda: UserWarning('w'),
    lambda: ZeroDivisionError('z'), lambda: NameError('n'),
    lambda: GraphQLError('g'), lambda: GraphValidationError('v'),
    lambda: UnsupportedGraphQLType('u'),
    lambda: Falsy(), lambda: Same(), lambda: Deep('d'), lambda: Frozen('f'))


class Faults:
    """The call with the number `victim` raises an error."""

    def __init__(self, s, n=9, errors=ERRORS):
        self.s = s
        self.errors = errors
        self.on = True
        self.count = 0
        self.after = 0
        self.raised = None
        self.victim = s.choice('victim', n)
        self.error = ERRORS[0]()

    def __call__(self, fn, label=None):
        def loader(*args):
            if not self.on:
                return fn(*args)
            n = self.count
            self.count += 1
            if self.raised is not None:
                self.after += 1
            if n == self.victim:
                self.error = self.s.pick('error', self.errors)()
                self.raised = self.error
                raise self.error
            return fn(*args)
        return loader


def cached(faults):
    made = {}

    def wrap(fn, label):
        # functions which are shared stay shared
        if id(fn) not in made:
            made[id(fn)] = (fn, faults(fn, label))
        return made[id(fn)][1]
    return wrap


def check_error(s, faults, err):
    s.cover('raised')
    s.check(err is faults.raised, 'the very error reaches the caller',
            (err, faults.raised))
    faults.on = False


def wrapped(s, graph, asynchronous=False):
    if s.choice('metrics', 2):
        s.cover('metrics')
        cls = AsyncGraphMetrics if asynchronous else GraphMetrics
        return apply(graph, [cls('g', metric=Metric())])
    return graph


def the_query(s):
    q = a_query(s, 'q')
    if s.choice('ordered', 2):
        q = q.copy(ordered=True)
    return q


C = ('raised', 'fine', 'metrics')


@scenario(covers=C)
def synchronous(s):
    w = World(s, ids=(0, 1), max_len=1)
    faults = Faults(s)
    graph = wrapped(s, gate_graph(make_graph(w), cached(faults)))
    engine = Engine(SyncExecutor())
    q = the_query(s)
    res, err = attempt(lambda: engine.execute(graph, q))
    if faults.raised is None:
        s.cover('fine')
        s.check(err is None, 'no error without a reason', err)
        check_result(s, w, graph, q, res, 'the result')
        return
    check_error(s, faults, err)
    s.check(faults.after == 0, 'nothing is called afterwards', faults.after)
    q = Node([Field('a'), Link('l', Node([Field('b')]))])
    res, err = attempt(lambda: engine.execute(graph, q))
    s.check(err is None, 'the next execution succeeds', err)
    check_result(s, w, graph, q, res, 'its result')


@scenario(covers=C, params={'quick': {'batch': 1}, 'thorough': {'batch': 2}})
def threads(s):
    w = World(s, ids=(0, 1), max_len=1)
    faults = Faults(s, 7)
    graph = wrapped(s, gate_graph(make_graph(w), cached(faults)))
    pool = sched.StubPool(s, batch=s.params['batch'])
    engine = Engine(ThreadsExecutor(pool))
    q = the_query(s)
    with sched.active(pool):
        res, err = attempt(lambda: engine.execute(graph, q))
    if faults.raised is None:
        s.cover('fine')
        s.check(err is None, 'no error without a reason', err)
        check_result(s, w, graph, q, res, 'the result')
        return
    check_error(s, faults, err)
    n = len(pool.futures)
    for f in pool.futures:
        f.complete()
    s.check(len(pool.futures) == n, 'nothing is submitted afterwards')
    q = Node([Field('a'), Link('l', Node([Field('b')]))])
    with sched.active(pool):
        pool.prefix = 'again'
        pool.batch = 1
        res, err = attempt(lambda: engine.execute(graph, q))
    s.check(err is None, 'the next execution succeeds', err)
    check_result(s, w, graph, q, res, 'its result')


@scenario(covers=C, params={'quick': {'batch': 1}, 'thorough': {'batch': 2}})
def event_loop(s):
    w = World(s, ids=(0, 1), max_len=1)
    faults = Faults(s, 7, ERRORS[:2])
    lp = sched.Loop(s, batch=s.params['batch'])
    made = {}

    def wrap(fn, label):
        if id(fn) not in made:
            made[id(fn)] = (fn, lp.gated(faults(fn), label))
        return made[id(fn)][1]
    graph = wrapped(s, gate_graph(make_graph(w), wrap), True)
    engine = Engine(AsyncIOExecutor(lp.loop))
    q = the_query(s)

    async def go():
        try:
            res, err = await engine.execute(graph, q), None
        except Exception as e:
            res, err = None, e
        if faults.raised is None:
            return res, err
        n = len(lp.events)
        faults.on = False
        await lp.idle(4)
        return (res, err, n == len(lp.events),
                await engine.execute(graph, Node([
                    Field('a'), Link('l', Node([Field('b')]))])))
    status, out = lp.run(go())
    s.check(status == 'ok', 'the execution ends', (status, out))
    if faults.raised is None:
        s.cover('fine')
        s.check(out[1] is None, 'no error without a reason', out[1])
        check_result(s, w, graph, q, out[0], 'the result')
        return
    check_error(s, faults, out[1])
    s.check(out[2], 'nothing goes on afterwards')
    check_result(s, w, graph, Node([Field('a'), Link('l', Node([
        Field('b')]))]), out[3], 'the next execution succeeds')


@scenario(covers=('raised', 'fine'))
def computed(s):
    """Functions of the lower graph and functions used in expressions."""
    faults = Faults(s, 6)
    made = cached(faults)

    def fn(f):
        return made(f, None)

    @define(Any)
    def double(v):
        return fn(twice)(v)

    def twice(v):
        return 2 * v

    def x_of(fields, ids):
        return [[s.uf('x', f.name, i, lo=0, hi=3) for f in fields]
                for i in ids]
    low = Graph([
        GNode('X', [GField('a', Integer, fn(x_of)),
                    GField('b', Integer, fn(x_of)),
                    GLink('y', Sequence[TypeRef['Y']],
                          fn(lambda ids: [[i] for i in ids]),
                          requires='id'),
                    GField('id', None, lambda fields, ids: [
                        [i for f in fields] for i in ids])]),
        GNode('Y', [GField('c', Integer, fn(x_of))]),
    ])
    sg = SubGraph(low, 'X')
    from hiku.expr.core import each
    high = Graph([
        GNode('X', [GField('a', None, sg),
                    GField('d', None, sg.c(double(S.this.b))),
                    GField('e', None, sg.c(each(S.v, S.this.y,
                                                double(S.v.c))))]),
        Root([GLink('xs', Sequence[TypeRef['X']], fn(lambda: [0, 1]),
                    requires=None)]),
    ])
    names = s.pick('names', ('a', 'd', 'e', 'ad', 'ade'))
    q = Node([Link('xs', Node([Field(n) for n in names]))])
    kind = s.choice('executor', 2)
    pool = sched.StubPool(s, batch=1)
    engine = Engine(ThreadsExecutor(pool) if kind else SyncExecutor())

    def execute():
        with sched.active(pool):
            return [[o[n] for n in names]
                    for o in engine.execute(high, q)['xs']]

    def want():
        out = []
        for i in (0, 1):
            row = []
            for n in names:
                if n == 'a':
                    row.append(s.uf('x', 'a', i, lo=0, hi=3))
                elif n == 'd':
                    row.append(2 * s.uf('x', 'b', i, lo=0, hi=3))
                else:
                    row.append([2 * s.uf('x', 'c', i, lo=0, hi=3)])
            out.append(row)
        return out
    res, err = attempt(execute)
    if faults.raised is None:
        s.cover('fine')
        s.check(err is None, 'no error without a reason', err)
        s.check(s.eq(res, want()), 'the result', res)
        return
    check_error(s, faults, err)
    pool.prefix = 'again'
    res, err = attempt(execute)
    s.check(err is None, 'the next execution succeeds', err)
    s.check(s.eq(res, want()), 'its result', res)


@scenario(covers=('raised', 'fine'))
def endpoint(s):
    """An error of a resolver is not taken for an error of the request."""
    w = World(s, ids=(0, 1), max_len=1)
    faults = Faults(s, 5)
    batch = s.choice('batch', 2)
    cls = BatchGraphQLEndpoint if batch else GraphQLEndpoint
    ep = cls(Engine(SyncExecutor()),
             gate_graph(make_graph(w), cached(faults)))

    def request(n):
        return {'query': g.source(s, g.document(g.operation(
            [g.field(n), g.field('l', [g.field('b')])])))}
    reqs = [request(s.char('n', 'ab')), request('b')]
    res, err = attempt(lambda: ep.dispatch(reqs if batch else reqs[0]))
    if faults.raised is None:
        s.cover('fine')
        s.check(err is None, 'no error without a reason', err)
        return
    check_error(s, faults, err)
    res, err = attempt(lambda: ep.dispatch(reqs if batch else reqs[0]))
    s.check(err is None and all(['data' in x and 'errors' not in x for x in (
        res if batch else [res])]), 'the next request succeeds', (err, res))


@scenario(covers=('raised', 'fine'), timeout=120)
def asynchronous_endpoint(s):
    """The same on an event loop, with several requests at once."""
    w = World(s, ids=(0, 1), max_len=1)
    faults = Faults(s, 5, ERRORS[:4])
    lp = sched.Loop(s, batch=1)
    made = {}

    def wrap(fn, label):
        if id(fn) not in made:
            made[id(fn)] = (fn, lp.gated(faults(fn), label))
        return made[id(fn)][1]
    n = s.choice('batch', 3)
    cls = AsyncBatchGraphQLEndpoint if n else AsyncGraphQLEndpoint
    ep = cls(Engine(AsyncIOExecutor(lp.loop)), gate_graph(make_graph(w), wrap))

    def request(*names):
        return {'query': g.source(s, g.document(g.operation(
            [g.field(x) for x in names[:-1]] +
            [g.field('l', [g.field(names[-1])])])))}
    reqs = [request(s.char('n', 'ab'), 'b'), request('b')][:n or 1]

    async def go():
        try:
            return await ep.dispatch(reqs if n else reqs[0]), None
        except Exception as e:
            return None, e
    status, out = lp.run(go())
    s.check(status == 'ok', 'the request ends', (status, out))
    res, err = out
    if faults.raised is None:
        s.cover('fine')
        s.check(err is None, 'no error without a reason', err)
        s.check(all(['data' in x and 'errors' not in x
                     for x in (res if n else [res])]), 'data', res)
        return
    check_error(s, faults, err)


@scenario(covers=('raised', 'metrics'))
def rare_errors(s):
    """Errors of classes which have a meaning of their own for somebody
    else, and of unusual ones."""
    w = World(s, ids=(0, 1), max_len=1)
    faults = Faults(s, 3, RARE)
    how = s.pick('how', ('sync', 'threads', 'loop', 'endpoint', 'both'))
    q = Node([Field('a'), Link('l', Node([Field('b')]))],
             ordered=s.choice('ordered', 2) == 1)
    async_ = how in ('loop', 'both')
    lp = sched.Loop(s, batch=1) if async_ else None
    made = {}

    def wrap(fn, label):
        if id(fn) not in made:
            f = faults(fn)
            made[id(fn)] = (fn, lp.gated(f, label) if async_ else f)
        return made[id(fn)][1]
    graph = wrapped(s, gate_graph(make_graph(w), wrap), async_)
    request = {'query': g.source(s, g.document(g.operation(
        [g.field('a'), g.field('l', [g.field('b')])])))}

    def catch(fn):
        try:
            return fn(), None
        except BaseException as e:
            if type(e).__module__.startswith('symx'):
                raise
            return None, e
    if how == 'sync':
        res, err = catch(lambda: Engine(SyncExecutor()).execute(graph, q))
    elif how == 'endpoint':
        ep = GraphQLEndpoint(Engine(SyncExecutor()), graph)
        res, err = catch(lambda: ep.dispatch(request))
    elif how == 'threads':
        pool = sched.StubPool(s, batch=1)
        with sched.active(pool):
            res, err = catch(lambda: Engine(ThreadsExecutor(pool)).execute(
                graph, q))
    else:
        engine = Engine(AsyncIOExecutor(lp.loop))
        ep = AsyncGraphQLEndpoint(engine, graph) if how == 'both' else None

        async def go():
            try:
                return (await ep.dispatch(request) if ep else
                        await engine.execute(graph, q)), None
            except BaseException as e:
                if type(e).__module__.startswith('symx'):
                    raise
                return None, e
        status, out = lp.run(go())
        s.check(status == 'ok', 'the execution ends', (status, out))
        res, err = out
    if faults.raised is None:
        s.check(err is None, 'no error without a reason', err)
        return
    s.cover('raised')
    if async_ and isinstance(faults.raised, asyncio.CancelledError):
        # tasks may make another one
        s.check(isinstance(err, asyncio.CancelledError),
                'the error reaches the caller', err)
        return
    s.check(err is faults.raised, 'the very error reaches the caller',
            (err, faults.raised))
