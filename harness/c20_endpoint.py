"""C20: the GraphQL endpoint answers every request with data or errors."""
from symx.session import scenario
from harness import gqldoc as g
from harness import sched
from hiku.endpoint.graphql import (GraphQLEndpoint, BatchGraphQLEndpoint,
                                   AsyncGraphQLEndpoint,
                                   AsyncBatchGraphQLEndpoint)
from hiku.engine import Engine
from hiku.executors.sync import SyncExecutor
from hiku.executors.asyncio import AsyncIOExecutor
from hiku.graph import Graph, Root, Field as GField, Option, Nothing
from hiku.types import Integer
from harness.world import World, make_graph, attempt
from harness.sizes import WIDE, DEEP, place
from harness.c03_schedules import gate_graph

ASSUMPTIONS = [
    'resolver functions do not fail',
    'the mutation graph holds the same nodes as the query graph',
    'result keys of one selection are distinct (but for __typename)',
    'graphql-core parses documents as printed by it',
]
BOUNDS = ('operations with up to 3 items (names, aliases, arguments and '
          'types of operations symbolic) and up to 2 items below a link; '
          'batches of up to 3 requests; completion orders of up to 6 calls; batches of up to '
          '129 requests and operations with up to 129 items')

# independent description of the graph of harness/world.py
FIELDS = {'R': 'abc', 'N': 'abgd', 'M': 'abgd', 'T': 'xy'}
LINKS = {'R': {'l': 'N', 'm': 'N', 'o': 'M', 'p': 'M'},
         'N': {'l': 'N', 'm': 'N', 'o': 'M', 'q': 'N', 'n': 'M'},
         'M': {'l': 'N', 'm': 'N', 'k': 'N'}, 'T': {}}
KIND = {'l': 'many', 'm': 'maybe', 'o': 'one', 'p': 'many', 'q': 'many',
        'n': 'one', 'k': 'maybe'}
WITH_X = 'cdpq'
ROOT = {'query': 'Query', 'mutation': 'Mutation'}


class MutationWorld(World):
    """Other values at the root."""

    def value(self, node, name, options, ident):
        return World.value(self, 'X' if node == 'R' else node, name, options,
                           ident)

    def record(self, node, name, options, ident):
        return World.record(self, 'X' if node == 'R' else node, name,
                            options, ident)

    def target(self, node, name, options, ident):
        return World.target(self, 'X' if node == 'R' else node, name,
                            options, ident)


class Env:
    def __init__(self, s, mutation=True, cls=GraphQLEndpoint, lp=None):
        self.s = s
        self.query = World(s, ids=(0, 1), max_len=1)
        self.mutation = (MutationWorld(s, ids=(0, 1), max_len=1)
                         if mutation else None)
        q = make_graph(self.query)
        m = make_graph(self.mutation) if mutation else None
        if lp is None:
            engine = Engine(SyncExecutor())
        else:
            cache = {}

            def wrap(fn, label):
                if id(fn) not in cache:
                    cache[id(fn)] = (fn, lp.gated(fn, label))
                return cache[id(fn)][1]
            q = gate_graph(q, wrap)
            m = gate_graph(m, wrap) if mutation else None
            engine = Engine(AsyncIOExecutor(lp.loop))
        self.endpoint = cls(engine, q, m)

    def world(self, kind):
        return {'query': self.query, 'mutation': self.mutation}.get(kind)


class Item:
    def __init__(self, name, alias=None, args=None, sub=None):
        self.name = name
        self.alias = alias
        self.args = args
        self.sub = sub

    @property
    def key(self):
        return self.name if self.alias is None else self.alias

    def node(self):
        return g.field(self.name, None if self.sub is None else
                       [i.node() for i in self.sub], self.args, self.alias)


def valid(s, node, items):
    for i in items:
        if i.name == '__typename':
            if i.sub is not None:
                return False
        elif i.name in FIELDS[node]:
            if i.sub is not None:
                return False
        elif i.name == 'e' and node != 'T':
            if i.sub is not None and not valid(s, 'T', i.sub):
                return False
        elif i.name in LINKS[node]:
            if i.sub is None:
                return False
            if not valid(s, [LINKS[node][k] for k in LINKS[node]
                             if k == i.name][0], i.sub):
                return False
        else:
            return False
        for k, v in (i.args or {}).items():
            if not (k == 'x' and node != 'T' and i.name in WITH_X
                    and isinstance(v, int) and not isinstance(v, bool)):
                return False
    return True


def data(w, node, ident, items, tname):
    out = {}
    for i in items:
        opts = dict(i.args or {})
        if i.name in WITH_X:
            opts.setdefault('x', w.default)
        if i.name == '__typename':
            v = tname
        elif i.name == 'e':
            rec = w.record(node, 'e', None, ident)
            v = dict(rec) if i.sub is None else {}
            for f in i.sub or ():
                v[f.key] = 'T' if f.name == '__typename' else rec[f.name]
        elif i.name in FIELDS[node]:
            v = w.value(node, i.name, opts if i.name in WITH_X else None,
                        ident)
        else:
            k = [x for x in LINKS[node] if x == i.name][0]
            to = LINKS[node][k]
            src = (-1 if node == 'R' or k == 'n'
                   else w.value(node, 'a', None, ident))
            t = w.target(node, k, opts if k in WITH_X else None, src)
            if KIND[k] == 'many':
                v = [data(w, to, x, i.sub, to) for x in t]
            elif t is Nothing:
                v = None
            else:
                v = data(w, to, t, i.sub, to)
        out[i.key] = v
    return out


def is_errors(s, answer):
    return (isinstance(answer, dict) and list(answer) == ['errors']
            and isinstance(answer['errors'], list)
            and len(answer['errors']) > 0
            and all([isinstance(e, dict) and list(e) == ['message']
                     and isinstance(e['message'], str)
                     for e in answer['errors']]))


def check_answer(s, env, answer, kind, items):
    """kind: type of the operation, None when the request is wrong."""
    w = env.world(kind)
    if w is None or not valid(s, 'R', items):
        s.cover('errors')
        s.check(is_errors(s, answer), 'answered with errors', answer)
        s.check(not env.query.log and
                (env.mutation is None or not env.mutation.log)
                or s.params.get('batch'),
                'nothing is executed')
        return
    s.cover('data')
    s.check(isinstance(answer, dict) and list(answer) == ['data'],
            'answered with data', answer)
    want = data(w, 'R', -1, items, ROOT[kind])
    s.check(s.eq(answer['data'], want), 'the data of the operation',
            (answer, want))


def distinct(s, items):
    for i in range(len(items)):
        for j in range(i):
            s.assume(s.not_(s.eq(items[i].key, items[j].key)))
    return items


def dispatch(s, env, request):
    answer, err = attempt(lambda: env.endpoint.dispatch(request))
    s.check(err is None, 'no unhandled error', err)
    return answer


C = ('errors', 'data')


@scenario(covers=C, timeout=120)
def fields(s):
    """Fields, __typename, arguments and aliases at the root."""
    env = Env(s)
    kind = s.pick('kind', ('query', 'mutation'))
    items = [Item('b')]
    k = s.choice('item', 4)
    name = s.char('name', 'abcelz')
    if k == 0:
        items.append(Item(name, 't'))
    elif k == 1:
        arg = s.char('arg', 'xy')
        v = s.pick('v', (s.int('i', 0, 9), 'w', None, [1]))
        items.append(Item(name, 't', {arg: v}))
    elif k == 2:
        items.append(Item('__typename', s.char('al', 'tu') if s.choice(
            'alias', 2) else None))
        items.append(Item(name, 'v'))
    else:
        items.append(Item(name, 't', None, [Item(s.char('sub', 'abxz'))]))
    doc = g.document(g.operation([i.node() for i in items], None, kind))
    answer = dispatch(s, env, {'query': g.source(s, doc)})
    check_answer(s, env, answer, kind, distinct(s, items))


@scenario(covers=('data', 'nothing'))
def nothing_left(s):
    """Everything is skipped, or only __typename is left."""
    lp = sched.Loop(s, batch=1) if s.choice('async', 2) else None
    env = Env(s, cls=GraphQLEndpoint if lp is None else AsyncGraphQLEndpoint,
              lp=lp)
    kind = s.pick('kind', ('query', 'mutation'))

    def part(p, name, sub=None, alias=None):
        """(node, item when it is left)"""
        on = s.bool(p)
        d = s.pick(p + '.d', ('skip', 'include'))
        if d == 'skip':
            left = s.not_(on)
        else:
            left = on
        subs = [x for x in sub or ()]
        node = g.field(name, None if sub is None else [x[0] for x in subs],
                       None, alias, [g.directive(d, g.var(p))])
        given[p] = on
        if not left:
            return node, None
        return node, Item(name, alias, None, None if sub is None else
                          [x[1] for x in subs if x[1] is not None])
    given = {}
    parts = [part('p0', s.pick('n0', ('a', '__typename')))]
    if s.choice('link', 2):
        parts.append(part('p1', s.char('l', 'lmoe'),
                          [part('p2', s.pick('n2', ('b', '__typename', 'x')))
                           ]))
    else:
        parts.append(part('p1', '__typename', None, 't'))
    doc = g.document(g.operation([x[0] for x in parts], None, kind,
                                 [g.variable(n, 'Boolean', True)
                                  for n in given]))
    request = {'query': g.source(s, doc), 'variables': given}
    if lp is None:
        answer = dispatch(s, env, request)
    else:
        async def go():
            return await env.endpoint.dispatch(request)
        st, answer = lp.run(go())
        s.check(st == 'ok', 'no unhandled error', (st, answer))
    items = [x[1] for x in parts if x[1] is not None]
    if not items:
        s.cover('nothing')
    check_answer(s, env, answer, kind, items)


@scenario(covers=C, timeout=120)
def links(s):
    """Links of any kind and __typename at any level."""
    env = Env(s)
    kind = s.pick('kind', ('query', 'mutation'))
    sub = [Item('__typename'), Item(s.char('f', 'abx'))]
    if s.choice('deep', 2):
        sub[1] = Item(s.char('k', 'moe'), None, None, [
            Item('__typename', 'q'),
            Item(s.char('ff', 'bx'), s.char('al', 'xy'))])
    items = [Item(s.char('l', 'lmoe'), None, None, sub),
             Item('__typename', 'y')]
    doc = g.document(g.operation([i.node() for i in items], None, kind))
    answer = dispatch(s, env, {'query': g.source(s, doc)})
    check_answer(s, env, answer, kind, items)


@scenario(covers=C, params={'quick': {'n': 2}, 'thorough': {'n': 3}},
          timeout=120)
def operations(s):
    """Documents with several operations of any types."""
    env = Env(s, mutation=s.choice('mutation', 2) == 1)
    ops, defs = [], []
    for i in range(s.choice('n', s.params['n']) + 1):
        p = 'op%d' % i
        name = s.char(p + '.name', 'AB') if s.choice(p + '.n', 2) else None
        kind = s.pick(p + '.kind', ('query', 'mutation', 'subscription'))
        items = [Item('abc'[i]), Item('__typename', 't')]
        ops.append((name, kind, items))
        defs.append(g.operation([x.node() for x in items], name, kind))
    request = {'query': g.source(s, g.document(*defs))}
    asked = None
    how = s.choice('ask', 3)
    if how:
        request['operationName'] = None
    if how == 2:
        asked = request['operationName'] = (
            s.char('asked', 'ABC') if s.choice('named', 2) else '')
    answer = dispatch(s, env, request)
    names = [o[0] for o in ops]
    found = [i for i in range(len(ops))
             if (names[i] is not None and names[i] == asked
                 if asked is not None else True)]
    dup = any([names[i] == names[j] for i in range(len(ops))
               for j in range(i)])
    if len(found) != 1 or dup:
        check_answer(s, env, answer, None, [])
    else:
        check_answer(s, env, answer, ops[found[0]][1], ops[found[0]][2])


@scenario(covers=C)
def variables(s):
    """Variables are taken from the request."""
    env = Env(s)
    defs = [g.variable('v', 'Int', s.choice('req', 2) == 1)]
    items = [Item('c', None, {'x': g.var(s.char('used', 'vw'))}), Item('a')]
    v = None
    doc = g.document(g.operation([i.node() for i in items], None, 'query',
                                 defs))
    request = {'query': g.source(s, doc)}
    how = s.choice('how', 4)
    if how == 1:
        request['variables'] = None
    elif how == 2:
        request['variables'] = {}
    elif how == 3:
        v = s.int('v', 0, 9)
        request['variables'] = {'v': v}
    answer = dispatch(s, env, request)
    if items[0].args['x'].name.value == 'v' and v is not None:
        check_answer(s, env, answer, 'query',
                     [Item('c', None, {'x': v}), Item('a')])
    else:
        # a missing value, an undefined variable or null for an integer
        check_answer(s, env, answer, None, [])


@scenario(covers=('errors',))
def wrong_documents(s):
    """Documents which cannot be read."""
    env = Env(s)
    k = s.choice('k', 8)
    a = g.field('a')
    if k == 0:
        src = s.pick('text', ('', '{', '{ a', 'query {', '{ a(x: ) }', '}',
                              '{ a }}', '\x00', '{}', 'type A { a: Int }',
                              'fragment F on Q { a }', 'schema { query: A }',
                              'extend type A { a: Int }', 'enum E { A }',
                              'directive @d on FIELD', '{ a } scalar S',
                              '{ a } type A { a: Int }',
                              '{ a(x: 1, ', '{ a @skip }',
                              '{ a @include(if: true, if: false) }'))
    else:
        doc = {
            1: lambda: g.document(g.operation([g.spread('F')])),
            2: lambda: g.document(
                g.operation([g.spread('F')]),
                g.fragment('F', [g.spread(s.char('t', 'FH'))]),
                g.fragment('G', [a])),
            3: lambda: g.document(g.operation([a]), g.operation([a])),
            4: lambda: g.document(g.fragment('F', [a])),
            5: lambda: g.document(g.operation([g.field(
                'c', None, {'x': g.var('v')})])),
            6: lambda: g.document(g.operation(
                [a], None, 'query', [g.variable('v', required=True)])),
            7: lambda: g.document(g.operation([g.spread('F')]),
                                  g.fragment('F', [a]),
                                  g.fragment('F', [a])),
        }[k]()
        src = g.source(s, doc)
    request = {'query': src}
    if s.choice('name', 2):
        request['operationName'] = s.char('asked', 'AB')
    answer = dispatch(s, env, request)
    check_answer(s, env, answer, None, [])


def request_of(s, p, kinds=('query', 'mutation')):
    """(request, kind, items)"""
    kind = s.pick(p + '.kind', kinds)
    items = [Item(s.char(p + '.f', 'abz')), Item('__typename', 't')]
    doc = g.document(g.operation([i.node() for i in items], None, kind))
    return {'query': g.source(s, doc)}, kind, items


@scenario(covers=C, params={'quick': {'n': 2, 'batch': True},
                            'thorough': {'n': 3, 'batch': True}},
          timeout=120)
def batches(s):
    """Requests of a batch are answered in order, as if they were alone."""
    env = Env(s, cls=BatchGraphQLEndpoint, mutation=s.choice('m', 2) == 1)
    n = s.choice('n', s.params['n'] + 1)
    rs = [request_of(s, 'r%d' % i) for i in range(n)]
    answer = dispatch(s, env, [r[0] for r in rs])
    s.check(isinstance(answer, list) and len(answer) == n,
            'an answer for every request', answer)
    for a, (req, kind, items) in zip(answer, rs):
        check_answer(s, env, a, kind, items)
    if n:
        # a single request
        a = dispatch(s, env, rs[0][0])
        check_answer(s, env, a, rs[0][1], rs[0][2])


@scenario(covers=C, params={'quick': {'batch': True, 'len': 1}, 'thorough': {
    'batch': True, 'len': 1}}, timeout=200)
def asynchronous(s):
    """The same for the asynchronous endpoints, whatever completes first."""
    lp = sched.Loop(s, batch=1)
    single = s.choice('single', 2)
    env = Env(s, cls=AsyncGraphQLEndpoint if single
              else AsyncBatchGraphQLEndpoint, lp=lp)
    if single:
        kind = s.pick('kind', ('query', 'mutation', 'subscription'))
        items = [Item(s.char('f', 'abz')), Item('__typename'),
                 Item('m', None, None, [Item('__typename'), Item('b')])]
        doc = g.document(g.operation([i.node() for i in items], None, kind))
        rs = [({'query': g.source(s, doc)}, kind, items)]
    else:
        rs = [request_of(s, 'r%d' % i) for i in range(s.choice('n', 3))]

    async def go():
        return await env.endpoint.dispatch(
            rs[0][0] if single else [r[0] for r in rs])
    st, answer = lp.run(go())
    s.check(st == 'ok', 'no unhandled error', (st, answer))
    if single:
        answer = [answer]
    s.check(len(answer) == len(rs), 'an answer for every request')
    for a, (req, kind, items) in zip(answer, rs):
        check_answer(s, env, a, kind, items)


@scenario(covers=('schema',))
def introspection(s):
    """Introspection is available and executes next to other fields."""
    env = Env(s, mutation=s.choice('m', 2) == 1)
    kind = s.pick('kind', ('query', 'mutation'))
    f = s.char('f', 'ab')
    doc = g.document(g.operation([
        g.field(f),
        g.field('__schema', [g.field('queryType', [g.field('name')]),
                             g.field('mutationType', [g.field('name')])]),
        g.field('__type', [g.field('kind')], {'name': 'N'}, 'n'),
        g.field('__type', [g.field('kind')], {'name': 'Z'}, 'z'),
        g.field('__typename')], None, kind))
    answer = dispatch(s, env, {'query': g.source(s, doc)})
    w = env.world(kind)
    if w is None:
        s.check(is_errors(s, answer), 'answered with errors', answer)
        return
    s.cover('schema')
    s.check(isinstance(answer, dict) and list(answer) == ['data'],
            'answered with data', answer)
    want = {'__schema': {'queryType': {'name': 'Query'},
                         'mutationType': {'name': 'Mutation'}
                         if env.mutation else None},
            'n': {'kind': 'OBJECT'}, 'z': None, '__typename': ROOT[kind]}
    want[f] = w.value('R', f, None, -1)
    s.check(s.eq(answer['data'], want), 'the data', (answer, want))


@scenario(covers=C)
def fragments(s):
    """Selections united from fragments, __typename among them."""
    env = Env(s)
    kind = s.pick('kind', ('query', 'mutation'))
    f1, f2 = s.char('f1', 'abx'), s.char('f2', 'abg')
    doc = g.document(
        g.operation([g.spread('F'), g.field('l', [g.field('__typename')]),
                     g.inline([g.spread('F'), g.field('b')])], None, kind),
        g.fragment('F', [g.field('__typename'), g.field('l', [
            g.field(f1), g.field('__typename'),
            g.field('m', [g.spread('G')])])]),
        g.fragment('G', [g.field('__typename', alias='t'), g.field(f2)]))
    items = [Item('__typename'), Item('b'), Item('l', None, None, [
        Item(f1), Item('__typename'), Item('m', None, None, [
            Item('__typename', 't'), Item(f2)])])]
    answer = dispatch(s, env, {'query': g.source(s, doc)})
    check_answer(s, env, answer, kind, items)


@scenario(covers=C, params={'batch': True})
def large(s):
    """Batches of many requests, one of which, at a picked place, is wrong,
    and operations with many items."""
    kind = s.pick('kind', ('batch', 'items'))
    n = s.pick('size', WIDE)
    k = place(s, 'place', n)
    env = Env(s, cls=BatchGraphQLEndpoint)
    odd = s.pick('odd', ('abz', '__typename'))
    names = ['ab'[i % 2] for i in range(n)]
    names[k] = s.char('f', 'abz') if odd == 'abz' else odd
    if kind == 'items':
        what = s.pick('operation', ('query', 'mutation'))
        items = [Item(x, 'z%d' % i) for i, x in enumerate(names)]
        doc = g.document(g.operation([i.node() for i in items], None, what))
        answer = dispatch(s, env, {'query': g.source(s, doc)})
        check_answer(s, env, answer, what, items)
        return
    rs = []
    for i, x in enumerate(names):
        what = 'mutation' if i % 3 == 1 else 'query'
        items = [Item(x)]
        doc = g.document(g.operation([i.node() for i in items], None, what))
        rs.append(({'query': g.source(s, doc)}, what, items))
    answer = dispatch(s, env, [r[0] for r in rs])
    s.check(isinstance(answer, list) and len(answer) == n,
            'an answer for every request', answer)
    for a, (req, what, items) in zip(answer, rs):
        check_answer(s, env, a, what, items)


@scenario(covers=('data', 'changed'))
def one_document(s):
    """Requests with one document, which differ in the operation asked and in
    variables or in nothing at all: every one of them is executed."""
    batch = s.choice('batch', 2)
    lp = sched.Loop(s, batch=1) if s.choice('async', 2) else None
    calls = []

    def fn(nm):
        def load(fields):
            calls.append((nm, [f.options['x'] for f in fields]))
            return [(nm, f.options['x'], len([c for c in calls
                                              if c[0] == nm]))
                    for f in fields]
        if lp is not None:
            async def later(fields):
                return load(fields)
            return later
        return load
    opt = [Option('x', Integer, default=7)]
    query = Graph([Root([GField('a', None, fn('query'), options=opt)])])
    mutation = Graph([Root([GField('a', None, fn('mutation'),
                                   options=opt)])])
    cls = ((AsyncBatchGraphQLEndpoint if batch else AsyncGraphQLEndpoint)
           if lp is not None else
           (BatchGraphQLEndpoint if batch else GraphQLEndpoint))
    endpoint = cls(Engine(SyncExecutor() if lp is None else
                          AsyncIOExecutor(lp.loop)), query, mutation)
    # three operations; two of them use the variable
    defs = [g.variable('v', 'Int', False, 5)]
    doc = g.document(
        g.operation([g.field('a', None, {'x': g.var('v')})], 'A', 'query',
                    defs),
        g.operation([g.field('a', None, {'x': g.var('v')}, 'z')], 'B',
                    'mutation', defs),
        g.operation([g.field('a', None, {'x': 1}, 'y')], 'C', 'query'))
    text = g.source(s, doc)
    requests, want, n = [], [], {'query': 0, 'mutation': 0}
    for i in range(1 + s.choice('n', 3)):
        name = s.pick('name%d' % i, 'ABC')
        r = {'query': text, 'operationName': name}
        x = 5
        if s.choice('given%d' % i, 2):
            x = s.int('v%d' % i, 0, 9)
            r['variables'] = {'v': x}
        kind = 'mutation' if name == 'B' else 'query'
        n[kind] += 1
        requests.append(r)
        want.append(({'A': 'a', 'B': 'z', 'C': 'y'}[name], kind,
                     1 if name == 'C' else x, n[kind]))

    def send(request):
        if lp is None:
            return endpoint.dispatch(request)

        async def go():
            return await endpoint.dispatch(request)
        st, res = lp.run(go())
        s.check(st == 'ok', 'executed', (st, res))
        return res
    if batch:
        answers, err = attempt(lambda: send(requests))
        s.check(err is None, 'no unhandled error', err)
    elif lp is None:
        answers = [send(r) for r in requests]
    else:
        async def every():
            return [await endpoint.dispatch(r) for r in requests]
        st, answers = lp.run(every())
        s.check(st == 'ok', 'executed', (st, answers))
    s.check(len(answers) == len(want), 'an answer for every request', answers)
    for a, (key, kind, x, k) in zip(answers, want):
        s.check(list(a) == ['data'] and list(a['data']) == [key],
                'the operation which was asked', a)
        got = a['data'][key]
        s.check(got[0] == kind and s.eq(got[1], x), 'its value', (got, x))
        if kind == 'mutation':
            s.cover('changed')
        if lp is None or not batch:
            s.check(got[2] == k, 'every request is executed', got)
    s.check(len(calls) == len(want), 'every request is executed once', calls)
    s.cover('data')


@scenario(covers=C, timeout=120, params={'quick': {'n': 2},
                                         'thorough': {'n': 3}})
def type_names(s):
    """Requests of __typename: it is a field as any other, in the keys of the
    answer as well."""
    env = Env(s)
    kind = s.pick('kind', ('query', 'mutation'))
    where = s.pick('where', ('root', 'link', 'record', 'deep'))
    n = s.params['n']
    names = {'root': 'ae', 'link': 'ab', 'record': 'xy', 'deep': 'ab'}[where]
    items, wrong = [], False
    for i in range(n):
        nm = s.pick('name%d' % i, tuple(names) + ('__typename',))
        al = s.pick('alias%d' % i, (None, 'k', '__typename', 'a'))
        sub = args = None
        if nm == '__typename':
            how = s.pick('how%d' % i, ('plain', 'selection', 'arguments'))
            if how == 'selection':
                sub = [Item('a')]
            elif how == 'arguments':
                args = {'x': 1}
            wrong = wrong or how != 'plain'
        items.append(Item(nm, al, args, sub))
    for i in range(n):
        for j in range(i):
            if items[i].key == items[j].key and (
                    items[i].name != items[j].name):
                wrong = True
    top = items
    if where == 'record':
        top = [Item('e', None, None, items)]
    elif where == 'link':
        top = [Item('l', None, None, items)]
    elif where == 'deep':
        top = [Item('z', None, None, [Item('b')]),
               Item('l', None, None, [Item('m', 'w', None, items)])]
        top = top[1:] + [Item('__typename')]
    # the selection may be given in two parts
    if s.choice('parts', 2) and where == 'root':
        nodes = [g.inline([i.node() for i in top[:1]], [], None)] + [
            i.node() for i in top[1:]]
    else:
        nodes = [i.node() for i in top]
    doc = g.document(g.operation(nodes, None, kind))
    answer = dispatch(s, env, {'query': g.source(s, doc)})
    if wrong:
        s.cover('errors')
        s.check(is_errors(s, answer), 'answered with errors', answer)
        s.check(not env.query.log and not env.mutation.log,
                'nothing is executed')
        return
    check_answer(s, env, answer, kind, top)
