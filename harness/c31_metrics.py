"""C31: metrics observe without interfering."""
import itertools
from symx.session import scenario
from harness import sched
from hiku.engine import Engine, pass_context
from hiku.executors.sync import SyncExecutor
from hiku.executors.asyncio import AsyncIOExecutor
from hiku.expr.core import S, if_some, each
from hiku.graph import (apply, Graph, Root, Node as GNode, Field as GField,
                        Link as GLink, Option, Nothing)
from hiku.query import Node, Field, Link
from hiku.result import denormalize
from hiku.sources.graph import SubGraph
from hiku.telemetry.prometheus import GraphMetrics, AsyncGraphMetrics
from hiku.types import TypeRef, Sequence, Optional, Integer
from harness.world import attempt
from harness.sizes import place

ASSUMPTIONS = ['whether a call which fails is observed is not checked',
               'the clock does not fail']
BOUNDS = ('queries with up to 2 items per node, 2 levels, over a graph with '
          'functions shared between fields, between nodes and between the '
          'root and nodes, with and without the context; one failing '
          'function; up to 2 identifiers per node; up to 65 fields, requests or '
          'identifiers')


class Recorder:
    """A metric with labels graph, node and field."""

    def __init__(self):
        self.counts = {}

    def labels(self, *args, **kwargs):
        if kwargs:
            args = args + tuple(kwargs[k] for k in ('graph', 'node', 'field')
                                if k in kwargs)
        return Child(self, args)


class Child:
    def __init__(self, rec, key):
        self.rec = rec
        self.key = key

    def observe(self, duration):
        if not duration >= 0:
            raise ValueError('negative duration')
        self.rec.counts[self.key] = self.rec.counts.get(self.key, 0) + 1


class Boom(Exception):
    pass


class LoggedSubGraph(SubGraph):
    log = None
    where = None

    def __call__(self, fields, ids, *args):
        self.log.append(('subquery', self.where,
                         [f.name for _, f in fields], list(ids), None))
        return super().__call__(fields, ids, *args)


class Case:
    """A graph, whose functions log their calls."""

    def __init__(self, s, fail, wrap, fixed=False):
        self.s = s
        self.log = []
        self.fail = fail
        self.wrap = wrap
        self.fixed = fixed

    def where(self, ids):
        """The node which the identifiers belong to."""
        if ids is None:
            return 'Root'
        return 'N' if all(0 <= i < 10 for i in ids) else 'M'

    def fields_fn(self, name, ctx=False):
        """A function for fields of the root and of nodes."""
        s = self.s

        def body(c, fields, *ids):
            ids = list(ids[0]) if ids else None
            names = [f.name for f in fields]
            self.log.append((name, self.where(ids), names, ids,
                             [f.options for f in fields] + [c]))
            if self.fail == name:
                raise Boom(name)
            if ids is None:
                return [s.uf('v', n, -1) for n in names]
            return [[s.uf('v', n, i) for n in names] for i in ids]
        return self.finish(body, name, ctx)

    def link_fn(self, name, many, to, ctx=False, root=False, opts=False):
        s = self.s
        lo = 0 if to == 'N' else 10

        def body(c, *args):
            args = list(args)
            o = args.pop() if opts else None
            ids = list(args.pop()) if args else None
            self.log.append((name, self.where(ids), [name], ids, [o, c]))
            if self.fail == name:
                raise Boom(name)

            def target(i):
                if self.fixed:
                    t = lo if root else lo + i % 2
                    return [t, lo + 1][:2 if root else 1] if many is True \
                        else t
                if many == 'maybe':
                    if s.uf_bool('none', name, i):
                        return Nothing
                    return s.uf('to', name, i, 0, lo=lo, hi=lo + 1)
                if many:
                    n = s.concrete(s.uf('len', name, i, lo=0, hi=2 if root else 1))
                    return [s.uf('to', name, i, k, lo=lo, hi=lo + 1)
                            for k in range(n)]
                return s.uf('to', name, i, 0, lo=lo, hi=lo + 1)
            return target(-1) if root else [target(i) for i in ids]
        return self.finish(body, name, ctx)

    def finish(self, body, name, ctx):
        if ctx:
            @pass_context
            def fn(c, *args):
                return body(c['key'], *args)
        else:
            def fn(*args):
                return body(None, *args)
        return self.wrap(fn, name)

    def sub_graph(self, node):
        s = self.s

        def low(fields, ids):
            return [[s.uf('low', f.name, i) for f in fields] for i in ids]
        graph = Graph([GNode(node, [GField(n, Integer, self.wrap(low, 'low'))
                                    for n in 'uw']), Root([])])
        sg = LoggedSubGraph(graph, node)
        sg.log = self.log
        sg.where = node
        return sg

    def graph(self):
        shared = self.fields_fn('shared')
        cshared = self.fields_fn('cshared', True)
        own = self.fields_fn('own')
        to_m = self.link_fn('l', True, 'M')
        sub = self.sub_graph('N')
        opt = [Option('x', Integer, default=1)]
        return Graph([
            GNode('N', [
                GField('a', Integer, shared), GField('b', Integer, shared),
                GField('c', Integer, cshared),
                GField('d', Integer, own, options=opt),
                GField('u', None, sub), GField('v', Integer, sub.c(S.this.w)),
                GLink('l', Sequence[TypeRef['M']], to_m, requires='a0'),
                GLink('o', TypeRef['M'], self.link_fn(
                    'o', False, 'M', ctx=True, opts=True), requires='a0',
                    options=opt),
                GField('a0', None, self.ident('N'))]),
            GNode('M', [
                GField('a', Integer, shared), GField('b', Integer, own),
                GField('c', Integer, cshared),
                GField('d', Integer, own, options=opt),
                GLink('l', Sequence[TypeRef['M']], to_m, requires='a0'),
                GField('a0', None, self.ident('M'))]),
            Root([
                GField('a', Integer, shared), GField('c', Integer, cshared),
                GField('d', Integer, own, options=opt),
                GLink('n', Sequence[TypeRef['N']],
                      self.link_fn('n', True, 'N', root=True), requires=None),
                GLink('m', Optional[TypeRef['M']], self.link_fn(
                    'm', 'maybe', 'M', ctx=True, root=True), requires=None),
            ]),
        ])

    def ident(self, node):
        def ident(fields, ids):
            self.log.append(('ident', node, [f.name for f in fields],
                             list(ids), []))
            return [list(ids)[i:i + 1] * len(fields)
                    for i in range(len(ids))]
        return self.wrap(ident, 'ident')


FAILING = (None, 'shared', 'cshared', 'own', 'l', 'o', 'n', 'm')
INNER = {'N': ('ab', 'cd', 'uv', 'vv', 'ad', 'lb', 'lu', 'oc', 'oo'),
         'M': ('ab', 'cd', 'ad', 'la')}
ROOT = ('ac', 'dd', 'n', 'm', 'mn', 'an')


def items(names, where, depth, pick):
    out = []
    for k, n in enumerate(names):
        alias = '%s%d' % (n, k) if names.count(n) > 1 or n in 'bvo' else None
        if n in 'lonm':
            to = {'n': 'N'}.get(n, 'M')
            sub = pick(to, depth)
            opts = {'x': k} if n == 'o' else None
            out.append(Link(n, Node(items(sub, to, depth + 1, pick)), opts,
                            alias))
        else:
            opts = {'x': k} if n == 'd' else None
            out.append(Field(n, opts, alias))
    return out


SMALL = {'N': ('uv', 'lb', 'oc', 'da'), 'M': ('a',), 'R': ('ac', 'n', 'mn')}


def make_query(s, small=False):
    def pick(to, depth):
        if depth >= s.params['depth']:
            return 'a'
        return s.pick('%s%d' % (to, depth), (SMALL if small else INNER)[to])
    return Node(items(s.pick('root', SMALL['R'] if small else ROOT), 'Root', 0, pick))


def expected(log):
    """Observations: number of calls, and of requests in them."""
    out = {}
    for name, where, names, _, _ in log:
        for n in set(names):
            calls, reqs = out.get((where, n), (0, 0))
            out[where, n] = (calls + 1, reqs + names.count(n))
    return out


def check_counts(s, counts, log, failed=None):
    # computed fields are complete when everything below them is
    want = expected([r for r in log if failed is None or
                     r[0] not in (failed, 'subquery')])
    seen = {}
    for (graph, where, field), n in counts.items():
        s.check(graph == 'g', 'the name of the graph', graph)
        seen[where, field] = n
    maybe = expected(log)
    for k in sorted(set(want) | set(seen)):
        lo, _ = want.get(k, (0, 0))
        _, hi = maybe.get(k, (0, 0))
        s.check(lo <= seen.get(k, 0) <= hi,
                'every call is observed once', (k, seen.get(k, 0), (lo, hi)))


def same_calls(s, log1, log2):
    """The same calls in any order."""
    if len(log1) != len(log2):
        return False
    groups = {}
    for k, log in enumerate((log1, log2)):
        for r in log:
            groups.setdefault((r[0], r[1], tuple(r[2])), ([], []))[k].append(
                [r[3], r[4]])
    out = []
    for a, b in groups.values():
        if len(a) != len(b):
            return False
        out.append(s.any([s.eq(a, list(p))
                          for p in itertools.permutations(b)]))
    return s.all(out)


@scenario(params={'quick': {'depth': 1}, 'thorough': {'depth': 2}},
          covers=('ok', 'failed'), timeout=120)
def blocking(s):
    q = make_query(s)
    fail = s.pick('fail', FAILING)
    ctx = {'key': s.int('key', 0, 9)}
    plain = Case(s, fail, lambda fn, name: fn)
    want, err1 = attempt(lambda: denormalize(
        plain.graph(), Engine(SyncExecutor()).execute(plain.graph(), q, ctx)))
    case = Case(s, fail, lambda fn, name: fn)
    rec = Recorder()
    graph = apply(case.graph(), [GraphMetrics('g', metric=rec)])
    got, err2 = attempt(lambda: denormalize(
        graph, Engine(SyncExecutor()).execute(graph, q, ctx)))
    if err1 is not None:
        s.cover('failed')
        s.check(type(err2) is type(err1) and err2.args == err1.args,
                'the same error', (err2, err1))
        check_counts(s, rec.counts, case.log, fail)
        return
    s.cover('ok')
    s.check(err2 is None, 'no error', err2)
    s.check(same_calls(s, case.log, plain.log), 'the same calls',
            (case.log, plain.log))
    s.check(s.eq(got, want), 'the same result', (got, want))
    check_counts(s, rec.counts, case.log)
    s.observe('got', got)


@scenario(params={'quick': {'depth': 1, 'batch': 1, 'small': True},
                  'thorough': {'depth': 1, 'batch': 1, 'small': False}},
          covers=('ok', 'failed'), timeout=120)
def on_the_event_loop(s):
    q = make_query(s, s.params['small'])
    fail = s.pick('fail', (None, 'shared', 'l'))
    ctx = {'key': s.int('key', 0, 9)}
    plain = Case(s, fail, lambda fn, name: fn, True)
    want, err1 = attempt(lambda: denormalize(
        plain.graph(), Engine(SyncExecutor()).execute(plain.graph(), q, ctx)))
    lp = sched.Loop(s, batch=s.params['batch'])
    case = Case(s, fail, lp.gated, True)
    rec = Recorder()
    graph = apply(case.graph(), [AsyncGraphMetrics('g', metric=rec)])
    engine = Engine(AsyncIOExecutor(lp.loop))
    status, res = lp.run(engine.execute(graph, q, ctx))
    if err1 is not None:
        s.cover('failed')
        s.check(status == 'error' and isinstance(res, Boom) and
                res.args == err1.args, 'the same error', (status, res))
        check_counts(s, rec.counts, case.log, fail)
        return
    s.cover('ok')
    s.check(status == 'ok', 'no error', (status, res))
    got = denormalize(graph, res)
    s.check(s.eq(got, want), 'the same result', (got, want))
    s.check(same_calls(s, case.log, plain.log), 'the same calls',
            (case.log, plain.log))
    check_counts(s, rec.counts, case.log)
    s.observe('got', got)


@scenario(timeout=300)
def large(s):
    """Many fields, identifiers or levels."""
    kind = s.pick('many', ('fields', 'ids', 'requests'))
    n = s.pick('n', (1, 3, 17, 65))
    k = place(s, 'place', n)
    x = s.int('x', 0, 9)
    log = []

    def values(fields, ids):
        log.append(('f', 'N', [f.name for f in fields], list(ids), None))
        return [[value(f, i) for f in fields] for i in ids]

    def value(f, i):
        if kind == 'ids':
            return x if i == k else i
        if kind == 'requests':
            return f.options['o']
        return x if f.name == 'f%d' % k else f.name

    def root():
        log.append(('ns', 'Root', ['ns'], None, None))
        return list(range(n)) if kind == 'ids' else [0, 1]

    def link(ids):
        log.append(('l', 'N', ['l'], list(ids), None))
        return [[i] for i in ids]
    names = ['f%d' % i for i in range(n if kind == 'fields' else 1)]
    opts = [Option('o', Integer, default=0)]
    graph = Graph([
        GNode('N', [GField(f, Integer, values, options=opts)
                    for f in names] + [GLink('l', Sequence[TypeRef['N']],
                                             link, requires='f0')]),
        Root([GLink('ns', Sequence[TypeRef['N']], root, requires=None)])])
    if kind == 'requests':
        q = Node([Field('f0', {'o': x if i == k else -i}, 'z%d' % i)
                  for i in range(n)])
    else:
        q = Node([Field(f) for f in names])
    q = Node([Link('ns', q)])
    want = denormalize(graph, Engine(SyncExecutor()).execute(graph, q))
    plain = log[:]
    del log[:]
    rec = Recorder()
    out = apply(graph, [GraphMetrics('g', metric=rec)])
    got, err = attempt(lambda: denormalize(
        out, Engine(SyncExecutor()).execute(out, q)))
    s.check(err is None, 'executed', err)
    s.check(s.eq(got, want), 'the same result', (got, want))
    s.check(s.eq([list(r) for r in log], [list(r) for r in plain]),
            'the same calls', (log, plain))
    check_counts(s, rec.counts, log)
