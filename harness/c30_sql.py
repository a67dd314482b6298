"""C30: SQL sources give every object its own row."""
import asyncio
from symx.session import scenario
import sqlalchemy
from sqlalchemy import MetaData, Table, Column, Integer, Unicode, ForeignKey
from sqlalchemy import Float
from hiku.engine import Engine, Context
from hiku.executors.sync import SyncExecutor
from hiku.executors.asyncio import AsyncIOExecutor
from hiku.graph import Graph, Root, Node as GNode, Field as GField
from hiku.graph import Link as GLink, Nothing
from hiku.types import (TypeRef, Sequence, Optional, Integer as TInteger,
                        String as TString, Any as TAny)
from hiku.query import Node, Field, Link
from hiku.result import denormalize
from hiku.sources import sqlalchemy as blocking
from hiku.sources import sqlalchemy_async as asynchronous
from hiku.sources import aiopg
from harness.sizes import place
from harness.world import attempt
from harness import sqlstub

ASSUMPTIONS = [
    'the database evaluates the statements as modelled in harness/sqlstub.py '
    '(equality and IN never hold of nulls, duplicated columns are selected '
    'once), returns full chunks but the last, primary keys are unique',
    'columns of links to exactly one object hold no nulls',
    'several rows of one object for a link to one object: any of them',
]
BOUNDS = ('tables of up to 3 rows with symbolic keys and values (or null), '
          'up to 3 identifiers (repeated, missing or null), up to 3 requested '
          'columns with repetitions; chunks of 2 rows (and of 1 to 3 out of 4 '
          'rows) in the asynchronous variants; up to 257 rows and '
          'identifiers, one value symbolic, in chunks of the real size')

meta = MetaData()
foo = Table('foo', meta,
            Column('id', Integer, primary_key=True),
            Column('name', Unicode), Column('count', Integer),
            Column('bar_id', ForeignKey('bar.id')))
bar = Table('bar', meta,
            Column('id', Integer, primary_key=True),
            Column('type', Integer), Column('ratio', Float))
# columns which are not called as in the database
keyed = Table('keyed', meta,
              Column('pk', Integer, primary_key=True, key='id'),
              Column('name', Integer, key='count'),
              Column('count', Integer, key='name'),
              Column('own_bar', Integer, key='bar_id'))
pairs = Table('pairs', meta, Column('a', Integer, primary_key=True),
              Column('b', Integer, primary_key=True))
KEY = 'db'
MODULES = {'blocking': blocking, 'async': asynchronous, 'aiopg': aiopg}
CHUNKS = {k: getattr(m, 'FETCH_SIZE', None) for k, m in MODULES.items()}


def maybe_null(s, p, lo, hi):
    """An integer or null."""
    return None if s.choice(p + '.null', 2) else s.int(p, lo, hi)


def foo_rows(s, n, ids=(0, 2)):
    k = s.choice('rows', n + 1)
    rows = []
    for i in range(k):
        r = {'id': s.int('foo%d.id' % i, *ids),
             'name': s.int('foo%d.name' % i, 0, 9),
             'count': s.int('foo%d.count' % i, 0, 9),
             'bar_id': maybe_null(s, 'foo%d.bar' % i, *ids)}
        for x in rows:
            s.assume(s.not_(s.eq(x['id'], r['id'])))
        rows.append(r)
    return rows


class Env:
    """A variant of the sources with its kind of engine."""

    def __init__(self, s, kind, db, chunk=2):
        self.kind = kind
        self.chunk = chunk
        self.module = MODULES[kind]
        self.db = db
        if kind == 'blocking':
            self.engine = sqlstub.Blocking(db)
        else:
            self.engine = sqlstub.Async(db, self.wait)
        self.ctx = Context({KEY: self.engine})

    async def wait(self):
        await asyncio.sleep(0)

    def call(self, fn, *args):
        """Result of a loading function."""
        if self.kind == 'blocking':
            return fn(self.ctx, *args)
        self.module.FETCH_SIZE = self.chunk or CHUNKS[self.kind]
        lp = asyncio.new_event_loop()
        try:
            return lp.run_until_complete(fn(self.ctx, *args))
        finally:
            lp.close()

    def execute(self, graph, q):
        ctx = {KEY: self.engine}
        if self.kind == 'blocking':
            return Engine(SyncExecutor()).execute(graph, q, ctx)
        self.module.FETCH_SIZE = self.chunk or CHUNKS[self.kind]
        lp = asyncio.new_event_loop()
        try:
            asyncio.set_event_loop(lp)
            eng = Engine(AsyncIOExecutor(lp))
            return lp.run_until_complete(eng.execute(graph, q, ctx))
        finally:
            asyncio.set_event_loop(None)
            lp.close()


def rows_equal(s, got, want):
    got = [list(r) for r in got]
    return s.eq(got, want)


@scenario(params={'quick': {'rows': 2, 'ids': 2, 'fields': 2},
                  'thorough': {'rows': 3, 'ids': 3, 'fields': 3}},
          timeout=120)
def fields(s):
    """Fields of objects, called directly."""
    env = Env(s, s.pick('kind', tuple(MODULES)),
              sqlstub.Database(s, {foo: foo_rows(s, s.params['rows'])}))
    n = s.choice('ids', s.params['ids'] + 1)
    ids = [s.int('id%d' % i, 0, 2) for i in range(n)]
    if n and s.choice('null id', 2):
        ids[s.choice('null at', n)] = None
    m = 1 + s.choice('fields', s.params['fields'])
    fs = [Field(s.pick('f%d' % i, ('id', 'name', 'bar_id')),
                None, 'z%d' % i if s.choice('alias%d' % i, 2) else None)
          for i in range(m)]
    query = env.module.FieldsQuery(KEY, foo)
    got = env.call(query, fs, list(ids))
    want = []
    for i in ids:
        rows = [r for r in env.db.tables[foo]
                if i is not None and r['id'] == i]
        want.append([rows[0][f.name] if rows else None for f in fs])
    s.check(rows_equal(s, got, want), 'every object has its own row',
            (got, want))
    s.check(env.engine.opened == env.engine.closed, 'connections are closed')
    s.observe('got', [list(r) for r in got])


LINKS = {'one': lambda n: TypeRef[n], 'maybe': lambda n: Optional[TypeRef[n]],
         'many': lambda n: Sequence[TypeRef[n]]}


@scenario(params={'quick': {'rows': 2, 'ids': 2},
                  'thorough': {'rows': 3, 'ids': 3}}, timeout=120,
          covers=('error', 'result'))
def links(s):
    """Links between objects, called directly."""
    rows = foo_rows(s, s.params['rows'])
    env = Env(s, s.pick('kind', tuple(MODULES)),
              sqlstub.Database(s, {foo: rows}))
    a, b = s.pick('columns', (('bar_id', 'id'), ('id', 'name'),
                              ('id', 'bar_id'), ('count', 'count')))
    lk = s.pick('link', tuple(LINKS))
    query = env.module.LinkQuery(KEY, from_column=foo.c[a], to_column=foo.c[b])
    link = GLink('l', LINKS[lk]('N'), query, requires='a')
    graph = Graph([GNode('N', [GField('a', None, None), link]), Root([])])
    fn = graph.nodes_map['N'].fields_map['l'].func
    n = s.choice('ids', s.params['ids'] + 1)
    ids = [s.int('id%d' % i, 0, 2) for i in range(n)]
    if n and s.choice('null id', 2):
        ids[s.choice('null at', n)] = None
    got, err = attempt(lambda: env.call(fn, list(ids)))
    targets = [[r[b] for r in rows if i is not None and r[a] is not None
                and r[a] == i and r[b] is not None] for i in ids]
    s.check(env.engine.opened == env.engine.closed, 'connections are closed')
    if lk == 'one':
        # objects always have their target
        for r in rows:
            s.assume(r[b] is not None)
    if lk == 'one' and not all(targets):
        s.cover('error')
        s.check(err is not None, 'a missing target is an error', got)
        return
    s.check(err is None, 'no error', err)
    s.cover('result')
    if lk == 'many':
        s.check(s.eq([list(x) for x in got], targets),
                'all targets in the order of the rows', (got, targets))
    else:
        s.check(len(got) == len(ids), 'one answer for every object')
        for g, t in zip(got, targets):
            if t:
                s.check(s.any([s.eq(g, x) for x in t]), 'its own target',
                        (g, t))
            else:
                s.check(g is Nothing, 'nothing', g)
    s.observe('got', [x if x is not Nothing else None for x in got])


@scenario(params={'quick': {'rows': 4}, 'thorough': {'rows': 5}},
          timeout=120)
def chunks(s):
    """Rows which come in any number of chunks."""
    rows = [{'id': i, 'name': s.int('foo%d.name' % i, 0, 9), 'count': i,
             'bar_id': s.int('foo%d.bar' % i, 0, 1)}
            for i in range(s.choice('rows', s.params['rows'] + 1))]
    env = Env(s, s.pick('kind', ('async', 'aiopg')),
              sqlstub.Database(s, {foo: rows}),
              1 + s.choice('chunk', s.params['rows'] - 1))
    k = s.choice('query', 3)
    if k == 0:
        ids = [3, 0, 2, 1, 4][:1 + s.choice('ids', 5)]
        got = env.call(env.module.FieldsQuery(KEY, foo),
                       [Field('name'), Field('id')], list(ids))
        want = [[rows[i]['name'], i] if i < len(rows) else [None, None]
                for i in ids]
        s.check(rows_equal(s, got, want), 'every object has its own row',
                (got, want))
        return
    # objects which lead to several rows, or each to one of them
    a, b = (('bar_id', 'id'), ('id', 'name'))[k - 1]
    link = GLink('l', LINKS['many' if k == 1 else 'maybe']('N'),
                 env.module.LinkQuery(KEY, from_column=foo.c[a],
                                      to_column=foo.c[b]), requires='a')
    graph = Graph([GNode('N', [GField('a', None, None), link]), Root([])])
    ids = [1, 0] if k == 1 else [3, 0, 2, 1]
    got = env.call(graph.nodes_map['N'].fields_map['l'].func, list(ids))
    if k == 1:
        want = [[r[b] for r in rows if r[a] == i] for i in ids]
        got = [list(x) for x in got]
    else:
        want = [rows[i][b] if i < len(rows) else None for i in ids]
        got = [None if x is Nothing else x for x in got]
    s.check(s.eq(got, want), 'all targets in the order of the rows',
            (got, want))


def make_graph(env, root_ids):
    foo_q = env.module.FieldsQuery(KEY, foo)
    bar_q = env.module.FieldsQuery(KEY, bar)
    to_foo = env.module.LinkQuery(KEY, from_column=foo.c.bar_id,
                                  to_column=foo.c.id)
    to_bar = env.module.LinkQuery(KEY, from_column=bar.c.id,
                                  to_column=bar.c.id)

    def roots():
        return list(root_ids)

    async def aroots():
        return list(root_ids)
    return Graph([
        GNode('foo', [GField(n, None, foo_q)
                      for n in ('id', 'name', 'count', 'bar_id')] +
              [GLink('bar', Optional[TypeRef['bar']], to_bar,
                     requires='bar_id')]),
        GNode('bar', [GField(n, None, bar_q) for n in ('id', 'type',
                                                       'ratio')] +
              [GLink('foos', Sequence[TypeRef['foo']], to_foo,
                     requires='id')]),
        Root([GLink('foos', Sequence[TypeRef['foo']],
                    roots if env.kind == 'blocking' else aroots,
                    requires=None)]),
    ])


@scenario(params={'quick': {'rows': 2, 'ids': 2},
                  'thorough': {'rows': 3, 'ids': 2}}, timeout=120)
def through_the_engine(s):
    """Two tables with links between them, in a query."""
    ids = (0, 1)
    foos = foo_rows(s, s.params['rows'], ids)
    bars = []
    for i in range(s.choice('bars', 3)):
        bars.append({'id': i, 'type': s.int('bar%d.type' % i, 0, 9),
                     'ratio': i})
    env = Env(s, s.pick('kind', tuple(MODULES)),
              sqlstub.Database(s, {foo: foos, bar: bars}))
    n = s.choice('ids', s.params['ids'] + 1)
    root_ids = [s.int('id%d' % i, *ids) for i in range(n)]
    graph = make_graph(env, root_ids)
    q = Node([Link('foos', Node([
        Field('name'), Link('bar', Node([
            Field('type'), Link('foos', Node([Field('count')]))])),
        Field('bar_id', None, 'b')]))])
    got = denormalize(graph, env.execute(graph, q))

    def find(rows, key, v):
        return [r for r in rows if v is not None and r[key] is not None
                and r[key] == v]
    want = []
    for i in root_ids:
        fr = find(foos, 'id', i)
        b = None
        name = bar_id = None
        if fr:
            name, bar_id = fr[0]['name'], fr[0]['bar_id']
            for br in find(bars, 'id', bar_id):
                b = {'type': br['type'], 'foos': [
                    {'count': r['count']}
                    for r in find(foos, 'bar_id', br['id'])]}
        want.append({'name': name, 'bar': b, 'b': bar_id})
    s.check(s.eq(got, {'foos': want}), 'the result is the one of the tables',
            (got, want))
    s.observe('got', got)


@scenario()
def other_sources(s):
    """Joins and aliases of tables, and other keys."""
    foos = foo_rows(s, 2, (0, 1))
    bars = [{'id': 0, 'type': s.int('type0', 0, 9), 'ratio': 1},
            {'id': 1, 'type': s.int('type1', 0, 9), 'ratio': 2}]
    env = Env(s, s.pick('kind', tuple(MODULES)),
              sqlstub.Database(s, {foo: foos, bar: bars, keyed: foos}))
    k = s.choice('source', 6)
    if k == 0:
        src, pk, names = foo.alias('x'), None, ('count', 'id')
    elif k == 1:
        src = foo.join(bar, foo.c.bar_id == bar.c.id)
        pk, names = foo.c.id, ('foo_name', 'bar_type')
    elif k == 2:
        src = foo.outerjoin(bar, foo.c.bar_id == bar.c.id)
        pk, names = foo.c.id, ('foo_count', 'bar_type')
    elif k == 4:
        src = foo.join(bar, foo.c.bar_id == bar.c.id)
        pk, names = foo.c.id, ('bar_id', 'foo_id')
    elif k == 5:
        src, pk, names = keyed, None, ('name', 'count')
    else:
        src, pk, names = foo, foo.c.count, ('name', 'id')
        for r in foos[1:]:
            s.assume(s.not_(s.eq(r['count'], foos[0]['count'])))
    query = (env.module.FieldsQuery(KEY, src) if pk is None else
             env.module.FieldsQuery(KEY, src, primary_key=pk))
    ids = [s.int('id%d' % i, 0, 1) for i in range(2)]
    got = env.call(query, [Field(n) for n in names], ids)
    want = []
    for i in ids:
        row = [None, None]
        for r in foos:
            if not r['count' if k == 3 else 'id'] == i:
                continue
            b = [x for x in bars if r['bar_id'] is not None
                 and r['bar_id'] == x['id']]
            t = b[0]['type'] if b else None
            if k == 0:
                row = [r['count'], r['id']]
            elif k == 1 and b:
                row = [r['name'], t]
            elif k == 2:
                row = [r['count'], t]
            elif k == 4 and b:
                row = [b[0]['id'], r['id']]
            elif k == 5:
                row = [r['name'], r['count']]
            elif k == 3:
                row = [r['name'], r['id']]
        want.append(row)
    s.check(rows_equal(s, got, want), 'the row of the object', (got, want))


@scenario()
def keyed_links(s):
    """Links over columns which have another name in the database."""
    rows = foo_rows(s, 2, (0, 1))
    env = Env(s, s.pick('kind', tuple(MODULES)),
              sqlstub.Database(s, {keyed: rows}))
    a, b = s.pick('columns', (('bar_id', 'id'), ('id', 'name')))
    link = GLink('l', LINKS['many']('N'), env.module.LinkQuery(
        KEY, from_column=keyed.c[a], to_column=keyed.c[b]), requires='a')
    graph = Graph([GNode('N', [GField('a', None, None), link]), Root([])])
    ids = [s.int('id%d' % i, 0, 1) for i in range(2)]
    got = env.call(graph.nodes_map['N'].fields_map['l'].func, list(ids))
    want = [[r[b] for r in rows if r[a] is not None and r[a] == i]
            for i in ids]
    s.check(s.eq([list(x) for x in got], want), 'all targets', (got, want))


@scenario()
def types(s):
    """Types of fields are those of the columns, unless they are declared."""
    mod = MODULES[s.pick('kind', tuple(MODULES))]
    q1, q2 = mod.FieldsQuery(KEY, foo), mod.FieldsQuery(KEY, bar)
    given = s.pick('given', (None, TString, TAny))
    name = s.pick('column', ('id', 'name', 'count', 'type', 'ratio'))
    q = q2 if name in ('type', 'ratio') else q1
    graph = Graph([GNode('N', [GField(name, given, q)]), Root([])])
    t = graph.nodes_map['N'].fields_map[name].type
    want = given
    if want is None:
        want = {'id': TInteger, 'name': TString, 'count': TInteger,
                'type': TInteger, 'ratio': None}[name]
    s.check(t is want, 'type', (t, want))
    _, err = attempt(lambda: mod.LinkQuery(KEY, from_column=foo.c.id,
                                           to_column=bar.c.id))
    s.check(isinstance(err, ValueError), 'columns of different tables', err)
    # one column alone would not tell the objects apart
    _, err = attempt(lambda: mod.FieldsQuery(KEY, pairs))
    s.check(err is not None, 'a primary key of two columns', err)
    _, err = attempt(lambda: mod.FieldsQuery(KEY, pairs,
                                             primary_key=pairs.c.a))
    s.check(err is None, 'the column which is chosen', err)


@scenario()
def large(s):
    """Many rows, in chunks as they really are."""
    n = s.pick('rows', (1, 99, 100, 101, 200, 201, 257))
    m = s.pick('ids', (1, 257))
    k = place(s, 'place', n)
    lost = s.pick('lost', (None, n - 1))
    rows = [{'id': i, 'name': 1000 + i, 'count': i % 3, 'bar_id': i // 2}
            for i in range(n) if i != lost]
    for r in rows:
        if r['id'] == k:
            r['name'] = s.int('name', 0, 99)
    by_id = dict([(r['id'], r) for r in rows])
    env = Env(s, s.pick('kind', tuple(MODULES)),
              sqlstub.Database(s, {foo: rows}), None)
    # each identifier once, or several times
    distinct = s.pick('distinct', (263, 131, 61)) if m > 1 else 263
    ids = [(7 * i + k) % distinct for i in range(m)]
    q = s.pick('query', ('fields', 'maybe', 'many'))
    if q == 'fields':
        got = env.call(env.module.FieldsQuery(KEY, foo),
                       [Field('name'), Field('id')], list(ids))
        want = [[by_id[i]['name'], i] if i in by_id else [None, None]
                for i in ids]
        s.check(rows_equal(s, got, want), 'every object has its own row')
        return
    a, b = ('id', 'name') if q == 'maybe' else ('bar_id', 'id')
    link = GLink('l', LINKS[q]('N'),
                 env.module.LinkQuery(KEY, from_column=foo.c[a],
                                      to_column=foo.c[b]), requires='a')
    graph = Graph([GNode('N', [GField('a', None, None), link]), Root([])])
    got = env.call(graph.nodes_map['N'].fields_map['l'].func, list(ids))
    if q == 'many':
        want = [[r[b] for r in rows if r[a] == i] for i in ids]
        got = [list(x) for x in got]
    else:
        want = [by_id[i][b] if i in by_id else None for i in ids]
        got = [None if x is Nothing else x for x in got]
    s.check(s.eq(got, want), 'all targets in the order of the rows')


@scenario()
def repeated_pairs(s):
    """A table of pairs which may hold a pair several times, anywhere."""
    n = s.pick('rows', (2, 3, 4))
    rows = [{'id': i, 'name': s.int('to%d' % i, 0, 2), 'count': 0,
             'bar_id': s.int('from%d' % i, 0, 1)} for i in range(n)]
    env = Env(s, s.pick('kind', tuple(MODULES)),
              sqlstub.Database(s, {foo: rows}))
    a, b = foo.c.bar_id, foo.c.name
    link = GLink('l', LINKS['many']('N'), env.module.LinkQuery(
        KEY, from_column=a, to_column=b), requires='a')
    graph = Graph([GNode('N', [GField('a', None, None), link]), Root([])])
    ids = [0, 1] if s.choice('order', 2) else [1, 0]
    got = env.call(graph.nodes_map['N'].fields_map['l'].func, list(ids))
    want = [[r['name'] for r in rows if r['bar_id'] == i] for i in ids]
    s.check(s.eq([list(x) for x in got], want),
            'all targets in the order of the rows', (got, want))


@scenario()
def target_of_several(s):
    """A link to at most one object, where a key may have several rows, some
    of them with nulls."""
    n = s.pick('rows', (1, 2, 3))
    rows = [{'id': i, 'name': maybe_null(s, 'to%d' % i, 0, 2), 'count': 0,
             'bar_id': s.int('from%d' % i, 0, 1)} for i in range(n)]
    env = Env(s, s.pick('kind', tuple(MODULES)),
              sqlstub.Database(s, {foo: rows}))
    link = GLink('l', LINKS['maybe']('N'), env.module.LinkQuery(
        KEY, from_column=foo.c.bar_id, to_column=foo.c.name), requires='a')
    graph = Graph([GNode('N', [GField('a', None, None), link]), Root([])])
    ids = [1, 0, 1]
    got = env.call(graph.nodes_map['N'].fields_map['l'].func, list(ids))
    s.check(len(got) == len(ids), 'a result for every key', got)
    for i, x in zip(ids, got):
        found = [r['name'] for r in rows
                 if r['bar_id'] == i and r['name'] is not None]
        if found:
            s.check(x is not Nothing and s.any([s.eq(x, v) for v in found]),
                    'one of the targets', (i, x, found))
        else:
            s.check(x is Nothing, 'no target', (i, x))
