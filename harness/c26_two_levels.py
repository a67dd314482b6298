"""C26: two-level graphs compute fields from the data of the lower graph."""
from symx.session import scenario
from harness import sched
from hiku.engine import Engine
from hiku.executors.sync import SyncExecutor
from hiku.executors.asyncio import AsyncIOExecutor
from hiku.executors.threads import ThreadsExecutor
from hiku.graph import (Graph, Root, Node as GNode, Field as GField,
                        Link as GLink, Option, Nothing)
from hiku.query import Node, Field, Link
from hiku.result import denormalize
from hiku.sources.graph import SubGraph
from hiku.expr.core import S, each, if_some
from hiku.types import TypeRef, Sequence, Optional, Record, Integer, Any
from harness.world import attempt
from harness.sizes import SIZES, WIDE, place
from harness.exprs import (Gen, Functions, to_hiku, evaluate, low_graph,
                           SCHEMA)

ASSUMPTIONS = ['resolver and defined functions are functions of what they '
               'read']
BOUNDS = ('up to 2 computed fields (thorough: 3) out of 14 and chains of 2 '
          'constructs, up to 2 identifiers (thorough: 3) with repetitions, '
          'lower-level sequences of up to 2 items, lower-level calls which '
          'complete in any order; up to 257 objects or 65 computed fields '
          'with one symbolic value')

IDS = (0, 2)


class Low:
    """Data of the lower graph, functions of the identifier."""

    def __init__(self, s, max_len=1, wrap=None, ids=IDS, fixed=False):
        self.s = s
        self.max_len = max_len
        self.calls = []
        self.wrap = wrap or (lambda fn, name: fn)
        self.ids = ids
        self.fixed = fixed

    def value(self, node, name, i):
        """Value of a field; links give identifiers."""
        s = self.s
        kind = SCHEMA[node][name] if name != 'id' else 'id'
        key = (node, name, i)
        if kind == 'id':
            return i
        if kind == 'int':
            return s.uf('v', *key, lo=0, hi=3)
        lo, hi = self.ids
        if self.fixed:
            # the shape of the data does not vary
            if kind in ('ints', 'seq T'):
                n = 1
            elif kind.startswith('opt'):
                n = i % 2
            else:
                n = 1
            to = [lo + (i + 1) % (hi - lo + 1)]
        elif kind.startswith('rec'):
            n, to = 1, [s.uf('to', *key, 0, lo=lo, hi=hi)]
        elif kind.startswith('opt'):
            n = s.concrete(s.uf('some', *key, lo=0, hi=1))
            to = [s.uf('to', *key, 0, lo=lo, hi=hi)]
        else:
            n = s.concrete(s.uf('len', *key, lo=0, hi=self.max_len))
            to = [s.uf('to', *key, k, lo=lo, hi=hi) for k in range(n)]
        if kind == 'ints':
            return [s.uf('item', *key, k, lo=0, hi=3) for k in range(n)]
        k, t = kind.split()
        if (node, name) in self.links():
            if k == 'rec':
                return to[0]
            if k == 'opt':
                return to[0] if n else Nothing
            return to

        def record(j):
            return {f: s.uf('t', *key, f, j, lo=0, hi=3) for f in 'ab'}
        if k == 'rec':
            return record(0)
        if k == 'opt':
            return record(0) if n else None
        return [record(j) for j in range(n)]

    @staticmethod
    def links():
        from harness.exprs import LINKS
        return LINKS

    def graph(self):
        made = {}

        def load(node, name):
            link = (node, name) in self.links()
            group = (node, name if link or name in 'bu' else '')
            if group in made:
                return made[group]
            if link and node == 'root':
                def fn():
                    self.calls.append((group, None))
                    return self.value('root', name, -1)
            elif link:
                def fn(ids):
                    self.calls.append((group, list(ids)))
                    return [self.value(node, name, i) for i in ids]
            elif node == 'root':
                def fn(fields):
                    self.calls.append((group, None))
                    return [self.value('root', f.name, -1) for f in fields]
            else:
                def fn(fields, ids):
                    self.calls.append((group, list(ids)))
                    return [[self.value(node, f.name, i) for f in fields]
                            for i in ids]
            made[group] = self.wrap(fn, '%s%s' % group)
            return made[group]
        return low_graph(load)

    def obj(self, node, i):
        return Obj(self, node, i)


class Obj:
    """An object of the lower graph, as expressions see it."""

    def __init__(self, low, node, i):
        self.low = low
        self.node = node
        self.i = i

    def __getitem__(self, name):
        v = self.low.value(self.node, name, self.i)
        if (self.node, name) not in Low.links():
            return v
        t = SCHEMA[self.node][name].split()[1]
        if v is Nothing:
            return None
        if isinstance(v, list):
            return [Obj(self.low, t, j) for j in v]
        return Obj(self.low, t, v)


def this(*names):
    e = ('var', 'this')
    for n in names:
        e = ('get', e, n)
    return e


POOL = {
    'a': this('a'),
    'rb': this('r', 'b'),
    'fx': ('call', 'g', [('var', 'x'), this('b')]),
    'ya': ('get', ('var', 'y'), 'a'),
    'l': ('each', 'v', this('l'), ('get', ('var', 'v'), 'a')),
    'lx': ('each', 'x', this('l'), ('call', 'g', [
        ('get', ('var', 'x'), 'b'), this('a')])),
    'q': ('some', 'v', this('q'), ('get', ('var', 'v'), 'a'), this('b')),
    'u': ('some', 'v', this('u'), ('call', 'h', [('var', 'v')]),
          ('lit', None)),
    'h': ('call', 'h', [this('r', 'n')]),
    'w': ('call', 'w', [this('q')]),
    'j': ('call', 'j', [this('l'), this('a')]),
    't': ('each', 'this', this('t'), ('get', ('var', 'this'), 'a')),
    'd': ('dict', [('k', ('if', this('a'), this('e', 'b'), ('lit', 1)))]),
    's': ('list', [this('s'), this('e', 'a')]),
}


def upper_graph(low, asts, fns, ids, wrap=None):
    """Upper graph with computed fields."""
    wrap = wrap or (lambda fn, name: fn)
    sg = SubGraph(low.graph(), 'N')

    def own(fields, ids):
        return [[low.s.uf('own', f.name, i, lo=0, hi=9) for f in fields]
                for i in ids]

    def ns():
        return list(ids)
    return Graph([
        GNode('N', [GField(n, None, sg.c(to_hiku(e, fns.fns)), options=[
            Option(o, Integer, default=7) for o in opts] or None)
            for n, (e, opts) in asts.items()] +
            [GField('a', None, sg), GField('b', None, sg),
             GField('own', Integer, wrap(own, 'own'))]),
        Root([GLink('ns', Sequence[TypeRef['N']], wrap(ns, 'ns'),
                    requires=None)]),
    ])


def wanted(low, asts, fns, ids, items):
    out = []
    for i in ids:
        row = {}
        for q in items:
            if q.name == 'own':
                v = low.s.uf('own', 'own', i, lo=0, hi=9)
            elif q.name in 'ab':
                v = low.value('N', q.name, i)
            else:
                e, opts = asts[q.name]
                given = q.options or {}
                scope = {o: given.get(o, 7) for o in opts}
                scope['this'] = low.obj('N', i)
                v = evaluate(e, scope, low.obj('root', -1), fns.fns)
            row[q.result_key] = fns.flat(v)
        out.append(row)
    return out


def answers(graph, res, fns):
    got = denormalize(graph, res)['ns']
    return [{k: fns.flat(v) for k, v in row.items()} for row in got]


def root_ids(s, n):
    return [s.int('id%d' % i, *IDS) for i in range(s.choice('ids', n + 1))]


def ask_once(s, low, ids):
    """Lower-level objects are loaded once, all of them."""
    direct = [c for c in low.calls if c[0][0] == 'N' and c[0][1] in
              ('b', 'u', 'l', 'q', 'r')]
    for name in ('b', 'u', 'l', 'q', 'r'):
        calls = [c for c in direct if c[0][1] == name]
        s.check(len(calls) <= 1, 'the lower graph is asked once',
                (name, calls))
        for c in calls:
            s.check(s.eq(c[1], list(ids)), 'for all of the objects',
                    (c, ids))


# fields whose evaluation leads back to objects of the same node
BACK = ('h',)


@scenario(params={'quick': {'fields': 2, 'ids': 2, 'len': 1},
                  'thorough': {'fields': 3, 'ids': 2, 'len': 2}},
          timeout=300)
def pool(s):
    """Several computed and other fields of several objects."""
    fns = Functions(s)
    low = Low(s, s.params['len'], ids=(0, 1))
    ids = [s.int('id%d' % i, 0, 1)
           for i in range(s.choice('ids', s.params['ids'] + 1))]
    names = sorted(POOL)
    picked = [s.pick('f0', names)]
    picked.append(s.pick('f1', [n for n in names if n >= picked[0]]))
    if s.params['fields'] > 2:
        picked.append('own')
    asts = {'f%d' % i: (POOL[n], ()) for i, n in enumerate(picked)
            if n != 'own'}
    items = [Field('f0'), Field('f1', None, 'x'), Field('own'),
             Field('a', None, 'z')]
    if s.choice('order', 2):
        items.reverse()
    graph = upper_graph(low, asts, fns, ids)
    res = Engine(SyncExecutor()).execute(
        graph, Node([Link('ns', Node(items))]))
    calls = list(low.calls)
    got = answers(graph, res, fns)
    want = wanted(low, asts, fns, ids, items)
    s.check(s.eq(got, want), 'the values of every object', (got, want))
    if not set(picked) & set(BACK):
        low.calls = calls
        ask_once(s, low, ids)
    s.observe('got', got)


@scenario(params={'quick': {'depth': 2}, 'thorough': {'depth': 3}},
          timeout=300)
def generated(s):
    """Any expression, for one object."""
    fns = Functions(s)
    low = Low(s, 1, ids=(0, 1), fixed=s.params['depth'] > 2)
    gen = Gen(s, ('v',), ('some', 'each', 'call', 'if'))
    scope = {n: k for n, k in SCHEMA['root'].items() if n in 'xo'}
    scope['this'] = 'rec N'
    ast = gen.gen(s.params['depth'], scope)
    asts = {'f0': (ast, ())}
    graph = upper_graph(low, asts, fns, [1])
    items = [Field('f0')]
    res = Engine(SyncExecutor()).execute(
        graph, Node([Link('ns', Node(items))]))
    got = answers(graph, res, fns)
    want = wanted(low, asts, fns, [1], items)
    s.check(s.eq(got, want), 'the value', (ast, got, want))


@scenario()
def options(s):
    """Options of computed fields: given or not, the same field several
    times, names of root fields and of variables."""
    fns = Functions(s)
    low = Low(s, 1, ids=(0, 1))
    name = s.pick('option', ('p', 'x', 'v', 'ctx', 'env', 'a'))
    e1 = ('call', 'g', [('var', name), this('a')])
    e2 = ('each', 'v', this('l'), ('call', 'g', [
        ('var', name), ('get', ('var', 'v'), 'a')]))
    if name == 'v':
        e2 = ('each', 'v2', this('l'), ('list', [
            ('var', 'v'), ('get', ('var', 'v2'), 'a')]))
    e3 = ('list', [('var', 'x'), ('get', ('var', 'y'), 'b')])
    k = s.choice('expr', 2)
    asts = {'f0': ((e1, e2)[k], (name,)), 'f1': (e3, ())}
    items = [Field('f1')]
    for i in range(2):
        opts = None
        if s.choice('given%d' % i, 2):
            opts = {name: s.int('opt%d' % i, 0, 9)}
        items.append(Field('f0', opts, 'k%d' % i))
    ids = [s.int('id%d' % i, 0, 1) for i in range(2)]
    graph = upper_graph(low, asts, fns, ids)
    res = Engine(SyncExecutor()).execute(
        graph, Node([Link('ns', Node(items))]))
    got = answers(graph, res, fns)
    want = wanted(low, asts, fns, ids, items)
    s.check(s.eq(got, want), 'the values with their own options',
            (got, want))


@scenario()
def several_options(s):
    """Fields with several options, in any order of declaration; what an
    option hides is not loaded."""
    fns = Functions(s)
    low = Low(s, 1, ids=(0, 1), fixed=True)
    names = ['x', 'p', 'b']
    order = [names.pop(s.choice('o%d' % i, 3 - i)) for i in range(3)]
    e = ('list', [('var', 'p'), ('var', 'b'), ('call', 'g', [
        ('var', 'x'), this('a')])])
    asts = {'f0': (e, tuple(order)),
            'f1': (('list', [('var', 'q'), this('b')]), ('q',))}
    items = []
    for i in range(2):
        opts = {o: s.int('v%d.%s' % (i, o), 0, 9) for o in 'xpb'
                if (s.choice('given.' + o, 2) if i == 0 else o != 'p')}
        items.append(Field('f0', opts or None, 'k%d' % i))
    items.insert(s.choice('at', 3), Field('f1', {'q': s.int('q', 0, 9)}))
    ids = [0, 1]
    graph = upper_graph(low, asts, fns, ids)
    res = Engine(SyncExecutor()).execute(
        graph, Node([Link('ns', Node(items))]))
    got = answers(graph, res, fns)
    want = wanted(low, asts, fns, ids, items)
    s.check(s.eq(got, want), 'the values with their own options',
            (got, want))
    s.check(not [c for c in low.calls if c[0][0] == 'root'],
            'hidden fields of the root are not loaded', low.calls)


@scenario(params={'quick': {'batch': 1, 'more': False},
                  'thorough': {'batch': 2, 'more': True}}, timeout=300)
def schedules(s):
    """Calls of both levels complete in any order."""
    fns = Functions(s)
    kind = s.pick('executor', ('asyncio', 'threads'))
    ids = [0, 1, 0]
    pairs = (('q', 'l'), ('fx', 'u'), ('w', 'rb'))
    if s.params['more']:
        pairs += (('j', 'd'), ('h', 'ya'))
    names = s.pick('fields', pairs)
    asts = {'f%d' % i: (POOL[n], ()) for i, n in enumerate(names)}
    items = [Field('f0'), Field('own'), Field('f1')]
    q = Node([Link('ns', Node(items))])
    if kind == 'asyncio':
        lp = sched.Loop(s, batch=s.params['batch'])
        low = Low(s, 1, lp.gated, ids=(0, 1), fixed=True)
        graph = upper_graph(low, asts, fns, ids, lp.gated)
        status, res = lp.run(Engine(AsyncIOExecutor(lp.loop)).execute(
            graph, q))
        s.check(status == 'ok', 'executed', (status, res))
    else:
        low = Low(s, 1, ids=(0, 1), fixed=True)
        graph = upper_graph(low, asts, fns, ids)
        p = sched.StubPool(s, batch=s.params['batch'])
        with sched.active(p):
            res = Engine(ThreadsExecutor(p)).execute(graph, q)
    got = answers(graph, res, fns)
    want = wanted(low, asts, fns, ids, items)
    s.check(s.eq(got, want), 'the values of every object', (got, want))


@scenario()
def several_graphs(s):
    """Fields of several lower graphs in one node, and three levels."""
    fns = Functions(s)
    n1, n2 = s.pick('first', ('a', 'q', 'l')), s.pick('second', ('rb', 'w'))
    ids = [s.int('id%d' % i, 0, 1) for i in range(2)]
    low1 = Low(s, 1, ids=(0, 1))
    other = SubGraph(low1.graph(), 'N')
    mids = {'m0': (POOL[n1], ()), 'm1': (POOL[n2], ())}
    middle = upper_graph(low1, mids, fns, ids)
    second = SubGraph(middle, 'N')
    top = Graph([
        GNode('N', [
            GField('f0', None, second.c(to_hiku(
                ('list', [this('m0'), this('own')]), fns.fns))),
            GField('m1', None, second),
            GField('f2', None, other.c(to_hiku(POOL[n1], fns.fns)))]),
        Root([GLink('ns', Sequence[TypeRef['N']], lambda: list(ids),
                    requires=None)])])
    items = [Field('f0'), Field('f2'), Field('m1')]
    res = Engine(SyncExecutor()).execute(
        top, Node([Link('ns', Node(items))]))
    got = answers(top, res, fns)
    want = []
    for i in ids:
        scope = {'this': low1.obj('N', i)}
        root = low1.obj('root', -1)
        v1 = fns.flat(evaluate(POOL[n1], scope, root, fns.fns))
        v2 = fns.flat(evaluate(POOL[n2], scope, root, fns.fns))
        want.append({'f0': [v1, s.uf('own', 'own', i, lo=0, hi=9)],
                     'f2': v1, 'm1': v2})
    s.check(s.eq(got, want), 'the values of every object', (got, want))


@scenario(covers=('refused',))
def defaults(s):
    """Fields and links of the lower graph with options get the defaults;
    those without a default can not be read."""
    fns = Functions(s)
    ids = [s.int('id%d' % i, 0, 1) for i in range(2)]
    dflt = s.pick('default', (0, 5, None, Nothing))
    where = s.pick('where', ('this', 'link', 'root', 'below'))
    seen = []

    def option(at):
        if at == where:
            return [Option('o', None, default=dflt)]
        return [Option('o', None, default=3)]

    def load(at):
        def fn(fields, ids):
            for f in fields:
                seen.append((at, f.options))
            return [[s.uf(at, i) for _ in fields] for i in ids]
        return fn

    def link(ids, opts):
        seen.append(('link', opts))
        return list(ids)

    def root(fields):
        for f in fields:
            seen.append(('root', f.options))
        return [s.uf('root') for _ in fields]
    low = Graph([
        GNode('N', [GField('c', Integer, load('this'),
                           options=option('this')),
                    GField('id', None, lambda fs, ids: [[i] for i in ids]),
                    GLink('m', TypeRef['M'], link, requires='id',
                          options=option('link'))]),
        GNode('M', [GField('c', Integer, load('below'),
                           options=option('below'))]),
        Root([GField('d', Integer, root, options=option('root'))])])
    sg = SubGraph(low, 'N')
    upper = Graph([
        GNode('N', [GField('f0', None, sg.c([S.this.c, S.this.m.c, S.d]))]),
        Root([GLink('ns', Sequence[TypeRef['N']], lambda: list(ids),
                    requires=None)])])
    got, err = attempt(lambda: denormalize(upper, Engine(
        SyncExecutor()).execute(upper, Node([Link('ns', Node([
            Field('f0')]))]))))
    if dflt is Nothing:
        s.cover('refused')
        s.check(isinstance(err, TypeError), 'a required option', err)
        return
    s.check(err is None, 'no error', err)
    s.check(s.eq(got, {'ns': [{'f0': [s.uf('this', i), s.uf('below', i),
                                      s.uf('root')]} for i in ids]}),
            'the values', got)
    for at, o in seen:
        s.check(s.eq(o, {'o': dflt if at == where else 3}), 'defaults',
                (at, o))
    s.check({at for at, _ in seen} == {'this', 'link', 'root', 'below'},
            'everything is loaded', seen)


@scenario()
def large(s):
    """Many objects and many computed fields."""
    fns = Functions(s)
    kind = s.pick('kind', ('objects', 'fields'))
    n = s.pick('size', [i for i in SIZES if i < 300] if kind == 'objects'
               else (1, 9, 33, 65))
    exprs = {'f0': ('call', 'g', [this('a'), this('e', 'b')]),
             'f1': ('list', [this('r', 'a'), ('var', 'x')]),
             'f2': ('if', ('lit', True), this('b'), ('lit', 0))}

    class Plain(Low):
        """Values are computed, one is any."""
        def value(self, node, name, i):
            kd = SCHEMA[node][name] if name != 'id' else 'id'
            if kd == 'id':
                return i
            if kd == 'int':
                if i == odd and name == 'a':
                    return x
                return 3 * i + len(name)
            if kd == 'rec M':
                return i
            if kd == 'rec T':
                return {'a': i, 'b': i + 1}
            raise AssertionError(kd)
    x = s.int('x', 0, 9)
    odd = None
    low = Plain(s)
    if kind == 'objects':
        ids = [7 * i % 263 for i in range(n)]
        if n:
            k = place(s, 'place', n)
            odd = ids[k]
            if n > 1:
                ids[n - 1 - k] = ids[k]
        asts = dict([(f, (e, ())) for f, e in exprs.items()])
        items = [Field(f) for f in asts]
    else:
        odd = 2
        ids = [1, 2]
        asts = dict([('c%d' % i, (exprs['f%d' % (i % 3)], ()))
                     for i in range(n)])
        items = [Field(f) for f in asts]
    graph = upper_graph(low, asts, fns, ids)
    res = Engine(SyncExecutor()).execute(
        graph, Node([Link('ns', Node(items))]))
    calls = list(low.calls)
    got = answers(graph, res, fns)
    want = wanted(low, asts, fns, ids, items)
    s.check(s.eq(got, want), 'the values of every object')
    low.calls = calls
    ask_once(s, low, ids)


class Values(dict):
    """A record given as an option."""


@scenario()
def records_in_options(s):
    """Options which are records or sequences of them, with the names of
    fields, links and complex fields of the root or with their own."""
    name = s.pick('option', ('p', 'a', 'x', 'y', 'z', 'r'))
    kind = s.pick('kind', ('record', 'complex', 'sequence', 'optional'))
    calls = []
    rec = Record[{'a': Integer, 'b': Integer}]
    typ = {'record': rec, 'complex': TypeRef['T'],
           'sequence': Sequence[TypeRef['T']],
           'optional': Optional[rec]}[kind]

    def load(fields, ids):
        calls.append([f.name for f in fields])
        return [[s.uf('v', f.name, i, lo=0, hi=3) for f in fields]
                for i in ids]

    def hidden(*args):
        raise AssertionError('is not needed')

    def root(fields):
        for f in fields:
            s.check(f.name == 'w', 'only what is needed is loaded', f.name)
        return [s.uf('root', lo=0, hi=3) for _ in fields]
    low = Graph([
        GNode('N', [GField(n, Integer, load) for n in 'ab']),
        Root([GField('x', Integer, root), GField('y', TypeRef['T'], root),
              GLink('z', Sequence[TypeRef['N']], hidden, requires=None),
              GLink('r', TypeRef['N'], hidden, requires=None),
              GField('w', Integer, root)])],
        data_types={'T': rec})
    sg = SubGraph(low, 'N')
    o = getattr(S, name)
    if kind in ('record', 'complex'):
        expr = [o.a, S.this.b, o.b, S.w]
    elif kind == 'sequence':
        expr = [each(S.v, o, [S.v.b, S.this.a]), S.w]
    else:
        expr = if_some([S.v, o], [S.v.a, S.w], [S.this.b])
    upper = Graph([
        GNode('N', [GField('f0', None, sg.c(expr),
                           options=[Option(name, typ)])]),
        Root([GLink('ns', Sequence[TypeRef['N']], lambda: [1, 2],
                    requires=None)])])
    value = Values(a=s.int('a', 0, 3), b=s.int('b', 0, 3))
    if kind == 'sequence':
        value = [value] * s.choice('len', 3)
    elif kind == 'optional' and s.choice('none', 2):
        value = None
    got, err = attempt(lambda: denormalize(upper, Engine(
        SyncExecutor()).execute(upper, Node([Link('ns', Node([
            Field('f0', {name: value})]))]))))
    s.check(err is None, 'executed', err)
    want = []
    for i in (1, 2):
        a, b = [s.uf('v', n, i, lo=0, hi=3) for n in 'ab']
        w = s.uf('root', lo=0, hi=3)
        if kind == 'sequence':
            v = [[[x['b'], a] for x in value], w]
        elif kind == 'optional':
            v = [b] if value is None else [value['a'], w]
        else:
            v = [value['a'], b, value['b'], w]
        want.append({'f0': v})
    s.check(s.eq(got, {'ns': want}), 'the values', (got, want))


@scenario()
def many_reads(s):
    """Expressions which read many things of both kinds."""
    n = s.pick('size', WIDE)
    k = place(s, 'place', n)
    x = s.int('x', 0, 9)
    calls = []

    def value(at, i, j):
        return x if (i == 1 or at == 'root') and j == k else (i, j)

    def load(fields, ids):
        calls.append(('node', [f.name for f in fields]))
        return [[value('node', i, int(f.name[1:])) for f in fields]
                for i in ids]

    def root(fields):
        calls.append(('root', [f.name for f in fields]))
        return [value('root', -1, int(f.name[1:])) for f in fields]
    low = Graph([
        GNode('N', [GField('f%d' % j, Any, load) for j in range(n)]),
        Root([GField('r%d' % j, Any, root) for j in range(n)])])
    sg = SubGraph(low, 'N')
    a = [getattr(S.this, 'f%d' % j) for j in range(n)]
    b = [getattr(S, 'r%d' % j) for j in range(n)]
    how = s.pick('how', ('flat', 'nested', 'fields'))
    if how == 'flat':
        exprs = [a + b]
    elif how == 'nested':
        e = []
        for u, v in zip(a, b):
            e = [u, v] + ([e] if len(a) <= 33 else [])
        exprs = [{'k': e, 'j': a, 'i': b}]
    else:
        exprs = [[u, v] for u, v in zip(a, b)]
    upper = Graph([
        GNode('N', [GField('c%d' % i, None, sg.c(e))
                    for i, e in enumerate(exprs)]),
        Root([GLink('ns', Sequence[TypeRef['N']], lambda: [1, 2],
                    requires=None)])])
    q = Node([Link('ns', Node([Field('c%d' % i)
                               for i in range(len(exprs))]))])
    got, err = attempt(lambda: denormalize(upper, Engine(
        SyncExecutor()).execute(upper, q)))
    s.check(err is None, 'executed', err)
    want = []
    for i in (1, 2):
        va = [value('node', i, j) for j in range(n)]
        vb = [value('root', -1, j) for j in range(n)]
        if how == 'flat':
            row = {'c0': va + vb}
        elif how == 'nested':
            e = []
            for u, v in zip(va, vb):
                e = [u, v] + ([e] if n <= 33 else [])
            row = {'c0': {'k': e, 'j': va, 'i': vb}}
        else:
            row = {'c%d' % j: [u, v] for j, (u, v) in enumerate(zip(va, vb))}
        want.append(row)
    s.check(s.eq(got, {'ns': want}), 'the values')
    s.check(len(calls) == 2, 'what is read is loaded together', calls)


@scenario(params={'quick': {'batch': 1, 'items': 1},
                  'thorough': {'batch': 2, 'items': 2}}, timeout=300)
def required(s):
    """Links which require computed fields."""
    fns = Functions(s)
    kind = s.pick('executor', ('sync', 'threads', 'asyncio'))
    ids = [s.pick('id0', (0, 1)), 1] if kind == 'sync' else [0]
    lp = sched.Loop(s, batch=s.params['batch']) if kind == 'asyncio' else None
    wrap = lp.gated if lp else (lambda fn, name: fn)
    low = Low(s, 1, wrap, ids=(0, 1), fixed=True)
    sg = SubGraph(low.graph(), 'N')
    calls = []

    def target(key, v):
        return s.uf('target', key, v, lo=0, hi=1)

    def link(name, many, opts):
        def fn(reqs, *args):
            calls.append((name, list(reqs), args))
            ts = [target(name, v) for v in reqs]
            return [[t, 1] for t in ts] if many else ts
        return wrap(fn, name)

    def m_field(fields, ids):
        return [[s.uf('m', f.name, i, lo=0, hi=9) for f in fields]
                for i in ids]

    def own(fields, ids):
        return [[s.uf('own', f.name, i, lo=0, hi=9) for f in fields]
                for i in ids]
    plain = s.choice('plain', 2)
    expr = ('call', 'g', [this('a'), ('var', 'p')])
    # a computed field, perhaps with an option, which the links require
    req = (GField('c', None, sg.c(S.this.a)) if plain else
           GField('c', None, sg.c(to_hiku(expr, fns.fns)),
                  options=[Option('p', Integer, default=7)]))
    one, many = s.pick('links', (('c', 'c'), ('c', 'b'), ('own', 'c')))
    graph = Graph([
        GNode('N', [req, GField('a', None, sg), GField('b', None, sg),
                    GField('own', Integer, wrap(own, 'own')),
                    GLink('one', TypeRef['M'], link('one', False, ()),
                          requires=one),
                    GLink('many', Sequence[TypeRef['M']],
                          link('many', True, ()), requires=many,
                          options=[Option('o', Integer, default=3)])]),
        GNode('M', [GField('m', Integer, wrap(m_field, 'm')),
                    GField('c', None, SubGraph(low.graph(), 'N').c(
                        S.this.b))]),
        Root([GLink('ns', Sequence[TypeRef['N']],
                    wrap(lambda: list(ids), 'ns'), requires=None)])])
    items = [Link('one', Node([Field('m')]), None, 'x')]
    if s.choice('many', 2):
        items.append(Link('many', Node([Field('c'), Field('m')])))
    for i in range(s.params['items']):
        k = s.pick('f%d' % i, ('-', 'c', 'z', 'b', 'own')
                   if kind == 'sync' else ('-', 'z'))
        if k != '-':
            items.append(Field('c' if k == 'z' else k, None,
                               'z' if k == 'z' else None))
    order = s.pick('order', ('as is', 'turned', 'in order')
                   if kind == 'sync' else ('as is',))
    if order == 'turned':
        items.reverse()
    ordered = order == 'in order'
    q = Node([Link('ns', Node(items, ordered=ordered))])
    if kind == 'asyncio':
        status, res = lp.run(Engine(AsyncIOExecutor(lp.loop)).execute(
            graph, q))
        s.check(status == 'ok', 'executed', (status, res))
    elif kind == 'threads':
        p = sched.StubPool(s, batch=s.params['batch'])
        with sched.active(p):
            res = Engine(ThreadsExecutor(p)).execute(graph, q)
    else:
        res, err = attempt(lambda: Engine(SyncExecutor()).execute(graph, q))
        s.check(err is None, 'executed', err)

    def value(name, i):
        if name == 'own':
            return s.uf('own', 'own', i, lo=0, hi=9)
        if name == 'b' or plain:
            return low.value('N', 'b' if name == 'b' else 'a', i)
        return fns.flat(evaluate(expr, {'this': low.obj('N', i), 'p': 7},
                                 low.obj('root', -1), fns.fns))

    def m_of(j, sub):
        return {f.name: s.uf('m', 'm', j, lo=0, hi=9) if f.name == 'm' else
                low.value('N', 'b', j) for f in sub}
    want = []
    for i in ids:
        row = {}
        for it in items:
            if isinstance(it, Field):
                row[it.result_key] = value(it.name, i)
            elif it.name == 'one':
                row['x'] = m_of(target('one', value(one, i)), it.node.fields)
            else:
                row['many'] = [m_of(j, it.node.fields) for j in (
                    target('many', value(many, i)), 1)]
        want.append(row)
    got = denormalize(graph, res)['ns']
    s.check(s.eq(got, want), 'the values of every object', (got, want))
    for name, by in (('one', one), ('many', many)):
        mine = [c for c in calls if c[0] == name]
        asked = any([it.name == name for it in items])
        s.check(len(mine) == (1 if asked else 0), 'one call', calls)
        if asked:
            s.check(s.eq(mine[0][1], [value(by, i) for i in ids]),
                    'with the computed values', mine)
            s.check(mine[0][2] == (({'o': 3},) if name == 'many' else ()),
                    'with the options', mine)
