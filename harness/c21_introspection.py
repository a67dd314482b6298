"""C21: the introspection schema is the one of the graph."""
import asyncio
from symx.session import scenario
from hiku.engine import Engine
from hiku.executors.sync import SyncExecutor
from hiku.executors.asyncio import AsyncIOExecutor
from hiku.graph import (apply, Graph, Root, Node as GNode, Field as GField,
                        Link as GLink, Option)
from hiku.types import (TypeRef, Sequence, Optional, Mapping, Record, Any,
                        String, Integer, Float, Boolean)
from hiku.query import Node, Field, Link
from hiku.result import denormalize
from hiku.introspection.graphql import (GraphQLIntrospection,
                                        AsyncGraphQLIntrospection)
from harness.world import attempt
from harness.sizes import WIDE, DEEP, place

ASSUMPTIONS = [
    'names of nodes and data types are distinct, are no names of scalars, of '
    'root types or of input objects, and every node has a visible field',
    'the mutation graph holds the same nodes as the query graph',
    'options refer to data types, data types refer to data types, without '
    'cycles of aliases; defaults can be written as JSON',
]
BOUNDS = ('types nested 3 (thorough: 4) levels deep, at 8 kinds of places at '
          'once; graphs of 2 nodes with up to 3 items, 2 data types, names '
          'of 1 or 2 characters; up to 65 nodes, fields, arguments or data '
          'types')

PLAIN = {'str': ('String', String), 'int': ('Int', Integer),
         'float': ('Float', Float), 'bool': ('Boolean', Boolean)}


# -- types, as tuples

def gen(s, p, depth, refs, leaves=None):
    leaves = leaves or (None, 'any', 'str', 'int', 'float', 'bool', 'map',
                        'rec')
    n = len(leaves) + len(refs)
    k = s.choice(p, n + (2 if depth else 0))
    if k < len(leaves):
        return leaves[k]
    if k < n:
        return ('ref', refs[k - len(leaves)])
    return (('seq', 'opt')[k - n], gen(s, p + '.t', depth - 1, refs,
                                       tuple(x for x in leaves
                                             if x is not None)))


def build(t):
    if t is None:
        return None
    if t == 'any':
        return Any
    if t == 'map':
        return Mapping[String, Integer]
    if t == 'rec':
        return Record[{'q': Integer}]
    if isinstance(t, tuple):
        if t[0] == 'ref':
            return TypeRef[t[1]]
        return {'seq': Sequence, 'opt': Optional}[t[0]][build(t[1])]
    return PLAIN[t][1]


def shape(kind, name=None, of=None):
    return {'kind': kind, 'name': name, 'ofType': of}


def nullable(t, data, inp):
    """The type as introspection tells it, without the outer NON_NULL, and
    whether it has one."""
    if t is None or t == 'any' or t == 'map' or t == 'rec':
        return shape('SCALAR', 'Any'), False
    if not isinstance(t, tuple):
        return shape('SCALAR', PLAIN[t][0]), True
    if t[0] == 'seq':
        return shape('LIST', None, typ(t[1], data, inp)), True
    if t[0] == 'opt':
        return nullable(t[1], data, inp)[0], False
    name = t[1]
    for k, d in data:
        if k == name:
            if not isinstance(d, list):
                return nullable(d, data, inp)
            if inp:
                return shape('INPUT_OBJECT', 'IO' + name), True
    return shape('OBJECT', name), True


def typ(t, data, inp=False):
    of, strict = nullable(t, data, inp)
    return shape('NON_NULL', None, of) if strict else of


# -- graphs, as lists

class Opt:
    def __init__(self, name, type_, default=None, has=False, text=None):
        self.name = name
        self.type = type_
        self.default = default
        self.has = has
        self.text = text

    def build(self):
        if self.has:
            return Option(self.name, build(self.type), default=self.default,
                          description='o:')
        return Option(self.name, build(self.type), description='o:')

    def want(self, data):
        return {'name': self.name, 'description': 'o:',
                'type': typ(self.type, data, True),
                'defaultValue': self.text if self.has else None}


class Item:
    def __init__(self, name, type_, options=(), link=False, desc=None):
        self.name = name
        self.type = type_
        self.options = list(options)
        self.link = link
        self.desc = desc

    def build(self, root):
        opts = [o.build() for o in self.options] or None
        if self.link:
            return GLink(self.name, build(self.type), nothing,
                         requires=None, options=opts, description=self.desc)
        return GField(self.name, build(self.type), nothing, options=opts,
                      description=self.desc)

    def want(self, data):
        return {'name': self.name, 'description': self.desc,
                'isDeprecated': False, 'deprecationReason': None,
                'type': typ(self.type, data),
                'args': [o.want(data) for o in self.options]}


def nothing(*args):
    raise AssertionError('not called')


def make_graph(nodes, root, data):
    return Graph([GNode(name, [i.build(False) for i in items],
                        description='n:' + name) for name, items in nodes] +
                 [Root([i.build(True) for i in items]) for items in root],
                 data_types={k: (Record[{n: build(t) for n, t in d}]
                                 if isinstance(d, list) else build(d))
                             for k, d in data})


def hidden(name):
    return name[0] == '_'


def entry(kind, name, description=None, fields=(), inputs=()):
    return {'kind': kind, 'name': name, 'description': description,
            'fields': list(fields), 'inputFields': list(inputs),
            'interfaces': [], 'possibleTypes': [], 'enumValues': []}


def want_types(nodes, root, data, mutation=None):
    out = [entry('SCALAR', n) for n in ('String', 'Int', 'Boolean', 'Float',
                                        'Any')]

    def visible(items):
        return [i.want(data) for i in items if not hidden(i.name)]
    for name, items in nodes:
        out.append(entry('OBJECT', name, 'n:' + name, visible(items)))
    out.append(entry('OBJECT', 'Query', None,
                     visible([i for items in root for i in items])))
    if mutation is not None:
        out.append(entry('OBJECT', 'Mutation', None, visible(mutation)))
    for name, d in data:
        if isinstance(d, list):
            out.append(entry('OBJECT', name, None, [
                {'name': n, 'description': None, 'isDeprecated': False,
                 'deprecationReason': None, 'type': typ(t, data), 'args': []}
                for n, t in d]))
            out.append(entry('INPUT_OBJECT', 'IO' + name, None, (), [
                {'name': n, 'description': None,
                 'type': typ(t, data, True), 'defaultValue': None}
                for n, t in d]))
    return out


# -- the query

def type_ref(depth):
    items = [Field('kind'), Field('name')]
    if depth:
        items.append(Link('ofType', type_ref(depth - 1)))
    return Node(items)


def input_value(depth):
    return Node([Field('name'), Field('description'),
                 Link('type', type_ref(depth)), Field('defaultValue')])


def full_type(depth):
    return Node([
        Field('kind'), Field('name'), Field('description'),
        Link('fields', Node([
            Field('name'), Field('description'),
            Link('args', input_value(depth)), Link('type', type_ref(depth)),
            Field('isDeprecated'), Field('deprecationReason')]),
            {'includeDeprecated': True}),
        Link('inputFields', input_value(depth)),
        Link('interfaces', type_ref(depth)),
        Link('possibleTypes', type_ref(depth)),
        Link('enumValues', Node([Field('name')])),
    ])


def schema_query(depth):
    return Node([Link('__schema', Node([
        Link('queryType', Node([Field('name')])),
        Link('mutationType', Node([Field('name')])),
        Link('subscriptionType', Node([Field('name')])),
        Link('types', full_type(depth)),
        Link('directives', Node([Field('name'), Field('description'),
                                 Field('locations'),
                                 Link('args', input_value(1))])),
    ]))])


def prune(t):
    """References without the empty ends."""
    if t is None:
        return None
    return {'kind': t['kind'], 'name': t['name'],
            'ofType': prune(t.get('ofType'))}


def norm_value(v):
    v = dict(v)
    v['type'] = prune(v['type'])
    return v


def norm_type(t):
    t = dict(t)
    fields = []
    for f in t['fields']:
        f = norm_value(f)
        f['args'] = [norm_value(a) for a in f['args']]
        fields.append(f)
    t['fields'] = fields
    t['inputFields'] = [norm_value(v) for v in t['inputFields']]
    return t


def mentioned(types):
    def names(ref):
        while ref is not None:
            if ref['name'] is not None:
                yield ref['name']
            ref = ref['ofType']
    for t in types:
        for f in t['fields']:
            yield from names(f['type'])
            for a in f['args']:
                yield from names(a['type'])
        for v in t['inputFields']:
            yield from names(v['type'])


ARG = {'name': 'if', 'description': None, 'type': shape(
    'NON_NULL', None, shape('SCALAR', 'Boolean')), 'defaultValue': None}


def introspect(s, nodes, root, data, mutation=None, depth=4, lp=None):
    graph = make_graph(nodes, root, data)
    mgraph = None
    if mutation is not None:
        mgraph = make_graph(nodes, [mutation], data)
    if lp is None:
        engine = Engine(SyncExecutor())
        full = apply(graph, [GraphQLIntrospection(graph, mgraph)])

        def ask(q):
            return denormalize(full, engine.execute(full, q))
    else:
        engine = Engine(AsyncIOExecutor(lp))
        full = apply(graph, [AsyncGraphQLIntrospection(graph, mgraph)])

        def ask(q):
            async def go():
                return await engine.execute(full, q)
            return denormalize(full, lp.run_until_complete(go()))
    got = ask(schema_query(depth))['__schema']
    types = [norm_type(t) for t in got['types']]
    want = want_types(nodes, root, data, mutation)
    s.check(len(types) == len(want), 'number of types', [t['name']
                                                          for t in types])
    for w in want:
        same = [t for t in types if t['name'] == w['name']]
        s.check(len(same) == 1, 'listed once', (w['name'], types))
        s.check(s.strict_eq(same[0], w), 'described as declared',
                (same[0], w))
    names = [t['name'] for t in types]
    for n in mentioned(types):
        s.check(s.any([s.eq(n, m) for m in names]), 'defined', n)
    s.check(s.eq(got['queryType'], {'name': 'Query'}), 'query type')
    s.check(s.eq(got['mutationType'], None if mutation is None
                 else {'name': 'Mutation'}), 'mutation type')
    s.check(got['subscriptionType'] is None, 'no subscription type')
    dirs = got['directives']
    s.check([d['name'] for d in dirs] == ['skip', 'include'] or
            [d['name'] for d in dirs] == ['include', 'skip'], 'directives')
    for d in dirs:
        s.check(sorted(d['locations']) == ['FIELD', 'FRAGMENT_SPREAD',
                                           'INLINE_FRAGMENT'], 'locations')
        args = [norm_value(a) for a in d['args']]
        for a in args:
            a['description'] = None
        s.check(s.strict_eq(args, [ARG]), 'condition of a directive', args)
    s.observe('names', names)
    return types, ask


def lookup(s, ask, types, name, depth=4):
    got = ask(Node([Link('__type', full_type(depth), {'name': name})]))
    got = got['__type']
    for t in types:
        if t['name'] == name:
            s.check(got is not None, 'a listed type is found', name)
            s.check(s.strict_eq(norm_type(got), t), 'described as in the list',
                    (got, t))
            s.cover('found')
            return
    s.check(got is None, 'a type which is not listed is not found', got)
    s.cover('not found')


P = {'quick': {'depth': 2}, 'thorough': {'depth': 3}}


@scenario(params=P, timeout=120)
def types_everywhere(s):
    """One type at every place where it may occur."""
    t = gen(s, 't', s.params['depth'], 'TA')
    d = 'any' if t is None else t
    data = [('T', [('x', 'int')]), ('A', ('seq', ('ref', 'T'))),
            ('D', [('y', d), ('z', ('opt', 'str'))])]
    nodes = [('N', [Item('f', t), Item('g', t, [Opt('o', t)])]),
             ('M', [Item('l', ('seq', ('ref', 'N')), [Opt('o', t)], True),
                    Item('d', ('ref', 'D'))])]
    root = [[Item('f', t, [Opt('o', t), Opt('p', ('ref', 'D'))]),
             Item('m', ('opt', ('ref', 'M')), [Opt('o', t)], True)]]
    introspect(s, nodes, root, data, depth=2 * s.params['depth'] + 3)


@scenario(params={'quick': {'depth': 2}, 'thorough': {'depth': 3}},
          timeout=120)
def aliases_of_types(s):
    """Data types which are not records stand for what they are."""
    t = gen(s, 't', s.params['depth'], 'TB')
    if t is None:
        t = 'any'
    if t == 'rec':
        t = [('q', 'int')]
    data = [('T', [('x', ('ref', 'A'))] if s.choice('cycle', 2) else
             [('x', 'int')]), ('B', ('opt', ('ref', 'T'))), ('A', t)]
    nodes = [('N', [Item('f', ('ref', 'A')),
                    Item('g', ('opt', ('seq', ('ref', 'A'))),
                         [Opt('o', ('ref', 'A')),
                          Opt('p', ('seq', ('ref', 'A')))])])]
    root = [[Item('l', ('ref', 'N'), (), True)]]
    introspect(s, nodes, root, data, depth=2 * s.params['depth'] + 5)


LINK = {'one': lambda n: ('ref', n), 'maybe': lambda n: ('opt', ('ref', n)),
        'many': lambda n: ('seq', ('ref', n))}


@scenario(covers=('found', 'not found'), timeout=120,
          params={'quick': {'n': 2}, 'thorough': {'n': 3}})
def names(s):
    """Names of everything symbolic, some of them hidden."""
    n1, n2 = s.char('N1', 'NnK'), s.char('N2', 'NnK')
    t1 = 'T' + s.char('T1', 'ab_')
    s.assume(s.not_(s.eq(n1, n2)))

    def items(p, n, alphabet='fg_'):
        out = []
        for i in range(n):
            q = '%s.%d' % (p, i)
            name = s.char(q, alphabet) + s.char(q + '.', 'ab')
            for x in out:
                s.assume(s.not_(s.eq(x.name, name)))
            if s.choice(q + '.link', 2):
                to = n1 if s.choice(q + '.to', 2) else n2
                out.append(Item(name, LINK['many'](to), (), True, 'd:' + name))
            else:
                out.append(Item(name, 'int', [Opt(s.char(q + '.o', 'xy'),
                                                  'str')], desc='d:' + name))
        s.assume(s.any([s.not_(s.eq(x.name[0], '_')) for x in out]))
        return out
    nodes = [(n1, items('n1', s.params['n'])), (n2, [Item('a', 'int')])]
    root = [[Item('r', ('ref', n1), (), True), Item('v', ('ref', t1))]]
    data = [(t1, [(s.char('x', 'xy_'), 'int')])]
    types, ask = introspect(s, nodes, root, data, depth=3)
    k = s.choice('lookup', 3)
    if k == 0:
        name = s.char('name', 'NnKLx')
    elif k == 1:
        name = s.char('t', 'Tt') + s.char('name', 'abA_')
    else:
        name = s.pick('name', ('Int', 'Query', 'Mutation', '', 'IO',
                               'IOTa', 'IO' + t1, 'IO' + n1, '__Type',
                               'int', 'query', 'io' + t1))
    lookup(s, ask, types, name, depth=3)


@scenario(covers=('default', 'no default'), timeout=120)
def arguments(s):
    """Options of fields and links, with and without default values."""
    def opt(p, name):
        k = s.choice(p, 7)
        if k == 0:
            s.cover('no default')
            return Opt(name, s.pick(p + '.t', ('int', ('opt', 'int'), None)))
        s.cover('default')
        t, v, text = (('int', 7, '7'), ('bool', True, 'true'),
                      (('opt', 'int'), None, 'null'),
                      ('str', 'a"b', '"a\\"b"'), (('seq', 'int'), [], '[]'),
                      (('ref', 'T'), {'x': [1]}, '{"x": [1]}'))[k - 1]
        return Opt(name, t, v, True, text)
    a, b = s.char('a', 'xy_'), '_' + s.char('b', 'xy_')
    opts = [opt('oa', a), opt('ob', b)]
    k = s.choice('item', 4)
    f = Item('f', 'int', opts if k == 0 else ())
    link = Item('l', ('seq', ('ref', 'N')), opts if k == 1 else (), True)
    nodes = [('N', [f, link])]
    root = [[Item('f', 'int', opts if k == 2 else ()),
             Item('l', ('seq', ('ref', 'N')), opts if k == 3 else (), True)]]
    data = [('T', [('x', ('seq', 'int'))])]
    introspect(s, nodes, root, data, depth=4)


def small(s):
    kinds = ('one', 'maybe', 'many')
    nodes = [('N', [Item('f', 'int'),
                    Item('l', LINK[s.pick('k1', kinds)]('M'), (), True)]),
             ('M', [Item(s.char('mf', 'ab'), ('opt', 'str'), desc='x')])]
    root = [[Item('q', 'int')],
            [Item('l', LINK[s.pick('k2', kinds)]('N'), [Opt('o', 'int')],
                  True)]]
    if s.choice('one root', 2):
        root = [root[0] + root[1]]
    mutation = None
    if s.choice('mutation', 2):
        mutation = [Item('x', 'str', [Opt('o', 'int')]),
                    Item('y', LINK[s.pick('k3', kinds)]('N'), (), True)]
        if s.choice('query field', 2):
            mutation.append(Item('q', 'bool'))
    return nodes, root, [('T', [('x', 'int')])], mutation


@scenario(covers=('found', 'not found'))
def roots(s):
    """Query and mutation types; several root parts."""
    nodes, root, data, mutation = small(s)
    types, ask = introspect(s, nodes, root, data, mutation)
    lookup(s, ask, types, s.pick('name', ('Query', 'Mutation', 'N', 'T',
                                          'IOT', 'Int', 'X')))


@scenario(covers=('found', 'not found'))
def asynchronous(s):
    """The asynchronous variant tells the same."""
    nodes, root, data, mutation = small(s)
    lp = asyncio.new_event_loop()
    try:
        asyncio.set_event_loop(lp)
        types, ask = introspect(s, nodes, root, data, mutation, lp=lp)
        lookup(s, ask, types, s.pick('name', ('Mutation', 'N', 'X')))
    finally:
        asyncio.set_event_loop(None)
        lp.close()


@scenario()
def no_fields(s):
    """An object type without visible fields is refused."""
    a, b = s.char('a', 'a_'), s.char('b', 'b_')
    nodes = [('N', [Item(a, 'int')]), ('M', [Item(b, 'int')])]
    root = [[Item('l', ('ref', 'N'), (), True)]]
    if a == '_' or b == '_':
        _, err = attempt(lambda: introspect(s, nodes, root, [], depth=1))
        s.check(isinstance(err, TypeError), 'refused', err)
        bad = 'N' if a == '_' else 'M'
        s.check('"' + bad + '"' in str(err), 'names the type', err)
    else:
        introspect(s, nodes, root, [], depth=1)


@scenario(covers=('found', 'not found'))
def large(s):
    """Many nodes, fields, arguments or data types."""
    kind = s.pick('kind', ('nodes', 'fields', 'links', 'options', 'data',
                           'record', 'roots', 'type'))
    n = s.pick('size', (3, 17, 33, 65) if kind != 'type' else (1, 3, 5, 7))
    k = place(s, 'place', n)
    c = s.char('name', 'xyz_' if kind in ('fields', 'links', 'record')
               else 'xyz') + 'q'
    names = ['n%d' % i for i in range(n)]
    names[k] = c
    nodes = [('N', [Item('f', 'int')])]
    root = [[Item('r', ('ref', 'N'), (), True)]]
    data = [('T', [('x', 'int')])]
    depth = 4
    if kind == 'nodes':
        nodes += [(x, [Item('f', 'int', desc=x)]) for x in names]
    elif kind == 'fields':
        nodes.append(('M', [Item('f', 'int')] + [
            Item(x, ('int', 'str', ('ref', 'T'))[i % 3], desc=x)
            for i, x in enumerate(names)]))
    elif kind == 'links':
        nodes.append(('M', [Item('f', 'int')] + [
            Item(x, LINK[('one', 'maybe', 'many')[i % 3]]('N'), (), True)
            for i, x in enumerate(names)]))
    elif kind == 'options':
        root[0].append(Item('o', 'int', [
            Opt(x, 'int', i, True, str(i)) if i % 2 else Opt(x, 'str')
            for i, x in enumerate(names)]))
    elif kind == 'data':
        data += [(x, [('y', 'int')]) for x in names]
    elif kind == 'record':
        data.append(('D', [('y', 'int')] + [(x, 'str') for x in names]))
    elif kind == 'roots':
        root += [[Item(x, 'int')] for x in names]
    else:
        t = 'int'
        for i in range(n):
            t = (('seq', 'opt')[i % 2], t)
        root[0].append(Item('t', t))
        depth = 2 * n + 3
    types, ask = introspect(s, nodes, root, data, depth=depth)
    lookup(s, ask, types, s.pick('lookup', (c, 'N', 'nothing')), depth=depth)
