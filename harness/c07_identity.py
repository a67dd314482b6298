"""C07: requests with different options never share results."""
from symx.session import scenario
from hiku import edn
from hiku.engine import Engine
from hiku.executors.sync import SyncExecutor
from hiku.graph import Graph, Root, Node as GNode, Field as GField, Option
from hiku.graph import Link as GLink
from hiku.types import TypeRef, Sequence, Record, Integer
from hiku.query import Node, Field, Link, merge
from hiku.result import denormalize
from harness.vals import value
from harness.sizes import place

ASSUMPTIONS = ['items of sets and keys are not containers']
BOUNDS = ('two or three requests; option values of all kinds nested up to 2 '
          'levels, up to 2 items at each, integers -3..3 (and -2^61..2^61 in '
          'one scenario), strings of up to 2 characters of 2; long and deep options (up to 129 '
          'items, 33 levels) which may differ at one place, and up to 34 '
          'requests at once')


def make(table):
    """Resolvers answer with the very options they have been called with."""
    def root_f(fields):
        return [f.options for f in fields]

    def node_f(fields, ids):
        return [[f.options for f in fields] for i in ids]

    def show(fields, ids):
        return [[table[i] for f in fields] for i in ids]

    def rec_f(fields):
        return [{'r': f.options} for f in fields]

    def link(options):
        table.append(options)
        return len(table) - 1

    def many(options):
        table.append(options)
        return [len(table) - 1]

    def node_link(ids, options):
        table.append(options)
        return [len(table) - 1 for i in ids]
    o = [Option('x', None)]
    return Graph([
        GNode('T', [GField('show', None, show)]),
        GNode('N', [GField('i', None, lambda fields, ids: [[i for f in fields]
                                                           for i in ids]),
                    GField('f', None, node_f, options=o),
                    GLink('l', TypeRef['T'], node_link, requires='i',
                          options=o)]),
        Root([GField('f', None, root_f, options=o),
              GField('e', TypeRef['R'], rec_f, options=o),
              GLink('l', TypeRef['T'], link, requires=None, options=o),
              GLink('m', Sequence[TypeRef['T']], many, requires=None,
                    options=o),
              GLink('n', TypeRef['N'], lambda: 1, requires=None),
              GLink('ns', Sequence[TypeRef['N']], lambda: [1, 2],
                    requires=None)]),
    ], data_types={'R': Record[{'r': Integer}]})


PLACES = ('f', 'e', 'l', 'm', 'n.f', 'n.l', 'ns.f')


def request(place, options, alias):
    nm = place[-1]
    if nm == 'f':
        q = Field('f', options, alias)
    elif nm == 'e':
        q = Link('e', Node([Field('r')]), options, alias)
    else:
        q = Link(nm, Node([Field('show')]), options, alias)
    if '.' in place:
        return Link(place.split('.')[0], Node([q]))
    return q


def answer(place, den, alias):
    if place.startswith('ns.'):
        a = den['ns']
        return [x[alias] for x in a]
    if place.startswith('n.'):
        den = den['n']
    v = den[alias]
    if place == 'm':
        return [v[0]['show']]
    if place[-1] == 'l':
        return [v['show']]
    if place == 'e':
        return [v['r']]
    return [v]


def run(s, place, opts):
    table = []
    graph = make(table)
    q = merge([Node([request(place, {'x': o}, 'z%d' % i)
                     for i, o in enumerate(opts)])])
    res = Engine(SyncExecutor()).execute(graph, q)
    den = denormalize(graph, res)
    for i, o in enumerate(opts):
        for v in answer(place, den, 'z%d' % i):
            s.check(s.strict_eq(v, {'x': o}),
                    'each request has the answer for its own options',
                    (v, o))
    s.observe('answers', [answer(place, den, 'z%d' % i)
                          for i in range(len(opts))])


@scenario(params={'quick': {'depth': 1}, 'thorough': {'depth': 2}},
          timeout=120)
def values_at_root(s):
    d = s.params['depth']
    a = value(s, 'a', d)
    b = value(s, 'b', d)
    run(s, 'f', [a, b])


@scenario()
def every_place(s):
    place = s.pick('place', PLACES)
    a = value(s, 'a', 1, kinds='ibl', maxlen=1)
    b = value(s, 'b', 1, kinds='ibl', maxlen=1)
    run(s, place, [a, b])


@scenario()
def large_integers(s):
    """Any two integers, however their hashes coincide."""
    a = s.int('a', -2**62, 2**62)
    b = s.int('b', -2**62, 2**62)
    run(s, s.pick('place', ('f', 'l')), [a, b])


@scenario()
def nested_dicts(s):
    """Same keys and values, arranged differently."""
    def one(p):
        k = s.choice(p, 4)
        x, y = s.int(p + '.x', -2, 1), s.int(p + '.y', -2, 1)
        if k == 0:
            return {'a': x, 'b': y}
        if k == 1:
            return {'b': y, 'a': x}
        if k == 2:
            return {'a': [x, y]}
        return {'a': {'b': x}, 'b': y}
    run(s, 'f', [one('a'), one('b')])


def scalar(s, p, kinds='ibs'):
    k = s.pick(p + '.kind', kinds)
    if k == 'i':
        return s.int(p + '.int', -2, 1)
    if k == 'b':
        return s.bool(p + '.bool')
    return s.char(p + '.char', 'ab')


@scenario(covers=('mixed',))
def any_keys(s):
    """Keys of any kind, also of several in one dictionary."""
    def one(p):
        d = {}
        n = s.choice(p + '.n', 3)
        for i in range(n):
            k = scalar(s, '%s.k%d' % (p, i))
            if k in d:
                s.assume(False)
            d[k] = s.int('%s.v%d' % (p, i), 0, 1)
        if n == 2 and len({type(x) for x in d}) == 2:
            s.cover('mixed')
        return d
    a, b = one('a'), one('b')
    if s.choice('nested', 2):
        a, b = [a], [b]
    run(s, s.pick('place', ('f', 'l')), [a, b])


@scenario()
def sets(s):
    """Sets, as they come from EDN texts."""
    def one(p):
        items = [scalar(s, '%s.%d' % (p, i))
                 for i in range(s.choice(p + '.n', 3))]
        return edn.Set(items) if kind else frozenset(items)
    kind = s.choice('kind', 2)
    run(s, s.pick('place', ('f', 'n.f')), [one('a'), one('b')])


@scenario()
def order_of_sets(s):
    """Sets are equal in whatever order they were built."""
    # these are placed in sets in the order of their coming
    items = [s.pick('i%d' % i, (0, 8, 16)) for i in range(2)]
    s.assume(items[0] != items[1])
    a, b = items, s.pick('b', (items[::-1], items, items[:1]))
    if s.choice('kind', 2):
        a, b = edn.Set(a), edn.Set(b)
    else:
        a, b = frozenset(a), frozenset(b)
    k = s.choice('inside', 3)
    if k == 1:
        a, b = {'a': a}, {'a': b}
    elif k == 2:
        a, b = [a], [b]
    run(s, s.pick('place', ('f', 'l', 'n.f')), [a, b])


@scenario()
def three(s):
    vs = [value(s, 'v%d' % i, 0, kinds='inb') for i in range(3)]
    run(s, s.pick('place', ('f', 'l', 'n.f')), vs)


@scenario()
def several_options(s):
    """Options as a whole: names matter, their order does not."""
    got = []

    def f(fields):
        return [fld.options for fld in fields]
    graph = Graph([Root([GField('f', None, f, options=[
        Option('x', None, default=None), Option('y', None, default=None)])])])
    qs = []
    want = []
    for i in range(2):
        o = {}
        names = s.pick('names%d' % i, ('x', 'y', 'xy', 'yx', ''))
        for n in names:
            o[n] = s.int('%s%d' % (n, i), -2, 1)
        qs.append(Field('f', o or None, 'z%d' % i))
        want.append({'x': o.get('x'), 'y': o.get('y')})
    res = Engine(SyncExecutor()).execute(graph, merge([Node(qs)]))
    for i in range(2):
        s.check(s.strict_eq(res['z%d' % i], want[i]),
                'each request has the answer for its own options')


@scenario(params={'quick': {'n': 2}, 'thorough': {'n': 3}}, timeout=120)
def names_and_aliases(s):
    """Fields of one function: their names and aliases may be each other's,
    their options may differ."""
    def root_f(fields):
        return [[f.name, f.options] for f in fields]

    def node_f(fields, ids):
        return [[[i, f.name, f.options] for f in fields] for i in ids]
    o = [Option('x', None, default=0)]

    def fields(fn):
        return [GField(n, None, fn, options=o) for n in 'abc']
    graph = Graph([
        GNode('N', fields(node_f)),
        Root(fields(root_f) + [GLink('n', Sequence[TypeRef['N']],
                                     lambda: [1, 2], requires=None)])])
    items = []
    for i in range(s.params['n']):
        name = s.char('name%d' % i, 'abc')
        opts = None
        if s.choice('given%d' % i, 2):
            opts = {'x': s.int('x%d' % i, 0, 1)}
        alias = s.char('alias%d' % i, 'abcd')
        for f in items:
            s.assume(s.not_(s.eq(f.alias, alias)))
        items.append(Field(name, opts, alias))
    below = s.choice('below', 2)
    q = Node(items, ordered=bool(s.choice('ordered', 2)))
    if below:
        q = Node([Link('n', q)])
    elif not q.ordered:
        q = merge([q])
    den = denormalize(graph, Engine(SyncExecutor()).execute(graph, q))
    for i, d in enumerate(den['n'] if below else [den]):
        for f in items:
            want = [f.name, {'x': f.options['x'] if f.options else 0}]
            if below:
                want.insert(0, i + 1)
            s.check(s.strict_eq(d[f.alias], want),
                    'each request has its own answer', (d[f.alias], want))


@scenario(timeout=300)
def large(s):
    """Long and deep options which differ at one place, if anywhere."""
    kind = s.pick('kind', ('list', 'keys', 'text', 'depth', 'options'))
    n = s.pick('n', (1, 3, 17, 33) if kind in ('depth', 'options')
               else (1, 3, 33, 129))
    k = place(s, 'place', n)

    def one(p):
        x = s.int(p, -2, 1)
        if kind == 'list':
            v = list(range(n))
            v[k] = x
        elif kind == 'keys':
            v = dict([('k%d' % i, i) for i in range(n)])
            v['k%d' % k] = x
        elif kind == 'text':
            v = 'a' * k + s.char(p + '.char', 'ab') + 'a' * (n - k - 1)
        else:
            v = x
            for i in range(n):
                v = [v] if i % 2 else {'k': v}
        return v
    if kind != 'options':
        run(s, s.pick('place.of', ('f', 'l', 'ns.f')), [one('a'), one('b')])
        return
    opts = [[i] for i in range(n)]
    opts[k] = [s.int('a', -2, 1)]
    run(s, s.pick('place.of', ('f', 'l')), opts + [[s.int('b', -2, 1)]])
