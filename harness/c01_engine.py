"""C01: the engine's result is what the query means."""
from symx.session import scenario
from hiku.engine import Engine
from hiku.executors.sync import SyncExecutor
from hiku.graph import (Graph, Root, Node as GNode, Field as GField,
                        Link as GLink, Option, Nothing)
from hiku.query import Node, Field, Link, merge
from hiku.result import denormalize
from hiku.types import Integer, Optional, Sequence, TypeRef
from harness.sizes import SIZES, WIDE, DEEP, place
from harness.world import World, make_graph, reference, read_proxy

ASSUMPTIONS = [
    'loaders are pure functions of (fields, options, ids)',
    'option values are integers, names have one character',
]
BOUNDS = ('queries of up to 3 sibling fields, up to 2 sibling links, nesting up '
          'to 3 links (thorough: 2 fields under each); names symbolic over '
          'the fields and links of a graph with 2 nodes; options, values and '
          'link targets symbolic; lists of up to 2 (quick) or 3 objects; '
          'identifiers from a domain of 3, and one at a time of 11 kinds of others; one object of any '
          'among up to 1025, up to 129 fields or links, chains of 50 links')


def run(s, q, **kw):
    w = World(s, **kw)
    graph = make_graph(w)
    q = merge([q])
    res = Engine(SyncExecutor()).execute(graph, q)
    want = reference(w, 'R', -1, q)
    got = read_proxy(s, res, q)
    s.check(s.eq(got, want), 'proxy result equals reference', (got, want))
    den = denormalize(graph, res)
    s.check(s.eq(den, want), 'denormalized result equals reference',
            (den, want))
    s.observe('result', den)
    return den


def leaf(s, p, names):
    """A field with a symbolic name and, when it takes one, an option."""
    name = s.char(p + '.name', names)
    if name == 'c' or name == 'd':
        if s.choice(p + '.opt', 2):
            return Field(name, {'x': s.int(p + '.x', -3, 3)})
    return Field(name)


@scenario()
def flat(s):
    items = []
    for i in range(3):
        f = leaf(s, 'f%d' % i, 'abc')
        if s.choice('f%d.alias?' % i, 2):
            f = Field(f.name, f.options, 'z%d' % i)
        items.append(f)
    # conflicting unaliased duplicates are not valid queries
    for i in range(3):
        for j in range(i):
            a, b = items[i], items[j]
            if a.alias is None and b.alias is None:
                s.assume(s.any([s.not_(s.eq(a.name, b.name)),
                                s.eq(a.options, b.options)]))
    run(s, Node(items))


def options(s, p, name):
    """Options of a link, when it takes any (maybe left to the default)."""
    if name == 'p' or name == 'q':
        if s.choice(p + '.opt', 2):
            return {'x': s.int(p + '.x', -3, 3)}
    return None


@scenario()
def one_link(s):
    l1 = s.char('l1', 'lmop')
    q = Node([Link(l1, Node([leaf(s, 'f1', 'abgd'), leaf(s, 'f2', 'bd')]),
                   options(s, 'l1', l1))])
    run(s, merge([q]))


@scenario()
def two_links(s):
    """Two sibling links, which may be the same link, lead to the same node
    and have the same or different options."""
    items = []
    for i in range(2):
        name = s.char('l%d' % i, 'lmop')
        items.append(Link(name, Node([leaf(s, 'f%d' % i, 'bd')]),
                          options(s, 'l%d' % i, name), 'z%d' % i))
    run(s, merge([Node(items)]))


@scenario()
def link_and_requirement(s):
    """The field a link requires is requested as well, at the same level."""
    name = s.char('l', 'lmoqnrv')
    q = Node([Link('l', Node([
        Field('a', None, 'z' if s.choice('alias', 2) else None),
        Link(name, Node([leaf(s, 'f', 'ab')]), options(s, 'l', name)),
    ]))])
    run(s, merge([q]), ids=(0, 1))


@scenario(params={'quick': {'root': 'l', 'links': 'loq'},
                  'thorough': {'root': 'lmo', 'links': 'lmoqnrv'}}, timeout=120)
def aliases(s):
    """Aliases which are the names of other items of the node."""
    name = s.char('l', s.params['links'])
    f1 = Field(s.char('f1', 'abd'), None, s.char('a1', 'abl'))
    f2 = Field(s.char('f2', 'ab'), None, s.char('a2', 'ab'))
    l1 = Link(name, Node([Field(s.char('g', 'ab'), None, s.char('ga', 'ab'))]),
              None, s.char('la', 'alm'))
    s.assume(s.all([s.not_(s.eq(f1.alias, f2.alias)),
                    s.not_(s.eq(f1.alias, l1.alias)),
                    s.not_(s.eq(f2.alias, l1.alias))]))
    items = [f1, f2, l1] if s.choice('order', 2) else [l1, f1, f2]
    root = s.char('root', s.params['root'])
    q = Node([Link(root, Node(items), None, s.char('ra', 'ab')),
              Field('b', None, 'l')])
    run(s, merge([q]), ids=(0, 1), max_len=1)


@scenario()
def two_nested_links(s):
    """Two links of the same object, each of which requires field a."""
    items = []
    for i in range(2):
        name = s.char('l%d' % i, 'lmoq')
        items.append(Link(name, Node([Field('b')]),
                          options(s, 'l%d' % i, name), 'z%d' % i))
    run(s, merge([Node([Link('m', Node(items))])]), ids=(0, 1), max_len=1)


@scenario()
def nothing_below(s):
    """Links from which nothing is requested: there are as many objects as
    there are."""
    top = s.char('top', 'lmop')
    low = (s.char('low', 'lmoqn') if top in 'lm' else
           s.char('low_m', 'lmk'))
    items = [Link(low, Node([]), None, 'k' if s.choice('alias', 2) else None)]
    if s.choice('field', 2):
        items.insert(s.choice('first', 2), Field(s.char('f', 'ab')))
    q = [Link(top, Node(items)), Link('l', Node([]), None, 'z')]
    if s.choice('order', 2):
        q.reverse()
    run(s, Node(q, ordered=s.choice('ordered', 2) == 1), ids=(0, 1),
        max_len=2)


@scenario()
def records(s):
    """Complex fields at the root and below links."""
    def rec(p):
        g = s.char(p + '.g', 'xy')
        sub = [Field(g, None, 'w' if s.choice(p + '.alias', 2) else None)]
        if s.choice(p + '.two', 2):
            sub.append(Field('y', None, 'v'))
        return Link('e', Node(sub), None,
                    'u' if s.choice(p + '.ealias', 2) else None)
    link = s.char('l', 'lmo')
    run(s, merge([Node([rec('r1'), Link(link, Node([Field('b'), rec('r2')]))])]),
        ids=(0, 1))


@scenario()
def ordered(s):
    """Ordered queries (mutations) give the same result."""
    items = []
    for i in range(3):
        k = s.choice('k%d' % i, 3)
        if k == 0:
            items.append(Field(s.char('n%d' % i, 'ab'), None, 'z%d' % i))
        elif k == 1:
            name = s.char('n%d' % i, 'lp')
            items.append(Link(name, Node([Field('b')]),
                              options(s, 'l%d' % i, name), 'z%d' % i))
        else:
            items.append(Link('e', Node([Field('x')]), None, 'z%d' % i))
    run(s, Node(items, ordered=True), ids=(0, 1), max_len=1)


@scenario(params={'quick': {'len': 1, 'names': 'lo'},
                  'thorough': {'len': 2, 'names': 'lmoq'}}, timeout=120)
def deep(s):
    """Three nested links; the innermost objects may be the outer ones."""
    l2 = s.char('l2', s.params['names'])
    sub = [Field('b')]
    l3 = s.char('l3', 'lmk' if l2 == 'o' else s.params['names'])
    q3 = Link(l3, Node([leaf(s, 'f3', 'bd')]), options(s, 'l3', l3))
    q2 = Link(l2, Node([Field('b'), q3]), options(s, 'l2', l2))
    q1 = Link('l', Node([Field('a'), q2]))
    run(s, merge([Node([q1])]), ids=(0, 1), max_len=s.params['len'])


IDENTS = ('', 'a', (), (1, 2), None, False, 0, 0.0, 1.5, frozenset(), 7)


@scenario(params={'quick': {'n': 1}, 'thorough': {'n': 2}})
def identifiers(s):
    """Objects are identified by any values which can be hashed."""
    def ids(p, n):
        return [s.pick('%s%d' % (p, i), IDENTS) for i in range(n)]
    many = ids('many', s.choice('n', s.params['n'] + 1))
    one, = ids('one', 1)

    def fields(fs, idents):
        return [[(f.name, i) for f in fs] for i in idents]

    def same(idents):
        return list(idents)
    empty = s.choice('nothing', 2)
    top = s.pick('top', ('one', 'may', 'all'))
    sub = s.pick('sub', ('-', 'self', 'may', 'all', 'else', 'elses'))
    if sub in ('else', 'elses'):
        other, = ids('other', 1)
    graph = Graph([
        GNode('N', [
            GField('i', Integer, lambda fs, idents: [[i for _ in fs]
                                                     for i in idents]),
            GField('a', Integer, fields),
            GLink('self', TypeRef['N'], same, requires='i'),
            GLink('may', Optional[TypeRef['N']], lambda idents: [
                Nothing if empty else i for i in idents], requires='i'),
            GLink('else', Optional[TypeRef['N']], lambda idents: [
                Nothing if empty else other for i in idents], requires='i'),
            GLink('elses', Sequence[TypeRef['N']], lambda idents: [
                [other] * (1 - empty) for i in idents], requires='i'),
            GLink('all', Sequence[TypeRef['N']], lambda idents: [
                [i] * (1 - empty) for i in idents], requires='i')]),
        Root([
            GLink('one', TypeRef['N'], lambda: one, requires=None),
            GLink('may', Optional[TypeRef['N']],
                  lambda: Nothing if empty else one, requires=None),
            GLink('all', Sequence[TypeRef['N']], lambda: many,
                  requires=None)])])
    items = [Field('a')] + ([Link(sub, Node([Field('a')]))]
                            if sub != '-' else [])
    got = denormalize(graph, Engine(SyncExecutor()).execute(graph, Node([
        Link(top, Node(items))])))

    def obj(i):
        out = {'a': ('a', i)}
        if sub == 'self':
            out['self'] = {'a': ('a', i)}
        elif sub == 'may':
            out['may'] = None if empty else {'a': ('a', i)}
        elif sub == 'else':
            out['else'] = None if empty else {'a': ('a', other)}
        elif sub == 'elses':
            out['elses'] = [{'a': ('a', other)}] * (1 - empty)
        elif sub == 'all':
            out['all'] = [{'a': ('a', i)}] * (1 - empty)
        return out
    want = {'one': lambda: obj(one),
            'may': lambda: None if empty else obj(one),
            'all': lambda: [obj(i) for i in many]}[top]()
    used = (many if top == 'all' else [one]) + (
        [other] if sub in ('else', 'elses') else [])
    if any(type(x) is not type(y) and x == y for x in used for y in used):
        # equal values (0, 0.0 and False) identify one object
        return
    s.check(repr(got) == repr({top: want}), 'the result', (got, want))


@scenario()
def repeated_objects(s):
    """The same object several times, with links which do not depend on
    it."""
    run(s, Node([Link('l', Node([Link(
        s.pick('l2', ('n', 'r', 'v')), Node([Field('b')]))]))]),
        ids=(0, 1), max_len=3)


@scenario(tier='thorough', timeout=120)
def long_lists(s):
    name = s.char('l', 'lp')
    q = Node([Link(name, Node([leaf(s, 'f', 'bd'),
                               Link('l', Node([Field('b')]))]),
                   options(s, 'l', name))])
    run(s, merge([q]), max_len=3, ids=(0, 2))


@scenario(tier='thorough', timeout=120)
def wide(s):
    items = [leaf(s, 'f', 'abc')]
    for i in range(2):
        name = s.char('l%d' % i, 'lmop')
        items.append(Link(name, Node([leaf(s, 'g%d' % i, 'bd'),
                                      Link('l', Node([Field('b')]))]),
                          options(s, 'l%d' % i, name), 'z%d' % i))
    run(s, merge([Node(items)]), ids=(0, 1), max_len=2)


def sized_graph(ids, plus={}):
    """Objects known by numbers, their values are computed."""
    def fields(fs, idents):
        return [[3 * i + (f.options or {}).get('x', 0) if f.name == 'c'
                 else plus.get(i, 0) + 2 * i + 1 if f.name == 'b' else i
                 for f in fs] for i in idents]

    def many(idents):
        return [[i + 1, i] for i in idents]
    names = ['f%d' % i for i in range(130)]

    def wide(fs, idents):
        return [[i * 1000 + int(f.name[1:]) for f in fs] for i in idents]
    return Graph([
        GNode('N', [
            GField('i', Integer, fields), GField('b', Integer, fields),
            GField('c', Integer, fields,
                   options=[Option('x', Integer, default=0)])
        ] + [GField(n, Integer, wide) for n in names] + [
            GLink('self', TypeRef['N'], list, requires='i'),
            GLink('may', Optional[TypeRef['N']], lambda idents: [
                Nothing if i % 2 else i for i in idents], requires='i'),
            GLink('two', Sequence[TypeRef['N']], many, requires='i')]),
        Root([GLink('all', Sequence[TypeRef['N']], lambda: list(ids),
                    requires=None)] +
             [GField(n, Integer, lambda fs: [int(f.name[1:]) for f in fs])
              for n in names])])


@scenario(timeout=60)
def large_answers(s):
    """Many objects; one of them, at a picked place, is any other one of a
    few, or has any value."""
    n = s.pick('size', SIZES)
    ids = [7 * i % 1031 for i in range(n)]
    plus = {}
    if n:
        k = place(s, 'place', n)
        if n <= 16:
            ids[k] = s.int('object', 0, 60)
        else:
            ids[k] = ids[s.pick('as', (k, 0, n - 1))]
            plus[ids[k]] = s.int('value', 0, 99)
    graph = sized_graph(ids, plus)
    sub = s.pick('sub', ('-', 'self', 'two'))
    items = [Field('i'), Field('b')] + (
        [Link(sub, Node([Field('b')]))] if sub != '-' else [])
    got = denormalize(graph, Engine(SyncExecutor()).execute(
        graph, Node([Link('all', Node(items))])))

    def b(i):
        return plus.get(i, 0) + 2 * i + 1

    def obj(i):
        out = {'i': i, 'b': b(i)}
        if sub == 'self':
            out['self'] = {'b': b(i)}
        elif sub == 'two':
            out['two'] = [{'b': b(i + 1)}, {'b': b(i)}]
        return out
    s.check(s.eq(got, {'all': [obj(i) for i in ids]}), 'the result')


@scenario()
def large_queries(s):
    """Many fields, many aliases, many links and long chains of links."""
    kind = s.pick('kind', ('root fields', 'fields', 'options', 'links',
                           'chain'))
    x = s.int('object', 0, 2000)
    graph = sized_graph([5, x])
    n = s.pick('size', DEEP if kind == 'chain' else WIDE)
    if kind == 'root fields':
        q = Node([Field('f%d' % i) for i in range(n)])
        want = dict([('f%d' % i, i) for i in range(n)])
    elif kind == 'fields':
        q = Node([Link('all', Node([Field('f%d' % i) for i in range(n)]))])
        want = {'all': [dict([('f%d' % i, o * 1000 + i) for i in range(n)])
                        for o in (5, x)]}
    elif kind == 'options':
        q = Node([Link('all', Node([Field('c', {'x': i}, 'z%d' % i)
                                    for i in range(n)]))])
        want = {'all': [dict([('z%d' % i, o * 3 + i) for i in range(n)])
                        for o in (5, x)]}
    elif kind == 'links':
        q = Node([Link('all', Node([Link('self', Node([Field('f%d' % i)]),
                                         None, 'z%d' % i)
                                    for i in range(n)]))])
        want = {'all': [dict([('z%d' % i, {'f%d' % i: o * 1000 + i})
                              for i in range(n)]) for o in (5, x)]}
    else:
        q = Node([Field('b')])
        want = [{'b': 2 * o + 1} for o in (5, x)]
        for _ in range(n):
            q = Node([Field('i'), Link('self', q)])
            want = [{'i': o, 'self': w} for o, w in zip((5, x), want)]
        q = Node([Link('all', q)])
        want = {'all': want}
    got = denormalize(graph, Engine(SyncExecutor()).execute(graph, q))
    s.check(s.eq(got, want), 'the result', got)
