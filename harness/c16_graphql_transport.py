"""C16: export to GraphQL and reading back."""
from symx.session import scenario
from harness import gqldoc as g
from hiku.export.graphql import export
from hiku.readers.graphql import read, read_operation
from hiku.query import Node, Field, Link, merge
from harness.world import attempt
from harness import qtree, vals
from harness.sizes import large_query

ASSUMPTIONS = [
    'names are names of GraphQL, no selection is empty',
    'values are null, booleans, integers, finite floats, strings, lists and '
    'dictionaries with names as keys',
    'ordered queries (mutations) are not exported',
    'graphql-core prints and parses the exported tree (strings without '
    'characters outside of the basic plane, which it does not preserve)',
]
BOUNDS = ('queries with up to 2 (thorough: 3) items at each of 2 levels, '
          'options nested up to 2 levels, symbolic leaves and names; '
          'up to 129 items, 50 levels, options of up to 129 elements or 50 '
          'levels')


def there_and_back(s, q):
    doc, err = attempt(lambda: export(q))
    s.check(err is None, 'the query is exported', err)
    src = g.source(s, doc)
    if s.choice('via', 2):
        got, err = attempt(lambda: read_operation(src).query)
    else:
        got, err = attempt(lambda: read(src))
    s.check(err is None, 'the exported document is read', err)
    return got


@scenario(params={'quick': {'n': 2, 'depth': 1}, 'thorough': {'n': 3, 'depth': 1}})
def shapes(s):
    """Fields, links and aliases."""
    q = qtree.gen(s, 'q', s.params['n'], s.params['depth'])
    got = there_and_back(s, q)
    s.check(qtree.same(s, got, q, fields_first=True), 'the same query',
            (got, q))
    s.check(not got.ordered, 'not ordered')


@scenario(params={'quick': {'depth': 1, 'len': 2},
                  'thorough': {'depth': 2, 'len': 2}}, timeout=200)
def values(s):
    """Options of every kind."""
    v = vals.value(s, 'v', s.params['depth'], maxlen=s.params['len'])
    key = s.char('key', 'op')
    if s.choice('link', 2):
        q = Node([Link('l', Node([Field('a')]), {key: v})])
    else:
        q = Node([Field('a', {key: v})])
    got = there_and_back(s, q)
    s.check(qtree.same(s, got, q), 'the same query', (got, q))


@scenario()
def numbers(s):
    """Integers of any size, and floats."""
    k = s.choice('k', 2)
    if k:
        v = s.int('i', -10 ** 12, 10 ** 12)
    else:
        v = s.pick('f', (0.0, -0.0, 1.0, 1.5, -2.25, 0.1, 1e22, 1e-7,
                         1.7976931348623157e308, 5e-324, 123456789.125,
                         1e16))
    q = Node([Field('a', {'o': v})])
    got = there_and_back(s, q)
    s.check(qtree.same(s, got, q), 'the same query', (got, q))


@scenario(params={'quick': {'len': 3}, 'thorough': {'len': 5}})
def strings(s):
    """Strings with any characters of the basic plane."""
    v = s.string('v', 0, s.params['len'],
                 [(0x20, 0xd7ff), (0xe000, 0xffff), (9, 10), (13, 13)])
    where = s.choice('where', 3)
    o = {'o': v if where == 0 else [v] if where == 1 else {'k': v}}
    q = Node([Field('a', o)])
    got = there_and_back(s, q)
    s.check(qtree.same(s, got, q), 'the same query', (got, q))


@scenario()
def look_alikes(s):
    """Values which equal or print like values of other types."""
    v = s.pick('v', (True, False, 1, 0, 1.0, 0.0, '1', 'true', 'null', None,
                     '', [], {}, [None], [[]], [{}], {'a': None}, '$v',
                     '"', '\\'))
    w = s.pick('w', (True, 1, 1.0, '1', None))
    q = Node([Field('a', {'o': v, 'p': w}, 'x'), Field('a', {'o': w}),
              Link('l', Node([Field('b', {'o': [w, v]})]), {'o': {'k': v}})])
    got = there_and_back(s, q)
    s.check(qtree.same(s, got, q), 'the same query', (got, q))


@scenario(params={'quick': {'n': 2, 'depth': 0}, 'thorough': {'n': 2, 'depth': 1}})
def with_options(s):
    """Options at every item."""
    q = qtree.gen(s, 'q', s.params['n'], s.params['depth'],
                  opts=qtree.options(s, 0, 'isn'), alias=False)
    got = there_and_back(s, q)
    s.check(qtree.same(s, got, q, fields_first=True, empty=True),
            'the same query', (got, q))


@scenario(covers=('same',))
def deeper(s):
    """Options and aliases below links."""
    o = qtree.options(s, 1, 'il', n=1)
    q = Node([Link('l', Node([
        Link(s.char('m', 'mn'), Node([Field('a', o('a'), s.char('al', 'xy')),
                                      Field('a', o('b'))]), o('m')),
        Field('b')]), None, 'z')])
    got = there_and_back(s, q)
    s.cover('same')
    s.check(qtree.same(s, got, q, fields_first=True, empty=True),
            'the same query', (got, q))


@scenario()
def merged(s):
    """Queries with repeated selections are read as their merge."""
    q = qtree.gen(s, 'q', 2, 1, distinct=False, alias=False)
    got = there_and_back(s, q)
    s.check(qtree.same(s, got, merge([q])), 'the merged query', (got, q))


@scenario(covers=('refused',))
def unsupported(s):
    """Values which the format cannot represent are refused."""
    v = s.pick('v', (object(), b'a', {1, 2}, 1j))
    where = s.choice('where', 3)
    o = {'o': v if where == 0 else [s.int('i', 0, 9), v] if where == 1
         else {'k': v}}
    q = (Node([Field('a', o)]) if s.choice('field', 2) else
         Node([Link('l', Node([Field('a')]), o)]))
    _, err = attempt(lambda: export(q))
    s.cover('refused')
    s.check(isinstance(err, TypeError), 'refused', err)


@scenario()
def large(s):
    """Large queries and large options."""
    q = large_query(s)
    got = there_and_back(s, q)
    s.check(qtree.same(s, got, q, fields_first=True), 'the same query',
            (got, q))
