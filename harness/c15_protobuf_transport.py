"""C15: export to the binary format and reading back."""
from symx.session import scenario
from harness import pbstub
from hiku.protobuf import query_pb2
from hiku.export.protobuf import export
from hiku.readers.protobuf import read
from hiku.query import Node, Field, Link, merge
from harness.world import attempt
from harness import qtree, vals
from harness.sizes import large_query

ASSUMPTIONS = [
    'names are not empty; strings hold no lone surrogates',
    'values are null, booleans, numbers, strings, lists and dictionaries '
    'with strings as keys; numbers are finite and within the exact range of '
    'doubles (they come back as floats)',
    'aliases and the order of a mutation are not a part of the format',
    'messages are represented by the model in harness/pbstub.py, their '
    'binary encoding is lossless (replays use the real one)',
]
BOUNDS = ('queries with up to 2 (thorough: 3) items at each of 2 levels, '
          'options nested up to 2 levels with symbolic leaves; messages '
          'with up to 2 items at each of 3 levels; up to 129 items, '
          '50 levels, options of up to 129 elements or 50 levels')

UNICODE = [(0, 0xd7ff), (0xe000, 0x10ffff)]


def same_value(s, a, b):
    """Equal, numbers as numbers."""
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and s.all(
            [same_value(s, x, y) for x, y in zip(a, b)])
    if isinstance(b, dict):
        return isinstance(a, dict) and len(a) == len(b) and s.all(
            [s.any([s.all([s.eq(k2, k), same_value(s, v2, v)])
                    for k2, v2 in a.items()]) for k, v in b.items()])
    if b is None:
        return a is None
    if isinstance(b, bool) or isinstance(a, bool):
        return (isinstance(a, bool) and isinstance(b, bool)
                and s.eq(a, b))
    if isinstance(b, str):
        return isinstance(a, str) and s.eq(a, b)
    return isinstance(a, (int, float)) and s.eq(a, b)


def same(s, got, want, fields_first=True):
    xs, ys = list(got.fields), list(want.fields)
    if fields_first:
        ys = ([y for y in ys if not isinstance(y, Link)] +
              [y for y in ys if isinstance(y, Link)])
    if len(xs) != len(ys):
        return False
    conds = []
    for x, y in zip(xs, ys):
        if type(x) is not type(y) or x.alias is not None:
            return False
        conds.append(s.eq(x.name, y.name))
        if (x.options is None) != (y.options is None):
            return False
        if y.options is not None:
            conds.append(same_value(s, x.options, y.options))
        if isinstance(y, Link):
            conds.append(same(s, x.node, y.node, fields_first))
    return s.all(conds)


def there_and_back(s, q):
    pbstub.use(s)
    data, err = attempt(lambda: export(q).SerializeToString())
    s.check(err is None, 'the query is exported', err)
    got, err = attempt(lambda: read(data))
    s.check(err is None, 'the exported query is read', err)
    return got


def check(s, q):
    got = there_and_back(s, q)
    s.check(same(s, got, q), 'the same query', (got, q))


@scenario(params={'quick': {'n': 2}, 'thorough': {'n': 3}}, timeout=120)
def shapes(s):
    """Fields and links."""
    check(s, qtree.gen(s, 'q', s.params['n'], 1, names='abc', alias=False))


@scenario(params={'quick': {'depth': 1}, 'thorough': {'depth': 2}},
          timeout=120)
def values(s):
    """Options of every kind."""
    v = vals.value(s, 'v', s.params['depth'], maxlen=2, ints=(-9999, 9999))
    key = s.char('key', 'op')
    if s.choice('link', 2):
        q = Node([Link('l', Node([Field('a')]), {key: v})])
    else:
        q = Node([Field('a', {key: v})])
    check(s, q)


@scenario()
def strings(s):
    """Strings with any characters at any place, also as names."""
    v = s.string('v', 0, 3, UNICODE)
    n = s.string('n', 1, 2, UNICODE)
    where = s.choice('where', 3)
    o = {n: v if where == 0 else [v, 1] if where == 1 else {v: n}}
    q = (Node([Field(n, o)]) if s.choice('field', 2) else
         Node([Link(n, Node([Field(n)]), o)]))
    check(s, q)


@scenario()
def look_alikes(s):
    """Values which equal or print like values of other types."""
    v = s.pick('v', (True, False, 1, 0, 1.0, 0.0, 0.1, '1', 'true', 'null',
                     None, '', [], {}, [None], [[]], [{}], {'a': None},
                     2 ** 53, -2 ** 53, 1e22, 5e-324, {'a': {'b': [1]}},
                     {'': ''}))
    w = s.pick('w', (True, 1, 1.5, '1', None))
    q = Node([Field('a', {'o': v, 'p': w}), Field('b', {'o': w}),
              Link('l', Node([Field('b', {'o': [w, v]})]), {'o': {'k': v}})])
    check(s, q)


@scenario(params={'quick': {'n': 2, 'depth': 0},
                  'thorough': {'n': 2, 'depth': 1}}, timeout=120)
def with_options(s):
    """Options (none, empty or some) at every item."""
    q = qtree.gen(s, 'q', s.params['n'], s.params['depth'],
                  opts=qtree.options(s, 0, 'isn'), alias=False)
    check(s, q)


@scenario()
def aliased(s):
    """Aliases are left out: the names are those of fields and links."""
    def alias(p):
        return s.char(p, 'abcl') if s.choice(p + '.given', 2) else None
    names = [s.char('n%d' % i, 'abc') for i in range(2)]
    s.assume(s.not_(s.eq(*names)))
    o = s.pick('options', (None, {'o': 1}))

    def make(a):
        return Node([Field(names[0], o, a('f')),
                     Link(names[1], Node([Field('a', None, a('g')),
                                          Field('b', o)]), o, a('l'))])
    got = there_and_back(s, make(alias))
    want = make(lambda p: None)
    s.check(same(s, got, want), 'the same query without aliases', (got, want))


@scenario(timeout=120)
def deeper(s):
    """Options below links, empty nodes."""
    o = qtree.options(s, 1, 'il', n=1)
    q = Node([Link('l', Node([
        Link(s.char('m', 'mn'), Node([Field('a', o('a')),
                                      Field('c', o('b'))]), o('m')),
        Link('o', Node([])), Field('b')]), None)])
    check(s, q)


@scenario(timeout=120)
def merged(s):
    """Repeated selections are read as their merge."""
    q = qtree.gen(s, 'q', 2, 1, distinct=False, alias=False)
    got = there_and_back(s, q)
    s.check(same(s, got, merge([q]), False), 'the merged query', (got, q))


@scenario(covers=('refused',))
def unsupported(s):
    """Values which the format cannot represent are refused."""
    v = s.pick('v', (object(), b'a', (1,), {1, 2}, 1j))
    where = s.choice('where', 3)
    o = {'o': v if where == 0 else [s.int('i', 0, 9), v] if where == 1
         else {'k': v}}
    q = (Node([Field('a', o)]) if s.choice('field', 2) else
         Node([Link('l', Node([Field('a')]), o)]))
    pbstub.use(s)
    _, err = attempt(lambda: export(q).SerializeToString())
    s.cover('refused')
    s.check(err is not None, 'refused', err)


# -- messages of any form

class Bad(Exception):
    pass


def message(s, p, m, depth):
    """Fills a message; returns what it means: (Bad, None) or a node."""
    fields = []
    bad = False
    for i in range(s.choice(p + '.n', s.params['n'][depth])):
        q = '%s.%d' % (p, i)
        item = m.items.add()
        k = s.choice(q + '.k', 3 if depth else 2)
        if k == 0:
            bad = True                  # an empty item
            continue
        x = item.field if k == 1 else item.link
        n = ''
        nk = s.choice(q + '.named', 3 if depth == s.params['depth'] else 2)
        if nk == 0:
            x.SetInParent()
        else:
            if nk == 1:
                n = s.char(q + '.name', 'ab')
            x.name = n
        if n == '':
            bad = True
        o = None
        ok = s.choice(q + '.o', 3) if s.params['opts'] else 0
        if ok:
            v = s.int(q + '.v', 0, 9)
            o = {'o': v} if ok == 2 else {}
            if ok == 2:
                x.options.update(o)
            else:
                x.options.Clear()
        if k == 1:
            fields.append(Field(n, o))
        else:
            sub = message(s, q, x.node, depth - 1)
            if sub is Bad:
                bad = True
            else:
                fields.append(Link(n, sub, o))
    return Bad if bad else Node(fields)


@scenario(covers=('malformed', 'fine'), params={
    'quick': {'depth': 1, 'n': (2, 3), 'opts': False},
    'thorough': {'depth': 2, 'n': (2, 2, 3), 'opts': False}}, timeout=200)
def messages(s):
    """Messages of any form are read as they say, or refused."""
    pbstub.use(s)
    m = query_pb2.Node()
    want = message(s, 'm', m, s.params['depth'])
    data = m.SerializeToString()
    got, err = attempt(lambda: read(data))
    if want is Bad:
        s.cover('malformed')
        s.check(isinstance(err, TypeError), 'refused', (err, got))
        return
    s.cover('fine')
    s.check(err is None, 'the message is read', err)
    s.check(same(s, got, merge([want]), False), 'as written', (got, want))


@scenario(covers=('malformed', 'fine'),
          params={'depth': 1, 'n': (2, 2), 'opts': True}, timeout=100)
def messages_with_options(s):
    messages(s)


@scenario()
def large(s):
    """Large queries and large options."""
    check(s, large_query(s, ints=False))
