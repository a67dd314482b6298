"""C14: export to the textual format and reading back."""
from symx.session import scenario
from hiku import edn
from hiku.edn import Keyword, Symbol, List, Tuple, Dict, Set, TaggedElement
from hiku.export.simple import export
from hiku.readers.simple import read
from hiku.query import Node, Field, Link, merge
from harness.world import attempt
from harness import qtree, vals
from harness.sizes import large_query

ASSUMPTIONS = [
    'names (of fields, links, options and keys inside of options) start with '
    'a letter and hold only characters EDN allows in keywords',
    'values are null, booleans, integers, finite floats, strings without '
    'lone surrogates, lists, dictionaries and sets (which come back as '
    'frozen sets)',
    'aliases and the order of a mutation are not a part of the format',
]
BOUNDS = ('queries with up to 2 (thorough: 3) items at each of 2 levels, '
          'options nested up to 2 levels with symbolic leaves; documents '
          'with up to 2 elements at each of 3 levels; up to 129 items, '
          '50 levels, options of up to 129 elements or 50 levels')

UNICODE = [(0, 0xd7ff), (0xe000, 0x10ffff)]


def there_and_back(s, q):
    text, err = attempt(lambda: edn.dumps(export(q)))
    s.check(err is None, 'the query is exported', err)
    got, err = attempt(lambda: read(text))
    s.check(err is None, 'the exported query is read', (text, err))
    return got


def check(s, q):
    got = there_and_back(s, q)
    s.check(qtree.same(s, got, q, fields_first=True, alias=False),
            'the same query', (got, q))


@scenario(params={'quick': {'n': 2}, 'thorough': {'n': 3}}, timeout=120)
def shapes(s):
    """Fields and links."""
    check(s, qtree.gen(s, 'q', s.params['n'], 1, names='abc', alias=False))


@scenario(params={'quick': {'depth': 1}, 'thorough': {'depth': 2}},
          timeout=120)
def values(s):
    """Options of every kind."""
    v = vals.value(s, 'v', s.params['depth'], maxlen=2, ints=(-20, 20),
                   alphabet='a"')
    if s.params['depth'] == 1:
        s.assume(not isinstance(v, dict) or all(
            [not s.eq(k, '"') for k in v]))
    key = s.char('key', 'op')
    if s.choice('link', 2):
        q = Node([Link('l', Node([Field('a')]), {key: v})])
    else:
        q = Node([Field('a', {key: v})])
    check(s, q)


@scenario(params={'quick': {'n': 2}, 'thorough': {'n': 3}}, timeout=120)
def strings(s):
    """Strings with any characters at any place."""
    v = s.string('v', 0, s.params['n'], UNICODE)
    where = s.choice('where', 3)
    o = {'o': v if where == 0 else [v, 1] if where == 1 else {'k': v}}
    check(s, Node([Field('a', o), Field('b')]))


@scenario(params={'quick': {'n': 2}, 'thorough': {'n': 3}}, timeout=120)
def names(s):
    """Names of any characters."""
    def name(p):
        return s.char(p + '.first', [(65, 90), (97, 122)]) + s.string(
            p, 0, s.params['n'] - 1, [(65, 90), (97, 122), (48, 57),
                                      (95, 95), (45, 45)])
    k = s.choice('where', 4)
    n = name('n')
    if k == 0:
        q = Node([Field(n), Field('z-', {'o': 1})])
        s.assume(s.not_(s.eq(n, 'z-')))
    elif k == 1:
        q = Node([Link(n, Node([Field('a')]), {'x': True})])
    elif k == 2:
        q = Node([Field('a', {n: 5})])
    else:
        q = Node([Field('a', {'o': {n: [n]}})])
    check(s, q)


@scenario()
def look_alikes(s):
    """Values which equal or print like values of other types."""
    v = s.pick('v', (True, False, 1, 0, 1.0, 0.0, '1', 'true', 'nil', None,
                     '', [], {}, [None], [[]], [{}], {'a': None}, ':k',
                     '"', '\\', '\\n', 1e22, -0.0, 1e-7, {'a': {'b': [1]}}))
    w = s.pick('w', (True, 1, 1.0, '1', None))
    q = Node([Field('a', {'o': v, 'p': w}), Field('b', {'o': w}),
              Link('l', Node([Field('b', {'o': [w, v]})]), {'o': {'k': v}})])
    check(s, q)


@scenario()
def sets(s):
    """Sets."""
    x, y = s.int('x', -9, 9), s.string('y', 0, 1, 'ab')
    v = s.pick('v', ({x}, {y}, {x, y}, frozenset([x]), set()))
    got = there_and_back(s, Node([Field('a', {'o': v})]))
    o = got.fields[0].options['o']
    s.check(isinstance(o, frozenset) and len(o) == len(v) and
            s.all([s.any([s.strict_eq(a, b) for b in o]) for a in v]),
            'the same set', (o, v))


@scenario(params={'quick': {'n': 2, 'depth': 0},
                  'thorough': {'n': 2, 'depth': 1}}, timeout=120)
def with_options(s):
    """Options at every item."""
    q = qtree.gen(s, 'q', s.params['n'], s.params['depth'],
                  opts=qtree.options(s, 0, 'isn'), alias=False)
    check(s, q)


@scenario()
def aliased(s):
    """Aliases are left out: the names are those of fields and links."""
    def alias(p):
        return s.char(p, 'abcl') if s.choice(p + '.given', 2) else None
    names = [s.char('n%d' % i, 'abc') for i in range(2)]
    s.assume(s.not_(s.eq(*names)))
    o = s.pick('options', (None, {'o': 1}))

    def make(a):
        return Node([Field(names[0], o, a('f')),
                     Link(names[1], Node([Field('a', None, a('g')),
                                          Field('b', o)]), o, a('l'))])
    got = there_and_back(s, make(alias))
    want = make(lambda p: None)
    s.check(qtree.same(s, got, want, fields_first=True), 'the same query without aliases', (got, want))


@scenario(timeout=120)
def deeper(s):
    """Options below links."""
    o = qtree.options(s, 1, 'il', n=1)
    q = Node([Link('l', Node([
        Link(s.char('m', 'mn'), Node([Field('a', o('a')),
                                      Field('c', o('b'))]), o('m')),
        Field('b')]), None)])
    check(s, q)


@scenario(timeout=120)
def merged(s):
    """Repeated selections are read as their merge."""
    q = qtree.gen(s, 'q', 2, 1, distinct=False, alias=False)
    got = there_and_back(s, q)
    s.check(qtree.same(s, got, merge([q]), alias=False), 'the merged query',
            (got, q))


@scenario(covers=('refused',))
def unsupported(s):
    """Values which the format cannot represent are refused."""
    v = s.pick('v', (object(), b'a', (1,), 1j))
    where = s.choice('where', 3)
    o = {'o': v if where == 0 else [s.int('i', 0, 9), v] if where == 1
         else {'k': v}}
    q = (Node([Field('a', o)]) if s.choice('field', 2) else
         Node([Link('l', Node([Field('a')]), o)]))
    _, err = attempt(lambda: export(q))
    s.cover('refused')
    s.check(isinstance(err, TypeError), 'refused', err)


# -- documents of any form

def doc(s, p, depth, ks):
    k = s.pick(p + '.kind', [x for x in ks if depth or x in 'kyisn'])
    if k == 'k':
        return Keyword(s.char(p + '.k', 'ab'))
    if k == 'y':
        return Symbol(s.char(p + '.y', 'ab'))
    if k == 'i':
        return s.int(p + '.i', 0, 9)
    if k == 's':
        return s.string(p + '.s', 0, 1, 'a')
    if k == 'n':
        return None
    if k == '#':
        return TaggedElement('t', doc(s, p + '.t', depth - 1, ks))
    n = s.choice(p + '.n', 3)
    if k in 'lte':
        xs = [doc(s, '%s.%d' % (p, i), depth - 1, ks) for i in range(n)]
        return (List if k == 'l' else Tuple if k == 't' else Set)(xs)
    keys = [doc(s, '%s.k%d' % (p, i), depth - 1, ks) for i in range(n)]
    for i in range(n):
        for j in range(i):
            s.assume(s.not_(s.eq(keys[i], keys[j])))
    return Dict([(x, doc(s, '%s.%d' % (p, i), depth - 1, ks))
                 for i, x in enumerate(keys)])


class Bad(Exception):
    pass


def named(v):
    """(name, options) of a keyword or of a keyword with options."""
    if isinstance(v, Keyword):
        return str(v), None
    if isinstance(v, Tuple):
        if (len(v) == 2 and isinstance(v[0], Keyword)
                and isinstance(v[1], Dict)
                and all(isinstance(k, Keyword) for k in v[1])):
            return str(v[0]), {str(k): plain(x) for k, x in v[1].items()}
    raise Bad()


def plain(v):
    if isinstance(v, List):
        return [plain(x) for x in v]
    if isinstance(v, Dict):
        return {str(k) if isinstance(k, Keyword) else k: plain(x)
                for k, x in v.items()}
    return v


def meaning(v):
    if not isinstance(v, List):
        raise Bad()
    fields = []
    for x in v:
        if isinstance(x, Dict):
            for k, sub in x.items():
                name, o = named(k)
                fields.append(Link(name, meaning(sub), o))
        else:
            name, o = named(x)
            fields.append(Field(name, o))
    return Node(fields)


def document(s, v, label):
    text, err = attempt(lambda: edn.dumps(v))
    s.check(err is None, 'printed')
    got, err = attempt(lambda: read(text))
    try:
        want = meaning(v)
    except Bad:
        s.cover('malformed')
        s.check(isinstance(err, TypeError), 'a malformed document is refused',
                (v, got, err))
        return
    s.cover('fine')
    s.check(err is None, label + ': the document is read', (v, err))
    s.check(qtree.same(s, got, merge([want]), alias=False),
            label + ': as written', (v, got, want))


C = ('malformed', 'fine')


@scenario(covers=C, params={
    'quick': {'kinds': ('ltk', 'ldk', 'lyk#e'), 'depth': 2},
    'thorough': {'kinds': ('ltdk', 'lysin#ek'), 'depth': 2}}, timeout=200)
def documents(s):
    """Documents of any form."""
    v = doc(s, 'd', s.params['depth'], s.pick('kinds', s.params['kinds']))
    document(s, v, 'document')


@scenario(covers=C, timeout=120)
def options_of_any_form(s):
    """Items with options of any form."""
    o = doc(s, 'o', 1, 'dlkys')
    extra = s.choice('extra', 3)
    item = (Tuple([doc(s, 'n', 0, 'kys'), o]) if extra == 0 else
            Tuple([Keyword('a'), o, doc(s, 'e', 0, 'ki')]) if extra == 1 else
            Tuple([o]))
    if s.choice('link', 2):
        item = Dict([(item, List([Keyword('x')]))])
    document(s, List([item]), 'options')


@scenario(covers=('fine',), timeout=120)
def values_of_any_form(s):
    """Options whose values have any form: their dictionaries may have keys
    of any kind, only keywords are read as strings."""
    v = doc(s, 'v', 1, 'dteyi')
    if s.choice('deep', 2):
        v = s.pick('in', (lambda: List([v]), lambda: Dict([(
            s.pick('key', (Keyword('k'), Symbol('k'), 'k', 1, None)), v)])))()
    item = Tuple([Keyword('a'), Dict([(Keyword('o'), v)])])
    if s.choice('link', 2):
        item = Dict([(item, List([Keyword('x')]))])
    document(s, List([item]), 'options')


@scenario(covers=('fine',), timeout=120)
def several_links(s):
    """Several links in one mapping."""
    a, b = s.char('a', 'abc'), s.char('b', 'abc')
    s.assume(s.not_(s.eq(a, b)))
    v = List([Keyword(s.char('f', 'abc')),
              Dict([(Keyword(a), List([Keyword('x')])),
                    (Tuple([Keyword(b), Dict([(Keyword('o'), List([
                        s.int('i', 0, 9), Keyword('k'), Symbol('y')]))])]),
                     List([Keyword('x'), Dict([])]))])])
    document(s, v, 'several links')


@scenario()
def large(s):
    """Large queries and large options."""
    check(s, large_query(s))
