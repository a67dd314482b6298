"""C44: types and queries are values."""
from symx.session import scenario
from hiku import types as t
from hiku.query import (Node, Field, Link, QueryTransformer, QueryVisitor,
                        merge)
from hiku.result import denormalize                     # noqa: F401
from harness.world import attempt
from harness.sizes import DEEP, place

ASSUMPTIONS = [
    'records whose fields are the same but in another order are left open',
    'options are compared as Python values (1 and true are equal)',
]
BOUNDS = ('types nested up to 2 levels (thorough: 3) with symbolic names of '
          'fields and references; queries of up to 2 items at 2 levels with '
          'symbolic names, aliases and options; types and queries with up to '
          '65 parts or 50 levels which differ at one place')

PLAIN = ('Any', 'Boolean', 'String', 'Integer', 'Float')


# -- types: descriptions (kind, parts...)

def a_type(s, p, depth, n=2):
    k = s.pick(p, ('plain', 'ref', 'opt', 'seq', 'map', 'rec', 'call')[
        :7 if depth else 2])
    if k == 'plain':
        return (s.pick(p + '.plain', PLAIN[2:4] if depth < 2 else PLAIN),)
    if k == 'ref':
        return ('ref', s.char(p + '.ref', 'AB'))
    if k in ('opt', 'seq'):
        return (k, a_type(s, p + '.i', depth - 1))
    if k == 'map':
        return (k, a_type(s, p + '.k', 0), a_type(s, p + '.v', depth - 1))
    m = s.choice(p + '.n', n + 1)
    parts = tuple([a_type(s, '%s.%d' % (p, i), depth - 1 if i == 0 else 0)
                   for i in range(m)])
    if k == 'call':
        return (k,) + parts
    names = []
    for i in range(m):
        nm = s.char('%s.name%d' % (p, i), 'xyz')
        for o in names:
            s.assume(s.not_(s.eq(o, nm)))
        names.append(nm)
    return ('rec', tuple(names)) + parts


def build(s, d, p):
    """The type; references are spelled in one of two ways."""
    k = d[0]
    if len(d) == 1 and k in PLAIN:
        return getattr(t, k)
    if k == 'ref':
        return t.TypeRef[d[1]]
    def part(i, x):
        if x[0] == 'ref' and s.choice('%s.%s.str' % (p, i), 2):
            return x[1]
        return build(s, x, '%s.%s' % (p, i))
    if k == 'opt':
        return t.Optional[part(0, d[1])]
    if k == 'seq':
        return t.Sequence[part(0, d[1])]
    if k == 'map':
        return t.Mapping[part(0, d[1]), part(1, d[2])]
    if k == 'call':
        return t.Callable[[part(i, x) for i, x in enumerate(d[1:])]]
    items = [(n, part(i, x)) for i, (n, x) in enumerate(zip(d[1], d[2:]))]
    if s.choice(p + '.dict', 2):
        return t.Record[dict(items)]
    return t.Record[items]


def equal(s, a, b):
    """Equality of descriptions; None: left open."""
    if a[0] != b[0] or len(a) != len(b):
        return False
    if a[0] == 'ref':
        return bool(s.eq(a[1], b[1]))
    out = []
    if a[0] == 'rec':
        same = [bool(s.eq(x, y)) for x, y in zip(a[1], b[1])]
        if not all(same):
            if all([any([bool(s.eq(x, y)) for y in b[1]]) for x in a[1]]):
                return None
            return False
    for x, y in zip(a[2 if a[0] == 'rec' else 1:],
                    b[2 if a[0] == 'rec' else 1:]):
        out.append(equal(s, x, y))
    if False in out:
        return False
    return None if None in out else True


def leaves(d):
    if d[0] in PLAIN or d[0] == 'ref':
        return [d]
    out = []
    for x in d[2 if d[0] == 'rec' else 1:]:
        out.extend(leaves(x))
    return out


class Leaves(t.TypeVisitor):
    def __init__(self):
        self.got = []

    def visit_any(self, obj):
        self.got.append(('Any',))

    def visit_boolean(self, obj):
        self.got.append(('Boolean',))

    def visit_string(self, obj):
        self.got.append(('String',))

    def visit_integer(self, obj):
        self.got.append(('Integer',))

    def visit_float(self, obj):
        self.got.append(('Float',))

    def visit_typeref(self, obj):
        self.got.append(('ref', obj.__type_name__))


@scenario(params={'quick': {'depth': 1}, 'thorough': {'depth': 2}},
          covers=('equal', 'different', 'open'), timeout=200)
def equality_of_types(s):
    """Types are equal when they are made of the same parts."""
    a = a_type(s, 'a', s.params['depth'])
    b = a_type(s, 'b', s.params['depth'])
    want = equal(s, a, b)
    x, y = build(s, a, 'x'), build(s, b, 'y')
    s.check(x == x and not (x != x), 'a type is equal to itself')
    if want is None:
        s.cover('open')
        return
    s.cover('equal' if want else 'different')
    s.check(bool(x == y) == want, 'equal exactly when the parts are', (a, b))
    s.check(bool(x != y) == (not want), 'and different otherwise', (a, b))
    if want:
        s.check(s.eq(repr(x), repr(y)), 'equal types are printed alike')


@scenario(params={'quick': {'depth': 2}, 'thorough': {'depth': 3}},
          covers=('refused',), timeout=200)
def parts_of_types(s):
    """A type is made once, of these parts."""
    a = a_type(s, 'a', s.params['depth'], 1)
    x, y = build(s, a, 'x'), build(s, a, 'y')
    s.check(x == y, 'the same parts')
    v = Leaves()
    v.visit(x)
    want = leaves(a)
    s.check(len(v.got) == len(want) and all(
        [g[0] == w[0] and (len(g) == 1 or bool(s.eq(g[1], w[1])))
         for g, w in zip(v.got, want)]), 'every part is visited once',
        (v.got, want))
    if a[0] not in PLAIN:
        r, err = attempt(lambda: x[{'z': t.Any} if a[0] == 'rec'
                                   else [t.Any] if a[0] == 'call'
                                   else (t.Any, t.Any) if a[0] == 'map'
                                   else 'Z' if a[0] == 'ref' else t.Any])
        s.cover('refused')
        s.check(isinstance(err, TypeError), 'a type is made once', (r, err))
        # neither the type nor the constructor has changed
        s.check(x == y, 'the type is as it was')
        s.check(build(s, a, 'z') == x, 'and can be made again')
    for other in (None, 1, 'String', Node([]), int):
        s.check(not (x == other) and x != other,
                'a type is not equal to anything else', other)


@scenario(covers=('found', 'missing'))
def references(s):
    """References stand for the types of this name."""
    n1, n2 = s.char('n1', 'AB'), s.char('n2', 'AB')
    s.assume(s.not_(s.eq(n1, n2)))
    table = {n1: t.Record[{'x': t.Integer}], n2: t.Sequence[t.String]}
    asked = s.char('asked', 'ABC')
    r, err = attempt(lambda: t.get_type(table, t.TypeRef[asked]))
    if asked == 'C':
        s.cover('missing')
        s.check(isinstance(err, KeyError), 'unknown', err)
        return
    s.cover('found')
    s.check(err is None and r is table[asked], 'the type of this name', r)
    d = s.pick('direct', (t.Any, t.Optional['A'], table[n1]))
    s.check(t.get_type(table, d) is d, 'others stand for themselves')


# -- queries: descriptions
#    ('f', name, options, alias) ('l', name, items, options, alias)

def item(s, p, depth):
    k = s.choice(p + '.link', 2) if depth else 0
    name = s.char(p + '.name', 'ab')
    options = None
    how = s.choice(p + '.opts', 3)
    if how:
        options = ({s.char(p + '.o', 'op'): s.int(p + '.v', 0, 2)}
                   if how == 1 else {})
    alias = s.char(p + '.alias', 'ab') if s.choice(p + '.al', 2) else None
    if not k:
        return ('f', name, options, alias)
    return ('l', name, items(s, p + '.n', depth - 1, 1), options, alias)


def items(s, p, depth, n):
    return [item(s, '%s.%d' % (p, i), depth if i == 0 else 0)
            for i in range(s.choice(p + '.n', n + 1))]


def make(d):
    if d[0] == 'f':
        return Field(d[1], None if d[2] is None else dict(d[2]), d[3])
    return Link(d[1], Node([make(x) for x in d[2]]),
                None if d[3] is None else dict(d[3]), d[4])


def opt_eq(s, a, b):
    if a is None or b is None:
        return a is None and b is None
    return bool(s.eq(a, b))


def same_items(s, a, b):
    return len(a) == len(b) and all([same_item(s, x, y)
                                     for x, y in zip(a, b)])


def same_item(s, a, b):
    if a[0] != b[0] or not s.eq(a[1], b[1]):
        return False
    if not opt_eq(s, a[-2], b[-2]) or not opt_eq(s, a[-1], b[-1]):
        return False
    return a[0] == 'f' or same_items(s, a[2], b[2])


def check_node(s, node, ds, ordered, label):
    """The node is the one which is described, found by reading it."""
    s.check(type(node) is Node and len(node.fields) == len(ds) and
            bool(node.ordered) == ordered, label + ': node', node)
    for f, d in zip(node.fields, ds):
        check_item(s, f, d, label)
    for f in node.fields:
        last = [x for x in node.fields if s.eq(x.name, f.name)][-1]
        s.check(node.fields_map[f.name] is last, label + ': by name')
        last = [x for x in node.fields
                if s.eq(x.result_key, f.result_key)][-1]
        s.check(node.result_map[f.result_key] is last, label + ': by key')


def check_item(s, f, d, label):
    s.check(type(f) is (Field if d[0] == 'f' else Link), label + ': kind')
    s.check(s.eq(f.name, d[1]), label + ': name', (f, d))
    s.check(opt_eq(s, f.options, d[-2]), label + ': options', (f, d))
    s.check(opt_eq(s, f.alias, d[-1]), label + ': alias', (f, d))
    s.check(s.eq(f.result_key, d[1] if d[-1] is None else d[-1]),
            label + ': key', (f, d))
    if d[0] == 'l':
        check_node(s, f.node, d[2], False, label)


@scenario(covers=('equal', 'different'), timeout=200)
def equality_of_queries(s):
    """Queries are equal when they are made of the same parts."""
    a, b = item(s, 'a', 1), item(s, 'b', 1)
    x, y = make(a), make(b)
    if s.choice('read', 2):
        # what has been looked up before does not matter
        x.result_key, x.options_hash, x.index_key
    want = same_item(s, a, b)
    s.cover('equal' if want else 'different')
    s.check(bool(x == y) == want and bool(x != y) == (not want),
            'equal exactly when the parts are', (a, b))
    o1, o2 = s.bool('o1'), s.bool('o2')
    m, n = Node([x], ordered=o1), Node([y], ordered=o2)
    s.check(bool(m == n) == (want and bool(s.eq(o1, o2))), 'nodes', (a, b))
    s.check(x != m and x != a and not (m == x), 'kinds are different')


@scenario(timeout=200)
def copies(s):
    """A copy differs in what has been replaced only."""
    d = item(s, 'd', 1)
    x = make(d)
    if s.choice('read', 2):
        x.result_key, x.options_hash, x.index_key
    e = list(d)
    kw = {}
    what = s.choice('what', 5)
    if what == 0:
        e[1] = kw['name'] = s.char('name', 'ab')
    elif what == 1:
        e[-1] = kw['alias'] = s.pick('alias', (None, 'a', 'z'))
    elif what == 2:
        e[-2] = kw['options'] = s.pick('options', (None, {'q': 1}))
    elif what == 3 and d[0] == 'l':
        e[2] = [('f', 'new', None, None)]
        kw['node'] = Node([Field('new')])
    y = x.copy(**kw)
    s.check(y is not x, 'a copy')
    check_item(s, y, tuple(e), 'the copy')
    check_item(s, x, d, 'the original')
    z = Node([x], ordered=True).copy(fields=[y, x])
    check_node(s, z, [tuple(e), d], True, 'copy of a node')


@scenario(covers=('link',), timeout=200)
def transformers(s):
    """Transforming without changes gives an equal query of new parts; a
    visitor visits everything once and in order."""
    ds = items(s, 'd', 2, 2)
    ordered = bool(s.choice('ordered', 2))
    q = Node([make(d) for d in ds], ordered=ordered)
    r = QueryTransformer().visit(q)
    check_node(s, r, ds, ordered, 'transformed')
    check_node(s, q, ds, ordered, 'original')
    s.check(r == q, 'equal')

    def parts(n):
        for f in n.fields:
            yield f
            if type(f) is Link:
                s.cover('link')
                yield f.node
                for p in parts(f.node):
                    yield p
    s.check(all([a is not b for a, b in zip(parts(q), parts(r))]),
            'nothing is shared')
    seen = []

    class V(QueryVisitor):
        def visit_field(self, obj):
            seen.append(obj)

        def visit_link(self, obj):
            seen.append(obj)
            super().visit_link(obj)
    V().visit(q)
    want = [p for p in parts(q) if type(p) is not Node]
    s.check(len(seen) == len(want) and all([a is b for a, b in zip(
        seen, want)]), 'visited once and in order')

    class Rename(QueryTransformer):
        def visit_field(self, obj):
            return super().visit_field(obj).copy(alias='renamed')

    def renamed(ds):
        return [d[:-1] + ('renamed',) if d[0] == 'f' else
                (d[0], d[1], renamed(d[2]), d[3], d[4]) for d in ds]
    check_node(s, Rename().visit(q), renamed(ds), ordered, 'renamed')
    check_node(s, q, ds, ordered, 'afterwards')


@scenario(covers=('equal', 'different'), timeout=300)
def large_types(s):
    """Types with many or deep parts which differ at one place, if anywhere."""
    kind = s.pick('kind', ('record', 'call', 'depth', 'inner'))
    n = s.pick('n', DEEP if kind == 'depth' else (1, 3, 17, 65))
    k = place(s, 'place', n)

    def one(p):
        if kind == 'depth':
            d = ('ref', s.char(p, 'AB'))
            for i in range(n):
                if i % 4 == 3:
                    d = ('rec', ('x',), d)
                elif i % 4 == 2:
                    d = ('map', ('String',), d)
                else:
                    d = (('opt', 'seq')[i % 2], d)
            return d
        parts = [(PLAIN[i % 5],) for i in range(n)]
        names = ['x%d' % i for i in range(n)]
        what = s.pick(p + '.what', ('part', 'name', 'less'))
        if what == 'part' or kind == 'call' and what == 'name':
            parts[k] = ('ref', s.char(p, 'AB'))
        elif what == 'name':
            names[k] = s.char(p, 'yz')
        else:
            del parts[k], names[k]
        if kind == 'call':
            return ('call',) + tuple(parts)
        d = ('rec', tuple(names)) + tuple(parts)
        return ('seq', d) if kind == 'inner' else d
    a, b = one('a'), one('b')
    want = equal(s, a, b)

    def made(d):
        if len(d) == 1 and d[0] in PLAIN:
            return getattr(t, d[0])
        if d[0] == 'ref':
            return t.TypeRef[d[1]]
        if d[0] == 'rec':
            return t.Record[[(x, made(y)) for x, y in zip(d[1], d[2:])]]
        parts = [made(x) for x in d[1:]]
        if d[0] == 'call':
            return t.Callable[parts]
        if d[0] == 'map':
            return t.Mapping[parts[0], parts[1]]
        return {'opt': t.Optional, 'seq': t.Sequence}[d[0]][parts[0]]
    if want is None:
        return
    x, y = made(a), made(b)
    s.cover('equal' if want else 'different')
    s.check(bool(x == y) == want and bool(x != y) == (not want),
            'equal exactly when the parts are', (a, b))
    if want:
        s.check(s.eq(repr(x), repr(y)), 'printed alike')
    v = Leaves()
    v.visit(x)
    exp = leaves(a)
    s.check(len(v.got) == len(exp) and all(
        [g[0] == w[0] and (len(g) == 1 or bool(s.eq(g[1], w[1])))
         for g, w in zip(v.got, exp)]), 'every part is visited once')


@scenario(covers=('equal', 'different'), timeout=300)
def large_queries(s):
    """The same for queries."""
    kind = s.pick('kind', ('items', 'depth', 'options'))
    n = s.pick('n', DEEP if kind == 'depth' else (1, 3, 17, 65))
    k = place(s, 'place', n)

    def one(p):
        odd = ('f', s.char(p + '.name', 'ab'), {'o': s.int(p + '.o', 0, 2)},
               s.pick(p + '.alias', (None, 'z')))
        if kind == 'items':
            ds = [('f', 'f%d' % i, None, None) if i % 2 else
                  ('l', 'l%d' % i, [('f', 'x', None, None)], {'o': i}, None)
                  for i in range(n)]
            ds[k] = odd
            return ds
        if kind == 'options':
            o = dict([('o%d' % i, i) for i in range(n)])
            o['o%d' % k] = s.int(p + '.o2', 0, 2)
            return [odd[:2] + (o, odd[3])]
        ds = [odd]
        for i in range(n):
            ds = [('f', 'f%d' % i, None, None), ('l', 'l', ds, None, None)]
        return ds
    a, b = one('a'), one('b')
    want = same_items(s, a, b)
    s.cover('equal' if want else 'different')
    x, y = Node([make(d) for d in a]), Node([make(d) for d in b])
    s.check(bool(x == y) == want and bool(x != y) == (not want),
            'equal exactly when the parts are', (a, b))
    for q in (x, QueryTransformer().visit(x), x.copy()):
        s.check(type(q) is Node and same_read(s, q, a), 'as described', q)
    seen = []

    class V(QueryVisitor):
        def visit_field(self, obj):
            seen.append(obj.name)

        def visit_link(self, obj):
            seen.append(obj.name)
            super().visit_link(obj)
    V().visit(x)
    exp = []

    def walk(ds):
        for d in ds:
            exp.append(d[1])
            if d[0] == 'l':
                walk(d[2])
    walk(a)
    s.check(s.eq(seen, exp), 'visited once and in order', (seen, exp))


def same_read(s, node, ds):
    """The node by reading it, without looking anything up."""
    if len(node.fields) != len(ds):
        return False
    for f, d in zip(node.fields, ds):
        if type(f) is not (Field if d[0] == 'f' else Link):
            return False
        if not (s.eq(f.name, d[1]) and opt_eq(s, f.options, d[-2]) and
                opt_eq(s, f.alias, d[-1])):
            return False
        if d[0] == 'l' and not same_read(s, f.node, d[2]):
            return False
    return True
