"""C38: the query builder builds the query it spells."""
from symx.session import scenario
from hiku.builder import build, Q, Handle
from hiku.query import Node, Field, Link, FieldBase
from harness.world import attempt
from harness.sizes import WIDE, DEEP, place

ASSUMPTIONS = ['a part is spelled completely before it is used']
BOUNDS = ('queries of up to 3 items per node (thorough: 4), 3 levels, with '
          'arbitrary names and aliases of 1-2 characters and option values; '
          'parts used in up to 3 places; up to 129 items and 50 levels')


def attr(name):
    """Q.name for an arbitrary name."""
    return Handle.__getattr__(Q, name)


class Spell:
    def __init__(self, s):
        self.s = s
        self.n = 0

    def label(self, what):
        self.n += 1
        return '%s%d' % (what, self.n)

    def name(self):
        return self.s.string(self.label('name'), 1, 1, 'ab_')

    def part(self, depth, rich=True):
        """(handle, field) of a part of a query."""
        s = self.s
        name = self.name()
        kind = s.choice(self.label('kind'), 3 if depth else 2)
        opts = None
        if kind and rich:
            k = s.choice(self.label('options'), 3)
            opts = (None, {}, {'x': s.int(self.label('opt'), 0, 9),
                               'y': None})[k]
        items = None
        if kind == 2 or (depth and kind == 1 and
                         s.choice(self.label('link'), 2)):
            n = s.choice(self.label('items'), 3 if rich else 2)
            items = [self.part(depth - 1, False) for _ in range(n)]
        alias = None
        if s.choice(self.label('aliased'), 2):
            alias = self.name()

        h = attr(name)
        # (Q.alias << Q.name)(...)[...] is as good as Q.alias << Q.name(...)
        first = alias is not None and s.choice(self.label('first'), 2)
        if first:
            h = attr(alias) << h
        before = s.choice(self.label('order'), 2) if opts is not None else 0
        if opts is not None and before:
            h = h(**opts)
        if items is not None:
            sub = tuple(x for x, _ in items)
            if len(sub) == 1 and s.choice(self.label('tuple'), 2):
                sub = sub[0]
            h = h[sub]
        if opts is not None and not before:
            h = h(**opts)
        if alias is not None and not first:
            h = attr(alias) << h
        if items is None:
            return h, Field(name, opts, alias)
        return h, Link(name, Node([x for _, x in items]), opts, alias)


def plain(q):
    if isinstance(q, Node):
        return ['node', [plain(f) for f in q.fields], bool(q.ordered)]
    out = [type(q).__name__, q.name, q.alias,
           None if q.options is None else dict(q.options)]
    if isinstance(q, Link):
        out.append(plain(q.node))
    return out


@scenario(params={'quick': {'items': 1, 'depth': 1},
                  'thorough': {'items': 2, 'depth': 1}}, timeout=120)
def spelled(s):
    sp = Spell(s)
    parts = [sp.part(s.params['depth'])
             for _ in range(1 + s.choice('n', s.params['items']))]
    got = build([h for h, _ in parts])
    want = Node([f for _, f in parts])
    s.check(s.eq(plain(got), plain(want)), 'the query', (got, want))
    s.check(isinstance(got, Node) and all(
        isinstance(f, FieldBase) for f in got.fields), 'kinds')
    again = build([h for h, _ in parts])
    s.check(s.eq(plain(again), plain(want)), 'the same query again')
    s.observe('got', plain(got))


@scenario(params={'quick': {'n': 2}, 'thorough': {'n': 3}})
def reused(s):
    """Finished parts used in several places of several queries."""
    sp = Spell(s)
    a, fa = sp.part(0, True)
    b, fb = sp.part(1, False)
    queries = []
    for i in range(s.params['n']):
        k = s.choice('use%d' % i, 5)
        if k == 0:
            queries.append(([a, b], [fa, fb]))
        elif k == 1:
            queries.append(([Q.c[a, b], a], [Link('c', Node([fa, fb])), fa]))
        elif k == 2:
            q = Q.c(z=1)[Q.d[b], b]
            queries.append(([q, b], [Link('c', Node([Link('d', Node([fb])),
                                                     fb]), {'z': 1}), fb]))
        elif k == 3:
            if fa.alias is None:
                queries.append(([Q.e << a, a], [
                    Field(fa.name, fa.options, 'e'), fa]))
        else:
            if fb.alias is None:
                x = fb.copy(alias='e') if isinstance(fb, Field) else \
                    Link(fb.name, fb.node, fb.options, 'e')
                queries.append(([Q.e << b, b], [x, fb]))
    built = [build(hs) for hs, _ in queries]
    for got, (_, fs) in zip(built, queries):
        s.check(s.eq(plain(got), plain(Node(fs))), 'the query', got)
    for got, (hs, fs) in zip(built, queries):
        s.check(s.eq(plain(build(hs)), plain(got)), 'the same query again')


@scenario(params={'quick': {'items': 1}, 'thorough': {'items': 2}})
def aliased(s):
    """A finished part, given an alias in one place, without it in another."""
    sp = Spell(s)
    name = s.string('name', 1, 1, 'ab')
    h = attr(name)
    opts = (None, {}, {'x': s.int('x', 0, 9)})[s.choice('options', 3)]
    if opts is not None:
        h = h(**opts)
    items = None
    if s.choice('link', 2):
        items = [sp.part(0, True)
                 for _ in range(s.choice('n', s.params['items'] + 1))]
        h = h[tuple(x for x, _ in items)]

    def want(alias=None):
        if items is None:
            return Field(name, opts, alias)
        return Link(name, Node([x for _, x in items]), opts, alias)
    alias = s.string('alias', 1, 1, 'abx')
    x = attr(alias) << h
    k = s.choice('use', 5)
    hs, fs = ([[x, h], [want(alias), want()]],
              [[h, x], [want(), want(alias)]],
              [[x, Q.y << h], [want(alias), want('y')]],
              [[Q.z[x], h], [Link('z', Node([want(alias)])), want()]],
              [[h, Q.z[x], h], [want(), Link('z', Node([want(alias)])),
                                want()]])[k]
    got = build(hs)
    s.check(s.eq(plain(got), plain(Node(fs))), 'the query', (got, fs))
    s.check(s.eq(plain(build([h])), plain(Node([want()]))),
            'the part is unchanged')


@scenario()
def refused(s):
    """Spellings which make no query."""
    n1 = s.string('n1', 1, 2, 'ab')
    n2 = s.string('n2', 1, 2, 'ab')
    a, b = attr(n1), attr(n2)
    programs = [
        lambda: Handle.__getattr__(a, n2),
        lambda: build([Handle.__getattr__(a, n2)]),
        lambda: build([a[b][b]]),
        lambda: build([a(x=1)(y=1)]),
        lambda: build([Q]),
        lambda: build([a, Q]),
        lambda: build([a[b, Q]]),
        lambda: build([a << Q]),
        lambda: build([a(x=1) << b]),
        lambda: build([a[b] << attr('c')]),
        lambda: build([(a << b) << attr('c')]),
        lambda: build([a[5]]),
        lambda: build([a[[b]]]),
        lambda: build([a << 'b']),
        lambda: build([a << None]),
    ]
    k = s.choice('program', len(programs))
    got, err = attempt(programs[k])
    s.check(err is not None, 'refused', (k, got))
    q = build([attr(n1)])
    s.check(s.eq(plain(q), plain(Node([Field(n1)]))), 'Q is unchanged', q)


@scenario()
def large(s):
    """Many items or options, many levels."""
    kind = s.pick('kind', ('items', 'options', 'levels', 'top'))
    n = s.pick('size', DEEP if kind == 'levels' else WIDE)
    k = place(s, 'place', n)
    c = s.char('name', 'ab_')
    x = s.int('x', 0, 9)
    if kind in ('items', 'top'):
        hs = [getattr(Q, 'f%d' % i) for i in range(n)]
        fs = [Field('f%d' % i) for i in range(n)]
        hs[k] = attr(c)(x=x)
        fs[k] = Field(c, {'x': x})
        if kind == 'items':
            hs, fs = [Q.l[tuple(hs)]], [Link('l', Node(fs))]
    elif kind == 'options':
        opts = dict([('o%d' % i, i) for i in range(n)])
        opts['o%d' % k] = x
        hs, fs = [Q.a(**opts)], [Field('a', opts)]
    else:
        h, f = attr(c), Field(c)
        for i in range(n):
            o = {'x': x} if i == k else {}
            h = getattr(Q, 'l%d' % i)(**o)[h, Q.z]
            f = Link('l%d' % i, Node([f, Field('z')]), o)
        hs, fs = [h], [f]
    got = build(hs)
    s.check(s.eq(plain(got), plain(Node(fs))), 'the query', got)
