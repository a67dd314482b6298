"""C08: merging selections."""
from symx.session import scenario
from hiku.query import Node, Field, Link, merge
from harness.sizes import WIDE, DEEP, place

ASSUMPTIONS = ['selections agree on what a result key stands for (otherwise '
               'the query is invalid, see C10)']
BOUNDS = ('up to 3 selections with up to 4 items altogether, symbolic names '
          'of 2 characters, aliases, options; links nested up to 2 levels; '
          'up to 129 items, selections and levels with concrete names but one')


def same_head(s, a, b):
    """Requests of the same thing."""
    if isinstance(a, Link) != isinstance(b, Link):
        return False
    return s.all([s.eq(a.name, b.name), s.eq(a.options or {}, b.options or {})])


def key(f):
    return f.alias if f.alias is not None else f.name


def union(s, items):
    """What the items request: list of [key, item, subitems] in the order of
    the first occurrence."""
    out = []
    for f in items:
        for e in out:
            if key(e[1]) == key(f):
                # conflicting requests are not valid queries
                s.assume(same_head(s, e[1], f))
                if isinstance(f, Link):
                    e[2].extend(f.node.fields)
                break
        else:
            out.append([key(f), f,
                        list(f.node.fields) if isinstance(f, Link) else None])
    return out


def check_same(s, items, merged, ordered):
    """The merged query requests exactly the union."""
    want = union(s, items)
    got = list(merged.fields)
    s.check(len(got) == len(want), 'one entry for each result key',
            (got, want))
    if ordered:
        order = want
    else:
        order = ([e for e in want if e[2] is None] +
                 [e for e in want if e[2] is not None])
        # document order of the fields and of the links
        got = ([f for f in got if not isinstance(f, Link)] +
               [f for f in got if isinstance(f, Link)])
    for f, e in zip(got, order):
        s.check(s.eq(key(f), e[0]), 'order of first occurrence', (got, order))
        s.check(same_head(s, f, e[1]), 'requests what was requested',
                (f, e[1]))
        if e[2] is not None:
            check_same(s, e[2], f.node, False)


def snapshot(n):
    return [(f.name, f.options, f.alias,
             snapshot(f.node) if isinstance(f, Link) else None)
            for f in n.fields]


def same_query(s, a, b):
    if len(a.fields) != len(b.fields):
        return False
    cs = [a.ordered == b.ordered]
    for x, y in zip(a.fields, b.fields):
        if isinstance(x, Link) != isinstance(y, Link):
            return False
        cs.append(s.eq(key(x), key(y)))
        cs.append(same_head(s, x, y))
        if isinstance(x, Link):
            cs.append(same_query(s, x.node, y.node))
    return s.all(cs)


def run(s, parts, ordered=False):
    before = [snapshot(p) for p in parts]
    m = merge(parts)
    items = [f for p in parts for f in p.fields]
    check_same(s, items, m, ordered)
    s.check(m.ordered == ordered, 'orderedness is kept')
    s.check(s.eq([snapshot(p) for p in parts], before),
            'selections are not modified')
    m2 = merge([m])
    s.check(same_query(s, m, m2), 'merging is idempotent', (m, m2))
    m3 = merge([m, m])
    s.check(same_query(s, m, m3), 'merging with itself changes nothing')
    whole = merge([Node(items, ordered)])
    s.check(same_query(s, m, whole), 'does not depend on the division',
            (m, whole))
    s.observe('merged', [key(f) for f in m.fields])
    return m


def name(s, p):
    return s.char(p, 'ab')


def maybe_alias(s, p):
    return s.char(p + '.al', 'abz') if s.choice(p + '.alias', 2) else None


def maybe_opts(s, p):
    if s.choice(p + '.opt', 2):
        return {'x': s.int(p + '.x', -2, 1)}
    return None


def split(s, items, ordered=False):
    """Two selections; the whole is ordered when one of them is."""
    k = s.choice('cut', len(items) + 1)
    second = first = ordered
    if ordered:
        which = s.choice('which_ordered', 3)
        first, second = which != 1, which != 2
    return [Node(items[:k], first), Node(items[k:], second)]


@scenario()
def fields(s):
    n = 1 + s.choice('n', 3)
    items = [Field(name(s, 'f%d' % i),
                   maybe_opts(s, 'f%d' % i) if i < 2 else None,
                   maybe_alias(s, 'f%d' % i)) for i in range(n)]
    ordered = s.choice('ordered', 2) == 1
    run(s, split(s, items, ordered), ordered)


@scenario()
def links(s):
    n = 2 + s.choice('n', 2)
    items = []
    for i in range(n):
        p = 'l%d' % i
        sub = Node([Field(name(s, p + '.f'))])
        items.append(Link(name(s, p), sub,
                          {'x': s.int(p + '.x', -2, 1)} if i < 2 else None,
                          maybe_alias(s, p)))
    run(s, split(s, items))


@scenario()
def mixed(s):
    """Fields and links in any order, plain and ordered."""
    ordered = s.choice('ordered', 2) == 1
    items = []
    for i in range(3):
        p = 'i%d' % i
        if s.choice(p + '.kind', 2):
            items.append(Link(s.char(p, 'lm'),
                              Node([Field(name(s, p + '.f'))]),
                              None, maybe_alias(s, p) if i < 2 else None))
        else:
            items.append(Field(name(s, p)))
    run(s, split(s, items, ordered), ordered)


@scenario()
def nested(s):
    """Equal links with equal links inside."""
    parts = []
    for i in range(2):
        p = 'n%d' % i
        inner = Link(s.char(p + '.in', 'lm'),
                     Node([Field(name(s, p + '.f'), maybe_opts(s, p + '.f'))]),
                     None, 'z' if s.choice(p + '.ia', 2) else None)
        parts.append(Node([Link(s.char(p + '.out', 'kl'), Node(
            [inner, Field(name(s, p + '.g'))]))]))
    run(s, parts)


@scenario()
def same_key_spelled_differently(s):
    """An alias equal to the name is the same result key."""
    items = []
    for i in range(2):
        p = 'l%d' % i
        al = 'l' if s.choice(p + '.alias', 2) else None
        items.append(Link('l', Node([Field(name(s, p + '.f'), None,
                                           maybe_alias(s, p + '.f'))]),
                          None, al))
        al = 'a' if s.choice(p + '.falias', 2) else None
        items.append(Field('a', None, al))
    run(s, split(s, items))


@scenario(covers=('conflict', 'none'), params={'quick': {'n': 3},
                                             'thorough': {'n': 4}})
def conflicts(s):
    """Different requests under one result key are all kept, so that
    validation can report them; equal ones are united."""
    items = []
    for i in range(s.params['n']):
        p = 'i%d' % i
        al = 'a' if s.choice(p + '.alias', 2) else None
        opts = {'x': s.int(p + '.x', 0, 1)} if i < 2 and s.choice(
            p + '.opt', 2) \
            else None
        if s.choice(p + '.kind', 2):
            items.append(Link(s.char(p, 'ab'), Node([Field(s.char(
                p + '.f', 'fg'))]), opts, al))
        else:
            items.append(Field(s.char(p, 'ab'), opts, al))
    want = []
    for f in items:
        for e in want:
            if key(e[0]) == key(f) and same_head(s, e[0], f):
                if isinstance(f, Link):
                    e[1].extend(f.node.fields)
                break
        else:
            want.append([f, list(f.node.fields) if isinstance(f, Link)
                         else None])
    ordered = s.choice('ordered', 2) == 1
    m = merge(split(s, items, ordered))
    got = list(m.fields)
    s.check(len(got) == len(want), 'every different request, once',
            (got, want))
    left = list(got)
    for e, sub in want:
        for f in left:
            if key(f) == key(e) and same_head(s, e, f):
                left.remove(f)
                if sub is not None:
                    check_same(s, sub, f.node, False)
                break
        else:
            s.check(False, 'every different request is kept', (got, e))
    s.cover('none' if len({key(e) for e, _ in want}) == len(want)
            else 'conflict')


@scenario(covers=('one', 'several'))
def several_options(s):
    """Requests with the same options, given in any order, are one request;
    others are not."""
    def some(p):
        pairs = [('x', s.int(p + '.x', 0, 1)),
                 ('y', s.pick(p + '.y', (1, True, '1', 1.0, [1], (1,), None))),
                 ('z', {'u': s.int(p + '.u', 0, 1), 'v': [0]})]
        if s.choice(p + '.nested', 2):
            pairs[2] = ('z', {'v': [0], 'u': pairs[2][1]['u']})
        if s.choice(p + '.turned', 2):
            pairs.reverse()
        return dict(pairs[:2] if s.choice(p + '.less', 2) else pairs)
    a, b = some('a'), some('b')
    if s.choice('kind', 2):
        items = [Link('l', Node([Field('f')]), a),
                 Link('l', Node([Field('g')]), b)]
    else:
        items = [Field('f', a), Field('f', b)]
    same = (sorted(a) == sorted(b) and
            all([type(a[k]) is type(b[k]) for k in a if k == 'y']) and
            s.all([s.eq(a[k], b[k]) for k in a]))
    m = merge(split(s, items))
    if same:
        s.cover('one')
        s.check(len(m.fields) == 1, 'one request', m)
        if isinstance(items[0], Link):
            s.check([f.name for f in m.fields[0].node.fields] == ['f', 'g'],
                    'of everything', m)
    else:
        s.cover('several')
        s.check(len(m.fields) == 2, 'different requests', m)
        s.check(s.all([s.eq(f.options, o) for f, o in zip(m.fields, (a, b))]),
                'with their options', m)


@scenario(tier='thorough', timeout=120)
def three_selections(s):
    parts = []
    for i in range(3):
        p = 's%d' % i
        parts.append(Node([
            Field(name(s, p + '.f'), None, maybe_alias(s, p + '.f')),
            Link(s.char(p + '.l', 'lm'), Node([
                Field(name(s, p + '.g'), maybe_opts(s, p + '.g')),
                Link('k', Node([Field(name(s, p + '.h'))]))]))]))
    run(s, parts)


@scenario(tier='thorough', timeout=120)
def four_fields(s):
    items = [Field(name(s, 'f%d' % i),
                   maybe_opts(s, 'f%d' % i),
                   maybe_alias(s, 'f%d' % i)) for i in range(4)]
    ordered = s.choice('ordered', 2) == 1
    run(s, split(s, items, ordered), ordered)


@scenario()
def large(s):
    """Many items, selections and levels; one of the items, at a picked
    place, repeats any of the others or none."""
    kind = s.pick('kind', ('items', 'selections', 'links', 'levels'))
    n = s.pick('size', DEEP if kind == 'levels' else WIDE)
    k = place(s, 'place', n)
    c = s.char('name', 'abz')
    if kind == 'levels':
        def chain(leaf):
            node = Node([Field(leaf)])
            for i in range(n):
                node = Node([Field('f%d' % i), Link('l', node)])
            return node
        m = merge([chain('a'), chain(c)])
        for i in reversed(range(n)):
            s.check(len(m.fields) == 2, 'two items at each level', m)
            s.check(m.fields[0].name == 'f%d' % i and
                    m.fields[1].name == 'l', 'the same items', m)
            m = m.fields[1].node
        s.check(s.eq([f.name for f in m.fields], ['a'] if c == 'a'
                     else ['a', c]), 'the leaves are united', m)
        return
    if kind == 'links':
        items = [Link('l', Node([Field('ab'[i % 2] + str(i // 2 % 40))]))
                 for i in range(n)]
        items[k] = Link('l', Node([Field(c)]))
    else:
        items = [Field('ab'[i % 2] + str(i // 2 % 40)) for i in range(n)]
        items[k] = Field(c)
    ordered = s.choice('ordered', 2) == 1
    parts = ([Node([f], ordered) for f in items] if kind == 'selections'
             else [Node(items, ordered)])
    m = merge(parts)
    found = []
    for f in items:
        nm = f.node.fields[0].name if kind == 'links' else f.name
        if nm not in found:
            found.append(nm)
    if kind == 'links':
        s.check(len(m.fields) == 1, 'one link', m)
        m = m.fields[0].node
    s.check(s.eq([f.name for f in m.fields], found),
            'every name once, in the order of its first occurrence', m)
