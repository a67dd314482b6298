"""C42: constants in GraphQL documents."""
from symx.session import scenario
from harness import gqldoc as g
from harness.c19_variables import same
from graphql.language import ast
from hiku.readers.graphql import read, read_operation
from harness.world import attempt
from harness.sizes import place

ASSUMPTIONS = [
    'escapes and block strings are decoded by graphql-core',
    'object literals do not repeat a name',
]
BOUNDS = ('literals nested up to 2 levels (thorough: 3), up to 2 items in '
          'each; integers of any size up to 2^70; strings of up to 3 '
          'characters; floats from a list of spellings; lists and objects of up to '
          '33 items')

FLOATS = ('0.5', '-0.0', '1e3', '1E-2', '-12.25e+1', '3.0', '1e400',
          '123456789.125')
PLACES = ('field', 'link', 'below', 'inline', 'fragment', 'default',
          'mutation', 'two')


def constant(s, p, depth, kinds='nbifselo'):
    """(literal, value)"""
    k = s.pick(p + '.kind', [x for x in kinds if depth or x not in 'lo'])
    if k == 'n':
        return ast.NullValueNode(), None
    if k == 'b':
        v = s.bool(p + '.bool')
        return ast.BooleanValueNode(value=v), v
    if k == 'i':
        v = s.int(p + '.int', -2**70, 2**70)
        return ast.IntValueNode(value=str(v)), v
    if k == 'f':
        t = s.pick(p + '.float', FLOATS)
        return ast.FloatValueNode(value=t), float(t)
    if k == 's':
        v = s.string(p + '.str', 0, 3, 'a"$0\\ \xe9')
        return ast.StringValueNode(value=v, block=False), v
    if k == 'e':
        v = s.string(p + '.enum', 1, 2, 'AB_')
        return ast.EnumValueNode(value=v), v
    n = s.choice(p + '.n', 3)
    # (the second item only shows that items are kept apart)
    items = [constant(s, '%s.%d' % (p, i), depth - 1, kinds) if i == 0 else
             constant(s, '%s.%d' % (p, i), 0, 'ie') for i in range(n)]
    if k == 'l':
        return (ast.ListValueNode(values=[x for x, _ in items]),
                [v for _, v in items])
    names = []
    for i in range(n):
        nm = s.char('%s.k%d' % (p, i), 'xyz')
        for o in names:
            s.assume(s.not_(s.eq(o, nm)))
        names.append(nm)
    return (ast.ObjectValueNode(fields=[
        ast.ObjectFieldNode(name=g.name(nm), value=x)
        for nm, (x, _) in zip(names, items)]),
        {nm: v for nm, (_, v) in zip(names, items)})


def check(s, place, lit, want):
    frs = []
    defs = []
    kind = 'query'
    a = {'o': lit}
    if place == 'field':
        items, find = [g.field('a', None, a)], lambda q: q.fields[0]
    elif place == 'link':
        items, find = [g.field('a', [g.field('b')], a)], (
            lambda q: q.fields[0])
    elif place == 'below':
        items, find = [g.field('l', [g.field('a', None, a, 'z')])], (
            lambda q: q.fields[0].node.fields[0])
    elif place == 'inline':
        items, find = [g.inline([g.field('a', None, a)])], (
            lambda q: q.fields[0])
    elif place == 'fragment':
        items, find = [g.field('l', [g.spread('F')])], (
            lambda q: q.fields[0].node.fields[0])
        frs = [g.fragment('F', [g.field('a', None, a)])]
    elif place == 'default':
        items, find = [g.field('a', None, {'o': g.var('v')})], (
            lambda q: q.fields[0])
        defs = [g.variable('v', 'T', default=lit)]
    elif place == 'mutation':
        items, find = [g.field('a', None, a)], lambda q: q.fields[0]
        kind = 'mutation'
    else:
        items = [g.field('a', None, {'p': g.literal(1), 'o': lit})]
        find = lambda q: q.fields[0]
    src = g.source(s, g.document(g.operation(items, None, kind, defs), *frs))
    if kind == 'query' and s.choice('via', 2):
        q, err = attempt(lambda: read(src))
    else:
        q, err = attempt(lambda: read_operation(src).query)
    s.check(err is None, 'the document is read', err)
    opts = find(q).options
    if place == 'two':
        want = {'p': 1, 'o': want}
    else:
        want = {'o': want}
    s.check(same(s, opts, want), 'the constant is read as its value',
            (opts, want))
    s.observe('options', opts)


INTS = ('0', '-0', '7', '-1', '2147483648', '-2147483649', '4294967296',
        '9007199254740993', '-9007199254740993', '9223372036854775809',
        '18446744073709551617', '123456789012345678901234567890')


@scenario()
def integers(s):
    """Spellings of integers around the limits of machine numbers.

    (`nested` covers all integers up to 2^70, if they are never converted
    into something the solver does not model, such as floats)"""
    t = s.pick('int', INTS)
    lit, want = ast.IntValueNode(value=t), int(t)
    k = s.choice('in', 3)
    if k == 1:
        lit, want = ast.ListValueNode(values=[lit]), [want]
    elif k == 2:
        lit, want = ast.ObjectValueNode(fields=[ast.ObjectFieldNode(
            name=g.name('x'), value=lit)]), {'x': want}
    check(s, s.pick('place', PLACES), lit, want)


@scenario(params={'quick': {'depth': 2, 'kinds': 'nbiselo'}, 'thorough': {'depth': 3, 'kinds': 'niselo'}},
          timeout=200)
def nested(s):
    """Constants of any kind in lists and objects."""
    lit, want = constant(s, 'c', s.params['depth'], s.params['kinds'])
    check(s, 'field', lit, want)


@scenario()
def long_values(s):
    """Lists and objects of more items of any kind."""
    n = s.pick('size', (3, 4, 33))
    k = s.pick('kind', 'lo')
    i = place(s, 'place', n)
    j = place(s, 'other', n)
    items = [(ast.IntValueNode(value=str(x)), x) for x in range(n)]
    items[j] = (ast.NullValueNode(), None)
    items[i] = constant(s, 'v', 1, 'nbsel' if i % 2 else 'nbseo')
    if k == 'l':
        lit = ast.ListValueNode(values=[x for x, _ in items])
        want = [v for _, v in items]
    else:
        lit = ast.ObjectValueNode(fields=[
            ast.ObjectFieldNode(name=g.name('k%d' % (n - x)), value=v[0])
            for x, v in enumerate(items)])
        want = {'k%d' % (n - x): v[1] for x, v in enumerate(items)}
    check(s, s.pick('where', ('field', 'default')), lit, want)


@scenario()
def floats(s):
    """All spellings of numbers with fractions."""
    lit, want = constant(s, 'c', 1, 'flo')
    check(s, 'field', lit, want)


@scenario()
def places(s):
    """Constants at any place of a document."""
    place = s.pick('place', PLACES)
    lit, want = constant(s, 'c', 1, 'nbiselo')
    check(s, place, lit, want)


@scenario()
def with_variables(s):
    """Variables inside of constants."""
    v = s.int('v', -2, 2)
    n = s.choice('shape', 4)
    c, cv = constant(s, 'c', 0, 'nbise')
    var = g.var('v')
    lists = lambda *xs: ast.ListValueNode(values=list(xs))
    objs = lambda **kw: ast.ObjectValueNode(fields=[
        ast.ObjectFieldNode(name=g.name(k), value=x) for k, x in kw.items()])
    if n == 0:
        lit, want = lists(var, c), [v, cv]
    elif n == 1:
        lit, want = objs(x=var, y=c), {'x': v, 'y': cv}
    elif n == 2:
        lit, want = lists(objs(x=c, y=lists(var)), var), [
            {'x': cv, 'y': [v]}, v]
    else:
        lit, want = objs(x=lists(lists(c, var)), y=var), {
            'x': [[cv, v]], 'y': v}
    src = g.source(s, g.document(g.operation(
        [g.field('a', None, {'o': lit})], None, 'query',
        [g.variable('v')])))
    q, err = attempt(lambda: read(src, {'v': v}))
    s.check(err is None, 'the document is read', err)
    s.check(same(s, q.fields[0].options, {'o': want}),
            'the constant is read as its value')
