"""C45: EDN values are values."""
from symx.session import scenario
from hiku.edn import (Keyword, Symbol, List, Tuple, Dict, Set, TaggedElement)
from harness.world import attempt

ASSUMPTIONS = [
    'whether a list is equal to a tuple of the same elements is left open, '
    'as are integers and booleans (Python compares them)',
]
BOUNDS = ('pairs of values nested up to 1 level with up to 2 elements '
          '(thorough: 2 levels), with symbolic names and numbers')

LEAVES = ('str', 'key', 'sym', 'int', 'nil')
ALL = LEAVES + ('tag', 'list', 'tuple', 'dict', 'set')


def describe(s, p, depth, n=2, leaves=LEAVES):
    k = s.pick(p, ALL if depth and leaves is LEAVES else
               leaves + ALL[5:] if depth else leaves)
    if k in ('str', 'key', 'sym'):
        return (k, s.char(p + '.name', 'a1'))
    if k == 'int':
        return (k, s.int(p + '.int', -1, 1))
    if k == 'nil':
        return (k,)
    small = ('key', 'int') if depth < 2 else ('key',)
    if k == 'tag':
        return (k, s.char(p + '.tag', 'ab'),
                describe(s, p + '.v', depth - 1, 1, small + ('str',)))
    m = s.choice(p + '.n', n + 1)
    if k in ('list', 'tuple'):
        return (k,) + tuple([
            describe(s, '%s.%d' % (p, i), depth - 1 if i == 0 else 0, 1,
                     small) for i in range(m)])
    keys = [describe(s, '%s.k%d' % (p, i), 0, 1, ('key', 'sym'))
            for i in range(m)]
    for i, x in enumerate(keys):
        for y in keys[:i]:
            s.assume(s.not_(equal(s, x, y)))
    if k == 'set':
        return (k,) + tuple(keys)
    return (k,) + tuple([
        (x, describe(s, '%s.v%d' % (p, i), depth - 1 if i == 0 else 0, 1,
                     ('int',))) for i, x in enumerate(keys)])


def equal(s, a, b):
    """Whether the values are equal; None: left open."""
    if a[0] != b[0]:
        if {a[0], b[0]} == {'list', 'tuple'}:
            return None if equal(s, a, ('list',) + b[1:] if a[0] == 'list'
                                 else ('tuple',) + b[1:]) is not False \
                else False
        return False
    if len(a) != len(b):
        return False
    if a[0] in ('str', 'key', 'sym', 'int'):
        return bool(s.eq(a[1], b[1]))
    if a[0] == 'tag':
        return bool(s.eq(a[1], b[1])) and equal(s, a[2], b[2])
    if a[0] in ('list', 'tuple'):
        out = [equal(s, x, y) for x, y in zip(a[1:], b[1:])]
    elif a[0] == 'set':
        out = [any([equal(s, x, y) for y in b[1:]]) for x in a[1:]]
    elif a[0] == 'dict':
        out = []
        for x, v in a[1:]:
            found = [equal(s, v, w) for y, w in b[1:] if equal(s, x, y)]
            out.append(found[0] if found else False)
    else:
        return True
    if False in out:
        return False
    return None if None in out else True


def make(s, d, p):
    k = d[0]
    if k == 'str':
        return d[1]
    if k == 'key':
        return Keyword(d[1])
    if k == 'sym':
        return Symbol(d[1])
    if k == 'int':
        return d[1]
    if k == 'nil':
        return None
    if k == 'tag':
        return TaggedElement(d[1], make(s, d[2], p + 't'))
    if k in ('list', 'tuple'):
        return (List if k == 'list' else Tuple)(
            [make(s, x, '%s%d' % (p, i)) for i, x in enumerate(d[1:])])
    if k == 'set':
        return Set([make(s, x, p) for x in d[1:]])
    pairs = [(make(s, x, p), make(s, v, '%s%d' % (p, i)))
             for i, (x, v) in enumerate(d[1:])]
    if len(pairs) > 1 and s.choice(p + '.order', 2):
        pairs.reverse()
    return Dict(pairs)


@scenario(covers=('equal', 'different', 'open'), timeout=200, params={
    'quick': {'depth': 1, 'n': 2}, 'thorough': {'depth': 2, 'n': 2}})
def equality(s):
    """Values are equal exactly when they are of one kind and made of the
    same parts; equal values are the same key."""
    a = describe(s, 'a', s.params['depth'], s.params['n'])
    b = describe(s, 'b', s.params['depth'], s.params['n'])
    x, y = make(s, a, 'x'), make(s, b, 'y')
    want = equal(s, a, b)
    s.check(bool(x == x) and not (x != x), 'a value is equal to itself')
    s.cover({True: 'equal', False: 'different', None: 'open'}[want])
    if want is None:
        return
    s.check(bool(x == y) == want, 'equal exactly when the parts are', (a, b))
    s.check(bool(x != y) == (not want), 'and different otherwise', (a, b))
    if want:
        s.check(hash(x) == hash(y), 'equal values have equal hashes', (a, b))
    s.check((y in {x: 1}) == want, 'keys of dictionaries', (a, b))
    s.check(len({x, y}) == (1 if want else 2), 'members of sets', (a, b))


CHANGES = (
    lambda d, k: d.__setitem__(k, 5), lambda d, k: d.__delitem__(k),
    lambda d, k: d.clear(), lambda d, k: d.pop(k), lambda d, k: d.popitem(),
    lambda d, k: d.setdefault(k, 5), lambda d, k: d.update({k: 5}),
    lambda d, k: d.__ior__({k: 5}),
)


@scenario(params={'quick': {'n': 1}, 'thorough': {'n': 2}})
def unchanged(s):
    """Dictionaries which have been read cannot be changed."""
    n = s.choice('n', 3)
    names = [s.char('k%d' % i, 'ab') for i in range(n)]
    for i in range(n):
        for j in range(i):
            s.assume(s.not_(s.eq(names[i], names[j])))
    pairs = [(Keyword(x), s.int('v%d' % i, 0, 3))
             for i, x in enumerate(names)]
    d = Dict(pairs)
    if s.choice('hashed', 2):
        hash(d)
    for i in range(s.params['n']):
        change = s.pick('change%d' % i, CHANGES)
        r, err = attempt(lambda: change(d, Keyword(s.char('key%d' % i,
                                                          'abc'))))
        s.check(isinstance(err, TypeError), 'refused', (r, err))
    s.check(len(d) == n and all([s.eq(d[k], v) for k, v in pairs]),
            'unchanged', d)
    s.check(d == Dict(pairs) and hash(d) == hash(Dict(pairs)), 'equal')
