"""C12: printing and reading of EDN values are inverse."""
from datetime import datetime
from decimal import Decimal
from uuid import UUID

from symx.session import scenario
from hiku.edn import (dumps, loads, Keyword, Symbol, List, Tuple, Dict, Set,
                      TaggedElement)
from harness.world import attempt
from harness.ednval import same
from harness.sizes import WIDE, large_value, place

ASSUMPTIONS = [
    'strings hold no lone surrogates',
    'instants are those of UTC without a time zone; decimals are finite',
    'symbols, keywords and tags start with a letter and hold only characters '
    'EDN allows in them; symbols nil, true and false are not symbols',
]
BOUNDS = ('strings up to 2 characters out of all of Unicode (thorough: 3), '
          'integers of up to 7 digits, names of up to 3 characters, '
          'collections of up to 2 elements nested 2 levels; floats, '
          'decimals, instants and UUIDs are taken from a list (their printing '
          'is not encoded)')

UNICODE = [(0, 0xd7ff), (0xe000, 0x10ffff)]
LETTERS = [(65, 90), (97, 122)]
NAME = [(65, 90), (97, 122), (48, 57), (33, 33), (36, 38), (42, 43),
        (45, 47), (60, 63), (95, 95)]
FLOATS = (0.5, -1.25, 1e22, 1e-07, 0.0, -0.0, 100.0, 123456.789, 1e+300,
          0.1 + 0.2, -1 / 3, 5e-324, 1.7976931348623157e308, 1e15, 1e16,
          123456789.12345679, 9007199254740993.0, 2.2250738585072014e-308)
EXACT = tuple([Decimal(x) for x in (
    '1.5', '0', '-3', '1.10', '-0.0', '1E+5', '1E-10', '-2.5E-7',
    '0.12345678901234567890123', '100000000000000000000')]) + (
    datetime(2020, 1, 2, 3, 4, 5), datetime(1999, 12, 31, 23, 59, 59, 999999),
    datetime(2020, 1, 2, 3, 4, 5, 6), datetime(987, 1, 1), datetime(1, 2, 3),
    UUID(int=0), UUID(int=5), UUID(int=2 ** 128 - 1))


def name(s, p, n):
    k = 1 + s.choice(p + '.len', n)
    return s.char(p + '.0', LETTERS) + ''.join(
        [s.char('%s.%d' % (p, i), NAME) for i in range(1, k)])


def round_trip(s, v):
    text, err = attempt(lambda: dumps(v, ensure_ascii=s.choice('asc', 2) == 1))
    s.check(err is None, 'printed', err)
    back, err = attempt(lambda: loads(text))
    s.check(err is None, 'read', (text, err))
    s.check(same(s, back, v), 'the value is read back', (v, text, back))
    s.observe('back', back)


@scenario(params={'quick': {'n': 2}, 'thorough': {'n': 3}}, timeout=120)
def strings(s):
    v = s.string('s', 0, s.params['n'], UNICODE)
    round_trip(s, v)


@scenario(timeout=120)
def strings_in_place(s):
    """Strings next to other elements."""
    v = s.string('s', 1, 2, UNICODE)
    k = s.choice('shape', 5)
    if k == 0:
        v = [v, s.int('i', -9, 99)]
    elif k == 1:
        v = (Symbol('ab'), v, v)
    elif k == 2:
        v = {v: [v]}
    elif k == 3:
        v = {v, Keyword('ab')}
    else:
        v = TaggedElement('tag', v)
    round_trip(s, v)


@scenario()
def integers(s):
    n = s.int('n', -9999, 9999)
    k = s.choice('shape', 4)
    if k == 1:
        n = [n, s.int('m', -10, 10)]
    elif k == 2:
        n = {n: (s.int('m', -10, 10),)}
    elif k == 3:
        n = n * 10**3 + 7
    round_trip(s, n)


@scenario()
def floats(s):
    v = s.pick('f', FLOATS)
    round_trip(s, s.pick('shape', (v, [v, v], {v: (v,)})))


@scenario()
def exact_values(s):
    """Decimals, instants and UUIDs."""
    v = s.pick('value', EXACT)
    w = s.pick('other', (v, 1, 'x', Keyword('k'), Symbol('M'), EXACT[3],
                         EXACT[-2]))
    round_trip(s, s.pick('shape', (v, [v, w], (w, v), {v: w}, {v},
                                   TaggedElement('t', v), [[v], (w,)],
                                   {w: (v,)})))


@scenario()
def names(s):
    v = name(s, 'v', 3)
    k = s.choice('kind', 3)
    if k == 0:
        v = Keyword(v)
    elif k == 1:
        s.assume(s.all([s.not_(s.eq(v, x)) for x in ('nil', 'true',
                                                     'false')]))
        v = Symbol(v)
    else:
        v = TaggedElement(v, s.pick('value', (None, True, 5, 'x', (),
                                              Keyword('y'), Symbol('z'))))
    k = s.choice('shape', 4)
    if k == 1:
        v = [v, v]
    elif k == 2:
        v = {v: (v,)}
    elif k == 3:
        v = {v}
    round_trip(s, v)


@scenario()
def like_literals(s):
    """Names which look like the literals of EDN."""
    word = s.pick('word', ('nil', 'true', 'false'))
    v = ''
    for i, c in enumerate(word):
        v += s.char('c%d' % i, c + c.upper() + 'x')
    if s.choice('more', 2):
        v += s.char('last', 'x1?')
    k = s.choice('kind', 3)
    if k == 0:
        v = Keyword(v)
    elif k == 1:
        s.assume(s.not_(s.eq(v, word)))
        v = Symbol(v)
    else:
        v = TaggedElement(v, s.pick('value', (None, False)))
    round_trip(s, s.pick('shape', (lambda: v, lambda: [v, True],
                                   lambda: {v: None}))())


def element(s, p, depth, kinds):
    ks = [k for k in kinds if depth > 0 or k not in 'ltds#']
    k = s.pick(p + '.kind', ks)
    if k == 'n':
        return None
    if k == 'b':
        return s.bool(p + '.b')
    if k == 'i':
        return s.int(p + '.i', -9, 9)
    if k == 'S':
        return s.string(p + '.s', 0, 1, 'a"]')
    if k == 'k':
        return Keyword(s.char(p + '.k', 'ab'))
    if k == 'y':
        return Symbol(s.char(p + '.y', 'ab'))
    if k == '#':
        return TaggedElement(s.char(p + '.t', 'ab'),
                             element(s, p + '.v', depth - 1, kinds))
    n = s.choice(p + '.n', 3 if depth > 1 else 2)
    if k in 'lt':
        v = [element(s, '%s.%d' % (p, i), depth - 1, kinds)
             for i in range(n)]
        return v if k == 'l' else tuple(v)
    # keys and members: simple ones
    keys = [element(s, '%s.k%d' % (p, i), 0,
                    'iSk' if s.params.get('keys') else 'ik')
            for i in range(n)]
    for i in range(n):
        for j in range(i):
            s.assume(s.not_(same(s, keys[i], keys[j])))
    if k == 'd':
        return {x: element(s, '%s.%d' % (p, i), depth - 1, kinds)
                for i, x in enumerate(keys)}
    return set(keys)


@scenario(params={
    'quick': {'depth': 2, 'kinds': ('lsi', 'dik', 't#n', 'lyb', 'l#S')},
    'thorough': {'depth': 2, 'kinds': ('lts#ki', 'dikn', 'ld#yb', 'lSy')}},
          timeout=120)
def collections(s):
    """Elements of every kind in collections of every kind."""
    kinds = s.pick('kinds', s.params['kinds'])
    v = element(s, 'v', s.params['depth'], kinds)
    round_trip(s, v)


class Custom:
    """An object which EDN does not know."""
    def __init__(self, value):
        self.value = value


def custom(s, p, v, left):
    """The value with some of its parts hidden in custom objects."""
    if left[0] and s.choice(p + '.custom', 2):
        left[0] -= 1
        return Custom(custom(s, p + 'c', v, left))
    if isinstance(v, TaggedElement):
        return TaggedElement(v.name, custom(s, p + 't', v.value, left))
    if isinstance(v, (list, tuple)):
        items = [custom(s, '%s.%d' % (p, i), x, left)
                 for i, x in enumerate(v)]
        return items if isinstance(v, list) else tuple(items)
    if isinstance(v, dict):
        return {k: custom(s, '%s.%d' % (p, i), x, left)
                for i, (k, x) in enumerate(v.items())}
    return v


@scenario(covers=('custom', 'plain', 'refused'), timeout=120, params={
    'quick': {'depth': 2, 'n': 1, 'kinds': ('lk', '#k', 't#n', 'dn')},
    'thorough': {'depth': 2, 'n': 2, 'kinds': ('lt#n', 'd#n', 'td#k')}})
def custom_objects(s):
    """Objects which are converted by the function `default` are printed as
    what they are converted to, at any place; other objects are refused."""
    v = element(s, 'v', s.params['depth'], s.pick('kinds', s.params['kinds']))
    most = s.params['n']
    left = [most]
    c = custom(s, 'v', v, left)
    asc = s.choice('asc', 2) == 1
    if s.choice('no_default', 2):
        text, err = attempt(lambda: dumps(c, ensure_ascii=asc))
        if left[0] < most:
            s.cover('refused')
            s.check(isinstance(err, ValueError), 'refused', err)
            return
        s.cover('plain')
    else:
        seen = []

        def default(obj):
            seen.append(obj)
            return obj.value
        text, err = attempt(lambda: dumps(c, default, asc))
        s.check(err is None and len(seen) == most - left[0]
                and all([isinstance(x, Custom) for x in seen]),
                'called for each custom object', (err, seen))
        s.cover('custom')
    s.check(err is None, 'printed', err)
    back, err = attempt(lambda: loads(text))
    s.check(err is None, 'read', (text, err))
    s.check(same(s, back, v), 'the value is read back', (v, text, back))


@scenario(tier='thorough', timeout=120)
def deep(s):
    v = element(s, 'v', 3, 'l#ki')
    round_trip(s, v)


@scenario()
def large(s):
    """Long and deep values, large integers."""
    k = s.pick('kind', ('value', 'set', 'tagged', 'tuple', 'names'))
    if k == 'value':
        v = large_value(s, 'v')
    else:
        n = s.pick('size', WIDE)
        i = place(s, 'place', n)
        v = list(range(100, 100 + n))
        v[i] = s.int('x', -9, 99)
        if k == 'names':
            c = name(s, 'v', 1)
            v = ('a' * i) + c + ('b' * (n - 1 - i))
            v = s.pick('cls', (Keyword, Symbol, lambda x: TaggedElement(
                x, 1)))(v)
        else:
            v = (set(v) if k == 'set' else tuple(v) if k == 'tuple' else
                 TaggedElement('t', v))
    round_trip(s, v)
