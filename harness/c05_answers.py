"""C05: answers of resolver functions of every shape."""
import collections.abc

from symx.session import scenario
from hiku.engine import Engine
from hiku.executors.sync import SyncExecutor
from hiku.graph import Graph, Root, Node as GNode, Field as GField, Nothing
from hiku.graph import Link as GLink, Option
from hiku.types import TypeRef, Sequence, Optional, Integer
from hiku.query import Node, Field, Link
from hiku.result import denormalize
from harness.sizes import SIZES, WIDE, place
from harness.world import attempt

ASSUMPTIONS = ['strings (which are sequences) and generators nested in lists '
               'are not given as answers']
BOUNDS = ('answers and rows of 0 to 3 values, of kinds list, tuple, class of a '
          'user, generator (outermost), null, integer, dictionary, keys of '
          'one; 1 to 3 requested fields, 1 to 3 objects; one row among up to '
          '1025 and one field among up to 129 at a picked place')

SHAPES = ('list', 'tuple', 'gen', 'none', 'int', 'dict', 'own', 'keys')


class Own(collections.abc.Sequence):
    """A sequence of a user's own class."""

    def __init__(self, items):
        self.items = items

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[i]


def shape(kind, items):
    if kind == 'list':
        return items
    if kind == 'tuple':
        return tuple(items)
    if kind == 'gen':
        return (x for x in items)
    if kind == 'own':
        return Own(items)
    if kind == 'keys':
        return dict(enumerate(items)).keys()
    if kind == 'none':
        return None
    if kind == 'int':
        return 3
    return {0: 0, 1: 1}


def ok(kind, gen=True):
    return kind in ('list', 'tuple', 'own') or (gen and kind == 'gen')


def verdict(s, valid, graph, q, want, names):
    res, err = attempt(lambda: Engine(SyncExecutor()).execute(graph, q))
    s.observe('outcome', [valid, err is None])
    if valid:
        s.check(err is None, 'an answer of the right shape is accepted',
                err)
        den = denormalize(graph, res)
        s.check(s.eq(den, want), 'every value is in its place', (den, want))
        s.cover('accepted')
    else:
        s.check(err is not None, 'a malformed answer is rejected')
        s.check(isinstance(err, TypeError), 'rejected with a type error',
                err)
        msg = str(err)
        for n in names:
            s.check(n in msg, 'the error says where', msg)
        s.cover('rejected')


@scenario(covers=('accepted', 'rejected'))
def root_fields(s):
    n = 1 + s.choice('fields', 3)
    m = s.choice('values', 5)
    kind = s.pick('kind', SHAPES)
    vals = [s.int('v%d' % i, 0, 9) for i in range(m)]
    graph = Graph([Root([GField('f%d' % i, None, fn) for fn in
                         [lambda fields: shape(kind, vals)]
                         for i in range(n)])])
    q = Node([Field('f%d' % i) for i in range(n)])
    valid = ok(kind) and m == n
    want = {'f%d' % i: vals[i] for i in range(n)} if valid else None
    verdict(s, valid, graph, q, want, ['__root__'])


@scenario(covers=('accepted', 'rejected'),
          params={'quick': {'n': 2}, 'thorough': {'n': 3}})
def node_fields(s):
    n = 1 + s.choice('fields', 2)
    k = 1 + s.choice('objects', s.params['n'])
    rows = s.choice('rows', s.params['n'] + 2)
    kind = s.pick('kind', SHAPES)
    odd = s.choice('odd row', max(rows, 1))
    okind = s.pick('row kind', ('list', 'tuple', 'none', 'int', 'dict'))
    m = s.choice('row values', 4)
    data = []
    for i in range(rows):
        if i == odd:
            data.append(shape(okind, [s.int('o%d' % j, 0, 9)
                                      for j in range(m)]))
        else:
            data.append([s.int('v%d.%d' % (i, j), 0, 9) for j in range(n)])
    ids = list(range(k))
    if s.choice('loop', 2):
        func = lambda fields, ids: shape(kind, data)        # noqa
    else:
        seen = shape(kind, data)
        func = lambda fields, ids: seen                     # noqa
    graph = Graph([
        GNode('N', [GField('f%d' % i, None, fn) for fn in [func]
                    for i in range(n)]),
        Root([GLink('l', Sequence[TypeRef['N']], lambda: ids,
                    requires=None)]),
    ])
    q = Node([Link('l', Node([Field('f%d' % i) for i in range(n)]))])
    valid = ok(kind) and rows == k and ok(okind, False) and m == n
    want = None
    if valid:
        want = {'l': [{'f%d' % j: data[i][j] for j in range(n)}
                      for i in range(k)]}
    verdict(s, valid, graph, q, want, ['N'])


@scenario(covers=('accepted', 'rejected'),
          params={'quick': {'n': 3, 'max': 3}, 'thorough': {'n': 4, 'max': 4}})
def row_lengths(s):
    """Rows of arbitrary lengths, which may make up for each other."""
    n = 1 + s.choice('fields', 2)
    k = 1 + s.choice('objects', s.params['n'])
    ids = list(range(k))
    data = []
    for i in range(k):
        m = s.choice('len%d' % i, s.params['max'] + 1)
        data.append([s.int('v%d.%d' % (i, j), 0, 9) for j in range(m)])
    graph = Graph([
        GNode('N', [GField('f%d' % i, None, fn)
                    for fn in [lambda fields, ids: data] for i in range(n)]),
        Root([GLink('l', Sequence[TypeRef['N']], lambda: ids,
                    requires=None)]),
    ])
    q = Node([Link('l', Node([Field('f%d' % i) for i in range(n)]))])
    valid = s.all([len(row) == n for row in data])
    want = None
    if valid:
        want = {'l': [{'f%d' % j: data[i][j] for j in range(n)}
                      for i in range(k)]}
    verdict(s, valid, graph, q, want, ['N'])


KINDS = ('one', 'maybe', 'many')
TYPE = {'one': TypeRef['M'], 'maybe': Optional[TypeRef['M']],
        'many': Sequence[TypeRef['M']]}


@scenario(covers=('accepted', 'rejected'))
def root_links(s):
    lk = s.pick('link kind', KINDS)
    v = [s.int('v%d' % i, 0, 9) for i in range(3)]
    if lk == 'many':
        kind = s.pick('kind', SHAPES)
        m = s.choice('values', 4)
        ans = shape(kind, v[:m])
        valid = ok(kind)
        want = {'l': [{'a': x} for x in v[:m]]}
    elif lk == 'one':
        none = s.choice('nothing', 2)
        ans = Nothing if none else v[0]
        valid = not none
        want = {'l': {'a': v[0]}}
    else:
        none = s.choice('nothing', 2)
        ans = Nothing if none else v[0]
        valid = True
        want = {'l': None if none else {'a': v[0]}}
    graph = Graph([
        GNode('M', [GField('a', None, lambda fields, ids:
                           [[i] for i in ids])]),
        Root([GLink('l', TYPE[lk], lambda: ans, requires=None)]),
    ])
    q = Node([Link('l', Node([Field('a')]))])
    # what a One link may not return is said without the name of the link
    res, err = attempt(lambda: Engine(SyncExecutor()).execute(graph, q))
    s.check((err is None) == valid, 'accepted exactly when well formed',
            err)
    if valid:
        den = denormalize(graph, res)
        s.check(s.eq(den, want), 'links lead to the returned objects')
        s.cover('accepted')
    else:
        s.check(isinstance(err, (TypeError, AssertionError)),
                'rejected with an error', err)
        s.cover('rejected')
        if lk == 'many':
            s.check("'l'" in str(err), 'the error says where', str(err))


@scenario(covers=('accepted', 'rejected'),
          params={'quick': {'n': 2}, 'thorough': {'n': 3}})
def node_links(s):
    lk = s.pick('link kind', KINDS)
    k = 1 + s.choice('objects', s.params['n'])
    rows = s.choice('rows', s.params['n'] + 2)
    kind = s.pick('kind', SHAPES)
    data = []
    want = []
    bad_one = False
    valid = ok(kind) and rows == k
    odd = s.choice('odd', max(rows, 1))
    for i in range(rows):
        v = s.int('v%d' % i, 0, 9)
        if lk == 'many':
            if i == odd:
                rk = s.pick('row kind', ('list', 'tuple', 'none', 'int',
                                         'dict', 'own', 'keys'))
                m = s.choice('len', 3)
                xs = [v, v + 10][:m]
                data.append(shape(rk, xs))
                valid = valid and ok(rk, False)
                want.append([{'a': x} for x in xs])
            else:
                data.append([v])
                want.append([{'a': v}])
        elif i == odd and s.choice('nothing', 2):
            data.append(Nothing)
            if lk == 'one':
                valid = False
            want.append(None)
        else:
            data.append(v)
            want.append({'a': v})
    opts = [Option('o', Integer, default=1)] if s.choice('options', 2) \
        else None
    graph = Graph([
        GNode('M', [GField('a', None, lambda fields, ids:
                           [[i] for i in ids])]),
        GNode('N', [GField('i', None, lambda fields, ids:
                           [[i] for i in ids]),
                    GLink('l', TYPE[lk], lambda ids, *o: shape(kind, data),
                          requires='i', options=opts)]),
        Root([GLink('n', Sequence[TypeRef['N']], lambda: list(range(k)),
                    requires=None)]),
    ])
    q = Node([Link('n', Node([Link('l', Node([Field('a')]))]))])
    res, err = attempt(lambda: Engine(SyncExecutor()).execute(graph, q))
    s.observe('outcome', [valid, err is None])
    s.check((err is None) == valid, 'accepted exactly when well formed',
            err)
    if valid:
        den = denormalize(graph, res)
        w = {'n': [{'l': x} for x in want]}
        s.check(s.eq(den, w), 'links lead to the returned objects', (den, w))
        s.cover('accepted')
    else:
        s.check(isinstance(err, (TypeError, AssertionError)),
                'rejected with an error', err)
        s.cover('rejected')


@scenario(covers=('accepted', 'rejected'))
def free_links(s):
    """Links of a node which require nothing: one answer for all objects."""
    lk = s.pick('link kind', KINDS)
    k = 1 + s.choice('objects', 2)
    v = [s.int('v%d' % i, 0, 9) for i in range(3)]
    if lk == 'many':
        kind = s.pick('kind', SHAPES)
        m = s.choice('values', 4)
        valid = ok(kind)
        want = [{'a': x} for x in v[:m]]
        func = lambda: shape(kind, v[:m])           # noqa
    else:
        none = s.choice('nothing', 2)
        func = lambda: Nothing if none else v[0]    # noqa
        valid = lk == 'maybe' or not none
        want = None if none else {'a': v[0]}
    graph = Graph([
        GNode('M', [GField('a', None, lambda fields, ids:
                           [[i] for i in ids])]),
        GNode('N', [GLink('l', TYPE[lk], func, requires=None)]),
        Root([GLink('n', Sequence[TypeRef['N']], lambda: list(range(k)),
                    requires=None)]),
    ])
    q = Node([Link('n', Node([Link('l', Node([Field('a')]))]))])
    res, err = attempt(lambda: Engine(SyncExecutor()).execute(graph, q))
    s.check((err is None) == valid, 'accepted exactly when well formed',
            err)
    if valid:
        den = denormalize(graph, res)
        w = {'n': [{'l': want} for _ in range(k)]}
        s.check(s.eq(den, w), 'links lead to the returned objects', (den, w))
        s.cover('accepted')
    else:
        s.check(isinstance(err, (TypeError, AssertionError)),
                'rejected with an error', err)
        s.cover('rejected')


# looks like a row, and is none
BAD = {'set': set, 'iterator': iter, 'dict': dict.fromkeys}


@scenario(covers=('accepted', 'rejected'))
def one_of_many(s):
    """One row, at any place of a long answer, has another length or is no
    row at all; or there is one row more or less."""
    lk = s.pick('what', ('fields', 'one', 'maybe', 'many', 'wide'))
    n = s.pick('size', WIDE if lk == 'wide' else SIZES[1:])
    k = place(s, 'place', n)
    odd = s.pick('odd', ('-', 'longer', 'shorter', 'none', 'nothing', 'set',
                         'iterator', 'dict', 'row more', 'row less'))
    v = s.int('value', 0, 9)
    count = 1 if lk == 'wide' else n
    wide = n if lk == 'wide' else 2
    names = ['f%d' % i for i in range(wide)]
    if lk in ('fields', 'wide'):
        rows = [[j for j in range(wide)] for _ in range(count)]
        row = rows[0 if lk == 'wide' else k]
        row[k if lk == 'wide' else 1] = v
        new = {'longer': row + [1], 'shorter': row[:-1], 'none': None,
               'nothing': Nothing}.get(odd, row)
        if odd in BAD:
            new = BAD[odd](range(wide))
        rows[0 if lk == 'wide' else k] = new
        valid = odd == '-'
    else:
        rows = [[v] if lk == 'many' else v for _ in range(n)]
        if odd in ('none', 'nothing'):
            rows[k] = None if odd == 'none' else Nothing
        elif odd in BAD:
            s.assume(lk == 'many')
            rows[k] = BAD[odd](range(1 + s.choice('len', 2)))
        # None identifies an object unless a list is wanted
        valid = {'-': True, 'longer': True, 'shorter': True,
                 'none': lk != 'many', 'nothing': lk == 'maybe'}.get(odd,
                                                                     False)
        if odd in ('longer', 'shorter'):
            if lk == 'many':
                rows[k] = [v, v] if odd == 'longer' else []
    if odd == 'row more':
        rows, valid = rows + rows[-1:], False
    if odd == 'row less':
        rows, valid = rows[:-1], False
    graph = Graph([
        GNode('M', [GField('a', None, lambda fields, ids:
                           [[i] for i in ids])]),
        GNode('N', [GField('i', None, lambda fields, ids:
                           [[i] for i in ids])] +
              same_function(names, lambda fields, ids: rows) +
              ([GLink('l', TYPE[lk], lambda ids: rows, requires='i')]
               if lk in TYPE else [])),
        Root([GLink('n', Sequence[TypeRef['N']], lambda: list(range(count)),
                    requires=None)]),
    ])
    link = lk in TYPE
    q = Node([Link('n', Node([Link('l', Node([Field('a')]))] if link else
                             [Field(x) for x in names]))])
    res, err = attempt(lambda: Engine(SyncExecutor()).execute(graph, q))
    if not valid:
        s.check(isinstance(err, (TypeError, AssertionError)),
                'rejected with an error', err)
        s.cover('rejected')
        return
    s.check(err is None, 'an answer of the right shape is accepted', err)

    def target(r):
        if lk == 'many':
            return [{'a': x} for x in r]
        return None if r is Nothing else {'a': r}
    want = [({'l': target(r)} if link else dict(zip(names, r)))
            for r in rows]
    got = denormalize(graph, res)
    s.check(s.eq(got, {'n': want}), 'every value is in its place')
    s.cover('accepted')


def same_function(names, func):
    return [GField(x, None, func) for x in names]
