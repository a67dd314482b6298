"""C11: option values conform to their types exactly when accepted."""
import types
import collections
import collections.abc

from symx.session import scenario
from hiku.graph import Graph, Root, Field as GField, Option, Node as GNode
from hiku.graph import Link as GLink
from hiku.types import (Any, Boolean, String, Integer, Float, Optional,
                        Sequence, Mapping, Record, TypeRef)
from hiku import edn
from hiku.query import Node, Field, Link
from hiku.validate.query import validate
from harness.world import attempt
from harness.sizes import WIDE, DEEP, place

ASSUMPTIONS = ['whether a boolean passes for an integer is left open']
BOUNDS = ('types nested 2 (thorough: 3) levels, values of all kinds nested 2 '
          'levels with up to 2 items, symbolic keys, integers and strings; '
          'values of up to 129 parts and types of up to 50 levels with one '
          'symbolic part')

LEAVES = ('any', 'bool', 'str', 'int', 'float')


class Open(BaseException):
    pass


def gen_type(s, p, depth, wrappers=('opt', 'seq', 'map', 'rec', 'ref')):
    """(description, hiku type)"""
    k = s.pick(p + '.type', LEAVES + (wrappers if depth else ()))
    if k == 'any':
        return (k,), Any
    if k == 'bool':
        return (k,), Boolean
    if k == 'str':
        return (k,), String
    if k == 'int':
        return (k,), Integer
    if k == 'float':
        return (k,), Float
    if k == 'ref':
        return (k,), TypeRef['T']
    d, t = gen_type(s, p + '.0', depth - 1, wrappers)
    if k == 'opt':
        return (k, d), Optional[t]
    if k == 'seq':
        return (k, d), Sequence[t]
    if k == 'map':
        kd, kt = (('str',), String) if s.choice(p + '.key', 2) else (
            ('int',), Integer)
        return (k, kd, d), Mapping[kt, t]
    n = s.choice(p + '.extra', 2)
    fields = {'a': t}
    desc = {'a': d}
    if n:
        fields['b'] = Integer
        desc['b'] = ('int',)
    return (k, desc), Record[fields]


# the data type T: a record which refers to itself
T_DESC = ('rec', {'a': ('opt', ('ref',)), 'b': ('int',)})
T_TYPE = Record[{'a': Optional[TypeRef['T']], 'b': Integer}]


def gen_value(s, p, depth, n=2):
    ks = ('none', 'bool', 'int', 'float', 'str') + (
        ('list', 'tuple', 'dict') if depth else ())
    k = s.pick(p + '.value', ks)
    if k == 'none':
        return None
    if k == 'bool':
        return s.bool(p + '.b')
    if k == 'int':
        return s.int(p + '.i', -1, 1)
    if k == 'float':
        return s.pick(p + '.f', (1.5, 1.0))
    if k == 'str':
        return s.string(p + '.s', 0, 1, 'ab')
    m = s.choice(p + '.n', n + 1)
    if k == 'dict':
        d = {}
        for i in range(m):
            key = (s.char('%s.k%d' % (p, i), 'abc')
                   if s.choice('%s.kk%d' % (p, i), 2) == 0
                   else s.int('%s.ki%d' % (p, i), 0, 1))
            if key in d:
                s.assume(False)
            d[key] = gen_value(s, '%s.v%d' % (p, i), depth - 1, 1)
        return d
    items = [gen_value(s, '%s.v%d' % (p, i), depth - 1, 1) for i in range(m)]
    return items if k == 'list' else tuple(items)


def conforms(d, v):
    k = d[0]
    if k == 'any':
        return True
    if k == 'bool':
        return isinstance(v, bool)
    if k == 'str':
        return isinstance(v, str)
    if k == 'int':
        if isinstance(v, bool):
            raise Open()
        return isinstance(v, int)
    if k == 'float':
        return isinstance(v, float)
    if k == 'opt':
        return v is None or conforms(d[1], v)
    if k == 'seq':
        return isinstance(v, (list, tuple)) and all(
            [conforms(d[1], x) for x in v])
    if k == 'map':
        return isinstance(v, dict) and all(
            [conforms(d[1], x) and conforms(d[2], y) for x, y in v.items()])
    if k == 'ref':
        return conforms(T_DESC, v)
    if not isinstance(v, dict):
        return False
    for x in v:
        if x not in d[1]:
            return False
    for x in d[1]:
        if x not in v:
            return False
    return all([conforms(d[1][x], v[x]) for x in d[1]])


def run(s, desc, type_, v, place=0, **default):
    o = [Option('x', type_, **default)]

    def f(*args):
        raise AssertionError
    if place == 0:
        items = [GField('f', None, f, options=o)]
        q = Node([Field('f', {'x': v})])
    elif place == 1:
        items = [GLink('f', TypeRef['N'], f, requires=None, options=o)]
        q = Node([Link('f', Node([Field('a')]), {'x': v})])
    else:
        items = [GField('f', TypeRef['T'], f, options=o)]
        q = Node([Link('f', Node([Field('b')]), {'x': v})])
    graph = Graph([GNode('N', [GField('a', None, f)]), Root(items)],
                  data_types={'T': T_TYPE})
    errors, err = attempt(lambda: validate(graph, q))
    s.check(err is None, 'validation gives a verdict', err)
    s.observe('accepted', not errors)
    try:
        ok = conforms(desc, v)
    except Open:
        return
    if ok:
        s.check(len(errors) == 0, 'a conforming value is accepted',
                (desc, v, errors))
        s.cover('accepted')
    else:
        s.check(len(errors) == 1, 'another value is refused', (desc, v))
        s.cover('refused')


B = ('accepted', 'refused')


@scenario(covers=B)
def one_wrapper(s):
    desc, t = gen_type(s, 't', 1)
    run(s, desc, t, gen_value(s, 'v', 1))


@scenario(covers=B)
def places(s):
    desc, t = gen_type(s, 't', 1, ('opt', 'seq'))
    run(s, desc, t, gen_value(s, 'v', 1, 1), s.choice('place', 3))


@scenario(covers=B)
def two_wrappers(s):
    """A wrapper inside a wrapper, over integers."""
    def wrap(p, d, t):
        k = s.choice(p, 4)
        if k == 0:
            return ('opt', d), Optional[t]
        if k == 1:
            return ('seq', d), Sequence[t]
        if k == 2:
            return ('map', ('str',), d), Mapping[String, t]
        return ('rec', {'a': d, 'b': ('str',)}), Record[{'a': t, 'b': String}]
    desc, t = wrap('outer', *wrap('inner', ('int',), Integer))
    run(s, desc, t, shaped(s, 'v', desc, [1]))


def shaped(s, p, desc, odd):
    """A value which follows the type, with at most odd[0] deviations."""
    if odd[0] and s.choice(p + '.odd', 2):
        odd[0] -= 1
        return gen_value(s, p, 1, 1)
    k = desc[0]
    if k == 'int':
        return s.int(p + '.i', -1, 1)
    if k == 'str':
        return s.string(p + '.s', 0, 1, 'ab')
    if k == 'opt':
        return None if s.choice(p + '.none', 2) else shaped(s, p + '.o',
                                                            desc[1], odd)
    if k == 'seq':
        return [shaped(s, '%s.%d' % (p, i), desc[1], odd)
                for i in range(s.choice(p + '.n', 3))]
    if k == 'map':
        d = {}
        for i in range(s.choice(p + '.n', 2)):
            d[s.char('%s.k%d' % (p, i), 'ab')] = shaped(
                s, '%s.%d' % (p, i), desc[2], odd)
        return d
    d = {}
    for x in desc[1]:
        key = x
        if odd[0]:
            c = s.choice('%s.key.%s' % (p, x), 3)
            if c == 1:
                odd[0] -= 1
                continue
            if c == 2:
                odd[0] -= 1
                key = s.char('%s.k.%s' % (p, x), 'abc')
        if key in d:
            s.assume(False)
        d[key] = shaped(s, '%s.%s' % (p, x), desc[1][x], odd)
    return d


@scenario(covers=B)
def references(s):
    """A record type which refers to itself."""
    def gen(p, depth):
        if depth == 0 or s.choice(p + '.odd', 2):
            return gen_value(s, p, 0)
        d = {}
        d[s.char(p + '.k', 'ac')] = gen(p + '.a', depth - 1)
        if s.choice(p + '.b', 2):
            d['b'] = s.int(p + '.bi', 0, 1)
        return d
    run(s, ('ref',), TypeRef['T'], gen('v', 2))


@scenario(covers=('required', 'refused', 'accepted', 'omitted'))
def defaults(s):
    """A default stands for an option which is not given, and for nothing
    else."""
    desc, t = s.pick('type', (
        (('int',), Integer), (('opt', ('int',)), Optional[Integer]),
        (('seq', ('int',)), Sequence[Integer]), (('str',), String)))

    def gen(p):
        return s.pick(p, (None, 0, 1, '', 'a', [], ['b']))
    default = {}
    if s.choice('has_default', 2):
        default['default'] = gen('default')
    place = s.choice('place', 3)
    if s.choice('given', 2):
        run(s, desc, t, gen('value'), place, **default)
        return

    def f(*args):
        raise AssertionError
    o = [Option('x', t, **default)]
    q = [Field('f'), Link('f', Node([Field('a')])),
         Link('f', Node([Field('b')]))][place]
    item = [GField('f', None, f, options=o),
            GLink('f', TypeRef['N'], f, requires=None, options=o),
            GField('f', TypeRef['T'], f, options=o)][place]
    graph = Graph([GNode('N', [GField('a', None, f)]), Root([item])],
                  data_types={'T': T_TYPE})
    if s.choice('empty', 2):
        q = q.copy(options={})
    errors, err = attempt(lambda: validate(graph, Node([q])))
    s.check(err is None, 'validation gives a verdict', err)
    if not default:
        s.check(len(errors) == 1, 'a required option is missed', errors)
        s.cover('required')
    elif conforms(desc, default['default']):
        s.check(not errors, 'the option is optional', errors)
        s.cover('omitted')
    else:
        s.check(len(errors) == 1, 'another default is refused', errors)


@scenario(tier='thorough', covers=B, timeout=120)
def two_levels(s):
    desc, t = gen_type(s, 't', 2, ('opt', 'seq', 'rec'))
    run(s, desc, t, gen_value(s, 'v', 2, 1))


@scenario(tier='thorough', covers=B, timeout=120)
def record_values(s):
    """Records with two fields, values with up to three keys."""
    desc = ('rec', {'a': ('int',), 'b': ('str',)})
    t = Record[{'a': Integer, 'b': String}]
    run(s, desc, t, gen_value(s, 'v', 1, 3))


@scenario(covers=B)
def large(s):
    """Long values and deep types, one part of which is symbolic."""
    kind = s.pick('kind', ('seq', 'tuple', 'values', 'keys', 'record',
                           'depth', 'nested'))
    n = s.pick('size', DEEP if kind in ('depth', 'nested') else WIDE)
    part = s.pick('part', ('int', 'str', 'none', 'float'))
    if part == 'int':
        x = s.int('x', -9, 99)
    elif part == 'str':
        x = s.string('text', 0, 1, 'ab')
    else:
        x = {'none': None, 'float': 1.5}[part]
    d, t = ('int',), Integer
    if kind == 'nested':
        # a value nested more or less deep than its type
        m = n + s.pick('off', (-1, 0, 1))
        v = x
        for i in range(m):
            v = [v]
        for i in range(n):
            d, t = ('seq', d), Sequence[t]
        run(s, d, t, v)
        return
    k = place(s, 'place', n)
    if kind == 'depth':
        v = x
        for i in range(n):
            j = (i + k) % 3
            if j == 0:
                d, t, v = ('seq', d), Sequence[t], [v]
            elif j == 1:
                d, t = ('rec', {'a': d}), Record[{'a': t}]
                v = {'a': v}
            else:
                d, t = ('map', ('str',), ('opt', d)), Mapping[
                    String, Optional[t]]
                v = {'k': v}
    elif kind in ('seq', 'tuple'):
        d, t = ('seq', d), Sequence[t]
        v = list(range(n))
        v[k] = x
        if kind == 'tuple':
            v = tuple(v)
    elif kind == 'values':
        d, t = ('map', ('str',), d), Mapping[String, t]
        v = dict([('k%d' % i, i) for i in range(n)])
        v['k%d' % k] = x
    elif kind == 'keys':
        d, t = ('map', ('str',), d), Mapping[String, t]
        v = dict([(x if i == k else 'k%d' % i, i) for i in range(n)])
    else:
        names = ['f%d' % i for i in range(n)]
        d = ('rec', dict([(name, ('int',)) for name in names]))
        t = Record[dict([(name, Integer) for name in names])]
        v = dict([(name, 1) for name in names])
        how = s.pick('how', ('value', 'missing', 'renamed', 'more'))
        if how == 'value':
            v[names[k]] = x
        elif how == 'more':
            v['more'] = x
        else:
            del v[names[k]]
            if how == 'renamed':
                v[names[k] + 'x'] = x
    run(s, d, t, v)


class Own(collections.abc.Sequence):
    def __init__(self, items):
        self.items = items

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[i]


SEQS = {'list': list, 'tuple': tuple, 'own': Own, 'edn': edn.List,
        'edn_tuple': edn.Tuple, 'user': collections.UserList,
        'deque': collections.deque}
MAPS = {'dict': dict, 'ordered': collections.OrderedDict, 'edn': edn.Dict,
        'proxy': types.MappingProxyType, 'user': collections.UserDict}
NONE = {'set': frozenset, 'iterator': iter, 'generator':
        lambda items: (x for x in items), 'str': lambda items: 'ab'}


@scenario(covers=B)
def classes(s):
    """Values of other classes, as programs and readers give them."""
    kind = s.pick('kind', ('seq', 'map', 'rec', 'none', 'any'))
    x = (s.int('x', 0, 9), 'a', None)[s.choice('part', 3)]
    fits = is_int(x)
    if kind in ('seq', 'none'):
        items = [1, x] if s.choice('first', 2) else [x]
        t = Sequence[Integer]
        if kind == 'seq':
            v = SEQS[s.pick('class', tuple(SEQS))](items)
        else:
            v = NONE[s.pick('class', tuple(NONE))](items)
            fits = False
    elif kind == 'any':
        t = Any
        v = s.pick('value', (object(), {1}, b'', iter([]), edn.Set([1]),
                             edn.Keyword('a'), Own([])))
        fits = True
    else:
        t = (Mapping[String, Integer] if kind == 'map' else
             Record[{'a': Integer}])
        v = MAPS[s.pick('class', tuple(MAPS))]({'a': x})
    if s.choice('optional', 2):
        t = Optional[t]
    o = [Option('x', t)]
    graph = Graph([Root([GField('f', None, lambda fields: [0], options=o)])])
    q = Node([Field('f', {'x': v})])
    errors, err = attempt(lambda: validate(graph, q))
    s.check(err is None, 'validation gives a verdict', err)
    s.check((not errors) == fits, 'accepted exactly when it conforms',
            (v, t, errors))
    s.cover('accepted' if fits else 'refused')


def is_int(x):
    return isinstance(x, int)
