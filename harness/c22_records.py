"""C22: complex fields keep exactly what was requested."""
import types
import collections
import collections.abc

from symx.session import scenario
from hiku.engine import Engine
from hiku.executors.sync import SyncExecutor
from hiku.graph import Graph, Root, Node as GNode, Field as GField
from hiku.graph import Link as GLink, Nothing
from hiku.types import TypeRef, Sequence, Optional, Integer, Record
from hiku.query import Node, Field, Link
from hiku.result import denormalize
from hiku.validate.query import validate
from harness.world import attempt
from hiku.denormalize.graphql import DenormalizeGraphQL

ASSUMPTIONS = ['types of complex fields are (optional, sequence of) records, '
               'a resolver gives equal values for requests of one complex '
               'field with equal options, whatever the selections are']
BOUNDS = ('records nested 2 levels (3 in one scenario), wrapped or not, '
          'declared inline or by reference; sequences of up to 2 items, null '
          'values; selections with 2 items of symbolic name and alias at each '
          'level')

LINK = {'one': TypeRef['N'], 'opt': Optional[TypeRef['N']],
        'seq': Sequence[TypeRef['N']]}
WRAP = {'one': lambda t: t, 'opt': lambda t: Optional[t],
        'seq': lambda t: Sequence[t]}


def wrapped(s, p, kind, gen):
    """A value of the wrapped type."""
    if kind == 'opt':
        return None if s.choice(p + '.none', 2) else gen(p + '.v')
    if kind == 'seq':
        return [gen('%s.%d' % (p, i)) for i in range(s.choice(p + '.n', 3))]
    return gen(p + '.v')


class Decl:
    """A record type: fields with a wrapper and a record, or plain ones."""

    def __init__(self, name, fields):
        self.name = name
        self.fields = fields          # name -> None | (wrap, Decl)

    def type(self, data_types, inline):
        rec = Record[{n: Integer if f is None else
                      WRAP[f[0]](f[1].type(data_types, inline))
                      for n, f in self.fields.items()}]
        if inline:
            return rec
        data_types[self.name] = rec
        return TypeRef[self.name]

    def value(self, s, p):
        out = {}
        for n, f in self.fields.items():
            q = p + '.' + n
            if f is None:
                out[n] = s.int(q, 0, 99)
            else:
                out[n] = wrapped(s, q, f[0], lambda r: f[1].value(s, r))
        return out

    def select(self, s, p, n, names=None, alias=True):
        """Items with symbolic names and distinct result keys."""
        items = []
        for i in range(n):
            q = '%s.s%d' % (p, i)
            name = s.char(q, names or ''.join(self.fields))
            al = None
            if alias and s.choice(q + '.al', 2):
                al = s.char(q + '.alias', ''.join(self.fields)[:2] + 'k')
            f = self.fields[name]
            if f is None:
                items.append(Field(name, None, al))
            else:
                items.append(Link(name, Node(f[1].select(
                    s, q, 1, alias=alias)), None, al))
        keys = [f.result_key for f in items]
        for i in range(n):
            for j in range(i):
                s.assume(s.not_(s.eq(keys[i], keys[j])))
        return items

    def want(self, kind, val, items):
        if val is None:
            return None
        if kind == 'seq':
            return [self.want('one', v, items) for v in val]
        out = {}
        for f in items:
            v = val[f.name]
            d = self.fields[f.name]
            if d is not None:
                v = d[1].want(d[0], v, f.node.fields)
            out[f.alias if f.alias is not None else f.name] = v
        return out


def run(s, decl, kind, inline, items, place, alias=None):
    data_types = {}
    ty = WRAP[kind](decl.type(data_types, inline))
    vals = [wrapped(s, 'val%d' % i, kind, lambda p: decl.value(s, p))
            for i in range(2 if place == 'list' else 1)]
    q = Link('e', Node(items), None, alias)
    key = alias or 'e'
    wants = [{key: decl.want(kind, v, items)} for v in vals]
    if place == 'root':
        graph = Graph([Root([GField('e', ty, lambda fields:
                                    [vals[0] for _ in fields])]),
                       Root([GField('u', Integer, lambda fields: [0])])],
                      data_types=data_types)
        query = Node([q])
        want = wants[0]
    else:
        graph = Graph([
            GNode('N', [GField('e', ty, lambda fields, ids:
                               [[vals[i] for _ in fields] for i in ids])]),
            Root([GLink('l', Sequence[TypeRef['N']],
                        lambda: list(range(len(vals))), requires=None)])],
            data_types=data_types)
        query = Node([Link('l', Node([q]))])
        want = {'l': wants}
    res = Engine(SyncExecutor()).execute(graph, query)
    den = denormalize(graph, res)
    s.check(s.eq(den, want), 'denormalized value', (den, want))
    den2 = DenormalizeGraphQL(graph, res, 'Query').process(query)
    s.check(s.eq(den2, want), 'denormalized value (GraphQL)', (den2, want))
    s.observe('value', den)


U = {'p': None, 'q': None}


@scenario()
def flat(s):
    decl = Decl('T', {'x': None, 'y': None})
    kind = s.pick('kind', ('one', 'opt', 'seq'))
    items = decl.select(s, 'q', 2)
    run(s, decl, kind, s.choice('inline', 2) == 1, items,
        s.pick('place', ('root', 'list')),
        'k' if s.choice('alias', 2) else None)


@scenario()
def nested(s):
    decl = Decl('T', {'x': None, 'y': (
        s.pick('inner', ('one', 'opt', 'seq')), Decl('U', U))})
    kind = s.pick('kind', ('one', 'opt', 'seq'))
    items = decl.select(s, 'q', 1) + [Link('y', Node([Field('p')]), None,
                                           'm')]
    run(s, decl, kind, s.choice('inline', 2) == 1, items, 'root')


@scenario()
def two_nested(s):
    """The same record requested twice with different selections."""
    decl = Decl('T', {'x': (s.pick('w1', ('one', 'opt', 'seq')),
                            Decl('U', U)),
                      'y': (s.pick('w2', ('one', 'opt', 'seq')),
                            Decl('V', {'p': None, 'r': None}))})
    items = [Link(s.char('n%d' % i, 'xy'), Node([Field('p', None, 'z%d' % i)]),
                  None, 'a%d' % i) for i in range(2)]
    run(s, decl, 'one', False, items, 'root')


@scenario()
def three_levels(s):
    decl = Decl('T', {'y': (s.pick('w1', ('one', 'opt', 'seq')),
                            Decl('U', {'z': (s.pick('w2', ('one', 'opt',
                                                           'seq')),
                                             Decl('V', {'p': None,
                                                        'q': None})),
                                       'p': None}))})
    inner = Link('z', Node([Field(s.char('f', 'pq'), None,
                                  'k' if s.choice('al', 2) else None)]))
    run(s, decl, 'one', s.choice('inline', 2) == 1,
        [Link('y', Node([inner, Field('p')]))], 'root')


@scenario(tier='thorough', timeout=120)
def wide(s):
    decl = Decl('T', {'x': None, 'y': (
        s.pick('inner', ('one', 'opt', 'seq')), Decl('U', U))})
    kind = s.pick('kind', ('one', 'opt', 'seq'))
    items = decl.select(s, 'q', 2)
    run(s, decl, kind, s.choice('inline', 2) == 1, items, 'list')


def asked(val, kind, items):
    """The value cut down to what was asked, as a resolver may answer."""
    if val is None:
        return None
    if kind == 'seq':
        return [asked(v, 'one', items) for v in val]
    out = {}
    for f in items:
        if isinstance(f, Link):
            k = 'opt' if val[f.name] is None else (
                'seq' if isinstance(val[f.name], list) else 'one')
            out[f.name] = asked(val[f.name], k, f.node.fields)
        elif f.name != '__typename':
            out[f.name] = val[f.name]
    return out


@scenario()
def only_asked(s):
    """Resolvers answer only what was asked, perhaps nothing but the fact that
    there is an object; `__typename`."""
    inner = s.pick('inner', ('one', 'opt', 'seq'))
    decl = Decl('T', {'x': None, 'y': (inner, Decl('U', U))})
    kind = s.pick('kind', ('one', 'opt', 'seq'))
    data_types = {}
    ty = WRAP[kind](decl.type(data_types, False))
    val = wrapped(s, 'val', kind, lambda p: decl.value(s, p))
    shape = s.choice('shape', 5)
    tn = Field('__typename', None, 't' if s.choice('alias', 2) else None)
    x, p = Field('x'), Field('p')
    items = [
        [tn], [x, tn], [Link('y', Node([tn]))],
        [tn, Link('y', Node([p, tn]), None, 'k')], []][shape]

    def strip(items):
        return [f.copy(node=Node(strip(f.node.fields)))
                if isinstance(f, Link) else f
                for f in items if f.name != '__typename']

    def want(kind, val, items, name):
        if val is None:
            return None
        if kind == 'seq':
            return [want('one', v, items, name) for v in val]
        out = {}
        for f in items:
            if f.name == '__typename':
                out[f.result_key] = name
            elif isinstance(f, Link):
                out[f.result_key] = want(inner, val['y'], f.node.fields, 'U')
            else:
                out[f.result_key] = val[f.name]
        return out
    at_node = s.choice('place', 2)
    if at_node:
        graph = Graph([
            GNode('N', [GField('e', ty, lambda fields, ids: [
                [asked(val, kind, f.node.fields) for f in fields]
                for _ in ids])]),
            Root([GLink('l', Optional[TypeRef['N']], lambda: 0,
                        requires=None)])], data_types=data_types)
        query = Node([tn, Link('l', Node([Link('e', Node(items)), tn]))])
        plain = Node([Link('l', Node([Link('e', Node(strip(items)))]))])
    else:
        graph = Graph([Root([GField('e', ty, lambda fields: [
            asked(val, kind, f.node.fields) for f in fields])])],
            data_types=data_types)
        query = Node([Link('e', Node(items)), tn])
        plain = Node([Link('e', Node(strip(items)))])

    def whole(items, typename):
        e = {'e': want(kind, val, items, 'T')}
        names = {tn.result_key: 'Query'} if typename else {}
        if at_node:
            if typename:
                e[tn.result_key] = 'N'
            e = {'l': e}
        e.update(names)
        return e
    res = Engine(SyncExecutor()).execute(graph, plain)
    got = denormalize(graph, res)
    s.check(s.eq(got, whole(strip(items), False)), 'denormalized value', got)
    got = DenormalizeGraphQL(graph, res, 'Query').process(query)
    s.check(s.eq(got, whole(items, True)), 'denormalized value (GraphQL)',
            (got, whole(items, True)))
    s.observe('value', got)


@scenario()
def nothing_asked(s):
    """Selections without fields, which some formats can express: what is
    there is told from what is not."""
    kind = s.pick('kind', ('one', 'opt', 'seq'))
    inner = s.pick('inner', ('one', 'opt', 'seq'))
    decl = Decl('T', {'x': None, 'y': (inner, Decl('U', {'p': None}))})
    data_types = {}
    ty = WRAP[kind](decl.type(data_types, s.choice('inline', 2) == 1))
    val = wrapped(s, 'val', kind, lambda p: decl.value(s, p))
    items = [[], [Link('y', Node([]), None, 'z')],
             [Link('y', Node([])), Field('x')]][s.choice('items', 3)]
    ids = {'one': 1, 'opt': None if s.choice('lost', 2) else 0,
           'seq': list(range(s.choice('n', 3)))}
    link = s.pick('link', ('one', 'opt', 'seq'))
    graph = Graph([
        GNode('N', [GField('e', ty, lambda fs, ids: [[val] for _ in ids])]),
        Root([GLink('l', LINK[link], lambda: ids[link]
                    if ids[link] is not None else Nothing, requires=None)]),
    ], data_types=data_types)
    e = Link('e', Node(items))
    below = [[], [e]][s.choice('below', 2)]
    query = Node([Link('l', Node(below), None, 'k')])
    obj = {'e': decl.want(kind, val, items)} if below else {}
    want = {'k': [obj for _ in ids[link]] if link == 'seq' else
            None if ids[link] is None and link == 'opt' else obj}
    res = Engine(SyncExecutor()).execute(graph, query)
    den, err = attempt(lambda: denormalize(graph, res))
    s.check(err is None, 'denormalized', err)
    s.check(s.eq(den, want), 'denormalized value', (den, want))
    den, err = attempt(lambda: DenormalizeGraphQL(graph, res,
                                                  'Query').process(query))
    s.check(err is None, 'denormalized (GraphQL)', err)
    s.check(s.eq(den, want), 'denormalized value (GraphQL)', (den, want))


@scenario(timeout=120, params={'quick': {'n': 3}, 'thorough': {'n': 4}})
def named(s):
    """Types which are given names, also names of names, before and behind
    the wrappers."""
    data_types = {}

    def name_it(t, p):
        for i in range(s.choice(p + '.names', s.params['n'])):
            data_types['%s%d' % (p, i)] = t
            t = TypeRef['%s%d' % (p, i)]
        return t
    kind, inner = s.pick('kind', tuple(WRAP)), s.pick('inner', tuple(WRAP))
    rec2 = Record[{'p': Integer}]
    rec2 = name_it(rec2, 'A')
    rec = Record[{'x': Integer, 'y': name_it(WRAP[inner](rec2), 'B')}]
    rec = name_it(rec, 'C')
    ty = name_it(WRAP[kind](rec), 'D')
    decl = Decl('T', {'x': None, 'y': (inner, Decl('U', {'p': None}))})
    val = wrapped(s, 'val', kind, lambda p: decl.value(s, p))
    items = [Field('x'), Link('y', Node([Field('p', None, 'k')]), None, 'z')]
    if s.choice('place', 2):
        graph = Graph([
            GNode('N', [GField('e', ty, lambda fs, ids: [[val] for _ in ids])]),
            Root([GLink('l', TypeRef['N'], lambda: 1, requires=None)])],
            data_types=data_types)
        query = Node([Link('l', Node([Link('e', Node(items))]))])
        want = {'l': {'e': decl.want(kind, val, items)}}
    else:
        graph = Graph([Root([GField('e', ty, lambda fs: [val])])],
                      data_types=data_types)
        query = Node([Link('e', Node(items))])
        want = {'e': decl.want(kind, val, items)}
    s.check(not validate(graph, query), 'valid')
    res = Engine(SyncExecutor()).execute(graph, query)
    den = denormalize(graph, res)
    s.check(s.eq(den, want), 'denormalized value', (den, want))
    den, err = attempt(lambda: DenormalizeGraphQL(graph, res,
                                                  'Query').process(query))
    s.check(err is None, 'denormalized (GraphQL)', err)
    s.check(s.eq(den, want), 'denormalized value (GraphQL)', (den, want))
    # names of records are those they are declared by
    def declared(first, wrap, second):
        if first in data_types:
            return first
        # without a wrapper it is the record which has the second name
        return second if wrap == 'one' and second in data_types else None
    named_as = {'C': declared('C0', kind, 'D0'),
                'A': declared('A0', inner, 'B0')}
    more = [Field('__typename', None, 't')]
    items2 = items[:1] + [Link('y', Node([Field('p', None, 'k')] + more),
                               None, 'z')] + more
    e = Link('e', Node(items2))
    q2 = Node([Link('l', Node([e]))] if 'l' in want else [e])

    def with_names(v):
        if isinstance(v, list):
            return [with_names(x) for x in v]
        if not isinstance(v, dict):
            return v
        if 'k' in v:
            return dict(v, t=named_as['A'])
        v = dict([(k, with_names(x)) for k, x in v.items()])
        return dict(v, t=named_as['C']) if 'x' in v else v
    den, err = attempt(lambda: DenormalizeGraphQL(graph, res,
                                                  'Query').process(q2))
    s.check(err is None, 'denormalized with names', err)
    s.check(s.eq(den, with_names(want)), 'with the names of types',
            (den, with_names(want)))


class Own(collections.abc.Sequence):
    """A sequence of a user's own class."""

    def __init__(self, items):
        self.items = items

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[i]


class Rec:
    """A record of a user's own class: reading a field is all it can do."""

    def __init__(self, values):
        self.values = values

    def __getitem__(self, name):
        return self.values[name]


class Falsy(Rec):
    """A record which is false."""

    def __len__(self):
        return 0


MAPS = {'dict': dict, 'ordered': collections.OrderedDict, 'record': Rec,
        'falsy': Falsy, 'proxy': types.MappingProxyType}
SEQS = {'list': list, 'tuple': tuple, 'own': Own}


@scenario()
def classes(s):
    """Values of other classes than dictionaries and lists."""
    rec = MAPS[s.pick('record', tuple(MAPS))]
    seq = SEQS[s.pick('sequence', tuple(SEQS))]
    kind = s.pick('kind', tuple(WRAP))
    inner = s.pick('inner', tuple(WRAP))
    u = Record[{'p': Integer}]
    ty = WRAP[kind](Record[{'x': Integer, 'y': WRAP[inner](u)}])

    def value(k, label, gen):
        """(value, what is read of it)"""
        if k == 'opt' and s.choice(label + '.none', 2):
            return None, None
        if k == 'seq':
            got = [gen('%s.%d' % (label, i))
                   for i in range(s.choice(label + '.n', 3))]
            return seq([v for v, _ in got]), [w for _, w in got]
        return gen(label)

    def below(label):
        p = s.int(label + '.p', 0, 9)
        return rec({'p': p}), {'p': p}

    def above(label):
        x = s.int(label + '.x', 0, 9)
        y, w = value(inner, label + '.y', below)
        return rec({'x': x, 'y': y}), {'x': x, 'k': w}
    v, w = value(kind, 'v', above)
    graph = Graph([GNode('N', [GField('e', ty, lambda fields, ids:
                                      [[v] for i in ids])]),
                   Root([GLink('l', TypeRef['N'], lambda: 1, requires=None),
                         GField('e', ty, lambda fields: [v])])])
    e = Link('e', Node([Field('x'), Link('y', Node([Field('p')]), None,
                                         'k')]))
    node = s.choice('node', 2)
    query = Node([Link('l', Node([e]))]) if node else Node([e])
    want = {'l': {'e': w}} if node else {'e': w}
    res = Engine(SyncExecutor()).execute(graph, query)
    den, err = attempt(lambda: denormalize(graph, res))
    s.check(err is None and s.eq(den, want), 'denormalized value',
            err or (den, want))
    den, err = attempt(lambda: DenormalizeGraphQL(
        graph, res, 'Query').process(query))
    s.check(err is None and s.eq(den, want), 'denormalized value (GraphQL)',
            err or (den, want))
