"""C23: a result exposes only what was requested."""
from symx.session import scenario
from hiku.engine import Engine
from hiku.executors.sync import SyncExecutor
from hiku.graph import Graph, Root, Node as GNode, Field as GField
from hiku.graph import Link as GLink, Nothing
from hiku.query import Node, Field, Link, merge
from hiku.types import Any, Record, TypeRef, Sequence
from hiku.result import denormalize
from harness.world import (World, make_graph, reference, attempt, KIND,
                           LINK_NODE, LINKS)
from harness.sizes import place

ASSUMPTIONS = []
BOUNDS = ('queries of up to 2 fields and 1 link at the root and below; the '
          'name that is read is symbolic; up to 65 fields of 65 objects')

ALPHA = 'abgdezlmo'


def access(s, proxy, name, attr):
    if attr:
        return attempt(lambda: getattr(proxy, name))
    return attempt(lambda: proxy[name])


def check_read(s, w, proxy, node, ident, qnode, p, depth=0):
    """Reads any one name of the object."""
    name = s.char(p, ALPHA)
    attr = s.choice(p + '.attr', 2)
    v, err = access(s, proxy, name, attr)
    item = None
    for f in qnode.fields:
        if (f.alias if f.alias is not None else f.name) == name:
            item = f
    if item is None:
        s.cover('refused')
        s.check(err is not None, 'what was not requested can not be read',
                (v, name))
        s.check(isinstance(err, AttributeError if attr else KeyError),
                'reading it is a lookup error', err)
        return
    s.cover('read')
    s.check(err is None, 'what was requested can be read', err)
    want = reference(w, node, ident, Node([item]))
    want = [x for x in want.values()][0]
    if isinstance(item, Field):
        s.check(s.eq(v, want), 'the value is the requested one', (v, want))
        return
    if item.name == 'e':
        return
    if v is None:
        s.check(want is None, 'absent object')
        return
    objs = v if isinstance(v, list) else [v]
    many = want if isinstance(want, list) else [want]
    s.check(isinstance(v, list) == isinstance(want, list), 'list or object')
    s.check(len(objs) == len(many), 'all of the objects')
    if objs and depth == 0:
        i = s.choice(p + '.obj', len(objs))
        src = -1
        if node != 'R':
            src = w.value(node, 'a', None, ident)
        t = w.target(node, item.name, None, src)
        ids = t if isinstance(t, list) else [t]
        check_read(s, w, objs[i], LINK_NODE[item.name], ids[i], item.node,
                   p + '.sub', depth + 1)


def run(s, q):
    w = World(s, ids=(0, 1), max_len=s.params.get('len', 1))
    graph = make_graph(w)
    q = merge([q])
    res = Engine(SyncExecutor()).execute(graph, q)
    check_read(s, w, res, 'R', -1, q, 'read')


def field(s, p, names):
    return Field(s.char(p, names), None,
                 s.char(p + '.alias', 'az') if s.choice(p + '.al', 2)
                 else None)


def distinct(s, items):
    for i in range(len(items)):
        for j in range(i):
            s.assume(s.not_(s.eq(items[i].result_key, items[j].result_key)))
    return items


C = ('refused', 'read')


@scenario(covers=C)
def fields(s):
    run(s, Node(distinct(s, [field(s, 'f%d' % i, 'ab') for i in range(2)])))


@scenario(covers=C)
def below_link(s):
    """Fields loaded only since a link requires them are not exposed."""
    sub = [Field(s.char('f', 'bg'), None, None)]
    name = s.char('l', 'lmo')
    if s.choice('link', 2):
        sub.append(Link(s.char('l2', LINKS[LINK_NODE[name]][:3]),
                        Node([Field('b')]), None,
                        'z' if s.choice('l2.al', 2) else None))
    run(s, Node([Link(name, Node(sub))]))


@scenario(covers=C, params={'quick': {'len': 1}, 'thorough': {'len': 2}})
def same_object_twice(s):
    """What another branch of the query requested of the same object."""
    run(s, Node([Link('l', Node([Field(s.char('f', 'ab'))]), None, 'd'),
                 Link('m', Node([Field(s.char('g', 'ag')),
                                 Link('o', Node([Field('b')]))]))]))


@scenario(covers=C)
def records(s):
    run(s, Node([Link('e', Node([Field('x')]), None,
                      'z' if s.choice('al', 2) else None),
                 Field(s.char('f', 'ab'))]))


@scenario(covers=C, timeout=300)
def large(s):
    """Many fields, of many objects."""
    n = s.pick('n', (1, 3, 17, 65))
    k, m = place(s, 'asked', n), place(s, 'read', n)
    many = s.choice('many', 2)
    alias = s.choice('alias', 2)
    x = s.int('x', 0, 9)

    def values(fields, ids=None):
        if ids is None:
            return [value(f.name, 0) for f in fields]
        return [[value(f.name, i) for f in fields] for i in ids]

    def value(name, i):
        return x if name == 'f%d' % k else [name, i]
    names = ['f%d' % i for i in range(n)]
    fields = [GField(f, None, values) for f in names]
    graph = Graph([GNode('N', fields), Root(fields + [
        GLink('l', Sequence[TypeRef['N']], lambda: list(range(n)),
              requires=None)])])
    # all but one, or that one alone
    only = s.choice('only', 2)
    asked = [Field(f, None, 'z' + f if alias else None) for f in names
             if (f == 'f%d' % k) == bool(only)]
    q = Node([Link('l', Node(asked))] if many else asked)
    res = Engine(SyncExecutor()).execute(graph, q)
    obj, i = res, 0
    if many:
        i = place(s, 'object', n)
        s.check(len(res['l']) == n, 'all of the objects')
        obj = res['l'][i]
    name = ('z' if s.choice('read alias', 2) else '') + 'f%d' % m
    attr = s.choice('attr', 2)
    v, err = access(s, obj, name, attr)
    if [f for f in asked if f.result_key == name]:
        s.cover('read')
        s.check(err is None, 'what was requested can be read', err)
        s.check(s.eq(v, value('f%d' % m, i)), 'the requested value', v)
    else:
        s.cover('refused')
        s.check(isinstance(err, AttributeError if attr else KeyError),
                'what was not requested can not be read', (v, err))


VALUES = ((), (1, 2), [], [3], {}, {'k': 1}, set(), frozenset((4,)), None, '',
          'text', 0, False, 1.5, b'bytes', range(3), Nothing, (None,),
          [[5], (6,)], NotImplemented, KeyError('k'), len)


def is_same(a, b):
    return a is b or type(a) is type(b) and bool(a == b)


@scenario()
def values(s):
    """What a resolver returned for a field is given as it is."""
    k, m = s.choice('value', len(VALUES)), s.int('m', 0, 9)
    v, other = VALUES[k], (m, [m])
    at = s.pick('at', ('root', 'one', 'many', 'record'))
    graph = Graph([
        GNode('N', [GField('v', None, lambda fs, ids: [
            [v if f.name == 'v' else other for f in fs] for _ in ids]),
            GField('w', None, lambda fs, ids: [[other] for _ in ids])]),
        Root([GField('v', None, lambda fs: [v for _ in fs]),
              GField('w', None, lambda fs: [other]),
              GField('r', Record[{'x': Any}], lambda fs: [{'x': v}]),
              GLink('one', TypeRef['N'], lambda: 1, requires=None),
              GLink('many', Sequence[TypeRef['N']], lambda: (1, 2),
                    requires=None)])])
    alias = s.pick('alias', (None, 'z'))
    items = [Field('v', None, alias), Field('w')]
    if at == 'root':
        q = Node(items)
    elif at == 'record':
        q = Node([Link('r', Node([Field('x', None, alias)]))])
    else:
        q = Node([Link(at, Node(items))])
    res = Engine(SyncExecutor()).execute(graph, q)
    key = alias or 'v'
    attr = s.choice('attr', 2)
    if at == 'record':
        s.check(is_same(res['r']['x'], v), 'the record which was returned')
        s.check(is_same(denormalize(graph, res)['r'][alias or 'x'], v),
                'the same value in the denormalized result')
        return
    objs = {'root': lambda: [res], 'one': lambda: [res['one']],
            'many': lambda: res['many']}[at]()
    plain = denormalize(graph, res)
    plain = {'root': lambda: [plain], 'one': lambda: [plain['one']],
             'many': lambda: plain['many']}[at]()
    s.check(len(objs) == len(plain) == (2 if at == 'many' else 1), 'objects')
    for o, d in zip(objs, plain):
        got, err = access(s, o, key, attr)
        s.check(err is None and is_same(got, v), 'the value which was returned',
                (got, v, err))
        s.check(is_same(o['w'], other), 'the value which was returned', o['w'])
        s.check(is_same(d[key], v) and is_same(d['w'], other),
                'the same value in the denormalized result', d)
