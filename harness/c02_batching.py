"""C02: which calls the engine makes, with which fields, options and ids."""
from itertools import permutations

from symx.session import scenario
from hiku.engine import Engine
from hiku.executors.sync import SyncExecutor
from hiku.graph import (Graph, Root, Node as GNode, Field as GField,
                        Link as GLink, Option, Nothing)
from hiku.types import Integer, Record, Sequence, TypeRef
from hiku.query import Node, Field, Link, merge
from harness.sizes import SIZES, WIDE, place
from harness.world import (World, make_graph, options_of, KIND, LINK_NODE,
                           LINK_OPT, NO_REQ)

ASSUMPTIONS = ['loaders are pure functions of (fields, options, ids)']
BOUNDS = ('queries of up to 3 sibling fields and 2 sibling links, 2 levels of '
          'links, lists of up to 2 objects; up to 1025 objects, 129 fields '
          'and 33 links with concrete identifiers')

FUNC = {'R': {'a': 'root_f', 'b': 'root_g', 'c': 'root_f', 'e': 'root_rec'}}
for _n in 'NM':
    FUNC[_n] = {'a': _n + '_f', 'b': _n + '_f', 'g': _n + '_g',
                'd': _n + '_g', 'e': _n + '_rec'}


def expected_calls(w, node, ids, qnode, out):
    """Every call, one group of objects at a time."""
    groups = {}
    links = []
    for f in qnode.fields:
        if isinstance(f, Link) and f.name != 'e':
            links.append(f)
            if node != 'R' and f.name not in NO_REQ:
                groups.setdefault(FUNC[node]['a'], []).append(('a', None))
        else:
            groups.setdefault(FUNC[node][f.name], []).append(
                (f.name, options_of(f)))
    for fn, fields in groups.items():
        out.append((fn, fields, ids))
    for f in links:
        name = f.name
        opts = options_of(f)
        kind = KIND[name]
        if node == 'R' or name in NO_REQ:
            out.append(('link', (node, name, opts), None))
            t = w.target(node, name, opts, -1)
            if kind == 'one':
                to = [t]
            elif kind == 'maybe':
                to = [] if t is Nothing else [t]
            else:
                to = t
        else:
            src = [w.value(node, 'a', None, i) for i in ids]
            out.append(('link', (node, name, opts), src))
            to = []
            for i in src:
                t = w.target(node, name, opts, i)
                if kind == 'one':
                    to.append(t)
                elif kind == 'maybe':
                    if t is not Nothing:
                        to.append(t)
                else:
                    to.extend(t)
        if len(to):
            expected_calls(w, LINK_NODE[name], to, f.node, out)
    return out


def same_fields(s, a, b):
    """The same set of (name, options)."""
    return s.all([s.any([s.eq(x, y) for y in b]) for x in a] +
                 [s.any([s.eq(x, y) for x in a]) for y in b])


def same_call(s, a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'link':
        return s.all([s.eq(a[1], b[1]), s.eq(a[2], b[2])])
    if (a[2] is None) != (b[2] is None):
        return False
    return s.all([same_fields(s, a[1], b[1]), s.eq(a[2], b[2])])


def kind_of(call):
    if call[0] == 'link':
        return 'link %s %s' % (call[1][0], call[1][1])
    return call[0]


def same_calls(s, got, want):
    """Equal as multisets."""
    if len(got) != len(want):
        return False
    by_g = {}
    by_w = {}
    for c in got:
        by_g.setdefault(kind_of(c), []).append(c)
    for c in want:
        by_w.setdefault(kind_of(c), []).append(c)
    conds = []
    for k, ws in by_w.items():
        gs = by_g.get(k, [])
        if len(gs) != len(ws):
            return False
        conds.append(s.any([
            s.all([same_call(s, x, y) for x, y in zip(p, ws)])
            for p in permutations(gs)]))
    return s.all(conds)


def run(s, q, **kw):
    w = World(s, **kw)
    graph = make_graph(w)
    Engine(SyncExecutor()).execute(graph, q)
    log = list(w.log)
    want = expected_calls(w, 'R', None, q, [])
    for c in log:
        if c[0] != 'link':
            s.check(len(c[1]) > 0, 'never called without fields', log)
        s.check(c[2] is None or len(c[2]) > 0, 'never called without ids', log)
    s.check(same_calls(s, log, want), 'exactly the expected calls',
            (log, want))
    s.observe('calls', sorted([kind_of(c) for c in log]))


def leaf(s, p, names, alias=None):
    name = s.char(p + '.name', names)
    if name == 'c' or name == 'd':
        if s.choice(p + '.opt', 2):
            return Field(name, {'x': s.int(p + '.x', -3, 3)}, alias)
    return Field(name, None, alias)


def link(s, p, names, node, alias=None):
    name = s.char(p, names)
    opts = None
    if name in ('p', 'q') and s.choice(p + '.opt', 2):
        opts = {'x': s.int(p + '.x', -3, 3)}
    return Link(name, node, opts, alias)


@scenario()
def root_fields(s):
    items = [leaf(s, 'f%d' % i, 'abc', 'z%d' % i)
             for i in range(1 + s.choice('n', 3))]
    if s.choice('rec', 2):
        items.append(Link('e', Node([Field('x')])))
    run(s, Node(items))


@scenario()
def one_link(s):
    subs = [leaf(s, 'f%d' % i, 'abgd', 'z%d' % i)
            for i in range(1 + s.choice('n', 2))]
    run(s, Node([link(s, 'l', 'lmop', Node(subs))]))


@scenario()
def two_links(s):
    run(s, Node([link(s, 'l%d' % i, 'lmop',
                      Node([leaf(s, 'f%d' % i, 'bd')]), 'z%d' % i)
                 for i in range(2)]), ids=(0, 1), max_len=2)


@scenario()
def nested(s):
    sub = [link(s, 'l2', 'lmoqn', Node([leaf(s, 'f', 'bd')]))]
    if s.choice('with a', 2):
        sub.append(Field('a'))
    if s.choice('with g', 2):
        sub.append(Field('g'))
    run(s, Node([Link('l', Node(sub))]), ids=(0, 1))


@scenario()
def nested_two(s):
    """Several links of the same objects share one load of what they
    require."""
    run(s, Node([Link('l', Node([
        link(s, 'l%d' % i, 'lmoq', Node([Field('b')]), 'z%d' % i)
        for i in range(2)]))]), ids=(0, 1), max_len=1)


@scenario()
def without_requirement(s):
    """Links of objects which require nothing of them."""
    sub = [link(s, 'l2', 'nrv', Node([leaf(s, 'f', 'bd')]))]
    if s.choice('more', 2):
        sub.append(link(s, 'l3', 'rlv', Node([leaf(s, 'f3', 'ag')]), 'z'))
    run(s, Node([Link('l', Node(sub))]), ids=(0, 1), max_len=1)


@scenario()
def repeated_objects(s):
    """The same object several times, with links which do not depend on
    it."""
    run(s, Node([Link('l', Node([
        link(s, 'l2', 'nrv', Node([Field('b')]))]))]), ids=(0, 1), max_len=3)


@scenario(tier='thorough', timeout=120)
def nested_wide(s):
    sub = [link(s, 'l%d' % i, 'lmoqn', Node([leaf(s, 'f%d' % i, 'bd')]),
                'z%d' % i) for i in range(2)] + [leaf(s, 'g', 'abg')]
    run(s, Node([link(s, 'l', 'lm', Node(sub))]), ids=(0, 1), max_len=2)


@scenario(tier='thorough', timeout=120)
def deep(s):
    q3 = link(s, 'l3', 'lmk', Node([leaf(s, 'f3', 'bd')]))
    q2 = Link('o', Node([q3]))
    run(s, Node([link(s, 'l1', 'lmp', Node([q2]) if False else Node([Field('b')])),
                 Link('l', Node([q2]), None, 'z')]), ids=(0, 1), max_len=3)


@scenario()
def large(s):
    """However many fields, links and objects there are, every loader is
    called once for all of them."""
    n = s.pick('objects', SIZES)
    m = s.pick('fields', WIDE if n <= 2 else (1, 33) if n <= 65
               else (1, 3))
    ids = [7 * i % 1031 for i in range(n)]
    if n > 1:
        # an object which is met twice
        ids[place(s, 'place', n)] = ids[0]
    calls = []

    def fields(fs, idents):
        calls.append(('fields', [(f.name, f.options) for f in fs],
                      list(idents)))
        return [[i for _ in fs] for i in idents]

    def link(idents, options):
        calls.append(('link', options, list(idents)))
        return [i + 1 for i in idents]

    def root(fs):
        calls.append(('root', [(f.name, f.options) for f in fs]))
        return [1 for _ in fs]
    option = [Option('x', Integer)]
    graph = Graph([
        GNode('N', [GField('i', Integer, fields),
                    GField('a', Integer, fields, options=option),
                    GLink('self', TypeRef['N'], link, requires='i',
                          options=option)]),
        Root([GField('a', Integer, root, options=option),
              GLink('all', Sequence[TypeRef['N']], lambda: list(ids),
                    requires=None)])])
    top = s.int('x', 0, 3)
    kind = s.pick('kind', ('fields', 'links'))
    if kind == 'fields':
        items = [Field('a', {'x': top if i == m - 1 else i + 9}, 'z%d' % i)
                 for i in range(m)]
    else:
        items = [Link('self', Node([Field('i')]),
                      {'x': top if i == m - 1 else i + 9}, 'z%d' % i)
                 for i in range(min(m, 33))]
    want = []
    opts = [f.options for f in items]
    if kind == 'fields':
        want.append(('root', [('a', o) for o in opts]))
    if n:
        want.append(('fields', [('a', o) for o in opts] if kind == 'fields'
                     else [('i', None)], ids))
        if kind == 'links':
            for o in opts:
                want.append(('link', o, ids))
                want.append(('fields', [('i', None)], [i + 1 for i in ids]))
    q = Node(([f for f in items] if kind == 'fields' else []) +
             [Link('all', Node(items))])
    Engine(SyncExecutor()).execute(graph, q)
    if kind == 'fields':
        # in the order they are written
        s.check(s.eq(calls, want), 'one call with all fields', calls)
        return
    # links which require the same field ask for it together
    calls = [(c[0], [('i', None)], c[2]) if c[0] == 'fields' and all(
        [f == ('i', None) for f in c[1]]) else c for c in calls]
    s.check(len(calls) == len(want), 'as many calls as links', calls)
    for kind in ('fields', 'link'):
        got = [c for c in calls if c[0] == kind]
        s.check(s.eq(got, [c for c in want if c[0] == kind]),
                'one call for each link and its objects', got)


@scenario()
def ordered(s):
    """In a mutation every run of consecutive fields of one function is one
    call, whatever there is around it."""
    n = s.pick('size', (1, 2, 3, 4, 17, 129))
    k = place(s, 'place', n)
    between = s.pick('between', (None, 'other', 'link', 'record'))
    calls = []

    def func(nm):
        def fn(fields):
            calls.append((nm, [(f.name, f.options['x'] if f.options else None)
                               for f in fields]))
            return [{'v': 1} if f.name == 'e' else 1 for f in fields]
        return fn

    def link():
        calls.append(('link', []))
        return []
    f, g = func('f'), func('g')
    graph = Graph([
        GNode('N', [GField('i', Integer, None)]),
        Root([GField('a', Integer, f, options=[Option('x', Integer)]),
              GField('b', Integer, f), GField('c', Integer, g),
              GField('e', TypeRef['T'], f),
              GLink('l', Sequence[TypeRef['N']], link, requires=None)])],
        data_types={'T': Record[{'v': Integer}]})
    x = s.int('x', 0, 3)
    items, runs = [], [[]]
    for i in range(n):
        opts = {'x': x if i == k else 9 + i}
        items.append(Field('a', opts, 'z%d' % i))
        runs[-1].append(('a', opts['x']))
        if i == k and between:
            if between == 'other':
                items.append(Field('c'))
                runs += [[('c', None)], []]
            elif between == 'link':
                items.append(Link('l', Node([Field('i')])))
                runs += [None, []]
            else:
                # records come from the same function
                items.append(Link('e', Node([Field('v')])))
                items.append(Field('b'))
                runs[-1] += [('e', None), ('b', None)]
    Engine(SyncExecutor()).execute(graph, Node(items, ordered=True))
    want = [('link', []) if r is None else
            ('g' if r[0][0] == 'c' else 'f', r) for r in runs if r != []]
    s.check(s.eq(calls, want), 'one call for every run of fields',
            (calls, want))
