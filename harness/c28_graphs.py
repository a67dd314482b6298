"""C28: exactly the inconsistent graphs are refused."""
from symx.session import scenario
from hiku.engine import Engine
from hiku.executors.sync import SyncExecutor
from hiku.graph import (Graph, Root, Node as GNode, Field as GField,
                        Link as GLink, Option, apply, GraphTransformer)
from hiku.types import TypeRef, Sequence, Optional
from hiku.query import Node, Field, Link
from hiku.result import denormalize
from hiku.validate.graph import GraphValidationError
from hiku.validate.query import validate
from harness.world import attempt
from harness.sizes import place

ASSUMPTIONS = [
    'types of fields and options are not checked by the graph: data types '
    'which fields refer to are declared, with names other than those of nodes',
    'options of one item have distinct names, names are not empty',
]
BOUNDS = ('up to 3 nodes and 2 parts of the root with up to 3 items each '
          '(thorough: more items per graph); names of items, nodes, targets '
          'and requirements symbolic out of 2 or 3; graphs of up to 33 nodes, items '
          'or parts of the root with one flaw at most')

TYPES = {'one': lambda n: TypeRef[n], 'maybe': lambda n: Optional[TypeRef[n]],
         'many': lambda n: Sequence[TypeRef[n]]}
BAD = (1, 'x', None, Option('o', None))


class Item:
    """kind: field, link or bad (something else)."""

    def __init__(self, kind, name=None, to=None, requires=None, link='many',
                 opts='', bad=None):
        self.kind = kind
        self.name = name
        self.to = to
        self.requires = requires
        self.link = link
        self.opts = opts
        self.bad = bad

    def options(self):
        if self.opts == '':
            return None
        return [Option('o', None, default=1)] + (
            [7] if self.opts == 'bad' else [])

    def build(self, root):
        if self.kind == 'bad':
            return self.bad
        if self.kind == 'field':
            fn = root_field if root else node_field
            return GField(self.name, None, fn, options=self.options())
        return GLink(self.name, TYPES[self.link](self.to),
                     loader(self, root), requires=self.requires,
                     options=self.options())


def root_field(fields):
    return [1 for _ in fields]


def node_field(fields, ids):
    return [[1 for _ in fields] for _ in ids]


def loader(item, root):
    one = {'one': 0, 'maybe': 0, 'many': [0]}[item.link]

    def fn(*args):
        if not root and item.requires is not None:
            return [one for _ in args[0]]
        return one
    return fn


def node_problems(s, name, items, nodes, out):
    """Reports as (kind, place, subject)."""
    bad = [i for i in items if i.kind == 'bad']
    if bad:
        out.append(('items', name, [type(i.bad) for i in bad]))
        return
    for i in items:
        if i.opts == 'bad':
            out.append(('options', name, i))
            continue
        if i.kind == 'link':
            if not s.any([s.eq(i.to, n) for n in nodes]):
                out.append(('target', name, i))
            if i.requires is not None:
                if not s.any([s.eq(f.name, i.requires) for f in items
                              if f.kind == 'field']):
                    out.append(('requires', name, i))
                elif s.any([s.eq(f.name, i.requires) for f in items
                            if f.kind == 'link']):
                    # a field and a link of the same name: reported as a
                    # duplicate anyway
                    out.append(('maybe requires', name, i))
    names = [i.name for i in items]
    dup = duplicates(s, names)
    if dup:
        out.append(('names', name, dup))


def duplicates(s, names):
    out = []
    for i, n in enumerate(names):
        if any(n == m for m in names[:i]) and not any(n == m for m in out):
            out.append(n)
    return out


def problems(s, graph):
    """graph: list of (name or None, items) or (bad value,)"""
    bad = [g for g in graph if len(g) == 1]
    if bad:
        return [('nodes', None, [type(g[0]) for g in bad])]
    out = []
    nodes = [g[0] for g in graph if g[0] is not None]
    node_problems(s, None, [i for g in graph if g[0] is None for i in g[1]],
                  nodes, out)
    for g in graph:
        if g[0] is not None:
            node_problems(s, g[0], g[1], nodes, out)
    dup = duplicates(s, nodes)
    if dup:
        out.append(('duplicated nodes', None, dup))
    return out


def says(s, text, *parts):
    return s.all([p in text for p in parts])


def describes(s, text, p):
    kind, place, x = p
    where = 'root' if place is None else place
    if kind == 'nodes':
        return says(s, text, 'Graph can not contain', *map(repr, x))
    if kind == 'items':
        return says(s, text, 'Node can not contain', '"%s"' % where,
                    *map(repr, x))
    if kind == 'options':
        return says(s, text, 'options', '%s.%s' % (where, x.name), repr(int))
    if kind == 'target':
        return says(s, text, 'missing node', '%s.%s' % (where, x.name),
                    '"%s"' % x.to)
    if kind == 'requires' or kind == 'maybe requires':
        return says(s, text, 'missing field', '"%s"' % x.name,
                    '"%s"' % x.requires, '"%s"' % where)
    if kind == 'names':
        return says(s, text, 'names', '"%s"' % where,
                    *['"%s"' % n for n in x])
    return says(s, text, 'Duplicated nodes', *['"%s"' % n for n in x])


def build(graph):
    out = []
    for g in graph:
        if len(g) == 1:
            out.append(g[0])
        elif g[0] is None:
            out.append(Root([i.build(True) for i in g[1]]))
        else:
            out.append(GNode(g[0], [i.build(False) for i in g[1]]))
    return out


def whole_query(graph, items, depth, root=False):
    """Asks for everything there is, and what it gives."""
    out, want = [], {}
    for i in items:
        if i.kind == 'field':
            out.append(Field(i.name))
            want[i.name] = 1
        elif depth:
            sub = [g[1] for g in graph if g[0] is not None and g[0] == i.to]
            q, w = whole_query(graph, sub[0], depth - 1)
            out.append(Link(i.name, q))
            want[i.name] = [w] if i.link == 'many' else w
    return Node(out), want


def judge(s, graph, depth=3):
    want = problems(s, graph)
    g, err = attempt(lambda: Graph(build(graph)))
    must = [p for p in want if p[0] != 'maybe requires']
    s.observe('problems', len(must))
    if must:
        s.cover('refused')
        s.check(isinstance(err, GraphValidationError), 'refused', (err, must))
        for p in must:
            s.check(s.any([describes(s, e, p) for e in err.errors]),
                    'the problem is named: ' + p[0], (p[1:], err.errors))
            s.check(s.any([describes(s, ln, p) for ln in
                           str(err).split('\n')]), 'in the message as well')
        for e in err.errors:
            s.check(s.any([describes(s, e, p) for p in want]),
                    'nothing else is reported', (e, want))
        return
    s.check(err is None, 'a consistent graph is accepted', err)
    s.cover('accepted')
    root = [i for x in graph if x[0] is None for i in x[1]]
    for ordered in (False, True):
        q, res = whole_query(graph, root, depth)
        q.ordered = ordered
        s.check(not validate(g, q), 'the query is valid')
        den, err = attempt(lambda: denormalize(
            g, Engine(SyncExecutor()).execute(g, q)))
        s.check(err is None, 'executed without an internal error', err)
        s.check(s.eq(den, res), 'all values are there', (den, res))
    # an accepted graph stays accepted
    _, err = attempt(lambda: apply(g, [GraphTransformer()]))
    s.check(err is None, 'transformed', err)


def item(s, p, names='abc', to='NMX', req='abc', kinds=('field', 'link')):
    kind = s.pick(p + '.kind', kinds)
    if kind == 'bad':
        return Item('bad', bad=s.pick(p + '.bad', BAD[:2]))
    name = s.char(p + '.name', names)
    if kind == 'field':
        return Item('field', name)
    r = s.char(p + '.req', req) if s.choice(p + '.req?', 2) else None
    return Item('link', name, s.char(p + '.to', to), r)


C = ('refused', 'accepted')


@scenario(covers=C, params={'quick': {'n': 2}, 'thorough': {'n': 3}},
          timeout=120)
def links(s):
    """Targets, requirements and names within one node."""
    n = s.params['n']
    graph = [(None, [Item('link', 'r', s.char('r.to', 'NMX'))]),
             ('N', [item(s, 'i%d' % i) for i in range(n)] +
              [Item('field', 'a')]),
             ('M', [Item('field', 'b')])]
    judge(s, graph)


@scenario(covers=C, params={'quick': {'n3': 'ac'}, 'thorough': {'n3': 'abc'}})
def root_links(s):
    """The same in a root which is given in two parts."""
    graph = [(None, [item(s, 'i0', 'ab', 'NX'), item(s, 'i1', 'ab', 'NX')]),
             ('N', [Item('field', 'a')]),
             (None, [item(s, 'i2', s.params['n3'], 'N', 'a')])]
    if s.choice('empty part', 2):
        graph.append((None, []))
    judge(s, graph)


@scenario(covers=C)
def node_names(s):
    """Names of nodes; targets are the names of any of them."""
    graph = []
    for i in range(3):
        graph.append((s.char('n%d' % i, 'NMX'),
                      [Item('field', 'a'),
                       Item('link', 'l', s.char('t%d' % i, 'NMX'), 'a')]))
    k = s.choice('root', 2)
    root = (None, [Item('link', 'l', s.char('t', 'NMX'), None,
                        s.pick('kind', ('one', 'maybe', 'many')))])
    graph.insert(3 * k, root)
    judge(s, graph)


@scenario(covers=C)
def items_of_other_kinds(s):
    kinds = ('field', 'link', 'bad')
    graph = [(None, [item(s, 'i0', 'ab', 'NX', 'a', kinds)]),
             ('N', [item(s, 'i1', 'ab', 'N', 'ab', kinds),
                    Item('field', 'a')]),
             (None, [item(s, 'i2', 'ab', 'N', 'a', ('field', 'bad'))])]
    if s.choice('node in node', 2):
        graph[1][1].append(Item('bad', bad=GNode('Z', [])))
    k = s.choice('bad node', 5)
    if k:
        graph.insert(s.choice('where', 2), (
            (1, 'x', None, GField('f', None, root_field))[k - 1],))
    judge(s, graph)


@scenario(covers=C)
def options_of_other_kinds(s):
    graph = [(None, [Item('link', 'l', 'N', opts=s.pick('o1', ('', 'ok',
                                                               'bad'))),
                     Item('field', 'f', opts=s.pick('o2', ('', 'ok',
                                                           'bad')))]),
             ('N', [Item('link', s.char('n', 'lf'), s.char('t', 'NX'),
                         s.char('r', 'fg'),
                         opts=s.pick('o3', ('', 'ok', 'bad'))),
                    Item('field', 'f', opts=s.pick('o4', ('', 'ok',
                                                          'bad')))])]
    judge(s, graph)


@scenario(covers=C, params={'quick': {'n': 3, 'm': 1},
                              'thorough': {'n': 2, 'm': 2}},
          timeout=120)
def small_graphs(s):
    """Any small graph."""
    n = 1 + s.choice('nodes', s.params['n'])
    graph = []
    for i in range(n):
        if s.choice('root%d' % i, 2):
            name = None
        else:
            name = s.char('name%d' % i, 'NM')
        m = s.choice('items%d' % i, s.params['m'] + 1)
        graph.append((name, [item(s, 'i%d.%d' % (i, j), 'ab', 'NM', 'a')
                             for j in range(m)]))
    judge(s, graph)


@scenario(covers=C, timeout=300)
def large(s):
    """Graphs with many nodes or items, one of which may be wrong."""
    kind = s.pick('many', ('nodes', 'items', 'options', 'roots'))
    n = s.pick('n', (1, 3, 33))
    k = place(s, 'place', n)
    flaw = s.pick('flaw', ('none', 'target', 'requires', 'name', 'options',
                           'bad', 'node'))

    def odd(i, p):
        """The item which may be wrong."""
        at = i == k
        name = 'l%d' % i
        if at and flaw == 'bad':
            return Item('bad', bad=1)
        return Item('link', s.char('name', 'abz') if at and flaw == 'name'
                    else name, s.pick('to', ('N', 'M0', 'X'))
                    if at and flaw == 'target' else 'M0',
                    s.char('req', 'axl') if at and flaw == 'requires'
                    else 'a',
                    opts='bad' if at and flaw == 'options' else 'ok')
    plain = [Item('field', 'a'), Item('field', 'b')]
    nodes = n if kind == 'nodes' else 1
    graph = [(None, [Item('link', 'm%d' % i, 'M%d' % i)
                     for i in range(nodes)])]
    if kind == 'roots':
        graph.extend([(None, [Item('field', 'g%d' % i)]) for i in range(n)])
        if flaw == 'name':
            graph[1 + k] = (None, [Item('field', s.char('name', 'abz'))])
            graph.append((None, [Item('field', s.char('other', 'abz'))]))
    for i in range(nodes):
        name = 'M%d' % i
        if kind == 'nodes':
            more = [odd(i, 'x')]
            if i == k and flaw == 'node':
                name = s.pick('node', ('M0', 'M%d' % i))
        elif kind == 'items':
            more = [odd(j, 'x') for j in range(n)]
        else:
            more = []
        graph.append((name, plain + more))
    graph.append(('N', list(plain)))
    if flaw == 'node' and kind != 'nodes':
        graph.insert(s.choice('where', 2), (5,))
    if kind == 'options':
        # many options at one item, one of them something else
        opts = [Option('o%d' % i, None, default=i) for i in range(n)]
        if flaw == 'options':
            opts[k] = 7
        o = Item('field', 'many', opts='bad' if flaw == 'options' else 'ok')
        o.options = lambda: opts
        graph[-1][1].append(o)
    judge(s, graph, 2)


@scenario(covers=C, params={'quick': {'m': 1}, 'thorough': {'m': 2}},
          timeout=200)
def shared_names(s):
    """Nodes, fields and links may have the same names."""
    graph = [(None, [item(s, 'r', 'ab', 'ab', 'ab')]),
             (s.char('name', 'ab'), [Item('field', s.char('f', 'ab'))] + [
                 item(s, 'i%d' % i, 'abc'[:2 + i], 'ab', 'ab')
                 for i in range(s.params['m'])])]
    if s.choice('more', 2):
        graph.append((s.char('other', 'ab'), [Item('field', 'b')]))
    judge(s, graph)
