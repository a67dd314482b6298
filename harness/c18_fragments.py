"""C18: fragments mean the same as writing their fields in place."""
from symx.session import scenario
from harness import gqldoc as g
from hiku.readers.graphql import read, read_operation
from hiku.query import Field, Link
from harness.world import attempt
from harness.sizes import WIDE, DEEP, place

ASSUMPTIONS = [
    'a fragment which is never reached from the operation may be ill-formed',
    'selections of one field agree on its options',
    'graphql-core parses documents as printed by it',
]
BOUNDS = ('up to 3 fragments (thorough: 4), each with up to 2 items (fields, '
          'spreads, fields with selections, inline fragments) and symbolic '
          'targets of the spreads, defined or not; chains of 33 fragments, 65 fragments side '
          'by side')

NAMES = 'ABC'


class Cycle(Exception):
    pass


class Undefined(Exception):
    pass


class Gen:
    def __init__(self, s, names):
        self.s = s
        self.names = names
        self.bodies = {}

    def item(self, p, kinds, targets, depth=1):
        """An item of a selection: (kind, name, options, subitems)"""
        s = self.s
        k = s.pick(p + '.kind', [x for x in kinds if depth or x in 'fas'])
        if k == 'f':
            return ('field', s.char(p + '.f', 'xy'), None, None)
        if k == 'a':
            return ('field', 'a', {'o': 1}, None)
        if k == 's':
            return ('spread', s.char(p + '.t', targets), None, None)
        sub = [self.item(p + '.0', s.params['inner'], targets, depth - 1)]
        if k == 'l':
            return ('field', 'l', None, sub)
        if k == 'm':
            return ('field', s.char(p + '.m', 'lmn'), None, sub)
        return ('inline', None, None, sub)

    def node(self, it):
        kind, name, opts, sub = it
        if kind == 'spread':
            return g.spread(name)
        if kind == 'inline':
            return g.inline([self.node(x) for x in sub])
        return g.field(name, None if sub is None else
                       [self.node(x) for x in sub], opts)

    def in_place(self, items, stack=()):
        """The selections written in place of the spreads."""
        out = []
        for it in items:
            kind, name, opts, sub = it
            if kind == 'spread':
                if name not in self.bodies:
                    raise Undefined()
                if name in stack:
                    raise Cycle()
                out.extend(self.in_place(self.bodies[name], stack + (name,)))
            elif kind == 'inline':
                out.extend(self.in_place(sub, stack))
            else:
                out.append((kind, name, opts, None if sub is None else
                            self.in_place(sub, stack)))
        return out


def union(items):
    """Fields by name with united selections."""
    out = []
    for kind, name, opts, sub in items:
        for e in out:
            if e[0] == name:
                if sub is not None:
                    e[2].extend(sub)
                break
        else:
            out.append([name, opts, None if sub is None else list(sub)])
    return out


def check_query(s, node, items):
    want = union(items)
    got = list(node.fields)
    want = ([e for e in want if e[2] is None] +
            [e for e in want if e[2] is not None])
    got = ([f for f in got if not isinstance(f, Link)] +
           [f for f in got if isinstance(f, Link)])
    s.check(len(got) == len(want), 'the fields of the fragments',
            (got, want))
    for f, (name, opts, sub) in zip(got, want):
        s.check(s.eq(f.name, name), 'the fields of the fragments in place',
                (got, want))
        s.check(f.alias is None and (f.options or None) == opts, 'arguments',
                (f, opts))
        s.check(isinstance(f, Link) == (sub is not None), 'kind of the field')
        if sub is not None:
            check_query(s, f.node, sub)


def run(s, gen, items):
    frs = [g.fragment(n, [gen.node(x) for x in body])
           for n, body in gen.bodies.items()]
    op = g.operation([gen.node(x) for x in items])
    k = s.choice('order', 2)
    doc = g.document(*([op] + frs if k else frs + [op]))
    bad = None
    try:
        flat = gen.in_place(items)
    except (Cycle, Undefined) as e:
        bad = e
    got, err = attempt(lambda: read(g.source(s, doc)))
    if bad is not None:
        s.cover(type(bad).__name__)
        s.check(isinstance(err, TypeError), 'reported as an error',
                (bad, err))
        return
    s.cover('fine')
    s.check(err is None, 'the document is read', err)
    check_query(s, got, flat)
    # the document with everything in place
    doc2 = g.document(g.operation([gen.node(x) for x in flat]))
    want, err = attempt(lambda: read(g.source(s, doc2)))
    s.check(err is None, 'the document without fragments is read', err)
    s.check(got == want, 'the same query as without fragments', (got, want))


C = ('fine', 'Cycle', 'Undefined')


@scenario(covers=C, params={'quick': {'names': 'AB', 'inner': 's'},
                            'thorough': {'names': 'ABC', 'inner': 's'}},
          timeout=120)
def targets(s):
    """Fragments which spread any fragments."""
    names = s.params['names']
    gen = Gen(s, names)
    for n in names:
        gen.bodies[n] = [('field', 'x' + n, None, None),
                         gen.item('b' + n, 'fsl', names + 'Z')]
    items = [('field', 'z', None, None), gen.item('o', 'fsli', names + 'Z')]
    run(s, gen, items)


@scenario(covers=('fine', 'Cycle'), timeout=120,
          params={'names': 'AB', 'inner': 'fs'})
def mixtures(s):
    """Items of any kind before and after a spread."""
    gen = Gen(s, 'AB')
    gen.bodies['A'] = [gen.item('a0', 'fl', 'B'), gen.item('a1', 's', 'AB')]
    gen.bodies['B'] = [gen.item('b0', 'fil', 'A', 0 if s.choice('flat', 2)
                                else 1)]
    items = [gen.item('o0', 'fl', 'AB'), gen.item('o1', 's', 'AB'),
             gen.item('o2', 'a', 'AB')]
    run(s, gen, items)


@scenario(covers=('fine',), timeout=120,
          params={'names': 'ABC', 'inner': 's'})
def several_times(s):
    """A fragment used several times at several levels."""
    gen = Gen(s, 'ABC')
    gen.bodies['A'] = [('field', 'x', None, None), ('field', 'l', None, [
        ('spread', s.char('t', 'BC'), None, None)])]
    gen.bodies['B'] = [('field', s.char('f', 'xy'), None, None),
                       ('field', 'm', None, [('spread', 'C', None, None)])]
    gen.bodies['C'] = [('field', 'y', None, None)]
    items = [('spread', s.char('t0', 'ABC'), None, None),
             ('field', 'l', None, [('spread', s.char('t1', 'AB'), None,
                                    None)]),
             ('field', s.char('n', 'lm'), None,
              [('spread', s.char('t2', 'BC'), None, None),
               ('spread', s.char('t3', 'BC'), None, None)])]
    run(s, gen, items)


@scenario(covers=('fine',), timeout=120,
          params={'quick': {'names': 'AB', 'inner': 'f', 'n': 2},
                  'thorough': {'names': 'AB', 'inner': 'fs', 'n': 2}})
def many_links(s):
    """Several fields with selections inside of fragments, which are spread
    by other fragments."""
    gen = Gen(s, 'AB')
    gen.bodies['A'] = [gen.item('a0', 'fs', 'B'),
                       ('field', s.char('am', 'lm'), None,
                        [('spread', 'B', None, None)])]
    gen.bodies['B'] = [gen.item('b%d' % i, 'm', 'C')
                       for i in range(s.params['n'])]
    gen.bodies['B'].insert(s.choice('at', 2), ('field', 'y', None, None))
    gen.bodies['C'] = [('field', 'x', None, None)]
    items = [gen.item('o0', 's', 'AB'), gen.item('o1', 'm', 'AB')]
    run(s, gen, items)


@scenario(covers=('fine',))
def many_roots(s):
    """Fragments at the top level of operations of any type, several
    operations in the document."""
    gen = Gen(s, 'AB')
    gen.bodies['A'] = [('field', 'x', None, None), ('spread', 'B', None,
                                                    None)]
    gen.bodies['B'] = [('field', 'y', None, None),
                       ('field', 'l', None, [('field', 'x', None, None)])]
    kind = s.pick('kind', ('query', 'mutation'))
    other = g.operation([gen.node(('spread', s.char('ot', 'ABZ'), None,
                                   None))], 'other', 'query')
    items = [('spread', s.char('t', 'AB'), None, None),
             ('field', 'z', None, None)]
    if s.choice('again', 2):
        items.append(('field', 'l', None, [('field', s.char('sub', 'xy'),
                                            None, None)]))
        items.append(('field', s.char('f', 'xyz'), None, None))
    main = g.operation([gen.node(x) for x in items], 'main', kind)
    frs = [g.fragment(n, [gen.node(x) for x in b])
           for n, b in gen.bodies.items()]
    defs = s.pick('order', ([main, other] + frs, frs + [other, main],
                            [other] + frs[:1] + [main] + frs[1:]))
    op, err = attempt(lambda: read_operation(g.source(
        s, g.document(*defs)), operation_name='main'))
    s.check(err is None, 'the document is read', err)
    s.cover('fine')
    check_query(s, op.query, gen.in_place(items))
    if kind == 'mutation':
        names = [f.name for f in op.query.fields]
        want = [e[0] for e in union(gen.in_place(items))]
        s.check(s.all([s.eq(a, b) for a, b in zip(names, want)]),
                'order of the fields', (names, want))


@scenario()
def duplicates(s):
    """Two fragments with one name."""
    a, b = s.char('a', 'AB'), s.char('b', 'AB')
    doc = g.document(g.operation([g.spread('A')]),
                     g.fragment(a, [g.field('x')]),
                     g.fragment(b, [g.field('y')]))
    q, err = attempt(lambda: read(g.source(s, doc)))
    if a == b:
        s.check(isinstance(err, TypeError), 'reported', err)
    else:
        s.check(err is None, 'read', err)
        s.check([f.name for f in q.fields] == ['x' if a == 'A' else 'y'],
                'the right fragment')


@scenario(covers=C)
def large(s):
    """Long chains and many fragments; the last one, or one at a picked
    place, spreads any of the others, itself or none which is defined."""
    kind = s.pick('kind', ('chain', 'levels', 'many'))
    n = s.pick('size', (1, 9, 33) if kind != 'many' else (3, 33, 65))
    k = n - 1 if kind != 'many' else place(s, 'place', n)
    gen = Gen(s, None)
    to = s.pick('to', ('-', 'F%d' % k, 'F0', 'F%d' % (n // 2), 'X'))
    for i in range(n):
        body = [('field', 'f%d' % i, {'o': i} if i % 2 else None, None)]
        if i == k and to != '-':
            body.append(('spread', to, None, None))
        elif kind != 'many' and i + 1 < n:
            body.append(('spread', 'F%d' % (i + 1), None, None))
        if kind == 'levels':
            body = [('field', 'l', None, body)]
        gen.bodies['F%d' % i] = body
    items = [('spread', 'F%d' % i, None, None)
             for i in range(n if kind == 'many' else 1)]
    run(s, gen, items)


@scenario(covers=('fine',))
def wide(s):
    """A fragment of many fields which is used in several places, also under
    different fields and in other fragments."""
    n = s.pick('size', (3, 33, 65, 129, 257))
    k = place(s, 'place', n)
    gen = Gen(s, None)
    gen.bodies['F0'] = [
        ('field', 'f%d' % i, {'o': i} if i % 2 or i == k else None, None)
        if i != k or s.choice('kind', 2) else
        ('field', 'l', None, [('spread', 'F1', None, None)])
        for i in range(n)]
    gen.bodies['F1'] = [('field', 'g%d' % i, None, None) for i in range(n)]
    gen.bodies['F2'] = [('field', 'a', None, None),
                        ('spread', 'F0', None, None)]
    a, b = s.pick('a', ('F0', 'F1', 'F2')), s.pick('b', ('F0', 'F1', 'F2'))
    items = [('spread', a, None, None),
             ('field', 'm', None, [('spread', b, None, None)]),
             ('field', 'n', None, [('field', 'z', None, None),
                                   ('spread', 'F0', None, None)])]
    run(s, gen, items)


@scenario(covers=('fine', 'Cycle', 'Undefined'), timeout=120)
def similar_names(s):
    """Names of fragments are compared as a whole and exactly."""
    a = s.string('a', 1, 2, 'Ff_')
    b = s.string('b', 1, 2, 'Ff_')
    s.assume(s.not_(s.eq(a, b)))
    gen = Gen(s, None)
    gen.bodies[a] = [('field', 'x', None, None)]
    gen.bodies[b] = [('field', 'y', None, None),
                     ('spread', s.string('t', 1, 2, 'Ff_'), None, None)]
    items = [('spread', a, None, None),
             ('field', 'l', None, [('spread', b, None, None)])]
    run(s, gen, items)


@scenario(timeout=120, params={'quick': {'n': 3}, 'thorough': {'n': 4}})
def keys(s):
    """Fields of one fragment with any names, aliases and arguments: each
    request is kept, also those which do not go together."""
    n = s.params['n']
    where = s.pick('where', ('inline', 'spread', 'nested', 'halves'))
    kind = s.pick('kind', ('query', 'mutation'))
    sub = s.choice('sub', 2)
    items, want = [], []
    for i in range(n):
        nm = s.char('f%d' % i, 'xy')
        alias = s.pick('a%d' % i, (None, 'x', 'k'))
        o = s.choice('o%d' % i, 2)
        inner = [g.field('i%d' % i)] if sub and i != 1 else None
        items.append(g.field(nm, inner, {'o': 1} if o else None, alias))
        entry = (nm, {'o': 1} if o else None, alias, inner is not None)
        key = nm if alias is None else alias
        for e in want:
            if (e[0] == nm and e[1] == entry[1] and e[3] == entry[3]
                    and e[4] == key):
                e[5].append('i%d' % i)
                break
        else:
            want.append([nm, entry[1], alias, entry[3], key, ['i%d' % i]])
    frs = []
    if where == 'inline':
        sel = [g.inline(items)]
    elif where == 'nested':
        sel = [g.inline([g.inline(items[:2])] + items[2:])]
    elif where == 'spread':
        sel, frs = [g.spread('A')], [g.fragment('A', items)]
    else:
        sel = [g.spread('A'), g.inline(items[1:])]
        frs = [g.fragment('A', items[:1])]
    doc = g.document(g.operation(sel, None, kind), *frs)
    op, err = attempt(lambda: read_operation(g.source(s, doc)))
    s.check(err is None, 'the document is read', err)
    got = list(op.query.fields)
    if kind == 'query':
        got = ([f for f in got if not isinstance(f, Link)] +
               [f for f in got if isinstance(f, Link)])
        want = [e for e in want if not e[3]] + [e for e in want if e[3]]
        s.check(len(got) == len(want), 'all of the requests', (got, want))
        for f, (nm, o, alias, link, key, subs) in zip(got, want):
            same(s, f, nm, o, key, link, subs)
        return
    s.check(len(got) == len(want), 'all of the requests', (got, want))
    left = list(want)
    for f in got:
        for e in left:
            if (f.name == e[0] and (f.options or None) == e[1]
                    and f.result_key == e[4]
                    and isinstance(f, Link) == e[3]):
                left.remove(e)
                same(s, f, e[0], e[1], e[4], e[3], e[5])
                break
        else:
            s.check(False, 'one of the requests', (f, want))


def same(s, f, nm, o, key, link, subs):
    s.check(s.eq(f.name, nm), 'name', (f, nm))
    s.check((f.options or None) == o, 'arguments', (f, o))
    s.check(s.eq(f.result_key, key), 'name in the result', (f, key))
    s.check(isinstance(f, Link) == link, 'kind', (f, link))
    if link:
        s.check([x.name for x in f.node.fields] == subs, 'selection',
                (f, subs))
