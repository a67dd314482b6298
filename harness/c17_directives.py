"""C17: @skip and @include."""
from symx.session import scenario
from harness import gqldoc as g
from hiku.readers.graphql import read, read_operation
from hiku.query import Field, Link
from harness.world import attempt
from harness.sizes import WIDE, DEEP, place

ASSUMPTIONS = [
    'every directive is used at most once at one place',
    'a condition without a value (null) counts as false',
    'graphql-core parses documents as printed by it',
]
BOUNDS = ('selections nested up to 3 levels with up to 2 conditions at each '
          'place; conditions are symbolic literals or variables with symbolic '
          'supplied and default values; one condition among up to 129 '
          'selections or below up to 50 levels')


class Doc:
    def __init__(self, s):
        self.s = s
        self.variables = []
        self.supplied = {}
        self.fragments = []
        self.n = 0

    def condition(self, p):
        """(node, value of the condition)"""
        s = self.s
        k = s.choice(p + '.how', s.params.get('how', 4))
        if k == 0:
            v = s.bool(p)
            return g.literal(v), v
        name = 'v%d' % len(self.variables)
        if k == 1:
            v = s.bool(p)
            self.variables.append(g.variable(name, 'Boolean',
                                             s.choice(p + '.req', 2) == 1))
            self.supplied[name] = v
        elif k == 2:
            v = s.bool(p)
            self.variables.append(g.variable(name, 'Boolean', default=v))
            if s.choice(p + '.over', 2):
                v = s.bool(p + '.given')
                self.supplied[name] = v
        else:
            v = False
            self.variables.append(g.variable(name, 'Boolean'))
            if s.choice(p + '.null', 2):
                self.supplied[name] = None
        return g.var(name), v

    def directives(self, p):
        """(nodes, whether the selection is included)"""
        s = self.s
        k = s.choice(p + '.dirs', 5)
        if k == 0:
            return [], True
        out = []
        conds = []
        for d in ((), ('skip',), ('include',), ('skip', 'include'),
                  ('include', 'skip'))[k]:
            node, v = self.condition(p + '.' + d)
            out.append(g.directive(d, node))
            conds.append(s.not_(v) if d == 'skip' else v)
        return out, s.all(conds)


def expect(s, got, want, label):
    """want: [name, included, sub] in the order of the document; fields are
    expected before links."""
    names = [f.name for f in got.fields]
    for name, inc, sub in want:
        if inc:
            s.cover('included')
            s.check(names.count(name) == 1, label + ': is included',
                    (name, names))
            f = got.fields[names.index(name)]
            s.check(isinstance(f, Link) == (sub is not None), 'kind')
            if sub is not None:
                expect(s, f.node, sub, label)
        else:
            s.cover('excluded')
            s.check(name not in names, label + ': leaves no trace',
                    (name, names))
    known = [w[0] for w in want]
    s.check(all([n in known for n in names]), 'nothing else', names)


def read_doc(s, d, items):
    doc = g.document(*([g.operation(items, None, 'query', d.variables)]
                       + d.fragments))
    given = dict(d.supplied)
    src = g.source(s, doc)
    if s.choice('via', 2):
        q, err = attempt(lambda: read_operation(src, d.supplied).query)
    else:
        q, err = attempt(lambda: read(src, d.supplied))
    s.check(err is None, 'the document is read', err)
    s.check(s.strict_eq(d.supplied, given), 'variables are not modified')
    return q


C = ('included', 'excluded')


@scenario(covers=C)
def on_field(s):
    d = Doc(s)
    dirs, inc = d.directives('d')
    k = s.choice('kind', 3)
    if k == 0:
        items = [g.field('a', directives=dirs)]
        want = [['a', inc, None]]
    elif k == 1:
        items = [g.field('l', [g.field('x')], directives=dirs)]
        want = [['l', inc, [['x', True, None]]]]
    else:
        items = [g.field('a', arguments={'o': s.int('o', 0, 9)},
                         directives=dirs)]
        want = [['a', inc, None]]
    items = [g.field('z')] + items
    want = [['z', True, None]] + want
    expect(s, read_doc(s, d, items), want, 'field')


@scenario(covers=C)
def on_fragment(s):
    d = Doc(s)
    dirs, inc = d.directives('d')
    body = [g.field('a'), g.field('l', [g.field('x')])]
    if s.choice('inline', 2):
        items = [g.inline(body, dirs, 'T' if s.choice('on', 2) else None)]
    else:
        items = [g.spread('F', dirs)]
        d.fragments.append(g.fragment('F', body))
    items = [g.field('z')] + items
    want = [['z', True, None], ['a', inc, None],
            ['l', inc, [['x', True, None]]]]
    expect(s, read_doc(s, d, items), want, 'fragment')


def node(d, p, depth, want, inc, kinds):
    """A selection of some kind with directives; adds to want what it
    stands for."""
    s = d.s
    dirs, here = d.directives(p)
    inc = s.all([inc, here])
    k = s.pick(p + '.kind', kinds if depth > 0 else 'f')
    d.n += 1
    name = 'n%d' % d.n
    if k == 'f':
        want.append([name, inc, None])
        return g.field(name, directives=dirs)
    if k == 'l':
        sub = []
        item = g.field(name, [node(d, p + 'l', depth - 1, sub, True, kinds)],
                       directives=dirs)
        want.append([name, inc, sub])
        return item
    item = node(d, p + k, depth - 1, want, inc, kinds)
    if k == 'i':
        return g.inline([item], dirs)
    d.fragments.append(g.fragment(name, [item]))
    return g.spread(name, dirs)


@scenario(covers=C, params={'quick': {'how': 2, 'depth': 1},
                            'thorough': {'how': 4, 'depth': 1}}, timeout=120)
def nested(s):
    """Conditions of enclosing fragments and fields compose."""
    d = Doc(s)
    want = []
    items = [g.field('z'), node(d, 'n', s.params['depth'], want, True,
                                'lis')]
    want.append(['z', True, None])
    expect(s, read_doc(s, d, items), want, 'nested')


@scenario(tier='thorough', params={'how': 1, 'depth': 2}, timeout=120)
def nested_deeper(s):
    nested(s)


@scenario(covers=C, params={'how': 2})
def same_fragment(s):
    """One fragment spread under different conditions."""
    d = Doc(s)
    n1, c1 = d.condition('c1')
    n2, c2 = d.condition('c2')
    n3, c3 = d.condition('c3')
    d.fragments.append(g.fragment('F', [
        g.field('a', directives=[g.directive('include', n3)]),
        g.field('b')]))
    items = [g.spread('F', [g.directive('skip', n1)]),
             g.field('l', [g.field('z'),
                           g.spread('F', [g.directive('include', n2)])])]
    want = [['a', s.all([s.not_(c1), c3]), None], ['b', s.not_(c1), None],
            ['l', True, [['z', True, None], ['a', s.all([c2, c3]), None],
                         ['b', c2, None]]]]
    expect(s, read_doc(s, d, items), want, 'fragment')


@scenario(covers=C, params={'how': 2})
def same_field(s):
    """One field selected twice under different conditions."""
    d = Doc(s)
    n1, c1 = d.condition('c1')
    n2, c2 = d.condition('c2')
    if s.choice('link', 2):
        items = [g.field('l', [g.field('x')],
                         directives=[g.directive('include', n1)]),
                 g.inline([g.field('l', [g.field('y')])],
                          [g.directive('skip', n2)])]
        want = [['l', s.any([c1, s.not_(c2)]),
                 [['x', c1, None], ['y', s.not_(c2), None]]]]
    else:
        items = [g.field('a', directives=[g.directive('skip', n1)]),
                 g.field('a', directives=[g.directive('skip', n2)])]
        want = [['a', s.any([s.not_(c1), s.not_(c2)]), None]]
    expect(s, read_doc(s, d, items + [g.field('z')]),
           want + [['z', True, None]], 'field')


@scenario()
def mutation(s):
    """The same for mutations."""
    d = Doc(s)
    dirs, inc = d.directives('d')
    items = [g.field('z'), g.field('l', [g.field('x')], directives=dirs),
             g.field('y')]
    doc = g.document(g.operation(items, None, 'mutation', d.variables))
    op, err = attempt(lambda: read_operation(g.source(s, doc), d.supplied))
    s.check(err is None, 'the document is read', err)
    names = [f.name for f in op.query.fields]
    s.check(names == (['z', 'l', 'y'] if inc else ['z', 'y']),
            'mutation', names)


@scenario(covers=C, params={'how': 2})
def among_others(s):
    """Directives which mean nothing here (a client's own) are around."""
    d = Doc(s)
    dirs, inc = d.directives('d')
    before, between = s.choice('before', 3), s.choice('between', 2)

    def others(p, n):
        return [g.directive('%s%d' % (p, i), *([g.literal(True)]
                                               if i % 2 else []))
                for i in range(n)]
    dirs = (others('client', before) + dirs[:1] + others('mid', between) +
            dirs[1:] + others('own', s.choice('after', 2)))
    k = s.choice('kind', 4)
    body = [g.field('a'), g.field('l', [g.field('x')])]
    if k == 0:
        items = [g.field('a', directives=dirs)]
    elif k == 1:
        items = [g.field('l', [g.field('x')], directives=dirs)]
    elif k == 2:
        items = [g.inline(body, dirs, None)]
    else:
        items = [g.spread('F', dirs)]
        d.fragments.append(g.fragment('F', body))
    want = [['z', True, None]]
    if k != 1:
        want.append(['a', inc, None])
    if k != 0:
        want.append(['l', inc, [['x', True, None]]])
    expect(s, read_doc(s, d, [g.field('z')] + items), want, 'selection')


@scenario()
def malformed(s):
    """Directives without a condition are errors."""
    d = s.pick('directive', ('skip', 'include'))
    k = s.choice('how', 3)
    v = g.literal(s.bool('v'))
    if k == 0:
        a = []
    elif k == 1:
        a = [g.ast.ArgumentNode(name=g.name('if'), value=v),
             g.ast.ArgumentNode(name=g.name(s.char('n', 'ab')), value=v)]
    else:
        n = s.char('n0', 'iu') + s.char('n1', 'f') + s.string(
            'n2', 0, 1, 'f')
        s.assume(s.not_(s.eq(n, 'if')))
        a = [g.ast.ArgumentNode(name=g.name(n), value=v)]
    node = g.ast.DirectiveNode(name=g.name(d), arguments=a)
    place = s.choice('place', 3)
    frs = []
    if place == 0:
        items = [g.field('a', directives=[node])]
    elif place == 1:
        items = [g.inline([g.field('a')], [node])]
    else:
        items = [g.spread('F', [node])]
        frs = [g.fragment('F', [g.field('a')])]
    _, err = attempt(lambda: read(g.source(s, g.document(
        g.operation(items), *frs))))
    s.check(isinstance(err, TypeError), 'reported as an error', err)


@scenario(covers=C, params={'how': 1})
def large(s):
    """One place among many, or below many others, has a condition."""
    kind = s.pick('kind', ('fields', 'variables', 'levels', 'inline'))
    n = s.pick('size', DEEP if kind in ('levels', 'inline') else WIDE)
    k = place(s, 'place', n)
    d = Doc(s)
    ds, inc = d.directives('d')
    other = s.bool('other')
    if kind in ('fields', 'variables'):
        items, want = [], []
        for i in range(n):
            if i == k:
                items.append(g.field('f%d' % i, directives=ds))
                want.append(('f%d' % i, inc, None))
                continue
            cond = g.literal(other)
            if kind == 'variables':
                cond = g.var('w%d' % i)
                d.variables.append(g.variable('w%d' % i, 'Boolean'))
                d.supplied['w%d' % i] = other
            items.append(g.field('f%d' % i, directives=[
                g.directive('skip' if i % 2 else 'include', cond)]))
            want.append(('f%d' % i, s.not_(other) if i % 2 else other, None))
    else:
        items = [g.field('a')]
        want = [('a', True, None)]
        for i in range(n):
            here = ds if i == k else [g.directive('include',
                                                  g.literal(True))]
            there = inc if i == k else True
            if kind == 'inline':
                items = [g.field('f%d' % i), g.inline(items, here)]
                want = [('f%d' % i, True, None)] + [
                    (nm, s.all([w, there]), x) for nm, w, x in want]
            else:
                items = [g.field('f%d' % i), g.field('l', items, None, None,
                                                     here)]
                want = [('f%d' % i, True, None), ('l', there, want)]
    q = read_doc(s, d, [g.field('zz')] + items)
    expect(s, q, [('zz', True, None)] + want, 'selection')
