"""C19: variables and the choice of the operation."""
from symx.session import scenario
from harness import gqldoc as g
from hiku.readers.graphql import read, read_operation, OperationType
from hiku.query import Field, Link
from harness.world import attempt
from harness.sizes import BIG, WIDE, DEEP, place
from harness import vals

ASSUMPTIONS = [
    'values supplied for variables are not checked against their types (a '
    'null supplied for a required variable is passed on)',
    'default values are constants',
    'graphql-core parses documents as printed by it',
]
BOUNDS = ('up to 2 variables used at up to 3 places, nested up to 2 levels, '
          'values nested one level with symbolic leaves; up to 3 operations '
          'with symbolic names; up to 129 variables or operations, values of '
          '50 levels')


def values(s, p, depth=1, kinds='inbsld'):
    return vals.value(s, p, depth, kinds, maxlen=1)


class Vars:
    """Variables of an operation with what is supplied for them."""

    def __init__(self, s, names, p='v'):
        self.s = s
        self.defs = []
        self.supplied = {}
        self.values = {}
        self.missing = False
        for i, n in enumerate(names):
            self.define('%s%d' % (p, i), n)

    def define(self, p, n):
        s = self.s
        required = s.choice(p + '.required', 2) == 1
        default = g.Missing
        if s.choice(p + '.default', 2):
            default = values(s, p + '.d')
        self.defs.append(g.variable(n, s.pick(p + '.type', (
            'Int', 'String', 'Custom')), required, default))
        if s.choice(p + '.given', 2):
            self.supplied[n] = self.values[n] = values(s, p + '.g')
            s.cover('given')
        elif default is not g.Missing:
            self.values[n] = default
            s.cover('default')
        elif required:
            self.missing = True
            s.cover('missing')
        else:
            self.values[n] = None
            s.cover('null')


def check_value(s, got, want, label):
    s.check(same(s, got, want), label, (got, want))


def same(s, a, b):
    """Equal and of the same types at every level."""
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and s.all(
            [same(s, x, y) for x, y in zip(a, b)])
    if isinstance(b, dict):
        return isinstance(a, dict) and len(a) == len(b) and s.all(
            [s.any([s.all([s.eq(k2, k), same(s, v2, v)])
                    for k2, v2 in a.items()]) for k, v in b.items()])
    if type(a) is not type(b):
        return False
    return s.strict_eq(a, b)


def outcome(s, doc, supplied, name=None, via=None):
    given = dict(supplied)
    src = g.source(s, doc)
    if via is None:
        via = s.choice('via', 2)
    if via:
        q, err = attempt(lambda: read_operation(src, supplied, name).query)
    else:
        q, err = attempt(lambda: read(src, supplied, name))
    s.check(s.strict_eq(supplied, given) and list(supplied) == list(given),
            'variables are not modified')
    return q, err


C = ('given', 'default', 'missing', 'null')


@scenario(covers=C)
def one(s):
    """A variable stands for its value at any place."""
    v = Vars(s, ['v'])
    x = g.var('v')
    k = s.choice('place', 5)
    if k == 0:
        items, find = [g.field('a', None, {'o': x})], lambda q: q
    elif k == 1:
        items, find = [g.field('a', [g.field('b')], {'o': x})], lambda q: q
    elif k == 2:
        items = [g.field('l', [g.field('a', None, {'o': x})])]
        find = lambda q: q.fields[0].node
    elif k == 3:
        items = [g.inline([g.field('a', None, {'o': x})])]
        find = lambda q: q
    else:
        items = [g.spread('F')]
        find = lambda q: q
    frs = [g.fragment('F', [g.field('a', None, {'o': x})])] if k == 4 else []
    q, err = outcome(s, g.document(g.operation(items, None, 'query', v.defs),
                                   *frs), v.supplied)
    if v.missing:
        s.check(isinstance(err, TypeError), 'a missing value is refused', err)
        return
    s.check(err is None, 'the document is read', err)
    opts = find(q).fields[0].options
    s.check(list(opts) == ['o'], 'argument')
    check_value(s, opts['o'], v.values['v'], 'value of the variable')


def tree(s, p, depth, names):
    """(literal with variables, function from values to the value)"""
    ks = ['var', 'const'] + (['list', 'dict'] if depth else [])
    k = s.pick(p + '.k', ks)
    if k == 'var':
        n = s.char(p + '.n', names)
        return g.var(n), n, lambda env: env[n]
    if k == 'const':
        c = values(s, p + '.c', 0, 'is')
        return g.literal(c), None, lambda env: c
    node, used, f = tree(s, p + 'x', depth - 1, names)
    c = s.int(p + '.i', 0, 5)
    if k == 'list':
        return (g.literal([c, node]), used, lambda env: [c, f(env)])
    return (g.literal({'p': c, 'q': node}), used,
            lambda env: {'p': c, 'q': f(env)})


@scenario(covers=('undefined', 'fine', 'twice'),
          params={'quick': {'depth': 1}, 'thorough': {'depth': 2}})
def places(s):
    """Variables inside of values, at several places."""
    env = {'v': s.int('v', -2, 2), 'w': s.string('w', 0, 2, 'ab')}
    defs = [g.variable('v'), g.variable('w', 'String')]
    n1, u1, f1 = tree(s, 't1', s.params['depth'], 'vwz')
    n2, u2, f2 = tree(s, 't2', s.params['depth'], 'vw')
    used = [u for u in (u1, u2) if u is not None]
    items = [g.field('a', None, {'o': n1, 'c': 1}),
             g.field('l', [g.field('b', None, {'o': n2})])]
    q, err = outcome(s, g.document(g.operation(items, None, 'query', defs)),
                     dict(env), via=0)
    if u1 is not None and u1 == 'z':
        s.cover('undefined')
        s.check(isinstance(err, TypeError), 'undefined variable is refused',
                err)
        return
    s.cover('fine')
    if len(used) == 2 and used[0] == used[1]:
        s.cover('twice')
    s.check(err is None, 'the document is read', err)
    check_value(s, q.fields[0].options, {'o': f1(env), 'c': 1}, 'first')
    check_value(s, q.fields[1].node.fields[0].options, {'o': f2(env)},
                'second')


@scenario(covers=C, params={'quick': {}, 'thorough': {}})
def two(s):
    """Variables do not influence each other, others which are supplied are
    ignored; names are arbitrary."""
    a, b = s.char('a', 'xyz'), s.char('b', 'xyz')
    s.assume(s.not_(s.eq(a, b)))
    defs, supplied, want = [], {}, {}
    missing = False
    for p, n in (('a', a), ('b', b)):
        k = s.choice(p + '.how', 4)
        v = s.int(p + '.v', 0, 3)
        if k == 0:
            supplied[n] = v
            defs.append(g.variable(n, 'Int', s.choice(p + '.r', 2) == 1,
                                   s.int(p + '.d', 0, 3)))
            s.cover('given')
        elif k == 1:
            defs.append(g.variable(n, default=v))
            s.cover('default')
        elif k == 2:
            defs.append(g.variable(n))
            v = None
            s.cover('null')
        else:
            defs.append(g.variable(n, required=True))
            missing = True
            s.cover('missing')
        want[n] = v
    extra = s.char('extra', 'wxyz')
    for n in (a, b):
        s.assume(s.not_(s.eq(extra, n)))
    supplied[extra] = 8
    used = s.char('used', 'wxyz')
    q, err = outcome(s, g.document(g.operation(
        [g.field('a', None, {'o': g.var(used), 'p': g.var(a)})], None,
        'query', defs)), supplied, via=1)
    if missing or (used != a and used != b):
        s.check(isinstance(err, TypeError), 'refused', err)
        return
    s.check(err is None, 'the document is read', err)
    check_value(s, q.fields[0].options, {'o': want[used], 'p': want[a]},
                'values')


@scenario(covers=('given', 'default', 'null'))
def no_variables_argument(s):
    """Variables which are not supplied at all."""
    v = Vars(s, ['v'])
    s.assume(not v.supplied)
    doc = g.document(g.operation([g.field('a', None, {'o': g.var('v')})],
                                 None, 'query', v.defs))
    src = g.source(s, doc)
    q, err = attempt(lambda: read(src) if s.choice('how', 2)
                     else read(src, None))
    if v.missing:
        s.check(isinstance(err, TypeError), 'refused', err)
        return
    s.check(err is None, 'read', err)
    check_value(s, q.fields[0].options, {'o': v.values['v']}, 'value')


@scenario(covers=('found', 'unknown', 'ambiguous', 'single', 'duplicate'),
          params={'quick': {'ops': 2}, 'thorough': {'ops': 3}})
def operations(s):
    """The named operation is chosen and its kind is preserved."""
    n = s.choice('n', s.params['ops']) + 1
    ops = []
    for i in range(n):
        p = 'op%d' % i
        nm = None
        if s.choice(p + '.named', 2):
            nm = s.char(p + '.name', 'AB')
        ops.append((nm, s.pick(p + '.kind', ('query', 'mutation',
                                             'subscription')), 'f%d' % i))
    asked = None
    if s.choice('ask', 2):
        asked = s.char('asked', 'ABC') if s.choice('named', 2) else ''
    frag = g.fragment('A', [g.field('x')])      # names of other definitions
    defs = [g.operation([g.field(f), g.field('z', [g.field('x')]),
                         g.field('y')], nm, kind) for nm, kind, f in ops]
    # must not matter
    defs = defs + [frag] if s.choice('fragment', 2) else [frag] + defs
    op, err = attempt(lambda: read_operation(
        g.source(s, g.document(*defs)), None, asked))
    rq, rerr = attempt(lambda: read(
        g.source(s, g.document(*defs)), None, asked))
    names = [o[0] for o in ops]
    dup = any([names[i] == names[j] for i in range(n) for j in range(i)])
    if dup:
        s.cover('duplicate')
        s.check(isinstance(err, TypeError) and isinstance(rerr, TypeError),
                'duplicated operations are refused', (err, rerr))
        return
    if asked is None:
        if n > 1:
            s.cover('ambiguous')
            s.check(isinstance(err, TypeError)
                    and isinstance(rerr, TypeError),
                    'ambiguous choice is refused', (err, rerr))
            return
        s.cover('single')
        i = 0
    else:
        found = [i for i in range(n) if names[i] is not None
                 and names[i] == asked]
        if not found:
            s.cover('unknown')
            s.check(isinstance(err, (TypeError, ValueError))
                    and isinstance(rerr, (TypeError, ValueError)),
                    'unknown operation is refused', (err, rerr))
            return
        s.cover('found')
        i = found[0]
    nm, kind, f = ops[i]
    s.check(err is None, 'the operation is read', err)
    s.check(op.type is {'query': OperationType.QUERY,
                        'mutation': OperationType.MUTATION,
                        'subscription': OperationType.SUBSCRIPTION}[kind],
            'type of the operation')
    s.check((op.name is None) == (nm is None)
            and (nm is None or s.eq(op.name, nm)), 'name of the operation')
    s.check(bool(op.query.ordered) == (kind == 'mutation'),
            'mutations are ordered')
    got = [x.name for x in op.query.fields]
    s.check(sorted(got) == sorted([f, 'z', 'y']), 'the chosen operation',
            (got, f))
    if kind == 'mutation':
        s.check(got == [f, 'z', 'y'], 'in the order of the document', got)
    if kind == 'query':
        s.check(rerr is None and [x.name for x in rq.fields] == got,
                'the same through read', rerr)
    else:
        s.check(isinstance(rerr, TypeError), 'read accepts only queries',
                rerr)


@scenario(covers=('A', 'B'))
def own_variables(s):
    """Every operation has its own variables, also in shared fragments."""
    d1, d2 = s.int('d1', 0, 3), s.int('d2', 0, 3)
    asked = s.char('asked', 'AB')
    supplied = {}
    if s.choice('given', 2):
        supplied['w'] = s.int('w', 0, 3)
    frs = [g.fragment('F', [g.field('a', None, {'o': g.var('v')})])]
    o1 = g.operation([g.spread('F')], 'A', 'query',
                     [g.variable('v', default=d1)])
    o2 = g.operation([g.spread('F'), g.field('b', None, {'o': g.var('w')})],
                     'B', 'query', [g.variable('v', default=d2),
                                    g.variable('w', required=True)])
    defs = s.pick('order', ([o1, o2] + frs, frs + [o2, o1]))
    q, err = outcome(s, g.document(*defs), supplied, asked)
    if asked == 'A':
        s.cover('A')
        s.check(err is None, 'variables of another operation do not matter',
                err)
        check_value(s, q.fields[0].options, {'o': d1}, 'A')
        return
    s.cover('B')
    if not supplied:
        s.check(isinstance(err, TypeError), 'missing', err)
        return
    s.check(err is None, 'read', err)
    check_value(s, q.fields[0].options, {'o': d2}, 'B')
    check_value(s, q.fields[1].options, {'o': supplied['w']}, 'B')


@scenario(covers=('A', 'B'))
def repeated_reads(s):
    """Reading a document again with other variables is independent."""
    doc = g.document(
        g.operation([g.spread('F')], 'A', 'query', [g.variable('v')]),
        g.operation([g.spread('F')], 'B', 'query',
                    [g.variable('v', default=s.int('d', 0, 9))]),
        g.fragment('F', [g.field('a', None, {'o': g.var('v')})]))
    src = g.source(s, doc)
    for i in range(2):
        name = s.char('n%d' % i, 'AB')
        v = s.int('v%d' % i, 0, 9)
        q, err = attempt(lambda: read(src, {'v': v}, name))
        s.check(err is None, 'read', err)
        check_value(s, q.fields[0].options, {'o': v}, 'value')
    s.cover('A' if name == 'A' else 'B')


@scenario(covers=('missing', 'fine'))
def large(s):
    """Many variables, the use of one of them below many levels, many
    operations."""
    kind = s.pick('kind', ('variables', 'value', 'operations'))
    n = s.pick('size', (1, 5, 33) if kind == 'value' else (1, 17, 129))
    k = place(s, 'place', n)
    if kind == 'operations':
        nm = s.pick('asked', ('A%d' % k, 'B', None))
        ops = [g.operation([g.field('f%d' % i)], 'A%d' % i)
               for i in range(n)]
        q, err = outcome(s, g.document(*ops), {}, nm)
        found = 0 if nm is None and n == 1 else k if nm == 'A%d' % k else None
        if found is None:
            s.cover('missing')
            s.check(isinstance(err, (TypeError, ValueError)), 'refused', err)
            return
        s.cover('fine')
        s.check(err is None and [f.name for f in q.fields]
                == ['f%d' % found], 'the operation', (q, err))
        return
    how = s.pick('how', ('given', 'default', 'null', 'missing'))
    x = s.int('x', 0, 9)
    supplied = {}
    defs = []
    if kind == 'value':
        lit = g.var('v')
        want = None if how == 'null' else x
        for i in range(n):
            if i % 2:
                lit, want = [lit], [want]
            else:
                lit, want = {'k': lit}, {'k': want}
        items = [g.field('a', None, {'o': lit})]
        wanted = [want]
        names = ['v']
    else:
        names = ['v%d' % i for i in range(n)]
        names[k] = 'v'
        items = [g.field('f%d' % i, None, {'o': g.var(v)})
                 for i, v in enumerate(names)]
        wanted = [i for i in range(n)]
        wanted[k] = None if how == 'null' else x
    for i, v in enumerate(names):
        if v == 'v':
            defs.append(g.variable(v, 'Int', how == 'missing',
                                   x if how == 'default' else g.Missing))
            if how == 'given':
                supplied[v] = x
        else:
            defs.append(g.variable(v, 'Int', i % 2 == 1))
            supplied[v] = i
    q, err = outcome(s, g.document(g.operation(items, None, 'query', defs)),
                     supplied)
    if how == 'missing':
        s.cover('missing')
        s.check(isinstance(err, TypeError), 'a missing value is refused', err)
        return
    s.cover('fine')
    s.check(err is None, 'the document is read', err)
    s.check(len(q.fields) == len(wanted), 'all fields')
    for f, w in zip(q.fields, wanted):
        check_value(s, f.options['o'], w, 'value of the variable')


FLOATS = (0.0, -0.0, 1.0, 1.5, -2.25, 1e21, 1e300, 5e-324, 0.1,
          9007199254740993.0)


@scenario(covers=('literal', 'default'))
def numbers(s):
    """Numbers written in the document are read as they are, however large
    they are."""
    if s.choice('float', 2):
        x = s.pick('x', FLOATS)
    else:
        x = s.pick('x', BIG + (0, 1, 10 ** 15 + 1, 10 ** 16 + 1)) * s.pick(
            'sign', (1, -1)) + s.pick('add', (0, 1))
    wrap = s.pick('wrap', (lambda v: v, lambda v: [v, 0],
                           lambda v: {'p': 'x', 'q': v},
                           lambda v: [{'q': [v]}]))
    v = wrap(x)
    at = s.choice('place', 4)
    defs, frs = [], []
    a = {'o': g.literal(v)}
    if at == 0:
        items = [g.field('a', None, a)]
    elif at == 1:
        items = [g.field('a', [g.field('b')], a)]
    elif at == 2:
        items = [g.spread('F')]
        frs = [g.fragment('F', [g.field('a', None, a)])]
    else:
        defs = [g.variable('v', 'Any', s.choice('required', 2) == 1, v)]
        items = [g.field('a', None, {'o': g.var('v')})]
    s.cover('default' if at == 3 else 'literal')
    q, err = outcome(s, g.document(g.operation(items, None, 'query', defs),
                                   *frs), {})
    s.check(err is None, 'the document is read', err)
    s.check(repr(q.fields[0].options) == repr({'o': v}), 'the number',
            q.fields[0].options)


@scenario(covers=('refused', 'fine'))
def similar_names(s):
    """Names of variables and operations are compared as a whole and
    exactly."""
    def name(p):
        return s.string(p, 1, 2, 'Nn_')
    if s.choice('what', 2):
        a, b, used, given = name('a'), name('b'), name('used'), name('given')
        s.assume(s.not_(s.eq(a, b)))
        env = {a: 1, b: 2}
        if given in env:
            env[given] = 3
        defs = [g.variable(a, 'Int', default=1), g.variable(b, 'Int',
                                                            default=2)]
        q, err = outcome(s, g.document(g.operation(
            [g.field('a', None, {'o': g.var(used)})], None, 'query', defs)),
            {given: 3}, via=1)
        if used not in env:
            s.cover('refused')
            s.check(isinstance(err, TypeError), 'undefined variable', err)
            return
        s.cover('fine')
        s.check(err is None, 'the document is read', err)
        check_value(s, q.fields[0].options, {'o': env[used]}, 'value')
        return
    a, b, asked = name('o1'), name('o2'), name('asked')
    q, err = outcome(s, g.document(
        g.operation([g.field('x')], a), g.operation([g.field('y')], b)),
        {}, asked, via=0)
    if a == b or not (asked == a or asked == b):
        s.cover('refused')
        s.check(isinstance(err, (TypeError, ValueError)), 'refused', err)
        return
    s.cover('fine')
    s.check(err is None and len(q.fields) == 1
            and q.fields[0].name == ('x' if asked == a else 'y'),
            'the operation', (q, err))
