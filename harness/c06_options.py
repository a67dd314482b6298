"""C06: options received by resolver functions."""
from symx.session import scenario
from hiku.engine import Engine
from hiku.executors.sync import SyncExecutor
from hiku.graph import Graph, Root, Node as GNode, Field as GField, Option
from hiku.graph import Link as GLink, Nothing
from hiku.types import TypeRef, Sequence, Optional, Integer, Record
from hiku.query import Node, Field, Link
from hiku.result import denormalize
from harness.world import attempt
from harness.sizes import WIDE, place

ASSUMPTIONS = []
BOUNDS = ('up to 3 declared options, required or with null / integer '
          'defaults, any subset supplied with integer or null values, plus '
          'undeclared ones; placement at 7 kinds of fields and links; up to 129 options with '
          'concrete names')

PLACES = ('root field', 'root link', 'node field', 'node link', 'free link',
          'record', 'below')


def declare(s, n):
    """Declared options and what is supplied for each."""
    opts = []
    expect = {}
    supplied = {}
    missing = False
    for i in range(n):
        name = 'o%d' % i
        d = s.choice('default%d' % i, 3)
        if d == 0:
            opts.append(Option(name, Optional[Integer]))
        elif d == 1:
            opts.append(Option(name, Optional[Integer], default=None))
        else:
            dv = s.int('dv%d' % i, 0, 5)
            opts.append(Option(name, Optional[Integer], default=dv))
        sup = s.choice('supplied%d' % i, 3)
        if sup == 0:
            if d == 0:
                missing = True
            else:
                expect[name] = None if d == 1 else dv
        else:
            v = None if sup == 1 else s.int('v%d' % i, 0, 5)
            supplied[name] = v
            expect[name] = v
    return opts, supplied, expect, missing


def undeclared(s, supplied):
    if s.choice('undeclared', 2):
        supplied['zz'] = s.int('zz', 0, 5)
    return supplied


def build(place, opts, got):
    def note(fields):
        for f in fields:
            if f.name == 'x':
                got.append(f.options)

    def root_f(fields):
        note(fields)
        return [{'r': 1} if f.name == 'x' and place == 'record' else 1
                for f in fields]

    def node_f(fields, ids):
        note(fields)
        return [[1 for f in fields] for i in ids]

    def root_l(*args):
        got.append(args[0] if args else None)
        return 1

    def node_l(ids, *args):
        got.append(args[0] if args else None)
        return [1 for i in ids]

    def plain(place_, link):
        return opts if place_ == place else None
    fx = GField('x', None, node_f, options=opts)
    data_types = {}
    N = [GField('a', None, node_f)]
    R = [GField('a', None, root_f),
         GLink('n', TypeRef['N'], lambda: 1, requires=None),
         GLink('ns', Sequence[TypeRef['N']], lambda: [1, 1], requires=None)]
    if place == 'root field':
        R.append(GField('x', None, root_f, options=opts))
        q = Field
        wrap = lambda item: Node([item])                        # noqa
    elif place == 'record':
        data_types = {'T': Record[{'r': Integer}]}
        R.append(GField('x', TypeRef['T'], root_f, options=opts))
        wrap = lambda item: Node([item])                        # noqa
    elif place == 'root link':
        R.append(GLink('x', TypeRef['N'], root_l, requires=None,
                       options=opts))
        wrap = lambda item: Node([item])                        # noqa
    elif place == 'node field':
        N.append(fx)
        wrap = lambda item: Node([Link('n', Node([item]))])     # noqa
    elif place == 'node link':
        N.append(GLink('x', TypeRef['N'], node_l, requires='a',
                       options=opts))
        wrap = lambda item: Node([Link('ns', Node([item]))])    # noqa
    elif place == 'free link':
        N.append(GLink('x', TypeRef['N'], root_l, requires=None,
                       options=opts))
        wrap = lambda item: Node([Link('n', Node([item]))])     # noqa
    else:
        N.append(fx)
        N.append(GLink('y', Optional[TypeRef['N']], lambda ids:
                       [1 for i in ids], requires='a'))
        wrap = lambda item: Node([Link('ns', Node([             # noqa
            Field('a'), Link('y', Node([item]))]))])
    graph = Graph([GNode('N', N), Root(R)], data_types=data_types)
    return graph, wrap


def ask(place, options, alias=None):
    if place in ('root field', 'node field', 'below'):
        return Field('x', options, alias)
    if place == 'record':
        return Link('x', Node([Field('r')]), options, alias)
    return Link('x', Node([Field('a')]), options, alias)


@scenario(covers=('accepted', 'refused'),
          params={'quick': {'n': 2}, 'thorough': {'n': 3}})
def all_places(s):
    place = s.pick('place', PLACES)
    n = s.choice('declared', s.params['n'] + 1)
    opts, supplied, expect, missing = declare(s, n)
    supplied = undeclared(s, supplied)
    got = []
    graph, wrap = build(place, opts or None, got)
    if not supplied and s.choice('no options', 2):
        supplied = None
    before = dict(supplied) if supplied is not None else None
    q = wrap(ask(place, supplied))
    res, err = attempt(lambda: Engine(SyncExecutor()).execute(graph, q))
    s.observe('ok', err is None)
    s.check(s.eq(supplied, before), 'the query keeps its options')
    if missing:
        s.check(err is not None, 'a missing required option is refused')
        s.check(isinstance(err, TypeError), 'with a type error', err)
        s.check('x' in str(err), 'which names the field')
        s.check(got == [], 'nothing has been called', got)
        s.cover('refused')
        return
    if n == 0:
        s.check(err is None, 'executes', err)
        s.check(len(got) == 1 and not got[0], 'no options', got)
        s.cover('accepted')
        return
    s.check(err is None, 'executes', err)
    s.check(len(got) == 1, 'called once', got)
    s.check(s.eq(got[0], expect), 'declared options and nothing else',
            (got, expect))
    s.cover('accepted')


@scenario()
def two_requests(s):
    """Two requests of one field, each with its own options."""
    place = s.pick('place', PLACES)
    opts, sup1, exp1, miss = declare(s, 1)
    s.assume(not miss)
    sup2 = {}
    exp2 = {'o0': exp1['o0']}
    k = s.choice('second', 3)
    if k == 0:
        sup2 = {'o0': s.int('w', 0, 5)}
        exp2 = sup2
    elif k == 1:
        s.assume(opts[0].default is not Nothing)
        exp2 = {'o0': opts[0].default}
    else:
        sup2 = {'o0': None}
        exp2 = sup2
    got = []
    graph, wrap = build(place, opts, got)
    n1 = wrap(ask(place, sup1 or None, 'p'))
    n2 = wrap(ask(place, sup2 or None, 'q'))
    from hiku.query import merge
    q = merge([n1, n2])
    res, err = attempt(lambda: Engine(SyncExecutor()).execute(graph, q))
    s.check(err is None, 'executes', err)
    s.check(len(got) == 2, 'each request has been served', got)
    s.check(s.any([s.all([s.eq(got[0], exp1), s.eq(got[1], exp2)]),
                   s.all([s.eq(got[1], exp1), s.eq(got[0], exp2)])]),
            'with its options', (got, exp1, exp2))


@scenario()
def symbolic_names(s):
    """Names of options are any: the declared ones are passed, others not."""
    dn = [s.char('declared%d' % i, 'xyz') for i in range(2)]
    s.assume(s.not_(s.eq(dn[0], dn[1])))
    opts = [Option(dn[0], None), Option(dn[1], None, default=9)]
    sn = [s.char('supplied%d' % i, 'xyz') for i in range(2)]
    supplied = {}
    for i in range(2):
        supplied[sn[i]] = s.int('v%d' % i, 0, 5)
    place = s.pick('place', PLACES)
    got = []
    graph, wrap = build(place, opts, got)
    q = wrap(ask(place, supplied))
    res, err = attempt(lambda: Engine(SyncExecutor()).execute(graph, q))
    if dn[0] in supplied:
        exp = {dn[0]: supplied[dn[0]], dn[1]: supplied.get(dn[1], 9)}
        s.check(err is None, 'executes', err)
        s.check(s.eq(got, [exp]), 'declared options and nothing else',
                (got, exp))
    else:
        s.check(isinstance(err, TypeError), 'missing option is refused',
                err)


@scenario(params={'quick': {'n': 3}, 'thorough': {'n': 4}})
def deep(s):
    """Links in links, each with or without options of its own, the request
    at the bottom."""
    n = 1 + s.choice('depth', s.params['n'])
    got = []

    def node_f(fields, ids):
        got.extend(('f', f.options) for f in fields if f.name == 'x')
        return [[1 for f in fields] for i in ids]

    def link(i, root):
        def fn(*args):
            opts = [a for a in args if isinstance(a, dict)]
            got.append((i, opts[0] if opts else None))
            return 1 if root else [1 for _ in args[0]]
        return fn
    dv = s.int('default', 0, 5)
    own = [s.choice('declared%d' % i, 2) for i in range(n)]
    parts, want = [], []

    def declared(i):
        return [Option('o', Optional[Integer], default=dv)] if own[i] \
            else None
    for i in range(n):
        fields = [GField('a', None, node_f),
                  GField('x', None, node_f, options=[
                      Option('o', Optional[Integer], default=dv)])]
        if i + 1 < n:
            fields.append(GLink('l', TypeRef['N%d' % (i + 1)],
                                link(i + 1, False), requires='a',
                                options=declared(i + 1)))
        parts.append(GNode('N%d' % i, fields))
    parts.append(Root([GLink('l', TypeRef['N0'], link(0, True),
                             requires=None, options=declared(0))]))
    graph = Graph(parts)

    def supply(label):
        """Supplied options and what the function gets."""
        k = s.choice(label, 3)
        if k == 0:
            return None, {'o': dv}
        if k == 1:
            return {'zz': 1}, {'o': dv}
        v = s.int(label + 'v', 0, 5)
        return {'o': v}, {'o': v}
    sup, exp = supply('field')
    q = Node([Field('x', sup)])
    want = [('f', exp)]
    for i in reversed(range(n)):
        if own[i]:
            sup, exp = supply('link%d' % i)
        else:
            sup, exp = None, None
        want.insert(0, (i, exp))
        q = Node([Link('l', q, sup)])
    res, err = attempt(lambda: Engine(SyncExecutor()).execute(graph, q))
    s.check(err is None, 'executes', err)
    s.check(s.eq([[k, v] for k, v in got], [[k, v] for k, v in want]),
            'the options of every request', (got, want))


@scenario(covers=('default', 'refused', 'undeclared'))
def requirements(s):
    """The field a link requires has options as well: the link gets its value
    with the defaults, whatever else is asked of this field."""
    where = s.pick('where', ('root', 'node'))
    many = bool(s.choice('many', 2))
    kind = s.choice('declared', 4)
    dv = None
    if kind == 0:
        opts = None
    elif kind == 1:
        opts = [Option('o', Optional[Integer])]
    elif kind == 2:
        opts = [Option('o', Optional[Integer], default=None)]
    else:
        dv = s.int('default', 0, 5)
        opts = [Option('o', Optional[Integer], default=dv)]
    asked, got = [], []

    def value(options, i):
        o = (options or {}).get('o')
        return s.uf('v', i, -1 if o is None else o, lo=0, hi=9)

    def root_f(fields):
        asked.extend((f.name, f.options) for f in fields)
        return [value(f.options, -1) if f.name == 'x' else 1 for f in fields]

    def node_f(fields, ids):
        asked.extend((f.name, f.options) for f in fields)
        return [[value(f.options, i) if f.name == 'x' else i for f in fields]
                for i in ids]

    def link(arg):
        got.append(arg)
        if where == 'root':
            return [0, 1] if many else 0
        return [[0, 1] if many else 0 for _ in arg]
    fn = root_f if where == 'root' else node_f
    ty = Sequence[TypeRef['M']] if many else TypeRef['M']
    fields = [GField('x', None, fn, options=opts), GField('y', None, fn),
              GLink('l', ty, link, requires='x')]
    M = GNode('M', [GField('id', None, node_f)])
    if where == 'root':
        graph = Graph([M, Root(fields)])
    else:
        graph = Graph([M, GNode('N', fields), Root([
            GLink('n', Sequence[TypeRef['N']], lambda: [0, 1],
                  requires=None)])])
    supplied = None
    k = s.choice('supplied', 3)
    if k == 1:
        supplied = {'o': s.int('given', 0, 5)}
    elif k == 2:
        supplied = {'o': None}
    alias = 'z' if s.choice('alias', 2) else None
    items = [Link('l', Node([Field('id')]))]
    both = s.choice('field', 3)
    if both:
        items.insert(0 if both == 1 else 1, Field('x', supplied, alias))
    q = Node(items, ordered=bool(s.choice('ordered', 2)))
    if where == 'node':
        q = Node([Link('n', q)])
    res, err = attempt(lambda: denormalize(graph, Engine(
        SyncExecutor()).execute(graph, q)))
    if kind == 1:
        s.cover('refused')
        s.check(isinstance(err, TypeError) and 'x' in str(err),
                'there is no value for the option', err)
        s.check(not got, 'the link is not followed', got)
        return
    s.check(err is None, 'executes', err)
    dflt = None if kind == 0 else {'o': dv}
    if kind == 0 and supplied:
        s.cover('undeclared')
    else:
        s.cover('default')
    ids = [-1] if where == 'root' else [0, 1]
    want = [value(dflt, i) for i in ids]
    s.check(s.eq(got, [want[0] if where == 'root' else want]),
            'the link gets the value with the defaults', (got, want))
    ms = [{'id': 0}, {'id': 1}] if many else {'id': 0}
    rows = []
    for i in ids:
        row = {'l': ms}
        if both:
            eff = supplied if kind and supplied else dflt
            row[alias or 'x'] = value(eff, i)
        rows.append(row)
    s.check(s.eq(res, rows[0] if where == 'root' else {'n': rows}),
            'values', (res, rows))
    wants = [('x', dflt)]
    if both:
        wants.append(('x', supplied if kind and supplied else dflt))
    for a in asked:
        s.check(a[0] != 'x' or s.any([s.eq(a, w) for w in wants]),
                'options of the required field', (a, wants))


@scenario(covers=('accepted', 'refused'))
def many(s):
    """Many options, one of which, at a picked place, is different."""
    n = s.pick('size', WIDE)
    k = place(s, 'at', n)
    where = s.pick('place', PLACES)
    kind = s.pick('kind', ('given', 'default', 'missing', 'undeclared'))
    v = s.int('v', 0, 5)
    opts, supplied, expect = [], {}, {}
    for i in range(n):
        name = 'o%d' % i
        if i % 2 and i != k:
            opts.append(Option(name, Integer, default=i))
        elif i == k and kind == 'default':
            opts.append(Option(name, Integer, default=v))
        else:
            opts.append(Option(name, Integer))
            if i != k or kind != 'missing':
                supplied[name] = v if i == k else i
        expect[name] = v if i == k else i
    if kind == 'undeclared':
        for i in range(n):
            supplied['u%d' % i] = i
    got = []
    graph, wrap = build(where, opts, got)
    res, err = attempt(lambda: Engine(SyncExecutor()).execute(
        graph, wrap(ask(where, supplied or None))))
    if kind == 'missing':
        s.cover('refused')
        s.check(err is not None, 'a missing option is an error', got)
        return
    s.cover('accepted')
    s.check(err is None, 'no error', err)
    s.check(len(got) == 1 and s.eq(got[0], expect),
            'declared options and no others', got)
