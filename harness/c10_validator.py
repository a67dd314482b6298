"""C10: the validator reports exactly the invalid parts."""
from symx.session import scenario
from hiku import edn
from hiku.graph import Graph, Root, Node as GNode, Field as GField, Option
from hiku.graph import Link as GLink
from hiku.types import Integer, Sequence, TypeRef, Record, Optional
from hiku.types import Any, Mapping, String
from hiku.query import Node, Field, Link, merge
from hiku.validate.query import validate
from harness.world import attempt
from harness import qshapes
from harness.sizes import WIDE, DEEP, place
from harness.qgen import make_graph, defects

ASSUMPTIONS = ['selections are merged before validation, as readers do it']
BOUNDS = ('shapes of harness/qshapes.py: up to 3 items, 3 levels; symbolic '
          'names including unknown ones, aliases, options with every kind of '
          'error; one of up to 129 items, options or values, up to 50 levels')


def run(s, q):
    graph = make_graph(s)
    q = merge([q])
    bad = defects(s, 'R', q)
    errors, err = attempt(lambda: validate(graph, q))
    s.observe('errors', [len(errors) if err is None else None, len(bad)])
    s.check(err is None, 'validation does not fail', err)
    if not bad:
        s.check(len(errors) == 0, 'a query without defects is accepted',
                errors)
        s.cover('valid')
        return
    s.cover('invalid')
    s.check(len(errors) > 0, 'an invalid query is reported', bad)
    text = ' | '.join(errors)
    n = len([b for b in bad if b[0] != 'unknown option+'])
    s.check(len(errors) >= n, 'each defect has its error', (errors, bad))
    for what, name in bad:
        s.check(name in text, 'every defect is reported: ' + what,
                (errors, bad))


@scenario(covers=('same', 'other'))
def options_of_one_key(s):
    """One result key requested twice, with sets and sequences for an option:
    the order of a set does not matter."""
    kind = s.pick('kind', ('set', 'list', 'dict'))

    def one(p):
        items = []
        for i in range(1 + s.choice(p + '.n', 2)):
            # these are placed in sets in the order of their coming
            v = s.pick('%s.%d' % (p, i), (0, 8, 16, False, True, 1))
            if kind != 'list' and any([v == x for x in items]):
                s.assume(False)
            items.append(v)
        if kind == 'set':
            return edn.Set(items)
        if kind == 'dict':
            return {v: 1 for v in items}
        return items

    def strict(v):
        v = [(type(x).__name__, x) for x in v]
        return v if kind == 'list' else sorted(v)
    a, b = one('a'), one('b')
    graph = Graph([
        GNode('N', [GField('a', None, None)]),
        Root([GField('f', None, None, options=[Option('x', None)]),
              GLink('l', TypeRef['N'], None, requires=None,
                    options=[Option('x', None)])])])
    items = []
    link = s.choice('link', 2)
    for v in (a, b):
        items.append(Link('l', Node([Field('a')]), {'x': v}) if link
                     else Field('f', {'x': v}))
    q = Node(items)
    if s.choice('merged', 2):
        q = merge([q])
    errors, err = attempt(lambda: validate(graph, q))
    s.check(err is None, 'validation does not fail', err)
    if strict(a) == strict(b):
        s.cover('same')
        s.check(len(errors) == 0, 'a query without defects is accepted',
                (errors, a, b))
    else:
        s.cover('other')
        s.check(len(errors) == 1, 'an invalid query is reported', (a, b))


def declare(fn, tier='quick'):
    def sc(s):
        run(s, fn(s))
    scenario(name=fn.__name__, tier=tier, timeout=120,
             covers=('valid',) if fn.__name__ == 'empty'
             else ('valid', 'invalid'))(sc)


for _fn in qshapes.QUICK:
    declare(_fn)
for _fn in qshapes.THOROUGH[len(qshapes.QUICK):]:
    declare(_fn, 'thorough')


@scenario(name='large', covers=('valid', 'invalid'))
def large(s):
    """One item or option among many, at a picked place, or below many
    levels, which may be wrong."""
    kind = s.pick('kind', ('fields', 'links', 'levels', 'options', 'values'))
    n = s.pick('size', DEEP if kind == 'levels' else WIDE)
    k = place(s, 'place', n)
    names = ['f%d' % i for i in range(n)]
    opts = [Option('o%d' % i, Integer) for i in range(n)]
    graph = Graph([
        GNode('N', [GField('i', Integer, None)] +
              [GField(x, Integer, None) for x in names] +
              [GLink('l', TypeRef['N'], None, requires=None,
                     options=[Option('o', Integer, default=1)])]),
        Root([GLink('n', TypeRef['N'], None, requires=None),
              GField('x', Integer, None, options=opts),
              GField('v', Integer, None,
                     options=[Option('o', Sequence[Integer])])])])
    odd = s.choice('odd', 3)
    name = ('f0', 'zz', 'l')[odd]
    if kind == 'fields':
        fs = [Field(x) for x in names]
        fs[k] = Field(name, None, 'w')
        q = Node([Link('n', Node(fs))])
        bad = odd
    elif kind == 'links':
        fs = [Link('l', Node([Field(x)]), None, 'z' + x) for x in names]
        fs[k] = Link('l', Node([Field(name)]),
                     {'o': s.pick('o', (1, 'x', None))} if odd == 0
                     else None, 'w')
        bad = odd or fs[k].options['o'] != 1
        q = Node([Link('n', Node(fs))])
    elif kind == 'levels':
        node = Node([Field(name)])
        for i in range(n):
            node = Node([Field('f0'), Link('l', node)])
        q = Node([Link('n', node)])
        bad = odd
    elif kind == 'options':
        o = dict([('o%d' % i, i) for i in range(n)])
        if odd == 1:
            o['o%d' % k] = 'x'
        elif odd == 2:
            del o['o%d' % k]
        q = Node([Field('x', o)])
        bad = odd
    else:
        v = [i for i in range(n)]
        v[k] = (s.int('v', 0, 9), 'x', None)[odd]
        q = Node([Field('v', {'o': v})])
        bad = odd
    errors, err = attempt(lambda: validate(graph, q))
    s.check(err is None, 'validation does not fail', err)
    if bad:
        s.cover('invalid')
        s.check(len(errors) == 1, 'the defect is reported', errors)
    else:
        s.cover('valid')
        s.check(len(errors) == 0, 'a query without defects is accepted',
                errors)


@scenario(covers=('valid', 'invalid'))
def names_of_options(s):
    """Any options given to a field or link with any options declared."""
    declared = ('p', 'q', 'r')[:s.choice('declared', 4)]
    default = {n: s.choice(n + '.default', 2) for n in declared}
    given = []
    for i in range(s.choice('given', 4)):
        n = s.char('g%d' % i, 'pqrs') + s.pick('h%d' % i, ('', 's'))
        s.assume(all([n != x for x in given]))
        given.append(n)
    opts = [Option(n, Integer, default=1) if default[n]
            else Option(n, Integer) for n in declared]
    graph = Graph([GNode('N', [GField('a', None, None)]),
                   Root([GField('f', None, None, options=opts),
                         GLink('l', TypeRef['N'], None, requires=None,
                               options=opts),
                         GField('e', TypeRef['T'], None, options=opts)])],
                  data_types={'T': Record[{'a': Integer}]})
    opts = {n: 5 for n in given} or None
    q = s.pick('q', (Field('f', opts), Link('l', Node([Field('a')]), opts),
                     Link('e', Node([Field('a')]), opts)))
    bad = ([n for n in given if not any([n == x for x in declared])] +
           [n for n in declared if not default[n]
            and not any([n == x for x in given])])
    errors, err = attempt(lambda: validate(graph, Node([q])))
    s.check(err is None, 'validation does not fail', err)
    if not bad:
        s.cover('valid')
        s.check(len(errors) == 0, 'a query without defects is accepted',
                errors)
        return
    s.cover('invalid')
    text = ' | '.join(errors)
    s.check(len(errors) > 0, 'an invalid query is reported', bad)
    for n in bad:
        s.check(n in text, 'every defect is reported: options',
                (errors, bad))


@scenario(covers=('valid', 'invalid'))
def small_records(s):
    """Records with any number of fields, none included, and selections of
    any size from them."""
    types = {n: Integer for n in ('a', 'b')[:s.choice('declared', 3)]}
    t = Record[types]
    data_types = {}
    if s.choice('ref', 2):
        data_types['T'] = t
        t = TypeRef['T']
    wrap = s.choice('wrap', 3)
    t = (t, Sequence[t], Optional[t])[wrap]
    inner = s.choice('inner', 2)
    if inner:
        t = Record[{'i': t}]
    graph = Graph([Root([GField('e', t, None)])], data_types=data_types)
    items, bad = [], []
    for i in range(s.choice('n', 3)):
        n = s.char('n%d' % i, 'abc')
        alias = 'k%d' % i if s.choice('alias%d' % i, 2) else None
        k = s.choice('kind%d' % i, 3)
        if k == 0:
            items.append(Field(n, None, alias))
        elif k == 1:
            items.append(Field(n, {'o': 1}, alias))
        else:
            items.append(Link(n, Node([]), None, alias))
        if k or not any([n == x for x in types]):
            bad.append(n)
    keys = [f.result_key for f in items]
    if len(keys) == 2 and keys[0] == keys[1]:
        if not (items[0].name == items[1].name
                and type(items[0]) is type(items[1])
                and items[0].options == items[1].options):
            bad.append('conflict')
    q = Link('e', Node(items))
    if inner:
        q = Link('e', Node([Link('i', Node(items))]))
    errors, err = attempt(lambda: validate(graph, Node([q])))
    s.check(err is None, 'validation does not fail', err)
    s.cover('invalid' if bad else 'valid')
    s.check((len(errors) > 0) == (len(bad) > 0), 'the verdict',
            (errors, bad))
    s.check(len(errors) >= len(bad), 'each defect has its error',
            (errors, bad))


@scenario(covers=('valid', 'invalid'))
def wrapped_types(s):
    """Fields whose types are wrapped any number of times, also by names; a
    selection can be made from (a sequence of, an optional) record."""
    base = s.pick('base', ('rec', 'int', 'any', 'map', 'none'))
    data_types = {}

    def name_it(t, p):
        if t is not None and s.choice(p, 2):
            data_types[p] = t
            return TypeRef[p]
        return t
    t = {'rec': Record[{'a': Integer}], 'int': Integer, 'any': Any,
         'map': Mapping[String, Record[{'a': Integer}]], 'none': None}[base]
    t = name_it(t, 'T0')
    depth = 0
    if t is not None:
        for i in range(3):
            w = s.pick('wrap%d' % i, ('-', 'seq', 'opt', 'map'))
            if w == '-':
                break
            t = {'seq': lambda: Sequence[t], 'opt': lambda: Optional[t],
                 'map': lambda: Mapping[String, t]}[w]()
            t = name_it(t, 'T%d' % (i + 1))
            depth = 9 if w == 'map' else depth + 1
    record = base == 'rec' and depth <= 1
    where = s.pick('where', ('root', 'node', 'record'))
    if where == 'record' and t is None:
        return
    f = GField('e', t, None)
    if where == 'record':
        f = GField('e', Record[{'e': t}], None)
    graph = Graph([GNode('N', [f]),
                   Root([f, GLink('n', TypeRef['N'], None, requires=None)])],
                  data_types=data_types)
    how = s.pick('query', ('plain', 'known', 'unknown', 'both', 'below'))
    sub = {'plain': None, 'known': [Field('a')], 'unknown': [Field('zz')],
           'both': [Field('a'), Field('zz', None, 'b')],
           'below': [Link('a', Node([Field('b')]))]}[how]
    q = Field('e') if sub is None else Link('e', Node(sub))
    if how == 'plain':
        # the whole value of a field of the graph, but of no field of a record
        bad = where == 'record' and record
    else:
        bad = not record or how != 'known'
    if where == 'record':
        q = Link('e', Node([q]))
    if where == 'node':
        q = Link('n', Node([q]))
    errors, err = attempt(lambda: validate(graph, Node([q])))
    s.check(err is None, 'validation does not fail', err)
    s.cover('invalid' if bad else 'valid')
    s.check((len(errors) > 0) == bad, 'the verdict', (errors, t, how))


@scenario(covers=('valid', 'invalid'))
def special_names(s):
    """Names with underscores are names as any others."""
    names = ('__typename', '_a', 'a', '__', 'id', 'class')
    graph = Graph([
        GNode('N', [GField(n, Integer, None) for n in names]),
        Root([GField(n, Integer, None) for n in names] +
             [GLink('n', TypeRef['N'], None, requires=None),
              GField('r', Record[[(n, Integer) for n in names]], None)])])
    items = []
    for i in range(2):
        alias = s.pick('alias%d' % i, (None, 'k') + names[:4])
        items.append(Field(s.pick('name%d' % i, names + ('__nope', 'zz')),
                           {'x': 1} if s.choice('opt%d' % i, 2) else None,
                           alias))
    a, b = items
    bad = (any([f.options or f.name not in names for f in items]) or
           a.result_key == b.result_key and a.name != b.name)
    where = s.pick('where', ('root', 'n', 'r'))
    q = Node(items if where == 'root' else [Link(where, Node(items))])
    errors, err = attempt(lambda: validate(graph, q))
    s.check(err is None, 'validation does not fail', err)
    s.cover('invalid' if bad else 'valid')
    s.check((len(errors) > 0) == bool(bad), 'the verdict', errors)
