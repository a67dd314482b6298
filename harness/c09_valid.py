"""C09: queries which pass validation execute and give what was requested."""
from symx.session import scenario
from hiku.engine import Engine
from hiku.executors.sync import SyncExecutor
from hiku.graph import Graph, Root, Node as GNode, Field as GField
from hiku.graph import Link as GLink
from hiku.types import TypeRef, Sequence, Optional, Record, Integer
from hiku.query import merge, Node, Field, Link
from hiku.result import denormalize
from hiku.denormalize.graphql import DenormalizeGraphQL
from hiku.validate.query import validate
from harness.world import attempt
from harness import qshapes
from harness.qgen import make_graph, want, defects

ASSUMPTIONS = ['resolver functions answer as declared']
BOUNDS = ('shapes of harness/qshapes.py: up to 3 items, 3 levels; symbolic '
          'names including unknown ones, aliases, options of all kinds of '
          'errors; objects behind links absent, empty or present')


def run(s, q):
    graph = make_graph(s)
    q = merge([q])
    errors = validate(graph, q)
    s.observe('valid', not errors)
    if errors:
        s.cover('invalid')
        s.check(True, 'validated')
        return
    s.cover('valid')
    res, err = attempt(lambda: Engine(SyncExecutor()).execute(graph, q))
    s.check(err is None, 'a valid query executes', err)
    den, err = attempt(lambda: denormalize(graph, res))
    s.check(err is None, 'the result can be denormalized', err)
    exp = want(s, 'R', -1, q)
    s.check(s.eq(den, exp), 'exactly what was requested', (den, exp))
    den, err = attempt(
        lambda: DenormalizeGraphQL(graph, res, 'Query').process(q))
    s.check(err is None, 'the result can be denormalized (GraphQL)', err)
    s.check(s.eq(den, exp), 'exactly what was requested (GraphQL)',
            (den, exp))


@scenario(covers=('valid', 'invalid', 'named', 'root', 'node'))
def types_of_fields(s):
    """Complex fields of any type: wrappers in any number, data types for any
    part of the type. Whatever validation lets through works."""
    data_types = {'T': Record[{'x': Integer, 'y': Integer}]}
    kinds = []
    by_ref = s.choice('ref', 2)
    t = TypeRef['T'] if by_ref else data_types['T']
    for i in range(s.choice('wrappers', 3)):
        k = s.pick('wrapper%d' % i, ('opt', 'seq'))
        kinds.insert(0, k)
        t = Optional[t] if k == 'opt' else Sequence[t]
        for j in range(s.choice('names%d' % i, 3)):
            data_types['D%d%d' % (i, j)] = t
            t = TypeRef['D%d%d' % (i, j)]
            s.cover('named')

    def gen(p, kinds):
        if not kinds:
            return {'x': s.int(p + '.x', 0, 9), 'y': s.int(p + '.y', 0, 9)}
        if kinds[0] == 'opt':
            return None if s.choice(p + '.none', 2) else gen(p + '.o',
                                                             kinds[1:])
        return [gen('%s.%d' % (p, i), kinds[1:])
                for i in range(s.choice(p + '.n', 3))]
    items = [Field(s.char('f', 'xyz'), None,
                   'k' if s.choice('alias', 2) else None)]

    def cut(v):
        if v is None:
            return None
        if isinstance(v, list):
            return [cut(x) for x in v]
        return {f.result_key: v[f.name] for f in items}
    vals = []
    if s.choice('at_node', 2):
        graph = Graph([
            GNode('N', [GField('e', t, lambda fields, ids: [
                [vals[i] for _ in fields] for i in ids])]),
            Root([GLink('l', Sequence[TypeRef['N']], lambda: [1, 0],
                        requires=None)])], data_types=data_types)
        q = Node([Link('l', Node([Link('e', Node(items), None, 'z')]))])
        place = 'node'
    else:
        graph = Graph([Root([GField('e', t, lambda fields: [
            vals[0] for _ in fields])])], data_types=data_types)
        q = Node([Link('e', Node(items), None, 'z')])
        place = 'root'
    errors, err = attempt(lambda: validate(graph, q))
    s.check(err is None, 'validation gives a verdict', err)
    if errors:
        s.cover('invalid')
        if items[0].name != 'z':
            s.check(len(kinds) > 1, 'an object can be requested', errors)
        return
    s.check(items[0].name != 'z', 'unknown fields are reported')
    s.cover('valid')
    s.cover(place)
    for i in range(2 if place == 'node' else 1):
        vals.append(gen('v%d' % i, kinds))
    want = ({'z': cut(vals[0])} if place == 'root' else
            {'l': [{'z': cut(vals[1])}, {'z': cut(vals[0])}]})
    res, err = attempt(lambda: Engine(SyncExecutor()).execute(graph, q))
    s.check(err is None, 'a valid query executes', err)
    den, err = attempt(lambda: denormalize(graph, res))
    s.check(err is None, 'the result can be denormalized', err)
    s.check(s.eq(den, want), 'exactly what was requested', (den, want))
    named = Link('e', Node(items + [Field('__typename')]), None, 'z')
    if place == 'root':
        q = Node([named])
    else:
        q = Node([Link('l', Node([named]))])
    den, err = attempt(
        lambda: DenormalizeGraphQL(graph, res, 'Query').process(q))
    s.check(err is None, 'the result can be denormalized (GraphQL)', err)

    def name(v):
        if isinstance(v, list):
            return [name(x) for x in v]
        if v is not None:
            v = dict(v)
            v['__typename'] = 'T' if by_ref else None
        return v
    want = {k: name(v) if k == 'z' else [{'z': name(x['z'])} for x in v]
            for k, v in want.items()}
    s.check(s.eq(den, want), 'exactly what was requested (GraphQL)',
            (den, want))


def declare(fn, tier='quick'):
    def sc(s):
        run(s, fn(s))
    scenario(name=fn.__name__, tier=tier, timeout=120,
             covers=('valid',) if fn.__name__ == 'empty'
             else ('valid', 'invalid'))(sc)


for _fn in qshapes.QUICK:
    declare(_fn)
for _fn in qshapes.THOROUGH[len(qshapes.QUICK):]:
    declare(_fn, 'thorough')
