"""C37: the type listing for templates describes exactly the graph."""
from symx.session import scenario
from hiku.graph import (Graph, Root, Node as GNode, Field as GField,
                        Link as GLink, Option)
from hiku.typedef.kinko import dumps, TypeDoc
from hiku.types import (TypeRef, Sequence, Optional, Mapping, Integer, String,
                        Boolean, Float, Record, Any)
from harness.world import attempt
from harness.sizes import WIDE, DEEP, place

ASSUMPTIONS = ['names of nodes, data types and of the fields of the root '
               'are distinct; data types are declared and not Any',
               'descriptions are single lines',
               'fields of type Any and without a type are not typed']
BOUNDS = ('graphs of up to 2 nodes, 2 data types, 2 parts of the root, 2 '
          'fields each, arbitrary names, types nested up to 3 times, with '
          'and without descriptions; up to 129 nodes or fields, types of 50 '
          'levels')


def a_type(s, label, depth):
    """A type, and its description: ('line', text) or ('block', word, parts)
    where parts are types or (name, type)."""
    kinds = ['Integer', 'String', 'Boolean', 'Float', 'Any', 'ref']
    if depth:
        kinds = ['Integer', 'ref', 'Sequence', 'Optional', 'Mapping',
                 'Record']
    k = s.pick(label + '.kind', kinds)
    if k == 'ref':
        n = s.pick(label + '.ref', ('N', 'D'))
        return TypeRef[n], n
    if k == 'Float' or k == 'Any':
        return (Float if k == 'Float' else Any), 'Unknown'
    if k in ('Integer', 'String', 'Boolean'):
        return {'Integer': Integer, 'String': String,
                'Boolean': Boolean}[k], k
    if k in ('Sequence', 'Optional'):
        t, d = a_type(s, label + '.i', depth - 1)
        return ((Sequence[t], ('List', [(None, d)])) if k == 'Sequence' else
                (Optional[t], ('Option', [(None, d)])))
    if k == 'Mapping':
        t1, d1 = (((String, 'String'), (Optional[Integer], (
            'Option', [(None, 'Integer')])))[s.choice(label + '.key', 2)]
            if depth < 2 else a_type(s, label + '.k', 0))
        t2, d2 = a_type(s, label + '.v', depth - 1)
        return Mapping[t1, t2], ('Dict', [(None, d1), (None, d2)])
    n = s.choice(label + '.n', 3 if depth < 2 else 2)
    fields, ds = [], []
    for i in range(n):
        t, d = a_type(s, '%s.%d' % (label, i), depth - 1)
        fields.append(('rF%d' % i, t))
        ds.append(('rF%d' % i, d, None))
    return Record[fields], ('Record', ds)


def lines(d, indent, out, doc=None):
    """Appends the text of a type to the last line or below it."""
    if isinstance(d, str):
        out[-1] = out[-1] + ' ' + d
        if doc is not None:
            out[-1] = out[-1] + '  ; ' + doc
        return
    if doc is not None:
        out[-1] = out[-1] + '  ; ' + doc
    word, parts = d
    pad = '  ' * (indent + 1)
    out.append(pad + word)
    for p in parts:
        if p[0] is None:
            lines(p[1], indent + 1, out)
        else:
            out.append(pad + '  :' + p[0])
            lines(p[1], indent + 2, out, p[2])


def listing(defs):
    out = []
    for i, (name, d, doc) in enumerate(defs):
        if i:
            out.append('')
        out.append('type ' + name)
        lines(d, 0, out, doc)
    text = out[0]
    for x in out[1:]:
        text = text + '\n' + x
    return text + '\n'


@scenario(params={'quick': {'depth': 2}, 'thorough': {'depth': 3}},
          timeout=120)
def types(s):
    """Types of fields, nested in any way."""
    t, d = a_type(s, 't', s.params['depth'])
    where = s.pick('where', ('node', 'root', 'data', 'option'))
    name = s.string('name', 1, 2, 'aB')
    if where == 'data' and t is Any:
        return
    fields = [GField(name, t, None)]
    own = ('Record', [] if t is Any else [(name, d, None)])
    other = ('Record', [('p', 'Integer', None)])
    dt = {'D': Record[{'p': Integer}]}
    defs = [('D', other, None)]
    if where == 'data':
        dt['E'] = t
        defs.append(('E', d, None))
    node = GNode('N', fields if where == 'node' else
                 [GField('p', Integer, None, options=[Option('o', t)]
                         if where == 'option' else None)])
    defs.append(('N', own if where == 'node' else other, None))
    root = Root(fields if where == 'root' else [])
    if where == 'root' and t is not Any:
        defs.append((name, d, None))
    got, err = attempt(lambda: dumps(Graph([node, root], dt)))
    s.check(err is None, 'never fails', err)
    s.check(s.eq(got, listing(defs)), 'the listing', (got, listing(defs)))
    s.observe('got', got)


ITEM = ('plain', 'untyped', 'any', 'one', 'maybe', 'many', 'record')


def item(s, label, target, docs):
    """A field or a link with an arbitrary name."""
    k = s.pick(label, ITEM)
    name = s.string(label + '.name', 1, 1, 'aBc')
    doc = s.pick(label + '.doc', docs)
    if k == 'plain':
        return (GField(name, String, None, description=doc),
                (name, 'String', doc))
    if k in ('untyped', 'any'):
        return (GField(name, None if k == 'untyped' else Any, None,
                       description=doc), None)
    if k == 'record':
        return (GField(name, Sequence[TypeRef['D']], None, description=doc),
                (name, ('List', [(None, 'D')]), doc))
    t, d = {'one': (TypeRef[target], target),
            'maybe': (Optional[TypeRef[target]],
                      ('Option', [(None, target)])),
            'many': (Sequence[TypeRef[target]],
                     ('List', [(None, target)]))}[k]
    return (GLink(name, t, None, requires=None, description=doc),
            (name, d, doc))


@scenario(params={'quick': {'items': 2, 'docs': (None, 'x y'), 'more': 0},
                  'thorough': {'items': 2, 'docs': (None, 'x', ''),
                               'more': 1}}, timeout=300)
def graphs(s):
    """Nodes, several parts of the root, descriptions."""
    docs = s.params['docs']
    where = s.pick('where', ('node', 'root', 'roots', 'both'))
    found = [item(s, 'item%d' % i, 'N', docs)
             for i in range(s.params['items'])]
    a, b = found[0][0].name, found[1][0].name
    if where != 'both':
        s.assume(s.not_(s.eq(a, b)))
    items = [x for x, _ in found]
    kept = [d for _, d in found]
    plain = [GField('p', Integer, None)]
    node_doc = s.pick('node doc', docs)
    dt = {'D': Record[{'p': Integer}]}

    def rec(ds):
        return ('Record', [d for d in ds if d is not None])
    p = ('p', 'Integer', None)
    defs = [('D', rec([p]), None)]
    root = []
    if where == 'node':
        graph = [GNode('N', items, description=node_doc), Root([])]
        defs.append(('N', rec(kept), node_doc))
    elif where == 'root':
        graph = [Root(items), GNode('N', plain, description=node_doc)]
        defs.append(('N', rec([p]), node_doc))
        root = kept
    elif where == 'roots':
        graph = [Root(items[:1]), GNode('N', plain, description=node_doc),
                 Root(items[1:])]
        defs.append(('N', rec([p]), node_doc))
        root = kept
    else:
        graph = [GNode('N', items[:1], description=node_doc),
                 GNode('M', plain + [GField('z', None, None)]),
                 Root(items[1:])]
        defs.append(('N', rec(kept[:1]), node_doc))
        defs.append(('M', rec([p]), None))
        root = kept[1:]
    defs.extend(d for d in root if d is not None)
    got, err = attempt(lambda: dumps(Graph(graph, dt)))
    s.check(err is None, 'never fails', err)
    s.check(s.eq(got, listing(defs)), 'the listing', (got, listing(defs)))


@scenario(params={'quick': {'depth': 2}, 'thorough': {'depth': 3}},
          timeout=120)
def documented_types(s):
    """A type with a description has everything the type has."""
    t, _ = a_type(s, 't', s.params['depth'])
    text = s.string('doc', 0, 2, 'ab')
    doc = TypeDoc(t, text)
    s.check(doc.__type__ is t and s.eq(doc.__type_description__, text),
            'the type and its description')
    for name in ('__type_name__', '__item_type__', '__field_types__',
                 '__key_type__', '__value_type__', 'accept', 'nothing_' +
                 s.char('attr', 'ab')):
        missing = object()
        want = getattr(t, name, missing)
        got, err = attempt(lambda: getattr(doc, name))
        if want is missing:
            s.check(isinstance(err, AttributeError), 'no such attribute', err)
        else:
            s.check(err is None and (got is want or got == want),
                    'attribute of the type', (name, err))


@scenario()
def large(s):
    """Many nodes, many fields, deep types; a picked one has a symbolic
    name and a description."""
    kind = s.pick('kind', ('nodes', 'fields', 'data', 'levels', 'root'))
    n = s.pick('size', DEEP if kind == 'levels' else WIDE)
    k = place(s, 'place', n)
    c = s.char('name', 'aBc')
    doc = s.pick('doc', (None, 'x y'))
    names = ['f%d' % i for i in range(n)]
    names[k] = c
    docs = [doc if i == k else None for i in range(n)]
    plain = [GField('p', Integer, None)]
    p = ('p', 'Integer', None)
    defs, dt = [], {}
    rec = ('Record', [(x, 'Integer', d) for x, d in zip(names, docs)])
    fields = [GField(x, Integer, None, description=d)
              for x, d in zip(names, docs)]
    if kind == 'nodes':
        nodes = [GNode(x, plain, description=d) for x, d in zip(names, docs)]
        defs = [(x, ('Record', [p]), d) for x, d in zip(names, docs)]
        nodes.append(Root([]))
    elif kind == 'fields':
        nodes = [GNode('N', fields), Root([])]
        defs = [('N', rec, None)]
    elif kind == 'root':
        nodes = [Root(fields)]
        defs = [(x, 'Integer', d) for x, d in zip(names, docs)]
    elif kind == 'data':
        dt = dict([(x, Sequence[String]) for x in names])
        defs = [(x, ('List', [(None, 'String')]), None) for x in names]
        nodes = [Root([])]
    else:
        t, d = Integer, 'Integer'
        for i in range(n):
            if i % 3 == 0:
                t, d = Sequence[t], ('List', [(None, d)])
            elif i % 3 == 1:
                t, d = Record[[(names[i], t)]], ('Record', [(names[i], d,
                                                             None)])
            else:
                t, d = Mapping[String, t], ('Dict', [(None, 'String'),
                                                     (None, d)])
        nodes = [Root([GField(c, t, None, description=doc)])]
        defs = [(c, d, doc)]
    got, err = attempt(lambda: dumps(Graph(nodes, dt)))
    s.check(err is None, 'never fails', err)
    s.check(s.eq(got, listing(defs)), 'the listing', (got, listing(defs)))
