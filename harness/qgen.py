"""A declared graph, queries over it which may be invalid, and an independent
judgement of what is wrong with a query."""
from hiku.graph import (Graph, Root, Node as GNode, Field as GField, Option,
                        Link as GLink, Nothing)
from hiku.types import (TypeRef, Sequence, Optional, Integer, Record, String)
from hiku.query import Node, Field, Link

# name -> (kind, target, options); kind: 'f' plain field, 'r' record,
# 'l' link; options: name -> (type, has default)
U = {'z': ('f', None), 'v': ('f', None)}
T = {'x': ('f', None), 'y': ('r', 'U'), 'w': ('r*', 'U')}
RECS = {'T': T, 'U': U}
SCHEMA = {
    'R': {'a': ('f', None, {}),
          'c': ('f', None, {'x': ('int', False)}),
          'd': ('f', None, {'y': ('int?', True)}),
          'e': ('r', 'T', {}),
          's': ('r*', 'T', {}),
          'o': ('r?', 'T', {'y': ('int?', True)}),
          'l': ('l*', 'N', {}),
          'm': ('l?', 'N', {'x': ('int', False), 'y': ('int?', True)})},
    'N': {'a': ('f', None, {}),
          'd': ('f', None, {'y': ('int?', True)}),
          'e': ('r', 'T', {}),
          'k': ('l', 'N', {}),
          'n': ('l*', 'N', {'y': ('int?', True)})},
}
NAMES = {'R': 'acdesolmu', 'N': 'adeknu', 'T': 'xywu', 'U': 'zvu'}
RTYPE = {'r': lambda t: TypeRef[t], 'r*': lambda t: Sequence[TypeRef[t]],
         'r?': lambda t: Optional[TypeRef[t]]}
LTYPE = {'l': RTYPE['r'], 'l*': RTYPE['r*'], 'l?': RTYPE['r?']}


def rec_U(s, key, i):
    return {'z': s.uf('z', key, i), 'v': s.uf('v', key, i)}


def rec_T(s, key, many):
    n = many
    return {'x': s.uf('x', key), 'y': rec_U(s, key, 0),
            'w': [rec_U(s, key, 1 + j) for j in range(n)]}


def value_of(s, node, name, ident):
    kind, target, _ = SCHEMA[node][name]
    key = [node, name, ident]
    if kind == 'f':
        return s.uf('f', key)
    if kind == 'r':
        return rec_T(s, key, 1)
    if kind == 'r?':
        if s.uf_bool('none', key):
            return None
        return rec_T(s, key, 0)
    if s.uf_bool('empty', key):
        return []
    return [rec_T(s, key + [0], 2)]


def target_of(s, node, name, ident):
    kind = SCHEMA[node][name][0]
    key = [node, name, ident]
    if kind == 'l':
        return s.uf('to', key, lo=0, hi=1)
    if kind == 'l?':
        if s.uf_bool('none', key):
            return Nothing
        return s.uf('to', key, lo=0, hi=1)
    if s.uf_bool('empty', key):
        return []
    return [s.uf('to', key, lo=0, hi=1)]


def options(spec):
    out = []
    for name, (ty, default) in spec.items():
        t = {'int': Integer, 'int?': Optional[Integer]}[ty]
        if default:
            out.append(Option(name, t, default=None))
        else:
            out.append(Option(name, t))
    return out or None


def make_graph(s):
    def root_f(fields):
        return [value_of(s, 'R', f.name, -1) for f in fields]

    def node_f(fields, ids):
        return [[value_of(s, 'N', f.name, i) for f in fields] for i in ids]

    def root_l(name):
        def fn(*args):
            return target_of(s, 'R', name, -1)
        return fn

    def node_l(name):
        def fn(ids, *args):
            return [target_of(s, 'N', name, i) for i in ids]
        return fn
    nodes = {}
    for node in SCHEMA:
        items = []
        for name, (kind, target, opts) in SCHEMA[node].items():
            if kind == 'f':
                items.append(GField(name, Integer,
                                    root_f if node == 'R' else node_f,
                                    options=options(opts)))
            elif kind[0] == 'r':
                items.append(GField(name, RTYPE[kind](target),
                                    root_f if node == 'R' else node_f,
                                    options=options(opts)))
            elif node == 'R':
                items.append(GLink(name, LTYPE[kind](target), root_l(name),
                                   requires=None, options=options(opts)))
            else:
                items.append(GLink(name, LTYPE[kind](target), node_l(name),
                                   requires='a', options=options(opts)))
        nodes[node] = items
    return Graph([GNode('N', nodes['N']), Root(nodes['R'])], data_types={
        'U': Record[{'z': Integer, 'v': Integer}],
        'T': Record[{'x': Integer, 'y': TypeRef['U'],
                     'w': Sequence[TypeRef['U']]}]})


# -- judgement

def rkey(f):
    return f.alias if f.alias is not None else f.name


def same(s, a, b):
    if isinstance(a, Link) != isinstance(b, Link):
        return False
    return s.all([s.eq(a.name, b.name),
                  s.strict_eq(a.options or None, b.options or None)])


def conflicts(s, qnode):
    out = []
    fs = list(qnode.fields)
    for i in range(len(fs)):
        for j in range(i):
            if rkey(fs[i]) == rkey(fs[j]) and not same(s, fs[i], fs[j]):
                out.append(('conflict', rkey(fs[i])))
    return out


def option_defects(spec, opts):
    out = []
    opts = opts or {}
    for name in opts:
        if name not in spec:
            # may be reported together with others of the same field
            out.append(('unknown option' + '+' * len(out), name))
    for name, (ty, default) in spec.items():
        if name in opts:
            v = opts[name]
            if v is None:
                if ty == 'int':
                    out.append(('option type', name))
            elif not isinstance(v, int):
                out.append(('option type', name))
        elif not default:
            out.append(('missing option', name))
    return out


def record_defects(s, rec, qnode):
    out = conflicts(s, qnode)
    spec = RECS[rec]
    for f in qnode.fields:
        if f.name not in spec:
            out.append(('unknown field', f.name))
            continue
        if f.options is not None:
            out.append(('record options', ''))
        kind, target = spec[f.name]
        if isinstance(f, Link):
            if kind == 'f':
                out.append(('not an object', f.name))
            else:
                out.extend(record_defects(s, target, f.node))
        elif kind != 'f' and f.options is None:
            out.append(('object as a field', f.name))
    return out


def defects(s, node, qnode):
    """What is wrong with the query, as a list of (what, name)."""
    out = conflicts(s, qnode)
    spec = SCHEMA[node]
    for f in qnode.fields:
        if f.name not in spec:
            out.append(('unknown field', f.name))
            continue
        kind, target, opts = spec[f.name]
        if isinstance(f, Link):
            out.extend(option_defects(opts, f.options))
            if kind == 'f':
                out.append(('not an object', f.name))
            elif kind[0] == 'r':
                out.extend(record_defects(s, target, f.node))
            else:
                out.extend(defects(s, target, f.node))
        elif kind[0] == 'l':
            out.append(('object as a field', f.name))
        else:
            out.extend(option_defects(opts, f.options))
    return out


# -- generation

def gen_options(s, p, n=5):
    k = s.choice(p + '.opts', n)
    if k == 0:
        return None
    if k == 1:
        return {'x': s.int(p + '.x', 0, 2)}
    if k == 2:
        return {'y': None if s.choice(p + '.ynull', 2)
                else s.int(p + '.y', 0, 2)}
    if k == 3:
        return {'x': s.int(p + '.x', 0, 2), s.char(p + '.key', 'yz'):
                s.int(p + '.y', 0, 2)}
    return {s.char(p + '.key', 'xy'): s.pick(p + '.bad', ('s', None))}


def gen_field(s, p, node, names=None, opts=5, alias=False):
    return Field(s.char(p, names or NAMES[node]),
                 gen_options(s, p, opts) if opts else None,
                 gen_alias(s, p) if alias else None)


def gen_alias(s, p):
    return s.char(p + '.alias', 'ae') if s.choice(p + '.al', 2) else None


def gen_link(s, p, node, sub, names=None, opts=5, alias=False):
    return Link(s.char(p, names or NAMES[node]), Node(sub),
                gen_options(s, p, opts) if opts else None,
                gen_alias(s, p) if alias else None)


# -- what the query means

def want_record(rec, val, qnode):
    out = {}
    for f in qnode.fields:
        v = val[f.name]
        if isinstance(f, Link):
            kind, target = RECS[rec][f.name]
            if kind == 'r*':
                v = [want_record(target, x, f.node) for x in v]
            else:
                v = want_record(target, v, f.node)
        out[rkey(f)] = v
    return out


def want(s, node, ident, qnode):
    out = {}
    for f in qnode.fields:
        kind, target, _ = SCHEMA[node][f.name]
        if not isinstance(f, Link):
            v = value_of(s, node, f.name, ident)
        elif kind[0] == 'r':
            v = value_of(s, node, f.name, ident)
            if kind == 'r*':
                v = [want_record(target, x, f.node) for x in v]
            elif v is not None:
                v = want_record(target, v, f.node)
        else:
            src = ident
            if node != 'R':
                src = value_of(s, node, 'a', ident)
            t = target_of(s, node, f.name, src)
            if kind == 'l*':
                v = [want(s, target, i, f.node) for i in t]
            elif t is Nothing:
                v = None
            else:
                v = want(s, target, t, f.node)
        out[rkey(f)] = v
    return out
