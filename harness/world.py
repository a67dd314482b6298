"""A small graph whose loaders answer with uninterpreted functions, a naive
reference evaluator for it, and a query generator."""
from hiku.graph import (Graph, Root, Node, Field, Link, Option, Nothing)
from hiku.types import (TypeRef, Sequence, Optional, Integer, Record, Any)
from hiku import query as Q

IDS = (0, 2)        # domain of identifiers


def attempt(fn):
    """(value, None) or (None, exception)."""
    try:
        return fn(), None
    except Exception as e:
        return None, e


class World:
    """nodes R (root), N, M.  Field values and link targets are arbitrary
    functions of (node, name, options, identifier)."""

    def __init__(self, s, max_len=2, ids=IDS, log=None):
        self.s = s
        self.default = 7
        self.max_len = max_len
        self.ids = ids
        self.log = log if log is not None else []

    # -- the data, as mathematical functions

    def value(self, node, name, options, ident):
        return self.s.uf('val', node, name, options or {}, ident, lo=0, hi=99)

    def record(self, node, name, options, ident):
        s = self.s
        return {'x': s.uf('rx', node, name, options or {}, ident),
                'y': s.uf('ry', node, name, options or {}, ident)}

    def target(self, node, name, options, ident):
        """Identifier(s) a link leads to: One -> id, Maybe -> id or Nothing,
        Many -> list of ids."""
        s = self.s
        lo, hi = self.ids
        key = (node, name, options or {}, ident)
        kind = KIND[name]
        if kind == 'one':
            return s.uf('to', *key, 0, lo=lo, hi=hi)
        if kind == 'maybe':
            if s.uf_bool('none', *key):
                return Nothing
            return s.uf('to', *key, 0, lo=lo, hi=hi)
        n = s.concrete(s.uf('len', *key, lo=0, hi=self.max_len))
        return [s.uf('to', *key, i, lo=lo, hi=hi) for i in range(n)]


# link names: one-character names so that they can be symbolic
KIND = {'l': 'many', 'm': 'maybe', 'o': 'one', 'p': 'many', 'q': 'many',
        'n': 'one', 'k': 'maybe', 'r': 'many', 'v': 'maybe'}
LINK_NODE = {'l': 'N', 'm': 'N', 'o': 'M', 'p': 'M', 'q': 'N', 'n': 'M',
             'k': 'N', 'r': 'M', 'v': 'M'}
# links with an option x, links which do not require a field
LINK_OPT = {'p', 'q'}
NO_REQ = {'n', 'r', 'v'}
FIELD_OPT = {'c', 'd'}
TYPES = {'many': lambda n: Sequence[TypeRef[n]],
         'maybe': lambda n: Optional[TypeRef[n]],
         'one': lambda n: TypeRef[n]}

REC = Record[{'x': Integer, 'y': Integer}]


def make_graph(w, default=7):
    """Graph with root fields a b c(x) e{x y}; nodes N and M with fields
    a b d(x) g and links."""
    log = w.log
    w.default = default

    def root_f(fields):
        log.append(('root_f', [(f.name, f.options) for f in fields], None))
        return [w.value('R', f.name, f.options, -1) for f in fields]

    def root_g(fields):
        log.append(('root_g', [(f.name, f.options) for f in fields], None))
        return [w.value('R', f.name, f.options, -1) for f in fields]

    def root_rec(fields):
        log.append(('root_rec', [(f.name, f.options) for f in fields], None))
        return [w.record('R', f.name, f.options, -1) for f in fields]

    def fields_fn(node, nm):
        def fn(fields, ids):
            log.append((nm, [(f.name, f.options) for f in fields], list(ids)))
            return [[w.value(node, f.name, f.options, i) for f in fields]
                    for i in ids]
        return fn

    def rec_fn(node, nm):
        def fn(fields, ids):
            log.append((nm, [(f.name, f.options) for f in fields], list(ids)))
            return [[w.record(node, f.name, f.options, i) for f in fields]
                    for i in ids]
        return fn

    def root_link(name):
        if name in LINK_OPT:
            def fn(options):
                log.append(('link', ('R', name, options), None))
                return w.target('R', name, options, -1)
        else:
            def fn():
                log.append(('link', ('R', name, None), None))
                return w.target('R', name, None, -1)
        return fn

    def node_link(node, name):
        if name in NO_REQ:
            def fn():
                log.append(('link', (node, name, None), None))
                return w.target(node, name, None, -1)
        elif name in LINK_OPT:
            def fn(ids, options):
                log.append(('link', (node, name, options), list(ids)))
                return [w.target(node, name, options, i) for i in ids]
        else:
            def fn(ids):
                log.append(('link', (node, name, None), list(ids)))
                return [w.target(node, name, None, i) for i in ids]
        return fn

    def opts(name):
        return [Option('x', Integer, default=default)]

    def link(node, name):
        kind = KIND[name]
        return Link(name, TYPES[kind](LINK_NODE[name]),
                    root_link(name) if node == 'R' else node_link(node, name),
                    requires=(None if node == 'R' or name in NO_REQ else 'a'),
                    options=opts(name) if name in LINK_OPT else None)

    def node(name, links):
        f1 = fields_fn(name, name + '_f')
        f2 = fields_fn(name, name + '_g')
        f3 = rec_fn(name, name + '_rec')
        return Node(name, [
            Field('a', Integer, f1),
            Field('b', Integer, f1),
            Field('g', Integer, f2),
            Field('d', Integer, f2, options=opts('d')),
            Field('e', TypeRef['T'], f3),
        ] + [link(name, x) for x in links])

    return Graph([
        node('N', 'lmoqnrv'),
        node('M', 'lmk'),
        Root([
            Field('a', Integer, root_f),
            Field('b', Integer, root_g),
            Field('c', Integer, root_f, options=opts('c')),
            Field('e', TypeRef['T'], root_rec),
        ] + [link('R', x) for x in 'lmop']),
    ], data_types={'T': REC})


FIELDS = {'R': 'abc', 'N': 'abgd', 'M': 'abgd'}
LINKS = {'R': 'lmop', 'N': 'lmoqnrv', 'M': 'lmk'}


def options_of(item, default=7):
    """Effective options: what the query says, else the declared default."""
    if item.name in FIELD_OPT or item.name in LINK_OPT:
        if item.options is not None and 'x' in item.options:
            return {'x': item.options['x']}
        return {'x': default}
    return None


def reference(w, node, ident, qnode):
    """What the query means, one object at a time: no batching, no index."""
    out = {}
    for f in qnode.fields:
        key = f.alias if f.alias is not None else f.name
        if isinstance(f, Q.Field):
            if f.name == 'e':
                v = w.record(node, 'e', None, ident)
            else:
                v = w.value(node, f.name, options_of(f, w.default), ident)
        elif f.name == 'e':
            rec = w.record(node, 'e', None, ident)
            v = {}
            for g in f.node.fields:
                v[g.alias if g.alias is not None else g.name] = rec[g.name]
        else:
            name = f.name
            src = -1 if node == 'R' or name in NO_REQ else \
                w.value(node, 'a', None, ident)
            t = w.target(node, name, options_of(f, w.default), src)
            to = LINK_NODE[name]
            if KIND[name] == 'one':
                v = reference(w, to, t, f.node)
            elif KIND[name] == 'maybe':
                v = None if t is Nothing else reference(w, to, t, f.node)
            else:
                v = [reference(w, to, i, f.node) for i in t]
        out[key] = v
    return out


def read_proxy(s, proxy, qnode):
    """The normalised result, read through its public item access."""
    out = {}
    for f in qnode.fields:
        key = f.alias if f.alias is not None else f.name
        v = proxy[key]
        if isinstance(f, Q.Link) and f.name != 'e':
            if v is None:
                pass
            elif isinstance(v, list):
                v = [read_proxy(s, x, f.node) for x in v]
            else:
                v = read_proxy(s, v, f.node)
        elif isinstance(f, Q.Link):
            raw = v
            v = {}
            for g in f.node.fields:
                v[g.alias if g.alias is not None else g.name] = raw[g.name]
        out[key] = v
    return out
