"""Expressions over a lower-level graph: a generator of expressions, an
evaluator for them which is independent of hiku, and data for them.

Expressions: ('lit', v) ('var', name) ('get', e, field) ('if', t, a, b)
('some', name, e, a, b) ('each', name, e, body) ('call', fn, args)
('list', items) ('dict', [(key, e)])"""
from hiku.expr.core import S, define, if_, if_some, each
from hiku.graph import (Graph, Root, Node as GNode, Field as GField,
                        Link as GLink)
from hiku.types import (TypeRef, Sequence, Optional, Integer, Record, Any)

# kind of every field: int, ints, rec X, opt X, seq X
SCHEMA = {
    'N': {'a': 'int', 'b': 'int', 's': 'ints', 'e': 'rec T', 't': 'seq T',
          'u': 'opt T', 'r': 'rec M', 'q': 'opt M', 'l': 'seq M'},
    'M': {'a': 'int', 'b': 'int', 'n': 'rec N', 'k': 'opt N'},
    'T': {'a': 'int', 'b': 'int'},
    'root': {'x': 'int', 'y': 'rec T', 'z': 'seq M', 'o': 'opt M'},
}
LINKS = {('N', 'r'), ('N', 'q'), ('N', 'l'), ('M', 'n'), ('M', 'k'),
         ('root', 'z'), ('root', 'o')}
TYPE = {'rec': lambda t: TypeRef[t], 'opt': lambda t: Optional[TypeRef[t]],
        'seq': lambda t: Sequence[TypeRef[t]]}


def hiku_type(kind):
    if kind == 'int':
        return Integer
    if kind == 'ints':
        return Sequence[Integer]
    k, t = kind.split()
    return TYPE[k](t)


def low_graph(loaders=None):
    """The lower-level graph; loaders: (node, name) -> function."""
    def func(node, name):
        return loaders(node, name) if loaders else None

    def items(node):
        out = []
        for name, kind in SCHEMA[node].items():
            if (node, name) in LINKS:
                out.append(GLink(name, hiku_type(kind), func(node, name),
                                 requires=None if node == 'root' else 'id'))
            else:
                out.append(GField(name, hiku_type(kind), func(node, name)))
        if node != 'root':
            out.append(GField('id', Integer, func(node, 'id')))
        return out
    return Graph([GNode('N', items('N')), GNode('M', items('M')),
                  Root(items('root'))],
                 data_types={'T': Record[{'a': Integer, 'b': Integer}]})


# -- data

class Rec:
    """A record, whose values are arbitrary and found on demand."""

    def __init__(self, data, node, path):
        self.data = data
        self.node = node
        self.path = path

    def __getitem__(self, name):
        kind = SCHEMA[self.node][name]
        self.data.reads.append((self.path, name))
        return self.data.value(kind, '%s.%s' % (self.path, name))

    def __repr__(self):
        return '<%s>' % self.path


class Data:
    """A tree of data, independent of each other."""

    def __init__(self, s, max_len=2, tag=''):
        self.s = s
        self.max_len = max_len
        self.memo = {}
        self.reads = []
        self.tag = tag

    def value(self, kind, path):
        if path not in self.memo:
            self.memo[path] = self.make(kind, path)
        return self.memo[path]

    def make(self, kind, path):
        s = self.s
        p = self.tag + path
        if kind == 'int':
            return s.int(p, 0, 3)
        if kind == 'ints':
            return [s.int('%s[%d]' % (p, i), 0, 3)
                    for i in range(s.choice(p + '.len', self.max_len + 1))]
        k, t = kind.split()
        if k == 'opt':
            if s.choice(p + '.none', 2):
                return None
            return Rec(self, t, path)
        if k == 'seq':
            return [Rec(self, t, '%s[%d]' % (path, i))
                    for i in range(s.choice(p + '.len', self.max_len + 1))]
        return Rec(self, t, path)

    def root(self):
        return Rec(self, 'root', 'ctx')

    def this(self, node='N'):
        return Rec(self, node, 'this')


# -- functions which expressions call

class Functions:
    """Functions with logs; 'f' and 'g' take values of any type, 'h' a record
    with a, 'j' a sequence of records with b, 'w' an optional record."""

    def __init__(self, s):
        self.s = s
        self.log = []
        log = self.log

        @define(Any)
        def f(a):
            log.append('f')
            return s.uf('f', self.flat(a))

        @define(Any, Any)
        def g(a, b):
            log.append('g')
            return s.uf('g', self.flat(a), self.flat(b))

        @define(Record[{'a': Integer}])
        def h(r):
            log.append('h')
            return s.uf('h', r['a'])

        @define(Sequence[Record[{'b': Integer}]], Any)
        def j(rs, v):
            log.append('j')
            return s.uf('j', [r['b'] for r in rs], self.flat(v))

        @define(Optional[Record[{'b': Integer, 'a': Integer}]])
        def w(r):
            log.append('w')
            return s.uf('w', -1 if r is None else r['a'],
                        -1 if r is None else r['b'])
        self.fns = {'f': f, 'g': g, 'h': h, 'j': j, 'w': w}

    def flat(self, v):
        if isinstance(v, Rec):
            return v.path
        if isinstance(v, list):
            return [self.flat(x) for x in v]
        if isinstance(v, dict):
            return [[k, self.flat(x)] for k, x in v.items()]
        if v is None:
            return -7
        return v


def to_hiku(e, fns):
    k = e[0]
    if k == 'lit':
        return e[1]
    if k == 'var':
        return getattr(S, e[1])
    if k == 'get':
        return getattr(to_hiku(e[1], fns), e[2])
    if k == 'if':
        return if_(*[to_hiku(x, fns) for x in e[1:]])
    if k == 'some':
        return if_some([getattr(S, e[1]), to_hiku(e[2], fns)],
                       to_hiku(e[3], fns), to_hiku(e[4], fns))
    if k == 'each':
        return each(getattr(S, e[1]), to_hiku(e[2], fns), to_hiku(e[3], fns))
    if k == 'call':
        return fns[e[1]](*[to_hiku(x, fns) for x in e[2]])
    if k == 'list':
        return [to_hiku(x, fns) for x in e[1]]
    if k == 'dict':
        return {n: to_hiku(x, fns) for n, x in e[1]}
    raise TypeError(e)


def evaluate(e, scope, root, fns):
    """The value of an expression."""
    k = e[0]
    if k == 'lit':
        return e[1]
    if k == 'var':
        return scope[e[1]] if e[1] in scope else root[e[1]]
    if k == 'get':
        return evaluate(e[1], scope, root, fns)[e[2]]
    if k == 'if':
        if evaluate(e[1], scope, root, fns):
            return evaluate(e[2], scope, root, fns)
        return evaluate(e[3], scope, root, fns)
    if k == 'some':
        v = evaluate(e[2], scope, root, fns)
        if v is not None:
            return evaluate(e[3], dict(scope, **{e[1]: v}), root, fns)
        return evaluate(e[4], scope, root, fns)
    if k == 'each':
        return [evaluate(e[3], dict(scope, **{e[1]: v}), root, fns)
                for v in evaluate(e[2], scope, root, fns)]
    if k == 'call':
        return fns[e[1]].__def_body__(
            *[evaluate(x, scope, root, fns) for x in e[2]])
    if k == 'list':
        return [evaluate(x, scope, root, fns) for x in e[1]]
    if k == 'dict':
        return {n: evaluate(x, scope, root, fns) for n, x in e[1]}
    raise TypeError(e)


def may_read(e, this='N', options=()):
    """Paths of everything an evaluation can read: set of tuples, first of
    them 'this' or the name of a root field."""
    out = set()

    def rec_of(kind):
        return kind.split()[1] if kind and ' ' in kind else None

    def whole(path, node, names):
        for n in names:
            out.add(path + (n,))

    def go(e, scope):
        """(path, kind) of the value, if it is a part of the data."""
        k = e[0]
        if k == 'lit':
            return None
        if k == 'var':
            if e[1] in scope:
                return scope[e[1]]
            out.add((e[1],))
            return ((e[1],), SCHEMA['root'][e[1]])
        if k == 'get':
            path, kind = go(e[1], scope)
            p = path + (e[2],)
            out.add(p)
            return (p, SCHEMA[rec_of(kind)][e[2]])
        if k == 'if':
            for x in e[1:]:
                go(x, scope)
            return None
        if k in ('some', 'each'):
            path, kind = go(e[2], scope)
            if k == 'some' and ' ' in kind:
                kind = 'rec ' + rec_of(kind) if kind[:3] == 'opt' else kind
            elif k == 'each':
                kind = ('int' if kind == 'ints' else 'rec ' + rec_of(kind))
            go(e[3], dict(scope, **{e[1]: (path, kind)}))
            if k == 'some':
                go(e[4], scope)
            return None
        if k == 'call':
            for i, x in enumerate(e[2]):
                v = go(x, scope)
                names = {('h', 0): 'a', ('j', 0): 'b', ('w', 0): 'ab'}.get(
                    (e[1], i))
                if names and v:
                    whole(v[0], rec_of(v[1]), names)
            return None
        if k == 'list':
            for x in e[1]:
                go(x, scope)
            return None
        for _, x in e[1]:
            go(x, scope)
        return None
    scope = {n: None for n in options}
    scope['this'] = (('this',), 'rec ' + this)
    top = go(e, scope)
    return out


def names_of(e):
    """Names of variables bound in an expression."""
    out = set()
    if isinstance(e, (tuple, list)):
        if e and e[0] in ('some', 'each') and len(e) > 2:
            out.add(e[1])
        for x in e:
            out |= names_of(x)
    return out


# -- generator

class Gen:
    """Expressions which are well formed: a chain of constructs, one inside
    of the other, at any place, whose other parts are simple."""

    def __init__(self, s, names, constructs=('if', 'some', 'each', 'call',
                                             'list', 'dict'), rich=False):
        self.s = s
        self.names = names
        self.constructs = constructs
        self.rich = rich
        self.n = 0

    def pick(self, what, values):
        self.n += 1
        return self.s.pick('%s%d' % (what, self.n), list(values))

    def recs(self, scope):
        """Expressions for records in scope."""
        out = [(('var', n), k.split()[1]) for n, k in sorted(scope.items())
               if k.startswith('rec ')]
        return out

    def paths(self, scope, kinds, ints=True):
        """Expressions of some kinds: fields of the records in scope, root
        fields, variables."""
        out = []
        for n, k in sorted(scope.items()):
            if k.split()[0] in kinds:
                out.append((('var', n), k))
        for r, node in self.recs(scope):
            for f, k in SCHEMA[node].items():
                if k.split()[0] in kinds:
                    out.append((('get', r, f), k))
                elif self.rich and k.startswith('rec '):
                    for f2, k2 in SCHEMA[k.split()[1]].items():
                        if k2.split()[0] in kinds:
                            out.append((('get', ('get', r, f), f2), k2))
        return out

    def simple(self, scope, i=0):
        """Something simple without a choice."""
        c = [e for e, _ in self.paths(scope, ('int',))
             if e[0] == 'get' and e[2] == 'b']
        return c[i % len(c)] if c else ('lit', i)

    def leaf(self, scope):
        c = [e for e, _ in self.paths(scope, ('int',))]
        return self.pick('leaf', c) if c else ('lit', 5)

    def gen(self, depth, scope):
        if not depth:
            return self.leaf(scope)
        k = self.pick('k', self.constructs)
        if k == 'if':
            at = self.pick('at', (1, 2, 3))
            parts = ['if', self.simple(scope),
                     ('call', 'f', [self.simple(scope)]),
                     ('call', 'f', [('lit', 1)])]
            parts[at] = self.gen(depth - 1, scope)
            return tuple(parts)
        if k in ('some', 'each'):
            kinds = ('opt',) if k == 'some' else ('seq', 'ints')
            ps = self.paths(scope, kinds)
            if not ps:
                return self.leaf(scope)
            bind, kind = self.pick('bind', ps)
            name = self.pick('name', self.names)
            inner = 'int' if kind == 'ints' else 'rec ' + kind.split()[1]
            if k == 'each':
                return ('each', name, bind,
                        self.gen(depth - 1, dict(scope, **{name: inner})))
            if self.pick('at', (0, 1)):
                return ('some', name, bind, ('lit', 3),
                        self.gen(depth - 1, scope))
            return ('some', name, bind,
                    self.gen(depth - 1, dict(scope, **{name: inner})),
                    ('call', 'f', [self.simple(scope)]))
        if k == 'call':
            return self.call(depth, scope)
        sub = self.gen(depth - 1, scope)
        if k == 'list':
            return ('list', [self.simple(scope), sub])
        return ('dict', [('j', sub), ('i', ('lit', None))])

    def call(self, depth, scope):
        recs = self.paths(scope, ('rec',))
        fns = ['f', 'g']
        if recs:
            fns += ['h', 'w']
        seqs = [p for p in self.paths(scope, ('seq',))]
        if seqs:
            fns += ['j']
        f = self.pick('fn', fns)
        if f == 'f':
            return ('call', 'f', [self.gen(depth - 1, scope)])
        if f == 'g':
            return ('call', 'g', [self.simple(scope),
                                  self.gen(depth - 1, scope)])
        if f == 'h':
            return ('call', 'h', [self.pick('arg', recs)[0]])
        if f == 'w':
            opts = self.paths(scope, ('opt', 'rec'))
            return ('call', 'w', [self.pick('arg', opts)[0]])
        return ('call', 'j', [self.pick('arg', seqs)[0],
                              self.gen(depth - 1, scope)])
