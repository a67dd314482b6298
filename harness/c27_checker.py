"""C27: expressions accepted by the checker do not fail on conforming data."""
from symx.session import scenario
from hiku.expr.core import S, define, if_, if_some, each, to_expr, THIS
from hiku.expr.checker import check, fn_types
from hiku.expr.compiler import ExpressionCompiler
from hiku.expr.nodes import Tuple, Symbol, List, Keyword, Dict
from hiku.expr.refs import RequirementsExtractor
from hiku.graph import Graph, Root, Node as GNode, Field as GField
from hiku.sources.graph import SubGraph
from hiku.types import (TypeRef, Sequence, Optional, Mapping, Integer, String,
                        Boolean, Float, Record, Any)
from harness.world import attempt
from harness.sizes import place
from harness.exprs import (Data, Functions, SCHEMA, low_graph, to_hiku,
                           evaluate)

ASSUMPTIONS = ['functions read of their arguments what is declared for them',
               'expressions which could be evaluated may be refused']
BOUNDS = ('expressions of up to 2 constructs (thorough: 3) with arbitrary '
          'names of fields and variables, at any place; types of depth 3')

GRAPH = low_graph()


class Ill(Exception):
    """The expression is refused for a reason which is documented."""


class Names:
    """Arbitrary expressions over a few names."""

    def __init__(self, s, rich):
        self.s = s
        self.n = 0
        self.rich = rich

    def pick(self, what, values):
        self.n += 1
        return self.s.pick('%s%d' % (what, self.n), values)

    def path(self, depth):
        """A variable or fields of it."""
        e = ('var', self.pick('var', ('this', 'x', 'z', 'o', 'v', 'p',
                                      'nope')))
        for i in range(depth):
            f = self.pick('field', ('-', 'a', 's', 'r', 'q', 'l', 'zz'))
            if f == '-':
                break
            e = ('get', e, f)
        return e

    def expr(self, depth):
        if not depth:
            return self.path(2)
        k = self.pick('k', ('get', 'if', 'some', 'each', 'call', 'list'))
        if k == 'get':
            return ('get', self.expr(depth - 1), 'a')
        if k == 'if':
            return ('if', ('get', ('var', 'this'), 'a'),
                    self.expr(depth - 1), ('lit', 1))
        if k == 'some':
            return ('some', 'v', self.path(1), self.inner(depth),
                    ('lit', 0))
        if k == 'each':
            return ('each', 'v', self.path(1), self.inner(depth))
        if k == 'call':
            fn = self.pick('fn', ('f', 'h', 'j', 'w', 'g'))
            n = self.pick('args', (0, 1, 2)) if self.rich else (
                2 if fn in 'jg' else 1)
            args = [self.expr(depth - 1)] + [('lit', 1)] * (n - 1)
            return ('call', fn, args[:n])
        return ('list', [('var', 'x'), self.expr(depth - 1)])

    def inner(self, depth):
        """An expression about the variable."""
        if depth > 1:
            return self.expr(depth - 1)
        e = ('var', self.pick('ivar', ('v', 'x', 'this', 'nope')))
        f = self.pick('ifield', ('-', 'a', 'zz', 'n'))
        return e if f == '-' else ('get', e, f)


ARGS = {'f': 1, 'g': 2, 'h': 1, 'j': 2, 'w': 1}


def kind_of(e, scope):
    """Kind of the value of an expression; None if it is not a part of the
    data; Ill if it is one of those which have to be refused."""
    k = e[0]
    if k == 'lit':
        return None
    if k == 'var':
        if e[1] not in scope:
            raise Ill('undefined variable')
        return scope[e[1]]
    if k == 'get':
        t = kind_of(e[1], scope)
        if t is None or not t.startswith('rec '):
            raise Ill('not a record')
        fields = SCHEMA[t.split()[1]]
        if e[2] not in fields:
            raise Ill('unknown field')
        return fields[e[2]]
    if k == 'if':
        for x in e[1:]:
            kind_of(x, scope)
        return None
    if k == 'some':
        t = kind_of(e[2], scope)
        if t is not None and t.startswith('opt '):
            t = 'rec ' + t[4:]
        kind_of(e[3], dict(scope, **{e[1]: t}))
        kind_of(e[4], scope)
        return None
    if k == 'each':
        t = kind_of(e[2], scope)
        if t is not None and t.startswith('seq '):
            t = 'rec ' + t[4:]
        elif t == 'ints':
            t = 'int'
        else:
            raise Ill('not a sequence')
        kind_of(e[3], dict(scope, **{e[1]: t}))
        return None
    if k == 'call':
        ts = [kind_of(x, scope) for x in e[2]]
        if len(ts) != ARGS[e[1]]:
            raise Ill('number of arguments')
        t = ts[0]
        fields = SCHEMA.get(t.split()[1], {}) if t and ' ' in t else {}
        if e[1] == 'h' and not (t and t.startswith('rec ') and
                                'a' in fields):
            raise Ill('argument')
        if e[1] == 'j' and not (t and t.startswith('seq ') and
                                'b' in fields):
            raise Ill('argument')
        if e[1] == 'w' and not (t and t[:4] in ('rec ', 'opt ') and
                                'a' in fields and 'b' in fields):
            raise Ill('argument')
        return None
    for x in e[1]:
        kind_of(x, scope)
    return None


def compiled(expr, options):
    e, funcs = to_expr(expr)
    env = fn_types(funcs)
    env.update(GRAPH.__types__['__root__'].__field_types__)
    env.update((o, Any) for o in options)
    env[THIS] = TypeRef['N']
    e = check(e, GRAPH.__types__, env)
    return e, funcs


@scenario(params={'quick': {'depth': 1, 'rich': False},
                  'thorough': {'depth': 2, 'rich': True}},
          covers=('refused', 'accepted'), timeout=600)
def arbitrary(s):
    """Arbitrary expressions."""
    fns = Functions(s)
    ast = Names(s, s.params['rich']).expr(s.params['depth'])
    scope = dict(SCHEMA['root'], this='rec N', p='any')
    reason = None
    try:
        kind_of(ast, scope)
    except Ill as e:
        reason = e.args[0]
    got, err = attempt(lambda: compiled(to_hiku(ast, fns.fns), ['p']))
    if reason is not None:
        s.cover('refused')
        s.check(err is not None, 'refused', (ast, reason))
        return
    if err is not None:
        return
    s.cover('accepted')
    e, funcs = got
    RequirementsExtractor.extract(GRAPH.__types__, e)
    code = ExpressionCompiler.compile_lambda_expr(e, ['p'])
    proc = eval(compile(code, '<expr>', 'eval'))
    data = Data(s, 1)
    _, err = attempt(lambda: proc(
        {f.__def_name__: f.__def_body__ for f in funcs}, data.this(),
        data.root(), s.int('p', 0, 3)))
    s.check(err is None, 'evaluates without an error', (ast, err))


@scenario(params={'quick': {'depth': 2, 'len': 1},
                  'thorough': {'depth': 3, 'len': 1}}, timeout=300)
def well_formed(s):
    """Well formed expressions are accepted and evaluate."""
    from harness.exprs import Gen
    fns = Functions(s)
    gen = Gen(s, ('v', 'x'), ('if', 'some', 'each', 'call', 'list'))
    scope = {n: k for n, k in SCHEMA['root'].items() if n in 'xo'}
    scope['this'] = 'rec N'
    ast = gen.gen(s.params['depth'], scope)
    got, err = attempt(lambda: compiled(to_hiku(ast, fns.fns), []))
    s.check(err is None, 'accepted', (ast, err))
    e, funcs = got
    proc = eval(compile(ExpressionCompiler.compile_lambda_expr(e), '<expr>',
                        'eval'))
    data = Data(s, s.params['len'])
    _, err = attempt(lambda: proc(
        {f.__def_name__: f.__def_body__ for f in funcs}, data.this(),
        data.root()))
    s.check(err is None, 'evaluates without an error', (ast, err))


@scenario(covers=('refused', 'accepted'))
def scopes(s):
    """A variable is what it is bound to in one part of the expression only;
    elsewhere it is what the name is outside, if it is anything."""
    fns = Functions(s)
    v = s.pick('bound', ('v', 'x', 'z', 'p'))
    src = ('var', s.pick('source', ('x', 'z', 'o')))

    def read(p):
        e = ('var', s.pick(p, ('v', 'x', 'z', 'p')))
        f = s.pick(p + '.field', ('-', 'a', 'n'))
        return e if f == '-' else ('get', e, f)
    what = s.pick('construct', ('some', 'each'))
    inside = ('lit', 1) if s.choice('plain', 2) else ('var', v)
    where = s.pick('where', ('else', 'before', 'after', 'argument', 'source',
                             'if', 'twice'))
    out = read('outside')
    if what == 'each':
        e = ('each', v, src, inside)
    else:
        e = ('some', v, src, inside, out if where == 'else' else ('lit', 0))
    if where == 'before':
        e = ('list', [out, e])
    elif where == 'after':
        e = ('list', [e, out])
    elif where == 'argument':
        e = ('call', 'g', [e, out])
    elif where == 'source':
        e = ('some', v, out, inside, e)
    elif where == 'if':
        e = ('if', ('get', ('var', 'this'), 'a'), e, out)
    elif where == 'twice':
        e = ('some', 'w', ('var', 'o'), e, out)
    scope = dict(SCHEMA['root'], this='rec N', p='any')
    reason = None
    try:
        kind_of(e, scope)
    except Ill as err:
        reason = err.args[0]
    got, err = attempt(lambda: compiled(to_hiku(e, fns.fns), ['p']))
    if reason is not None:
        s.cover('refused')
        s.check(err is not None, 'refused', (e, reason))
        return
    if err is not None:
        return
    s.cover('accepted')
    expr, funcs = got
    code = ExpressionCompiler.compile_lambda_expr(expr, ['p'])
    proc = eval(compile(code, '<expr>', 'eval'))
    data = Data(s, 1)
    _, err = attempt(lambda: proc(
        {f.__def_name__: f.__def_body__ for f in funcs}, data.this(),
        data.root(), s.int('p', 0, 3)))
    s.check(err is None, 'evaluates without an error', (e, err))


# -- arguments of functions

PLAIN = (Integer, String, Boolean, Float, Any)


def a_type(s, label, depth, kinds=None):
    """A type, and a term for it."""
    k = s.pick(label, kinds or (('plain', 'rec') if not depth else
                                ('plain', 'rec', 'seq', 'opt', 'map',
                                 'ref')))
    if k == 'plain':
        i = s.choice(label + '.p', 3)
        t = (Integer, String, Any)[i]
        return t, ('plain', t)
    if k == 'ref':
        n = s.pick(label + '.ref', ('A', 'B'))
        return TypeRef[n], ('ref', n)
    if k == 'rec':
        fs = []
        for f in ('f', 'g'):
            if s.choice('%s.has %s' % (label, f), 2):
                if depth and f == 'f':
                    fs.append((f,) + a_type(s, '%s.%s' % (label, f),
                                            depth - 1))
                else:
                    fs.append((f, Integer, ('plain', Integer)))
        return (Record[[(n, t) for n, t, _ in fs]],
                ('rec', {n: t for n, _, t in fs}))
    if k == 'map':
        t, m = a_type(s, label + '.v', depth - 1)
        k = (String, Integer, Any)[s.choice(label + '.key', 3)]
        return Mapping[k, t], ('map', m, ('plain', k))
    t, m = a_type(s, label + '.' + k, depth - 1)
    return ((Sequence[t], ('seq', m)) if k == 'seq' else
            (Optional[t], ('opt', m)))


REFS = {'A': ('rec', {'f': ('plain', Integer), 'g': ('seq', ('ref', 'B'))}),
        'B': ('rec', {'f': ('plain', Integer)})}


def fits(given, wanted):
    """Every value of the first type is one of the second."""
    if given[0] == 'ref':
        given = REFS[given[1]]
    if wanted[0] == 'ref':
        wanted = REFS[wanted[1]]
    if wanted == ('plain', Any):
        return True
    if wanted[0] == 'opt':
        if given[0] == 'opt':
            return fits(given[1], wanted[1])
        return fits(given, wanted[1])
    if given[0] != wanted[0]:
        return False
    if given[0] == 'plain':
        return given[1] is wanted[1]
    if given[0] in ('seq', 'map'):
        return all(fits(x, y) for x, y in zip(given[1:], wanted[1:]))
    return all(n in given[1] and fits(given[1][n], w)
               for n, w in wanted[1].items())


def a_tower(s, label, n):
    """Wrappers around a record or a plain type."""
    if s.choice(label + '.base', 2):
        t, m = Integer, ('plain', Integer)
    elif s.choice(label + '.ref', 2):
        t, m = TypeRef['B'], ('ref', 'B')
    else:
        t = Record[{'f': Integer}]
        m = ('rec', {'f': ('plain', Integer)})
    for i in range(n):
        k = s.pick('%s.%d' % (label, i), ('-', 'seq', 'opt', 'map', 'rec'))
        if k == 'seq':
            t, m = Sequence[t], ('seq', m)
        elif k == 'opt':
            t, m = Optional[t], ('opt', m)
        elif k == 'map':
            t, m = Mapping[String, t], ('map', m, ('plain', String))
        elif k == 'rec':
            t, m = Record[{'f': t}], ('rec', {'f': m})
        else:
            break
    return t, m


@scenario(params={'quick': {'n': 2}, 'thorough': {'n': 3}},
          covers=('fits', 'does not'))
def wrapped_arguments(s):
    """Sequences of optional things, optional sequences and so on, on both
    sides."""
    t1, m1 = a_tower(s, 'given', s.params['n'])
    t2, m2 = a_tower(s, 'wanted', s.params['n'])
    types = {'B': Record[{'f': Integer}]}

    @define(t2)
    def fn(arg):
        raise NotImplementedError
    expr, funcs = to_expr(fn(S.it))
    env = fn_types(funcs)
    env['it'] = t1
    _, err = attempt(lambda: check(expr, types, env))
    if fits(m1, m2):
        s.cover('fits')
        s.check(err is None, 'accepted', (t1, t2, err))
    else:
        s.cover('does not')
        s.check(err is not None, 'refused', (t1, t2))


@scenario(params={'quick': {'depth': 1, 'other': 1},
                  'thorough': {'depth': 2, 'other': 1}},
          covers=('fits', 'does not'))
def arguments(s):
    """A value is accepted for an argument if its type fits, and only then;
    literals and results of other expressions have no known type."""
    t1, m1 = a_type(s, 'given', s.params['depth'])
    t2, m2 = a_type(s, 'wanted', s.params['other'])
    types = {'A': Record[{'f': Integer, 'g': Sequence[TypeRef['B']]}],
             'B': Record[{'f': Integer}]}

    @define(t2)
    def fn(arg):
        raise NotImplementedError
    expr, funcs = to_expr(fn(S.it))
    env = fn_types(funcs)
    env['it'] = t1
    _, err = attempt(lambda: check(expr, types, env))
    if fits(m1, m2):
        s.cover('fits')
        s.check(err is None, 'accepted', (t1, t2, err))
    else:
        s.cover('does not')
        s.check(err is not None, 'refused', (t1, t2))
    opt = s.pick('value', ('literal', 'list', 'if'))
    val = {'literal': 1, 'list': [1], 'if': if_(1, 2, 3)}[opt]
    expr, funcs = to_expr(fn(val))
    _, err = attempt(lambda: check(expr, types, fn_types(funcs)))
    if m2 == ('plain', Any):
        s.check(err is None, 'accepted', (t2, err))
    elif m2[0] in ('rec', 'ref', 'map'):
        s.check(err is not None, 'refused', t2)


@scenario(covers=('fits', 'does not'), timeout=200)
def many_arguments(s):
    """Every argument of a function is checked, wherever the call is."""
    n = s.pick('n', (1, 2, 3, 4, 5, 9, 33))
    k = place(s, 'place', n)
    typ = {'i': (Integer, ('plain', Integer)),
           's': (Sequence[Integer], ('seq', ('plain', Integer))),
           'r': (Record[{'f': Integer}], ('rec', {'f': ('plain', Integer)})),
           'o': (Optional[TypeRef['B']], ('opt', ('ref', 'B')))}
    given, wanted = s.pick('given', tuple(typ)), s.pick('wanted', tuple(typ))
    usual = s.pick('others', ('i', 'o'))
    names = [usual] * n
    want = list(names)
    names[k], want[k] = given, wanted

    @define(*[typ[x][0] for x in want])
    def fn(*args):
        raise NotImplementedError
    call = fn(*[getattr(S, x) for x in names])
    where = s.pick('where', ('alone', 'each', 'some', 'then', 'list', 'arg'))
    if where == 'each':
        call = each(S.q, S.s, call)
    elif where == 'some':
        call = if_some([S.q, S.o], 1, call)
    elif where == 'then':
        call = if_(S.i, call, S.i)
    elif where == 'list':
        call = [S.i, call]
    elif where == 'arg':
        @define(Any)
        def outer(arg):
            raise NotImplementedError
        call = outer(call)
    expr, funcs = to_expr(call)
    env = fn_types(funcs)
    env.update((x, t[0]) for x, t in typ.items())
    types = {'B': Record[{'f': Integer}]}
    _, err = attempt(lambda: check(expr, types, env))
    if fits(typ[given][1], typ[wanted][1]):
        s.cover('fits')
        s.check(err is None, 'accepted', (names, want, err))
    else:
        s.cover('does not')
        s.check(err is not None, 'refused', (names, want))


@scenario(covers=('fits', 'does not'), timeout=200)
def many_fields(s):
    """Every field of a record which is an argument is checked, whatever the
    others are."""
    n = s.pick('n', (1, 2, 3, 9, 33))
    k = place(s, 'place', n)
    typ = {'i': (Integer, ('plain', Integer)),
           's': (Sequence[Integer], ('seq', ('plain', Integer))),
           'm': (Mapping[String, Integer],
                 ('map', ('plain', String), ('plain', Integer))),
           'r': (Record[{'f': Integer}], ('rec', {'f': ('plain', Integer)})),
           'a': (Any, ('plain', Any)),
           'o': (Optional[TypeRef['B']], ('opt', ('ref', 'B')))}
    given = s.pick('given', ('i', 's', 'm', 'r', 'a', 'o', '-'))
    wanted = s.pick('wanted', ('i', 's', 'm', 'r', 'a', 'o', '-'))
    usual = s.pick('others', ('i', 's', 'm', 'r', 'a', 'o'))

    def record(kind):
        names = [(i, usual if i != k else kind) for i in range(n)]
        return Record[[('f%d' % i, typ[x][0]) for i, x in names if x != '-']]
    t1, t2 = record(given), record(wanted)
    around = s.pick('around', ('-', 'seq', 'opt', 'rec', 'map', 'ref'))
    types = {'B': Record[{'f': Integer}]}
    wrap = {'-': lambda t: t, 'seq': lambda t: Sequence[t],
            'opt': lambda t: Optional[t], 'rec': lambda t: Record[{'in': t}],
            'map': lambda t: Mapping[String, t], 'ref': lambda t: t}[around]
    if around == 'ref':
        types.update(G=t1, W=t2)
        t1, t2 = TypeRef['G'], TypeRef['W']

    @define(wrap(t2))
    def fn(arg):
        raise NotImplementedError
    expr, funcs = to_expr(fn(S.it))
    env = fn_types(funcs)
    env['it'] = wrap(t1)
    _, err = attempt(lambda: check(expr, types, env))
    if wanted == '-' or given != '-' and fits(typ[given][1], typ[wanted][1]):
        s.cover('fits')
        s.check(err is None, 'accepted', (t1, t2, err))
    else:
        s.cover('does not')
        s.check(err is not None, 'refused', (t1, t2))
