"""Queries with symbolic names, aliases and options, and their comparison."""
from hiku.query import Node, Field, Link
from harness import vals


def gen(s, p, n, depth, names='ab', alias=True, opts=None, distinct=True):
    """Up to n (at least 1) items; ids of the result keys are distinct."""
    items = []
    keys = []
    k = s.choice(p + '.n', n) + 1
    for i in range(k):
        q = '%s.%d' % (p, i)
        name = s.char(q + '.f', names)
        a = None
        if alias and s.choice(q + '.alias', 2):
            a = s.char(q + '.a', names + 'z')
        key = name if a is None else a
        if distinct:
            for x in keys:
                s.assume(s.not_(s.eq(x, key)))
        keys.append(key)
        o = opts(q + '.o') if opts is not None else None
        if depth and s.choice(q + '.link', 2):
            items.append(Link(name, gen(s, q, n, depth - 1, names, alias,
                                        opts, distinct), o, a))
        else:
            items.append(Field(name, o, a))
    return Node(items)


def options(s, depth=1, kinds='inbsld', maxlen=1, n=1, alphabet='ab'):
    """Generator of options: none, empty, or with some values."""
    def fn(p):
        k = s.choice(p + '.opts', 2 + n)
        if k == 0:
            return None
        o = {}
        for i in range(k - 1):
            q = '%s.%d' % (p, i)
            key = s.char(q + '.key', 'op')
            if key in o:
                s.assume(False)
            o[key] = vals.value(s, q, depth, kinds, alphabet, maxlen=maxlen)
        return o
    return fn


def same_value(s, a, b):
    """Equal and of the same types at every level."""
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and s.all(
            [same_value(s, x, y) for x, y in zip(a, b)])
    if isinstance(b, dict):
        return isinstance(a, dict) and len(a) == len(b) and s.all(
            [s.any([s.all([s.eq(k2, k), same_value(s, v2, v)])
                    for k2, v2 in a.items()]) for k, v in b.items()])
    if type(a) is not type(b):
        return False
    if isinstance(b, float):
        return repr(a) == repr(b)
    return s.strict_eq(a, b)


def same(s, got, want, fields_first=False, alias=True, empty=False):
    """The same query (want is the original one)."""
    xs, ys = list(got.fields), list(want.fields)
    if fields_first:
        ys = ([y for y in ys if not isinstance(y, Link)] +
              [y for y in ys if isinstance(y, Link)])
    if len(xs) != len(ys):
        return False
    conds = []
    for x, y in zip(xs, ys):
        if type(x) is not type(y):
            return False
        conds.append(s.eq(x.name, y.name))
        if alias:
            if (x.alias is None) != (y.alias is None):
                return False
            if y.alias is not None:
                conds.append(s.eq(x.alias, y.alias))
        a, b = x.options, y.options
        if empty:
            a, b = a or None, b or None
        if (a is None) != (b is None):
            return False
        if b is not None:
            conds.append(same_value(s, a, b))
        if isinstance(y, Link):
            conds.append(same(s, x.node, y.node, fields_first, alias, empty))
    return s.all(conds)
