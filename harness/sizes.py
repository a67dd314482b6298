"""Large queries and answers: sizes from a list, parts at a symbolic place."""

SIZES = (0, 1, 2, 9, 33, 65, 101, 257, 1025)
WIDE = (1, 3, 17, 33, 65, 129)
DEEP = (1, 5, 17, 33, 50)


def place(s, label, n):
    """An index below n: one of the first two, the last or in the middle."""
    found = [i for i in (0, 1, n // 2, n - 1) if 0 <= i < n]
    return s.pick(label, sorted(set(found)))


BIG = (2 ** 31 - 1, 2 ** 31, -2 ** 31 - 1, 2 ** 53, 2 ** 53 + 1, 2 ** 63,
       -2 ** 63 - 1, 10 ** 24)


def large_value(s, p, ints=True, stop=None):
    """A long or deep value with a symbolic part."""
    kind = s.pick(p + '.value', ('list', 'keys', 'text', 'depth', 'rows') +
                  (('big',) if ints else ()))
    if kind == 'big':
        return s.pick(p + '.big', BIG) * s.pick(p + '.sign', (1, -1))
    x = s.int(p + '.x', -9, 99)
    n = s.pick(p + '.size', DEEP if kind == 'depth' else WIDE)
    k = place(s, p + '.place', n)
    if kind == 'list':
        v = [str(i) if i % 2 else None for i in range(n)]
        v[k] = x
    elif kind == 'rows':
        v = [[i] for i in range(n)]
        v[k] = [x]
    elif kind == 'keys':
        v = dict([('k%d' % i, 'v%d' % i) for i in range(n)])
        v['k%d' % k] = x
    elif kind == 'text':
        text = ''.join([chr(97 + i % 26) for i in range(n)])
        v = text[:k] + s.char(p + '.char', 'a"\\\n\u00e9 ') + text[k + 1:]
    else:
        v = x
        for i in range(n):
            v = [v] if i % 2 else {'k': v}
    return v


def large_query(s, ints=True):
    """A query with many items or levels, or a large option, one part of
    which is symbolic."""
    from hiku.query import Node, Field, Link
    kind = s.pick('large', ('fields', 'links', 'levels', 'options', 'value'))
    if kind == 'value':
        o = {'o': large_value(s, 'v', ints)}
        if s.choice('link', 2):
            return Node([Link('l', Node([Field('a')]), o)])
        return Node([Field('a', o)])
    n = s.pick('size', DEEP if kind == 'levels' else WIDE)
    k = place(s, 'place', n)
    c = s.char('name', 'xyz')
    if kind == 'options':
        o = dict([('o%d' % i, i) for i in range(n)])
        o['o%d' % k] = s.int('o', -9, 99)
        return Node([Field('a', o), Field(c)])
    if kind == 'fields':
        items = [Field('f%d' % i, {'o': i} if i % 3 else None)
                 for i in range(n)]
        items[k] = Field(c, {'o': s.int('o', -9, 99)})
        return Node(items)
    if kind == 'links':
        items = [Link('l%d' % i, Node([Field('f%d' % i)]),
                      {'o': i} if i % 3 else None) for i in range(n)]
        items[k] = Link('l%d' % k, Node([Field(c)]))
        return Node(items)
    node = Node([Field(c)])
    for i in range(n):
        node = Node([Field('f%d' % i), Link('l', node, {'o': i} if i % 3
                                            else None)])
    return node
