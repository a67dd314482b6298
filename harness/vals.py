"""Generators of option values of every kind."""


def value(s, p, depth, kinds='inbsld', alphabet='ab', ints=(-3, 3), maxlen=2):
    """A value of a symbolic kind: integer, null, boolean, string, list,
    dictionary (nested up to the depth)."""
    ks = [k for k in kinds if depth > 0 or k not in 'ld']
    k = s.pick(p + '.kind', ks)
    if k == 'i':
        return s.int(p + '.int', ints[0], ints[1])
    if k == 'n':
        return None
    if k == 'b':
        return s.bool(p + '.bool')
    if k == 's':
        return s.string(p + '.str', 0, maxlen, alphabet)
    n = s.choice(p + '.n', maxlen + 1)
    if k == 'l':
        return [value(s, '%s.%d' % (p, i), depth - 1, kinds, alphabet, ints,
                      maxlen)
                for i in range(n)]
    d = {}
    for i in range(n):
        key = s.char('%s.k%d' % (p, i), alphabet)
        if key in d:
            s.assume(False)
        d[key] = value(s, '%s.%d' % (p, i), depth - 1, kinds, alphabet, ints,
                       maxlen)
    return d


def same_type(a, b):
    return type(a) is type(b)
