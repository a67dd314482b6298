"""Shapes of queries (valid or not) shared by several properties."""
from hiku.query import Node, Field, Link
from harness.qgen import gen_field, gen_link


def root_field(s):
    return Node([gen_field(s, 'f', 'R', alias=True)])


def root_link(s):
    return Node([gen_link(s, 'l', 'R', [gen_field(s, 'f', 'N', 'aexu', 3)])])


def record(s):
    """Complex field with fields and links of the record below."""
    sub = []
    if s.choice('kind', 2):
        sub.append(gen_link(s, 'r', 'T', [gen_field(s, 'g', 'U', opts=2)],
                            opts=2))
    else:
        sub.append(gen_field(s, 'r', 'T', opts=2, alias=True))
    top = Link(s.char('t', 'eso'), Node(sub))
    if s.choice('below', 2):
        top = Link('l', Node([top]))
    return Node([top])


def node_link(s):
    inner = gen_link(s, 'k', 'N', [gen_field(s, 'f', 'N', 'aku', 0)], opts=3)
    return Node([Link('l', Node([inner]))])


def pair(s):
    """Two items, perhaps under one key."""
    items = []
    for i in range(2):
        p = 'i%d' % i
        if s.choice(p + '.kind', 2):
            items.append(gen_link(s, p, 'R', [Field('x')], 'eos', 0, True))
        else:
            items.append(gen_field(s, p, 'R', 'ade', 0, True))
    if s.choice('opt', 2):
        items[0] = items[0].copy(options={'y': s.int('y0', 0, 1)})
        items[1] = items[1].copy(options={'y': s.int('y1', 0, 1)})
    return Node(items)


def pair_below(s):
    """Two items under one key below a link or in a record."""
    items = []
    if s.choice('where', 2):
        for i in range(2):
            items.append(gen_field(s, 'i%d' % i, 'N', 'ad', 0, True))
        return Node([Link('l', Node(items))])
    for i in range(2):
        p = 'i%d' % i
        if s.choice(p + '.kind', 2):
            items.append(gen_link(s, p, 'T', [Field('z')], 'yw', 0, True))
        else:
            items.append(gen_field(s, p, 'T', 'x', 0, True))
    return Node([Link('e', Node(items))])


def deep_record(s):
    """Conflicts and unknown names two records below."""
    items = [gen_field(s, 'i%d' % i, 'U', opts=0, alias=True)
             for i in range(2)]
    return Node([Link('s', Node([Link(s.char('t', 'yw'), Node(items))]))])


def empty(s):
    k = s.choice('where', 4)
    if k == 0:
        return Node([])
    if k == 1:
        return Node([Link('l', Node([]))])
    if k == 2:
        return Node([Link('e', Node([]))])
    return Node([Link('l', Node([Link('k', Node([]))]))])


def wide(s):
    items = [gen_field(s, 'f', 'R', 'adeu', 3, True),
             gen_link(s, 'l', 'R', [gen_field(s, 'g', 'N', 'adu', 3, True),
                                    Field('a')], 'lmou', 4)]
    return Node(items)


QUICK = (root_field, root_link, record, node_link, pair, pair_below,
         deep_record, empty)
THOROUGH = QUICK + (wide,)
