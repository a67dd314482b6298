"""Regular expressions over symbolic strings: a backtracking matcher which
interprets the syntax tree CPython's own parser makes of the pattern; every
test of a character is a decision of the path."""
import re
from re import _parser as P, _constants as C
from . import core
from . import values as V

_FNS = ('match', 'fullmatch', 'search', 'sub', 'subn', 'split', 'findall',
        'finditer')
_trees = {}


def tree(pat):
    key = (pat.pattern, pat.flags)
    t = _trees.get(key)
    if t is None:
        flags = pat.flags & ~re.UNICODE if not pat.flags & re.ASCII \
            else pat.flags
        t = _trees[key] = P.parse(pat.pattern, flags)
    return t


def unsupported(what):
    core.engine().abort(core.Inconclusive(
        'regular expression: %s is not modelled' % (what,)))


_ASCII = {'digit': [(48, 57)],
          'space': [(9, 13), (32, 32)],
          'word': [(48, 57), (65, 90), (95, 95), (97, 122)]}


def category(cat, ascii_only):
    name = str(cat).lower().split('_')[-1]
    if ascii_only:
        return _ASCII[name]
    if name == 'digit':
        return V.char_ranges('isdecimal')
    if name == 'space':
        return V.char_ranges('isspace')
    return V.char_ranges('isalnum') + [(95, 95)]


class Matcher:

    def __init__(self, pat, s):
        self.pat = pat
        self.e = s._x() if isinstance(s, V.SymStr) else tuple(map(ord, s))
        self.ascii = bool(pat.flags & re.ASCII)
        self.multi = bool(pat.flags & re.MULTILINE)
        self.dotall = bool(pat.flags & re.DOTALL)
        if pat.flags & (re.IGNORECASE | re.LOCALE):
            unsupported('flag')

    def test(self, c, op, av):
        """Truth value of: the character is one the item describes."""
        if op is C.LITERAL:
            return V.ceq(c, av)
        if op is C.NOT_LITERAL:
            return V.sx_not(V.ceq(c, av))
        if op is C.ANY:
            return True if self.dotall else V.sx_not(V.ceq(c, 10))
        if op is C.IN:
            neg = False
            out = []
            for o, a in av:
                if o is C.NEGATE:
                    neg = True
                elif o is C.LITERAL:
                    out.append(V.ceq(c, a))
                elif o is C.RANGE:
                    out.append(V.in_ranges(c, [a]))
                elif o is C.CATEGORY:
                    r = V.in_ranges(c, category(a, self.ascii))
                    out.append(V.sx_not(r) if '_NOT_' in str(a) else r)
                else:
                    unsupported(o)
            r = V.disj(out)
            return V.sx_not(r) if neg else r
        return None

    def seq(self, items, k, pos, groups):
        """Yields the (end, groups) of every way the items match."""
        if k == len(items):
            yield pos, groups
            return
        op, av = items[k]
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if pos < len(self.e) and bool(self.test(self.e[pos], op, av)):
                yield from self.seq(items, k + 1, pos + 1, groups)
        elif op is C.AT:
            if self.at(av, pos):
                yield from self.seq(items, k + 1, pos, groups)
        elif op is C.BRANCH:
            for alt in av[1]:
                for p, g in self.seq(alt, 0, pos, groups):
                    yield from self.seq(items, k + 1, p, g)
        elif op is C.SUBPATTERN:
            group, add, sub, body = av
            if add or sub:
                unsupported('inline flags')
            for p, g in self.seq(body, 0, pos, groups):
                if group is not None:
                    g = dict(g)
                    g[group] = (pos, p)
                yield from self.seq(items, k + 1, p, g)
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, body = av
            for p, g in self.repeat(body, lo, hi, pos, groups,
                                    op is C.MAX_REPEAT):
                yield from self.seq(items, k + 1, p, g)
        elif op in (C.ASSERT, C.ASSERT_NOT):
            d, body = av
            if d < 0:
                unsupported('look behind')
            found = next(self.seq(body, 0, pos, groups), None)
            if (found is not None) == (op is C.ASSERT):
                yield from self.seq(items, k + 1, pos,
                                    found[1] if found else groups)
        elif op is C.GROUPREF:
            if av in groups:
                a, b = groups[av]
                n = b - a
                if pos + n <= len(self.e) and all(
                        bool(V.ceq(x, y)) for x, y in
                        zip(self.e[a:b], self.e[pos:pos + n])):
                    yield from self.seq(items, k + 1, pos + n, groups)
        else:
            unsupported(op)

    def repeat(self, body, lo, hi, pos, groups, greedy):
        def more():
            if hi is C.MAXREPEAT or hi > 0:
                h = hi if hi is C.MAXREPEAT else hi - 1
                for p, g in self.seq(body, 0, pos, groups):
                    if p == pos and lo <= 0:
                        continue
                    yield from self.repeat(body, max(lo - 1, 0), h, p, g,
                                           greedy)
        if lo > 0:
            yield from more()
        elif greedy:
            yield from more()
            yield pos, groups
        else:
            yield pos, groups
            yield from more()

    def word(self, pos):
        return 0 <= pos < len(self.e) and bool(V.in_ranges(
            self.e[pos], category(C.CATEGORY_WORD, self.ascii)))

    def at(self, av, pos):
        n = len(self.e)
        if av is C.AT_BEGINNING_STRING:
            return pos == 0
        if av is C.AT_BEGINNING:
            return pos == 0 or (self.multi and
                                bool(V.ceq(self.e[pos - 1], 10)))
        if av is C.AT_END_STRING:
            return pos == n
        if av is C.AT_END:
            if pos == n:
                return True
            if self.multi or pos == n - 1:
                return bool(V.ceq(self.e[pos], 10))
            return False
        if av is C.AT_BOUNDARY:
            return self.word(pos - 1) != self.word(pos)
        if av is C.AT_NON_BOUNDARY:
            return self.word(pos - 1) == self.word(pos)
        unsupported(av)

    def match_at(self, pos, full=False):
        t = tree(self.pat)
        for p, g in self.seq(t, 0, pos, {}):
            if not full or p == len(self.e):
                return Match(self, pos, p, g)
        return None


class Match:

    def __init__(self, m, a, b, groups):
        self._m = m
        self.re = m.pat
        self._g = dict(groups)
        self._g[0] = (a, b)
        self._n = m.pat.groups

    def _num(self, k):
        if isinstance(k, str):
            return self.re.groupindex[k]
        if k > self._n:
            raise IndexError('no such group')
        return k

    def span(self, k=0):
        return self._g.get(self._num(k), (-1, -1))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    def _one(self, k, default=None):
        a, b = self.span(k)
        return default if a < 0 else V.mkstr(self._m.e[a:b])

    def group(self, *ks):
        if not ks:
            return self._one(0)
        if len(ks) == 1:
            return self._one(ks[0])
        return tuple(self._one(k) for k in ks)

    def __getitem__(self, k):
        return self._one(k)

    def groups(self, default=None):
        return tuple(self._one(k + 1, default) for k in range(self._n))

    def groupdict(self, default=None):
        return {k: self._one(v, default)
                for k, v in self.re.groupindex.items()}

    @property
    def lastindex(self):
        if len(self._g) == 1:
            return None
        return max((k for k in self._g if k), key=lambda k: self._g[k][1])


def _iter(pat, s):
    m = Matcher(pat, s)
    pos = 0
    while pos <= len(m.e):
        r = m.match_at(pos)
        if r is None:
            pos += 1
            continue
        yield r
        pos = r.end() if r.end() > r.start() else r.end() + 1


def _match(pat, s, pos=0, endpos=None):
    if pos or endpos is not None:
        unsupported('positions')
    return Matcher(pat, s).match_at(0)


def _fullmatch(pat, s):
    return Matcher(pat, s).match_at(0, True)


def _search(pat, s):
    return next(_iter(pat, s), None)


def _subn(pat, repl, s, count=0):
    if not callable(repl) and '\\' in repl:
        unsupported('template')
    e = V.elems_of(s) if not isinstance(s, V.SymStr) else s._x()
    out = []
    pos = n = 0
    for m in _iter(pat, s):
        if count and n >= count:
            break
        out.extend(e[pos:m.start()])
        r = repl(m) if callable(repl) else repl
        out.extend(V.elems_of(r))
        pos = m.end()
        n += 1
    out.extend(e[pos:])
    return V.mkstr(out), n


def _sub(pat, repl, s, count=0):
    return _subn(pat, repl, s, count)[0]


def _split(pat, s, maxsplit=0):
    e = s._x()
    out = []
    pos = n = 0
    for m in _iter(pat, s):
        if maxsplit and n >= maxsplit:
            break
        out.append(V.mkstr(e[pos:m.start()]))
        out.extend(m.groups())
        pos = m.end()
        n += 1
    out.append(V.mkstr(e[pos:]))
    return out


def _findall(pat, s):
    out = []
    for m in _iter(pat, s):
        if pat.groups == 0:
            out.append(m.group())
        elif pat.groups == 1:
            out.append(m.groups('')[0])
        else:
            out.append(m.groups(''))
    return out


_IMPL = {'match': _match, 'fullmatch': _fullmatch, 'search': _search,
         'sub': _sub, 'subn': _subn, 'split': _split, 'findall': _findall,
         'finditer': _iter}


def method(pat, name):
    """The method of a compiled pattern."""
    nat = getattr(pat, name)
    impl = _IMPL.get(name)
    if impl is None:
        return nat
    k = 1 if name in ('sub', 'subn') else 0

    def call(*a, **kw):
        if len(a) > k and any(isinstance(x, V.SymStr) for x in a):
            return impl(pat, *a, **kw)
        return nat(*a, **kw)
    return call


def _module(name):
    nat = getattr(re, name)
    n = {'sub': 2, 'subn': 2}.get(name, 1)

    def call(pattern, *a, flags=0):
        if any(isinstance(x, V.SymStr) for x in a):
            args = list(a)
            if len(args) > n and name in ('match', 'search', 'fullmatch',
                                          'findall', 'finditer'):
                flags = args.pop()
            return _IMPL[name](re.compile(pattern, flags), *args)
        return nat(pattern, *a, flags=flags) if flags else nat(pattern, *a)
    return call


def _escape(s):
    if not isinstance(s, V.SymStr):
        return re.escape(s)
    special = sorted(map(ord, '()[]{}?*+-|^$\\.&~# \t\n\r\v\f'))
    out = []
    for c in s._x():
        if bool(V.in_ranges(c, [(x, x) for x in special])):
            out.append(92)
        out.append(c)
    return V.mkstr(out)


for _n in _FNS:
    V.model(getattr(re, _n), _module(_n))
V.model(re.escape, _escape)
V.PATTERN_METHOD[0] = method
