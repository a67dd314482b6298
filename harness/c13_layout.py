"""C13: the EDN reader against a reference reader."""
from symx.session import scenario
from hiku.edn import (loads, dumps, Keyword, Symbol, List, Tuple, Dict, Set,
                      TaggedElement)
from harness.world import attempt
from harness.ednval import same

ASSUMPTIONS = [
    'what EDN leaves open or the reader does not support is not considered: '
    'discarded elements, \\uXXXX characters, numbers which run into other '
    'elements, leading plus signs, repeated keys and members, backslashes and '
    'hashes inside of names, escapes other than \\" \\\\ \\n \\t \\r',
]
BOUNDS = ('texts of up to 4 (thorough: 6) characters over an alphabet with '
          'every syntactic character; documents of up to 4 elements with '
          'arbitrary separators of up to 2 characters between all of them')

SPACE = ' ,\n\r\t'
COMMENT = 'a")]};\r\\\x0b\x85\u2028'
CLOSE = {'(': ')', '[': ']', '{': '}'}
LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
DIGITS = '0123456789'
NAMED = {'newline': '\n', 'space': ' ', 'tab': '\t'}


class Unclear(Exception):
    """The grammar does not say what it is, or the reader does not support
    it."""


class Bad(Exception):
    """Not a complete element."""


class Reference:
    """A recursive descent reader."""

    def __init__(self, text):
        self.t = text
        self.i = 0

    def end(self):
        return self.i >= len(self.t)

    def peek(self):
        return self.t[self.i]

    def blank(self):
        while not self.end():
            c = self.peek()
            if c in SPACE:
                self.i += 1
            elif c == ';':
                while not self.end() and self.peek() != '\n':
                    self.i += 1
            else:
                return

    def delimited(self):
        return self.end() or self.peek() in SPACE + '()[]{}";'

    def name(self):
        n = ''
        while not self.delimited():
            c = self.peek()
            if c in '\\#':
                raise Unclear()
            n += c
            self.i += 1
        return n

    def number(self):
        n = ''
        while not self.delimited():
            n += self.peek()
            self.i += 1
        digits = n[1:] if n[0] == '-' else n
        frac = None
        if '.' in digits:
            digits, frac = digits.split('.', 1)
        for part in (digits, frac):
            if part is not None and (not part or not all(
                    [c in DIGITS for c in part])):
                raise Unclear()
        if len(digits) > 1 and digits[0] == '0':
            raise Unclear()
        return int(n) if frac is None else float(n)

    def string(self):
        out = ''
        self.i += 1
        while True:
            if self.end():
                raise Bad()
            c = self.peek()
            self.i += 1
            if c == '"':
                return out
            if c == '\\':
                if self.end():
                    raise Bad()
                c = self.peek()
                self.i += 1
                if c == 'n':
                    c = '\n'
                elif c == 't':
                    c = '\t'
                elif c == 'r':
                    c = '\r'
                elif c not in '"\\':
                    raise Unclear()
            out += c

    def character(self):
        self.i += 1
        if self.end():
            raise Unclear()
        c = self.peek()
        self.i += 1
        if c in SPACE:
            raise Unclear()
        if c in LETTERS:
            while not self.end() and self.peek() in LETTERS:
                c += self.peek()
                self.i += 1
        if not self.delimited():
            raise Unclear()
        if len(c) > 1:
            if c not in NAMED:
                raise Unclear()
            return NAMED[c]
        return c

    def items(self, close):
        out = []
        while True:
            self.blank()
            if self.end():
                raise Bad()
            if self.peek() == close:
                self.i += 1
                return out
            out.append(self.element())

    def element(self):
        c = self.peek()
        if c in '([':
            self.i += 1
            xs = self.items(')' if c == '(' else ']')
            return Tuple(xs) if c == '(' else List(xs)
        if c == '{':
            self.i += 1
            xs = self.items('}')
            if len(xs) % 2:
                raise Bad()
            keys = xs[::2]
            distinct(keys)
            return Dict(zip(keys, xs[1::2]))
        if c in ')]}':
            raise Bad()
        if c == '"':
            return self.string()
        if c == '\\':
            return self.character()
        if c == '#':
            self.i += 1
            if self.end():
                raise Bad()
            c = self.peek()
            if c == '{':
                self.i += 1
                xs = self.items('}')
                distinct(xs)
                return Set(xs)
            if c not in LETTERS:
                raise Unclear()
            tag = self.name()
            self.blank()
            if self.end():
                raise Bad()
            return TaggedElement(tag, self.element())
        if c in DIGITS:
            return self.number()
        if c == '-':
            if self.i + 1 < len(self.t) and self.t[self.i + 1] in DIGITS:
                return self.number()
            return Symbol(self.name())
        if c == ':':
            self.i += 1
            n = self.name()
            if not n or n[0] == ':' or n[0] in DIGITS:
                raise Unclear()
            return Keyword(n)
        if c in LETTERS:
            n = self.name()
            if n == 'nil':
                return None
            if n == 'true':
                return True
            if n == 'false':
                return False
            return Symbol(n)
        raise Unclear()

    def document(self):
        out = []
        while True:
            self.blank()
            if self.end():
                break
            out.append(self.element())
        if len(out) != 1:
            raise Bad()
        return out[0]


def distinct(xs):
    for i in range(len(xs)):
        for j in range(i):
            if xs[i] == xs[j]:
                raise Unclear()


def compare(s, text):
    try:
        want, bad = Reference(text).document(), False
    except Bad:
        want, bad = None, True
    except Unclear:
        s.assume(False)
    got, err = attempt(lambda: loads(text))
    if bad:
        s.cover('bad')
        s.check(err is not None, 'incomplete text is refused', (text, got))
        return
    s.cover('good')
    s.check(err is None, 'valid text is read', (text, err))
    s.check(same(s, got, want), 'the value the text denotes',
            (text, got, want))
    again, err = attempt(lambda: loads(dumps(got)))
    s.check(err is None and same(s, again, got),
            'reads back after it is printed', (text, got, again))
    s.observe('value', got)


C = ('good', 'bad')


@scenario(params={'quick': {'n': 3}, 'thorough': {'n': 4}}, covers=C,
          timeout=120)
def texts(s):
    compare(s, s.string('t', 0, s.params['n'], '()[]{}#":;a1-. \n\\n'))


@scenario(params={'quick': {'n': 4}, 'thorough': {'n': 6}}, covers=C,
          timeout=120)
def brackets(s):
    compare(s, s.string('t', 1, s.params['n'], '()[]{}#a "'))


@scenario(params={'quick': {'n': 4}, 'thorough': {'n': 5}}, covers=C,
          timeout=120)
def inside(s):
    """What stands between brackets."""
    pre, post = s.pick('in', (('[', ']'), ('{:a ', '}'), ('#t(', ')')))
    compare(s, pre + s.string('t', 1, s.params['n'], 'a1 ";\n\r-') + post)


@scenario(params={'quick': {'n': 3}, 'thorough': {'n': 4}}, covers=C,
          timeout=120)
def in_string(s):
    compare(s, '[' + '"' + s.string('t', 0, s.params['n'], 'a"\\n;]')
            + '"' + ']')


# -- layout

ATOMS = (('1', 1), ('-2', -2), ('1.5', 1.5), (':k', Keyword('k')),
         ('sym', Symbol('sym')), ('nil', None), ('true', True),
         ('"s"', 's'), ('\\c', 'c'), ('\\newline', '\n'), ('-', Symbol('-')),
         ('#t 1', TaggedElement('t', 1)), ('#t"s"', TaggedElement('t', 's')))


def separator(s, p, needed):
    """Blanks and comments, at least one if it is needed."""
    n = s.params['n']
    k = s.choice(p + '.kind', s.params.get('kinds', 3))
    if k == 0:
        if needed:
            s.assume(False)
        return ''
    if k == 1:
        return s.string(p + '.blank', 1, n, SPACE)
    return (';' + s.string(p + '.comment', 1, n, COMMENT) + '\n')


class Layout:
    def __init__(self, s):
        self.s = s
        self.text = ''
        self.n = 0
        self.tight = False      # the text ends with an atom

    def put(self, text, atom):
        s = self.s
        needed = self.tight and atom and not text[0] in '"('
        self.text += separator(s, 'sep%d' % self.n, needed) + text
        self.n += 1
        self.tight = atom and text[-1] not in '"'


def atom(s, lay, p, n=None):
    text, val = s.pick(p, ATOMS[:n])
    lay.put(text, True)
    return val


@scenario(params={'quick': {'n': 1, 'b': 2},
                  'thorough': {'n': 2, 'b': None}}, timeout=120)
def layout_flat(s):
    lay = Layout(s)
    k = s.choice('shape', 4)
    lay.put(('[', '(', '{', '#{')[k], False)
    a = atom(s, lay, 'a')
    b = atom(s, lay, 'b', s.params['b'])
    if k == 3:
        s.assume(a != b)
    lay.put((']', ')', '}', '}')[k], False)
    want = (List([a, b]), Tuple([a, b]),
            Dict([(a, b)]), Set([a, b]))[k]
    finish(s, lay, want)


@scenario(params={'quick': {'n': 1, 'kinds': 2},
                  'thorough': {'n': 1, 'kinds': 3}}, timeout=120)
def layout_nested(s):
    lay = Layout(s)
    k = s.choice('shape', 3)
    lay.put(('[', '(', '{:m ')[k], False)
    j = s.choice('inner', 4)
    lay.put(('[', '(', '{', '#t (')[j], False)
    a = s.pick('a', ATOMS[3:8])
    lay.put(a[0], True)
    if j == 2:
        lay.put('1', True)
    lay.put((']', ')', '}', ')')[j], False)
    inner = (List([a[1]]), Tuple([a[1]]), Dict([(a[1], 1)]),
             TaggedElement('t', Tuple([a[1]])))[j]
    lay.put((']', ')', '}')[k], False)
    finish(s, lay, (List([inner]), Tuple([inner]),
                    Dict([(Keyword('m'), inner)]))[k])


def finish(s, lay, want):
    text = lay.text + separator(s, 'end', False)
    got, err = attempt(lambda: loads(text))
    s.check(err is None, 'valid text is read', (text, err))
    s.check(same(s, got, want), 'layout does not change the value',
            (text, got, want))


@scenario(params={'quick': {'n': 3}, 'thorough': {'n': 4}})
def comments(s):
    """A comment ends at the end of its line, whatever there is in it."""
    text = s.string('comment', 1, s.params['n'], 'a1])};"\\#\r')
    pre, post, want = s.pick('in', (
        ('[1 ;', '\n 2]', List([1, 2])), ('(a;', '\n)', Tuple([Symbol('a')])),
        ('{:k ;', '\n 2}', Dict({Keyword('k'): 2})),
        ('#{;', '\n1}', Set([1])), ('[[1];', '\n(2 ;)\n)]', List([
            List([1]), Tuple([2])])),
        (';', '\n"s"', 's'), ('#t ;', '\n 5', TaggedElement('t', 5)),
        ('["a" ;', '\n]', List(['a']))))
    got, err = attempt(lambda: loads(pre + text + post))
    s.check(err is None, 'valid text is read', (text, err))
    s.check(same(s, got, want), 'comments are no part of the value',
            (text, got, want))


@scenario()
def handlers(s):
    """What is tagged is given to the handler of the tag, whatever it is."""
    seen = []

    def handler(v):
        seen.append(v)
        return ('handled', v)
    name = s.pick('tag', ('t', 'ab/c', 'inst2'))
    text, value = s.pick('value', (
        ('0', 0), ('""', ''), ('[]', List()), ('nil', None), ('false', False),
        ('{}', Dict()), ('1', 1), ('"a"', 'a'), (':k', Keyword('k')),
        ('#u 1', TaggedElement('u', 1)), ('#u []', TaggedElement('u', List())),
        ('(1 nil)', Tuple([1, None])), ('#{}', Set()), ('0.0', 0.0),
        ('sym', Symbol('sym'))))
    gap = s.pick('gap', (' ', '\n', ' ;c\n', ','))
    shape = s.choice('shape', 4)
    item = '#' + name + gap + text
    texts = (item, '[' + item + ']', '[' + item + ' ' + item + ' 5]',
             '{' + item + ' {:k ' + item + '}}')
    other = {name: handler} if s.choice('known', 2) else {'x': handler}
    known = name in other
    got, err = attempt(lambda: loads(texts[shape], other))
    s.check(err is None, 'valid text is read', (texts[shape], err))
    n = (1, 1, 2, 2)[shape] if known else 0
    s.check(len(seen) == n and all([same(s, x, value) for x in seen]),
            'the handler is given the value, once', (seen, value))
    if shape == 0:
        items = [got]
    elif shape == 3:
        k = list(got)[0]
        items = [k, got[k][Keyword('k')]]
    else:
        items = list(got)[:2 if shape == 2 else 1]
        s.check(len(got) == (1, 3)[shape - 1], 'and the rest', got)
    for x in items:
        if known:
            s.check(type(x) is tuple and x[0] == 'handled' and
                    same(s, x[1], value), 'what the handler made', x)
        else:
            s.check(same(s, x, TaggedElement(name, value)), 'the element', x)
