"""Proxy values: symbolic booleans, integers, strings, hashes; symbolic-aware
dictionaries and sets."""
import collections
import functools
import math
import re
import types
import collections.abc
import builtins

import z3

from . import core
from .core import Inconclusive

_MISSING = object()


# --------------------------------------------------------------------------
# booleans

class SymBool:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return core.engine().decide(self.t)

    def __eq__(self, other):
        o = as_boolish(other)
        if o is not None:
            return mkbool(self.t == o)
        if is_intlike(other):
            return SymInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0))) == other
        return NotImplemented if not isinstance(other, SymHash) else False

    def __ne__(self, other):
        r = self.__eq__(other)
        return NotImplemented if r is NotImplemented else sx_not(r)

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        b = as_boolish(o)
        return mkbool(z3.And(self.t, b)) if b is not None else as_int(self) & o
    __rand__ = __and__

    def __or__(self, o):
        b = as_boolish(o)
        return mkbool(z3.Or(self.t, b)) if b is not None else as_int(self) | o
    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.t, as_boolish(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return ~as_int(self)

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __repr__(self):
        return repr(bool(self))

    def __str__(self):
        return str(bool(self))

    def __add__(self, o):
        return as_int(self) + o

    def __radd__(self, o):
        return o + as_int(self)

    def __lt__(self, o):
        return as_int(self) < o

    def __le__(self, o):
        return as_int(self) <= o

    def __gt__(self, o):
        return as_int(self) > o

    def __ge__(self, o):
        return as_int(self) >= o

    def __float__(self):
        return float(bool(self))

    def __reduce__(self):
        return (bool, (bool(self),))


def mkbool(t):
    if isinstance(t, bool):
        return t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def sx_not(r):
    if type(r) is SymBool:
        return mkbool(z3.Not(r.t))
    return not r


def as_boolish(v):
    if type(v) is SymBool:
        return v.t
    if type(v) is bool:
        return z3.BoolVal(v)
    return None


def term(b):
    """z3 Bool (or python bool) of a truth value, without deciding it."""
    if type(b) is SymBool:
        return b.t
    return bool(b)


def conj(items):
    ts = []
    for b in items:
        t = term(b)
        if isinstance(t, bool):
            if not t:
                return False
        else:
            ts.append(t)
    if not ts:
        return True
    return mkbool(ts[0] if len(ts) == 1 else z3.And(*ts))


def disj(items):
    ts = []
    for b in items:
        t = term(b)
        if isinstance(t, bool):
            if t:
                return True
        else:
            ts.append(t)
    if not ts:
        return False
    return mkbool(ts[0] if len(ts) == 1 else z3.Or(*ts))


# --------------------------------------------------------------------------
# integers

def is_intlike(v):
    return type(v) in (int, bool, SymInt, SymBool)


def iterm(v):
    ty = type(v)
    if ty is SymInt:
        return v.t
    if ty is int or ty is bool:
        return z3.IntVal(int(v))
    if ty is SymBool:
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, int) and not isinstance(v, SymInt):
        return z3.IntVal(int(v))
    return None


def as_int(v):
    return SymInt(iterm(v)) if type(v) in (SymBool, SymInt) else v


def mkint(t):
    if isinstance(t, int):
        return t
    if z3.is_int_value(t):
        return t.as_long()
    return SymInt(t)


def _iop(name):
    def op(self, other):
        if type(other) is float:
            if other != int(other):
                return getattr(int(self), name)(other)
            other = int(other)
            if name in ('__add__', '__sub__', '__mul__'):
                return getattr(float(int(self)), name)(float(other))
        o = iterm(other)
        if o is None:
            return NotImplemented
        return mkint(z3.simplify(_IOPS[name](self.t, o)))
    return op


def _icmp(name):
    def op(self, other):
        if type(other) is float:
            f = getattr(float, name)
            if other != other or other in (float('inf'), float('-inf')):
                return f(0.0, other)
            if other == int(other):
                other = int(other)
            elif name in ('__eq__', '__ne__'):
                return name == '__ne__'
            else:
                # between two integers
                other = math.floor(other)
                if name in ('__lt__', '__le__'):
                    return mkbool(z3.simplify(self.t <= other))
                return mkbool(z3.simplify(self.t > other))
        o = iterm(other)
        if o is None:
            if name == '__eq__':
                return NotImplemented
            if name == '__ne__':
                return NotImplemented
            return NotImplemented
        return mkbool(z3.simplify(_ICMPS[name](self.t, o)))
    return op


_IOPS = {
    '__add__': lambda a, b: a + b, '__sub__': lambda a, b: a - b,
    '__mul__': lambda a, b: a * b,
    '__radd__': lambda a, b: b + a, '__rsub__': lambda a, b: b - a,
    '__rmul__': lambda a, b: b * a,
}
_ICMPS = {
    '__eq__': lambda a, b: a == b, '__ne__': lambda a, b: a != b,
    '__lt__': lambda a, b: a < b, '__le__': lambda a, b: a <= b,
    '__gt__': lambda a, b: a > b, '__ge__': lambda a, b: a >= b,
}


class SymInt:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return int

    def __bool__(self):
        return core.engine().decide(z3.simplify(self.t != 0))

    def __hash__(self):
        return hash(int(self))

    def __int__(self):
        return core.engine().concretise(self.t)

    __index__ = __int__
    __trunc__ = __int__

    def __float__(self):
        return float(int(self))

    def __repr__(self):
        return repr(int(self))

    def __str__(self):
        return str(int(self))

    def __format__(self, spec):
        return format(int(self), spec)

    def __neg__(self):
        return mkint(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.t < 0, -self.t, self.t))

    def __mod__(self, o):
        if type(o) is int and o > 0:
            return mkint(self.t % o)
        return int(self) % o

    def __floordiv__(self, o):
        if type(o) is int and o > 0:
            return mkint(self.t / o)
        return int(self) // o

    def __rmod__(self, o):
        return o % int(self)

    def __truediv__(self, o):
        return int(self) / o

    def bit_length(self):
        return int(self).bit_length()

    def __reduce__(self):
        return (int, (int(self),))


for _n in _IOPS:
    setattr(SymInt, _n, _iop(_n))
for _n in _ICMPS:
    setattr(SymInt, _n, _icmp(_n))


def _low_zeros(t):
    """How many low bits of a linear term are certainly zero."""
    if z3.is_int_value(t):
        n = t.as_long()
        return 64 if n == 0 else (n & -n).bit_length() - 1
    if z3.is_add(t):
        return min(map(_low_zeros, t.children()))
    if z3.is_mul(t):
        return sum(map(_low_zeros, t.children()))
    return 0


def _bits(name, a, b):
    """Bit operations which are arithmetic; None for others."""
    if name == '__lshift__' and type(b) is int and b >= 0:
        return a * 2 ** b
    if name == '__rshift__' and type(b) is int and b >= 0:
        return a // 2 ** b
    if name == '__and__':
        for x, y in ((a, b), (b, a)):
            if type(y) is int and y >= 0 and y & (y + 1) == 0:
                return x % (y + 1)
    if name in ('__or__', '__xor__'):
        for x, y in ((a, b), (b, a)):
            k = _low_zeros(z3.simplify(iterm(x)))
            if k and conj([y >= 0, y < 2 ** k]):
                return x + y
    return None


for _n in ('__and__', '__or__', '__xor__', '__lshift__', '__rshift__',
           '__pow__', '__divmod__'):
    def _mk(n):
        def op(self, o):
            if not is_intlike(o):
                return NotImplemented
            r = _bits(n, self, o)
            if r is not None:
                return r
            return getattr(int(self), n)(int(o))

        def rop(self, o):
            if not is_intlike(o):
                return NotImplemented
            r = _bits(n, o, self)
            if r is not None:
                return r
            return getattr(int(o), n)(int(self))
        return op, rop
    _op, _rop = _mk(_n)
    setattr(SymInt, _n, _op)
    setattr(SymInt, '__r' + _n[2:], _rop)
del _n


# --------------------------------------------------------------------------
# hashes: structural, i.e. equal exactly when built from equal parts

class SymHash:
    __slots__ = ('kind', 'parts')

    def __init__(self, kind, parts):
        self.kind = kind
        self.parts = parts

    @property
    def __class__(self):
        return int

    def __eq__(self, other):
        if type(other) is not SymHash:
            return False
        if self.kind != other.kind:
            return False
        return sx_eq(self.parts, other.parts)

    def __ne__(self, other):
        return sx_not(self.__eq__(other))

    def __hash__(self):
        return hash((self.kind, concretise_deep(self.parts)))

    def __bool__(self):
        return True

    def _op(n):
        def op(self, o):
            return SymHash('op' + n, (self, o))
        return op

    for _n in ('add', 'radd', 'xor', 'rxor', 'mul', 'rmul', 'mod', 'and',
               'rand', 'or', 'ror', 'sub', 'rsub', 'lshift', 'rshift'):
        locals()['__%s__' % _n] = _op(_n)
    del _n, _op

    def __neg__(self):
        return SymHash('neg', (self,))

    def __invert__(self):
        return SymHash('inv', (self,))

    def __repr__(self):
        return '<hash %s>' % self.kind

    def __lt__(self, o):
        core.engine().abort(Inconclusive('ordering of hash values'))
    __gt__ = __le__ = __ge__ = __lt__

    def __index__(self):
        core.engine().abort(Inconclusive('arithmetic on hash values'))


# --------------------------------------------------------------------------
# strings

class Atom:
    """A part of a string of unknown length: decimal form of an integer
    ('int'), or the text of a hash ('hash')."""
    __slots__ = ('kind', 'v')

    def __init__(self, kind, v):
        self.kind = kind
        self.v = v


def _is_atom(e):
    return type(e) is Atom


def elems_of(s):
    if isinstance(s, SymStr):
        return s._e
    return tuple(map(ord, s))


def mkstr(elems):
    for e in elems:
        if type(e) is not int:
            return SymStr._make(tuple(elems))
    return ''.join(map(chr, elems))


def norm_char(t):
    if type(t) is int:
        return t
    if z3.is_int_value(t):
        return t.as_long()
    return t


def ceq(a, b):
    """Truth value of equality of two char elements."""
    if type(a) is int:
        if type(b) is int:
            return a == b
        a, b = b, a
    if type(b) is int:
        d = core.engine().doms.get(a.get_id())
        if d is not None and not _inside(b, d):
            return False
    elif a.eq(b):
        return True
    return mkbool(a == b)


def _inside(c, ranges):
    for lo, hi in ranges:
        if lo <= c <= hi:
            return True
    return False


_isect_cache = {}


def _intersect(dom, ranges):
    """True, False, or short ranges which describe the part of the domain
    which lies in the ranges."""
    key = (dom, tuple(ranges))
    r = _isect_cache.get(key)
    if r is not None:
        return r
    pieces = []                 # (lo, hi, inside)
    for lo, hi in dom:
        pos = lo
        for a, b in ranges:
            if b < pos or a > hi:
                continue
            a, b = max(a, pos), min(b, hi)
            if a > pos:
                pieces.append((pos, a - 1, False))
            pieces.append((a, b, True))
            pos = b + 1
        if pos <= hi:
            pieces.append((pos, hi, False))
    out = []
    last = False
    for lo, hi, ok in pieces:
        if ok:
            if last:
                out[-1] = (out[-1][0], hi)
            else:
                out.append((lo, hi))
        last = ok
    if not out:
        r = False
    elif all(ok for _, _, ok in pieces):
        r = True
    else:
        r = out
    _isect_cache[key] = r
    return r


def in_ranges(c, ranges):
    if type(c) is int:
        return any(lo <= c <= hi for lo, hi in ranges)
    d = core.engine().doms.get(c.get_id())
    if d is not None:
        r = _intersect(d, ranges)
        if r is True or r is False:
            return r
        ranges = r
    return disj([mkbool(c == lo) if lo == hi
                 else mkbool(z3.And(c >= lo, c <= hi)) for lo, hi in ranges])


_CLASS_LIMIT = 0x110000
_range_cache = {}


def char_ranges(pred):
    r = _range_cache.get(pred)
    if r is None:
        r = []
        start = None
        for i in range(_CLASS_LIMIT + 1):
            ok = i < _CLASS_LIMIT and getattr(chr(i), pred)()
            if ok and start is None:
                start = i
            elif not ok and start is not None:
                r.append((start, i - 1))
                start = None
        _range_cache[pred] = r
    return r


def domain_of(c):
    return (0, _CLASS_LIMIT - 1)


def _expand_int_atom(t):
    """Characters of str(t), deciding sign and number of digits."""
    eng = core.engine()
    if z3.is_int_value(t):
        return tuple(map(ord, str(t.as_long())))
    neg = eng.decide(t < 0)
    a = z3.simplify(-t) if neg else t
    n = 1
    while not eng.decide(a < 10 ** n):
        n += 1
        if n > 12:
            eng.abort(Inconclusive('integer too long to print'))
    out = [ord('-')] if neg else []
    for k in range(n - 1, -1, -1):
        d = a if k == 0 and n == 1 else (
            (a / (10 ** k)) if k else a)
        if k != n - 1:
            d = d % 10
        out.append(z3.simplify(d + 48))
    return tuple(norm_char(c) for c in out)


_DIGITISH = set(map(ord, '0123456789-'))


class SymStr:
    __slots__ = ('_e', '__dict__')

    def __new__(cls, value=''):
        if isinstance(value, SymStr):
            e = value._e
        elif type(value) is str:
            e = tuple(map(ord, value))
        else:
            v = sx_str(value)
            e = elems_of(v)
        return cls._make(e)

    def __init__(self, *a, **k):
        pass

    @classmethod
    def _make(cls, e):
        self = object.__new__(cls)
        self._e = tuple(norm_char(x) if not _is_atom(x) and type(x) is not int
                        else x for x in e)
        return self

    @property
    def __class__(self):
        ty = type(self)
        return str if ty is SymStr else ty

    def is_symbolic(self):
        return any(type(e) is not int for e in self._e)

    # -- conversions

    def _x(self):
        """Elements with atoms expanded into characters."""
        e = self._e
        if not any(map(_is_atom, e)):
            return e
        out = []
        for x in e:
            if _is_atom(x):
                if x.kind != 'int':
                    core.engine().abort(Inconclusive(
                        'characters of a hash value are not modelled'))
                out.extend(_expand_int_atom(x.v))
            else:
                out.append(x)
        self._e = tuple(out)
        return self._e

    def concrete(self):
        eng = core.E
        out = []
        for x in self._x():
            out.append(chr(x) if type(x) is int
                       else chr(eng.concretise(x)))
        s = ''.join(out)
        self._e = tuple(map(ord, s))
        return s

    def __str__(self):
        return self.concrete()

    def __repr__(self):
        return repr(self.concrete())

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __hash__(self):
        return hash(self.concrete())

    def __reduce__(self):
        return (str, (self.concrete(),))

    # -- comparison

    def __eq__(self, other):
        if isinstance(other, SymStr) or type(other) is str or (
                isinstance(other, str)):
            return str_eq(self._e, elems_of(other))
        return NotImplemented

    def __ne__(self, other):
        r = self.__eq__(other)
        return NotImplemented if r is NotImplemented else sx_not(r)

    def _cmp(self, other, strict, less):
        if not sx_isinstance(other, str):
            return NotImplemented
        a = SymStr(self)._x()
        b = SymStr(other)._x()
        if not less:
            a, b = b, a
        # lexicographic a < b (or <=)
        r = (len(a) < len(b)) if strict else (len(a) <= len(b))
        for x, y in reversed(list(zip(a, b))):
            if type(x) is int and type(y) is int:
                r = r if x == y else (x < y)
            else:
                r = disj([mkbool(x < y), conj([mkbool(x == y), r])])
        return r

    def __lt__(self, o):
        return self._cmp(o, True, True)

    def __le__(self, o):
        return self._cmp(o, False, True)

    def __gt__(self, o):
        return self._cmp(o, True, False)

    def __ge__(self, o):
        return self._cmp(o, False, False)

    # -- sequence

    def __bool__(self):
        return bool(self._e)

    def __len__(self):
        return len(self._x())

    def __iter__(self):
        for x in self._x():
            yield mkstr((x,))

    def __reversed__(self):
        return iter([mkstr((x,)) for x in reversed(self._x())])

    def __getitem__(self, i):
        e = self._x()
        if isinstance(i, slice):
            return mkstr(e[i])
        return mkstr((e[i],))

    def __add__(self, o):
        if not sx_isinstance(o, str):
            return NotImplemented
        return mkstr(self._e + elems_of(o))

    def __radd__(self, o):
        if not sx_isinstance(o, str):
            return NotImplemented
        return mkstr(elems_of(o) + self._e)

    def __mul__(self, n):
        return mkstr(self._e * int(n))

    __rmul__ = __mul__

    def __contains__(self, item):
        return bool(str_contains(self, item))

    # -- methods

    def _class(self, pred):
        e = self._x()
        if not e:
            return False
        r = char_ranges(pred)
        return conj([in_ranges(c, r) for c in e])

    def isalpha(self):
        return self._class('isalpha')

    def isdigit(self):
        return self._class('isdigit')

    def isdecimal(self):
        return self._class('isdecimal')

    def isnumeric(self):
        return self._class('isnumeric')

    def isalnum(self):
        return self._class('isalnum')

    def isspace(self):
        return self._class('isspace')

    def isprintable(self):
        return self._class('isprintable') if self._e else True

    def isascii(self):
        return conj([in_ranges(c, [(0, 127)]) for c in self._x()])

    def isupper(self):
        return self.concrete().isupper()

    def islower(self):
        return self.concrete().islower()

    def isidentifier(self):
        e = self._x()
        if not e:
            return False
        a = char_ranges('isidentifier')
        b = _ident_cont()
        return conj([in_ranges(e[0], a)] + [in_ranges(c, b) for c in e[1:]])

    def _ascii_case(self, lo, hi, delta, other):
        out = []
        for c in self._x():
            if type(c) is int:
                out.extend(map(ord, getattr(chr(c), other)()))
                continue
            if core.engine().decide(c < 128):
                out.append(z3.simplify(
                    z3.If(z3.And(c >= lo, c <= hi), c + delta, c)))
            else:
                v = core.engine().concretise(c)
                out.extend(map(ord, getattr(chr(v), other)()))
        return mkstr(tuple(norm_char(c) for c in out))

    def upper(self):
        return self._ascii_case(97, 122, -32, 'upper')

    def lower(self):
        return self._ascii_case(65, 90, 32, 'lower')

    def startswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return any(self.startswith(q, start, end) for q in p)
        e = self._e
        pe = elems_of(p)
        k = start + len(pe)
        if any(map(_is_atom, e[:k])) or start < 0 or end is not None or (
                any(map(_is_atom, pe))):
            e = self._x()
            pe = SymStr(p)._x()
        if end is not None:
            e = e[:end]
        e = e[start:]
        if len(pe) > len(e):
            return False
        return conj([ceq(a, b) for a, b in zip(e, pe)])

    def endswith(self, p, *a):
        if a:
            return self.concrete().endswith(p, *a)
        if isinstance(p, tuple):
            return any(self.endswith(q) for q in p)
        e = self._x()
        pe = SymStr(p)._x()
        if len(pe) > len(e):
            return False
        return conj([ceq(a, b) for a, b in zip(e[len(e) - len(pe):], pe)])

    def _strip(self, chars, left, right):
        e = list(self._x())
        if chars is None:
            rng = char_ranges('isspace')
        else:
            rng = None
            ce = SymStr(chars)._x()

        def hit(c):
            if rng is not None:
                return in_ranges(c, rng)
            return disj([ceq(c, x) for x in ce])
        if left:
            while e and hit(e[0]):
                e.pop(0)
        if right:
            while e and hit(e[-1]):
                e.pop()
        return mkstr(tuple(e))

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def find(self, sub, start=0, end=None):
        e = self._x()
        s = SymStr(sub)._x()
        end = len(e) if end is None else min(end, len(e))
        for i in range(start, end - len(s) + 1):
            if conj([ceq(a, b) for a, b in zip(e[i:i + len(s)], s)]):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def count(self, sub):
        n = i = 0
        while True:
            i = self.find(sub, i)
            if i < 0:
                return n
            n += 1
            i += max(1, len(sub))

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self.concrete().split(sep, maxsplit)
        out = []
        rest = self
        while maxsplit != 0:
            i = sx_meth(rest, 'find')(sep)
            if i < 0:
                break
            out.append(rest[:i])
            rest = rest[i + len(sep):]
            maxsplit -= 1
        out.append(rest if type(rest) is str else mkstr(rest._e))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (mkstr(self._e), '', '')
        return (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        return self.concrete().rpartition(sep)

    def replace(self, a, b, n=-1):
        parts = self.split(a) if n < 0 else self.split(a, n)
        return str_join(b, parts)

    def join(self, items):
        return str_join(self, items)

    def format(self, *a, **k):
        return sx_format(self.concrete(), a, k)

    def encode(self, *a, **k):
        return self.concrete().encode(*a, **k)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else mkstr(self._e)

    def removesuffix(self, p):
        if len(p) and self.endswith(p):
            return self[:len(self) - len(p)]
        return mkstr(self._e)

    def __mod__(self, args):
        return sx_mod(self.concrete(), args)

    def __getattr__(self, name):
        if name.startswith('__') or not hasattr(str, name):
            raise AttributeError(
                "'%s' object has no attribute '%s'"
                % (type(self).__name__, name))
        return getattr(self.concrete(), name)


def _ident_cont():
    r = _range_cache.get('_ident_cont')
    if r is None:
        r = []
        start = None
        for i in range(_CLASS_LIMIT + 1):
            ok = i < _CLASS_LIMIT and ('a' + chr(i)).isidentifier()
            if ok and start is None:
                start = i
            elif not ok and start is not None:
                r.append((start, i - 1))
                start = None
        _range_cache['_ident_cont'] = r
    return r


def str_eq(a, b):
    """Equality of two element sequences as a truth value."""
    if a is b:
        return True
    cs = []
    i = 0
    while True:
        ra, rb = a[i:], b[i:]
        if not ra and not rb:
            return conj(cs)
        if not ra or not rb:
            rest = ra or rb
            # what is left over is at least one character long
            return False
        x, y = ra[0], rb[0]
        if not _is_atom(x) and not _is_atom(y):
            c = ceq(x, y)
            if c is False:
                return False
            cs.append(c)
            i += 1
            continue
        if _is_atom(x) and _is_atom(y) and x.kind == y.kind:
            more_a = any(map(_is_atom, ra[1:]))
            more_b = any(map(_is_atom, rb[1:]))
            if not more_a and not more_b and len(ra) == len(rb) or (
                len(ra) > 1 and len(rb) > 1
                and type(ra[1]) is int and type(rb[1]) is int
                and ra[1] not in _DIGITISH and rb[1] not in _DIGITISH
            ) or x.kind == 'hash':
                c = sx_eq(x.v, y.v) if x.kind == 'hash' else (
                    True if x.v.eq(y.v) else mkbool(x.v == y.v))
                if c is False:
                    return False
                cs.append(c)
                i += 1
                continue
        if (_is_atom(x) and x.kind == 'hash') or (
                _is_atom(y) and y.kind == 'hash'):
            return False    # hash text is assumed not to collide
        # expand and retry
        sa, sb = SymStr._make(a), SymStr._make(b)
        return str_eq(sa._x(), sb._x())


def str_contains(s, item):
    if not sx_isinstance(item, str):
        raise TypeError("'in <string>' requires string as left operand, "
                        "not %s" % type(item).__name__)
    p = SymStr(item)._x()
    if not p:
        return True
    if isinstance(s, SymStr):
        if all(type(c) is int and c not in _DIGITISH for c in p):
            # no character of a printed integer can take part in the match
            e = tuple(-1 if _is_atom(x) and x.kind == 'int' else x
                      for x in s._e)
            if any(map(_is_atom, e)):
                e = s._x()
        else:
            e = s._x()
    else:
        e = tuple(map(ord, s))
    return disj([conj([ceq(a, b) for a, b in zip(e[i:i + len(p)], p)])
                 for i in range(len(e) - len(p) + 1)])


def str_join(sep, items):
    out = []
    se = elems_of(sep)
    for n, x in enumerate(items):
        if not sx_isinstance(x, str):
            raise TypeError('sequence item %d: expected str instance, %s found'
                            % (n, sx_type(x).__name__))
        if n:
            out.extend(se)
        out.extend(elems_of(x))
    return mkstr(tuple(out))


# --------------------------------------------------------------------------
# generic operations

_SYMS = (SymInt, SymBool, SymHash)


def is_sym(v):
    """True if hashing/comparing v natively would need a symbolic value."""
    ty = type(v)
    if ty in (str, int, bool, type(None), float):
        return False
    if ty in _SYMS:
        return True
    if isinstance(v, SymStr):
        return v.is_symbolic()
    if isinstance(v, tuple):
        return any(is_sym(x) for x in v)
    if isinstance(v, (SFrozenSet,)):
        return v._sym() or any(is_sym(x) for x in v)
    if isinstance(v, SDict):
        return any(is_sym(k) or is_sym(x) for k, x in v.items())
    e = _USER_EQ.get(ty)
    if e is None:
        # instances which define equality are compared, not hashed, when they
        # hold symbolic values
        e = _USER_EQ[ty] = (isinstance(ty.__eq__, types.FunctionType)
                            and not issubclass(ty, type)
                            and ty.__module__ != __name__)
    if e:
        return any(is_sym(x) for x in getattr(v, '__dict__', {}).values())
    return False


_USER_EQ = {}


def sx_eq(a, b):
    """a == b as a truth value, deciding as little as possible."""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta in (list, tuple) and tb is ta or (
            isinstance(a, tuple) and isinstance(b, tuple)
            and ta.__eq__ is tuple.__eq__ and tb.__eq__ is tuple.__eq__):
        if len(a) != len(b):
            return False
        return conj([sx_eq(x, y) for x, y in zip(a, b)])
    if (ta is SymStr and tb not in _SYMS and tb.__eq__ is not SymStr.__eq__
            or tb is SymStr and ta not in _SYMS
            and ta.__eq__ is not SymStr.__eq__):
        # a class of the user's decides
        return a == b
    if ta in _SYMS or ta is SymStr:
        r = a.__eq__(b)
        if r is NotImplemented:
            r = tb.__eq__(b, a) if tb not in _SYMS else NotImplemented
        return False if r is NotImplemented else r
    if tb in _SYMS or tb is SymStr:
        r = b.__eq__(a)
        return False if r is NotImplemented else r
    return a == b


def key_eq(a, b):
    if a is b:
        return True
    r = sx_eq(a, b)
    if r is not False and isinstance(a, tuple) and isinstance(b, tuple):
        # equal tuples of different classes are still different keys when
        # their classes make their hashes differ
        pa, pb = _probes(a, b)
        if pa is not None and _hash(pa) != _hash(pb):
            return False
    return r


def _probes(a, b):
    """Representatives of two equal tuples, with the same contents; None when
    hashes need not be compared."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        ta, tb = type(a), type(b)
        xs, ys, used = [], [], ta.__hash__ is not tuple.__hash__ or \
            tb.__hash__ is not tuple.__hash__
        for x, y in zip(a, b):
            p, q = _probes(x, y)
            if p is None:
                p = q = 'x'
            else:
                used = True
            xs.append(p)
            ys.append(q)
        if not used:
            return None, None
        return (getattr(ta, '_make', ta)(xs), getattr(tb, '_make', tb)(ys))
    return None, None


def deep_eq(a, b):
    """Equality for oracles: also looks into dictionaries."""
    if a is b:
        return True
    if isinstance(a, (SDict, dict)) and isinstance(b, (SDict, dict)):
        if len(a) != len(b):
            return False
        if not any(is_sym(k) for k in a) and not any(is_sym(k) for k in b):
            cs = []
            for k in a:
                if k not in b:
                    return False
                cs.append(deep_eq(a[k], b[k]))
            return conj(cs)
        sb = b if isinstance(b, SDict) else SDict(b)
        for k in a:
            v = sb.get(k, _MISSING)
            if v is _MISSING or not deep_eq(a[k], v):
                return False
        return True
    if type(a) in (list, tuple) and type(a) is type(b):
        if len(a) != len(b):
            return False
        return conj([deep_eq(x, y) for x, y in zip(a, b)])
    return sx_eq(a, b)


def strict_eq(a, b):
    """Equality which also distinguishes booleans, integers and floats."""
    if isinstance(a, (SDict, dict)) and isinstance(b, (SDict, dict)):
        if len(a) != len(b):
            return False
        sb = b if isinstance(b, SDict) else SDict(b)
        cs = []
        for k in a:
            if sx_type(k) in (bool, int, float):
                cs.append(disj([conj([strict_eq(k, k2),
                                      strict_eq(a[k], b[k2])]) for k2 in b]))
                continue
            v = sb.get(k, _MISSING)
            if v is _MISSING:
                return False
            cs.append(strict_eq(a[k], v))
        return conj(cs)
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        if len(a) != len(b):
            return False
        return conj([strict_eq(x, y) for x, y in zip(a, b)])
    sets = (set, frozenset, SFrozenSet)
    if isinstance(a, sets) and isinstance(b, sets):
        if len(a) != len(b):
            return False
        return conj([disj([strict_eq(x, y) for y in b]) for x in a])
    ta, tb = sx_type(a), sx_type(b)
    if ta is not tb and (ta in (bool, int, float) or tb in (bool, int, float)):
        return False
    return sx_eq(a, b)


def concretise_deep(v):
    ty = type(v)
    if ty is SymInt:
        return int(v)
    if ty is SymBool:
        return bool(v)
    if ty is SymStr:
        return v.concrete()
    if ty is tuple or ty is list:
        return ty(concretise_deep(x) for x in v)
    if isinstance(v, SDict):
        return {concretise_deep(k): concretise_deep(x) for k, x in v.items()}
    if isinstance(v, SFrozenSet):
        return {concretise_deep(x) for x in v}
    if ty is dict:
        return {concretise_deep(k): concretise_deep(x) for k, x in v.items()}
    return v


def conc_hash(v):
    """A hash of what the value is on this path (concretises it)."""
    if type(v) is tuple or (isinstance(v, tuple) and
                            type(v).__hash__ is tuple.__hash__):
        return _hash(tuple([conc_hash(x) for x in v]))
    if isinstance(v, (SDict, SFrozenSet)):
        if type(v).__hash__ is None:
            raise TypeError("unhashable type: '%s'" % type(v).__name__)
        return _hash(v)
    return _hash(concretise_deep(v))


def model_value(v, m):
    """A JSON-able picture of v under model m (no decisions)."""
    ty = type(v)
    if v is None or ty in (int, bool, float, str):
        return v
    if ty is SymInt:
        return m.eval(v.t, model_completion=True).as_long()
    if ty is SymBool:
        return z3.is_true(m.eval(v.t, model_completion=True))
    if isinstance(v, SymStr):
        out = []
        for x in v._e:
            if type(x) is int:
                out.append(chr(x))
            elif _is_atom(x):
                if x.kind == 'int':
                    out.append(str(m.eval(x.v, model_completion=True)
                                   .as_long()))
                else:
                    out.append('<hash>')
            else:
                out.append(chr(m.eval(x, model_completion=True).as_long()))
        s = ''.join(out)
        return s if ty is SymStr else '%s:%s' % (ty.__name__, s)
    if ty in (list, tuple) or isinstance(v, (list, tuple)):
        return [model_value(x, m) for x in v]
    if isinstance(v, (SDict, dict)):
        return {'%s' % (model_value(k, m),): model_value(x, m)
                for k, x in v.items()}
    if isinstance(v, (SFrozenSet, set, frozenset)):
        return sorted((model_value(x, m) for x in v), key=str)
    return '<%s>' % ty.__name__


# -- hash, str, repr, int, type, isinstance ---------------------------------

_hash = builtins.hash


def sx_hash(v):
    ty = type(v)
    if ty is SymInt:
        return mkint(z3.simplify(z3.If(v.t == -1, z3.IntVal(-2), v.t)))
    if ty is SymBool:
        return mkint(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
    if ty is SymHash:
        return v
    if ty is str or ty is SymStr:
        return SymHash('s', v)
    if isinstance(v, SymStr):
        m = _user_hash(ty)
        return m(v)
    if isinstance(v, tuple):
        m = _user_hash(ty)
        if ty.__hash__ is tuple.__hash__:
            return SymHash('t', tuple(sx_hash(x) for x in v))
        return m(v)
    if isinstance(v, SFrozenSet):
        if ty.__hash__ is None:
            raise TypeError("unhashable type: 'set'")
        return SymHash('fs', FrozenEq(v))
    if v is None or ty is type(Ellipsis):
        return SymHash('n', repr(v))
    if isinstance(v, (int, float)):
        return _hash(v)
    if ty is frozenset:
        return SymHash('fs', FrozenEq(SFrozenSet(v)))
    m = ty.__hash__
    if m is None:
        raise TypeError("unhashable type: '%s'" % ty.__name__)
    if m is object.__hash__ or m is type.__hash__:
        return _hash(v)
    r = m(v)
    return r


class FrozenEq:
    def __init__(self, s):
        self.s = s

    def __eq__(self, other):
        return self.s == other.s

    def __hash__(self):
        return _hash(frozenset(conc_hash(x) for x in self.s))


def _user_hash(ty):
    m = ty.__hash__
    if m is None:
        raise TypeError("unhashable type: '%s'" % ty.__name__)
    return m


def symstr_super_hash(v):
    return SymHash('s', mkstr(v._e))


def sx_type(*a, **k):
    if len(a) == 1 and not k:
        v = a[0]
        ty = type(v)
        if ty is SymInt or ty is SymHash:
            return int
        if ty is SymBool:
            return bool
        if ty is SymStr:
            return str
        return _NATIVE_CLASS.get(ty, ty)
    a = list(a)
    if len(a) == 3 and isinstance(a[2], SDict):
        a[2] = dict(a[2].items())
        a[1] = tuple(sx_base(b) for b in a[1])
    return type(*a, **k)


def sx_isinstance(o, t):
    ty = type(o)
    if type(t) is tuple:
        for x in t:
            if sx_isinstance(o, x):
                return True
        return False
    if ty is SymInt or ty is SymHash:
        return issubclass(int, t)
    if ty is SymBool:
        return issubclass(bool, t)
    if isinstance(o, SymStr):
        if ty is SymStr:
            return issubclass(str, t)
        return isinstance(o, t) or issubclass(str, t)
    if isinstance(o, SDict):
        return isinstance(o, t) or issubclass(
            _NATIVE_DICT.get(ty, dict), t)
    if isinstance(o, SFrozenSet):
        if isinstance(o, SSet):
            return ty is not SSet and isinstance(o, t) or issubclass(set, t) \
                or t is SSet
        return (ty is not SFrozenSet and isinstance(o, t)
                or issubclass(frozenset, t) or t is SFrozenSet)
    return isinstance(o, t)


def sx_match_seq(o, n, star):
    if isinstance(o, (str, bytes, bytearray, SymStr)) or not isinstance(
            o, collections.abc.Sequence):
        return None
    if star is None:
        return list(o) if len(o) == n else None
    if len(o) < n - 1:
        return None
    o = list(o)
    after = n - star - 1
    end = len(o) - after
    return o[:star] + [o[star:end]] + o[end:]


def sx_match_map(o, keys, rest):
    if not isinstance(o, (SDict, collections.abc.Mapping)):
        return None
    out = []
    for k in keys:
        if not sx_in(k, o):
            return None
        out.append(o[k])
    if rest:
        out.append(sx_dictcomp((k, v) for k, v in o.items()
                               if not sx_in(k, keys)))
    return out


_MATCH_SELF = (bool, bytearray, bytes, dict, float, frozenset, int, list,
               set, str, tuple)


def sx_match_class(o, cls, n, names):
    out = []
    if n:
        if issubclass(cls, _MATCH_SELF) and '__match_args__' not in \
                cls.__dict__:
            if n > 1:
                raise TypeError('%s() accepts 1 positional sub-pattern'
                                % cls.__name__)
            out.append(o)
        else:
            args = getattr(cls, '__match_args__', ())
            if len(args) < n:
                raise TypeError('%s() accepts %d positional sub-patterns'
                                % (cls.__name__, len(args)))
            names = tuple(args[:n]) + names
    for name in names:
        v = getattr(o, name, _MISSING)
        if v is _MISSING:
            return None
        out.append(v)
    return out


def sx_issubclass(c, t):
    if type(t) is tuple:
        return any(sx_issubclass(c, x) for x in t)
    if issubclass(c, t):
        return True
    for s, n in ((SymStr, str), (SDict, dict), (SSet, set),
                 (SFrozenSet, frozenset)):
        if issubclass(c, s) and issubclass(n, t):
            return True
    return False


def sx_str(v=_MISSING, *a, **k):
    if v is _MISSING:
        return ''
    if a or k:
        return str(v, *a, **k)
    ty = type(v)
    if ty is str:
        return v
    if isinstance(v, SymStr):
        if '__str__' in _user_attrs(ty):
            return ty.__str__(v)
        return mkstr(v._e)
    if ty is SymInt:
        return SymStr._make((Atom('int', v.t),))
    if ty is SymBool:
        return 'True' if v else 'False'
    if ty is SymHash:
        return SymStr._make((Atom('hash', v),))
    if isinstance(v, BaseException) and type(v).__str__ in (
            BaseException.__str__, Exception.__str__):
        if not v.args:
            return ''
        if len(v.args) == 1:
            return sx_str(v.args[0])
        return sx_repr(v.args)
    if isinstance(v, (list, tuple, SDict, SFrozenSet, dict, set, frozenset)):
        return sx_repr(v) if ty.__str__ is object.__str__ else str(v)
    if ty.__str__ is object.__str__:
        return sx_repr(v)
    m = ty.__str__
    if type(m).__name__ == 'function':
        return m(v)
    return str(v)


def _user_attrs(ty):
    out = set()
    for c in ty.__mro__:
        if c in (SymStr, SDict, SSet, SFrozenSet, object):
            continue
        out.update(c.__dict__)
    return out


_QUOTES = [(32, 91), (93, 126)]
_PLAIN = [(32, 33), (35, 38), (40, 91), (93, 126)]


def sx_repr(v, _depth=0):
    ty = type(v)
    if _depth > 30:
        return '...'
    if ty in (str, int, bool, float, type(None)):
        return repr(v)
    if ty is SymInt:
        return SymStr._make((Atom('int', v.t),))
    if ty is SymBool:
        return 'True' if v else 'False'
    if ty is SymHash:
        return SymStr._make((Atom('hash', v),))
    if isinstance(v, SymStr):
        if ty is not SymStr and '__repr__' in _user_attrs(ty):
            return ty.__repr__(v)
        x = v._x()
        if conj([in_ranges(c, _PLAIN) for c in x]):
            return mkstr((39,) + tuple(x) + (39,))
        if conj([in_ranges(c, _QUOTES) for c in x]):
            sq = disj([ceq(c, 39) for c in x])
            dq = disj([ceq(c, 34) for c in x])
            if sq and not dq:
                return mkstr((34,) + tuple(x) + (34,))
            if not sq:
                return mkstr((39,) + tuple(x) + (39,))
        return repr(v.concrete())
    if ty is list:
        return '[' + str_join(', ', [sx_repr(x, _depth + 1) for x in v]) + ']'
    if ty is tuple:
        if len(v) == 1:
            return '(' + sx_repr(v[0], _depth + 1) + ',)'
        return '(' + str_join(', ', [sx_repr(x, _depth + 1) for x in v]) + ')'
    if isinstance(v, (SDict, dict)):
        if '__repr__' in _user_attrs(ty) and ty is not dict and (
                ty.__repr__ is not SDict.__repr__):
            if type(ty.__repr__).__name__ == 'function':
                return ty.__repr__(v)
        return '{' + str_join(', ', [
            sx_repr(k, _depth + 1) + ': ' + sx_repr(x, _depth + 1)
            for k, x in v.items()]) + '}'
    if isinstance(v, SFrozenSet):
        if '__repr__' in _user_attrs(ty):
            return ty.__repr__(v)
        return '{' + str_join(', ', [sx_repr(x, _depth + 1) for x in v]) + '}'
    m = ty.__repr__
    if type(m).__name__ == 'function':
        return m(v)
    if isinstance(v, BaseException):
        return ty.__name__ + '(' + str_join(
            ', ', [sx_repr(x, _depth + 1) for x in v.args]) + ')'
    return repr(v)


def sx_int(v=0, *a, **k):
    if k:
        a = (k['base'],)
    ty = type(v)
    if a:
        if a == (16,) and isinstance(v, SymStr):
            return _int16(v)
        return int(v if ty is str else sx_conc(v), *a)
    if ty is SymInt or ty is SymHash:
        return v
    if ty is SymBool:
        return as_int(v)
    if isinstance(v, SymStr):
        e = v._e
        if len(e) == 1 and _is_atom(e[0]) and e[0].kind == 'int':
            return SymInt(e[0].v)
        e = SymStr(v).strip()
        e = elems_of(e)
        if any(map(_is_atom, e)):
            e = SymStr._make(e)._x()
        if not e:
            raise ValueError("invalid literal for int() with base 10")
        neg = False
        i = 0
        if disj([ceq(e[0], 45), ceq(e[0], 43)]):
            neg = bool(ceq(e[0], 45))
            i = 1
        digits = e[i:]
        if not digits:
            raise ValueError("invalid literal for int() with base 10")
        if not conj([in_ranges(c, [(48, 57)]) for c in digits]):
            # underscores, other decimal digits
            return int(v.concrete())
        n = z3.IntVal(0)
        for c in digits:
            n = n * 10 + ((c if type(c) is not int else z3.IntVal(c)) - 48)
        n = z3.simplify(-n if neg else n)
        return mkint(n)
    return int(v)


_NIBBLE = {}


def _int16(v):
    """int(v, 16)"""
    e = v._x()
    if not e or not conj([in_ranges(c, [(48, 57), (65, 70), (97, 102)])
                          for c in e]):
        return int(v.concrete(), 16)
    n = z3.IntVal(0)
    for c in e:
        if type(c) is int:
            d = int(chr(c), 16)
        elif c.get_id() in _NIBBLE and _NIBBLE[c.get_id()][0].eq(c):
            d = _NIBBLE[c.get_id()][1]
        else:
            d = z3.If(c <= 57, c - 48, z3.If(c <= 70, c - 55, c - 87))
        n = n * 16 + d
    return mkint(z3.simplify(n))


def sx_conc(v):
    if type(v) in (SymInt, SymBool, SymStr):
        return concretise_deep(v)
    if isinstance(v, SymStr):
        return v.concrete()
    return v


FLOAT_CUT = [True]


def sx_float(v=0.0):
    if isinstance(v, SymStr):
        return float(v.concrete())
    if type(v) in (SymInt, SymBool):
        return float(int(v))
    return float(v)


def sx_ord(c):
    if isinstance(c, SymStr):
        e = c._x()
        if len(e) != 1:
            raise TypeError('ord() expected a character, but string of '
                            'length %d found' % len(e))
        return mkint(e[0])
    return ord(c)


def sx_chr(n):
    if type(n) is SymInt:
        if not core.engine().decide(z3.And(n.t >= 0, n.t < 0x110000)):
            raise ValueError('chr() arg not in range(0x110000)')
        return mkstr((n.t,))
    return chr(n)


def sx_len(v):
    return len(v)


def sx_format(fmt, args, kwargs):
    """str.format with symbolic arguments."""
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        if spec and '{' in spec:
            spec = sx_format(spec, args, kwargs)
        import _string
        first, rest = _string.formatter_field_name_split(field)
        if first == '':
            first = auto
            auto += 1
        obj = args[first] if isinstance(first, int) else kwargs[first]
        for is_attr, i in rest:
            obj = getattr(obj, i) if is_attr else obj[i]
        out.append(fmt_value(obj, conv, spec))
    return str_join('', out)


def fmt_value(obj, conv, spec):
    if conv == 'r':
        obj = sx_repr(obj)
    elif conv == 's':
        obj = sx_str(obj)
    elif conv == 'a':
        obj = ascii(sx_conc(obj))
    if not spec:
        if isinstance(obj, SymStr) and '__format__' not in _user_attrs(
                type(obj)):
            if '__str__' in _user_attrs(type(obj)):
                return type(obj).__str__(obj)
            return mkstr(obj._e)
        if type(obj) in (SymInt, SymBool, SymHash):
            return sx_str(obj)
        if type(type(obj).__format__).__name__ == 'function':
            return type(obj).__format__(obj, '')
        return sx_str(obj)
    return format(sx_conc(obj), spec)


def sx_mod(fmt, args):
    import re
    if not isinstance(args, tuple):
        args = (args,)
    if len(args) == 1 and isinstance(args[0], (dict, SDict)):
        return fmt % dict(args[0].items())
    out = []
    i = 0
    pos = 0
    for m in re.finditer(r'%(%|[-#0 +]*\d*(?:\.\d+)?[srdixXfga])', fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        c = m.group(1)
        if c == '%':
            out.append('%')
        elif c == 's':
            out.append(sx_str(args[i]))
            i += 1
        elif c == 'r':
            out.append(sx_repr(args[i]))
            i += 1
        elif c in ('d', 'i'):
            out.append(sx_str(args[i]))
            i += 1
        else:
            out.append(('%' + c) % sx_conc(args[i]))
            i += 1
    out.append(fmt[pos:])
    if i != len(args):
        raise TypeError('not all arguments converted during string formatting')
    return str_join('', out)


# --------------------------------------------------------------------------
# dictionaries

class _View:
    __slots__ = ('d', 'kind')

    def __init__(self, d, kind):
        self.d = d
        self.kind = kind

    def __iter__(self):
        d = self.d
        if d._c is not None and not self.kind == 'x':
            c = d._c
            n = len(c)
            if self.kind == 'k':
                it = iter(c)
            elif self.kind == 'v':
                it = iter(c.values())
            else:
                it = iter(c.items())
            for x in it:
                yield x
                if d._c is not c:
                    raise RuntimeError(
                        'dictionary changed size during iteration')
            return
        n = len(d)
        for k, v in list(d._l):
            yield k if self.kind == 'k' else v if self.kind == 'v' else (k, v)
            if len(d) != n:
                raise RuntimeError('dictionary changed size during iteration')

    def __len__(self):
        return len(self.d)

    def __contains__(self, x):
        if self.kind == 'k':
            return x in self.d
        for y in self:
            if key_eq(x, y):
                return True
        return False

    def __reversed__(self):
        return reversed(list(self))

    def __repr__(self):
        return repr(list(self))

    def _set(self):
        return SSet(self)

    def __and__(self, o):
        return self._set() & SSet(o)

    def __or__(self, o):
        return self._set() | SSet(o)

    def __sub__(self, o):
        return self._set() - SSet(o)

    def __rsub__(self, o):
        return SSet(o) - self._set()

    def __rand__(self, o):
        return SSet(o) & self._set()

    def __xor__(self, o):
        return self._set() ^ SSet(o)

    def __eq__(self, o):
        if isinstance(o, _View):
            o = o._set()
        if isinstance(o, (set, frozenset, SFrozenSet)):
            return self._set() == o
        return NotImplemented

    def __le__(self, o):
        return self._set() <= SSet(o)

    def __ge__(self, o):
        return SSet(o) <= self._set()

    def isdisjoint(self, o):
        return not (self & o)

    __hash__ = None


class SDict:
    """An insertion ordered dictionary whose keys may be symbolic.  Without
    symbolic keys it is a native dict (_c); otherwise a list of pairs which is
    searched with decided equalities (_l)."""

    def __new__(cls, *a, **k):
        self = object.__new__(cls)
        self._c = {}
        self._l = None
        return self

    def __init__(self, *a, **k):
        self._init(a, k)

    def _init(self, a, k):
        if len(a) > 1:
            raise TypeError('dict expected at most 1 argument, got %d'
                            % len(a))
        if a:
            SDict._fill(self, a[0])
        for n, v in k.items():
            SDict.__setitem__(self, n, v)

    def _fill(self, src):
        if hasattr(type(src), 'keys'):
            for k in src.keys():
                SDict.__setitem__(self, k, src[k])
        else:
            for n, it in enumerate(src):
                pair = tuple(it) if not isinstance(it, tuple) else it
                if len(pair) != 2:
                    raise ValueError(
                        'dictionary update sequence element #%d has length '
                        '%d; 2 is required' % (n, len(pair)))
                SDict.__setitem__(self, pair[0], pair[1])

    def _go_symbolic(self):
        if self._l is None:
            self._l = [[k, v] for k, v in self._c.items()]
            self._c = None

    def _find(self, key):
        """The [key, value] cell in list mode, or None."""
        for cell in self._l:
            if key_eq(cell[0], key):
                return cell
        return None

    def _hashable(self, key):
        ty = type(key)
        if ty is list or ty.__hash__ is None:
            raise TypeError("unhashable type: '%s'" % sx_type(key).__name__)
        if isinstance(key, tuple):
            for x in key:
                self._hashable(x)

    def _lookup(self, key):
        if self._c is not None:
            if not is_sym(key):
                return self._c.get(key, _MISSING)
            self._hashable(key)
            for k, v in self._c.items():
                if key_eq(k, key):
                    return v
            return _MISSING
        self._hashable(key)
        cell = self._find(key)
        return _MISSING if cell is None else cell[1]

    def __getitem__(self, key):
        v = self._lookup(key)
        if v is _MISSING:
            miss = getattr(type(self), '__missing__', None)
            if miss is not None:
                return miss(self, key)
            raise KeyError(key)
        return v

    def __setitem__(self, key, value):
        if self._c is not None:
            if not is_sym(key):
                self._c[key] = value
                return
            self._hashable(key)
            for k in self._c:
                if key_eq(k, key):
                    self._c[k] = value
                    return
            self._go_symbolic()
            self._l.append([key, value])
            return
        self._hashable(key)
        cell = self._find(key)
        if cell is not None:
            cell[1] = value
        else:
            self._l.append([key, value])

    def __delitem__(self, key):
        if self._c is not None and not is_sym(key):
            del self._c[key]
            return
        self._go_symbolic()
        cell = self._find(key)
        if cell is None:
            raise KeyError(key)
        self._rm(cell)

    def _rm(self, cell):
        for i, c in enumerate(self._l):
            if c is cell:
                del self._l[i]
                return

    def __contains__(self, key):
        return SDict._lookup(self, key) is not _MISSING

    def __iter__(self):
        return iter(_View(self, 'k'))

    def __reversed__(self):
        return reversed(list(_View(self, 'k')))

    def __len__(self):
        return len(self._c if self._c is not None else self._l)

    def keys(self):
        return _View(self, 'k')

    def values(self):
        return _View(self, 'v')

    def items(self):
        return _View(self, 'i')

    def get(self, key, default=None):
        v = SDict._lookup(self, key)
        return default if v is _MISSING else v

    def setdefault(self, key, default=None):
        v = SDict._lookup(self, key)
        if v is _MISSING:
            SDict.__setitem__(self, key, default)
            return default
        return v

    def pop(self, key, *default):
        v = SDict._lookup(self, key)
        if v is _MISSING:
            if default:
                return default[0]
            raise KeyError(key)
        SDict.__delitem__(self, key)
        return v

    def popitem(self):
        if not len(self):
            raise KeyError('popitem(): dictionary is empty')
        if self._c is not None:
            return self._c.popitem()
        return tuple(self._l.pop())

    def clear(self):
        self._c = {}
        self._l = None

    def update(self, *a, **k):
        SDict._init(self, a, k)

    def copy(self):
        return SDict(self)

    __copy__ = copy

    @classmethod
    def fromkeys(cls, keys, value=None):
        d = cls()
        for k in keys:
            d[k] = value
        return d

    def __eq__(self, other):
        if not isinstance(other, (SDict, dict)):
            return NotImplemented
        if len(self) != len(other):
            return False
        if self._c is not None and isinstance(other, dict):
            for k, v in self._c.items():
                if k not in other or not (v is other[k] or v == other[k]):
                    return False
            return True
        o = other if isinstance(other, SDict) else SDict(other)
        for k, v in self.items():
            w = SDict._lookup(o, k)
            if w is _MISSING or not key_eq(v, w):
                return False
        return True

    def __ne__(self, other):
        r = self.__eq__(other)
        return NotImplemented if r is NotImplemented else not r

    __hash__ = None

    def __or__(self, other):
        d = SDict(self)
        d.update(other)
        return d

    def __ror__(self, other):
        d = SDict(other)
        d.update(self)
        return d

    def __ior__(self, other):
        self.update(other)
        return self

    def __repr__(self):
        core_stats_opaque()
        return '{' + ', '.join('%s: %s' % (_orepr(k), _orepr(v))
                               for k, v in self.items()) + '}'


def _orepr(v):
    if is_sym(v):
        return '<sym>'
    return repr(v)


def core_stats_opaque():
    if core.E is not None:
        core.E.stats.opaque_repr += 1


class SOrderedDict(SDict):

    def move_to_end(self, key, last=True):
        v = self.pop(key)
        if last:
            self[key] = v
        else:
            items = list(self.items())
            self.clear()
            self[key] = v
            for k, x in items:
                self[k] = x

    def popitem(self, last=True):
        if last:
            return SDict.popitem(self)
        k = next(iter(self))
        return k, self.pop(k)

    def copy(self):
        return SOrderedDict(self)


class SDefaultDict(SDict):

    def __init__(self, factory=None, *a, **k):
        self.default_factory = MODELS.get(id(factory), factory)
        self._init(a, k)

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        v = self.default_factory()
        self[key] = v
        return v

    def copy(self):
        return SDefaultDict(self.default_factory, self)


class SCounter(SDict):

    def __init__(self, src=(), **k):
        self.update(src, **k)

    def update(self, src=(), **k):
        if isinstance(src, (dict, SDict)):
            for x, n in src.items():
                self[x] = self.get(x, 0) + n
        else:
            for x in src:
                self[x] = self.get(x, 0) + 1
        for x, n in k.items():
            self[x] = self.get(x, 0) + n

    def __missing__(self, key):
        return 0

    def most_common(self, n=None):
        items = sorted(self.items(), key=lambda kv: kv[1], reverse=True)
        return items if n is None else items[:n]

    def elements(self):
        for k, n in self.items():
            for _ in range(n):
                yield k

    def subtract(self, src=(), **k):
        if isinstance(src, (dict, SDict)):
            for x, n in src.items():
                self[x] = self.get(x, 0) - n
        else:
            for x in src:
                self[x] = self.get(x, 0) - 1
        for x, n in k.items():
            self[x] = self.get(x, 0) - n

    def total(self):
        return sum(self.values())

    def copy(self):
        return SCounter(self)

    def __delitem__(self, key):
        if key in self:
            SDict.__delitem__(self, key)

    def _combine(self, other, fn):
        out = SCounter()
        for x in list(self) + [x for x in other if x not in self]:
            n = fn(self[x], other[x])
            if n > 0:
                out[x] = n
        return out

    def __add__(self, other):
        return self._combine(other, lambda a, b: a + b)

    def __sub__(self, other):
        return self._combine(other, lambda a, b: a - b)

    def __or__(self, other):
        return self._combine(other, lambda a, b: a if a >= b else b)

    def __and__(self, other):
        return self._combine(other, lambda a, b: a if a <= b else b)

    def __pos__(self):
        return self._combine(SCounter(), lambda a, b: a)

    def __neg__(self):
        return self._combine(SCounter(), lambda a, b: -a)

    def __iadd__(self, other):
        return self._take(self + other)

    def __isub__(self, other):
        return self._take(self - other)

    def _take(self, other):
        self.clear()
        self.update(other)
        return self


collections.abc.MutableMapping.register(SDict)
_NATIVE_DICT = {
    SDict: dict, SOrderedDict: collections.OrderedDict,
    SDefaultDict: collections.defaultdict, SCounter: collections.Counter,
}


# --------------------------------------------------------------------------
# sets (insertion ordered, so that re-execution is deterministic)

class SFrozenSet:

    def __new__(cls, items=()):
        self = object.__new__(cls)
        self._d = SDict()
        for x in items:
            SDict.__setitem__(self._d, x, None)
        return self

    def __init__(self, *a):
        pass

    def _sym(self):
        return self._d._l is not None

    def _mk(self, items):
        return (SSet if isinstance(self, SSet) else SFrozenSet)(items)

    def __iter__(self):
        try:
            for x in _View(self._d, 'k'):
                yield x
        except RuntimeError:
            raise RuntimeError('Set changed size during iteration')

    def __len__(self):
        return len(self._d)

    def __contains__(self, x):
        return x in self._d

    def __eq__(self, o):
        if not isinstance(o, (SFrozenSet, set, frozenset)):
            return NotImplemented
        if len(self) != len(o):
            return False
        if not isinstance(o, SFrozenSet):
            o = SFrozenSet(o)
        for x in self:
            if x not in o:
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return NotImplemented if r is NotImplemented else not r

    def __hash__(self):
        return _hash(frozenset(conc_hash(x) for x in self))

    def _c(self, o):
        if not isinstance(o, (SFrozenSet, set, frozenset, _View)):
            return None
        return o if isinstance(o, SFrozenSet) else SFrozenSet(o)

    def __or__(self, o):
        o = self._c(o)
        return NotImplemented if o is None else self.union(o)

    def __and__(self, o):
        o = self._c(o)
        return NotImplemented if o is None else self.intersection(o)

    def __sub__(self, o):
        o = self._c(o)
        return NotImplemented if o is None else self.difference(o)

    def __xor__(self, o):
        o = self._c(o)
        return (NotImplemented if o is None
                else self.symmetric_difference(o))

    def __ror__(self, o):
        return SSet(o) | self

    def __rand__(self, o):
        return SSet(o) & self

    def __rsub__(self, o):
        return SSet(o) - self

    def __le__(self, o):
        o = self._c(o)
        return NotImplemented if o is None else self.issubset(o)

    def __lt__(self, o):
        o = self._c(o)
        return (NotImplemented if o is None
                else len(self) < len(o) and self.issubset(o))

    def __ge__(self, o):
        o = self._c(o)
        return NotImplemented if o is None else o.issubset(self)

    def __gt__(self, o):
        o = self._c(o)
        return (NotImplemented if o is None
                else len(o) < len(self) and o.issubset(self))

    def union(self, *os):
        r = list(self)
        for o in os:
            r.extend(o)
        return self._mk(r)

    def intersection(self, *os):
        r = list(self)
        for o in os:
            o = o if isinstance(o, (SFrozenSet, SDict)) else SFrozenSet(o)
            r = [x for x in r if x in o]
        return self._mk(r)

    def difference(self, *os):
        r = list(self)
        for o in os:
            o = o if isinstance(o, (SFrozenSet, SDict)) else SFrozenSet(o)
            r = [x for x in r if x not in o]
        return self._mk(r)

    def symmetric_difference(self, o):
        o = SFrozenSet(o)
        return self._mk([x for x in self if x not in o]
                        + [x for x in o if x not in self])

    def issubset(self, o):
        o = o if isinstance(o, (SFrozenSet, SDict)) else SFrozenSet(o)
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def copy(self):
        return self._mk(self)

    __copy__ = copy

    def __bool__(self):
        return len(self._d) > 0

    def __repr__(self):
        core_stats_opaque()
        if not len(self):
            return 'set()' if isinstance(self, SSet) else 'frozenset()'
        return '{' + ', '.join(map(_orepr, self)) + '}'


class SSet(SFrozenSet):
    __hash__ = None

    def add(self, x):
        if x not in self._d:
            self._d[x] = None

    def discard(self, x):
        self._d.pop(x, None)

    def remove(self, x):
        if x not in self._d:
            raise KeyError(x)
        self._d.pop(x)

    def pop(self):
        for x in self._d:
            break
        else:
            raise KeyError('pop from an empty set')
        self._d.pop(x)
        return x

    def clear(self):
        self._d.clear()

    def update(self, *os):
        for o in os:
            for x in list(o):
                self.add(x)

    def difference_update(self, *os):
        for o in os:
            for x in list(o):
                self.discard(x)

    def intersection_update(self, *os):
        keep = self.intersection(*os)
        self._d = keep._d

    def symmetric_difference_update(self, o):
        self._d = self.symmetric_difference(o)._d

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __ixor__(self, o):
        self.symmetric_difference_update(o)
        return self


collections.abc.MutableSet.register(SSet)
collections.abc.Set.register(SFrozenSet)


def sx_dict(*a, **k):
    if len(a) == 1 and not k and type(a[0]).__name__ == 'mappingproxy':
        return dict(a[0])
    return SDict(*a, **k)


def sx_base(b):
    return _BASES.get(b, b) if isinstance(b, type) else b


_BASES = {
    str: SymStr, dict: SDict, set: SSet, frozenset: SFrozenSet,
    collections.OrderedDict: SOrderedDict,
    collections.defaultdict: SDefaultDict,
    collections.Counter: SCounter,
}


# --------------------------------------------------------------------------
# method calls on native objects with symbolic arguments

_STR_METHODS = {
    'join': lambda s: lambda items: str_join(s, items),
    'format': lambda s: lambda *a, **k: sx_format(s, a, k),
    'format_map': lambda s: lambda m: sx_format(s, (), m),
}
_STR_LIFT = ('startswith', 'endswith', 'replace', 'split', 'find', 'index',
             'count', 'strip', 'lstrip', 'rstrip', 'partition',
             'removeprefix', 'removesuffix')


def _lift_str(s, name):
    nat = getattr(s, name)

    def call(*a, **k):
        for x in a:
            if isinstance(x, (SymStr, SymInt)) or (
                    type(x) is tuple and any(isinstance(y, SymStr)
                                             for y in x)):
                return getattr(SymStr(s), name)(*a, **k)
        return nat(*a, **k)
    return call


def _native_dict_meth(d, name):
    nat = getattr(d, name)

    def call(*a, **k):
        if a and is_sym(a[0]):
            for key in list(d):
                if key_eq(key, a[0]):
                    return nat(key, *a[1:], **k)
            if name == 'get':
                return a[1] if len(a) > 1 else None
            if name == 'pop':
                if len(a) > 1:
                    return a[1]
                raise KeyError(a[0])
            return nat(concretise_deep(a[0]), *a[1:], **k)
        return nat(*a, **k)
    return call


def sx_meth(o, name):
    ty = type(o)
    if ty is str:
        f = _STR_METHODS.get(name)
        if f is not None:
            return f(o)
        if name in _STR_LIFT:
            return _lift_str(o, name)
        return getattr(o, name)
    if ty is dict and name in ('get', 'pop', 'setdefault', '__getitem__',
                               '__contains__'):
        return _native_dict_meth(o, name)
    if ty is _Pattern:
        return PATTERN_METHOD[0](o, name)
    m = getattr(o, name)
    r = MODELS.get(_key(m))
    if r is not None:
        return r
    ty = type(m)
    if ty is _Descriptor:
        return _descriptor(m)
    if ty is types.FunctionType and 'register' in m.__dict__ and isinstance(
            getattr(m.register, '__self__', None),
            functools.singledispatchmethod):
        # singledispatchmethod, bound to the object
        def dispatch(*a, **k):
            d = m.register.__self__.dispatcher
            f = d.dispatch(_native(sx_type(a[0]), d))
            if isinstance(o, type):
                return f.__get__(None, o)(*a, **k)
            return f.__get__(o, type(o))(*a, **k)
        return dispatch
    return m


_NATIVE_CLASS = {SDict: dict, SSet: set, SFrozenSet: frozenset,
                 SOrderedDict: collections.OrderedDict,
                 SDefaultDict: collections.defaultdict,
                 SCounter: collections.Counter}
_Descriptor = type(str.upper)


def _descriptor(f):
    """str.upper and the like, used as functions."""
    if f.__objclass__ in (str, dict, set, frozenset) and not (
            f.__name__.startswith('__')):
        return lambda o, *a, **k: sx_meth(o, f.__name__)(*a, **k)
    return f


_Pattern = type(re.compile(''))
PATTERN_METHOD = [getattr]


def _key(f):
    try:
        return id(f)
    except Exception:          # pragma: no cover
        return None


# --------------------------------------------------------------------------
# models of builtins and C helpers

MODELS = {}
_keepalive = []


def model(orig, repl):
    MODELS[id(orig)] = repl
    _keepalive.append(orig)


def sx_getattr(o, name, *d):
    if isinstance(name, SymStr):
        name = name.concrete()
    return getattr(o, name, *d)


def sx_hasattr(o, name):
    if isinstance(name, SymStr):
        name = name.concrete()
    return hasattr(o, name)


def sx_setattr(o, name, v):
    if isinstance(name, SymStr):
        name = name.concrete()
    return setattr(o, name, v)


def sx_bool(v=False):
    if type(v) is SymBool:
        return v
    if type(v) is SymInt:
        return mkbool(z3.simplify(v.t != 0))
    return bool(v)


def sx_any(items):
    return any(items)


def _sx_sorted(items, *, key=None, reverse=False):
    return sorted(items, key=key, reverse=reverse)


def sx_json_encode_ascii(s):
    if type(s) is str:
        return _json_ascii(s)
    return _json_str(s, True)


def sx_json_encode(s):
    if type(s) is str:
        return _json_plain(s)
    return _json_str(s, False)


_SHORT = {0x22: '\\"', 0x5c: '\\\\', 10: '\\n', 13: '\\r', 9: '\\t',
          12: '\\f', 8: '\\b'}


def _hex4(c):
    """The \\uXXXX escape of a code unit (z3 term)."""
    out = [ord('\\'), ord('u')]
    for k in (12, 8, 4, 0):
        d = (c / (1 << k)) if k else c
        if k != 12:
            d = d % 16
        ch = z3.simplify(z3.If(d < 10, d + 48, d + 87))
        _NIBBLE[ch.get_id()] = (ch, d)
        out.append(ch)
    return out


def _json_str(s, ascii_only):
    """json.encoder.encode_basestring(_ascii) of a symbolic string."""
    eng = core.engine()
    out = [34]
    for c in SymStr(s)._x():
        if type(c) is int:
            enc = (_json_ascii if ascii_only else _json_plain)(chr(c))
            out.extend(map(ord, enc[1:-1]))
            continue
        plain_hi = 126 if ascii_only else 0x10ffff
        if eng.decide(z3.And(c >= 32, c <= plain_hi, c != 34, c != 92)):
            out.append(c)
            continue
        for code, esc in _SHORT.items():
            if eng.decide(c == code):
                out.extend(map(ord, esc))
                break
        else:
            if ascii_only and not eng.decide(c < 0x10000):
                n = c - 0x10000
                out.extend(_hex4(z3.simplify(0xd800 + n / 0x400)))
                out.extend(_hex4(z3.simplify(0xdc00 + n % 0x400)))
            else:
                out.extend(_hex4(c))
    out.append(34)
    return mkstr(tuple(norm_char(c) for c in out))


def sx_json_dumps(obj, **kw):
    if kw.get('cls') or kw.get('indent') is not None:
        import json
        return json.dumps(concretise_all(obj), **kw)
    asc = kw.get('ensure_ascii', True)
    isep, ksep = kw.get('separators') or (', ', ': ')
    sort = kw.get('sort_keys', False)
    default = kw.get('default')

    def enc(v):
        ty = type(v)
        if v is None:
            return 'null'
        if sx_isinstance(v, str):
            return _json_str(v, asc) if isinstance(v, SymStr) else (
                sx_json_encode_ascii(v) if asc else sx_json_encode(v))
        if ty is bool or ty is SymBool:
            return 'true' if v else 'false'
        if ty is SymInt or ty is SymHash:
            return sx_str(v)
        if isinstance(v, int):
            return int.__repr__(v)
        if isinstance(v, float):
            return _json.dumps(v)
        if isinstance(v, (list, tuple)):
            return '[' + str_join(isep, [enc(x) for x in v]) + ']'
        if isinstance(v, (dict, SDict)):
            items = list(v.items())
            if sort:
                items = sorted(items)
            parts = []
            for k, x in items:
                if sx_isinstance(k, str):
                    ks = enc(k)
                elif k is None or type(k) in (int, bool, float, SymInt,
                                              SymBool):
                    ks = '"' + enc(k) + '"'
                else:
                    raise TypeError('keys must be str, int, float, bool or '
                                    'None, not %s' % sx_type(k).__name__)
                parts.append(ks + ksep + enc(x))
            return '{' + str_join(isep, parts) + '}'
        if default is not None:
            return enc(default(v))
        raise TypeError('Object of type %s is not JSON serializable'
                        % sx_type(v).__name__)
    return enc(obj)


def concretise_all(v):
    return concretise_deep(v)


import json as _json                               # noqa: E402
import json.encoder as _jenc                       # noqa: E402
import json.decoder as _jdec                       # noqa: E402

_json_ascii = _jenc.encode_basestring_ascii
_json_plain = _jenc.encode_basestring


def sx_json_loads(s, **k):
    return _json.loads(sx_conc(s) if isinstance(s, SymStr) else s, **k)


def sx_deepcopy(v, memo=None):
    import copy
    if isinstance(v, (SymInt, SymBool, SymStr)):
        return v
    if isinstance(v, SDict) and type(v) in (SDict, SOrderedDict):
        return type(v)([(sx_deepcopy(k), sx_deepcopy(x))
                        for k, x in v.items()])
    if type(v) is list:
        return [sx_deepcopy(x) for x in v]
    if type(v) is tuple:
        return tuple(sx_deepcopy(x) for x in v)
    return copy.deepcopy(v)


def sx_callable(o):
    return callable(o)


def sx_min(*a, **k):
    return min(*a, **k)


class _FnWrap:
    pass


for _o, _r in (
    (hash, sx_hash), (str, sx_str), (repr, sx_repr), (int, sx_int),
    (float, sx_float), (type, sx_type), (isinstance, sx_isinstance),
    (issubclass, sx_issubclass), (dict, sx_dict), (set, SSet),
    (frozenset, SFrozenSet), (ord, sx_ord), (chr, sx_chr),
    (getattr, sx_getattr), (hasattr, sx_hasattr), (setattr, sx_setattr),
    (bool, sx_bool),
    (_json_ascii, sx_json_encode_ascii), (_json_plain, sx_json_encode),
    (_jenc.py_encode_basestring_ascii, sx_json_encode_ascii),
    (_jenc.py_encode_basestring, sx_json_encode),
    (_json.dumps, sx_json_dumps), (_json.loads, sx_json_loads),
    (collections.OrderedDict, SOrderedDict),
    (collections.defaultdict, SDefaultDict),
    (collections.Counter, SCounter),
):
    model(_o, _r)

def sx_map(f, *its):
    return map(sx_fn(f), *its)


def sx_filter(f, it):
    return filter(sx_fn(f) if f is not None else None, it)


def sx_sorted(it, *, key=None, reverse=False):
    return sorted(it, key=sx_fn(key) if key is not None else None,
                  reverse=reverse)


model(map, sx_map)
model(filter, sx_filter)
model(sorted, sx_sorted)



def _slot(cls, base, name):
    """str.__eq__(a, b) and the like for symbolic values."""
    f = base.__dict__[name]

    def call(o, *a, **k):
        if isinstance(o, cls):
            m = getattr(cls, name)
            return m(o, *a, **k)
        if base is str and type(o) is str and a:
            return getattr(SymStr._make(elems_of(o)), name)(*a)
        return f(o, *a, **k)
    model(f, call)


def _plain_str(o):
    if isinstance(o, SymStr):
        return mkstr(o._e)
    return str.__str__(o)


for _n in ('__eq__', '__ne__', '__len__', '__contains__', '__add__',
           '__getitem__', '__iter__', '__lt__'):
    _slot(SymStr, str, _n)
for _n in ('__eq__', '__ne__', '__len__', '__contains__', '__getitem__',
           '__setitem__', '__delitem__', '__iter__', '__or__', '__ior__',
           '__init__'):
    _slot(SDict, dict, _n)
for _b, _c in ((frozenset, SFrozenSet), (set, SSet)):
    for _n in ('__eq__', '__ne__', '__len__', '__contains__', '__iter__',
               '__or__', '__sub__', '__and__'):
        _slot(_c, _b, _n)
del _n, _b, _c
model(str.__str__, _plain_str)
model(str.__hash__, lambda o: symstr_super_hash(o) if isinstance(o, SymStr)
      else str.__hash__(o))
model(int.__repr__, lambda o: sx_str(o) if type(o) is SymInt
      else int.__repr__(o))
import io as _io                                    # noqa: E402


class SStringIO:
    """A text buffer which is only written at its end."""

    def __init__(self, initial='', newline='\n'):
        self._parts = [initial] if len(initial) else []
        self._fresh = not self._parts

    def write(self, text):
        if not sx_isinstance(text, str):
            raise TypeError('string argument expected, got %r'
                            % sx_type(text).__name__)
        if not self._fresh:
            raise Inconclusive('writing over the text of a buffer')
        self._parts.append(text)
        return len(text)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def getvalue(self):
        return str_join('', self._parts)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


model(_io.StringIO, SStringIO)
import copy as _copy                                # noqa: E402
model(_copy.deepcopy, sx_deepcopy)


def _meta_call(f):
    def call(*a, **k):
        a = tuple(dict(x.items()) if isinstance(x, SDict) else x for x in a)
        return f(*a, **k)
    return call


def sx_fn(f):
    r = MODELS.get(id(f))
    if r is not None:
        return r
    if isinstance(f, type) and issubclass(f, type) and f is not type:
        return _meta_call(f)
    if type(f) is _Builtin and type(f.__self__) is _Pattern:
        return PATTERN_METHOD[0](f.__self__, f.__name__)
    if type(f) is _Descriptor:
        return _descriptor(f)
    if type(f) is types.FunctionType and 'registry' in f.__dict__ and (
            'dispatch' in f.__dict__):
        # functools.singledispatch
        return lambda *a, **k: f.dispatch(_native(sx_type(a[0]), f))(*a, **k)
    return f


def _native(ty, f):
    """The first class of a modelled subclass which has a case of its own."""
    if not issubclass(ty, (SDict, SFrozenSet, SymStr)):
        return ty
    for c in ty.__mro__:
        c = _NATIVE_CLASS.get(c, c)
        if c is SymStr:
            c = str
        if c is not object and c in f.registry:
            return c
        if c in (dict, set, frozenset, str):
            return c
    return ty


def sx_class(o):
    ty = type(o)
    return _NATIVE_CLASS.get(ty) or o.__class__


_Builtin = types.BuiltinMethodType


def sx_in(a, b):
    ty = type(b)
    if ty is str:
        if isinstance(a, SymStr):
            return str_contains(b, a)
        return a in b
    if isinstance(b, SymStr):
        return str_contains(b, a)
    if ty in (dict, set, frozenset) and is_sym(a):
        return disj_lazy(key_eq(k, a) for k in b)
    if ty in (list, tuple):
        return disj_lazy(key_eq(k, a) for k in b)
    if ty is range and type(a) is SymInt and len(b):
        lo, hi = min(b[0], b[-1]), max(b[0], b[-1])
        parts = [a >= lo, a <= hi]
        if abs(b.step) > 1:
            parts.append((a - lo) % abs(b.step) == 0)
        return conj(parts)
    return a in b


def disj_lazy(items):
    """Or over truth values, stopping at the first certain one."""
    ts = []
    for b in items:
        if type(b) is SymBool:
            ts.append(b.t)
        elif b:
            return True
    if not ts:
        return False
    return mkbool(ts[0] if len(ts) == 1 else z3.Or(*ts))


def sx_is(a, b):
    """`a is b`; the singletons True and False compare by value on proxies."""
    if a is b:
        return True
    if type(a) is SymBool and type(b) is bool:
        return a if b else sx_not(a)
    if type(b) is SymBool and type(a) is bool:
        return b if a else sx_not(b)
    if type(a) is SymBool and type(b) is SymBool:
        return mkbool(a.t == b.t)
    if type(b) is type or type(a) is type:
        # `x.__class__ is y`, `type(x) is str` see native types already
        return _unsx(a) is _unsx(b)
    return False


_UNSX = {SymStr: str, SDict: dict, SSet: set, SFrozenSet: frozenset,
         SOrderedDict: collections.OrderedDict,
         SDefaultDict: collections.defaultdict,
         SCounter: collections.Counter}


def _unsx(c):
    return _UNSX.get(c, c) if isinstance(c, type) else c


def sx_binmod(a, b):
    if type(a) is str:
        return sx_mod(a, b) if _any_sym(b) else a % b
    return a % b


def _any_sym(b):
    if isinstance(b, tuple):
        return any(not isinstance(x, (int, str, float)) for x in b)
    return not isinstance(b, (int, str, float)) or isinstance(b, SymStr)


def sx_fstr(*parts):
    out = []
    for p in parts:
        if type(p) is str:
            out.append(p)
        else:
            v, conv, spec = p
            out.append(fmt_value(v, conv, spec))
    return str_join('', out)


def sx_getitem(o, k):
    if type(o) is dict and is_sym(k):
        for key in list(o):
            if key_eq(key, k):
                return o[key]
        raise KeyError(k)
    return o[k]


def sx_mkdict(*pairs):
    d = SDict()
    for p in pairs:
        if len(p) == 1:
            d.update(p[0])
        else:
            d[p[0]] = p[1]
    return d


def sx_mkset(*items):
    return SSet(items)


def sx_dictcomp(gen):
    d = SDict()
    for k, v in gen:
        d[k] = v
    return d
