"""The interface harnesses are written against.  SymSession executes a
scenario with solver variables; ConcreteSession executes the same scenario on
plain values taken from a solver model (replay)."""


class Stop(BaseException):
    """Ends a concrete replay after a failed check."""


class Infeasible(BaseException):
    pass


SCENARIOS = {}


class Scenario:
    def __init__(self, fn, name, tier, params, needs, timeout):
        self.fn = fn
        self.name = name
        self.tier = tier
        self.params = params
        self.needs = needs
        self.timeout = timeout


def scenario(name=None, tier='quick', params=None, covers=(), timeout=60):
    """Registers a scenario.  params: dict, or {'quick': .., 'thorough': ..}"""
    def deco(fn):
        mod = fn.__module__
        SCENARIOS.setdefault(mod, []).append(
            Scenario(fn, name or fn.__name__, tier, _native(params), covers,
                     timeout))
        return fn
    return deco


def _native(p):
    if hasattr(p, 'items'):
        return {k: _native(v) for k, v in p.items()}
    return {} if p is None else p


def str_uf_args(v):
    """Flattens a value into the integer arguments of an uninterpreted
    function (shared encoding of both sessions)."""
    if v is None:
        return [-900001]
    if isinstance(v, bool):
        return [v]
    if isinstance(v, int):
        return [v]
    if isinstance(v, str):
        return [len(v)] + [ord(c) for c in v]
    if isinstance(v, (list, tuple)):
        out = [len(v)]
        for x in v:
            out.extend(str_uf_args(x))
        return out
    if isinstance(v, dict):
        out = [len(v)]
        for k in sorted(v):
            out.extend(str_uf_args(k))
            out.extend(str_uf_args(v[k]))
        return out
    raise TypeError(type(v))


class ConcreteSession:
    symbolic = False

    def __init__(self, values):
        self.vars = values.get('vars', {})
        self.ufs = values.get('ufs', {})
        self.failed = []
        self.observed = []
        self.covered = set()
        self.notes = []
        self.missing = []

    def _get(self, name, default):
        if name in self.vars:
            return self.vars[name]
        self.missing.append(name)
        return default

    def int(self, name, lo, hi):
        return self._get(name, lo)

    def bool(self, name):
        return bool(self._get(name, False))

    def choice(self, name, n):
        return self._get(name, 0)

    def pick(self, name, seq):
        return seq[self.choice(name, len(seq))]

    def char(self, name, alphabet):
        return chr(self._get(name, _first(alphabet)))

    def string(self, name, lo, hi, alphabet):
        n = lo if lo == hi else lo + self.choice(name + '.len', hi - lo + 1)
        return ''.join(self.char('%s.%d' % (name, i), alphabet)
                       for i in range(n))

    def concrete(self, v):
        return v

    def assume(self, cond):
        if not cond:
            raise Infeasible()

    def check(self, cond, label, info=None):
        if not cond:
            self.failed.append(label)
            if info is not None:
                self.notes.append(repr(info)[:2000])
            raise Stop()

    def cover(self, label):
        self.covered.add(label)

    def observe(self, label, value):
        self.observed.append([label, plain(value)])

    def uf(self, name, *args, lo=0, hi=9):
        key = []
        for a in args:
            key.extend(str_uf_args(a))
        t = self.ufs.get('%s/%d' % (name, len(key)), {})
        return t.get(','.join(str(int(k)) for k in key), lo)

    def uf_bool(self, name, *args):
        return bool(self.uf(name, *args, lo=0, hi=1))

    def eq(self, a, b):
        return a == b

    def strict_eq(self, a, b):
        return _strict(a, b)

    def all(self, conds):
        return all([bool(c) for c in conds])

    def any(self, conds):
        return any([bool(c) for c in conds])

    def not_(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def ite(self, c, a, b):
        return a if c else b


def _strict(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return (len(a) == len(b) and
                all(any(_strict(k, k2) and _strict(a[k], b[k2]) for k2 in b)
                    for k in a))
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        return len(a) == len(b) and all(_strict(x, y) for x, y in zip(a, b))
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return (len(a) == len(b) and
                all(any(_strict(x, y) for y in b) for x in a))
    if type(a) is not type(b) and (type(a) in (bool, int, float)
                                   or type(b) in (bool, int, float)):
        return False
    return a == b


def plain(v):
    ty = type(v)
    if v is None or ty in (int, bool, float, str):
        return v
    if isinstance(v, str):
        return '%s:%s' % (ty.__name__, str.__str__(v))
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {'%s' % (plain(k),): plain(x) for k, x in v.items()}
    if isinstance(v, (set, frozenset)):
        return sorted((plain(x) for x in v), key=str)
    return '<%s>' % ty.__name__


def _first(alphabet):
    a = alphabet[0]
    return ord(a) if isinstance(a, str) else a[0]


def make_sym_session():
    import z3
    from . import core, values as V

    class SymSession:
        symbolic = True

        def __init__(self, eng):
            self.eng = eng

        def int(self, name, lo, hi):
            return V.SymInt(self.eng.new_int(name, lo, hi))

        def bool(self, name):
            return V.SymBool(self.eng.new_bool(name))

        def choice(self, name, n):
            return self.eng.choice(name, n)

        def pick(self, name, seq):
            return seq[self.choice(name, len(seq))]

        def char(self, name, alphabet):
            if isinstance(alphabet, str):
                codes = sorted(set(map(ord, alphabet)))
                rng = []
                for c in codes:
                    if rng and rng[-1][1] == c - 1:
                        rng[-1] = (rng[-1][0], c)
                    else:
                        rng.append((c, c))
            else:
                rng = alphabet
            lo = min(r[0] for r in rng)
            hi = max(r[1] for r in rng)
            v = self.eng.new_int(name, lo, hi)
            if len(rng) > 1:
                self.eng.assume(V.term(V.in_ranges(v, rng)))  # before doms
            if lo == hi:
                return chr(lo)
            self.eng.doms[v.get_id()] = tuple(sorted(rng))
            self.eng.keep.append(v)
            return V.SymStr._make((v,))

        def string(self, name, lo, hi, alphabet):
            n = (lo if lo == hi
                 else lo + self.choice(name + '.len', hi - lo + 1))
            return V.str_join('', [self.char('%s.%d' % (name, i), alphabet)
                                   for i in range(n)])

        def concrete(self, v):
            return V.concretise_deep(v)

        def assume(self, cond):
            self.eng.assume(V.term(cond))

        def check(self, cond, label, info=None):
            self.eng.check(V.term(cond), label)

        def cover(self, label):
            c = self.eng.stats.covers
            c[label] = c.get(label, 0) + 1

        def observe(self, label, value):
            self.eng.observed.append((label, value))

        def _uf_args(self, v):
            out = []
            if v is None:
                return [z3.IntVal(-900001)]
            if V.is_intlike(v):
                return [V.iterm(v)]
            if V.sx_isinstance(v, str):
                e = v._x() if isinstance(v, V.SymStr) else tuple(map(ord, v))
                return [z3.IntVal(len(e))] + [
                    z3.IntVal(x) if type(x) is int else x for x in e]
            if isinstance(v, (list, tuple)):
                out.append(z3.IntVal(len(v)))
                for x in v:
                    out.extend(self._uf_args(x))
                return out
            if isinstance(v, (dict, V.SDict)):
                out.append(z3.IntVal(len(v)))
                for k in sorted(v):
                    out.extend(self._uf_args(k))
                    out.extend(self._uf_args(v[k]))
                return out
            raise TypeError(type(v))

        def uf(self, name, *args, lo=0, hi=9):
            ts = []
            for a in args:
                ts.extend(self._uf_args(a))
            return V.SymInt(self.eng.uf('%s/%d' % (name, len(ts)), ts,
                                        lo, hi))

        def uf_bool(self, name, *args):
            return V.mkbool(self.uf(name, *args, lo=0, hi=1).t == 1)

        def eq(self, a, b):
            return V.deep_eq(a, b)

        def strict_eq(self, a, b):
            return V.strict_eq(a, b)

        def all(self, conds):
            return V.conj(list(conds))

        def any(self, conds):
            return V.disj(list(conds))

        def not_(self, c):
            return V.sx_not(c)

        def implies(self, a, b):
            return V.disj([V.sx_not(a), b])

        def ite(self, c, a, b):
            t = V.term(c)
            if isinstance(t, bool):
                return a if t else b
            if V.is_intlike(a) and V.is_intlike(b):
                return V.mkint(z3.If(t, V.iterm(a), V.iterm(b)))
            return a if c else b

    return SymSession
