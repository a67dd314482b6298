"""Symbolic values and the path-exploring engine.

One Python process executes the (AST-rewritten) code under test on proxy
values.  Every branch on a proxy is a *decision*: the engine asks the solver
whether the other side is possible under the path condition and, if so, queues
it.  Exploration is depth first by re-execution of decision prefixes.
"""
import os
import sys
import time

import z3

DEFAULT_TIMEOUT_MS = 20000


class Steer(BaseException):
    """Base of the exceptions which steer exploration."""


class PathInfeasible(Steer):
    pass


class PathAbort(Steer):
    pass


class Inconclusive(Steer):
    pass


class PathTimeout(Steer):
    pass


E = None          # the engine of the path being executed (one per process)


def engine():
    if E is None:
        raise RuntimeError('no symbolic engine is active')
    return E


class Stats:
    FIELDS = ('paths', 'decisions', 'forced', 'queries', 'sat', 'unsat',
              'checks', 'checks_symbolic', 'checks_concrete', 'assumes',
              'infeasible', 'concretised', 'opaque_repr')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.covers = {}
        self.labels = {}

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d['solver_s'] = self.solver_s
        d['covers'] = self.covers
        d['labels'] = self.labels
        return d


class Engine:
    """Executes one path."""

    def __init__(self, prefix, stats, timeout_ms=DEFAULT_TIMEOUT_MS):
        self.prefix = prefix
        self.pos = 0
        self.trace = []            # decisions taken
        self.pending = []          # prefixes of unexplored alternatives
        self.stats = stats
        self.solver = z3.SimpleSolver()
        self.solver.set('timeout', timeout_ms)
        self.model = None
        self.known = {}
        self.doms = {}             # id of a character -> its ranges
        self.keep = []
        self.vars = {}             # name -> (kind, term/obj)
        self.uf_apps = []          # (name, arg terms, term)
        self.cex = []              # (label, model values)
        self.observed = []
        self.aborted = None
        self.ufs = {}

    # -- solver ----------------------------------------------------------

    def _check(self, *extra):
        t0 = time.perf_counter()
        if extra:
            self.solver.push()
            for x in extra:
                self.solver.add(x)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        if extra:
            self.solver.pop()
        self.stats.solver_s += time.perf_counter() - t0
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.abort(Inconclusive('solver returned unknown: %s'
                                    % self.solver.reason_unknown()))
        return r == z3.sat, m

    def abort(self, exc):
        self.aborted = exc
        raise exc

    def get_model(self):
        if self.model is None:
            ok, m = self._check()
            if not ok:
                self.stats.infeasible += 1
                self.abort(PathInfeasible())
            self.model = m
        return self.model

    def add(self, t):
        self.solver.add(t)

    def learn(self, t, v):
        self.known[t.get_id()] = v
        self.keep.append(t)
        if z3.is_not(t):
            c = t.arg(0)
            self.known[c.get_id()] = not v
            self.keep.append(c)

    @property
    def replaying(self):
        return self.pos < len(self.prefix)

    def _take(self):
        v = self.prefix[self.pos]
        self.pos += 1
        self.trace.append(v)
        return v

    # decision codes: 0/1 branch, 2/3 forced branch, 4 check verified,
    # 5 check refuted (and assumed), 10+i choice i
    def decide(self, t):
        if self.aborted is not None:
            raise self.aborted
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        k = self.known.get(t.get_id())
        if k is not None:
            return k
        if self.pos < len(self.prefix):
            d = self._take()
            if d > 3:
                self.abort(Inconclusive('non-deterministic replay of a path'))
            v = bool(d & 1)
            if d < 2:
                self.solver.add(t if v else z3.Not(t))
                self.model = None
        else:
            m = self.get_model()
            v = z3.is_true(m.eval(t, model_completion=True))
            other = z3.Not(t) if v else t
            ok, _ = self._check(other)
            self.stats.decisions += 1
            if ok:
                self.pending.append(tuple(self.trace) + (0 if v else 1,))
                self.trace.append(1 if v else 0)
                self.solver.add(t if v else z3.Not(t))
            else:
                self.stats.forced += 1
                self.trace.append(3 if v else 2)
            self.pos = len(self.trace)
            self.prefix = ()
        self.learn(t, v)
        return v

    def choice(self, name, n):
        """An n-way environment choice, unconstrained by the path condition."""
        if self.aborted is not None:
            raise self.aborted
        if n <= 0:
            raise ValueError('empty choice')
        if name in self.vars:
            raise ValueError('choice %r made twice' % name)
        if n == 1:
            i = 0
        elif self.pos < len(self.prefix):
            d = self._take()
            if d < 10:
                self.abort(Inconclusive('non-deterministic replay of a path'))
            i = d - 10
        else:
            i = 0
            base = tuple(self.trace)
            for j in range(n - 1, 0, -1):
                self.pending.append(base + (10 + j,))
            self.trace.append(10)
            self.pos = len(self.trace)
            self.prefix = ()
            self.stats.decisions += 1
        self.vars[name] = ('choice', i)
        return i

    def assume(self, t):
        self.stats.assumes += 1
        if isinstance(t, bool):
            if not t:
                self.stats.infeasible += 1
                self.abort(PathInfeasible())
            return
        if z3.is_true(t):
            return
        k = self.known.get(t.get_id())
        if k is True:
            return
        self.solver.add(t)
        self.learn(t, True)
        if self.pos < len(self.prefix):
            self.model = None
            return
        if self.model is not None and not z3.is_true(
                self.model.eval(t, model_completion=True)):
            self.model = None
        if self.model is None:
            self.get_model()

    def check(self, t, label):
        st = self.stats
        if self.pos < len(self.prefix) and not isinstance(t, bool):
            k = self.known.get(t.get_id())
            if k is None and not z3.is_true(t) and not z3.is_false(t):
                d = self._take()
                if d not in (4, 5):
                    self.abort(Inconclusive('non-deterministic replay'))
                if d == 5:
                    self.solver.add(t)
                    self.model = None
                self.learn(t, True)
                return
        st.checks += 1
        st.labels[label] = st.labels.get(label, 0) + 1
        if not isinstance(t, bool):
            if z3.is_true(t):
                t = True
            elif z3.is_false(t):
                t = False
            else:
                k = self.known.get(t.get_id())
                if k is not None:
                    t = k
        if isinstance(t, bool):
            st.checks_concrete += 1
            if not t:
                m = self.get_model()
                self.cex.append((label, self.extract(m)))
                self.abort(PathAbort())
            return
        st.checks_symbolic += 1
        ok, m = self._check(z3.Not(t))
        if not ok:
            self.trace.append(4)
            self.prefix = ()
            self.pos = len(self.trace)
            self.learn(t, True)
            return
        self.cex.append((label, self.extract(m)))
        self.trace.append(5)
        self.prefix = ()
        self.pos = len(self.trace)
        self.solver.add(t)
        self.model = None
        self.learn(t, True)
        self.get_model()

    # -- models ----------------------------------------------------------

    def extract(self, m):
        """The model as the plain values a concrete session replays."""
        vals = {}
        for name, (kind, term) in self.vars.items():
            if kind == 'choice':
                vals[name] = term
            elif kind == 'bool':
                vals[name] = z3.is_true(m.eval(term, model_completion=True))
            else:
                vals[name] = m.eval(term, model_completion=True).as_long()
        ufs = {}
        for name, args, term in self.uf_apps:
            key = tuple(m.eval(a, model_completion=True).as_long()
                        for a in args)
            v = m.eval(term, model_completion=True)
            v = z3.is_true(v) if z3.is_bool(v) else v.as_long()
            ufs.setdefault(name, {})[','.join(map(str, key))] = v
        return {'vars': vals, 'ufs': ufs}

    def extract_path(self):
        return self.extract(self.get_model())

    def new_int(self, name, lo, hi):
        if name in self.vars:
            raise ValueError('variable %r made twice' % name)
        v = z3.Int(name)
        self.vars[name] = ('int', v)
        self.solver.add(v >= lo, v <= hi)
        if self.pos >= len(self.prefix) and self.model is not None:
            val = self.model.eval(v, model_completion=True).as_long()
            if not lo <= val <= hi:
                self.model = None
        return v

    def new_bool(self, name):
        if name in self.vars:
            raise ValueError('variable %r made twice' % name)
        v = z3.Bool(name)
        self.vars[name] = ('bool', v)
        return v

    def uf(self, name, args, lo, hi):
        key = (name, len(args))
        f = self.ufs.get(key)
        if f is None:
            f = z3.Function('%s/%d' % key, *([z3.IntSort()] * (len(args) + 1)))
            self.ufs[key] = f
        t = f(*args)
        tid = ('uf', t.get_id())
        if tid not in self.known:
            self.known[tid] = True
            self.keep.append(t)
            self.uf_apps.append((name, args, t))
            self.solver.add(t >= lo, t <= hi)
            if self.model is not None:
                val = self.model.eval(t, model_completion=True).as_long()
                if not lo <= val <= hi:
                    self.model = None
        return t

    def concretise(self, t):
        """A concrete value of an Int term, by forking over its values."""
        if z3.is_int_value(t):
            return t.as_long()
        self.stats.concretised += 1
        for _ in range(4096):
            if self.pos < len(self.prefix):
                # values must be reproduced in the order they were guessed:
                # the guess is derived from the model, so record it as choices
                d = self._take()
                if d < 1000:
                    self.abort(Inconclusive('non-deterministic replay'))
                v = d // 4 - 5000000
                taken = d & 1
                forced = d & 2
                c = t == v
                if taken:
                    self.solver.add(c)
                    self.model = None
                    self.learn(c, True)
                    return v
                self.solver.add(z3.Not(c))
                self.model = None
                self.learn(c, False)
                continue
            m = self.get_model()
            v = m.eval(t, model_completion=True).as_long()
            c = t == v
            self.stats.decisions += 1
            ok, _ = self._check(z3.Not(c))
            code = (v + 5000000) * 4
            if ok:
                self.pending.append(tuple(self.trace) + (code,))
            self.trace.append(code | 1)
            self.pos = len(self.trace)
            self.prefix = ()
            self.solver.add(c)
            self.learn(c, True)
            return v
        self.abort(Inconclusive('too many values to concretise'))
