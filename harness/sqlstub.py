"""A small relational database over symbolic rows: evaluates the select
statements hiku builds (SQLAlchemy expression trees) on tables whose contents
are symbolic.  Only what such statements are made of is supported."""
from sqlalchemy.sql import elements, operators, selectable
from sqlalchemy import Table

NULL = None


class Unsupported(Exception):
    pass


def sql_eq(s, a, b):
    """Equality of SQL: never true of nulls."""
    if a is None or b is None:
        return False
    return s.eq(a, b)


def members(e, env, s):
    if isinstance(e, elements.Grouping):
        return members(e.element, env, s)
    if isinstance(e, elements.ClauseList):
        return [value(c, env, s) for c in e.clauses]
    v = value(e, env, s)
    if isinstance(v, (list, tuple, set, frozenset)):
        return list(v)
    raise Unsupported(type(e))


def value(e, env, s):
    if isinstance(e, elements.Null):
        return None
    if isinstance(e, elements.BindParameter):
        return e.value
    if isinstance(e, elements.Label):
        return value(e.element, env, s)
    if isinstance(e, elements.Grouping):
        return value(e.element, env, s)
    if isinstance(e, elements.ColumnClause):
        for t in env:
            for c in t.columns:
                if c.shares_lineage(e):
                    return env[t][c.key]
        raise Unsupported(e)
    raise Unsupported(type(e))


def holds(e, env, s):
    """Truth of a condition on a row (null counts as false)."""
    if e is None:
        return True
    if isinstance(e, elements.True_):
        return True
    if isinstance(e, elements.False_):
        return False
    if isinstance(e, elements.Grouping):
        return holds(e.element, env, s)
    if isinstance(e, elements.BooleanClauseList):
        items = [holds(c, env, s) for c in e.clauses]
        return s.all(items) if e.operator is operators.and_ else s.any(items)
    if isinstance(e, elements.BinaryExpression):
        op = e.operator
        if op is operators.empty_in_op:
            return False
        if op is operators.in_op:
            a = value(e.left, env, s)
            ms = members(e.right, env, s)
            if type(a) is int and all([type(b) is int for b in ms]):
                return a in ms
            return s.any([sql_eq(s, a, b) for b in ms])
        if op is operators.eq:
            if isinstance(e.right, elements.CollectionAggregate):
                a = value(e.left, env, s)
                return s.any([sql_eq(s, a, b)
                              for b in members(e.right.element, env, s)])
            return sql_eq(s, value(e.left, env, s), value(e.right, env, s))
        if op is operators.is_:
            return value(e.left, env, s) is None
        if op is operators.isnot:
            return value(e.left, env, s) is not None
    raise Unsupported((type(e), getattr(e, 'operator', None)))


class Row:
    """Like the rows of SQLAlchemy: by position, name, column, attribute."""

    def __init__(self, names, columns, values):
        self._n = names
        self._c = columns
        self._v = values

    def __getitem__(self, k):
        if isinstance(k, (int, slice)):
            return self._v[k]
        if isinstance(k, str):
            found = [i for i, n in enumerate(self._n) if n == k]
            if not found:
                found = [i for i, c in enumerate(self._c) if c.key == k]
            if not found:
                raise KeyError(k)
            if len(found) > 1:
                raise LookupError('ambiguous column name %r' % k)
            return self._v[found[0]]
        for c, v in zip(self._c, self._v):
            if c is k:
                return v
        for c, v in zip(self._c, self._v):
            if c.shares_lineage(k):
                return v
        raise KeyError(k)

    def __getattr__(self, k):
        if k.startswith('_') or k not in self._n:
            raise AttributeError(k)
        return self._v[self._n.index(k)]

    def __iter__(self):
        return iter(self._v)

    def __len__(self):
        return len(self._v)

    def keys(self):
        return list(self._n)

    def values(self):
        return list(self._v)

    def items(self):
        return list(zip(self._n, self._v))


class Result:

    def __init__(self, rows):
        self.rows = list(rows)

    def fetchall(self):
        out, self.rows = self.rows, []
        return out

    def fetchmany(self, size=1):
        out, self.rows = self.rows[:size], self.rows[size:]
        return out

    def fetchone(self):
        return self.rows.pop(0) if self.rows else None

    def __iter__(self):
        return iter(self.fetchall())


class AsyncResult:

    def __init__(self, rows):
        self.r = Result(rows)

    async def fetchall(self):
        return self.r.fetchall()

    async def fetchmany(self, size=1):
        return self.r.fetchmany(size)

    async def fetchone(self):
        return self.r.fetchone()


class Database:
    """tables: {Table: [row dictionaries]}"""

    def __init__(self, s, tables):
        self.s = s
        self.tables = tables
        self.log = []

    def sources(self, f):
        """Rows of a FROM element, as environments."""
        if isinstance(f, Table):
            for row in self.tables[f]:
                yield {f: row}
        elif isinstance(f, selectable.Alias):
            for env in self.sources(f.element):
                yield env
        elif isinstance(f, selectable.Join):
            rights = list(self.sources(f.right))
            for left in self.sources(f.left):
                some = False
                for right in rights:
                    env = dict(left)
                    env.update(right)
                    if holds(f.onclause, env, self.s):
                        some = True
                        yield env
                if f.isouter and not some:
                    env = dict(left)
                    for t in rights[0] if rights else [f.right]:
                        env[t] = {c.key: None for c in t.columns}
                    yield env
        else:
            raise Unsupported(type(f))

    def select(self, expr):
        self.log.append(expr)
        froms = expr.froms
        if len(froms) != 1:
            raise Unsupported(froms)
        cols = []
        for c in expr.inner_columns:
            # a column which is asked for twice is selected once
            if not any(c is x for x in cols):
                cols.append(c)
        names = [c.name for c in cols]
        out = []
        for env in self.sources(froms[0]):
            if holds(expr._whereclause, env, self.s):
                out.append(Row(names, cols, [value(c, env, self.s)
                                             for c in cols]))
        return out


class Blocking:
    """Engine of SQLAlchemy."""

    def __init__(self, db):
        self.db = db
        self.opened = self.closed = 0

    def connect(self):
        return Connection(self)

    begin = connect


class Connection:
    def __init__(self, eng):
        self.eng = eng

    def __enter__(self):
        self.eng.opened += 1
        return self

    def __exit__(self, *exc):
        self.eng.closed += 1

    def execute(self, expr):
        return Result(self.eng.db.select(expr))


class Async:
    """Engines of SQLAlchemy's asyncio extension and of aiopg."""

    def __init__(self, db, wait):
        self.db = db
        self.wait = wait
        self.opened = self.closed = 0

    def connect(self):
        return AsyncConnection(self)

    acquire = begin = connect


class AsyncConnection:
    def __init__(self, eng):
        self.eng = eng

    async def __aenter__(self):
        self.eng.opened += 1
        return self

    async def __aexit__(self, *exc):
        self.eng.closed += 1

    async def execute(self, expr):
        await self.eng.wait()
        return AsyncResult(self.eng.db.select(expr))

    stream = execute
