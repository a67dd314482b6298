"""Development helper: behaviour-preserving rewritings of the whole of hiku,
to see that the checks judge what the code does and not how it is written.

  refactor.py KIND DIR      copies /repo to DIR and rewrites DIR/hiku
  refactor.py list

Then: SYMX_REPO=DIR run_check.py ID"""
import ast
import copy
import os
import shutil
import sys

SKIP = {'hiku/protobuf/query_pb2.py'}
# result.Index and others have __getitem__ but no __contains__
SKIP_KIND = {'tryif': {'hiku/result.py'}}


class Base(ast.NodeTransformer):
    n = 0

    def fresh(self, base='t'):
        Base.n += 1
        return '_%s%d' % (base, Base.n)


def load(n):
    return ast.Name(n, ast.Load())


def store(n):
    return ast.Name(n, ast.Store())


def has(node, *types):
    return any(isinstance(x, types) for x in ast.walk(node))


class Stmts(Base):
    """Rewrites lists of statements with self.stmt(st) -> list"""

    def generic_visit(self, node):
        super().generic_visit(node)
        for f in ('body', 'orelse', 'finalbody'):
            v = getattr(node, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                out = []
                for st in v:
                    out.extend(self.stmt(st, node))
                setattr(node, f, out)
        return node


class Swapif(Base):
    """if a: X else: Y -> if not a: Y else: X;  a if c else b likewise"""

    def visit_If(self, node):
        self.generic_visit(node)
        return ast.If(ast.UnaryOp(ast.Not(), node.test),
                      node.orelse or [ast.Pass()], node.body)

    def visit_IfExp(self, node):
        self.generic_visit(node)
        return ast.IfExp(ast.UnaryOp(ast.Not(), node.test), node.orelse,
                         node.body)


class Ifexp(Stmts):
    """return/assign of conditional expressions as statements"""

    def stmt(self, st, parent):
        if isinstance(st, ast.Return) and isinstance(st.value, ast.IfExp):
            v = st.value
            return [ast.If(v.test, [ast.Return(v.body)], []),
                    ast.Return(v.orelse)]
        if isinstance(st, ast.Assign) and isinstance(st.value, ast.IfExp):
            v = st.value
            return [ast.If(v.test,
                           [ast.Assign(st.targets, v.body)],
                           [ast.Assign(copy.deepcopy(st.targets), v.orelse)])]
        return [st]


class Splitand(Stmts):
    """if a and b: X (no else) -> if a: if b: X;
    if a or b: X -> if a: X elif b: X (raise, return and continue only)"""

    def stmt(self, st, parent):
        if isinstance(st, ast.If) and isinstance(st.test, ast.BoolOp):
            vs = st.test.values
            if isinstance(st.test.op, ast.And) and not st.orelse:
                body = st.body
                for v in reversed(vs):
                    body = [ast.If(v, body, [])]
                return body
            if isinstance(st.test.op, ast.Or) and len(st.body) == 1:
                tail = st.orelse
                for v in reversed(vs):
                    tail = [ast.If(v, copy.deepcopy(st.body), tail)]
                return tail
        return [st]


class Nocomp(Base):
    """comprehensions -> loops in local functions"""

    def __init__(self):
        self.pending = [[]]
        self.inclass = 0

    def _fn(self, node):
        self.pending.append([])
        node = self.generic_visit(node)
        self.pending.pop()
        return node

    visit_FunctionDef = visit_AsyncFunctionDef = _fn

    def generic_visit(self, node):
        for f, v in ast.iter_fields(node):
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                out = []
                for st in v:
                    self.pending.append([])
                    simple = not isinstance(st, (ast.ClassDef,))
                    new = self.visit(st)
                    defs = self.pending.pop()
                    if simple:
                        out.extend(defs)
                    out.append(new)
                v[:] = out
            elif isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        v[i] = self.visit(x)
            elif isinstance(v, ast.AST):
                setattr(node, f, self.visit(v))
        return node

    def visit_ClassDef(self, node):
        for i, st in enumerate(node.body):
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                node.body[i] = self.visit(st)
        return node

    def visit_Lambda(self, node):
        return node

    def comp(self, node):
        node = super().generic_visit(node) if False else node
        if has(node, ast.Await, ast.Lambda) or any(
                g.is_async for g in node.generators) or sum(
                    isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp,
                                   ast.GeneratorExp))
                    for x in ast.walk(node)) > 1:
            return node
        bound = set()
        # the iterable of the first generator is an argument; other names
        # have to be visible where the function is defined
        fn = self.fresh('comp')
        first = node.generators[0]
        for g in node.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    bound.add(x.id)
        arg = self.fresh('it')
        if isinstance(node, ast.DictComp):
            init = ast.Dict([], [])
            inner = ast.Assign([ast.Subscript(load('_acc'), node.key,
                                              ast.Store())], node.value)
        elif isinstance(node, ast.SetComp):
            init = ast.Call(load('set'), [], [])
            inner = ast.Expr(ast.Call(ast.Attribute(
                load('_acc'), 'add', ast.Load()), [node.elt], []))
        elif isinstance(node, ast.ListComp):
            init = ast.List([], ast.Load())
            inner = ast.Expr(ast.Call(ast.Attribute(
                load('_acc'), 'append', ast.Load()), [node.elt], []))
        else:
            init = None
            inner = ast.Expr(ast.Yield(node.elt))
        body = [inner]
        for g in reversed(node.generators):
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            body = [ast.For(g.target, load(arg) if g is first else g.iter,
                            body, [])]
        if init is not None:
            body = [ast.Assign([store('_acc')], init)] + body + [
                ast.Return(load('_acc'))]
        f = ast.FunctionDef(fn, ast.arguments(
            [], [ast.arg(arg)], None, [], [], None, []), body, [], None)
        f.type_params = []
        self.pending[-1].append(f)
        return ast.Call(load(fn), [first.iter], [])

    visit_ListComp = visit_SetComp = visit_DictComp = comp
    visit_GeneratorExp = comp


class Forwhile(Stmts):
    """for x in it: -> explicit iterators"""

    def stmt(self, st, parent):
        if isinstance(st, ast.For) and not st.orelse:
            it = self.fresh('it')
            end = self.fresh('end')
            cur = self.fresh('cur')
            return [
                ast.Assign([store(it)],
                           ast.Call(load('iter'), [st.iter], [])),
                ast.Assign([store(end)],
                           ast.Call(load('object'), [], [])),
                ast.While(ast.Constant(True), [
                    ast.Assign([store(cur)], ast.Call(
                        load('next'), [load(it), load(end)], [])),
                    ast.If(ast.Compare(load(cur), [ast.Is()], [load(end)]),
                           [ast.Break()], []),
                    ast.Assign([st.target], load(cur)),
                ] + st.body, [])]
        return [st]


class Temps(Stmts):
    """values of returns, conditions and arguments in variables first"""

    def stmt(self, st, parent):
        if isinstance(st, ast.Return) and st.value is not None:
            t = self.fresh()
            return [ast.Assign([store(t)], st.value), ast.Return(load(t))]
        if isinstance(st, ast.If) and not isinstance(parent, ast.ClassDef):
            t = self.fresh()
            test, st.test = st.test, load(t)
            return [ast.Assign([store(t)], test), st]
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and \
                not isinstance(parent, (ast.ClassDef, ast.Module)) and all(
                    not isinstance(a, ast.Starred) for a in st.value.args) \
                and not any(isinstance(st.value.func, ast.Name)
                            and st.value.func.id in ('super', 'locals')
                            for _ in [0]):
            pre = []
            t = self.fresh()
            pre.append(ast.Assign([store(t)], st.value.func))
            args = []
            for a in st.value.args:
                x = self.fresh()
                pre.append(ast.Assign([store(x)], a))
                args.append(load(x))
            return pre + [ast.Expr(ast.Call(load(t), args,
                                            st.value.keywords))]
        return [st]


class Wrap(Base):
    """every function delegates to a helper with its body"""

    def fn(self, node):
        # inner functions stay
        if has(node, ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global,
               ast.AsyncFunctionDef, ast.Await) or isinstance(
                   node, ast.AsyncFunctionDef):
            return node
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name)
               and x.func.id in ('super', 'locals')
               for x in ast.walk(node)):
            return node
        inner = copy.deepcopy(node)
        inner.name = self.fresh('impl')
        inner.decorator_list = []
        a = inner.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            x.annotation = None
        inner.returns = None
        args = [load(x.arg) for x in a.posonlyargs + a.args]
        if a.vararg:
            args.append(ast.Starred(load(a.vararg.arg), ast.Load()))
            a.vararg.annotation = None
        kw = [ast.keyword(x.arg, load(x.arg)) for x in a.kwonlyargs]
        if a.kwarg:
            kw.append(ast.keyword(None, load(a.kwarg.arg)))
            a.kwarg.annotation = None
        a.defaults = []
        a.kw_defaults = [None] * len(a.kwonlyargs)
        node.body = [inner, ast.Return(ast.Call(
            load(inner.name), args, kw))]
        return node

    visit_FunctionDef = visit_AsyncFunctionDef = fn


class Idioms(Base):
    """append/extend, is None, comparison operands, membership, isinstance,
    format, get"""

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
                return ast.Compare(node.comparators[0], [op], [node.left])
            if isinstance(op, ast.NotIn):
                return ast.UnaryOp(ast.Not(), ast.Compare(
                    node.left, [ast.In()], node.comparators))
            if isinstance(op, ast.In) and isinstance(
                    node.comparators[0], (ast.Set, ast.Tuple, ast.List)):
                return ast.Call(load('any'), [ast.GeneratorExp(
                    ast.Compare(load('_e'), [ast.Eq()], [node.left]),
                    [ast.comprehension(store('_e'), node.comparators[0],
                                       [], 0)])], [])
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id == 'isinstance' and isinstance(
                node.args[1], ast.Tuple):
            return ast.BoolOp(ast.Or(), [
                ast.Call(load('isinstance'),
                         [copy.deepcopy(node.args[0]), t], [])
                for t in node.args[1].elts])
        if isinstance(f, ast.Name) and f.id == 'isinstance' and has(
                node.args[0], ast.Call) is False:
            return ast.Call(load('issubclass'), [
                ast.Call(load('type'), [node.args[0]], []), node.args[1]],
                [])
        return node

    def visit_Expr(self, node):
        self.generic_visit(node)
        v = node.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) \
                and len(v.args) == 1 and not v.keywords and isinstance(
                    v.func.value, ast.Name):
            if v.func.attr == 'append' and v.func.value.id != 'self':
                return ast.Expr(ast.Call(ast.Attribute(
                    v.func.value, 'extend', ast.Load()),
                    [ast.Tuple([v.args[0]], ast.Load())], []))
        return node


class Items(Stmts):
    """for k, v in d.items() -> for k in d: v = d[k];  d[k] = v through
    update; try/else"""

    def stmt(self, st, parent):
        if isinstance(st, ast.For) and isinstance(st.iter, ast.Call) and \
                isinstance(st.iter.func, ast.Attribute) and \
                st.iter.func.attr == 'items' and isinstance(
                    st.target, ast.Tuple) and len(st.target.elts) == 2 and \
                isinstance(st.target.elts[0], ast.Name):
            d = self.fresh('d')
            k, v = st.target.elts
            return [
                ast.Assign([store(d)], st.iter.func.value),
                ast.For(k, ast.Call(load('list'), [load(d)], []), [
                    ast.Assign([v], ast.Subscript(
                        load(d), load(k.id), ast.Load()))] + st.body,
                    st.orelse)]
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and \
                isinstance(st.targets[0], ast.Subscript) and isinstance(
                    st.targets[0].value, ast.Name) and not isinstance(
                        st.targets[0].slice, ast.Slice) and not isinstance(
                            parent, (ast.Module, ast.ClassDef)):
            t = st.targets[0]
            return [ast.Expr(ast.Call(ast.Attribute(
                load(t.value.id), '__setitem__', ast.Load()),
                [t.slice, st.value], []))]
        return [st]


class Strings(Base):
    """'..'.format / % / f-strings / join in other forms"""

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr == 'format' and isinstance(
                f.value, ast.Constant) and isinstance(f.value.value, str):
            import string
            parts = []
            auto = 0
            kws = {k.arg: k.value for k in node.keywords}
            if any(isinstance(a, ast.Starred) for a in node.args):
                return node
            try:
                for lit, name, spec, conv in string.Formatter().parse(
                        f.value.value):
                    if lit:
                        parts.append(ast.Constant(lit))
                    if name is None:
                        continue
                    if spec:
                        return node
                    if name == '':
                        e = node.args[auto]
                        auto += 1
                    elif name.isdigit():
                        e = node.args[int(name)]
                    elif name in kws:
                        e = kws[name]
                    else:
                        return node
                    parts.append(ast.FormattedValue(
                        copy.deepcopy(e), ord(conv) if conv else -1, None))
            except (ValueError, IndexError):
                return node
            return ast.JoinedStr(parts)
        if isinstance(f, ast.Attribute) and f.attr == 'join' and len(
                node.args) == 1 and isinstance(node.args[0],
                                               ast.GeneratorExp):
            node.args[0] = ast.ListComp(node.args[0].elt,
                                        node.args[0].generators)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(
                node.left, ast.Constant) and isinstance(
                    node.left.value, str):
            s = node.left.value
            if s.replace('%s', '').replace('%r', '').count('%') == 0:
                s = s.replace('{', '{{').replace('}', '}}').replace(
                    '%s', '{}').replace('%r', '{!r}')
                args = (node.right.elts if isinstance(node.right, ast.Tuple)
                        else [node.right])
                return ast.Call(ast.Attribute(
                    ast.Constant(s), 'format', ast.Load()), args, [])
        return node


class Lists(Base):
    """list comprehensions as list(map/filter), list(genexp); any/all"""

    def visit_ListComp(self, node):
        self.generic_visit(node)
        if len(node.generators) == 1 and isinstance(
                node.generators[0].target, ast.Name) and not has(
                    node, ast.Await) and not node.generators[0].is_async:
            g = node.generators[0]
            it = g.iter
            arg = ast.arguments([], [ast.arg(g.target.id)], None, [], [],
                                None, [])
            for c in g.ifs:
                it = ast.Call(load('filter'), [ast.Lambda(arg, c), it], [])
            return ast.Call(load('list'), [ast.Call(
                load('map'), [ast.Lambda(arg, node.elt), it], [])], [])
        return ast.Call(load('list'), [ast.GeneratorExp(
            node.elt, node.generators)], [])

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return ast.Call(load('dict'), [ast.GeneratorExp(ast.Tuple(
            [node.key, node.value], ast.Load()), node.generators)], [])

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.Call(load('set'), [ast.GeneratorExp(
            node.elt, node.generators)], [])

    def visit_Dict(self, node):
        self.generic_visit(node)
        if node.keys and all(k is not None for k in node.keys):
            return ast.Call(load('dict'), [ast.List([
                ast.Tuple([k, v], ast.Load())
                for k, v in zip(node.keys, node.values)], ast.Load())], [])
        return node


class Tryif(Stmts):
    """try: x = d[k] except KeyError: X  (else: Y) -> if k in d"""

    def stmt(self, st, parent):
        if isinstance(st, ast.Try) and len(st.handlers) == 1 and len(
                st.body) == 1 and not st.finalbody:
            h = st.handlers[0]
            if isinstance(h.type, ast.Name) and h.type.id == 'KeyError' \
                    and not h.name:
                b = st.body[0]
                v = getattr(b, 'value', None)
                if isinstance(b, (ast.Assign, ast.Return)) and isinstance(
                        v, ast.Subscript) and not has(v, ast.Call):
                    return [ast.If(ast.Compare(
                        v.slice, [ast.In()], [v.value]),
                        [b] + st.orelse, h.body)]
        if isinstance(st, ast.If) and st.orelse and isinstance(
                st.test, ast.Compare) and len(st.test.ops) == 1 and \
                isinstance(st.test.ops[0], ast.NotIn):
            st.test.ops = [ast.In()]
            st.body, st.orelse = st.orelse, st.body
        return [st]


class Early(Stmts):
    """if a: ..return/raise else: Y -> if a: ..;  Y  and elif chains as
    nested ifs; while with a flag"""

    def stmt(self, st, parent):
        if isinstance(st, ast.If) and st.orelse and isinstance(
                st.body[-1], (ast.Return, ast.Raise, ast.Continue)):
            return [ast.If(st.test, st.body, [])] + st.orelse
        return [st]


class Reorder(Stmts):
    """adjacent independent assignments of fresh names are swapped; methods
    of a class in reverse order"""

    def pure(self, e):
        return not has(e, ast.Call, ast.Subscript, ast.Await, ast.Yield,
                       ast.YieldFrom, ast.NamedExpr, ast.ListComp,
                       ast.DictComp, ast.SetComp, ast.GeneratorExp,
                       ast.Starred)

    def generic_visit(self, node):
        super().generic_visit(node)
        v = getattr(node, 'body', None)
        if isinstance(v, list) and not isinstance(node, (ast.Module,)):
            i = 0
            while i + 1 < len(v):
                a, b = v[i], v[i + 1]
                if all(isinstance(x, ast.Assign) and self.pure(x.value)
                       and len(x.targets) == 1
                       and isinstance(x.targets[0], (ast.Name, ast.Attribute))
                       for x in (a, b)):
                    na = {ast.dump(x) for x in [a.targets[0]]}
                    da = {ast.unparse(x) for x in ast.walk(a)
                          if isinstance(x, (ast.Name, ast.Attribute))}
                    db = {ast.unparse(x) for x in ast.walk(b)
                          if isinstance(x, (ast.Name, ast.Attribute))}
                    ta, tb = ast.unparse(a.targets[0]), ast.unparse(
                        b.targets[0])
                    if ta not in db and tb not in da and ta != tb and not \
                            isinstance(node, ast.ClassDef):
                        v[i], v[i + 1] = b, a
                        i += 2
                        continue
                    na
                i += 1
        return node

    def stmt(self, st, parent):
        return [st]


KINDS = {k.__name__.lower(): k for k in (
    Swapif, Ifexp, Splitand, Nocomp, Forwhile, Temps, Wrap, Idioms, Items,
    Strings, Lists, Tryif, Early, Reorder)}


def apply(kinds, path):
    tree = ast.parse(open(path, encoding='utf-8').read())
    for k in kinds:
        tree = KINDS[k]().visit(tree)
        ast.fix_missing_locations(tree)
    src = ast.unparse(tree)
    compile(src, path, 'exec')
    with open(path, 'w', encoding='utf-8') as f:
        f.write(src + '\n')


def main():
    if sys.argv[1] == 'list':
        print(' '.join(sorted(KINDS)))
        return
    kinds, dst = sys.argv[1].split('+'), sys.argv[2]
    if os.path.exists(dst):
        shutil.rmtree(dst)
    shutil.copytree('/repo', dst, symlinks=True, ignore=lambda d, ns: [
        n for n in ns if n == '.git'])
    for dp, dn, fn in os.walk(os.path.join(dst, 'hiku')):
        for n in fn:
            p = os.path.join(dp, n)
            if n.endswith('.py') and os.path.relpath(p, dst) not in (
                        SKIP | (SKIP_KIND['tryif'] if 'tryif' in kinds else set())):
                apply(kinds, p)


main()
