"""Development helper: which small changes of hiku survive the tests and are
not noticed by the checks?

  mutate.py gen OUT.jsonl [file...]     all mutants which survive the tests
  mutate.py check OUT.jsonl RES.jsonl   runs the checks of the file on each

Works in scratch copies of /repo below /dev/shm; never touches /repo."""
import ast
import concurrent.futures
import copy
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
SKIP = {'hiku/protobuf/query_pb2.py'}

CMP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE],
       ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot],
       ast.IsNot: [ast.Is]}


def variants(node):
    """Replacements of one node (each a new node)."""
    def cp():
        return copy.deepcopy(node)
    if isinstance(node, ast.Compare):
        for i, op in enumerate(node.ops):
            for new in CMP.get(type(op), ()):
                n = cp()
                n.ops[i] = new()
                yield 'compare', n
    if isinstance(node, ast.BoolOp):
        n = cp()
        n.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        yield 'andor', n
        for i in range(len(node.values)):
            n = cp()
            del n.values[i]
            yield 'dropcond', (n if len(n.values) > 1 else n.values[0])
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        yield 'dropnot', cp().operand
    if isinstance(node, (ast.If, ast.IfExp)):
        n = cp()
        n.test = ast.Constant(True)
        yield 'iftrue', n
        n = cp()
        n.test = ast.Constant(False)
        yield 'iffalse', n
    if isinstance(node, ast.Return) and node.value is not None and not (
            isinstance(node.value, ast.Constant)):
        n = cp()
        n.value = ast.Constant(None)
        yield 'retnone', n
    if isinstance(node, ast.Expr) and not isinstance(
            node.value, ast.Constant):
        yield 'dropstmt', ast.Pass()
    if isinstance(node, ast.AugAssign):
        yield 'dropstmt', ast.Pass()
    if isinstance(node, ast.Assign) and isinstance(
            node.targets[0], (ast.Attribute, ast.Subscript)):
        yield 'dropstmt', ast.Pass()
    if isinstance(node, ast.Raise):
        yield 'dropraise', ast.Pass()
    if isinstance(node, ast.Continue):
        yield 'break', ast.Break()
        yield 'pass', ast.Pass()
    if isinstance(node, ast.Break):
        yield 'pass', ast.Pass()
    if isinstance(node, ast.Constant):
        v = node.value
        if isinstance(v, bool):
            yield 'const', ast.Constant(not v)
        elif isinstance(v, int):
            yield 'const', ast.Constant(v + 1)
        elif isinstance(v, str):
            yield 'const', ast.Constant(v + 'x')
        elif v is None:
            yield 'const', ast.Constant(0)
    if isinstance(node, ast.BinOp):
        if isinstance(node.op, ast.Add):
            yield 'binop', cp().left
            yield 'binop', cp().right
        if isinstance(node.op, ast.Sub):
            n = cp()
            n.op = ast.Add()
            yield 'binop', n
    if isinstance(node, ast.Call):
        if len(node.args) >= 2:
            for i in range(len(node.args) - 1):
                n = cp()
                n.args[i], n.args[i + 1] = n.args[i + 1], n.args[i]
                yield 'swapargs', n
        for i in range(len(node.args)):
            if len(node.args) > 1 and not isinstance(
                    node.args[i], ast.Starred):
                n = cp()
                del n.args[i]
                yield 'droparg', n
        for i in range(len(node.keywords)):
            n = cp()
            del n.keywords[i]
            yield 'dropkw', n
        if len(node.args) == 1 and isinstance(
                node.func, ast.Name) and not node.keywords:
            yield 'unwrap', cp().args[0]
    if isinstance(node, (ast.ListComp, ast.SetComp, ast.DictComp,
                         ast.GeneratorExp)):
        for i, g in enumerate(node.generators):
            if g.ifs:
                n = cp()
                n.generators[i].ifs = []
                yield 'dropif', n
    if isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load):
        swaps = {'items': None, 'append': None, 'name': 'result_key',
                 'result_key': 'name', 'fields': 'fields_map',
                 'get': '__getitem__', 'setdefault': None,
                 'extend': 'append', 'update': None, 'values': 'keys',
                 'ident': 'node', 'popleft': 'pop', 'pop': None}
        new = swaps.get(node.attr)
        if new:
            n = cp()
            n.attr = new
            yield 'attr', n
    if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
        yield 'noslice', cp().value
    if isinstance(node, ast.Dict) and len(node.keys) > 1:
        n = cp()
        del n.keys[-1]
        del n.values[-1]
        yield 'dropitem', n
    if isinstance(node, ast.List) and len(node.elts) > 1:
        n = cp()
        del n.elts[-1]
        yield 'dropitem', n
    if isinstance(node, ast.ExceptHandler):
        n = cp()
        n.body = [ast.Raise()]
        yield 'reraise', n
    if isinstance(node, ast.For):
        n = cp()
        n.iter = ast.Subscript(
            ast.Call(ast.Name('list', ast.Load()), [n.iter], []),
            ast.Slice(None, ast.Constant(1), None), ast.Load())
        yield 'firstonly', n


class Replace(ast.NodeTransformer):
    def __init__(self, index, new):
        self.i = -1
        self.index = index
        self.new = new

    def visit(self, node):
        self.i += 1
        if self.i == self.index:
            self.generic_visit_count(node)
            return self.new
        return self.generic_visit(node)

    def generic_visit_count(self, node):
        pass


def nodes_in_order(tree):
    out = []

    class V(ast.NodeTransformer):
        def visit(self, node):
            out.append(node)
            return self.generic_visit(node)
    V().visit(tree)
    return out


def skip_positions(tree):
    """Docstrings, annotations, decorators, __repr__, imports."""
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.ClassDef, ast.Module)):
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(
                    n.body[0].value, ast.Constant):
                skip.update(id(x) for x in ast.walk(n.body[0]))
        if isinstance(n, ast.FunctionDef) and n.name in (
                '__repr__', '__str__'):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Assign) and any(
                isinstance(t, ast.Name) and t.id.startswith('__')
                for t in n.targets):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.If) and 'TYPE_CHECKING' in ast.unparse(n.test):
            skip.update(id(x) for x in ast.walk(n))
    return skip


def mutants(path):
    src = open('/repo/' + path).read()
    tree = ast.parse(src)
    order = nodes_in_order(tree)
    skip = skip_positions(tree)
    parents = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            parents[id(c)] = n
    for i, n in enumerate(order):
        if id(n) in skip:
            continue
        for kind, new in variants(n):
            t2 = ast.parse(src)
            try:
                out = ast.unparse(ast.fix_missing_locations(
                    Replace(i, new).visit(t2)))
                compile(out, path, 'exec')
            except Exception:                        # noqa
                continue
            line = getattr(n, 'lineno', 0)
            if isinstance(n, (ast.If, ast.For, ast.ExceptHandler)):
                before = ast.unparse(n).split('\n')[0]
                after = ast.unparse(ast.fix_missing_locations(
                    new)).split('\n')[0]
            else:
                p = n
                while not isinstance(p, ast.stmt) and id(p) in parents:
                    p = parents[id(p)]
                before = ast.unparse(n)
                after = ast.unparse(ast.fix_missing_locations(new))
            fn = n
            names = []
            while id(fn) in parents:
                fn = parents[id(fn)]
                if isinstance(fn, (ast.FunctionDef, ast.ClassDef,
                                   ast.AsyncFunctionDef)):
                    names.insert(0, fn.name)
            yield {'file': path, 'line': line, 'kind': kind,
                   'in': '.'.join(names), 'before': before[:160],
                   'after': after[:160], 'src': out}


def run_tests(m):
    w = '/dev/shm/mut_%d' % os.getpid()
    if not os.path.isdir(w):
        subprocess.check_call(['cp', '-a', '/repo', w])
    orig = open('/repo/' + m['file']).read()
    p = os.path.join(w, m['file'])
    with open(p, 'w') as f:
        f.write(m['src'])
    try:
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        r = subprocess.run(
            [PY, '-m', 'pytest', '-q', '-x', '--no-header', '-p',
             'no:cacheprovider', '--ignore=docs/test_asyncio.py', 'tests',
             'docs'],
            cwd=w, capture_output=True, text=True, timeout=40, env=env)
        bad = re.findall(r'^(?:FAILED|ERROR) ', r.stdout, re.M)
        return r.returncode == 0 or (not bad and ' passed' in r.stdout)
    except subprocess.TimeoutExpired:
        return False
    finally:
        with open(p, 'w') as f:
            f.write(orig)


def gen(out, files):
    if not files:
        files = subprocess.check_output(
            ['git', 'ls-files', 'hiku'], cwd='/repo', text=True).split()
    files = [f for f in files if f.endswith('.py') and f not in SKIP]
    todo = [m for f in files for m in mutants(f)]
    print(len(todo), 'mutants', flush=True)
    n = 0
    with concurrent.futures.ProcessPoolExecutor(8) as ex, open(
            out, 'w') as fo:
        for m, alive in zip(todo, ex.map(run_tests, todo, chunksize=4)):
            if alive:
                n += 1
                fo.write(json.dumps(m) + '\n')
                fo.flush()
    print(n, 'survive the tests', flush=True)


def check(inp, out):
    props = [json.loads(x) for x in open(HERE + '/properties.jsonl')]
    table = json.load(open(HERE + '/tools/mutate_map.json'))
    done = set()
    if os.path.exists(out):
        for line in open(out):
            done.add(json.loads(line)['n'])
    w = '/dev/shm/mutcheck_%d' % os.getpid()
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', w + '_repo'])
    v = w + '_verif'
    shutil.copytree(HERE, v, ignore=shutil.ignore_patterns(
        'seeded', '.git', 'evidence'))
    with open(out, 'a') as fo:
        for n, line in enumerate(open(inp)):
            if n in done:
                continue
            m = json.loads(line)
            orig = open('/repo/' + m['file']).read()
            p = os.path.join(w + '_repo', m['file'])
            open(p, 'w').write(m['src'])
            caught = None
            t = time.time()
            ran = []
            for pid in table.get(m['file'], []):
                env = dict(os.environ, SYMX_REPO=w + '_repo',
                           SYMX_BUDGET='40')
                try:
                    r = subprocess.run(
                        [v + '/run_check.py', pid, '--tier', 'quick'],
                        cwd=v, capture_output=True, text=True, env=env,
                        timeout=150)
                    rc, txt = r.returncode, r.stdout + r.stderr
                except subprocess.TimeoutExpired:
                    rc, txt = 99, ''
                ran.append([pid, rc, 'INCONCL' in txt])
                if rc != 0:
                    caught = pid
                    break
            open(p, 'w').write(orig)
            m.pop('src')
            m.update(n=n, caught=caught, ran=ran,
                     wall=round(time.time() - t, 1))
            fo.write(json.dumps(m) + '\n')
            fo.flush()
    shutil.rmtree(w + '_repo')
    shutil.rmtree(v)


if __name__ == '__main__':
    if sys.argv[1] == 'gen':
        gen(sys.argv[2], sys.argv[3:])
    else:
        check(sys.argv[2], sys.argv[3])
