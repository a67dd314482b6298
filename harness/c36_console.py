"""C36: the web console passes queries and answers through faithfully."""
from symx.session import scenario
from hiku.console import ui
from hiku.engine import Engine, pass_context
from hiku.executors.sync import SyncExecutor
from hiku.graph import Graph, Root, Node as GNode, Field as GField, Option
from hiku.graph import Link as GLink
from hiku.query import Node, Field, Link
from hiku.typedef.kinko import dumps as listing
from hiku.types import TypeRef, Sequence, Integer, String
from harness.world import World, make_graph, reference, attempt

ASSUMPTIONS = ['the json module encodes what it is given; the body is checked '
               'before it is encoded', 'reading of packaged data is replaced '
               'by a stand-in which records what is read']
BOUNDS = ('arbitrary paths of up to 5 characters and those of the console, '
          'up to 6 methods, queries of up to 3 items with arbitrary names, '
          'every kind of failure, payloads of any declared length')


class Text:
    """Encoded JSON."""

    def __init__(self, value):
        self.value = value

    def encode(self, charset='utf-8'):
        return self

    def __len__(self):
        return 77


class Json:
    def __init__(self, fail=False):
        self.fail = fail

    def dumps(self, value):
        return Text(value)


class Pkg:
    """Stand-in for pkgutil."""
    HTML = b'<i>$index_url|$docs_url|$js_url|$other</i>'

    def __init__(self):
        self.read = []

    def get_data(self, package, name):
        self.read.append((package, name))
        if name.endswith('.html'):
            return self.HTML
        return b'javascript'


class Payload:
    """Bytes of a request."""

    def __init__(self, text, broken):
        self.text = text
        self.broken = broken

    def decode(self, charset='utf-8'):
        if self.broken:
            raise UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'broken')
        return self.text


class Input:
    def __init__(self, text, broken=False):
        self.text = text
        self.broken = broken
        self.asked = []

    def read(self, size=None):
        self.asked.append(size)
        return Payload(self.text, self.broken)


class App:
    def __init__(self, s, graph, engine, ctx=None, debug=False):
        self.pkg = Pkg()
        ui.pkgutil = self.pkg
        ui.json = Json()
        self.app = ui.ConsoleApplication(graph, engine, ctx, debug)

    def request(self, method, path, text='', length=None, script=None,
                broken=False):
        env = {'REQUEST_METHOD': method, 'PATH_INFO': path}
        self.input = Input(text, broken)
        env['wsgi.input'] = self.input
        if length is not None:
            env['CONTENT_LENGTH'] = length
        if script is not None:
            env['SCRIPT_NAME'] = script
        started = []

        def start_response(status, headers, exc_info=None):
            started.append((status, headers))
        body = self.app(env, start_response)
        assert len(started) == 1 and len(body) == 1
        return started[0][0], started[0][1], body[0]


def header(headers, name):
    return [v for k, v in headers if k == name]


def check_length(s, headers, body):
    s.check(header(headers, 'Content-Length') == [str(len(body))],
            'the length of the body', headers)


def small_graph():
    return Graph([Root([GField('a', Integer, lambda fs: [1 for _ in fs])])])


PATHS = ('', '/', '/docs', '/console.js', 'free', '/assets/console.html',
         '/../ui.py', '/docs/', '//', '/console.jsx')


@scenario(params={'quick': {'len': 4}, 'thorough': {'len': 5}},
          covers=('404', '405', 'index', 'docs', 'js'))
def statuses(s):
    """Methods and paths."""
    graph = small_graph()
    debug = bool(s.choice('debug', 2))
    app = App(s, graph, Engine(SyncExecutor()), debug=debug)
    path = s.pick('path', PATHS)
    if path == 'free':
        path = s.string('free', 1, s.params['len'], '/docs.')
    method = s.pick('method', ('GET', 'POST', 'PUT', 'HEAD', 'DELETE', 'get'))
    script = s.pick('script', (None, '', '/', '/app', '/app/'))
    del app.pkg.read[:]
    status, headers, body = app.request(method, path, '[:a]', 4, script)
    check_length(s, headers, body)
    s.check(all(p == ('hiku.console', 'assets/console.js')
                for p in app.pkg.read), 'only packaged assets are read',
            app.pkg.read)
    if path == '':
        path = '/'
    if path not in ('/', '/docs', '/console.js'):
        s.cover('404')
        s.check(status == '404 Not Found', 'status', status)
    elif method == 'POST' and path == '/':
        s.check(status == '200 OK', 'status', status)
        s.check(header(headers, 'Content-Type') == ['application/json'],
                'type', headers)
        s.check(body.value == {'a': 1}, 'the answer', body.value)
    elif method != 'GET':
        s.cover('405')
        s.check(status == '405 Method Not Allowed', 'status', status)
    else:
        s.check(status == '200 OK', 'status', status)
        if path == '/':
            s.cover('index')
            base = {'/app': '/app', '/app/': '/app'}.get(script, '')
            s.check(body == '<i>{0}/|{0}/docs|{0}/console.js|$other</i>'
                    .format(base).encode('utf-8'), 'the page', body)
            s.check(header(headers, 'Content-Type') == ['text/html'], 'type')
        elif path == '/docs':
            s.cover('docs')
            s.check(body == listing(graph).encode('utf-8'), 'the listing')
        else:
            s.cover('js')
            s.check(body == b'javascript', 'the script', body)
            s.check(len(app.pkg.read) == 1, 'is read')


QUERIES = (
    ('[:%s]', lambda n: [Field(n[0])]),
    ('[:%s :%s]', lambda n: [Field(n[0]), Field(n[1])]),
    ('[{:%s [:%s]}]', lambda n: [Link(n[0], Node([Field(n[1])]))]),
    ('[{:l [:%s]} :%s]', lambda n: [Link('l', Node([Field(n[0])])),
                                    Field(n[1])]),
    ('[(:%s {:x 4}) {(:p {:x 1}) [:%s]}]',
     lambda n: [Field(n[0], {'x': 4}), Link('p', Node([Field(n[1])]),
                                            {'x': 1})]),
)

@scenario(params={'quick': {'chars': 'abo'}, 'thorough': {'chars': 'abclo'}},
          covers=('valid', 'invalid'), timeout=120)
def queries(s):
    """Valid and invalid queries over a graph."""
    from hiku.validate.query import validate
    w = World(s, max_len=1, ids=(0, 1))
    graph = make_graph(w)
    app = App(s, graph, Engine(SyncExecutor()),
              debug=bool(s.choice('debug', 2)))
    text, spell = s.pick('query', QUERIES)
    names = [s.char('n%d' % i, s.params['chars'])
             for i in range(text.count('%s'))]
    parts = text.split('%s')
    src = parts[0]
    for n, p in zip(names, parts[1:]):
        src = src + n + p
    status, headers, body = app.request('POST', '/', src, len(text))
    check_length(s, headers, body)
    s.check(header(headers, 'Content-Type') == ['application/json'], 'type')
    q = Node(spell(names))
    errors = validate(graph, q)
    if errors:
        s.cover('invalid')
        s.check(status == '400 Bad Request', 'status', status)
        s.check(list(body.value) == ['errors'] and
                s.all([s.any([s.eq(x, y) for y in body.value['errors']])
                       for x in errors]),
                'all of the errors', (body.value, errors))
        s.check(not w.log, 'nothing is executed', w.log)
        return
    s.cover('valid')
    s.check(status == '200 OK', 'status', (status, body.value))
    want = reference(w, 'R', -1, q)
    s.check(s.eq(body.value, want), 'the result', (body.value, want))
    s.observe('got', body.value)


class Boom(Exception):
    pass


FAILURES = ('resolver', 'decode', 'text', 'empty', 'elements', 'context',
            'option', 'none')


@scenario(covers=('failed', 'passed'))
def failures(s):
    """Everything which fails is a server error."""
    k = s.pick('failure', FAILURES)
    v = s.int('value', 0, 9)
    seen = []

    @pass_context
    def field(ctx, fields):
        seen.append(1)
        if k == 'resolver':
            raise Boom('secret')
        return [ctx['k'] for _ in fields]
    graph = Graph([Root([GField('a', Integer, field,
                                options=[Option('x', Integer)]
                                if k == 'option' else None)])])
    debug = bool(s.choice('debug', 2))
    ctx = (None, {}, {'k': v})[s.choice('context', 3)]
    if k not in ('context', 'resolver'):
        ctx = {'k': v}
    app = App(s, graph, Engine(SyncExecutor()), ctx, debug)
    text = {'text': '[:a', 'empty': '', 'elements': '[1]'}.get(k, '[:a]')
    n = s.pick('times', (1, 2))
    for i in range(n):
        status, headers, body = app.request('POST', '/', text, 4,
                                            broken=k == 'decode')
    check_length(s, headers, body)
    if k == 'none' or k == 'context' and ctx:
        s.cover('passed')
        s.check(status == '200 OK', 'status', status)
        s.check(s.eq(body.value, {'a': v}), 'result with the context',
                body.value)
        return
    s.cover('failed')
    if k == 'option':
        s.check(status == '400 Bad Request' and
                len(body.value['errors']) == 1, 'invalid', body.value)
        return
    s.check(status == '500 Internal Server Error', 'status', status)
    s.check(list(body.value) == ['traceback'], 'an error', body.value)
    tb = body.value['traceback']
    if debug:
        s.check(isinstance(tb, str) and 'Traceback' in tb, 'traceback', tb)
    else:
        s.check(tb is None, 'no traceback', tb)


@scenario(covers=('too big', 'read'))
def lengths(s):
    """Payloads of any length, as it is declared."""
    app = App(s, small_graph(), Engine(SyncExecutor()))
    how = s.pick('how', ('given', 'missing', 'empty'))
    n = 0
    if how == 'given':
        n = s.int('length', -5, 2 ** 22)
        length = n
    else:
        length = None if how == 'missing' else ''
    status, headers, body = app.request('POST', '/', '[:a]', length)
    check_length(s, headers, body)
    if n > 2 ** 20:
        s.cover('too big')
        s.check(status == '400 Bad Request', 'status', status)
        s.check(not app.input.asked, 'is not read', app.input.asked)
    else:
        s.cover('read')
        s.check(status == '200 OK', 'status', status)
        want = n if n > 0 else 0
        s.check(len(app.input.asked) == 1 and
                s.eq(app.input.asked[0], want), 'what is declared is read',
                app.input.asked)
