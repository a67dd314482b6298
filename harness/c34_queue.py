"""C34: callbacks of the task queue run exactly once at the right time."""
from symx.session import scenario
from harness import sched
from harness.sizes import WIDE, place
from hiku.executors.queue import Queue, TaskSet, Workflow
from hiku.executors.sync import SyncExecutor
from hiku.executors.threads import ThreadsExecutor

ASSUMPTIONS = [
    'tasks and sub-groups are added to a group, and callbacks attached to it, '
    'before it completes (by its creator, or in callbacks of its own tasks, '
    'of its sub-groups and below)',
    'a future is given a callback before it is reported as completed',
]
BOUNDS = ('programs of up to 3 (thorough: 4) operations (submit, fork, submit '
          'in a fork, second callback) at the start and inside callbacks, '
          'groups nested up to 4 levels, any completion order, up to 3 '
          '(thorough: 2) completions reported at once; up to 129 tasks, '
          'groups or levels of groups in concrete orders')


class Future:
    """A future is known by its number, which may be symbolic."""

    def __init__(self, seq):
        self.seq = seq

    def __eq__(self, other):
        return isinstance(other, Future) and self.seq == other.seq

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.seq)


class Executor:
    def __init__(self):
        self.futures = []

    def submit(self, fn, *args, **kwargs):
        f = Future(len(self.futures))
        self.futures.append(f)
        fn(*args, **kwargs)
        return f


class Group:
    """What the specification knows about a group of tasks."""

    def __init__(self, ts, parent):
        self.ts = ts
        self.parent = parent
        self.tasks = []
        self.subs = []
        self.cbs = []           # number of runs of each callback

    def over(self):
        """All of the tasks and sub-groups, and their callbacks, are over."""
        for t in self.tasks:
            if not t.done or not t.ran():
                return False
        for g in self.subs:
            if not g.over() or not g.ran():
                return False
        return True

    def ran(self):
        return all([c[0] == 1 for c in self.cbs])


class Task:
    def __init__(self):
        self.fut = None
        self.done = False
        self.cbs = []

    def ran(self):
        return all([c[0] == 1 for c in self.cbs])


class Program:
    def __init__(self, s, executor, ops):
        self.s = s
        self.queue = Queue(executor)
        self.left = ops
        self.n = 0
        self.tasks = []
        self.groups = []
        self.reported = []

    def group(self, parent):
        ts = self.queue.fork(None if parent is None else parent.ts)
        g = Group(ts, parent)
        if parent is not None:
            parent.subs.append(g)
        self.groups.append(g)
        self.group_cb(g)
        return g

    def group_cb(self, g):
        count = [0]
        g.cbs.append(count)

        def cb():
            count[0] += 1
            self.s.cover('group')
            self.s.check(count[0] == 1, 'a callback of a group runs once')
            self.s.check(g.over(), 'all of the tasks and sub-groups are over')
            if g.parent is not None:
                self.ops(g.parent)
        self.queue.add_callback(g.ts, cb)

    def task(self, g):
        t = Task()
        t.seq = len(self.tasks)
        g.tasks.append(t)
        self.tasks.append(t)
        seen = []
        t.fut = g.ts.submit(lambda *a, **k: seen.append((a, k)), t.seq, k=g)
        t.seen = seen
        self.task_cb(t, g)
        return t

    def task_cb(self, t, g):
        count = [0]
        t.cbs.append(count)

        def cb():
            count[0] += 1
            self.s.cover('task')
            self.s.check(count[0] == 1, 'a callback of a task runs once')
            self.s.check(t.done or self.s.any(
                [self.s.eq(t.fut.seq, n) for n in self.reported]),
                'the task is completed')
            t.done = True
            self.ops(g)
        self.queue.add_callback(t.fut, cb)

    def ops(self, g):
        """Some operations on a group which is not over, or an outer one."""
        s = self.s
        while self.left > 0:
            n = self.n
            self.n += 1
            op = s.int('op%d' % n, 0, 5)
            if op == 0:
                return
            self.left -= 1
            if op == 1:
                self.task(g)
            elif op == 2:
                self.task(self.group(g))
            elif op == 3:
                self.group(g)
            elif op == 4:
                self.group_cb(g)
            else:
                if g.parent is None:
                    s.assume(False)
                self.task(g.parent)

    def end(self):
        s = self.s
        for t in self.tasks:
            s.check(t.ran(), 'callbacks of every task have run')
            s.check(len(t.seen) == 1 and t.seen[0][0] == (t.seq,)
                    and list(t.seen[0][1]) == ['k'],
                    'the function of a task is called once', t.seen)
        for g in self.groups:
            s.check(g.over() and g.ran(), 'callbacks of every group have run')
        s.check(not self.queue.__futures__, 'nothing is left in the queue')
        s.observe('groups', len(self.groups))
        s.observe('tasks', len(self.tasks))

    def prompt(self):
        for t in self.tasks:
            if t.done:
                self.s.check(t.ran(), 'a callback of a completed task has run')
        for g in self.groups:
            if g.over():
                self.s.check(g.ran(), 'a callback of a group which is over '
                             'has run')


C = ('task', 'group')


@scenario(params={'quick': {'ops': 3, 'batch': 3},
                  'thorough': {'ops': 4, 'batch': 2}}, covers=C,
          timeout=60)
def orders(s):
    """Tasks complete in any order, several may be reported at once."""
    p = Program(s, Executor(), s.params['ops'])
    root = p.group(None)
    p.task(root)
    p.ops(root)
    step = 0
    while True:
        pending = [t for t in p.tasks if not t.done]
        s.check(sorted([f.seq for f in p.queue.__futures__]) ==
                [t.fut.seq for t in pending], 'the pending tasks are known')
        if not pending:
            break
        done = []
        k = 0
        while k < min(s.params['batch'], len(pending)):
            if k and not s.bool('more%d.%d' % (step, k)):
                break
            # which one is completed is decided by the solver
            n = s.int('pick%d.%d' % (step, k), pending[0].fut.seq,
                      pending[-1].fut.seq)
            s.assume(s.any([s.eq(n, t.fut.seq) for t in pending]))
            s.assume(s.not_(s.any([s.eq(n, f.seq) for f in done])))
            done.append(Future(n))
            k += 1
        p.reported = [f.seq for f in done]
        step += 1
        p.queue.progress(done)
        for t in pending:
            if s.any([s.eq(t.fut.seq, n) for n in p.reported]):
                t.done = True
        p.prompt()
    p.end()


class Flow(Workflow):
    def __init__(self, p):
        self.p = p
        self.calls = 0

    def result(self):
        self.calls += 1
        self.p.end()
        return 'result'


@scenario(params={'quick': {'ops': 4}, 'thorough': {'ops': 5}}, covers=C)
def synchronous(s):
    """The same under the loop of the synchronous executor."""
    class Marking(SyncExecutor):
        def submit(self, fn, *args, **kwargs):
            fut = SyncExecutor.submit(self, fn, *args, **kwargs)
            p.tasks[-1].done = True
            return fut
    ex = Marking()
    p = Program(s, ex, s.params['ops'])
    root = p.group(None)
    p.task(root)
    p.ops(root)
    flow = Flow(p)
    s.check(ex.process(p.queue, flow) == 'result', 'the result is returned')
    s.check(flow.calls == 1, 'the result is taken once')


@scenario(params={'quick': {'ops': 3}, 'thorough': {'ops': 4}}, covers=C)
def pool(s):
    """The same under the loop of the executor of threads."""
    pl = sched.StubPool(s, batch=2)

    class Marking(ThreadsExecutor):
        def submit(self, fn, *args, **kwargs):
            t = p.tasks[-1]

            def run(*a, **k):
                t.done = True
                return fn(*a, **k)
            return ThreadsExecutor.submit(self, run, *args, **kwargs)
    ex = Marking(pl)
    p = Program(s, ex, s.params['ops'])
    root = p.group(None)
    p.task(root)
    p.ops(root)
    flow = Flow(p)
    with sched.active(pl):
        s.check(ex.process(p.queue, flow) == 'result',
                'the result is returned')
    s.check(flow.calls == 1, 'the result is taken once')


@scenario(covers=C)
def large(s):
    """Many tasks or groups, in a few orders; one, at a picked place,
    completes last."""
    kind = s.pick('kind', ('tasks', 'groups', 'roots', 'chain', 'callbacks'))
    n = s.pick('size', WIDE)
    order = s.pick('order', ('forward', 'backward', 'together', 'halves'))
    p = Program(s, Executor(), 0)
    root = p.group(None)
    p.task(root)
    g = root
    for i in range(n):
        if kind == 'tasks':
            p.task(root)
        elif kind == 'groups':
            p.task(p.group(root))
        elif kind == 'roots':
            p.task(p.group(None))
        elif kind == 'chain':
            g = p.group(g)
            if i % 2 or i == n - 1:
                p.task(g)
        else:
            p.group_cb(root)
    todo = list(p.tasks)
    if order == 'backward':
        todo.reverse()
    last = todo.pop(place(s, 'last', len(todo)))
    if order == 'together':
        steps = [todo]
    elif order == 'halves':
        k = len(todo) // 2
        steps = [todo[:k], todo[k:]]
    else:
        steps = [[t] for t in todo]
    for step in steps + [[last]]:
        if not step:
            continue
        # which tasks are completed is known by their numbers
        done = [Future(t.fut.seq) for t in step]
        p.reported = [f.seq for f in done]
        p.queue.progress(done)
        for t in step:
            t.done = True
        if steps and step is not steps[0] and len(steps) > 3 and step[0] is not last:
            continue
        p.prompt()
        s.check(sorted([f.seq for f in p.queue.__futures__]) ==
                [t.fut.seq for t in p.tasks if not t.done],
                'the pending tasks are known')
    p.end()
