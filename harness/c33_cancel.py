"""C33: failure and cancellation on the event loop leave nothing running."""
import asyncio
from symx.session import scenario
from harness import sched
from hiku.engine import Engine
from hiku.executors.asyncio import AsyncIOExecutor
from hiku.query import Node, Field, Link
from harness.world import World, make_graph
from harness.c03_schedules import gate_graph, queries
from harness.sizes import place

ASSUMPTIONS = [
    'an execution is cancelled once, after it has been started',
    'a resolver call which is cancelled ends after finitely many steps, '
    'during which any time can pass',
]
BOUNDS = ('queries with up to 6 calls; the step at which the execution is '
          'cancelled or a call fails, the failing call and completion orders '
          'are symbolic; calls which end immediately, clean up for several '
          'steps, or answer all the same when they are cancelled; up to 129 calls '
          'at once')


class Failure(Exception):
    pass


class Calls:
    """Resolver calls which are finished, failed or cancelled on demand."""

    def __init__(self, s, lp, reaction):
        self.s = s
        self.lp = lp
        self.reaction = reaction
        self.started = 0
        self.running = []
        self.cancelled = []
        self.finished = []

    def wrap(self, fn, label):
        async def loader(*args):
            n = self.started
            self.started += 1
            self.running.append(n)
            try:
                await self.lp.gate(n)
            except asyncio.CancelledError:
                self.cancelled.append(n)
                if self.reaction == 1:
                    for _ in range(5):
                        await asyncio.sleep(0)
                elif self.reaction == 2:
                    await asyncio.sleep(0)
                    return fn(*args)
                elif self.reaction == 3:
                    raise Failure('clean up failed')
                raise
            finally:
                self.running.remove(n)
            self.finished.append(n)
            return fn(*args)
        return loader


def drive(s, lp, calls, task, what):
    """Opens gates in any order; at any step cancels the execution or lets a
    call fail.  Returns what was done."""
    async def go():
        failed = itself = False
        early = 1 + s.choice('early', 3) if s.params.get('early') else 12
        for step in range(12):
            await lp.idle(early)
            if task.done():
                break
            if early == 12 and not lp.pending():
                if lp.pass_time():
                    continue
                break
            if not failed and s.bool('%s%d' % (what, step)):
                if what == 'cancel':
                    s.cover('cancelled with %d' % len(calls.running))
                    before = (len(lp.tasks), list(calls.running))
                    task.cancel()
                    for _ in range(30):
                        if task.done():
                            break
                        lp.may_pass_time()
                        await asyncio.sleep(0)
                    s.check(task.done(), 'a cancelled execution ends')
                    # at the very moment the caller learns about it
                    s.check(task.cancelled(),
                            'the cancellation reaches the caller')
                    s.check(not calls.running,
                            'no resolver call is left running',
                            calls.running)
                    s.check(all([t.done() for t in lp.tasks
                                 if t not in (task, lp.tasks[0])]),
                            'no task is left')
                    if early == 12:
                        s.check(sorted(calls.cancelled) == sorted(before[1]),
                                'every pending call was cancelled, no other',
                                (calls.cancelled, before[1]))
                    s.check(len(lp.tasks) == before[0],
                            'no resolver call is started')
                    n = calls.started
                    await lp.idle()
                    s.check(calls.started == n and
                            len(lp.tasks) == before[0],
                            'no resolver call is started later')
                    return 'cancelled'
                failed = True
                pend = lp.pending()
                k = s.choice('victim', len(pend))
                s.cover('failed')
                if s.choice('itself', 2):
                    # what the call waits for was cancelled by somebody
                    s.cover('cancelled itself')
                    itself = True
                    pend[k][1].cancel()
                else:
                    pend[k][1].set_exception(
                        Failure('call %d' % pend[k][0]))
                if s.bool('alone'):
                    continue
            if lp.pending():
                lp.open_some()
        await lp.idle()
        if not failed:
            while lp.pending():
                lp.open_some()
                await lp.idle()
                if not task.done() and not lp.pending():
                    lp.pass_time()
                    await lp.idle()
            return 'finished'
        s.check(task.done(), 'an execution with a failed call ends')
        s.check(task.cancelled() if itself else not task.cancelled() and
                isinstance(task.exception(), Failure),
                'the error of the call reaches the caller')
        n = calls.started
        # whatever happens to the other calls
        for label, g in lp.pending():
            g.set_result(None)
        await lp.idle()
        s.check(calls.started == n,
                'no resolver call is started after the failure')
        return 'failed'
    return go()


def run(s, what):
    w = World(s, ids=(0, 1), max_len=1)
    lp = sched.Loop(s, batch=s.params['batch'])
    reaction = s.choice('reaction', 4) if what == 'cancel' else 0
    calls = Calls(s, lp, reaction)
    cache = {}

    def wrap(fn, label):
        if id(fn) not in cache:
            cache[id(fn)] = calls.wrap(fn, label)
        return cache[id(fn)]
    graph = gate_graph(make_graph(w), wrap)
    if s.params.get('ordered'):
        q = Node([Field('a'), Link('l', Node([Field('b'), Field('g')])),
                  Field('b')], ordered=True)
    else:
        q = queries(s)
    engine = Engine(AsyncIOExecutor(lp.loop))

    async def execution():
        res = await engine.execute(graph, q)
        return res

    async def main():
        task = lp.loop.create_task(execution())
        res = await drive(s, lp, calls, task, what)
        if res == 'finished':
            s.cover('finished')
            s.check(task.done() and task.exception() is None,
                    'an undisturbed execution succeeds')
        return res
    try:
        asyncio.set_event_loop(lp.loop)
        sched.LOOPS.append(lp)
        s.observe('end', lp.loop.run_until_complete(main()))
    finally:
        sched.LOOPS.pop()
        lp.close()


P = {'quick': {'batch': 1}, 'thorough': {'batch': 2}}


@scenario(params=P, covers=('cancelled with 1', 'cancelled with 2',
                            'finished'), timeout=120)
def cancellation(s):
    run(s, 'cancel')


@scenario(params={'batch': 1, 'early': True}, timeout=120,
          covers=('cancelled with 1',))
def early_cancellation(s):
    """Cancellation while calls are just being started or finished."""
    run(s, 'cancel')


@scenario(params=P, covers=('failed', 'finished', 'cancelled itself'), timeout=120)
def failure(s):
    run(s, 'fail')


@scenario(params={'batch': 2, 'ordered': True}, timeout=120,
          covers=('cancelled with 2',))
def cancellation_of_mutation(s):
    run(s, 'cancel')


@scenario(params={'batch': 2, 'ordered': True}, timeout=120,
          covers=('failed',))
def failure_of_mutation(s):
    run(s, 'fail')


@scenario(covers=('cancel', 'failure'))
def large(s):
    """Many calls at once."""
    w = World(s, ids=(0, 1), max_len=0)
    lp = sched.Loop(s, batch=1)
    n = s.pick('size', (3, 17, 129))
    what = s.pick('what', ('cancel', 'failure'))
    calls = Calls(s, lp, s.choice('reaction', 4) if what == 'cancel' else 0)
    cache = {}

    def wrap(fn, label):
        if id(fn) not in cache:
            cache[id(fn)] = calls.wrap(fn, label)
        return cache[id(fn)]
    graph = gate_graph(make_graph(w), wrap)
    q = Node([Link('p', Node([Field('b')]), {'x': i}, 'z%d' % i)
              for i in range(n)])
    before = s.pick('before', (0, 1, n - 1))
    k = place(s, 'victim', n - before)

    async def main():
        task = lp.loop.create_task(Engine(AsyncIOExecutor(lp.loop)).execute(
            graph, q))
        await lp.idle()
        s.check(len(calls.running) == n, 'independent calls run together',
                calls.running)
        for _, g in lp.pending()[:before]:
            g.set_result(None)
        await lp.idle()
        s.check(not task.done(), 'calls are awaited')
        pending = list(calls.running)
        if what == 'cancel':
            s.cover('cancel')
            task.cancel()
            for _ in range(60):
                if task.done():
                    break
                lp.may_pass_time()
                await asyncio.sleep(0)
            s.check(task.cancelled(),
                    'the cancellation reaches the caller')
            s.check(not calls.running, 'no resolver call is left running',
                    calls.running)
            s.check(sorted(calls.cancelled) == pending,
                    'every pending call was cancelled', calls.cancelled)
        else:
            s.cover('failure')
            lp.pending()[k][1].set_exception(Failure('failed'))
            await lp.idle()
            s.check(task.done() and not task.cancelled() and
                    isinstance(task.exception(), Failure),
                    'the error of the call reaches the caller')
            for _, g in lp.pending():
                g.set_result(None)
        await lp.idle()
        s.check(calls.started == n and all(
            [t.done() for t in lp.tasks if t is not lp.tasks[0]]),
            'nothing is started later')
    try:
        asyncio.set_event_loop(lp.loop)
        sched.LOOPS.append(lp)
        lp.loop.run_until_complete(main())
    finally:
        sched.LOOPS.pop()
        lp.close()
