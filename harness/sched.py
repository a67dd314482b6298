"""Controlled completion order of resolver calls.

Import this module before hiku.executors: it replaces concurrent.futures.wait
and asyncio.wait by versions which, while a controller is active, let the
scenario choose which pending calls complete and in which order."""
import asyncio
import concurrent.futures

_real_cf_wait = concurrent.futures.wait
_real_aio_wait = asyncio.wait
ACTIVE = []


class Done:
    """Result of wait(): sets whose order is chosen by the scenario."""


def _ordered(items):
    d = {}
    for i in items:
        d[i] = None
    return d.keys()


class StubFuture:
    def __init__(self, pool, seq, fn, args, kwargs):
        self.pool = pool
        self.seq = seq
        self.fn = fn
        self.args = args
        self.kwargs = kwargs
        self._state = 0
        self._value = None
        self._error = None
        self._cbs = []

    def complete(self):
        if self._state:
            return
        self._state = 1
        try:
            self._value = self.fn(*self.args, **self.kwargs)
        except Exception as e:
            self._error = e
        self.pool.completed.append(self.seq)
        for cb in self._cbs:
            cb(self)

    def done(self):
        return self._state == 1

    def running(self):
        return False

    def cancelled(self):
        return False

    def cancel(self):
        return False

    def add_done_callback(self, cb):
        if self._state:
            cb(self)
        else:
            self._cbs.append(cb)

    def _wait(self, timeout):
        if timeout is not None and not self._state:
            self.pool.wait([self], 'ALL_COMPLETED', timeout)
            if not self._state:
                raise concurrent.futures.TimeoutError()
        self.complete()

    def exception(self, timeout=None):
        self._wait(timeout)
        return self._error

    def result(self, timeout=None):
        self._wait(timeout)
        if self._error is not None:
            raise self._error
        return self._value


class StubPool:
    """A thread pool whose calls complete when the scenario says so."""

    def __init__(self, s, batch=2, prefix='w'):
        self.s = s
        self.batch = batch
        self.prefix = prefix
        self.futures = []
        self.completed = []
        self.events = []
        self.waits = 0
        self.timeouts = 0

    def submit(self, fn, *args, **kwargs):
        f = StubFuture(self, len(self.futures), fn, args, kwargs)
        self.futures.append(f)
        self.events.append(('submit', f.seq))
        return f

    def wait(self, fs, return_when, timeout=None):
        s = self.s
        fs = list(fs)
        fs.sort(key=lambda f: f.seq)
        n = self.waits
        self.waits += 1
        pending = [f for f in fs if not f.done()]
        ready = [f for f in fs if f.done()]
        if timeout is not None and pending and self.timeouts < 3 and s.choice(
                '%s%d.timeout' % (self.prefix, n), 2):
            # time passes and nothing completes
            self.timeouts += 1
        elif pending and not (ready and return_when != 'ALL_COMPLETED'):
            limit = (len(pending) if return_when == 'ALL_COMPLETED'
                     else self.batch)
            k = 0
            while pending and k < limit:
                if k and return_when != 'ALL_COMPLETED' and not s.choice(
                        '%s%d.more%d' % (self.prefix, n, k), 2):
                    break
                i = s.choice('%s%d.pick%d' % (self.prefix, n, k),
                             len(pending))
                f = pending.pop(i)
                self.events.append(('complete', f.seq))
                f.complete()
                ready.append(f)
                k += 1
        return (_ordered(ready), _ordered(pending))


class WaitResult(tuple):
    @property
    def done(self):
        return self[0]

    @property
    def not_done(self):
        return self[1]


def cf_wait(fs, timeout=None, return_when='FIRST_COMPLETED'):
    if ACTIVE:
        return WaitResult(ACTIVE[-1].wait(fs, return_when, timeout))
    return _real_cf_wait(fs, timeout, return_when)


concurrent.futures.wait = cf_wait


class active:
    def __init__(self, pool):
        self.pool = pool

    def __enter__(self):
        ACTIVE.append(self.pool)
        return self.pool

    def __exit__(self, *a):
        ACTIVE.pop()


# -- event loop

class Loop:
    """A private event loop with tasks numbered in the order of creation and
    loaders which finish when the scenario opens their gates."""

    def __init__(self, s, batch=2, prefix='g'):
        self.s = s
        self.batch = batch
        self.prefix = prefix
        self.loop = asyncio.new_event_loop()
        # time passes only when the scenario lets it pass
        self.now = 0.0
        self.elapsed = 0
        self.loop.time = lambda: self.now
        self.loop.set_task_factory(self._factory)
        self.loop.set_exception_handler(lambda loop, ctx: None)
        self.seq = {}
        self.tasks = []
        self.gates = []
        self.opened = 0
        self.events = []
        self.rounds = 0

    def _factory(self, loop, coro, **kw):
        t = asyncio.Task(coro, loop=loop, **kw)
        self.seq[id(t)] = len(self.tasks)
        self.tasks.append(t)
        return t

    def gate(self, label):
        g = self.loop.create_future()
        self.gates.append((label, g))
        self.events.append(('start', label))
        return g

    def gated(self, fn, label=None):
        """The function as a coroutine function which waits for its gate."""
        label = label or getattr(fn, '__name__', 'fn')

        async def loader(*args):
            await self.gate(label)
            self.events.append(('finish', label))
            return fn(*args)
        if hasattr(fn, '__pass_context__'):
            loader.__pass_context__ = fn.__pass_context__
        return loader

    async def idle(self, n=12):
        for _ in range(n):
            await asyncio.sleep(0)

    def pending(self):
        return [x for x in self.gates if not x[1].done()]

    def pass_time(self):
        """Lets the next timeout elapse, if there is one."""
        timers = [h.when() for h in getattr(self.loop, '_scheduled', ())
                  if not h.cancelled()]
        if not timers:
            return False
        self.now = max(self.now, min(timers)) + 0.001
        return True

    def may_pass_time(self):
        timers = [h for h in getattr(self.loop, '_scheduled', ())
                  if not h.cancelled()]
        if timers and self.elapsed < 3:
            self.elapsed += 1
            if self.s.choice('%s.time%d' % (self.prefix, self.elapsed), 2):
                return self.pass_time()
        return False

    def open_some(self):
        """Completes some of the pending calls."""
        s = self.s
        if self.may_pass_time():
            return
        n = self.rounds
        self.rounds += 1
        todo = self.pending()
        k = 0
        while todo and k < self.batch:
            if k and not s.choice('%s%d.more%d' % (self.prefix, n, k), 2):
                break
            i = s.choice('%s%d.pick%d' % (self.prefix, n, k), len(todo))
            label, g = todo.pop(i)
            g.set_result(None)
            k += 1

    async def drive(self, aw, limit=40):
        """Runs an execution to its end, opening gates whenever nothing else
        can happen."""
        task = self.loop.create_task(aw)
        for _ in range(limit):
            await self.idle()
            if task.done():
                break
            if not self.pending():
                if self.pass_time():
                    continue
                break
            self.open_some()
        await self.idle()
        if not task.done():
            task.cancel()
            await self.idle()
            return ('stuck', None)
        if task.cancelled():
            return ('cancelled', None)
        if task.exception() is not None:
            return ('error', task.exception())
        return ('ok', task.result())

    def run(self, aw, limit=40):
        try:
            asyncio.set_event_loop(self.loop)
            LOOPS.append(self)
            return self.loop.run_until_complete(self.drive(aw, limit))
        finally:
            LOOPS.pop()
            self.close()

    def close(self):
        for t in self.tasks:
            if not t.done():
                t.cancel()
        try:
            self.loop.run_until_complete(asyncio.sleep(0))
        except BaseException:
            pass
        asyncio.set_event_loop(None)
        self.loop.close()


LOOPS = []


async def aio_wait(fs, **kw):
    done, pending = await _real_aio_wait(fs, **kw)
    if LOOPS:
        seq = LOOPS[-1].seq
        done = _ordered(sorted(done, key=lambda t: seq.get(id(t), -1)))
        pending = _ordered(sorted(pending, key=lambda t: seq.get(id(t), -1)))
    return done, pending


asyncio.wait = aio_wait
