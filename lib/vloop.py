"""Virtual-time asyncio loop.

The loop's selector never sleeps: when nothing is ready it advances the clock to
the next timer.  When there is no timer either, the program can never make
progress again (every await in this code base is on a timer, a port or another
task): that is reported as Deadlock.  Fake file descriptors (see port.py) report
readiness synchronously.
"""
import asyncio
import heapq
import selectors
import time
import traceback

_real_sleep = time.sleep


def _sleep(seconds):
    """A blocking sleep in the driver: time passes while nothing else runs."""
    loop = asyncio._get_running_loop()
    if not isinstance(loop, VirtualLoop):
        return _real_sleep(seconds)
    loop._now += seconds
    loop.blocked.append((seconds, "".join(traceback.format_stack()[-6:])))


time.sleep = _sleep


def _clock(name, epoch):
    """The driver's clocks show the loop's time."""
    real = getattr(time, name)

    def now():
        loop = asyncio._get_running_loop()
        return epoch + loop._now if isinstance(loop, VirtualLoop) else real()

    setattr(time, name, now)


for _n, _e in (("time", 1.7e9), ("monotonic", 0.0), ("perf_counter", 0.0)):
    _clock(_n, _e)


class Deadlock(BaseException):
    """Nothing can ever happen again in this run."""


class Livelock(BaseException):
    """The step budget was used up without the run ending."""


class FakeSelector(selectors.BaseSelector):
    def __init__(self):
        self._map = {}          # fileobj/fd -> SelectorKey
        self._fake = {}         # fake fd -> port
        self.loop = None
        self.steps = 0
        self.max_steps = 2_000_000

    # registration -----------------------------------------------------
    @staticmethod
    def _fd(fileobj):
        return fileobj if isinstance(fileobj, int) else fileobj.fileno()

    def register(self, fileobj, events, data=None):
        fd = self._fd(fileobj)
        if fd in self._map:
            raise KeyError(fd)
        key = selectors.SelectorKey(fileobj, fd, events, data)
        self._map[fd] = key
        return key

    def unregister(self, fileobj):
        return self._map.pop(self._fd(fileobj))

    def modify(self, fileobj, events, data=None):
        fd = self._fd(fileobj)
        if fd not in self._map:
            raise KeyError(fd)
        key = selectors.SelectorKey(fileobj, fd, events, data)
        self._map[fd] = key
        return key

    def get_key(self, fileobj):
        try:
            return self._map[self._fd(fileobj)]
        except KeyError:
            raise KeyError("{!r} is not registered".format(fileobj)) from None

    def get_map(self):
        return self._map

    def close(self):
        self._map.clear()

    # fake descriptors ---------------------------------------------------
    def add_fake(self, fd, port):
        self._fake[fd] = port

    def _ready(self):
        out = []
        for fd, key in list(self._map.items()):
            port = self._fake.get(fd)
            if port is None:
                continue
            ev = 0
            if key.events & selectors.EVENT_READ and port.readable():
                ev |= selectors.EVENT_READ
            if key.events & selectors.EVENT_WRITE and port.writable():
                ev |= selectors.EVENT_WRITE
            if ev:
                out.append((key, ev))
        return out

    def select(self, timeout=None):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Livelock("more than %d loop iterations" % self.max_steps)
        ready = self._ready()
        if ready:
            return ready
        if timeout is None:
            raise Deadlock("no timer, no input: nothing can ever happen again")
        if timeout > 0:
            self.loop.advance(timeout)
        return []


class FifoTimer(asyncio.TimerHandle):
    """Timers for the same time run in the order they were set."""
    __slots__ = ("no",)

    def __lt__(self, other):
        return (self._when, self.no) < (other._when, other.no)

    __hash__ = asyncio.TimerHandle.__hash__


class VirtualLoop(asyncio.SelectorEventLoop):
    fifo = False             # asyncio leaves the order of timers for the same time open
    timers = 0

    def call_at(self, when, callback, *args, context=None):
        if not self.fifo:
            return super().call_at(when, callback, *args, context=context)
        self._check_closed()
        h = FifoTimer(when, callback, args, self, context)
        self.timers += 1
        h.no = self.timers
        heapq.heappush(self._scheduled, h)
        h._scheduled = True
        return h

    def __init__(self):
        self._now = 1000.0
        sel = FakeSelector()
        super().__init__(selector=sel)
        sel.loop = self
        self.sel = sel
        self.blocked = []        # blocking calls made on the loop
        self.escaped = []        # exceptions that escaped from callbacks
        self.task_errors = []    # exceptions of tasks nobody retrieved
        self.set_exception_handler(self._on_exception)
        self._clock_resolution = 1e-9

    def time(self):
        return self._now

    def advance(self, dt):
        # land exactly on the next timer to avoid rounding livelocks
        target = self._now + dt
        if self._scheduled:
            when = self._scheduled[0]._when
            if abs(when - target) < 1e-6 and when > self._now:
                target = when
        self._now = target

    def _on_exception(self, loop, context):
        exc = context.get("exception")
        msg = context.get("message", "")
        if "never retrieved" in msg:
            self.task_errors.append((msg, exc))
            return
        tb = ""
        if exc is not None:
            tb = "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))
        self.escaped.append((round(self._now - 1000.0, 6), msg, repr(exc), tb))


def run(main, max_steps=2_000_000, fifo=False):
    """Run coroutine function main(loop) to completion on a fresh virtual loop."""
    loop = VirtualLoop()
    loop.fifo = fifo
    loop.sel.max_steps = max_steps
    asyncio.set_event_loop(loop)
    try:
        return loop.run_until_complete(main(loop))
    finally:
        try:
            _teardown(loop)
        finally:
            asyncio.set_event_loop(None)


def _teardown(loop):
    """Cancel what is left, with a small step budget; errors here do not matter."""
    loop.sel.max_steps = loop.sel.steps + 20_000
    try:
        for _ in range(3):
            tasks = [t for t in asyncio.all_tasks(loop) if not t.done()]
            if not tasks:
                break
            for t in tasks:
                t.cancel()
            loop.run_until_complete(
                asyncio.wait(tasks, timeout=1)
            )
    except BaseException:
        pass
    try:
        loop._scheduled.clear()
        loop._ready.clear()
        loop.close()
    except BaseException:
        pass
