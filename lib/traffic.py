"""Concurrent command traffic against a scripted adapter, recorded as a history.

A plan is one command: what is sent, when, how the adapter answers, whether the
caller gives up.  Events are recorded outside the driver: 'call' when a caller
enters it, 'write' when the frame reaches the adapter, 'answer' when the answer
is put on the line, 'cancel', 'end'.
"""
import asyncio
import collections

from . import gen, mtspec as mt, rig
from .adapter import Adapter

RESETS = ((mt.SYS, "resetReq"), (mt.SAPI, "systemReset"))
LONG = ((mt.APP_CNF, "bdbStartCommissioning"), (mt.ZDO, "startupFromApp"))


def limit(c):
    key = (c.subsys, c.name)
    return 30.0 if key in RESETS else 20.0 if key in LONG else 6.0


def reset_ind(rng):
    c = mt.BY_NAME[(mt.SYS, "resetInd")]
    return gen.payload(c.req, rng)


class Plan:
    def __init__(self, c, p, **kw):
        self.c, self.p = c, p
        self.bad = None            # payload that cannot be encoded
        self.rsp = None            # response payload (or resetInd payload)
        self.delay = 0.001         # None: never answered
        self.expected = None       # expected_status
        self.pause = 0.0           # before the call
        self.cancel = None         # seconds after the call
        self.before = []           # frames [(delay, bytes)] ahead of the answer
        self.glue_before = b""     # in the same read, before / after the answer
        self.glue_after = b""
        self.repeats = []          # delays after the answer at which it arrives again
        self.t_call = self.t_write = self.t_answer = self.t_cancel = self.t_end = None
        self.outcome = self.value = None
        self.id = None
        self.__dict__.update(kw)

    @property
    def reset(self):
        return (self.c.subsys, self.c.name) in RESETS

    def frame(self):
        return mt.frame(self.c.type, self.c.subsys, self.c.id, mt.encode(self.c.req, self.p))

    def answer(self):
        if self.reset:
            return mt.command_frame(mt.SYS, "resetInd", self.rsp, mt.AREQ)
        return gen.srsp(self.c, self.rsp)

    def show(self):
        return dict(cmd=repr(self.c), p=self.p, bad=bool(self.bad), rsp=self.rsp, delay=self.delay,
                    expected=self.expected, pause=self.pause, cancel=self.cancel)

    def line(self):
        f = lambda x: None if x is None else round(x, 4)
        return "%s call=%s write=%s answer=%s cancel=%s end=%s %s" % (
            self.c, f(self.t_call), f(self.t_write), f(self.t_answer), f(self.t_cancel), f(self.t_end), self.outcome)


class Responder(Adapter):
    def __init__(self, world):
        super().__init__(world)
        self.waiting = collections.defaultdict(collections.deque)   # frame bytes -> plans
        self.history = []          # (time, event, plan)
        self.unknown = []

    def on_frame(self, typ, sub, cid, data):
        b = mt.frame(typ, sub, cid, data)
        q = self.waiting.get(b)
        while q and q[0].t_cancel is not None and q[0].t_end is not None:
            q.popleft()
        if not q:
            self.unknown.append((self.world.now(), typ, sub, cid, data.hex()))
            return
        p = q.popleft()
        p.t_write = self.world.now()
        self.history.append((p.t_write, "write", p))
        for d, x in p.before:
            if d:
                self.send(x, d)
            else:
                self.send_now(x)
        if p.delay is not None:
            def fire():
                p.t_answer = self.world.now()
                self.history.append((p.t_answer, "answer", p))
                if self.port is not None:
                    self.send_now(p.glue_before + p.answer() + p.glue_after)
            self.loop.call_at(1000.0 + p.t_write + p.delay, fire)
            for d in p.repeats:
                self.send(p.answer(), p.delay + d, ordered=False)


async def drive(loop, ad, api, tasks, rng):
    """Run lists of plans concurrently; returns all plans in call order."""
    order = []

    async def one(p):
        if p.pause:
            await asyncio.sleep(p.pause)

        async def body():
            p.t_call = ad.world.now()
            p.id = len(order)
            order.append(p)
            ad.history.append((p.t_call, "call", p))
            if p.bad is None:
                ad.waiting[p.frame()].append(p)
                arg = gen.lively(p.p, p.c.req, rng)
            else:
                arg = p.bad
            try:
                kw = {} if p.expected is None else {"expected_status": p.expected}
                p.value = await gen.call(api, p.c, arg, **kw)
                p.outcome = "ok"
            except asyncio.CancelledError:
                p.outcome = "cancelled"
                raise
            except Exception as e:
                p.outcome, p.value = "error", e
            finally:
                p.t_end = ad.world.now()
                ad.history.append((p.t_end, "end", p))
        t = asyncio.ensure_future(body())
        if p.cancel is not None:
            await asyncio.wait([t], timeout=p.cancel)
            if not t.done():
                p.t_cancel = ad.world.now()
                ad.history.append((p.t_cancel, "cancel", p))
                t.cancel()
        await asyncio.wait([t])

    async def run(plans):
        for p in plans:
            await one(p)

    await asyncio.gather(*[run(x) for x in tasks])
    return order


def lines(order):
    return [p.line() for p in sorted(order, key=lambda p: (p.t_write if p.t_write is not None else p.t_call))]


def no_stale(plans):
    """An answer that outlives its command (late, or the caller gave up) would
    answer the next command of the same name: it is left out when there is one."""
    names = collections.Counter((p.c.subsys, p.c.name) if not p.reset else "reset" for p in plans)
    for p in plans:
        k = (p.c.subsys, p.c.name) if not p.reset else "reset"
        if names[k] > 1 and (p.cancel is not None or (p.delay is not None and p.delay >= limit(p.c))):
            p.delay = None
    return plans


def spread(cmds, rng, ntasks):
    tasks = [[] for _ in range(ntasks)]
    for c in cmds:
        rng.choice(tasks).append(c)
    return [t for t in tasks if t]
