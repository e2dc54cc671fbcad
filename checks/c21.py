"""C21: shutdown releases the port for good."""
import asyncio

import serial
import zigpy.types as zt

from lib import gen, mtspec as mt, port, rig, startup, vloop, znp
from lib.core import Violation

PROP = "C21"
CASES = {"quick": 6000, "thorough": 120000}
RULE = ("A case takes the driver to a chosen stage of its life - never started, idle, with requests pending, in the middle "
        "of a startup, after a startup that failed or was cancelled, at a chosen moment of the recovery from a lost "
        "connection (waiting, opening, any command, after failing attempts), recovered - shuts it down once, repeatedly or "
        "several times at once, watches the port for an hour and starts it again. Some cases use the API without an "
        "application. Distinct = distinct (stage, time or command, faults, way of shutting down); non-trivial = the port "
        "and every pending request were judged.")
ASSUMPTIONS = ["the port accepts output eventually", "opening a port ends (fails or succeeds)"]
STAGES = ("never", "idle", "busy", "busy", "startup", "startup", "failed", "cancelled", "lost", "lost", "lost", "lost",
          "recovered", "api")
REQUIRED = dict({"stage_" + s: 200 for s in set(STAGES)}, **{
    "shutdowns": 8000, "restarted": 4000, "pending": 2000, "waiting_to_retry": 300, "connecting": 60, "in_recovery": 150,
    "after_failed_attempts": 200, "losses": 1500, "concurrent": 500, "same_app": 1000, "lost_while_closing": 300, "partial_frame": 500})


def make_case(i, rng, ctx):
    stage = STAGES[i % len(STAGES)]
    x = rng.random()
    at = (rng.choice((0.0, 0.001, 0.5, 1.0, 4.999, 5.0, 5.5, 6.0)) if x < 0.15 else rng.uniform(0, 5) if x < 0.35
          else rng.uniform(5, 8) if x < 0.75 else rng.uniform(8, 40))
    return {"stage": stage, "product": rng.randrange(3), "at": at, "nth": rng.randrange(42) if rng.random() < 0.7 else None,
            "tick": rng.randrange(6), "times": rng.choice((1, 1, 2, 3)), "together": rng.random() < 0.25,
            "form": rng.random() < 0.6, "bad": rng.choice(("open", "silent", "status", "lose", "later")),
            "attempts": rng.choice((0, 0, 0, 1, 2, 4)), "again": rng.choice(("same", "new", "new")),
            "lose": rng.random() < 0.2, "n": rng.choice((0, 1, 2, 5, 8)), "prior": rng.choice(startup.KINDS)}


def run_case(case, rng, ctx):
    vloop.run(lambda loop: (_api if case["stage"] == "api" else _run)(loop, case, rng, ctx))


class Requests:
    """Requests of every kind, none of which may hang."""

    def __init__(self, app, z, rng, ctx, dev):
        self.app, self.z, self.rng, self.ctx, self.dev = app, z, rng, ctx, dev
        self.tasks = []

    def issue(self):
        app, rng = self.app, self.rng
        dev = rig.device(app, self.dev.ieee)
        k = rng.randrange(6)
        data = b"\x01\x07\x00" + bytes(rng.randrange(256) for _ in range(rng.randrange(8)))
        if k == 0:
            c = app.request(dev, 260, 6, 1, 1, 7, data, expect_reply=rng.random() < 0.5)
        elif k == 1:
            c = app.mrequest(zt.uint16_t(0x100), 260, 6, 1, 7, data)
        elif k == 2:
            c = app.broadcast(260, 6, 1, 255, 0, 0, 7, data)
        elif k == 3:
            c = app.permit(rng.choice((0, 60)))
        elif k == 4:
            c = dev.zdo.Node_Desc_req(dev.nwk)
        else:
            c = dev.request(260, 6, 1, 1, 7, data, timeout=rng.choice((0.5, 5, 20)))
        t = asyncio.ensure_future(self.quiet(c))
        t.k = k
        self.tasks.append(t)
        self.ctx.count("pending")

    @staticmethod
    async def quiet(coro):
        try:
            return ("ok", await coro)
        except asyncio.CancelledError:
            raise
        except Exception as e:
            return ("error", repr(e))

    async def judge(self, limit):
        if self.tasks:
            _, left = await asyncio.wait(self.tasks, timeout=limit)
            if left:
                raise Violation("%d pending requests did not end within %d s of the shutdown" % (len(left), limit))


async def ticks(n):
    for _ in range(n):
        await asyncio.sleep(0)


async def shut(app, case, ctx, world, what):
    """Shut down the way the case says; it must not fail and must not take long."""
    n = case["times"]
    t0 = world.now()
    if case["together"]:
        ctx.count("concurrent")
        rs = await asyncio.gather(*[rig.outcome(app.shutdown(), 60) for _ in range(n)])
    else:
        rs = []
        for k in range(n):
            rs.append(await rig.outcome(app.shutdown(), 60))
            if k == 0 and case["lose"]:
                await ticks(case["tick"])
    ctx.count("shutdowns", n)
    for r in rs:
        if r[0] != "ok":
            raise Violation("shutdown failed (%s): %s" % (what, "it did not end" if r[0] == "limit" else repr(r[1])))
    if world.now() > t0 + 30:
        raise Violation("shutdown took %.1f s (%s)" % (world.now() - t0, what))


async def quiet_hour(world, what, grace=0.05):
    """Nothing may be open or be opened from now on."""
    n = len(world.opens)
    await asyncio.sleep(grace)
    if world.open_ports:
        raise Violation("the port is still open %.2f s after shutdown (%s)" % (grace, what))
    m = len(world.opens) if grace > 1 else n
    await asyncio.sleep(3600)
    if len(world.opens) > m or world.open_ports:
        raise Violation("the port was opened again %s s after shutdown (%s)" % (
            [round(o[0] - (world.now() - 3600 - grace), 3) for o in world.opens[m:m + 3]], what))


async def usable(app, z, rng, what):
    """A request is submitted and confirmed, an incoming message is delivered."""
    d = z.devices.get(0x2345) or rig.known_device(app, z, rng, 0x2345)
    if zt.EUI64(d.ieee) not in app.devices:
        d = rig.known_device(app, z, rng, 0x2345, ieee=d.ieee)
    z.on_data = lambda p: ({"status": 0}, [])
    n = len(z.cmd_log)
    r = await rig.outcome(app.request(rig.device(app, d.ieee), 260, 6, 1, 1, 9, b"\x01\x09\x02", expect_reply=False), 60)
    if r[0] != "ok" or r[1][0] != 0:
        raise Violation("a request fails %s: %r" % (what, r))
    if not any(c.name == "dataRequest" for _, c, _ in z.cmd_log[n:]):
        raise Violation("a request does not reach the adapter %s" % what)
    del app.messages[:]
    body = bytes([0x18, 0x55, 0x0A, 0, 0, 0x20, rng.randrange(256)])
    z.send(z.incoming(d, 6, 1, 1, body))
    await asyncio.sleep(0.5)
    if [m[5] for m in app.messages] != [body]:
        raise Violation("an incoming message is not delivered %s: %r" % (what, app.messages))


async def _run(loop, case, rng, ctx):
    stage, product = case["stage"], case["product"]
    net = startup.config(rng)
    exp = rig.expected_net(net)
    kind, detail, nv = startup.prior(rng, product, exp, case["prior"])
    world, z = startup.adapter(loop, rng, product, nv)
    startup.place(z, rng)
    startup.variations(z, rng)
    config = rig.app_config(net=net)
    app = rig.App(config)
    ctx.count("stage_" + stage)
    reqs = None
    what = stage
    task = None
    grace = 0.05
    form = case["form"] if stage not in ("startup", "failed", "cancelled") else True
    if stage in ("idle", "busy", "lost", "recovered"):
        r = await rig.outcome(app.startup(auto_form=form), 600)
        if r[0] != "ok":
            raise Violation("an undisturbed startup failed: %r" % (r,))
        dev = rig.known_device(app, z, rng, 0x2345)
        reqs = Requests(app, z, rng, ctx, dev)
        await asyncio.sleep(rng.choice((0.0, 0.0, 1.0, 100.0)))
    if stage == "busy":
        base = z.policy
        slow = rng.choice((0.001, 0.5, 3.0, None))
        z.policy = lambda cmd, n: {"drop": True} if slow is None and rng.random() < 0.5 else {"delay": slow or 0.002}
        for _ in range(max(1, case["n"])):
            reqs.issue()
            if rng.random() < 0.5:
                await asyncio.sleep(rng.random() * 0.02)
        await asyncio.sleep(rng.choice((0.0, 0.001, 0.002, 0.01, 0.5, 3.0, 5.0)))
        await ticks(case["tick"])
        what = "busy, answers after %s" % slow
    elif stage in ("startup", "cancelled", "failed"):
        frame = type(z).on_frame.__get__(z)
        seen = [0]
        hit = asyncio.Event()
        nth = case["nth"]

        def on_frame(*f):
            seen[0] += 1
            if seen[0] - 1 == nth:
                hit.set()
                if stage == "failed" and case["bad"] == "lose":
                    return z.port.lose()
                if stage == "failed" and case["bad"] == "silent":
                    z.alive = False
                    return
            frame(*f)

        z.on_frame = on_frame
        if stage == "failed" and (case["bad"] in ("open", "status", "later") or nth is None):
            if case["bad"] == "status":
                base = z.policy
                z.policy = lambda cmd, n: {"status": rng.choice((1, 2, 255))} if n == (nth or 0) else base(cmd, n)
            elif case["bad"] == "open":
                e = rng.choice((serial.SerialException(2, "could not open port"), OSError(5, "I/O error")))
                world.open_error[rig.PATH] = lambda n: e if n == 0 else None
            elif case["bad"] == "later":
                loop.call_later(rng.uniform(0, 2.5), lambda: z.port and z.port.lose())
            else:
                z.alive = False
        if case["again"] == "new" and rng.random() < 0.3 and stage == "failed":
            # through zigpy's factory, which hands out no application when it fails
            made = []

            class Made(rig.App):
                def __init__(self, cfg):
                    super().__init__(cfg)
                    made.append(self)

            coro = Made.new(config, auto_form=True)
        else:
            made = None
            coro = app.startup(auto_form=True)
        task = asyncio.ensure_future(coro)
        if stage == "failed":
            done, _ = await asyncio.wait([task], timeout=900)
            if not done:
                raise Violation("startup did not end within 900 s")
            if made is not None:
                app = made[0]
            if task.exception() is None:
                ctx.count("did_not_fail")
            else:
                await asyncio.sleep(rng.choice((0.0, 0.0, 1.0, 4.0, 5.0, 5.5, 6.5, 20.0, 100.0)))
        else:
            if nth is None:
                await asyncio.sleep(rng.choice((0.0, 0.5, 1.0, rng.uniform(0, 1), rng.uniform(1, 3))))
            else:
                await asyncio.wait([hit.wait(), task], timeout=30, return_when=asyncio.FIRST_COMPLETED)
                if rng.random() < 0.5:
                    await asyncio.sleep(rng.choice((0.001, 0.002, 0.003, 0.3)))
            await ticks(case["tick"])
            if stage == "cancelled":
                task.cancel()
                await asyncio.wait([task], timeout=60)
                if not task.done():
                    raise Violation("a cancelled startup did not end")
                await asyncio.sleep(rng.choice((0.0, 0.0, 1.0, 6.0)))
            elif not task.done():
                grace = 2.0          # the port may just be being opened
        what = "%s at command %d of %s (%s)" % (stage, seen[0], nth, case["bad"] if stage == "failed" else "")
    elif stage in ("lost", "recovered"):
        for _ in range(case["n"]):
            reqs.issue()
        if case["n"]:
            await asyncio.sleep(rng.choice((0.0, 0.003, 0.1)))
        n0, first = case["attempts"], len(world.opens)
        how = case["bad"]
        if n0:
            if how == "silent":
                z.alive = False
                loop.call_later(n0 * 12.0, lambda: setattr(z, "alive", True))
            elif how in ("open", "status"):
                world.open_error[rig.PATH] = lambda n: (serial.SerialException(2, "could not open port")
                                                        if n < first + n0 else None)
            else:
                left = [n0]
                opened = type(z).opened.__get__(z)

                def opened2(p):
                    opened(p)
                    if left[0]:
                        left[0] -= 1
                        loop.call_later(rng.choice((0.0, 0.3, 1.0, 1.003, 1.1)), p.lose)

                z.opened = opened2
        z.port.lose()
        ctx.count("losses")
        if stage == "recovered":
            await asyncio.sleep(400)
            if z.port is None:
                raise Violation("no recovery within 400 s (%s x%d)" % (how, n0))
        else:
            t0 = world.now()
            await asyncio.sleep(case["at"] + n0 * rng.uniform(0, 12))
            if case["nth"] is not None and rng.random() < 0.5:
                k = len(z.rx) + case["nth"] // 2
                hit = asyncio.Event()
                z.on_host_frame.append(lambda *f: len(z.rx) >= k and hit.set())
                w = asyncio.ensure_future(hit.wait())
                await asyncio.wait([w], timeout=rng.choice((1, 10, 40)))
            await ticks(case["tick"])
            if n0 and world.now() > t0 + 6:
                ctx.count("after_failed_attempts")
            last = world.opens[-1]
            if world.now() - t0 < 5 or not world.open_ports:
                ctx.count("waiting_to_retry")
            elif world.now() - last[0] <= 1.0:
                ctx.count("connecting")
            else:
                ctx.count("in_recovery")
        what = "%s, %.3f s after the loss, %s x%d, %d requests" % (stage, case["at"], how, n0, case["n"])
    if case["lose"] and z.port is not None:
        # the loss and the shutdown meet
        z.port.lose()
        ctx.count("lost_while_closing")
        await ticks(case["tick"])
    if rng.random() < 0.25 and z.port is not None and z.port.lost is None:
        # a frame has begun to arrive
        f = mt.command_frame(mt.ZDO, "leaveInd", dict(srcaddr=0x7001, extaddr=bytes(8), request=0, removechildren=0, rejoin=0),
                             mt.AREQ)
        z.send_now(f[:rng.randrange(1, len(f))])
        ctx.count("partial_frame")
        await ticks(rng.choice((1, 2, 3, 3)))
    await shut(app, case, ctx, world, what)
    ctx.sig(stage, what, case["times"], case["together"], case["lose"], case["tick"])
    if reqs is not None:
        for t in reqs.tasks:
            t.add_done_callback(lambda t: None)
    t1 = world.now()
    judge = asyncio.ensure_future(reqs.judge(70)) if reqs is not None else None
    await quiet_hour(world, what, grace)
    if judge is not None:
        await judge
    if task is not None:
        if not task.done():
            raise Violation("a startup still hangs an hour after shutdown (%s)" % what)
    # a second hour-long silence after yet another shutdown
    if rng.random() < 0.3:
        await shut(app, case, ctx, world, what + ", again")
    if reqs is not None and rng.random() < 0.3:
        # requests of a driver that was shut down end
        reqs.tasks = []
        for _ in range(3):
            reqs.issue()
        await reqs.judge(70)
    if world.max_open > 1:
        raise Violation("%d connections were open at the same time (%s)" % (world.max_open, what))
    # a fresh start
    z.alive = True
    z.on_frame = type(z).on_frame.__get__(z)
    z.__dict__.pop("opened", None)
    z.policy = lambda cmd, n: None
    world.open_error.clear()
    if case["again"] == "new":
        app = rig.App(config)
    else:
        ctx.count("same_app")
    r = await rig.outcome(app.startup(auto_form=True), 600)
    if r[0] != "ok":
        raise Violation("a fresh startup after shutdown failed (%s): %r" % (what, r))
    await asyncio.sleep(rng.choice((0.0, 10.0)))
    await usable(app, z, rng, "after a fresh startup (%s)" % what)
    if len(world.open_ports) != 1:
        raise Violation("%d ports open after a fresh startup" % len(world.open_ports))
    ctx.count("restarted")
    await shut(app, case, ctx, world, what + ", final")
    await quiet_hour(world, what + ", final")
    ctx.sample({"what": what, "opens": len(world.opens), "log": world.log[:8]})
    rig.check_escaped(loop)


async def _api(loop, case, rng, ctx):
    """The API alone: a deliberate close is no lost connection."""
    ctx.count("stage_api")
    world, z, api, rec = await rig.api_rig(loop, lambda w: znp.Znp(w, product=case["product"], rng=rng))
    slow = rng.choice((0.001, 0.5, 3.0, None))
    z.policy = lambda cmd, n: {"drop": True} if slow is None else {"delay": slow}
    tasks = []
    for _ in range(case["n"]):
        c = mt.BY_NAME[rng.choice(((1, "ping"), (1, "version"), (7, "getDeviceInfo"), (1, "resetReq"),
                                   (15, "bdbStartCommissioning")))]
        tasks.append(asyncio.ensure_future(Requests.quiet(gen.call(api, c, gen.payload(c.req, rng)))))
        ctx.count("pending")
    await asyncio.sleep(rng.choice((0.0, 0.001, 0.5, 1.0)))
    await ticks(case["tick"])
    p = world.opens[0][3]
    if rng.random() < 0.25:
        z.send_now(mt.command_frame(mt.SYS, "resetInd", gen.payload(mt.BY_NAME[(1, "resetInd")].req, rng), mt.AREQ)
                   [:rng.randrange(1, 10)])
        ctx.count("partial_frame")
        await ticks(3)
    for k in range(case["times"]):
        api.close()
        await ticks(rng.randrange(3))
    ctx.count("shutdowns", case["times"])
    if case["lose"]:
        p.lose()
    if tasks:
        _, left = await asyncio.wait(tasks, timeout=6 * 8 + 32)
        if left:
            raise Violation("%d commands still pending 80 s after close" % len(left))
    await quiet_hour(world, "API closed")
    if rec.lost:
        raise Violation("closing the API was reported as a lost connection")
    ctx.sig("api", slow, case["n"], case["times"], case["tick"], case["lose"])
    rig.check_escaped(loop)
