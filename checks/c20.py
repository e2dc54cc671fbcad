"""C20: the driver recovers from losing the serial connection."""
import asyncio

import serial
import zigpy.types as zt

from lib import mtspec as mt, rig, startup, vloop
from lib.core import Violation
from checks.c19 import TABLE
from checks.c21 import ticks, usable
from checks.c22 import OPEN_ERRORS

PROP = "C20"
CASES = {"quick": 8000, "thorough": 150000}
RULE = ("A case loses the connection one to four times: idle, at a chosen command or answer of a burst of requests, between "
        "the bytes of a frame, at a chosen time or command of the recovery from the previous loss, right after it, or during "
        "the user's own startup; in between the port cannot be opened, fails again while it is opened, or the adapter is "
        "silent, rejects commands or restarts. Distinct = distinct (moments, faults, requests); non-trivial = the port was "
        "watched throughout and the driver used after the last fault.")
ASSUMPTIONS = ["the port accepts output eventually", "opening a port ends (fails or succeeds)",
               "no shutdown and no startup by the user after the loss"]
WHERE = ("idle", "command", "answered", "answer", "partial", "time", "recovered", "user startup")
OUTAGES = ("none", "none", "open", "again", "silent", "reject", "reboot")
REQUIRED = dict({"losses": 12000, "recoveries": 6500, "set_up_again": 6000, "requests": 30000, "during_outage": 8000, "in_recovery": 3000,
                 "while_connecting": 300, "failed_opens": 2000, "startup_failed": 300, "repeated": 4000, "in_a_frame": 400, "slow": 200, "long_outages": 120, "accepted": 6000},
                **{"at_" + w: 400 for w in WHERE}, **{"outage_" + o: 500 for o in set(OUTAGES)})
LOST = (lambda: serial.SerialException("device reports readiness to read but returned no data"),
        lambda: serial.SerialException(5, "Input/output error"))
BOUND = 240


def make_case(i, rng, ctx):
    n = rng.choice((1, 1, 2, 2, 3, 4))
    steps = []
    for k in range(n):
        w = rng.choice(WHERE[:-1])
        if k == 0 and i % 8 == 0:
            w = "user startup"
        steps.append({"where": w, "n": rng.randrange(48) if k else rng.choice((0, 1, 2, 5, 9)),
                      "t": rng.choice((0.0, 0.001, 4.9999, 5.0, 5.0001, 5.5, 6.0, 6.002, 6.01, rng.uniform(0, 5),
                                       rng.uniform(5, 6), rng.uniform(6, 7), rng.uniform(6, 12), rng.uniform(0, 90))),
                      "tick": rng.randrange(5), "outage": rng.choice(OUTAGES),
                      "long": rng.choice((600, 1800, 7200)) if rng.random() < 0.04 else 200000 if i % 800 == 1 else 0, "m": rng.choice((1, 1, 2, 3, 8)),
                      "burst": rng.choice((0, 0, 1, 3, 6)), "meanwhile": rng.choice((0, 1, 2, 4))})
    return {"product": rng.randrange(3), "prior": rng.choice(startup.KINDS), "form": rng.random() < 0.5, "steps": steps}


def run_case(case, rng, ctx):
    vloop.run(lambda loop: _run(loop, case, rng, ctx))


async def _run(loop, case, rng, ctx):
    product = case["product"]
    net = startup.config(rng)
    exp = rig.expected_net(net)
    kind, detail, nv = startup.prior(rng, product, exp, case["prior"])
    world, z = startup.adapter(loop, rng, product, nv)
    startup.place(z, rng)
    startup.variations(z, rng)
    app = rig.App(rig.app_config(net=net))
    base, frame, opened = z.policy, type(z).on_frame.__get__(z), type(z).opened.__get__(z)
    tasks = []
    sent = {}
    user_startup = case["steps"][0]["where"] == "user startup"
    desc = []
    last = [0]                    # the last loss
    slow = rng.random() < 0.06    # answers, but takes its time
    back = [0]                    # end of the long outages
    armed = []                    # what happens at coming events

    def lose():
        if z.port is not None and z.port.lost is None:
            ctx.count("losses")
            if world.now() - world.opens[-1][0] < 1.0:
                ctx.count("while_connecting")
            z.port.lose(rng.choice(LOST)())
            last[0] = world.now()
            return True

    def on_frame(*f):
        hit = None
        for a in armed:
            if a["where"] in ("command", "answered", "answer", "partial", "user startup"):
                a["left"] -= 1
                if a["left"] == -1:
                    hit = a
        if hit is None:
            return frame(*f)
        armed.remove(hit)
        w = hit["where"]
        if w == "user startup":
            w = rng.choice(("command", "answered", "answer", "partial"))
        if w == "command":
            strike(hit)
        elif w == "answered":
            frame(*f)
            strike(hit)
        else:
            frame(*f)
            port = z.port
            feed = port.feed

            def feed2(data, chunks=None):
                del port.feed
                if hit["done"]:
                    return feed(data, chunks)
                if w == "partial":
                    data = data[:rng.randrange(1, max(2, len(data)))]
                feed(data, chunks)
                k = rng.random()
                if k < 0.4:
                    # what came is read first
                    loop.call_later(rng.choice((0.001, 0.01)), strike, hit)
                elif k < 0.7:
                    loop.call_soon(strike, hit)
                else:
                    strike(hit)

            port.feed = feed2
            # the answer may not come
            loop.call_later(30, lambda: hit["done"] or strike(hit))

    def strike(a):
        if a["done"]:
            return
        if not lose():
            a["done"] = True
            a["event"].set()
            return
        a["hit"] = a["done"] = True
        outage(a)
        a["event"].set()

    def outage(a):
        o, m = a["outage"], a["m"]
        ctx.count("outage_" + o)
        first = len(world.opens)
        if a["long"] and o in ("open", "silent"):
            # hours without the stick
            end = back[0] = max(back[0], world.now() + a["long"])
            ctx.count("long_outages")
            if o == "open":
                world.open_error[rig.PATH] = lambda n: rng.choice(OPEN_ERRORS)() if world.now() < end else None
                if rng.random() < 0.5:
                    z.power_cut()
            else:
                z.alive = False
                loop.call_later(a["long"], lambda: setattr(z, "alive", True))
        elif o == "open":
            world.open_error[rig.PATH] = lambda n: rng.choice(OPEN_ERRORS)() if n < first + m else None
        elif o == "again":
            left = [m]

            def opened2(p):
                opened(p)
                if left[0]:
                    left[0] -= 1
                    loop.call_later(rng.choice((0.0, 0.3, 0.9999, 1.0, 1.001, 1.02, 1.3)), lambda: z.port is p and lose())

            z.opened = opened2
        elif o == "silent":
            z.alive = False
            loop.call_later(rng.choice((6.0, 12.0, 12.0 * m)), lambda: setattr(z, "alive", True))
        elif o == "reject":
            k = [m]

            def policy(cmd, n):
                if k[0] and "status" in [x for x, _ in cmd.rsp] and rng.random() < 0.3:
                    k[0] -= 1
                    return rng.choice(({"status": rng.choice((1, 2, 255))}, {"drop": True, "silent_areqs": True}))
                return base(cmd, n)

            z.policy = policy
        elif o == "reboot":
            z.power_cut()

    z.on_frame = on_frame

    def issue():
        d = rig.device(app, dev.ieee)
        k = rng.randrange(6)
        data = b"\x01" + len(tasks).to_bytes(3, "little")
        if k == 0:
            c = app.request(d, 260, 6, 1, 1, 7, data, expect_reply=rng.random() < 0.5)
        elif k == 1:
            c = app.mrequest(zt.uint16_t(0x100), 260, 6, 1, 7, data)
        elif k == 2:
            c = app.broadcast(260, 6, 1, 255, 0, 0, 7, data)
        elif k == 3:
            c, data = app.permit(rng.choice((0, 60))), None
        elif k == 4:
            c, data = d.zdo.Node_Desc_req(d.nwk), None
        else:
            c, data = d.request(260, 6, 1, 1, 7, data, timeout=rng.choice((0.5, 5, 20))), None
        ctx.count("requests")
        if not world.open_ports:
            ctx.count("during_outage")

        async def one():
            t0 = world.now()
            try:
                r = await asyncio.wait_for(asyncio.shield(asyncio.ensure_future(c)), 120)
            except asyncio.TimeoutError:
                # wait_for's own, or the request's
                if world.now() - t0 >= 120 - 1e-6:
                    raise Violation("a request (kind %d) made at %.3f did not end within 120 s (%s)" % (k, t0, desc))
                return
            except Exception:
                return
            if data is not None and r is not None and r[0] == 0:
                ctx.count("accepted")
                if data not in sent:
                    raise Violation("a request (kind %d) that never reached the adapter was reported as accepted (%s)"
                                    % (k, desc))

        tasks.append(asyncio.ensure_future(one()))

    async def bursts(n):
        for _ in range(n):
            issue()
            if rng.random() < 0.4:
                await asyncio.sleep(rng.choice((0.0, 0.001, 0.1, 1.0)))

    def spy(p):
        sent[bytes(p["data"])] = world.now()
        return {"status": 0}, [(0.01, mt.command_frame(mt.AF, "dataConfirm", dict(
            status=0, endpoint=p["srcendpoint"], transid=p["transid"]), mt.AREQ))]

    z.on_data = spy

    def arm(st):
        a = dict(st, left=st["n"], hit=False, done=False, event=asyncio.Event())
        armed.append(a)
        return a

    # startup
    if slow:
        prompt, pace = z.delay, rng.choice((0.5, 1.5))
        z.delay = lambda cmd: pace
        ctx.count("slow")
    a0 = None
    if user_startup:
        a0 = arm(case["steps"][0])
        if rng.random() < 0.3:
            armed.remove(a0)
            loop.call_later(rng.uniform(0, 2.0), strike, a0)
        a0["outage"] = "none"
        ctx.count("at_user startup")
    r = await rig.outcome(app.startup(auto_form=case["form"]), 600)
    if a0 is not None:
        desc.append("user startup command %d" % a0["n"])
        if r[0] == "limit":
            raise Violation("startup did not end within 600 s after a loss (%s)" % desc)
        if r[0] == "ok" and a0["hit"]:
            ctx.count("startup_ok")
        elif not a0["hit"] and r[0] == "ok":
            # too few commands: lose it now
            pass
        else:
            if not a0["hit"]:
                raise Violation("an undisturbed startup failed: %r" % (r,))
            ctx.count("startup_failed")
            await asyncio.sleep(0.05)
            n = len(world.opens)
            if world.open_ports:
                raise Violation("a startup that lost its connection left the port open (%s)" % desc)
            await asyncio.sleep(1000)
            if len(world.opens) > n:
                raise Violation("a startup that failed reconnected later (%s)" % desc)
            r = await rig.outcome(app.startup(auto_form=case["form"]), 600)
            if r[0] != "ok":
                raise Violation("the startup after one that lost its connection failed: %r (%s)" % (r, desc))
            a0 = None
        armed[:] = []
    elif r[0] != "ok":
        raise Violation("an undisturbed startup failed: %r" % (r,))
    asked = len(world.opens)      # opened on the user's behalf
    dev = rig.known_device(app, z, rng, 0x2345)
    others = [rig.known_device(app, z, rng, 0x3000 + j) for j in range(rng.choice((0, 1, 4)))]
    if a0 is not None and not a0["hit"]:
        a0 = None
    fresh = a0 is None            # connected, nothing pending
    for k, st in enumerate(case["steps"]):
        if user_startup and k == 0:
            continue
        w = st["where"]
        if k > (1 if user_startup else 0):
            ctx.count("repeated")
        a = None
        await bursts(st["burst"])
        if w == "recovered" and not fresh:
            # wait for the connection and its first quiet moment
            for _ in range(4000):
                await asyncio.sleep(0.05)
                if z.port is not None and world.now() - world.opens[-1][0] > 1 and z.cmd_log and \
                        world.now() - z.cmd_log[-1][0] > rng.choice((0.005, 0.5, 3.0)):
                    break
        if w in ("idle", "recovered"):
            if z.port is not None and rng.random() < 0.3:
                # the beginning of a frame, or its end mutilated
                z.send_now(mt.command_frame(mt.ZDO, "stateChangeInd", dict(state=9))[:rng.randrange(1, 6)])
                ctx.count("in_a_frame")
            await asyncio.sleep(rng.choice((0.0, 0.0, 0.01, 1.0)) if w == "recovered" or not fresh else
                                rng.choice((0.0, 1.0, 300.0)))
            a = arm(st)
            armed.remove(a)
            strike(a)
        elif w == "time":
            a = arm(st)
            armed.remove(a)
            await asyncio.sleep(st["t"])
            await ticks(st["tick"])
            strike(a)
        else:
            a = arm(st)
            if fresh:
                await bursts(rng.choice((1, 3, 6)))
            ev = asyncio.ensure_future(a["event"].wait())
            await asyncio.wait([ev], timeout=90)
            if not ev.done():
                ev.cancel()
                armed[:] = [x for x in armed if x is not a]
                a["done"] = True
                ctx.count("not_reached")
        if a["hit"]:
            ctx.count("at_" + w)
            if not fresh:
                ctx.count("in_recovery")
            fresh = False
        desc.append("%s %s%s%s" % (w, st["t"] if w == "time" else st["n"], " x%d " % st["m"], st["outage"])
                    if a["hit"] else "-")
        await bursts(st["meanwhile"])
        if rng.random() < 0.3:
            await asyncio.sleep(rng.choice((0.1, 5.0, 100.0)))
    # faults are over when the adapter is back
    for _ in range(3):
        await bursts(rng.choice((0, 1)))
        await asyncio.sleep(rng.choice((0.5, 3.0, 6.0)))
    while not z.alive or world.now() < back[0]:
        await asyncio.sleep(12)
    z.policy = base
    if slow:
        await asyncio.sleep(500)
        k = len(world.opens)
        await asyncio.sleep(100)
        if len(world.opens) > k or z.port is None:
            raise Violation("still reconnecting 600 s after the last fault; every answer takes %.1f s (%s)" % (pace, desc),
                            log=world.log[-8:])
        z.delay = prompt
    await asyncio.sleep(BOUND + 100)      # a few attempts may still meet their fault
    while world.now() < last[0] + BOUND:
        await asyncio.sleep(10)
    ctx.count("failed_opens", sum(1 for o in world.opens if o[3] is None))
    for t in tasks:
        if t.done() and t.exception():
            raise t.exception()
    n = len(world.opens)
    if z.port is None:
        raise Violation("not reconnected %d s after the last fault (%s)" % (BOUND, desc), log=world.log[-8:])
    ctx.count("recoveries")
    if n > asked:
        # whatever the adapter lost meanwhile is in place again
        if z.devstate != 9:
            raise Violation("after the recovery the adapter is in state %d, not running as coordinator (%s)" % (
                z.devstate, desc))
        for ep, want in TABLE.items():
            if z.eps.get(ep) != want:
                raise Violation("after the recovery endpoint %d is %r (%s)" % (ep, z.eps.get(ep), desc))
        ctx.count("set_up_again")
    for d in others:
        e = app.devices.get(zt.EUI64(d.ieee))
        if e is None or int(e.nwk) != d.nwk:
            raise Violation("after the recovery device %s is known as %r (%s)" % (d.ieee.hex(), e, desc))
        ctx.count("still_known")
    await usable(app, z, rng, "after recovery (%s)" % desc)
    z.on_data = spy
    await asyncio.sleep(rng.choice((10, 3600)))
    if len(world.opens) > n or len(world.open_ports) != 1:
        raise Violation("the recovered connection was not kept (%s)" % desc, log=world.log[-8:])
    if world.max_open > 1:
        raise Violation("%d connections were open at the same time (%s)" % (world.max_open, desc), log=world.log[-12:])
    for t in tasks:
        if not t.done():
            raise Violation("requests are still pending (%s)" % desc)
        await t
    await usable(app, z, rng, "later (%s)" % desc)
    ctx.sig(desc, len(tasks))
    ctx.sample({"losses": desc, "requests": len(tasks), "port": world.log[:10]})
    rig.check_wire(z)
    rig.check_escaped(loop)
    await app.shutdown()
