"""C25: permit-join and the LED follow what was asked."""
import asyncio

import zigpy.types as zt

from lib import mtspec as mt, rig, vloop
from lib.core import Known, Violation

PROP = "C25"
CASES = {"quick": 4000, "thorough": 100000}
RULE = ("A case is a sequence of permit-join calls (network, one device, the coordinator, unknown device; valid and invalid "
        "durations), notifications, recoveries and other traffic, on one firmware, where LED commands may be rejected or "
        "unanswered, permit commands rejected or unanswered, and the adapter's notifications come in either order. Distinct = distinct "
        "(call, duration, firmware, LED behaviour, order); non-trivial = permit and LED commands of the call were judged.")
ASSUMPTIONS = ["the adapter reports the opening and closing of its network with permitJoinInd"]
REQUIRED = {"network": 4000, "device": 1500, "own": 800, "unknown": 500, "refused": 1500, "ncp": 1200, "closed": 1000,
            "led_on": 2500, "led_off": 2500, "no_led": 3000, "led_rejected": 1500, "led_dropped": 600, "notified": 2500,
            "expired": 600, "rejected": 300, "unanswered": 300, "failure_told": 500, "others_ok": 3000, "formed": 2500, "messages": 1500, "other_notifications": 3000}


def make_case(i, rng, ctx):
    return {"product": rng.choice((0, 1, 2)), "led": rng.choice(("ok", "ok", "reject", "drop", "mixed")),
            "order": rng.choice(("ind first", "rsp first", "no rsp", "together")), "n": rng.choice((1, 2, 4, 6))}


def run_case(case, rng, ctx):
    vloop.run(lambda loop: _run(loop, case, rng, ctx))


def duration(rng):
    return rng.choice((0, 0, 1, 2, 60, 127, 128, 253, 254, 254, rng.randrange(255)))


async def _run(loop, case, rng, ctx):
    product = case["product"]
    world, z, app = await rig.app_rig(loop, rng, product=product, form=rng.random() < 0.8)
    formed = bool(z.commissioning)
    led = case["led"]
    clock = world.now
    expiry = [0]
    reject = [None]

    def policy(cmd, n):
        if cmd.name == "ledControl":
            k = led if led != "mixed" else rng.choice(("ok", "reject", "drop"))
            if k == "reject":
                ctx.count("led_rejected")
                return {"status": rng.choice((1, 2, 0xFF))}
            if k == "drop":
                ctx.count("led_dropped")
                return {"drop": True}
        if cmd.name == "mgmtPermitJoinReq" and reject[0]:
            ctx.count(reject[0])
            return {"status": rng.choice((0xC1, 0xC2, 2, 1, rng.randrange(1, 256)))} if reject[0] == "rejected" else {"noexec": True}
        return None

    last_ind = [0]

    def ind(d):
        last_ind[0] = clock()
        return mt.command_frame(mt.ZDO, "permitJoinInd", dict(duration=d), mt.AREQ)

    def do_permit(p):
        z.permits.append((clock(), p))
        wide = p["addrmode"] != 2
        out = []
        if wide or p["dstaddr"] == 0:
            d = p["duration"]
            a, b = (0, ind(d)), (0, mt.command_frame(mt.ZDO, "mgmtPermitJoinRsp", dict(srcaddr=0, status=0), mt.AREQ))
            o = case["order"]
            out = [(0.01, a[1]), (0.02, b[1])] if o == "ind first" else [(0.01, b[1]), (0.02, a[1])] if o == "rsp first" \
                else [(0.01, a[1])] if o == "no rsp" else [(0.01, a[1] + b[1])]
            expiry[0] += 1
            n = expiry[0]
            state[0] = 1 if d else 0
            if 0 < d < 255:
                def over():
                    if n == expiry[0]:
                        z.send(ind(0))
                        state[0] = 0
                        ctx.count("expired")
                loop.call_later(d, over)
        else:
            out = z._zdo("mgmtPermitJoinRsp", p["dstaddr"], p, lambda d: {})
        return {"status": 0}, out

    z.policy = policy
    z.do_5_mgmtPermitJoinReq = do_permit
    state = [0 if formed else None]     # 1 network open, 0 closed, None unknown
    devs = [rig.known_device(app, z, rng, nwk) for nwk in rng.sample(range(1, 0xFFF7), 3)]

    async def judge_led(what):
        """LED commands are sent one at a time; a dropped one takes 6 s."""
        slow = led in ("drop", "mixed")
        await asyncio.sleep(40 if slow else 1)
        while clock() - max([last_ind[0]] + [t for t, c, _ in z.cmd_log if c.name == "ledControl"][-1:]) < (13 if slow else 0.5):
            await asyncio.sleep(13 if slow else 0.5)
        if product == 1:
            if z.led or any(c.name == "ledControl" for _, c, _ in z.cmd_log):
                raise Violation("a Z-Stack 3.x.0 adapter was sent an LED command", log=z.led[:3])
            ctx.count("no_led")
            return
        sent = [p for _, c, p in z.cmd_log if c.name == "ledControl"]
        if state[0] is not None:
            if not sent:
                raise Violation("no LED command was sent (%s)" % what)
            if bool(sent[-1]["mode"]) != bool(state[0]):
                raise Violation("the LED was last set to mode %d, the network is %s (%s, %s)" % (
                    sent[-1]["mode"], "open" if state[0] else "closed", what, case["order"]))
            ctx.count("led_on" if state[0] else "led_off")
        if any(p["mode"] not in (0, 1) or p["ledid"] != sent[0]["ledid"] for p in sent):
            raise Violation("LED commands %r" % sent[-3:])

    if formed:
        await judge_led("after forming the network")
        ctx.count("formed")
    lit_by_closing = False
    for k in range(case["n"]):
        e0 = expiry[0]
        n0, c0, m0 = len(z.permits), len(z.cmd_log), len(app.messages)
        reject[0] = rng.choice(("rejected", "unanswered")) if rng.random() < 0.14 else None
        what = rng.choice(("network", "network", "network", "device", "device", "own", "unknown", "ncp", "bad", "bad", "note",
                           "note", "recover"))
        t = duration(rng)
        # other users of the adapter meanwhile
        others = [asyncio.ensure_future(rig.outcome(app._api.request(1, "ping", {"capabilities": 1}), 400))
                  for _ in range(rng.choice((0, 1, 3)))] if what != "recover" else []
        if rng.random() < 0.4 and what != "recover":
            d = devs[0]
            f = mt.command_frame(mt.AF, "incomingMsg", dict(
                groupid=0, clusterid=6, srcaddr=d.nwk, srcendpoint=1, dstendpoint=1, wasbroadcast=0, linkquality=7,
                securityuse=0, timestamp=0, transseqnumber=1, len=3, data=b"\x18\x01\x0b"), mt.AREQ)
            z.send(f, rng.choice((0.0, 0.011, 0.3)))
            expect_msg = 1
        else:
            expect_msg = 0
        if rng.random() < 0.4:
            # notifications that have nothing to do with joining being allowed
            name, p = rng.choice((
                ("stateChangeInd", dict(state=rng.choice((9, 9, 2, 8)))),
                ("leaveInd", dict(srcaddr=devs[1].nwk, extaddr=devs[1].ieee, request=0, removechildren=0, rejoin=0)),
                ("tcDeviceInd", dict(nwkaddr=devs[1].nwk, extaddr=devs[1].ieee, parentaddr=0)),
                ("srcRtgInd", dict(dstaddr=devs[1].nwk, relaycount=1, relaylist=[devs[0].nwk]))))
            f = mt.command_frame(mt.ZDO, name, p, mt.AREQ)
            if rng.random() < 0.5:
                loop.call_later(rng.choice((0.005, 0.015, 0.03, 0.3)), z.send_now, f)
            else:
                z.send_now(f)
            ctx.count("other_notifications")
        target = None
        r = None
        if what == "network":
            r = await rig.outcome(app.permit(t) if t != 60 or rng.random() < 0.5 else app.permit(), 100)
        elif what == "ncp":
            r = await rig.outcome(app.permit_ncp(t), 100)
        elif what in ("device", "own", "unknown"):
            d = rng.choice(devs)
            ieee = {"device": d.ieee, "own": z.ieee, "unknown": bytes(8)}[what]
            node = zt.EUI64(ieee) if rng.random() < 0.7 else list(ieee)
            target = d.nwk
            r = await rig.outcome(app.permit(t, node=node), 200)
        elif what == "bad":
            t = rng.choice((-1, 255, 256, 1000, 65535, -254))
            f = rng.choice((app.permit, app.permit_ncp))
            kw = {}
            if f == app.permit and rng.random() < 0.5:
                kw["node"] = zt.EUI64(rng.choice((devs[0].ieee, z.ieee)))
            r = await rig.outcome(f(t, **kw), 100)
            if r[0] != "error":
                raise Violation("a duration of %d s gave %r" % (t, r))
            ctx.count("refused")
            await asyncio.sleep(0.5)
            if len(z.permits) != n0 or any(c.name == "mgmtPermitJoinReq" for _, c, _ in z.cmd_log[c0:]):
                raise Violation("a duration of %d s was sent to the adapter" % t)
        elif what == "note":
            # the network is opened and closed by someone else
            for _ in range(rng.choice((1, 2, 5))):
                d = rng.choice((0, 1, 60, 254, 255, 128))
                expiry[0] += 1
                z.send(ind(d))
                state[0] = 1 if d else 0
                ctx.count("notified")
                await asyncio.sleep(rng.choice((0.0, 0.0, 0.01, 8.0)))
        else:
            expiry[0] += 1
            state[0] = None
            z.commissioning.clear()
            z.port.lose()
            n_led = sum(c.name == "ledControl" for _, c, _ in z.cmd_log)
            await asyncio.sleep(200)
            if product != 1 and sum(c.name == "ledControl" for _, c, _ in z.cmd_log) > n_led:
                state[0] = 0
        if r is not None and r[0] == "limit":
            raise Violation("permit (%s, %d s) did not end" % (what, t))
        sent = [p for _, c, p in z.cmd_log[c0:] if c.name == "mgmtPermitJoinReq"]
        if what in ("network", "ncp", "own", "device"):
            if not reject[0] and r[0] != "ok":
                raise Violation("permit (%s, %d s) failed: %r" % (what, t, r))
            if not sent:
                raise Violation("no permit-join command was sent (%s, %d s)" % (what, t))
            if len(sent) > (2 if what == "network" else 1):
                # (zigpy broadcasts to all routers before it asks for the adapter itself)
                raise Violation("%d permit-join commands were sent (%s, %d s, %s)" % (len(sent), what, t, reject[0]))
            if reject[0] and what != "device":
                # (zigpy keeps failures of devices to itself)
                if r[0] != "error" or reject[0] == "rejected" and isinstance(r[1], asyncio.TimeoutError):
                    raise Violation("the adapter's answer to permit (%s, %d s) was '%s', the caller was told %r" % (what, t, reject[0], r))
                ctx.count("failure_told")
            for p in sent:
                where = (p["addrmode"], p["dstaddr"])
                ok = where == (2, target) if what == "device" else where in ((15, 0xFFFC), (255, 0xFFFC))
                if not ok or p["duration"] != t:
                    raise Violation("permit (%s, %d s, target %s) sent %r" % (what, t, target, p))
            ctx.count(what)
            if t == 0:
                ctx.count("closed")
        elif sent:
            raise Violation("a permit-join command was sent by '%s': %r" % (what, sent))
        if what == "unknown":
            ctx.count("unknown")
        ctx.sig(what, t, product, led, case["order"], reject[0])
        ctx.sample({"call": what, "duration": t, "outcome": repr(r), "permit": sent, "led": [p for _, c, p in z.cmd_log
                                                                                          if c.name == "ledControl"]})
        if what == "device" and not reject[0]:
            if t == 0:
                for o in others:
                    v = await o
                    if v[0] != "ok":
                        raise Violation("another command ended with %r during %s" % (v, what))
                others = []
                await asyncio.sleep(20)
                lit = [p for _, c, p in z.cmd_log[c0:] if c.name == "ledControl" and p["mode"] == 1]
                state[0] = None
                if lit and expiry[0] == e0:
                    lit_by_closing = True
                    ctx.count("device_close_lit")
            else:
                await asyncio.sleep(40 if led in ("drop", "mixed") else 1)
                if product != 1 and not [p for _, c, p in z.cmd_log[c0:] if c.name == "ledControl" and p["mode"] == 1]:
                    raise Violation("the LED was not switched on although joining was opened through a device")
                state[0] = None
                await judge_led("device")
        elif not (t < 3 and what != "note"):
            await judge_led("%s %d s" % (what, t))
        elif t == 0:
            await judge_led("%s %d s" % (what, t))
        for o in others:
            v = await o
            if v[0] != "ok":
                raise Violation("another command ended with %r during %s" % (v, what))
            ctx.count("others_ok")
        if expect_msg:
            await asyncio.sleep(1)
            if len(app.messages) != m0 + 1 and what not in ("device",):
                raise Violation("%d messages delivered, 1 was sent (%s)" % (len(app.messages) - m0, what))
            ctx.count("messages")
    rig.check_wire(z)
    if z.violations:
        raise Violation("the adapter was driven wrongly: %s" % z.violations[0])
    rig.check_escaped(loop)
    await app.shutdown()
    if lit_by_closing:
        raise Known("led-on-closing-device", "closing joining through one device (duration 0) switched the LED on")
