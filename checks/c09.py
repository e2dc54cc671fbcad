"""C09: late, duplicate and unsolicited replies do no harm; nothing is left over."""
import asyncio
import random

from lib import gen, live, mtspec as mt, rig, traffic, vloop
from lib.core import Violation

PROP = "C09"
CASES = {"quick": 1440, "thorough": 8000}
RULE = ("Half the cases: command traffic where answers come twice, after the timeout, after cancellation, or unasked, "
        "while other commands wait. Half: application requests whose submission is rejected, unanswered or cancelled, "
        "with the device's reply before, with or long after, or never. Each case ends with a count of live objects of "
        "the package and a batch of normal traffic. Distinct = distinct history; non-trivial = a stray reply arrived.")
REQUIRED = {"duplicates": 300, "late_after_timeout": 80, "late_after_cancel": 80, "unsolicited": 300,
            "failed_submissions": 300, "replies_before_failure": 60, "waited_out_before_failure": 30,
            "leftover_checks": 300, "undisturbed": 1000}


def make_case(i, rng, ctx):
    if i % 2:
        return {"app": True, "product": rng.randrange(3)}
    n = rng.choice((2, 6, 15))
    plans = []
    for c in rng.sample(gen.CALLS, n):
        p = traffic.Plan(c, gen.payload(c.req, rng, 40), rsp=gen.response_for(c, rng, 40))
        lim = traffic.limit(c)
        k = rng.random()
        if k < 0.3:
            p.repeats = [rng.choice((0.0, 0.0005, 0.1, 3.0, 7.0)) for _ in range(rng.choice((1, 2)))]
        elif k < 0.45:
            p.delay = lim + rng.choice((0.05, 0.09, 0.11, 1.0, 8.0))
        elif k < 0.6:
            p.cancel = rng.choice((0.01, 0.3, 3.0))
            p.delay = rng.choice((0.5, 1.0, 5.0, 7.0))
        elif k < 0.8:
            strays = []
            for _ in range(rng.choice((1, 3))):
                while True:
                    d = rng.choice(gen.RSPS)
                    if not any(d.name == x.c.name for x in plans) and d is not c and d.name != c.name:
                        break
                strays.append(gen.srsp(d, gen.payload(d.rsp, rng, 40)))
                a = rng.choice(gen.AREQS)
                if a.name != "resetInd":
                    strays.append(gen.areq(a, gen.payload(a.req, rng, 40)))
            p.before = [(0, x) for x in strays]
            p.strays = len(strays)
        p.pause = rng.choice((0, 0, 0.05, 1.0))
        plans.append(p)
    tasks = traffic.spread(plans, rng, rng.choice((1, 2, 5)))
    return {"app": False, "tasks": [[dict(p.show(), repeats=p.repeats) for p in t] for t in tasks], "_t": tasks}


def run_case(case, rng, ctx):
    vloop.run(lambda loop: (_app if case["app"] else _api)(loop, case, rng, ctx))


async def _api(loop, case, rng, ctx):
    world, ad, api, rec = await rig.api_rig(loop, traffic.Responder)
    warm = [traffic.Plan(c, gen.payload(c.req, rng, 40), rsp=gen.response_for(c, rng, 40))
            for c in rng.sample([c for c in gen.CALLS if (c.subsys, c.name) not in traffic.RESETS], 3)]
    await traffic.drive(loop, ad, api, [warm], rng)
    a = rng.choice([a for a in gen.AREQS if a.name != "resetInd"])
    ad.send_now(gen.areq(a, gen.payload(a.req, rng, 40)))
    del warm
    await asyncio.sleep(75)
    ad.history.clear()
    rec.got.clear()
    base = live.count(loop, api)
    order = await traffic.drive(loop, ad, api, case["_t"], rng)
    bad = lambda m: Violation(m, trace=traffic.lines(order))
    await asyncio.sleep(0.1)
    rig.check_escaped(loop)
    for p in order:
        # whoever was answered in time must have got its own answer
        if p.cancel is None and p.delay < traffic.limit(p.c):
            if p.outcome != "ok" or rig.norm_payload(p.value.payload) != p.rsp:
                raise bad("%r, answered in time, ended with %s %r" % (p.c, p.outcome, p.value))
            if abs(p.t_end - p.t_write - p.delay) > 0.02:
                raise bad("%r ended at %.3f, its answer came at %.3f" % (p.c, p.t_end, p.t_write + p.delay))
            ctx.count("undisturbed")
        elif p.cancel is None:
            if p.outcome != "error" or not isinstance(p.value, asyncio.TimeoutError):
                raise bad("%r, answered after its limit, ended with %s %r" % (p.c, p.outcome, p.value))
            ctx.count("late_after_timeout")
        elif p.t_cancel is not None and p.t_write is not None:
            ctx.count("late_after_cancel")
        ctx.count("duplicates", len(p.repeats))
        ctx.count("unsolicited", getattr(p, "strays", 0))
    ctx.sig([(repr(p.c), p.delay, tuple(p.repeats), p.outcome) for p in order])
    ctx.sample(traffic.lines(order)[:4])
    order.sort(key=lambda p: p.t_call)
    trace = traffic.lines(order)
    for p in order:
        p.value = None
    del order, case["_t"]
    ad.history.clear()
    ad.waiting.clear()
    rec.got.clear()
    await asyncio.sleep(75)
    rig.check_escaped(loop)
    _leftover(base, live.count(loop, api), ctx, trace)
    # normal traffic afterwards
    plans = [traffic.Plan(c, gen.payload(c.req, rng, 40), rsp=gen.response_for(c, rng, 40))
             for c in rng.sample(gen.CALLS, 4)]
    for p in await traffic.drive(loop, ad, api, [plans], rng):
        if p.outcome != "ok" or rig.norm_payload(p.value.payload) != p.rsp:
            raise Violation("after stray replies %r ended with %s %r" % (p.c, p.outcome, p.value), trace=trace)
        ctx.count("undisturbed")
    api.close()
    await asyncio.sleep(0)


def _leftover(base, now, ctx, trace):
    grown = {k: (base.get(k, 0), v) for k, v in now.items() if v > base.get(k, 0)}
    if grown:
        raise Violation("left over 75 s after all exchanges ended (type: before, after): %s" % grown, trace=trace)
    ctx.count("leftover_checks")


KINDS = {5: ("activeEpReq", "activeEpRsp"), 2: ("nodeDescReq", "nodeDescRsp")}


async def _app(loop, case, rng, ctx):
    world, z, app = await rig.app_rig(loop, rng, product=case["product"])
    z.air_delay = lambda kind: 0.05
    devs = [rig.known_device(app, z, rng, 0x3000 + k) for k in range(3)]
    app.forward = False
    await asyncio.sleep(75)                       # startup's own exchanges are over
    base = live.count(loop, app)
    log = []
    seq = [0]
    script = {}                                   # (name, dst) -> list of treatments

    def policy(cmd, n):
        c = cur.get("treat")
        if cmd.name in ("activeEpReq", "nodeDescReq", "dataRequest"):
            t = queue.pop(0) if queue else None
            if t:
                return t
        return None

    cur, queue = {}, []
    z.policy = policy
    confirms = random.Random(rng.random())
    z.confirm_status = lambda p: confirms.choice((0, 0, 0xE9, 0xCD, 0xF0, confirms.randrange(256)))

    async def one(d, kind):
        """kind: what goes wrong"""
        seq[0] = (seq[0] + 1) % 256
        s = seq[0]
        dev = rig.device(app, d.ieee)
        cl = rng.choice((5, 2))
        name = KINDS[cl][1]
        data = bytes([s]) + d.nwk.to_bytes(2, "little")
        body = dict(srcaddr=d.nwk, status=0, nwkaddr=d.nwk, activeepcount=1, activeeplist=[1])
        if cl == 2:
            body = dict(srcaddr=d.nwk, status=0, nwkaddr=d.nwk, **d.node_desc)
        reply = mt.command_frame(mt.ZDO, name, body, mt.AREQ)
        return dev, cl, s, data, reply

    async def step():
        kind = rng.choice(("reject", "reject-reply-first", "reject-glued", "no-answer", "no-answer-reply", "wait-out",
                           "cancel", "cancel-reply", "twice", "late", "unasked", "data-reject", "data", "data"))
        d = rng.choice(devs)
        dev, cl, s, data, reply = await one(d, kind)
        n0 = len(app.messages)
        status = rng.choice((1, 2, 0x10, 0xC9, 0xE9))
        what = "%s %s tsn %d" % (kind, KINDS[cl][0], s)
        log.append(what)
        if kind.startswith("reject"):
            t = {"status": status, "delay": 0.3}
            if kind == "reject-glued":
                t["before"] = [reply]
            queue[:] = [t]
            f = asyncio.ensure_future(app.request(dev, 0, cl, 0, 0, s, data))
            if kind == "reject-reply-first":
                await asyncio.sleep(0.1)
                z.send_now(reply)
                ctx.count("replies_before_failure")
            r = await rig.outcome(f, 60)
            _failed(r, status, what, log)
            ctx.count("failed_submissions")
        elif kind == "data-reject":
            queue[:] = [{"status": status}]
            r = await rig.outcome(app.request(dev, 260, 6, 1, 1, s, b"\x01\x01\x02"), 60)
            _failed(r, status, what, log)
            ctx.count("failed_submissions")
        elif kind == "data":
            # confirmed at once (or not), with whatever outcome
            queue[:] = []
            r = await rig.outcome(app.request(dev, 260, 6, 1, 1, s, b"\x01\x01\x02"), 60)
            if r[0] != "ok":
                raise Violation("%s: accepted request ended with %r" % (what, r), log=log)
            z.send_now(mt.command_frame(mt.AF, "dataConfirm", dict(
                status=rng.choice((0, 0xE9)), endpoint=1, transid=s), mt.AREQ))
            ctx.count("confirmed")
        elif kind in ("no-answer", "no-answer-reply"):
            queue[:] = [{"noexec": True}]
            f = asyncio.ensure_future(app.request(dev, 0, cl, 0, 0, s, data))
            if kind == "no-answer-reply":
                await asyncio.sleep(rng.choice((0.1, 5.0)))
                z.send_now(reply)
                ctx.count("replies_before_failure")
            r = await rig.outcome(f, 60)
            if r[0] != "error" or not isinstance(r[1], asyncio.TimeoutError):
                raise Violation("%s: the adapter never answered and the request ended with %r" % (what, r), log=log)
            ctx.count("failed_submissions")
        elif kind == "wait-out":
            # two commands that nobody answers hold the line for 12 s
            queue[:] = [{"noexec": True}, {"noexec": True}, {"status": status}]
            fs = [asyncio.ensure_future(app.request(rig.device(app, x.ieee), 260, 6, 1, 1, s, b"\x01\x01\x02"))
                  for x in devs[:2]]
            f = asyncio.ensure_future(app.request(dev, 0, cl, 0, 0, s, data))
            for x in fs:
                await rig.outcome(x)
            r = await rig.outcome(f, 60)
            _failed(r, status, what, log)
            ctx.count("failed_submissions")
            ctx.count("waited_out_before_failure")
        elif kind.startswith("cancel"):
            queue[:] = [{"noexec": True}]
            f = asyncio.ensure_future(app.request(dev, 0, cl, 0, 0, s, data))
            await asyncio.sleep(rng.choice((0.0, 0.5, 3.0)))
            f.cancel()
            await rig.outcome(f)
            queue[:] = []
            if kind == "cancel-reply":
                z.send_now(reply)
        elif kind == "unasked":
            z.send_now(reply)
            await asyncio.sleep(0.1)
            ctx.count("unsolicited")
        else:
            queue[:] = []
            d.silent = kind == "late"
            r = await rig.outcome(app.request(dev, 0, cl, 0, 0, s, data), 60)
            d.silent = False
            if r[0] != "ok" or r[1][0] != 0:
                raise Violation("%s: accepted request ended with %r" % (what, r), log=log)
            if kind == "late":
                await asyncio.sleep(rng.choice((10.2, 11, 30)))
                n0 = len(app.messages)
            else:
                await asyncio.sleep(0.5)
                if len(app.messages) != n0 + 1:
                    raise Violation("%s: %d replies delivered" % (what, len(app.messages) - n0), log=log)
                n0 = len(app.messages)
            z.send_now(reply)
            await asyncio.sleep(0.1)
            ctx.count("duplicates" if kind == "twice" else "late_after_timeout")
            if len(app.messages) != n0:
                raise Violation("%s: a %s reply was delivered" % (what, "duplicate" if kind == "twice" else "late"),
                                log=log, messages=app.messages[-2:])

    for _ in range(rng.choice((2, 5, 8))):
        await step()
        await asyncio.sleep(0.05)
        rig.check_escaped(loop)
        if rng.random() < 0.3:
            await asyncio.sleep(11)
    queue[:] = []
    ctx.sig(log)
    ctx.sample(log)
    del app.messages[:], z.cmd_log[:]
    await asyncio.sleep(75)
    rig.check_escaped(loop)
    _leftover(base, live.count(loop, app), ctx, log)
    d = devs[0]
    r = await rig.outcome(app.request(rig.device(app, d.ieee), 0, 5, 0, 0, 99, b"\x63" + d.nwk.to_bytes(2, "little")), 30)
    await asyncio.sleep(1)
    if r[0] != "ok" or r[1][0] != 0 or [m[5][:1] for m in app.messages] != [b"\x63"]:
        raise Violation("after stray replies a normal request ended with %r, messages %r" % (r, app.messages), log=log)
    ctx.count("undisturbed")
    await app.shutdown()


def _failed(r, status, what, log):
    if r[0] != "ok" or r[1][0] != status or not r[1][1]:
        raise Violation("%s: rejected by the adapter with status %d, the caller got %r" % (what, status, r), log=log)
