"""C06: at most one synchronous command outstanding; silence until the reset indication."""
import asyncio

from lib import gen, mtspec as mt, rig, traffic, vloop
from lib.core import Violation

PROP = "C06"
CASES = {"quick": 3500, "thorough": 25000}
RULE = ("A case is 1-10 tasks issuing up to 30 commands (same and different ones, resets, long-running ones) with "
        "answer delays from 0 to beyond the limit, unanswered ones and cancellations while queued or outstanding. "
        "Distinct = distinct order of write/answer/cancel events; non-trivial = at least two commands overlapped.")
REQUIRED = {"writes": 4000, "queued_behind_outstanding": 1500, "resets": 200, "unanswered": 300,
            "cancelled_outstanding": 100, "cancelled_queued": 100,
            "app_writes": 500, "unanswerable": 50, "crowds": 20}


def make_case(i, rng, ctx):
    if i % 6 == 5:
        return {"app": True, "product": rng.randrange(3), "n": rng.choice((3, 10, 25, 70)) if rng.random() < 0.98 else 250}
    crowd = i % 60 == 1            # hundreds of callers at once
    n = rng.choice((150, 500, 1500)) if crowd else rng.choice((2, 4, 8, 15, 30, 30, 60))
    pool = rng.sample(gen.CALLS, min(len(gen.CALLS), n))
    plans = []
    for k in range(n):
        r = rng.random()
        if crowd and rng.random() < 0.97:
            r = 0.5
        if r > 0.94:
            c = mt.BY_NAME[(mt.ZDO, "autoFindDestination")]      # no answer to this one
            p = traffic.Plan(c, gen.payload(c.req, rng), delay=None)
        elif r < 0.08:
            c = mt.BY_NAME[rng.choice(traffic.RESETS)]
            p = traffic.Plan(c, gen.payload(c.req, rng), rsp=traffic.reset_ind(rng))
            p.delay = rng.choice((0.0, 0.1, 2.0, 29.9, None))
        else:
            c = mt.BY_NAME[rng.choice(traffic.LONG)] if r < 0.14 else pool[k % len(pool)] if rng.random() < 0.7 else pool[0]
            p = traffic.Plan(c, gen.payload(c.req, rng, 40), rsp=gen.response_for(c, rng, 40))
            lim = traffic.limit(c)
            p.delay = rng.choice((0.0, 0.001, 0.001, 0.05, 0.5, 3.0, lim - 0.05, lim - 0.001, lim + 0.5, None))
            if crowd:
                p.delay = rng.choice((0.0, 0.001, 0.001, 0.05)) if rng.random() < 0.99 else None
            if p.delay is not None and p.delay > lim and c is pool[0]:
                p.delay = None
            if "status" in p.rsp and rng.random() < 0.2:
                p.rsp["status"] = rng.randrange(256)
        p.pause = rng.choice((0, 0, 0, 0.001, 0.5, 5.0))
        if crowd:
            p.pause = 0
        if rng.random() < 0.15:
            p.cancel = rng.choice((0.0, 0.0005, 0.01, 1.0, 5.9, 7.0))
        plans.append(p)
    tasks = traffic.spread(traffic.no_stale(plans), rng, n if crowd else rng.choice((1, 2, 4, 10, 40)))
    return {"tasks": [[p.show() for p in t] for t in tasks], "_t": tasks, "crowd": crowd}


def run_case(case, rng, ctx):
    ctx.count("crowds", bool(case.get("crowd")))
    vloop.run(lambda loop: (_app if case.get("app") else _run)(loop, case, rng, ctx))


async def _app(loop, case, rng, ctx):
    """The whole application at once: startup, LED, permits, messages, interviews."""
    world, z, app = await rig.app_rig(loop, rng, product=case["product"], form=True)
    slow = rng.choice((0.0, 0.05, 0.4, 5.0))
    z.delay = lambda cmd: rng.choice((0.0, 0.001, slow))
    z.policy = lambda cmd, n: {"drop": True} if rng.random() < 0.05 else None
    devs = [rig.known_device(app, z, rng, 0x2000 + k) for k in range(4)]
    ops = []
    for k in range(case["n"]):
        d = rig.device(app, rng.choice(devs).ieee)
        r = rng.randrange(6)
        seq = k + 1
        if r == 0:
            ops.append(app.permit_ncp(rng.randrange(255)))
        elif r == 1:
            ops.append(app.mrequest(5, 260, 6, 1, seq, b"\x01\x02\x03"))
        elif r == 2:
            ops.append(app.broadcast(260, 6, 1, 1, 0, 0, seq, b"\x01\x02\x03"))
        elif r == 3:
            ops.append(app.request(d, 0, 2, 0, 0, seq, bytes([seq]) + int(d.nwk).to_bytes(2, "little")))
        else:
            ops.append(app.request(d, 260, 6, 1, 1, seq, b"\x01\x02\x03"))
    n = len(z.cmd_log)
    await asyncio.gather(*[rig.outcome(x) for x in ops])
    await asyncio.sleep(10)
    order = [v for v in z.violations if "while" in v or "before the reset" in v]
    if order:
        raise Violation("application traffic: %s" % order[0], all=order)
    ctx.count("app_writes", len(z.cmd_log) - n)
    ctx.count("app_cases")
    ctx.sig([(round(t, 4), repr(c)) for t, c, _ in z.cmd_log[n:]])
    await app.shutdown()


async def _run(loop, case, rng, ctx):
    if rng.random() < 0.2 or rig.AGE:
        world, ad, api, rec = await rig.used_api_rig(loop, rng, traffic.Responder)
        ctx.count("used_connections")
    else:
        world, ad, api, rec = await rig.api_rig(loop, traffic.Responder)
    order = await traffic.drive(loop, ad, api, case["_t"], rng)
    await asyncio.sleep(0.1)
    if ad.unknown:
        raise Violation("the adapter received something nobody issued: %s" % (ad.unknown[:3],))
    open_ = None
    trace = []
    for t, ev, p in ad.history:
        if ev == "write":
            ctx.count("writes")
            trace.append("w%s" % p.id)
            if open_ is not None:
                o = open_
                done = (o.t_answer is not None and o.t_answer <= t) or (o.t_cancel is not None and o.t_cancel <= t) \
                    or t >= o.t_write + traffic.limit(o.c) - 1e-6
                if not done:
                    raise Violation("%r written at %.4f while %r (written %.4f) is neither answered, timed out nor "
                                    "cancelled%s" % (p.c, t, o.c, o.t_write, " (reset)" if o.reset else ""),
                                    trace=traffic.lines(order))
            open_ = p if (p.c.type == mt.SREQ or p.reset) else open_
            if p.reset:
                ctx.count("resets")
            if p.c.type == mt.AREQ and not p.reset:
                ctx.count("unanswerable")
            elif p.delay is None:
                ctx.count("unanswered")
        elif ev == "call":
            if open_ is not None and open_.t_end is not None and open_.t_end > t:
                ctx.count("queued_behind_outstanding")
        elif ev == "cancel":
            trace.append("c%s" % p.id)
            ctx.count("cancelled_outstanding" if p.t_write is not None and p.t_write <= t else "cancelled_queued")
        elif ev == "answer":
            trace.append("a%s" % p.id)
    if len(order) > 1:
        ctx.sig(trace)
    ctx.sample(traffic.lines(order)[:6])
    api.close()
    await asyncio.sleep(0)
