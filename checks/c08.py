"""C08: every command ends within its limit; failures do not block the next one."""
import asyncio

from lib import gen, mtspec as mt, rig, traffic, vloop
from lib.core import Violation
from zigpy_cc.exception import CommandError

PROP = "C08"
CASES = {"quick": 3000, "thorough": 25000}
RULE = ("A case is 1-8 tasks issuing up to 24 commands answered before, just before, just after or long after their "
        "limit, never, or with statuses that are or are not expected; some cannot be encoded, some are cancelled. "
        "Distinct = distinct (commands, delays, outcomes); non-trivial = at least one did not simply succeed.")
REQUIRED = {"answered": 1500, "timeouts": 500, "reset_timeouts": 20, "long_limit_timeouts": 30, "just_in_time": 200,
            "command_errors": 300, "expected_statuses": 150, "encoding_errors": 100, "same_command_again": 150, "cancelled": 200,
            "sent_after_failure": 800, "crowds": 20}
EPS = 0.02


def make_case(i, rng, ctx):
    crowd = i % 75 == 1            # hundreds of callers at once
    n = rng.choice((150, 600)) if crowd else rng.choice((1, 3, 8, 24))
    pool = rng.sample(gen.CALLS, min(n, len(gen.CALLS)))
    used_long = set()
    plans = []
    for k in range(n):
        r = rng.random()
        if crowd and rng.random() < 0.97:
            r = 0.5
        if r < 0.10:
            c = mt.BY_NAME[rng.choice(traffic.RESETS)]
            p = traffic.Plan(c, gen.payload(c.req, rng), rsp=traffic.reset_ind(rng))
            p.delay = rng.choice((0.0, 1.0, 29.95, None, None))
        else:
            c = pool[k % len(pool)]
            if r < 0.2:
                c = mt.BY_NAME[rng.choice(traffic.LONG)]
            lim = traffic.limit(c)
            if r < 0.2 and c in used_long:
                late = None
            else:
                late = lim + 0.05
            used_long.add(c)
            p = traffic.Plan(c, gen.payload(c.req, rng, 40), rsp=gen.response_for(c, rng, 40))
            p.delay = rng.choice((0.0, 0.001, 0.5, lim - 0.05, lim - 0.05, late, None, None))
            if crowd and rng.random() < 0.98:
                p.delay = rng.choice((0.0, 0.001, 0.01))
            if c in (x.c for x in plans) and p.delay is not None and p.delay > lim:
                p.delay = None
            if "status" in p.rsp and rng.random() < 0.5:
                p.rsp["status"] = rng.choice((0, 1, 2, 9, 0xB8, 0xFF, rng.randrange(256)))
                p.expected = rng.choice((None, None, [0], [0, 1], [0, 9], [p.rsp["status"]], [2, p.rsp["status"]],
                                          (p.rsp["status"],), {0, 2}, frozenset((1, p.rsp["status"])),
                                          range(10), [2, 9], {1, 0xB8}, range(1, 9)))
                if rng.random() < 0.1:
                    p.rsp["status"] = 0
            if rng.random() < 0.1:
                b = gen.break_value(c, p.p, rng)
                if b:
                    p.bad = b[0]
        p.pause = 0 if crowd else rng.choice((0, 0, 0.001, 3.0, 10.0))
        if rng.random() < 0.12:
            p.cancel = rng.choice((0.0, 0.0005, 0.3, 5.9, 6.5))
        plans.append(p)
    for p in list(plans):
        # the same command again, after one that was given up or not answered
        if not p.reset and p.bad is None and rng.random() < (0 if crowd else 0.35):
            q = traffic.Plan(p.c, gen.payload(p.c.req, rng, 40), rsp=gen.response_for(p.c, rng, 40))
            if "status" in q.rsp:
                q.rsp["status"] = 0
            q.delay = rng.choice((0.0, 0.001, 0.5, 3.0))
            q.pause = rng.choice((0, 0, 0, 1.0))
            plans.insert(plans.index(p) + rng.choice((1, 1, 2, 5)), q)
    tasks = traffic.spread(traffic.no_stale(plans), rng, 3 * n if crowd else rng.choice((1, 2, 8)))
    return {"crowd": crowd, "tasks": [[p.show() for p in t] for t in tasks], "_t": tasks}


def run_case(case, rng, ctx):
    ctx.count("crowds", case["crowd"])
    vloop.run(lambda loop: _run(loop, case, rng, ctx))


async def _run(loop, case, rng, ctx):
    if rng.random() < 0.2 or rig.AGE:
        world, ad, api, rec = await rig.used_api_rig(loop, rng, traffic.Responder)
        ctx.count("used_connections")
    else:
        world, ad, api, rec = await rig.api_rig(loop, traffic.Responder)
    order = await traffic.drive(loop, ad, api, case["_t"], rng)
    bad = lambda msg: Violation(msg, trace=traffic.lines(order))
    prev_end = 0.0
    unanswered = set()
    failed_before = False
    plain = True
    # the driver handles one command at a time, in call order
    for p in order:
        if p.t_cancel is not None:
            ctx.count("cancelled")
            plain = False
            if p.t_end > p.t_cancel + EPS:
                raise bad("%r was cancelled at %.3f and ended only at %.3f" % (p.c, p.t_cancel, p.t_end))
            if p.outcome != "cancelled" and p.t_write is None and p.bad is None:
                raise bad("%r was cancelled before it was sent and ended with %s %r" % (p.c, p.outcome, p.value))
            if p.outcome != "cancelled" and p.t_write is not None and (
                    p.delay is None or abs(p.t_write + p.delay - p.t_cancel) > EPS) and (
                    p.t_cancel < p.t_write + traffic.limit(p.c) - EPS):
                raise bad("%r was cancelled at %.3f, sent at %.3f, and ended with %s %r" % (
                    p.c, p.t_cancel, p.t_write, p.outcome, p.value))
            if p.t_write is not None:
                unanswered.add((p.c.subsys, p.c.name))
                prev_end = max(prev_end, p.t_end)
                failed_before = True
            continue
        start = max(p.t_call, prev_end)
        if p.bad is not None:
            ctx.count("encoding_errors")
            plain = False
            if p.outcome != "error" or isinstance(p.value, asyncio.TimeoutError) or p.t_end > start + EPS:
                raise bad("%r that cannot be encoded ended with %s %r at %.3f (turn at %.3f)" % (
                    p.c, p.outcome, p.value, p.t_end, start))
            failed_before = True
            continue
        if p.t_write is None:
            raise bad("%r was never sent; it ended with %s %r" % (p.c, p.outcome, p.value))
        if p.t_write > start + EPS:
            raise bad("%r was sent at %.3f although the driver was free at %.3f" % (p.c, p.t_write, start))
        if failed_before:
            ctx.count("sent_after_failure")
        lim = traffic.limit(p.c)
        due = p.t_write + lim
        if p.delay is not None and p.delay < lim - 0.01:
            at = p.t_write + p.delay
            if abs(p.t_end - at) > EPS:
                raise bad("%r was answered at %.3f and ended at %.3f" % (p.c, at, p.t_end))
            exp = p.expected if p.expected is not None else [0]
            if p.delay > lim - 0.1:
                ctx.count("just_in_time")
            st = p.rsp.get("status", 0) if not p.reset else 0
            if "status" in p.rsp and not p.reset and st not in exp:
                if p.outcome != "error" or not isinstance(p.value, CommandError) or p.value.status != st:
                    raise bad("%r answered with status %d (expected %r) ended with %s %r" % (
                        p.c, st, exp, p.outcome, p.value))
                ctx.count("command_errors")
                failed_before, plain = True, False
            else:
                if p.outcome != "ok":
                    raise bad("%r answered in time (status %d, expected %r) ended with %s %r" % (
                        p.c, st, exp, p.outcome, p.value))
                v = p.value
                if rig.norm_payload(v.payload) != p.rsp:
                    raise bad("%r returned %r instead of %r" % (p.c, v.payload, p.rsp))
                if (p.c.subsys, p.c.name) in unanswered:
                    ctx.count("same_command_again")
                if st:
                    ctx.count("expected_statuses")
                    plain = False
                ctx.count("answered")
                failed_before = False
        else:
            if p.outcome != "error" or not isinstance(p.value, asyncio.TimeoutError):
                raise bad("%r without an answer within %g s ended with %s %r at %.3f" % (
                    p.c, lim, p.outcome, p.value, p.t_end))
            if abs(p.t_end - due) > EPS:
                raise bad("%r timed out at %.3f, its limit was %.3f (%g s after sending)" % (p.c, p.t_end, due, lim))
            ctx.count("timeouts")
            unanswered.add((p.c.subsys, p.c.name))
            if p.reset:
                ctx.count("reset_timeouts")
            elif lim == 20:
                ctx.count("long_limit_timeouts")
            failed_before, plain = True, False
        prev_end = max(prev_end, p.t_end)
    rig.check_escaped(loop)
    if not plain:
        ctx.sig([(repr(p.c), p.delay, p.outcome, round(p.t_end, 3)) for p in order])
    ctx.sample(traffic.lines(order)[:5])
    api.close()
    await asyncio.sleep(0)
