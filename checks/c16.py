"""C16: requests in progress are limited to the adapter's capacity, which is usable."""
import asyncio

import zigpy.types as zt
from lib import rig, vloop, zdo
from lib.core import Violation

PROP = "C16"
CASES = {"quick": 2400, "thorough": 30000}
RULE = ("A case is up to 80 unicast, group, broadcast and permit-join requests issued in bursts by as many tasks, "
        "accepted, rejected, unanswered, unencodable, or cancelled while waiting for a place, for the line, for the "
        "answer or during the 0.2 s; then a burst that must reach the full capacity, three times. Distinct = distinct "
        "(kinds, outcomes); non-trivial = every request of the case reached the adapter or was given up.")
REQUIRED = {"requests": 8000, "at_capacity": 300, "rejected": 800, "unanswered": 100, "cancelled_waiting": 300,
            "cancelled_unanswered": 30, "cancelled_settling": 80, "unencodable": 400, "reconnected": 120, "capacity_changed": 20,
            "probes": 800, "probes_16": 200}
EPS = 1e-6


def make_case(i, rng, ctx):
    return {"product": rng.randrange(3), "n": rng.choice((250, 900)) if i % 120 == 1 else rng.choice((0, 4, 20, 80)), "gap": rng.choice((0.0, 0.01, 0.1, 0.5)),
            "faults": rng.random() < 0.75, "lost": rng.random() < 0.25, "delay": rng.choice((0.0, 0.002, 0.008))}


def run_case(case, rng, ctx):
    vloop.run(lambda loop: _run(loop, case, rng, ctx))


class Req:
    pass


async def _run(loop, case, rng, ctx):
    world, z, app = await rig.app_rig(loop, rng, product=case["product"])
    capacity = 16 if z.product == 1 else 2
    devs = [rig.known_device(app, z, rng, n) for n in (0x1111, 0x2222, 0x3333)]
    z.delay = lambda cmd: case["delay"]
    reqs = {}
    log = []                       # requests in the order they reached the adapter

    def policy(cmd, n):
        p = z.now_payload
        r = None
        if cmd.name in ("dataRequest", "dataRequestExt"):
            r = reqs.get(bytes(p["data"]))
        elif cmd.name == "mgmtPermitJoinReq":
            r = reqs.get(p["duration"])
        if r is None:
            return None
        if r.t_write is not None:
            raise Violation("request submitted twice")
        r.t_write = world.now()
        log.append(r)
        if r.end == "none":
            return {"noexec": True}
        if isinstance(r.end, int):
            return {"status": r.end}
        if r.drop:
            return {"drop": True, "silent_areqs": True}
        return None

    z.policy = policy
    z.on_data = lambda p: ({"status": 0}, [])

    def start(kind, end="ok", cancel=None):
        r = Req()
        r.n = len(reqs)
        r.kind, r.end, r.cancel = kind, end, cancel
        r.t_write = r.t_answer = r.t_cancel = None
        # an answer that comes after its request was cancelled would be taken for another's
        r.drop = cancel is not None and cancel < 0.05
        data = b"\0" + r.n.to_bytes(4, "little")
        sep = 1
        if end == "unencodable":
            sep = 300
        if kind == "unicast":
            reqs[data] = r
            coro = app.request(rig.device(app, rng.choice(devs).ieee), 260, 6, sep, 1, rng.randrange(256), data,
                               expect_reply=rng.random() < 0.5)
        elif kind == "group":
            reqs[data] = r
            kw = rng.choice(({}, {"hops": rng.choice((0, 1, 2, 30, 255))}, {"non_member_radius": rng.choice((0, 1, 3))}))
            coro = app.mrequest(zdo.u16(rng), 260, 6, sep, rng.randrange(256), data, **kw)
        elif kind == "broadcast":
            reqs[data] = r
            kw = rng.choice(({}, {"broadcast_address": rng.choice(list(zt.BroadcastAddress))}))
            coro = app.broadcast(260, 6, sep, rng.choice((255, 1, 240)), rng.choice((0, 1, 0xFFFF)),
                                 rng.choice((0, 1, 2, 30, 255)), rng.randrange(256), data, **kw)
        else:
            free = [d for d in range(255) if d not in reqs]
            if not free or end == "unencodable":
                return None
            d = rng.choice(free)
            reqs[d] = r
            coro = app.permit_ncp(d)

        async def body():
            try:
                v = await coro
                r.outcome = "ok" if v is None or v[0] == 0 else "rejected"
            except asyncio.CancelledError:
                r.outcome = "cancelled"
                raise
            except Exception:
                r.outcome = "error"
            finally:
                r.t_end = world.now()

        async def guard():
            t = asyncio.ensure_future(body())
            if r.cancel is not None:
                await asyncio.wait([t], timeout=r.cancel)
                if not t.done():
                    r.t_cancel = world.now()
                    t.cancel()
            done, _ = await asyncio.wait([t], timeout=900)
            if not done:
                raise Violation("%s request (%s) never ended" % (kind, end))

        r.task = asyncio.ensure_future(guard())
        ctx.count("requests")
        return r

    def until(r):
        """When the request was out of the way."""
        if r.outcome in ("rejected", "error", "cancelled") or r.kind in ("unicast", "permit"):
            return r.t_end
        return max(r.t_end, r.t_write + 0.2)     # accepted group or broadcast

    def check_overlap(rs):
        rs = sorted((r for r in rs if r.t_write is not None), key=lambda r: r.t_write)
        top = 0
        for r in rs:
            n = sum(1 for o in rs if o.t_write <= r.t_write and until(o) > r.t_write + EPS)
            top = max(top, n)
            if n > capacity:
                raise Violation("%d requests in progress at %.4f, the adapter takes %d" % (n, r.t_write, capacity),
                                requests=[(o.kind, o.end, o.t_write, until(o), o.outcome) for o in rs
                                          if until(o) > r.t_write - 1 and o.t_write < r.t_write + 1])
            if r.outcome == "ok" and r.kind in ("group", "broadcast") and r.t_end < r.t_write + 0.2 - EPS:
                raise Violation("%s ended %.4f s after it was submitted" % (r.kind, r.t_end - r.t_write))
        if top == capacity:
            ctx.count("at_capacity")

    async def run_burst(rs):
        rs = [r for r in rs if r is not None]
        await asyncio.gather(*[r.task for r in rs])
        check_overlap(rs)
        for r in rs:
            if r.outcome == "cancelled":
                if r.t_write is None:
                    ctx.count("cancelled_waiting")
                elif r.drop or r.end == "none":
                    ctx.count("cancelled_unanswered")
                else:
                    ctx.count("cancelled_settling")
            elif r.t_write is None and r.end != "unencodable" and not case["lost"]:
                raise Violation("%s request never reached the adapter (%s)" % (r.kind, r.outcome))
            elif isinstance(r.end, int):
                ctx.count("rejected")
            elif r.end == "none":
                ctx.count("unanswered")
            elif r.end == "unencodable":
                ctx.count("unencodable")
        ctx.sig([(r.kind, str(r.end), r.outcome, r.cancel) for r in rs])

    rs = []
    for _ in range(case["n"]):
        kind = rng.choice(("unicast", "group", "group", "broadcast", "broadcast", "permit"))
        end, cancel = "ok", None
        x = rng.random() if case["faults"] else 1
        if x < 0.15:
            end = rng.choice((1, 2, 0x10, 0xE9, 0xF0, 0xCD))
        elif x < 0.18:
            end = "none"
        elif x < 0.28:
            end = "unencodable"
        elif x < 0.43:
            cancel = rng.choice((0.0, 0.001, 0.009, 0.02, 0.06, 0.15, 0.19, 0.4, 1.0))
            cancel += rng.random() * 1e-4
        rs.append(start(kind, end, cancel))
        if rng.random() < 0.5:
            await asyncio.sleep(rng.random() * case["gap"])
    if case["lost"] and case["n"]:
        await asyncio.sleep(rng.choice((0.0, 0.1)))
        z.port.lose()
        ctx.count("reconnected")
        if rng.random() < 0.5:
            # the stick was taken out to flash it
            z.product = rng.randrange(3)
            ctx.count("flashed")
        await asyncio.sleep(120)
    before = capacity
    # requests from before the loss went to either adapter
    capacity = max(capacity, 16 if z.product == 1 else 2)
    await run_burst(rs)
    capacity = 16 if z.product == 1 else 2
    if capacity != before:
        ctx.count("capacity_changed")
    await asyncio.sleep(rng.choice((0.0, 0.3, 20.0)))
    del log[:]
    for _ in range(3):
        k = capacity + rng.choice((0, 1, 3))
        t0 = world.now()
        del log[:]
        kinds = rng.choice((("group",), ("broadcast",), ("group", "broadcast")))
        burst = [start(rng.choice(kinds)) for _ in range(k)]
        # with few exceptions the line is the only thing to wait for
        await asyncio.sleep(0.19)
        if len(log) != min(k, capacity):
            raise Violation("%d of %d requests were submitted at once, the adapter takes %d" % (len(log), k, capacity))
        await run_burst(burst)
        if k > capacity:
            late = log[capacity].t_write - log[0].t_write
            if late > 0.2 + 0.01 * (capacity + 2):
                raise Violation("the next request was submitted %.3f s after the first of a full burst" % late,
                                log=[(r.kind, r.t_write - t0, r.t_end - t0) for r in log])
        if any(r.outcome != "ok" for r in burst):
            raise Violation("requests failed after earlier failures: %s" % [r.outcome for r in burst])
        ctx.count("probes")
        if capacity == 16:
            ctx.count("probes_16")
        ctx.sample({"capacity": capacity, "submitted_at": [round(r.t_write - t0, 4) for r in log]})
    rig.check_wire(z)
    rig.check_escaped(loop)
    await app.shutdown()
