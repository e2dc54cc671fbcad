"""C10: a device's ZDO reply reaches the request that asked for it."""
import asyncio
import collections

from lib import mtspec as mt, rig, vloop, zdo, znp
from lib.core import Violation

PROP = "C10"
CASES = {"quick": 1500, "thorough": 20000}
RULE = ("A case is 4-60 ZDO requests of 12 kinds to 1-5 devices (and at times the adapter itself) on one adapter, with random transaction numbers (0 and "
        "255 often), answered after 0-9 s in any order, never, or twice, some rejected, unanswered or cancelled by the "
        "time the adapter sees them, with replies nobody asked for and application data in between. Distinct = "
        "distinct (device, kind, tsn, treatment) sequence; non-trivial = at least one reply was delivered.")
REQUIRED = {"delivered": 4000, "delivered_tsn_0": 150, "delivered_tsn_255": 150, "delivered_to_older_request": 150,
            "several_outstanding": 600, "nobody_waiting": 500, "rejected": 250, "unanswered_by_adapter": 60,
            "cancelled": 100, "queued_long": 800, "out_of_order": 300, "unknown_sender": 100, "reply_before_response": 200,
            "delivered_from_coordinator": 800, "commands_meanwhile": 40000}


def make_case(i, rng, ctx):
    if rng.random() < 0.02:
        # hundreds at the same time
        return {"product": rng.randrange(3), "devices": rng.choice((2, 5)), "requests": 350,
                "kinds": rng.sample(sorted(zdo.KINDS), rng.choice((1, 4))), "tasks": rng.choice((150, 330)), "slow": 0,
                "coordinator": rng.random() < 0.3}
    return {"product": rng.randrange(3), "devices": rng.choice((1, 2, 5)), "requests": rng.choice((4, 12, 30, 60)),
            "kinds": rng.sample(sorted(zdo.KINDS), rng.choice((1, 2, 4, 12))),
            "tasks": rng.choice((1, 3, 8)), "slow": rng.choice((0, 0, 1)), "chatter": rng.random() < 0.02,
            "coordinator": rng.random() < 0.3}


def run_case(case, rng, ctx):
    vloop.run(lambda loop: _run(loop, case, rng, ctx))


class Req:
    pass


async def _run(loop, case, rng, ctx):
    world, z, app = await rig.app_rig(loop, rng, product=case["product"])
    app.forward = False
    # addresses that differ in one bit
    base = rng.choice((0x2000, rng.randrange(1, 0xFFF8)))
    near = [n for n in (base ^ 1 << b for b in rng.sample(range(16), 16)) if 0 < n < 0xFFF8 and n != 0x7777]
    devs = [rig.known_device(app, z, rng, n) for n in [base] + near[:case["devices"] - 1]]
    if case["coordinator"]:
        import zigpy.types as zt
        if zt.EUI64(z.ieee) not in app.devices:
            raise Violation("after startup the coordinator %s is not among the devices" % z.ieee.hex())
        devs.append(znp.SimDevice(z.ieee, 0, znp.node_desc_fields(rng), {}))
        z.devices[0] = devs[-1]
    by_nwk = {d.nwk: d for d in devs}
    now = world.now
    live = collections.defaultdict(list)          # (nwk, reply name) -> requests, oldest first
    expected = []                                 # (time, ieee, cluster, tsn) or what must not come
    log = []
    order = []                                    # order of submission, to see reorderings

    def note(*a):
        log.append((round(now(), 4),) + a)

    def settled(pair):
        """Live requests of the pair, or None while one of them may or may not have expired."""
        out = []
        for r in live[pair]:
            if r.accepted is not None and now() - r.accepted > 10.4:
                continue
            if r.seen is not None and now() - r.seen > 9.8:
                return None
            out.append(r)
        live[pair] = out
        return list(out)

    def feed(nwk, kind, r=None, dup=False):
        """A reply frame from nwk; r: the request the device answers."""
        pair = (nwk, kind)
        s = settled(pair)
        if s is None or (s and r is None) or (r is not None and not dup and r not in s):
            return
        k = zdo.KINDS[kind]
        d = by_nwk.get(nwk)
        # a device may answer about another one
        body = k.reply(rng, rng.choice((nwk, nwk, rng.choice(devs).nwk, 0x1234)))
        body["srcaddr"] = nwk
        frame = mt.command_frame(mt.ZDO, k.rsp, body, mt.AREQ)
        if s:
            head = s[0]
            live[pair].remove(head)
            expected.append((bytes(d.ieee), k.reply_cluster, head.tsn))
            ctx.count("delivered")
            if head.tsn in (0, 255):
                ctx.count("delivered_tsn_%d" % head.tsn)
            if head is not r:
                ctx.count("delivered_to_older_request")
            if len(s) > 1:
                ctx.count("several_outstanding")
            if order and order[0] is not r:
                ctx.count("out_of_order")
            if r in order:
                order.remove(r)
            if head.accepted is None:
                ctx.count("reply_before_response")
        else:
            ctx.count("nobody_waiting" if d is not None else "unknown_sender")
        if not nwk and s:
            ctx.count("delivered_from_coordinator")
        note("reply", kind, hex(nwk), s[0].tsn if s else None)
        z.send_now(frame)

    script = {}

    def hook(name, dst, p, body, default):
        r = script.pop((name, dst), None)
        if r is None:
            return []
        order.append(r)
        if r.delay is None:
            return []

        def fire():
            feed(dst, r.kind, r)

        def again():
            feed(dst, r.kind, None)
        if r.delay == 0:
            fire()
        else:
            loop.call_at(1000.0 + now() + r.delay, fire)
        if r.again is not None:
                loop.call_at(1000.0 + now() + r.delay + r.again, again)
        return []

    z.zdo_hook = hook
    by_cmd = {k.req: n for n, k in zdo.KINDS.items()}
    fifo = collections.defaultdict(collections.deque)     # (kind, nwk) -> requests not yet at the adapter

    bodies = set()

    def policy(cmd, n):
        kind = by_cmd.get(cmd.name)
        q = fifo.get((kind, (z.now_payload or {}).get("dstaddr")))
        # which one: its parameters tell, as the driver may write them in another order than they were made in
        r = next((r for r in q or () if z.now_data.endswith(r.body)), None)
        if r is None:
            while q and q[0].done:
                q.popleft()
            if not q:
                return None
            r = q[0]
        if q[0] is not r:
            ctx.count("overtaken")
        q.remove(r)
        r.seen = now()
        if r.seen - r.issued > 5:
            ctx.count("queued_long")
        if r.treat is None or "delay" in r.treat:
            script[(zdo.KINDS[kind].rsp, r.dev.nwk)] = r
        return r.treat

    z.policy = policy

    async def one():
        r = Req()
        r.dev = rng.choice(devs)
        r.kind = rng.choice(case["kinds"])
        r.tsn = rng.choice((0, 255, 1, rng.randrange(256), rng.randrange(256)))
        r.accepted = r.seen = None
        r.done = False
        r.again = None
        x = rng.random()
        r.treat = None
        r.delay = rng.choice((0, 0.002, rng.uniform(0.0005, 0.3), rng.uniform(0, 3), rng.uniform(3, 9)))
        r.cancel = None
        if x < 0.1:
            r.treat = {"status": rng.choice((1, 2, 0x10, 0xC9, 0xE9))}
        elif x < 0.12:
            r.treat = {"noexec": True}
        elif x < 0.22:
            r.delay = None
        elif x < 0.32:
            r.again = rng.uniform(0.0, 2.0)
        elif x < 0.38:
            r.cancel = rng.choice((0.0, 0.0005, 0.001, 0.05))
            r.treat = {"noexec": True} if rng.random() < 0.1 else None
            r.delay = None
        elif x < 0.38 + 0.3 * case["slow"]:
            r.treat = {"delay": rng.uniform(1, 5.5)}
        k = zdo.KINDS[r.kind]
        for _ in range(40):
            # different from the others where the kind has enough parameters
            r.body = k.request(rng, rng.randrange(0xFFF8))
            if (r.kind, r.dev.nwk, r.body) not in bodies:
                break
        bodies.add((r.kind, r.dev.nwk, r.body))
        data = bytes([r.tsn]) + r.body
        dev = rig.device(app, r.dev.ieee)

        async def call():
            r.issued = now()
            live[(r.dev.nwk, r.kind)].append(r)
            fifo[(r.kind, r.dev.nwk)].append(r)
            note("issue", r.kind, hex(r.dev.nwk), r.tsn)
            return await app.request(dev, 0, k.cluster, 0, 0, r.tsn, data)
        t = asyncio.ensure_future(call())
        if r.cancel is not None:
            await asyncio.wait([t], timeout=r.cancel)
            t.cancel()
        await asyncio.wait([t])
        r.done = True
        if t.cancelled():
            what = "cancelled"
        elif t.exception() is not None:
            what = "exception"
            if not isinstance(t.exception(), asyncio.TimeoutError):
                raise t.exception()
        else:
            what = "ok" if t.result()[0] == 0 else "rejected"
        note("end", r.kind, hex(r.dev.nwk), r.tsn, what)
        if what == "ok":
            r.accepted = now()
        else:
            pair = (r.dev.nwk, r.kind)
            if r in live[pair]:
                live[pair].remove(r)
            ctx.count({"cancelled": "cancelled", "exception": "unanswered_by_adapter"}.get(what, what))
        ctx.sig(r.kind, r.dev.nwk, r.tsn, r.delay, what)

    async def worker(n):
        for _ in range(n):
            await one()
            if rng.random() < 0.3:
                await asyncio.sleep(rng.choice((0.001, 0.2, 2.0, 11.0)) * rng.random())

    async def noise():
        while True:
            await asyncio.sleep(rng.uniform(0.01, 1.5))
            x = rng.random()
            if x < 0.5:
                feed(rng.choice(devs).nwk, rng.choice(sorted(zdo.KINDS)))
            elif x < 0.6:
                feed(0x7777, rng.choice(case["kinds"]))
            elif x < 0.8:
                d = rng.choice(devs)
                z.send_now(z.incoming(d, rng.choice((0, 6, 0x8002, 0x8005)), 1, 1, bytes([rng.randrange(256)] * 3)))
            else:
                z.send_now(mt.command_frame(mt.AF, "dataConfirm", dict(
                    status=0, endpoint=1, transid=rng.randrange(256)), mt.AREQ))

    async def chatter():
        """Keeps the adapter busy: thousands of commands during the life of one request."""
        for _ in range(4000):
            await rig.outcome(app._api.request(1, "ping", {"capabilities": 1}), 300)
            ctx.count("commands_meanwhile")

    nz = asyncio.ensure_future(noise())
    ch = asyncio.ensure_future(chatter()) if case.get("chatter") else None
    share = case["requests"] // case["tasks"] + 1
    await asyncio.gather(*[worker(share) for _ in range(case["tasks"])])
    await asyncio.sleep(9.5)
    nz.cancel()
    if ch is not None:
        ch.cancel()
    await asyncio.sleep(0.1)
    got = [(m[1], m[2], m[5][0]) for m in app.messages if m[3] == 0 and m[4] == 0]
    if got != expected:
        n = next((j for j, (a, b) in enumerate(zip(got, expected)) if a != b), min(len(got), len(expected)))
        s = lambda x: [(a.hex(), hex(b), c) for a, b, c in x]
        raise Violation("replies delivered as (device, cluster, tsn) differ from number %d on: got %s, expected %s" % (
            n, s(got[n:n + 3]), s(expected[n:n + 3])), log=log[-400:])
    rig.check_escaped(loop)
    ctx.sample(log[:8])
    nz = None
    await app.shutdown()
