"""C14: incoming application messages are delivered once to the right device."""
import asyncio

import zigpy.types as zt
from lib import gen, mtspec as mt, rig, vloop, zdo
from lib.core import Violation

PROP = "C14"
CASES = {"quick": 1200, "thorough": 20000}
RULE = ("A case is 1-40 reads with up to 12 frames each, cut anywhere: incoming messages in short and extended form, "
        "identified by network or IEEE address, from known, renumbered, just joined and unknown senders, mixed with "
        "notifications and with command traffic of the host. Distinct = distinct message; non-trivial = delivered.")
REQUIRED = {"short_form": 6000, "ext_by_nwk": 1500, "ext_by_ieee": 1500, "unknown_sender": 1500, "empty_data": 800,
            "repeated_frame": 500, "address_changed": 100, "joined_meanwhile": 80, "coordinator": 300, "delivered": 8000,
            "handler_errors": 200, "lqi_checked": 2000, "newer_form": 5000}


def make_case(i, rng, ctx):
    return {"product": rng.randrange(3), "reads": rng.choice((1, 5, 15, 40)), "per_read": rng.choice((1, 3, 12)),
            "chunks": rng.random() < 0.5, "forward": rng.random() < 0.6, "joins": rng.random() < 0.4,
            "traffic": rng.random() < 0.5, "raising": rng.random() < 0.2}


def run_case(case, rng, ctx):
    vloop.run(lambda loop: _run(loop, case, rng, ctx))


def _frame(rng, name, body, ctx):
    c = mt.BY_NAME[(mt.AF, name)]
    # newer firmware adds the last hop's address and the radius left
    more = rng.choice((b"", gen.rbytes(rng, 3))) if body["len"] <= 220 else b""
    ctx.count("newer_form", bool(more))
    return mt.frame(mt.AREQ, c.subsys, c.id, mt.encode(c.req, body) + more)


def _message(rng, ctx, nwk, ieee, junk):
    """-> (frame, (cluster, src_ep, dst_ep, data), lqi)"""
    form = rng.choice(("short", "short", "nwk", "ieee"))
    top = 223 if form != "short" else 233
    n = rng.choice((0, 1, 3, 20, 100, top, rng.randrange(top + 1), rng.randrange(top + 1)))
    data = gen.rbytes(rng, n)
    if n and rng.random() < 0.3:
        data = (bytes([rng.choice((0x18, 0x08, 0x01, 0x11)), rng.randrange(256), rng.choice((0x0A, 1, 0x0B, 4))])
                + data)[:n]
    cl, sep, dep, lqi = zdo.u16(rng), rng.randrange(1, 256), rng.randrange(1, 256), zdo.u8(rng)
    if rng.random() < 0.06:
        sep, dep = rng.choice(((0, dep), (sep, 0)))
    body = dict(groupid=rng.choice((0, 0, 5, 0xFFFF)), clusterid=cl, srcendpoint=sep, dstendpoint=dep,
                wasbroadcast=rng.randrange(2), linkquality=lqi, securityuse=rng.randrange(2), timestamp=gen.rint(rng, 4),
                transseqnumber=rng.randrange(256), len=n, data=data)
    if n == 0:
        ctx.count("empty_data")
    if form == "short":
        body["srcaddr"] = nwk
        fr = _frame(rng, "incomingMsg", body, ctx)
        ctx.count("short_form")
    else:
        body["srcpanid"] = rng.choice((0x1A62, 0x1A62, zdo.u16(rng)))
        body["srcaddrmode"] = 2 if form == "nwk" else 3
        body["srcaddr"] = ieee if form == "ieee" else zdo.le(nwk) + rng.choice((bytes(6), gen.rbytes(rng, 6), junk))
        fr = _frame(rng, "incomingMsgExt", body, ctx)
        ctx.count("ext_by_" + form)
    return fr, (cl, sep, dep, data), lqi


async def _run(loop, case, rng, ctx):
    world, z, app = await rig.app_rig(loop, rng, product=case["product"])
    app.forward = case["forward"]
    z.on_data = lambda p: ({"status": 0}, [])    # devices say what this check makes them say, nothing else
    used = {0}

    def fresh():
        while True:
            n = rng.choice((1, 2, 0xFF, 0x100, 0xFFF7, rng.randrange(1, 0xFFF8), rng.randrange(1, 0xFFF8)))
            if n not in used:
                used.add(n)
                return n

    devs = [rig.known_device(app, z, rng, fresh()) for _ in range(rng.choice((1, 3, 6)) if rng.random() < 0.98 else 250)]
    # one whose IEEE address looks like the network address of another, and the other way round
    twin = rig.known_device(app, z, rng, fresh(), zdo.le(devs[0].nwk) + zdo.ieee(rng)[:6])
    devs.append(twin)
    if rng.random() < 0.5:
        # one whose IEEE address is nothing but the network address of itself or another
        devs.append(rig.known_device(app, z, rng, fresh(), zdo.le(rng.choice((devs[0].nwk, max(used)))) + bytes(6)))
    for d in devs:
        for ep in rng.sample(range(1, 241), 3):
            d.endpoints[ep] = (260, 0x100, 1, [0, 6, 8], [])
            e = rig.device(app, d.ieee).add_endpoint(ep)
            for c in (0, 6, 8):
                e.add_input_cluster(c)
    coord = app.get_device(nwk=0)
    coord.node_desc = rig.device(app, devs[0].ieee).node_desc
    known = [(d.nwk, d.ieee) for d in devs] + [(0, bytes(coord.ieee))]
    want = []                                    # (ieee, cluster, src, dst, data, lqi)
    last = {}

    if case["raising"]:
        real = app.handle_message

        def raising(*a, **k):
            real(*a, **k)
            if rng.random() < 0.3:
                ctx.count("handler_errors")
                raise rig.an_error()

        app.handle_message = raising

    stop = []

    async def traffic():
        while not stop:
            if rng.random() < 0.3:
                # a query of a device, answered between its messages
                d = app.devices.get(zt.EUI64(rng.choice(known)[1]))
                if d is not None and d.nwk:
                    cl, more = rng.choice(((2, zdo.le(d.nwk)), (3, zdo.le(d.nwk)), (5, zdo.le(d.nwk)), (0x31, b"\0"),
                                           (0x32, b"\0"), (4, zdo.le(d.nwk) + b"\1"), (0x34, bytes(d.ieee) + b"\0"),
                                           (0x36, b"\0\1")))
                    r = await rig.outcome(app.request(d, 0, cl, 0, 0, rng.randrange(256), zdo.le(0, 1) + more))
                    ctx.count("device_queried")
            r = await rig.outcome(gen.call(app._api, mt.BY_NAME[(mt.UTIL, "getDeviceInfo")], {}))
            if r[0] != "ok":
                raise Violation("a command failed while messages came in: %r" % (r,))
            await asyncio.sleep(rng.choice((0.001, 0.01)))

    tr = asyncio.ensure_future(traffic()) if case["traffic"] else None
    strangers = set()
    for _ in range(case["reads"]):
        blob = b""
        for _ in range(rng.randrange(1, case["per_read"] + 1)):
            x = rng.random()
            if x < 0.12:
                c = rng.choice([c for c in gen.AREQS if c.name not in (
                    "incomingMsg", "incomingMsgExt", "endDeviceAnnceInd", "permitJoinInd", "mgmtPermitJoinRsp")])
                blob += gen.areq(c, gen.payload(c.req, rng, 200))
            elif x < 0.3:
                nwk, ie = fresh(), zdo.ieee(rng)
                if rng.random() < 0.5:
                    ie = zdo.le(rng.choice(known)[0]) + ie[:6]
                strangers.add(ie)
                blob += _message(rng, ctx, nwk, ie, twin.ieee[2:])[0]
                ctx.count("unknown_sender")
            elif x < 0.36 and case["joins"]:
                if rng.random() < 0.5:
                    k = rng.randrange(len(known) - 1)
                    ie = known[k][1]
                    known[k] = (fresh(), ie)
                    d = next(d for d in devs if d.ieee == ie)
                    z.devices.pop(d.nwk, None)
                    d.nwk = known[k][0]
                    ctx.count("address_changed")
                else:
                    from lib import znp
                    d = znp.SimDevice(zdo.ieee(rng), fresh(), znp.node_desc_fields(rng), {})
                    devs.append(d)
                    known.insert(0, (d.nwk, d.ieee))
                    ctx.count("joined_meanwhile")
                z.devices[d.nwk] = d
                blob += z.announce_frame(d)
            else:
                nwk, ie = rng.choice(known)
                fr, m, lqi = _message(rng, ctx, nwk, ie, twin.ieee[2:])
                for _ in range(2 if rng.random() < 0.1 else 1):
                    blob += fr
                    want.append((ie,) + m + (lqi,))
                last[ie] = lqi
                if nwk == 0:
                    ctx.count("coordinator")
                if want[-2:-1] == want[-1:]:
                    ctx.count("repeated_frame")
        chunks = None
        if case["chunks"]:
            chunks, left = [], len(blob)
            while left > 0:
                k = min(left, rng.choice((1, 2, 7, 60, 300)))
                chunks.append(k)
                left -= k
        z.send_now(blob, chunks)
        await asyncio.sleep(rng.choice((0.0, 0.0005, 0.05)))
        if rng.random() < 0.3:
            await asyncio.sleep(0.5)
            _compare(app, want, ctx)
            for ie, q in last.items():
                dev = app.devices.get(zt.EUI64(ie))
                if dev.lqi != q:
                    raise Violation("link quality of %s is %r, the adapter reported %d" % (ie.hex(), dev.lqi, q))
                ctx.count("lqi_checked")
    await asyncio.sleep(1)
    _compare(app, want, ctx)
    for nwk, ie in known:
        dev = app.devices.get(zt.EUI64(ie))
        if dev is not None and ie not in last and dev.lqi is not None:
            raise Violation("link quality of a device that sent no message became %r" % dev.lqi)
    for ie in strangers:
        if zt.EUI64(ie) in app.devices:
            raise Violation("a message from an unknown sender created a device")
    extra = {bytes(i) for i in app.devices} - {ie for _, ie in known}
    if extra:
        raise Violation("devices nobody announced: %s" % extra)
    for w in want:
        ctx.sig(w)
        ctx.sample(w)
    ctx.count("delivered", len(want))
    stop.append(1)
    if tr is not None:
        await tr
    rig.check_escaped(loop)
    await app.shutdown()


def _compare(app, want, ctx):
    # messages between zero endpoints are ZDO traffic
    got = [(ie, cl, s, d, data, lqi) for _, ie, cl, s, d, data, lqi, _ in app.messages if (s, d) != (0, 0)]
    if got != want:
        n = next((i for i in range(max(len(got), len(want))) if got[i:i + 1] != want[i:i + 1]))
        raise Violation("message %d of %d (%d delivered): delivered %r, the adapter sent %r" % (
            n, len(want), len(got), got[n:n + 1], want[n:n + 1]), delivered=got[max(0, n - 2):n + 3], sent=want[max(0, n - 2):n + 3])
