"""C15: joined devices are known at their latest address and can be interviewed."""
import asyncio

import zigpy.device
import zigpy.types as zt
from lib import gen, mtspec as mt, rig, vloop, zdo
from lib.core import Violation

PROP = "C15"
CASES = {"quick": 1500, "thorough": 15000}
RULE = ("A case is 1-8 devices announcing themselves, singly or several in one read, again at the same or at new "
        "addresses, before, during and after their interviews, some "
        "answering nothing at first; the simulated devices answer every query after a random "
        "delay. Distinct = distinct (address history, endpoints); non-trivial = device announced.")
REQUIRED = {"joined": 300, "announced_again": 150, "moved": 150, "moved_during_interview": 30, "address_reused": 15, "address_of_absent_device": 150,
            "joined_in_one_read": 60, "interviewed": 200, "table_checks": 500, "sent": 200, "received": 200,
            "from_old_address": 60, "announced_after_failed_interview": 200}
ASSUMPTIONS = ["two devices that are present at the same time never have the same network address",
               "an interview during which the device changed its address is not required to complete"]


def make_case(i, rng, ctx):
    if i % 250 == 1:
        # a whole building
        return {"product": rng.randrange(3), "devices": rng.choice((70, 280)), "moves": 0, "burst": rng.random() < 0.5,
                "chunks": False, "air": (0.01, 0.1), "adapter": 0.002}
    return {"product": rng.randrange(3), "devices": rng.choice((1, 2, 4, 8)), "moves": rng.choice((0, 0, 1, 4)),
            "burst": rng.random() < 0.5, "chunks": rng.random() < 0.4,
            "air": rng.choice(((0.0, 0.0), (0.01, 0.1), (0.2, 4.0))), "adapter": rng.choice((0.0, 0.002, 0.05))}


def run_case(case, rng, ctx):
    vloop.run(lambda loop: _run(loop, case, rng, ctx))


class Dev:
    pass


async def _run(loop, case, rng, ctx):
    world, z, app = await rig.app_rig(loop, rng, product=case["product"])
    lst = rig.Listener(loop)
    app.add_listener(lst)
    z.air_delay = lambda kind: rng.uniform(*case["air"])
    z.delay = lambda cmd: rng.random() * case["adapter"]
    used = {0}
    free = []

    def fresh():
        if free and rng.random() < 0.5:
            ctx.count("address_reused")
            return free.pop()
        while True:
            n = rng.choice((1, 2, 0xFF, 0x100, 0xFFF7, rng.randrange(1, 0xFFF8), rng.randrange(1, 0xFFF8)))
            if n not in used:
                used.add(n)
                return n

    devs, expect, told = [], {}, []

    def announce(d):
        z.devices = {k: v for k, v in z.devices.items() if v.ieee != d.sim.ieee}
        z.devices[d.sim.nwk] = d.sim
        before = expect.get(d.sim.ieee)
        expect[d.sim.ieee] = d.sim.nwk
        if before != d.sim.nwk:
            told.append((d.sim.ieee, d.sim.nwk))
        return z.announce_frame(d.sim, src=None if rng.random() < 0.7 else zdo.u16(rng))

    def put(blob):
        chunks = None
        if case["chunks"]:
            chunks, left = [], len(blob)
            while left > 0:
                chunks.append(min(left, rng.choice((1, 5, 40))))
                left -= chunks[-1]
        z.send_now(blob, chunks)

    async def table():
        await asyncio.sleep(0.001)
        for ie, nwk in expect.items():
            n = [d for d in app.devices.values() if bytes(d.ieee) == ie]
            if len(n) != 1 or int(n[0].nwk) != nwk or app.devices.get(zt.EUI64(ie)) is not n[0]:
                raise Violation("device %s announced itself at 0x%04x, the table has %s" % (
                    ie.hex(), nwk, ["0x%04x" % d.nwk for d in n]))
            if app.get_device(nwk=nwk) is not n[0]:
                raise Violation("0x%04x resolves to another device" % nwk)
        extra = {bytes(i) for i in app.devices} - set(expect) - {z.ieee}
        if extra:
            raise Violation("device table has %s, nobody announced that" % extra)
        ctx.count("table_checks")

    for _ in range(case["devices"]):
        d = Dev()
        d.sim = zdo.sim_device(rng, fresh())
        d.old = []
        d.disturbed = False
        # asleep or out of reach: its first interview fails
        d.sim.silent = d.late = rng.random() < 0.15
        devs.append(d)
    if case["burst"]:
        put(b"".join(announce(d) for d in devs))
        ctx.count("joined_in_one_read", len(devs) if len(devs) > 1 else 0)
        await table()
    else:
        for d in devs:
            put(announce(d))
            await table()
            await asyncio.sleep(rng.choice((0.0, 0.05, 1.0, 30.0)))
    ctx.count("joined", len(devs))

    def busy(d):
        e = app.devices.get(zt.EUI64(d.sim.ieee))
        return e is None or e.initializing or e.status != zigpy.device.Status.ENDPOINTS_INIT

    for _ in range(case["moves"] * len(devs)):
        await asyncio.sleep(rng.choice((0.0, 0.003, 0.05, 2.0, 60.0)))
        d = rng.choice(devs)
        k = rng.random()
        if k < 0.4:
            for _ in range(rng.choice((1, 2))):
                put(announce(d))
            ctx.count("announced_again")
        elif k < 0.5:
            put(mt.command_frame(mt.ZDO, "tcDeviceInd", dict(nwkaddr=d.sim.nwk, extaddr=d.sim.ieee,
                                                             parentaddr=zdo.u16(rng)), mt.AREQ) + announce(d))
            ctx.count("announced_again")
        else:
            if busy(d):
                d.disturbed = True
                ctx.count("moved_during_interview")
            d.old.append(d.sim.nwk)
            d.sim.nwk = fresh()
            put(announce(d))
            ctx.count("moved")
            if rng.random() < 0.3 and not busy(d):
                # nobody uses the old address any more
                free.append(d.old.pop())
        await table()
    for d in devs:
        if d.late:
            for _ in range(60):
                await asyncio.sleep(10)
                e = app.devices.get(zt.EUI64(d.sim.ieee))
                if e is None or not e.initializing:
                    break
            d.disturbed = e is None or e.initializing
            d.sim.silent = False
            put(announce(d))
            ctx.count("announced_after_failed_interview")
    await asyncio.sleep(400 if case["air"][1] > 1 else 150)
    await table()
    gone = []
    if len(devs) > 1 and rng.random() < 0.3:
        # one is away for good without a word, and its address is given to another
        a, d = devs[0], Dev()
        d.sim, d.old, d.late = zdo.sim_device(rng, a.sim.nwk), [], False
        gone = [a]
        put(announce(d))
        await asyncio.sleep(0.001)
        e = app.devices.get(zt.EUI64(d.sim.ieee))
        if e is None or int(e.nwk) != d.sim.nwk:
            raise Violation("device %s announced itself at 0x%04x, the table has %r" % (d.sim.ieee.hex(), d.sim.nwk, e))
        ctx.count("address_of_absent_device")
        await asyncio.sleep(150)
        for ie, nwk in expect.items():
            e = app.devices.get(zt.EUI64(ie))
            if e is None or int(e.nwk) != nwk:
                raise Violation("device %s last announced itself at 0x%04x, the table has %r" % (ie.hex(), nwk, e))
    joined = [(e[2], e[3]) for e in lst.events if e[1] == "device_joined"]
    for x in told:
        if x not in joined:
            raise Violation("listeners were not told that %s joined at 0x%04x" % (x[0].hex(), x[1]), events=lst.events)
    for x in joined:
        if x not in told:
            raise Violation("listeners were told %r, nobody announced that" % (x,))
    inited = [e[2] for e in lst.events if e[1] == "device_initialized"]
    devs = [d for d in devs if d not in gone]
    for d in devs:
        e = app.devices[zt.EUI64(d.sim.ieee)]
        if not d.disturbed:
            want = {ep: (x[0], x[1], sorted(x[3]), sorted(x[4])) for ep, x in d.sim.endpoints.items()}
            got = {n: (x.profile_id, int(x.device_type) if x.device_type is not None else None,
                       sorted(x.in_clusters), sorted(x.out_clusters)) for n, x in e.endpoints.items() if n}
            if e.status != zigpy.device.Status.ENDPOINTS_INIT or e.initializing or bytes(e.ieee) not in inited:
                raise Violation("device %s answered everything and is not interviewed (%s)" % (d.sim.ieee.hex(), e.status))
            if got != want:
                raise Violation("interview of %s: %s, the device has %s" % (d.sim.ieee.hex(), got, want))
            if want and (e.manufacturer, e.model) != (d.sim.manufacturer, d.sim.model):
                raise Violation("interview: manufacturer and model %r, the device reported %r" % (
                    (e.manufacturer, e.model), (d.sim.manufacturer, d.sim.model)))
            ctx.count("interviewed")
        ctx.sig(d.sim.ieee, d.old, d.sim.nwk, sorted(d.sim.endpoints.items()))
    # traffic to and from the devices
    z.on_data = lambda p: ({"status": 0}, [])
    app.forward = False
    for d in devs:
        del z.cmd_log[:]
        data = gen.rbytes(rng, 5)
        r = await rig.outcome(app.request(app.devices[zt.EUI64(d.sim.ieee)], 260, 6, 1, 1, 9, data), 20)
        sent = [p["dstaddr"] for _, c, p in z.cmd_log if c.name == "dataRequest"]
        if sent != [d.sim.nwk]:
            raise Violation("message for %s went to %s, it is at 0x%04x" % (d.sim.ieee.hex(), sent, d.sim.nwk), outcome=r)
        ctx.count("sent")
        del app.messages[:]
        z.send_now(z.incoming(d.sim, 6, 1, 1, data))
        await asyncio.sleep(0.01)
        got = [(m[1], m[5]) for m in app.messages]
        if got != [(d.sim.ieee, data)]:
            raise Violation("message from %s at 0x%04x was delivered as %r" % (d.sim.ieee.hex(), d.sim.nwk, got))
        ctx.count("received")
        for o in d.old:
            if o in (x.sim.nwk for x in devs):
                continue
            del app.messages[:]
            now, d.sim.nwk = d.sim.nwk, o
            z.send_now(z.incoming(d.sim, 6, 1, 1, data))
            d.sim.nwk = now
            await asyncio.sleep(0.01)
            if app.messages:
                raise Violation("a message from the former address 0x%04x was delivered as %r" % (o, app.messages))
            ctx.count("from_old_address")
    ctx.sample({"expected": expect, "told": told})
    rig.check_wire(z)
    rig.check_escaped(loop)
    await app.shutdown()
