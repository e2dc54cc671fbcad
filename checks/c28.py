"""C28: what arrives costs bounded memory and time, and the event loop is never blocked."""
import asyncio
import sys

import zigpy.types as zt

from lib import gen, live, mtspec as mt, port, rig, scene, startup, vloop, zdo
from lib.core import Violation

PROP = "C28"
CASES = {"quick": 480, "thorough": 3000}
RULE = ("A case floods a running driver with one mixture of input (noise, partial frames, wrong checksums, undefined "
        "commands, answers nobody waits for, notifications) in random cuts and compares what the driver holds and how "
        "much code it runs per byte before and after, or lives a whole life (start, requests, faults, loss, probe, "
        "shutdown) watched for calls that block. Distinct = distinct (mixture, cuts) or life; non-trivial = bytes arrived.")
REQUIRED = {"floods": 110, "bytes": 2500000, "frames": 30000, "work_measured": 40, "lives": 60, "removals": 90, "lives_auto": 25, "life_events": 4000}
KINDS = ("noise", "fe", "half", "checksum", "undefined", "answers", "notifications", "messages", "truncated", "requests", "mixed")
SLACK = 2048                 # an unfinished frame is at most 260 bytes


def make_case(i, rng, ctx):
    k = i % 4
    return {"what": ("flood", "flood", "work", "life")[k], "kind": KINDS[(i // 4) % len(KINDS)] if k < 2 else rng.choice(KINDS),
            "cut": rng.choice((1, 7, 64, 1024, 1024)), "product": rng.randrange(3), "seed": rng.randrange(1 << 30)}


def run_case(case, rng, ctx):
    loops = []

    def main(loop):
        loops.append(loop)
        return {"flood": _flood, "work": _work, "life": _life}[case["what"]](loop, case, rng, ctx)
    vloop.run(main)
    if loops[0].blocked:
        raise Violation("the driver blocked the event loop for %s s" % loops[0].blocked[0][0], where=loops[0].blocked[0][1])


def piece(kind, rng, nwks):
    if kind == "mixed":
        kind = rng.choice(KINDS[:-1])
    if kind == "noise":
        return bytes(b for b in gen.rbytes(rng, rng.randrange(1, 300)) if b != 0xFE)
    if kind == "fe":
        return gen.rbytes(rng, rng.randrange(1, 300))
    if kind == "half":
        a = rng.choice(gen.AREQS)
        f = gen.areq(a, gen.payload(a.req, rng))
        return f[:rng.randrange(1, len(f))]
    if kind == "checksum":
        a = rng.choice(gen.AREQS)
        f = bytearray(gen.areq(a, gen.payload(a.req, rng)))
        f[rng.randrange(2, len(f))] ^= 1 << rng.randrange(8)
        return bytes(f)
    if kind == "undefined":
        return mt.frame(rng.choice((mt.SRSP, mt.AREQ, mt.SREQ)), rng.randrange(32), rng.randrange(256), gen.rbytes(rng, rng.randrange(60)))
    if kind == "answers":
        c = rng.choice(gen.RSPS)
        return gen.srsp(c, gen.payload(c.rsp, rng, 60))
    if kind == "requests":
        c = rng.choice(gen.REQS)
        return mt.frame(mt.SREQ, c.subsys, c.id, mt.encode(c.req, gen.payload(c.req, rng, 60)))
    a = rng.choice(gen.AREQS)
    if kind == "messages":
        a = mt.BY_NAME[(mt.AF, "incomingMsg")]
    p = gen.payload(a.req, rng, 80 if kind != "messages" else 5)
    for n in p:
        # few devices: each of them may well be remembered
        if n in ("srcaddr", "nwkaddr", "dstaddr", "nwkAddr"):
            p[n] = rng.choice(nwks)
        elif n in ("extaddr", "ieeeaddr", "srcextaddr"):
            p[n] = bytes([rng.choice(nwks) & 255]) * 8
    f = gen.areq(a, p)
    if kind == "truncated":
        return mt.frame(mt.AREQ, a.subsys, a.id, f[4:-1][:rng.randrange(max(1, len(f) - 5))])
    return f


def stream(kind, rng, nwks, n):
    out = bytearray()
    k = 0
    while len(out) < n:
        out += piece(kind, rng, nwks)
        k += 1
    return bytes(out), k


async def _feed(z, data, cut, rng):
    at = 0
    while at < len(data):
        part = data[at:at + 4096]
        z.port.feed(part, [rng.randrange(1, cut + 1) for _ in range(2 * len(part) // (cut + 1) + 1)])
        at += len(part)
        await asyncio.sleep(rng.choice((0.001, 0.001, 0.05)))
    while z.port.rx:
        await asyncio.sleep(0.001)


async def _flood(loop, case, rng, ctx):
    _, z, app = await rig.app_rig(loop, rng, product=case["product"])
    nwks = [0x2001 + i for i in range(6)]
    for n in nwks[:3]:
        rig.known_device(app, z, rng, n, ieee=bytes([n & 255]) * 8)
    app.messages = []
    app.forward = False
    z.on_data = lambda p: ({"status": 0}, [])
    cut = case["cut"]

    async def round_(n):
        data, k = stream(case["kind"], rng, nwks, n)
        await _feed(z, data, cut, rng)
        # all interviews of devices that do not exist are over; the frame begun last stays unfinished
        await asyncio.sleep(700)
        del app.messages[:]
        ctx.count("bytes", len(data))
        ctx.count("frames", k)
        z.cmd_log.clear()
        return live.size(loop, app)

    sizes = [await round_(2500)]
    for n in (6000, 12000):
        sizes.append(await round_(n))
    if sizes[2] - sizes[0] > SLACK and sizes[2] - sizes[1] > SLACK // 2:
        raise Violation("after 18000 bytes of input (%s) the driver holds %d bytes more than before" % (
            case["kind"], sizes[2] - sizes[0]), sizes=sizes)
    ctx.count("floods")
    ctx.sig(case)
    ctx.sample({"case": case, "held": sizes})
    rig.check_escaped(loop)
    await app.shutdown()


class Calls:
    """Counts the Python functions run between enter and exit."""

    def __enter__(self):
        self.n = 0

        def tick(frame, event, arg):
            if event in ("call", "c_call"):
                self.n += 1
        sys.setprofile(tick)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)


async def _work(loop, case, rng, ctx):
    """Work per byte: the second, third and fourth quarter of a flood cost what the first did."""
    from lib.adapter import Adapter
    _, ad, api, rec = await rig.api_rig(loop, Adapter)
    rec.handle_znp = lambda obj: None
    nwks = [0x2001]
    k = 1500
    data, _ = stream(case["kind"], rng, nwks, 200)
    costs = []
    await _feed(ad, data, case["cut"], rng)
    parts = [stream(case["kind"], rng, nwks, k)[0] for _ in range(8)]
    for part in parts:
        ad.port.feed(part, [case["cut"]] * (len(part) // case["cut"] + 1))
        with Calls() as c:
            while ad.port.rx:
                await asyncio.sleep(0.001)
        costs.append(c.n / len(part))
    a, b = sum(costs[:4]), sum(costs[4:])
    if b > 1.6 * a + 8:
        raise Violation("work per byte grows: %.1f calls per byte at first, %.1f later" % (a / 4, b / 4), costs=costs)
    ctx.count("work_measured")
    ctx.count("bytes", sum(map(len, parts)))
    ctx.sig(case, [int(c) for c in costs])
    ctx.sample({"case": case, "calls per byte": [round(c, 1) for c in costs]})


async def _life(loop, case, rng, ctx):
    world = port.World(loop)
    net = startup.config(rng)
    nv = startup.prior(rng, case["product"], rig.expected_net(net))[2]
    life = scene.Life(loop, world, rig.PATH, case["product"], case["seed"], nv=nv, net=net)
    auto = rng.random() < 0.5
    if auto:
        # the stick is found by its USB ids
        from serial.tools.list_ports_common import ListPortInfo
        stick = ListPortInfo(rig.PATH)
        stick.vid, stick.pid, stick.serial_number = 0x0451, 0x16A8, "L1"
        stick.apply_usb_info()
        life.cfg["device"]["path"] = "auto"
        await rig.outcome(rig.App.probe(life.cfg["device"]), 60)
        r = await rig.outcome(life.app.startup(auto_form=True), 60)
        if r[0] == "ok":
            raise Violation("startup succeeded without an adapter")
        world.comports = [stick]
        ctx.count("lives_auto")
    tr = scene.Trace(loop)
    scene.watch(tr, life.z, life.app, life.lst)
    await rig.outcome(rig.App.probe(life.cfg["device"]), 60)
    if await life.startup(tr):
        await life.busy(tr, rng, 10, True)
        life.z.policy = lambda cmd, n: None
        life.z.port.lose()
        if auto:
            world.comports = []
            loop.call_later(rng.choice((3, 12, 30)), lambda: setattr(world, "comports", [stick]))
        elif rng.random() < 0.5:
            world.open_error[rig.PATH] = lambda n, e=rng.randrange(1, 4): OSError("gone") if len(world.opens) < e + 2 else None
        await asyncio.sleep(60)
        devs = await life.busy(tr, rng, 4, False)
        life.z.policy = lambda cmd, n: None
        for k, d in enumerate(devs):
            # removal: the adapter asks the device, refuses to, or does not answer
            if k:
                life.z.policy = lambda cmd, n, k=k: None if cmd.name != "mgmtLeaveReq" else {"status": 2} if k == 1 else {"noexec": True}
            n0 = sum(c.name == "mgmtLeaveReq" for _, c, _ in life.z.cmd_log)
            await rig.outcome(life.app.permit(rng.randrange(255), node=zt.EUI64(d.ieee)), 100)
            r = await rig.outcome(life.app.remove(zt.EUI64(d.ieee)), 200)
            if r[0] == "ok" and sum(c.name == "mgmtLeaveReq" for _, c, _ in life.z.cmd_log) > n0:
                ctx.count("removals")
    await life.app.shutdown()
    await asyncio.sleep(1)
    ctx.count("lives")
    ctx.count("life_events", len(tr.items))
    ctx.sig(case, len(tr.items))
