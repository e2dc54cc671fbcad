"""C27: what the driver does depends on its adapter and configuration, not on its past."""
import asyncio
import random

from lib import gen, port, rig, scene, startup, vloop, znp
from lib.core import Violation

PROP = "C27"
CASES = {"quick": 400, "thorough": 5000}
RULE = ("A case gives a driver a random past (requests that succeed, fail, time out or are cancelled, joins, noise, "
        "losses, failed starts, restarts), lets it come to rest, and then records the same events with it, with a "
        "new driver on a copy of the adapter, and with one that ran before. Distinct = distinct (past, recording); "
        "non-trivial = the past had at least one failure, loss or restart.")
REQUIRED = {"compared": 350, "events_compared": 12000, "restarted": 40, "recovered": 40, "kept_running": 40,
            "failed_starts": 20, "losses": 60, "operations_before": 2500}


def make_case(i, rng, ctx):
    return {"product": rng.randrange(3), "seed": rng.randrange(1 << 30), "past": rng.choice((1, 2, 4)),
            "n": rng.choice((5, 20, 50)) if i % 20 else 800, "end": rng.choice(("restart", "loss", "running"))}


def run_case(case, rng, ctx):
    vloop.run(lambda loop: _run(loop, case, rng, ctx), fifo=True)


def clone(z, world, seed):
    c = znp.Znp(world, product=z.product, rng=random.Random(seed), ieee=z.ieee, nv=z.nv)
    c.release = z.release
    c.nib, c.devstate = z.nib, z.devstate
    c.bdb, c.eps, c.groups = dict(z.bdb), dict(z.eps), dict(z.groups)
    return c


async def _scene(loop, life, case, tr):
    """The same events for everybody."""
    rng = random.Random("scene %d" % case["seed"])
    life.z.rng = random.Random("adapter %d" % case["seed"])
    life.app._send_sequence = 0                      # zigpy's own counter
    life.z.devices = {}
    life.next_nwk = 0x6000
    await life.busy(tr, rng, 25, True)
    await life.calm()
    mine = sorted((bytes(i), int(d.nwk), d.lqi, int(d.status)) for i, d in life.app.devices.items() if int(d.nwk) > 0x6000)
    tr.add("table", mine)


async def _run(loop, case, rng, ctx):
    product = case["product"]
    net = startup.config(rng)
    nv = startup.prior(rng, product, rig.expected_net(net))[2]
    recordings = {}

    async def record(name, life):
        tr = scene.Trace(loop)
        scene.watch(tr, life.z, life.app, life.lst)
        await _scene(loop, life, case, tr)
        recordings[name] = tr.items
        life.z.on_host_frame = []

    # one that has seen nothing yet
    w0 = port.World(loop)
    first = scene.Life(loop, w0, rig.PATH, product, case["seed"], nv=nv, net=net)
    if not await first.startup(scene.Trace(loop)):
        raise Violation("startup on an undisturbed adapter failed")
    await first.calm()
    await record("before", first)
    await first.app.shutdown()

    w1 = port.World(loop)
    used = scene.Life(loop, w1, rig.PATH, product, case["seed"], nv=nv, net=net)
    z, app = used.z, used.app
    past = []
    tr = scene.Trace(loop)

    async def up():
        if not await used.startup(tr):
            raise Violation("startup after %s failed on an undisturbed adapter" % past, trace=tr.items[-3:])

    if rng.random() < 0.2:
        z.alive = False
        await used.startup(tr)
        z.alive = True
        past.append("failed start")
        ctx.count("failed_starts")
        await asyncio.sleep(20)
    await up()
    for _ in range(case["past"]):
        n = rng.randrange(1, case["n"] + 1)
        ctx.count("operations_before", n)
        await used.busy(tr, rng, n, True)
        past.append("%d operations" % n)
        await used.calm() if rng.random() < 0.5 else await asyncio.sleep(rng.random() * 3)
        z.policy = lambda cmd, n: None
        x = rng.random()
        if x < 0.3:
            # operations are under way when the line breaks
            t = asyncio.ensure_future(used.busy(tr, rng, 6, False))
            await asyncio.sleep(rng.random() * 0.5)
            if z.port is not None:
                z.port.lose()
            await asyncio.wait([t])
            await asyncio.sleep(60)
            past.append("loss")
            ctx.count("losses")
        elif x < 0.5:
            await app.shutdown()
            await asyncio.sleep(1)
            if rng.random() < 0.4:
                k = [rng.randrange(12)]
                z.policy = lambda cmd, n: {"drop": True} if k.__setitem__(0, k[0] - 1) or k[0] < 0 else None
                r = await rig.outcome(app.startup(auto_form=True), 900)
                z.policy = lambda cmd, n: None
                if r[0] != "ok":
                    past.append("failed start")
                    ctx.count("failed_starts")
                await app.shutdown()
                await asyncio.sleep(1)
            await up()
            past.append("restart")
        elif x < 0.6:
            z.send_now(gen.rbytes(rng, rng.randrange(1, 200)).replace(b"\xfe", b"\0") + b"\xfe\x05\x41\x80")
            await asyncio.sleep(1)
            # ends the half frame; what follows is delivered
            z.send_now(bytes(10))
            past.append("noise")
        else:
            d = rng.choice((0, 5, 254))
            await rig.outcome(app.permit(d), 60)
            past.append("permit %d" % d)
    await used.calm()
    if case["end"] == "restart":
        await app.shutdown()
        await asyncio.sleep(1)
        ctx.count("restarted")
    elif case["end"] == "loss":
        z.port.lose()
        await asyncio.sleep(60)
        await used.calm()
        ctx.count("recovered")
    else:
        ctx.count("kept_running")

    # a new one on a copy of the adapter
    w2 = port.World(loop)
    new = scene.Life(loop, w2, rig.PATH, product, case["seed"], net=net)
    new.z = clone(z, w2, case["seed"])
    w2.attach(rig.PATH, new.z)
    starts = {}
    for name, life, world in (("new", new, w2), ("used", used, w1)):
        if name == "used":
            port.CURRENT = w1
        if name == "new" or case["end"] == "restart":
            life.z.rng = random.Random("start %d" % case["seed"])
            life.z.policy = lambda cmd, n: None
            life.z.delay = lambda cmd: 0.002
            tr = scene.Trace(loop)
            scene.watch(tr, life.z, life.app, life.lst)
            if not await life.startup(tr):
                raise Violation("startup after %s failed (%s driver)" % (past, name), trace=tr.items[-3:])
            await life.calm()
            starts[name] = tr.items
        await record(name, life)
    for a, b in (("before", "new"), ("new", "used")):
        d = scene.differences(recordings[a], recordings[b])
        if d:
            raise Violation("after %s the driver behaves otherwise than a new one, from event %d on" % (past, d[0]),
                            **{a: d[1], b: d[2]})
        ctx.count("compared")
    if len(starts) == 2:
        d = scene.differences(starts["new"], starts["used"])
        if d:
            raise Violation("after %s the driver starts otherwise than a new one, from event %d on" % (past, d[0]),
                            new=d[1], used=d[2])
        ctx.count("compared")
    ctx.count("events_compared", len(recordings["used"]))
    ctx.sig(past, case["end"], len(recordings["used"]))
    ctx.sample({"past": past, "end": case["end"], "recorded": [repr(x)[:120] for x in recordings["used"][:6]]})
    rig.check_escaped(loop)
    await app.shutdown()
    await new.app.shutdown()
