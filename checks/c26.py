"""C26: drivers in one process do not affect each other."""
import asyncio
import random

from lib import port, rig, scene, startup, vloop
from lib.core import Violation

PROP = "C26"
CASES = {"quick": 320, "thorough": 4000}
RULE = ("A case is two or three drivers with their own adapters and random lives (startup on any prior state, "
        "requests, joins, incoming messages, faults, a lost connection, shutdown) and probes of other ports, recorded "
        "once alone and once together. Distinct = distinct recorded life; non-trivial = both lives overlapped.")
REQUIRED = {"lives": 320, "events_compared": 30000, "losses": 60, "probes": 80,
            "different_firmware": 80}


def make_case(i, rng, ctx):
    n = rng.choice((2, 2, 3))
    lives = [{"seed": rng.randrange(1 << 30), "product": rng.randrange(3), "after": rng.choice((0.0, 0.0, 0.3, 2.0, 9.0)),
              "n": rng.choice((3, 10, 25)), "faults": rng.random() < 0.6, "lose": rng.random() < 0.3,
              "again": rng.random() < 0.3} for _ in range(n)]
    at = rng.random() * 20
    same = rng.random() < 0.5
    return {"lives": lives, "probes": [(at if same else rng.random() * 20, rng.choice(("silent", "good", "missing")))
                                       for _ in range(rng.choice((0, 1, 2, 3) if not same else (2, 3)))]}


async def live(loop, world, k, L, out, ctx):
    rng = random.Random(L["seed"])
    net = startup.config(rng)
    nv = startup.prior(rng, L["product"], rig.expected_net(net))[2]
    await asyncio.sleep(L["after"])
    life = scene.Life(loop, world, "/dev/%snull" % ("./" * (k + 1)), L["product"], L["seed"], nv=nv, net=net, base=0x1000)
    tr = scene.Trace(loop)
    scene.watch(tr, life.z, life.app, life.lst)
    out[k] = tr
    for again in range(2 if L["again"] else 1):
        if await life.startup(tr):
            await life.busy(tr, rng, L["n"], L["faults"])
            if L["lose"]:
                life.z.policy = lambda cmd, n: None
                await asyncio.sleep(rng.random())
                life.z.port.lose()
                await asyncio.sleep(60)
                await life.busy(tr, rng, 3, False)
        tr.add("shutdown")
        await life.app.shutdown()
        await asyncio.sleep(3)
    tr.add("table", sorted((bytes(i), int(d.nwk)) for i, d in life.app.devices.items()),
           dict(life.app.version), bytes(life.app.ieee or b""))
    tr.add("adapter", sorted(life.z.nv.items()), life.z.led and [x[1:] for x in life.z.led], life.z.violations)
    tr.over = True


async def probing(loop, world, k, at, how, results):
    from lib import znp
    await asyncio.sleep(at)
    path = "/dev/%szero" % ("./" * k)
    if how != "missing":
        z = znp.Znp(world, product=k % 3)
        z.boot_time = 0.5
        z.alive = how == "good"
        world.attach(path, z)
    r = await rig.outcome(rig.App.probe({"path": path}), 60)
    results.append((how, r))


def run_case(case, rng, ctx):
    alone, together = {}, {}

    async def one(loop, k):
        await live(loop, port.World(loop), k, case["lives"][k], alone, ctx)

    async def all_(loop):
        world = port.World(loop)
        results = []
        await asyncio.gather(*[live(loop, world, k, L, together, ctx) for k, L in enumerate(case["lives"])],
                             *[probing(loop, world, k, at, how, results) for k, (at, how) in enumerate(case["probes"])])
        for how, r in results:
            if r != ("ok", how == "good"):
                raise Violation("a probe of %s adapter beside running drivers ended with %r" % (how, r))
            ctx.count("probes")
        rig.check_escaped(loop)

    first = [k for k in range(len(case["lives"])) if k % 2 == 0]
    for k in first:
        vloop.run(lambda loop: one(loop, k), fifo=True)
    vloop.run(all_, fifo=True)
    for k in range(len(case["lives"])):
        if k not in first:
            vloop.run(lambda loop: one(loop, k), fifo=True)
    products = {L["product"] for L in case["lives"]}
    for k, L in enumerate(case["lives"]):
        a, b = alone[k].items, together[k].items
        d = scene.differences(a, b)
        if d:
            raise Violation("beside others driver %d behaved otherwise than alone, from event %d on" % (k, d[0]),
                            alone=d[1], together=d[2])
        ctx.count("lives")
        ctx.count("events_compared", len(b))
        ctx.count("losses", L["lose"])
        if len(products) > 1:
            ctx.count("different_firmware")
        ctx.sig([(round(x[0], 4),) + x[1:3] for x in a])
    ctx.sample({"lives": case["lives"], "events": [len(together[k].items) for k in together]})
