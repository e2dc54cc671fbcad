"""C29: known devices survive a restart; removed devices are gone."""
import asyncio
import os
import shutil
import tempfile

import zigpy.device
import zigpy.types as zt
from lib import gen, mtspec as mt, port, rig, startup, vloop, zdo, znp
from lib.core import Violation

PROP = "C29"
CASES = {"quick": 480, "thorough": 4000}
RULE = ("A case is an adapter and a database through 2-4 runs of the application: devices join, move, are removed "
        "(answering, silent, rejected, unanswered), are scanned for neighbours; some starts fail in between; then "
        "every known device is used without a new interview. Distinct = distinct (run, devices); non-trivial = a "
        "device was known from an earlier run.")
REQUIRED = {"restarts": 250, "known_again": 500, "moved": 60, "removed": 100, "removed_young": 150, "removed_unanswered": 20,
            "gone_after_restart": 60, "rejoined": 20, "failed_starts": 40, "used": 800, "neighbors": 100}


def make_case(i, rng, ctx):
    return {"product": rng.randrange(3), "runs": rng.choice((2, 3, 4)) if i % 80 != 2 else 15,
            "devices": rng.choice((1, 3, 6)) if i % 80 != 1 else 60,
            "crash": rng.random() < 0.3}


def run_case(case, rng, ctx):
    scratch = tempfile.mkdtemp(prefix="c29-")
    try:
        vloop.run(lambda loop: _run(loop, case, rng, ctx, os.path.join(scratch, "zigbee.db")))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def describe(dev):
    return {"nwk": int(dev.nwk), "status": int(dev.status), "manufacturer": dev.manufacturer, "model": dev.model,
            "node": dev.node_desc.serialize() if dev.node_desc.is_valid else None,
            "endpoints": {n: (e.profile_id, None if e.device_type is None else int(e.device_type),
                              sorted(e.in_clusters), sorted(e.out_clusters))
                          for n, e in dev.endpoints.items() if n}}


async def _run(loop, case, rng, ctx, db):
    world = port.World(loop)
    net = startup.config(rng) if rng.random() < 0.5 else None
    exp = rig.expected_net(net)
    kind, _, nv = startup.prior(rng, case["product"], exp)
    z = znp.Znp(world, product=case["product"], rng=rng, nv=nv)
    world.attach(rig.PATH, z)
    z.air_delay = lambda kind: rng.choice((0.01, 0.05, 0.3))
    cfg = rig.app_config(net=net)
    cfg["database_path"] = db
    cfg = rig.zcfg.CONFIG_SCHEMA(cfg)
    known = {}                                  # ieee -> description
    sims = {}                                   # ieee -> simulated device
    gone = {}
    young = set()                               # removed before their interview ended
    used = {0}
    lst = rig.Listener(loop)

    def fresh():
        while True:
            n = rng.choice((1, 2, 0xFF, 0x100, 0xFFF7, rng.randrange(1, 0xFFF8), rng.randrange(1, 0xFFF8)))
            if n not in used:
                used.add(n)
                return n

    def table(app, when):
        got = {bytes(i) for i in app.devices}
        if got != set(known) | {z.ieee}:
            raise Violation("%s the device table has %s, expected %s and the coordinator" % (
                when, sorted(x.hex() for x in got), sorted(x.hex() for x in known)))
        c = rig.device(app, z.ieee)
        if int(c.nwk) != 0 or app.get_device(nwk=0) is not c:
            raise Violation("%s address 0 is not the coordinator" % when)

    def interviews():
        """What the devices in use were asked; the interview of one that was removed early may still go on."""
        here = {sim.nwk for ie, sim in sims.items() if ie not in young}
        return {c.name for _, c, p in z.cmd_log if c.subsys == mt.ZDO and p.get("dstaddr") in here}

    async def use(app):
        del z.cmd_log[:]
        asked = set()
        z.on_data = lambda p: ({"status": 0}, [])      # devices say only what is made up here
        for ie, sim in sims.items():
            dev = rig.device(app, ie)
            data = gen.rbytes(rng, 5)
            asked.update(interviews())
            del z.cmd_log[:]
            r = await rig.outcome(app.request(dev, 260, 6, 1, 1, 9, data), 20)
            sent = [(p["dstaddr"], bytes(p["data"])) for _, c, p in z.cmd_log if c.name == "dataRequest"]
            if sent != [(sim.nwk, data)] or r[0] != "ok" or r[1][0] != 0:
                raise Violation("a message for %s was sent as %s (%r), it is at 0x%04x" % (ie.hex(), sent, r, sim.nwk))
            del app.messages[:]
            ep = rng.choice(sorted(sim.endpoints) or [1])
            # a report zigpy can store: its database takes no attributes of every type
            data = gen.rbytes(rng, 2) + b"\x20" + gen.rbytes(rng, 1)
            z.send_now(z.incoming(sim, 6, ep, 1, b"\x18\x01\x0a" + data))
            await asyncio.sleep(0.01)
            got = [(m[1], m[5][3:]) for m in app.messages]
            if got != [(ie, data)]:
                raise Violation("a message from %s was delivered as %r" % (ie.hex(), got))
            ctx.count("used")
        for ie, sim in gone.items():
            del app.messages[:]
            z.send_now(z.incoming(sim, 6, 1, 1, b"\x18\x01\x0a"))
            await asyncio.sleep(0.01)
            if app.messages:
                raise Violation("a message from %s, which was removed, was delivered as %r" % (ie.hex(), app.messages))
        odd = sorted(interviews() | asked)
        if odd:
            raise Violation("using a known device asked it for %s" % odd)
        z.on_data = None

    async def join(app, sim):
        z.join(sim)
        await asyncio.sleep(60)
        dev = app.devices.get(zt.EUI64(sim.ieee))
        if dev is None or dev.status != zigpy.device.Status.ENDPOINTS_INIT:
            raise Violation("device %s joined and is not interviewed: %r" % (sim.ieee.hex(), dev))
        sims[sim.ieee] = sim
        known[sim.ieee] = describe(dev)

    async def remove_young(app):
        """A device that is removed before it has answered anything."""
        sim = zdo.sim_device(rng, fresh())
        sim.silent = True
        z.join(sim)
        await asyncio.sleep(rng.choice((0.05, 0.5, 3, 12)))
        if zt.EUI64(sim.ieee) not in app.devices:
            raise Violation("device %s joined and is not known" % sim.ieee.hex())
        sims[sim.ieee], known[sim.ieee] = sim, None
        young.add(sim.ieee)
        await remove(app, sim.ieee, rng.choice(("silent", "rejected", "unanswered")))
        ctx.count("removed_young")

    async def remove(app, ie, how=None):
        sim = sims.pop(ie)
        early = how is not None
        how = how or rng.choice(("answers", "answers", "silent", "rejected", "unanswered", "error"))
        del lst.events[:]
        hook = z.zdo_hook
        sim.silent = how == "silent" or early
        if how == "rejected":
            z.policy = lambda cmd, n: {"status": rng.choice((1, 2, 0x10))} if cmd.name == "mgmtLeaveReq" else None
        elif how == "unanswered":
            z.policy = lambda cmd, n: {"drop": True, "silent_areqs": True} if cmd.name == "mgmtLeaveReq" else None
        elif how == "error":
            z.zdo_hook = lambda name, dst, p, body, default: [(0.05, mt.command_frame(mt.ZDO, "mgmtLeaveRsp", dict(
                srcaddr=dst, status=0x84), mt.AREQ))] if name == "mgmtLeaveRsp" else None
        del z.cmd_log[:]
        r = await rig.outcome(app.remove(zt.EUI64(ie)), 60)
        z.policy = lambda cmd, n: None
        z.zdo_hook = hook
        if r[0] != "ok":
            raise Violation("removing a device (%s) ended with %r" % (how, r))
        asked = [(p["dstaddr"], p["deviceaddress"]) for _, c, p in z.cmd_log if c.name == "mgmtLeaveReq"]
        if asked != [(sim.nwk, ie)]:
            raise Violation("removing %s at 0x%04x sent the leave requests %s" % (ie.hex(), sim.nwk, asked))
        if [e[1:] for e in lst.events if e[1] == "device_removed"] != [("device_removed", ie)]:
            raise Violation("listeners were told %r when %s was removed" % (lst.events, ie.hex()))
        z.devices.pop(sim.nwk, None)
        sim.silent = False
        del known[ie]
        gone[ie] = sim
        ctx.count("removed")
        if how in ("silent", "unanswered"):
            ctx.count("removed_unanswered")
        await asyncio.sleep(rng.choice((0, 0.3, 40)))

    async def scan(app):
        for sim in sims.values():
            sim.neighbors = [dict(zdo.neighbor(rng), deviceType=1, relationship=3, rxOnWhenIdle=1, permitJoin=1)
                             for _ in range(rng.choice((0, 1, 2, 5, 5, 40)) if rng.random() < 0.98 else 250)]
        t = asyncio.ensure_future(app.topology.scan())
        done, _ = await asyncio.wait([t], timeout=600)
        if not done:
            raise Violation("a neighbour scan does not end")
        t.result()
        for ie, sim in sims.items():
            dev = rig.device(app, ie)
            if dev.node_desc.is_end_device:
                continue
            got = [(bytes(n.neighbor.ieee), int(n.neighbor.nwk), int(n.neighbor.lqi)) for n in dev.neighbors.neighbors]
            want = [(n["extAddr"], n["nwkAddr"], n["lqi"]) for n in sim.neighbors]
            if got != want:
                raise Violation("neighbours of %s: %s, the device has %s" % (ie.hex(), got, want))
            ctx.count("neighbors", len(want))

    for k in range(case["runs"]):
        if rng.random() < 0.3:
            # a start that fails in between
            if rng.random() < 0.5:
                z.alive = False
            else:
                n = rng.randrange(6)
                z.policy = lambda cmd, m, t=[n]: {"drop": True} if t.__setitem__(0, t[0] - 1) or t[0] < 0 else None
            bad = await rig.outcome(rig.App.new(cfg, auto_form=True), 600)
            if bad[0] == "ok":
                await bad[1].shutdown()
            elif bad[0] == "limit":
                raise Violation("a start without answers does not end")
            z.alive = True
            z.policy = lambda cmd, n: None
            if world.open_ports:
                raise Violation("a failed start left the port open")
            await asyncio.sleep(30)
            ctx.count("failed_starts")
        writes, resets = len(z.nv_writes), z.resets
        r = await rig.outcome(rig.App.new(cfg, auto_form=True), 600)
        if r[0] != "ok":
            raise Violation("start %d failed: %r" % (k, r))
        app = r[1]
        app.add_listener(lst)
        if k:
            ctx.count("restarts")
            if z.resets != resets or len(z.nv_writes) != writes:
                raise Violation("start %d re-initialised the adapter: its devices are lost" % k)
        await asyncio.sleep(1)
        table(app, "after start %d" % k)
        for ie, d in known.items():
            now = describe(rig.device(app, ie))
            if now != d:
                raise Violation("after start %d device %s is %r, it was %r" % (k, ie.hex(), now, d))
            ctx.count("known_again", 1 if k else 0)
        ctx.sig(k, sorted(known), sorted(sims[x].nwk for x in sims))
        await use(app)
        for ie in gone:
            ctx.count("gone_after_restart", 1 if k else 0)
        for _ in range(case["devices"] if k == 0 else rng.randrange(3)):
            x = rng.random()
            if x < 0.6 or not sims:
                if gone and rng.random() < 0.5:
                    ie = rng.choice(sorted(gone))
                    sim = gone.pop(ie)
                    if rng.random() < 0.5 or any(x.nwk == sim.nwk for x in sims.values()):
                        sim.nwk = fresh()
                    ctx.count("rejoined")
                else:
                    sim = zdo.sim_device(rng, fresh())
                await join(app, sim)
            elif x < 0.75:
                sim = sims[rng.choice(sorted(sims))]
                z.devices.pop(sim.nwk)
                sim.nwk = fresh()
                await join(app, sim)
                ctx.count("moved")
            else:
                await remove(app, rng.choice(sorted(sims)))
        if rng.random() < 0.3:
            await remove_young(app)
        if rng.random() < 0.5 and sims:
            await remove(app, rng.choice(sorted(sims)))
        if rng.random() < 0.5:
            await scan(app)
        table(app, "at the end of run %d" % k)
        await use(app)
        if case["crash"] and rng.random() < 0.5:
            # the process ends without a word
            z.port.lose()
            await asyncio.sleep(0)
        await app.shutdown()
        await asyncio.sleep(0.05)
        app._dblistener._db.close()
        if world.open_ports:
            raise Violation("the port is open after shutdown")
        await asyncio.sleep(rng.choice((1, 60)))
    ctx.sample({"runs": case["runs"], "known": {k.hex(): v for k, v in known.items()}})
    rig.check_wire(z)
    rig.check_escaped(loop)
