"""A driver's life, recorded relative to its own start: everything it writes, delivers
and answers.  Deterministic for a given seed and adapter, so two recordings can be compared."""
import asyncio
import random

import zigpy.device
import zigpy.types as zt

from . import gen, mtspec as mt, rig, zdo, znp


class Trace:
    def __init__(self, loop):
        self.loop = loop
        self.t0 = loop.time()
        self.items = []
        self.over = False

    def add(self, *what):
        if self.over:
            return
        self.items.append((self.loop.time() - self.t0,) + what)


def watch(tr, z, app, lst):
    """From now on everything that crosses the driver's boundaries is recorded."""
    z.on_host_frame = [lambda t, typ, sub, cid, data: tr.add("written", typ, sub, cid, bytes(data))]
    app.messages = _Log(tr, "delivered")
    lst.events = _Log(tr, "listener")


class _Log(list):
    def __init__(self, tr, name):
        self.tr, self.name = tr, name

    def append(self, x):
        self.tr.add(self.name, *x[1:])
        list.append(self, x)


def _show(r):
    k, v = r
    if k == "error":
        return (k, type(v).__name__, getattr(v, "status", None))
    if k == "ok" and isinstance(v, (tuple, list)):
        return (k, tuple(int(x) if isinstance(x, int) else str(x)[:200] for x in v))
    return (k, None if v is None else str(type(v)))


class Life:
    """One application with its adapter."""

    def __init__(self, loop, world, path, product, seed, nv=None, net=None, base=0x1000):
        self.loop, self.world, self.path = loop, world, path
        self.rng = random.Random(seed)
        self.z = znp.Znp(world, product=product, rng=random.Random("%s z" % seed), nv=nv,
                         ieee=bytes(self.rng.randrange(256) for _ in range(8)))
        world.attach(path, self.z)
        self.cfg = rig.app_config(path=path, net=net)
        self.app = rig.App(self.cfg)
        self.lst = rig.Listener(loop)
        self.app.add_listener(self.lst)
        self.next_nwk = base
        self.kinds = set()

    def fresh(self):
        self.next_nwk += 1
        return self.next_nwk

    async def startup(self, tr, form=True):
        r = await rig.outcome(self.app.startup(auto_form=form), 900)
        tr.add("startup", _show(r))
        return r[0] == "ok"

    def _ops(self, rng, devs, faults):
        """-> (description, coroutine)"""
        app = self.app
        dev = rig.device(app, rng.choice(devs).ieee)
        k = rng.choice(("unicast", "unicast", "group", "broadcast", "permit", "zdo", "zdo", "read"))
        self.kinds.add(k)
        seq = rng.randrange(256)
        data = gen.rbytes(rng, rng.choice((0, 3, 20, 60)))
        cl = rng.choice((0, 6, 8, 0xFC00))
        if k == "unicast":
            return k, app.request(dev, rng.choice((260, 0xC05E)), cl, 300 if faults and rng.random() < 0.1 else 1, 2, seq, data)
        if k == "group":
            return k, app.mrequest(rng.randrange(65536), 260, cl, 1, seq, data)
        if k == "broadcast":
            return k, app.broadcast(260, cl, 1, 255, 0, rng.randrange(31), seq, data)
        if k == "permit":
            return k, app.permit_ncp(rng.randrange(255))
        if k == "read":
            return k, rig.outcome(dev.zdo.Node_Desc_req(dev.nwk), 60)
        kind = zdo.KINDS[rng.choice(("node", "power", "simple", "active", "match", "bind", "lqi", "leave"))]
        return k, app.request(dev, 0, kind.cluster, 0, 0, seq, bytes([seq]) + kind.request(rng, int(dev.nwk)))

    async def busy(self, tr, rng, n, faults, devs=None):
        """n operations, overlapping, with incoming traffic; ends when all have ended."""
        z, app = self.z, self.app
        own = random.Random(rng.random())
        slow = rng.choice((1e-5, 0.002, 0.05))
        z.delay = lambda cmd: own.random() * slow
        # irregular times: what happens at one instant has no order (rounding)
        z.air_delay = lambda kind: own.choice((0.01, 0.1, 0.6)) * (1 + own.random())
        z.pace = (lambda: (own.randrange(1, 12), own.uniform(0.0003, 0.002))) if rng.random() < 0.6 else None
        p = 0.25 if faults else 0.08

        def policy(cmd, n):
            x = own.random()
            if cmd.subsys not in (mt.AF, mt.ZDO, mt.UTIL) or x > p:
                return None
            return own.choice(({"status": 2}, {"status": 0xE9}, {"drop": True, "silent_areqs": True}) if faults else
                              ({"status": 0x10},))

        z.policy = policy
        devs = devs or [rig.known_device(app, z, rng, self.fresh(), ieee=zdo.ieee(rng)) for _ in range(3)]
        for d in devs:
            d.power = (rng.randrange(256), rng.randrange(256))
            d.neighbors = [zdo.neighbor(rng) for _ in range(rng.randrange(3))]
        tasks = []
        for i in range(n):
            what, coro = self._ops(rng, devs, faults)
            cancel = rng.choice((0.0, 0.005, 0.1, 1.0, 7.0)) if faults and rng.random() < 0.2 else None

            async def one(i=i, what=what, coro=coro, cancel=cancel):
                r = await rig.outcome(coro, 900 if cancel is None else cancel + 1e-4)
                tr.add("ended", i, what, _show(r))

            tasks.append(asyncio.ensure_future(one()))
            x = rng.random()
            if x < 0.3:
                d = rng.choice(devs)
                z.send_now(z.incoming(d, rng.choice((0, 6)), 1, 1, b"\x18" + gen.rbytes(rng, 4), lqi=rng.randrange(256)))
            elif x < 0.36:
                a = rng.choice([a for a in gen.AREQS if a.name in ("stateChangeInd", "leaveInd", "dataConfirm", "srcRtgInd")])
                z.send_now(gen.areq(a, gen.payload(a.req, rng, 60)))
            elif x < 0.40 and faults:
                z.send_now(bytes(rng.choice((0x00, 0x41, 0xEF)) for _ in range(rng.randrange(1, 40))))
            elif x < 0.46:
                z.join(zdo.sim_device(rng, self.fresh()))
            if rng.random() < 0.6:
                await asyncio.sleep(rng.choice((0.001, 0.03, 0.3, 2.0)) * (1 + rng.random()))
        await asyncio.wait(tasks)
        return devs

    async def calm(self):
        """Everything that is still going on comes to its end."""
        self.z.policy = lambda cmd, n: None
        self.z.pace = None
        self.z.delay = lambda cmd: 0.002
        await asyncio.sleep(500)


def differences(a, b, tol=1e-5):
    """First difference between two recordings or None; what happens at the same time has no order."""
    a, b = _canon(a, tol), _canon(b, tol)
    for i in range(max(len(a), len(b))):
        x, y = a[i:i + 1], b[i:i + 1]
        if not x or not y or x[0][1:] != y[0][1:] or abs(x[0][0] - y[0][0]) > tol:
            return i, a[max(0, i - 2):i + 3], b[max(0, i - 2):i + 3]
    return None


def _canon(items, tol):
    out, group = [], []
    for it in items:
        if group and it[0] - group[0][0] > tol:
            out += sorted(group, key=lambda g: repr(g[1:]))
            group = []
        group.append(it)
    return out + sorted(group, key=lambda g: repr(g[1:]))
