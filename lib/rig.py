"""Rigs: the real driver on a virtual loop and an in-memory port."""
import asyncio

import zigpy.application
import zigpy.config
import zigpy.types as zt
import zigpy_cc.config as zcfg
from zigpy_cc import uart
from zigpy_cc.api import API
from zigpy_cc.zigbee.application import ControllerApplication

from . import mtspec as mt
from . import port, vloop
from .core import Violation

PATH = "/dev/null"
AGE = 0          # exchanges a driver has behind it before a case begins (set by core)


def device_config(path=PATH, **kw):
    return zcfg.SCHEMA_DEVICE(dict(path=path, **kw))


def norm(v):
    """Plain-Python view of a payload value."""
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return int(v)
    if isinstance(v, (bytes, bytearray)):
        return bytes(v)
    if isinstance(v, zt.EUI64):
        return bytes(v)
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    return v


def norm_payload(p):
    return {k: norm(v) for k, v in p.items()}


# what application code raises when it is wrong
ERRORS = (RuntimeError, KeyError, ValueError, TypeError, AttributeError, IndexError, AssertionError, NotImplementedError,
          OSError, asyncio.TimeoutError, UnicodeDecodeError, ZeroDivisionError, StopIteration, LookupError, EOFError)
_errors = 0


def an_error():
    """A different one every time."""
    global _errors
    _errors += 1
    c = ERRORS[_errors % len(ERRORS)]
    return c("utf-8", b"x", 0, 1, "handler error") if c is UnicodeDecodeError else c("handler error")


class RecorderApp:
    """Stands in for the application above the API."""

    def __init__(self, loop):
        self.loop = loop
        self.got = []        # (time, type, subsystem, command, payload)
        self.lost = 0
        self.raise_on = None

    def handle_znp(self, obj):
        self.got.append((self.loop.time() - 1000.0, int(obj.command_type), int(obj.subsystem),
                         obj.command, norm_payload(obj.payload)))
        if self.raise_on is not None and self.raise_on(obj):
            raise an_error()

    def connection_lost(self):
        self.lost += 1


async def api_rig(loop, adapter_factory, config=None):
    """-> (world, adapter, api, recorder), connected."""
    world = port.World(loop)
    adapter = adapter_factory(world)
    world.attach(PATH, adapter)
    rec = RecorderApp(loop)
    api = await API.new(rec, config or device_config())
    return world, adapter, api, rec


IGNORED_MESSAGES = ("Fatal write error on serial transport",)


def escaped(loop):
    """Errors that escaped into event-loop callbacks, transport noise aside."""
    return [e for e in loop.escaped if not any(m in e[1] for m in IGNORED_MESSAGES)]


def check_escaped(loop):
    e = escaped(loop)
    if e:
        raise Violation("an error escaped into the event loop: %s %s" % (e[0][1], e[0][2]), escaped=e[:3])


def check_wire(adapter):
    if adapter.wire_errors:
        raise Violation("malformed output on the serial line: %s" % adapter.wire_errors[0],
                        errors=adapter.wire_errors[:5])


# ------------------------------------------------------------------ application
class Listener:
    def __init__(self, loop):
        self.loop = loop
        self.events = []

    def _add(self, name, *a):
        self.events.append((self.loop.time() - 1000.0, name) + a)

    def device_joined(self, dev):
        self._add("device_joined", bytes(dev.ieee), int(dev.nwk))

    def device_initialized(self, dev):
        self._add("device_initialized", bytes(dev.ieee), int(dev.nwk))

    def device_removed(self, dev):
        self._add("device_removed", bytes(dev.ieee))


class App(ControllerApplication):
    """The real application, observed at zigpy's message entry point."""

    def __init__(self, config):
        super().__init__(config)
        self.messages = []
        self.forward = True
        self.lost_calls = 0
        self.raise_on = None

    def handle_message(self, sender, profile, cluster, src_ep, dst_ep, message):
        self.messages.append((asyncio.get_event_loop().time() - 1000.0, bytes(sender.ieee), int(cluster),
                              int(src_ep), int(dst_ep), bytes(message), sender.lqi, int(profile)))
        if self.raise_on is not None and self.raise_on(message):
            raise an_error()
        if self.forward:
            return super().handle_message(sender, profile, cluster, src_ep, dst_ep, message)


DEFAULT_KEY = bytes([1, 3, 5, 7, 9, 11, 13, 15, 0, 2, 4, 6, 8, 10, 12, 13])


def app_config(path=PATH, net=None, **dev):
    """net: dict(channels=[..], pan=int, extpan=bytes8 (wire order), key=bytes16) or None."""
    cfg = {"device": dict(path=path, **dev), "database_path": None}
    if net is not None:
        n = {}
        if net.get("channels") is not None:
            n["channels"] = list(net["channels"])
        if net.get("pan") is not None:
            n["pan_id"] = net["pan"]
        if net.get("extpan") is not None:
            n["extended_pan_id"] = ":".join("%02x" % b for b in reversed(net["extpan"]))
        if net.get("key") is not None:
            n["key"] = list(net["key"])
        cfg["network"] = n
    return zcfg.CONFIG_SCHEMA(cfg)


def expected_net(net=None):
    """What a configuration means, as bytes in the adapter's memory."""
    net = net or {}
    ch = net.get("channels")
    mask = 0
    for c in (ch if ch is not None else [15, 20, 25]):   # zigpy's default
        mask |= 1 << c
    pan = net.get("pan")
    return {
        "channels": mask.to_bytes(4, "little"),
        "pan": 0x1A62 if pan is None else pan,
        "extpan": bytes(net.get("extpan") or b"\xdd" * 8),
        "key": bytes(net.get("key") or DEFAULT_KEY),
    }


async def settle(t=0.0):
    await asyncio.sleep(t)


async def outcome(coro, limit=None):
    """-> ("ok", value) / ("error", exc) / ("limit",)"""
    task = asyncio.ensure_future(coro)
    if limit is not None:
        done, _ = await asyncio.wait([task], timeout=limit)
        if not done:
            task.cancel()
            try:
                await task
            except BaseException:
                pass
            return ("limit", None)
    try:
        return ("ok", await task)
    except asyncio.CancelledError:
        if task.cancelled():
            return ("cancelled", None)
        raise
    except Exception as e:
        return ("error", e)


async def app_rig(loop, rng, product=0, form=None, net=None, **kw):
    """-> (world, znp, app) started; form=False skips the check of the adapter's
    configuration, None sometimes lets it find one or another."""
    from . import startup, znp
    world = port.World(loop)
    if form is None and rng.random() < 0.3:
        form = True
        kw["nv"] = startup.prior(rng, product, expected_net(net))[2]
    z = znp.Znp(world, product=product, rng=rng, **kw)
    world.attach(PATH, z)
    app = App(app_config(net=net))
    kind, val = await outcome(app.startup(auto_form=bool(form)), 600)
    if kind != "ok":
        raise Violation("startup on an undisturbed adapter failed: %s %r" % (kind, val))
    if AGE:
        await _age(z, app, AGE)
    return world, z, app


async def _age(z, app, n):
    """A long uneventful past: exchanges, broadcasts, notifications and messages of strangers."""
    forward, app.forward = app.forward, False
    me = app.devices[app.ieee]
    for k in range(n):
        if k % 5 == 0:
            z.areq(mt.AF, "incomingMsg", dict(
                groupid=0, clusterid=6, srcaddr=0xFFF5, srcendpoint=1, dstendpoint=1, wasbroadcast=0, linkquality=k % 256,
                securityuse=0, timestamp=k, transseqnumber=k % 256, len=3, data=b"\x18\x01\x0b"))
        elif k % 5 == 1:
            z.areq(mt.ZDO, "leaveInd", dict(srcaddr=0xFFF5, extaddr=bytes(8), request=0, removechildren=0, rejoin=0))
        if k % 16 == 9:
            r = await outcome(app.broadcast(260, 6, 1, 1, 0, 0, k % 256, b"\x01\x00\x00"), 60)
        elif k % 4 == 2:
            r = await outcome(app.request(me, 260, 6, 1, 1, k % 256, b"\x01\x00\x00", expect_reply=k % 8 == 2), 60)
        else:
            r = await outcome(app._api.request(mt.SYS, "ping", {}), 60)
        if r[0] != "ok":
            raise Violation("exchange %d on an undisturbed adapter ended with %s %r" % (k, r[0], r[1]))
    await asyncio.sleep(15)
    app.messages.clear()
    app.forward = forward


async def used_api_rig(loop, rng, adapter_factory):
    """-> (world, adapter, api, app): the connection of a started application,
    the adapter behind it replaced by a scripted one."""
    world, z, app = await app_rig(loop, rng, product=rng.randrange(3))
    await asyncio.sleep(1)
    ad = adapter_factory(world)
    ad.skip_seen = True
    ad.port, z.port.device = z.port, ad
    z.port = None
    z.gen += 1
    app.forward = False
    return world, ad, app._api, app


def known_device(app, z, rng, nwk, ieee=None, ready=True, router=True):
    """A device both sides know (no interview)."""
    import zigpy.device
    import zigpy.zdo.types as zdot
    from . import zdo, znp
    d = znp.SimDevice(ieee or zdo.ieee(rng), nwk, znp.node_desc_fields(rng), {})
    z.devices[nwk] = d
    dev = app.add_device(zt.EUI64(d.ieee), nwk)
    if ready:
        dev.status = zigpy.device.Status.ENDPOINTS_INIT
        # a valid descriptor keeps zigpy from asking for one
        dev.node_desc = zdot.NodeDescriptor(1 if router else 2, 64, 142 if router else 128, 4476, 82, 82, 0, 82, 0)
    return d


def device(app, ieee):
    return app.devices[zt.EUI64(ieee)]
